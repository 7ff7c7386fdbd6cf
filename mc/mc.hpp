// Explicit enumeration of bounded choice trees, sharded over forked workers.
//
// A check is a list of families. A family's run() makes its choices through a Chooser; the driver visits every
// leaf of the choice tree exactly once (depth first, no sampling). After the choices that make up a case, run()
// calls ctx.begin(description); the case then belongs to exactly one worker. Whatever ends a worker (sanitizer
// report, signal, CPU limit) is attributed to the case it was in. Every violation is replayed from its choice
// sequence in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

class Chooser {
public:
    std::vector<uint32_t> seq, ar;
    size_t pos = 0;
    uint32_t pick(uint32_t n);                       // 0..n-1
    template <class T> const T& of(const std::vector<T>& v) { return v[pick((uint32_t)v.size())]; }
    bool flag() { return pick(2) == 1; }
    bool next();                                     // to the next leaf, false after the last
    void rewind() { pos = 0; }
};

struct Shm;

class Ctx {
public:
    int worker = 0, workers = 1;
    bool thorough = false;
    std::string scratch;                             // private directory of this worker
    // True if this worker owns the case. `text` must be enough to understand the case.
    bool begin(const std::string& text);
    void fail(const std::string& what, const std::string& detail = "");
    void evals(uint64_t n = 1);                      // executions of the real code
    void steps(uint64_t n = 1);                      // compared steps (callbacks, bytes, answers)
    void nontrivial(uint64_t n = 1);
    void traces(uint64_t n = 1);                     // reference traces replayed on the implementation
    void outcome(const std::string& name, uint64_t n = 1);
    void sample(const std::string& text);
    bool failed() const { return failed_; }
    // internals
    Shm* shm = nullptr;
    uint64_t index = 0, start_index = 0;
    const Chooser* ch = nullptr;
    int family = 0;
    bool replay = false, failed_ = false, in_case = false;
    std::vector<std::string> replay_msgs;
};

struct Family {
    std::string name;
    std::function<void(Chooser&, Ctx&)> run;
};

struct Options {
    std::string property;
    std::string rule;                                // how cases are made
    std::vector<std::string> assumptions;
    double case_cpu_s = 60;                          // CPU limit of one case
    bool big_stack = false;
};

int main_driver(int argc, char** argv, const Options& opt, const std::vector<Family>& families);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const uint8_t* p, size_t n);
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

} // namespace mc
