// Driving the real code: compile a schema with the public compiler API, run the public VM API against a host that
// knows what it must be asked next.
#pragma once
#include "ref.hpp"
extern "C" {
#include "concordia.h"
#include "compiler.h"
}
#include <cstdlib>
#include <cstring>

namespace impl {

bool write_file(const std::string& path, const std::string& data);
bool read_file(const std::string& path, std::string& out);
int compile(const std::string& src, std::string& il, const std::string& dir); // 0 on success
int compile_file(const std::string& in, const std::string& out_path, std::string* diag = nullptr, bool json = false); // diag: what was printed

struct Arena { uint8_t* p; size_t cap; explicit Arena(size_t n); ~Arena(); Arena(const Arena&) = delete; };
// Memory of exactly n bytes on the heap, so that the sanitizer sees the first byte outside
struct Block {
    uint8_t* p; size_t n;
    explicit Block(size_t k, int fill = 0) : p((uint8_t*)malloc(k ? k : 1)), n(k) { memset(p, fill, k); if (!k) { free(p); p = (uint8_t*)malloc(1) ; } }
    explicit Block(const std::vector<uint8_t>& v) : p((uint8_t*)malloc(v.size() ? v.size() : 1)), n(v.size()) { if (n) memcpy(p, v.data(), n); }
    explicit Block(const std::string& v) : p((uint8_t*)malloc(v.size() ? v.size() : 1)), n(v.size()) { if (n) memcpy(p, v.data(), n); }
    Block(const struct Arena& a, size_t k, const void* from, int fill); // at the same address each time, what is behind is poisoned
    Block(const Block&) = delete; Block& operator=(const Block&) = delete;
    const Arena* arena = nullptr;
    ~Block();
};

struct Program {
    std::unique_ptr<Block> image; cnd_program prog{};
    std::vector<std::string> names;
    bool load(const std::string& il, const Arena* at = nullptr);
    const std::string& name(uint16_t k) const { static const std::string none = "<no name>"; return k < names.size() ? names[k] : none; }
};

// A host that follows an expected list of events.
struct Host {
    const std::vector<ref::Ev>* ev = nullptr; size_t pos = 0;
    const Program* prog = nullptr; bool enc = false, raw_ok = false;
    bool ctx_touch = false;
    int fail_at = -1; int fail_code = CND_ERR_CALLBACK; int ncb = 0; bool failed = false; int after_fail = 0;
    size_t fail_pos = 0; bool fail_query = false;
    std::string err;
    const uint8_t* buf = nullptr; size_t buf_len = 0;
    std::map<std::string, uint64_t> tbl;
    std::function<void(cnd_vm_ctx*)> on_cb;
    std::vector<ref::Ev>* rec = nullptr; // what decoding delivered
    std::vector<std::string> log; bool logging = false;
    void advance_silent();
    cnd_error_t cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* ptr);
    void consume(const ref::Ev& e);
    bool complete();                 // all expected events (up to optional ones) seen
};
extern "C" cnd_error_t host_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* ptr);

struct Result { int err = -1; size_t cursor = 0; std::vector<uint8_t> bytes; std::string complaint; size_t pos = 0; int ncb = 0; bool host_failed = false, fail_query = false; };

struct RunOpts { bool raw_ok = false; int fail_at = -1; int fail_code = CND_ERR_CALLBACK; int fill = 0xA5; std::vector<ref::Ev>* rec = nullptr; std::function<void(cnd_vm_ctx*)> on_cb; cnd_vm_ctx* ctx = nullptr; const Arena* at = nullptr; };

// Encodes the record of `r` into a buffer of `cap` bytes
Result encode(const Program& p, const ref::Run& r, size_t cap, const RunOpts& o = {});
Result decode(const Program& p, const ref::Run& r, const std::vector<uint8_t>& data, const RunOpts& o = {});
const char* err_name(int);

} // namespace impl
