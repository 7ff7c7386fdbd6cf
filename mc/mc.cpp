#include "mc.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ftw.h>

extern "C" const char* __asan_default_options() {
    return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=8:check_initialization_order=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=77"; }

namespace mc {

std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f);
    char* s = nullptr;
    if (vasprintf(&s, f, ap) < 0) s = nullptr;
    va_end(ap);
    std::string r = s ? s : "";
    free(s);
    return r;
}
std::string hex(const uint8_t* p, size_t n) {
    std::string r; char b[3];
    for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02X", p[i]); r += b; if (i == 255 && n > 256) { r += "..."; break; } }
    return r;
}

uint32_t Chooser::pick(uint32_t n) {
    if (n == 0) { fprintf(stderr, "empty choice\n"); abort(); }
    if (pos == seq.size()) { seq.push_back(0); ar.push_back(n); }
    else if (pos < ar.size() && ar[pos] != n) { fprintf(stderr, "choice arity changed\n"); abort(); }
    if (ar.size() < seq.size()) { ar.resize(pos); ar.push_back(n); }
    if (seq[pos] >= n) { fprintf(stderr, "choice out of range\n"); abort(); }
    return seq[pos++];
}
bool Chooser::next() {
    seq.resize(pos); ar.resize(pos);
    while (!seq.empty()) {
        if (seq.back() + 1 < ar.back()) { seq.back()++; pos = 0; return true; }
        seq.pop_back(); ar.pop_back();
    }
    return false;
}

static const int MAXW = 16, MAXV = 32, MAXO = 96, MAXS = 6;

struct Slot {
    volatile uint64_t index; volatile int busy; int family; uint32_t nseq; uint32_t seq[256];
    char text[4096];
    uint64_t evals, steps, nontrivial, traces, cases;
    struct { char name[80]; uint64_t n; } out[MAXO];
    char samples[MAXS][1500]; int nsamples;
    volatile int done; int truncated;
};
struct Viol { int worker; uint64_t index, start; int family; uint32_t nseq; uint32_t seq[256]; char text[4096]; char what[1024]; char detail[4096]; };
struct Shm { Slot w[MAXW]; Viol v[MAXV]; int nv; int stop; uint64_t stop_after; uint64_t total_cases[64]; };

static void put(char* d, size_t cap, const std::string& s) {
    size_t n = s.size() < cap - 1 ? s.size() : cap - 1;
    memcpy(d, s.data(), n); d[n] = 0;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_cpu_limit;

static void arm(double s) {
    itimerval t{}; t.it_value.tv_sec = (long)s; t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void on_prof(int) { static const char m[] = "CPU limit of the case exceeded\n"; (void)!write(2, m, sizeof m - 1); _exit(78); }

bool Ctx::begin(const std::string& text) {
    uint64_t i = index++;
    failed_ = false;
    if (!replay) {
        if ((int)(i % (uint64_t)workers) != worker || i < start_index) return false;
        if (shm->stop) return false;
        if (shm->stop_after && i >= shm->stop_after) { shm->stop = 1; return false; }
    }
    Slot& s = shm->w[worker];
    s.index = i; s.family = family;
    s.nseq = ch->pos < 256 ? (uint32_t)ch->pos : 256;
    for (uint32_t k = 0; k < s.nseq; k++) s.seq[k] = ch->seq[k];
    put(s.text, sizeof s.text, text);
    s.busy = 1; in_case = true;
    s.cases++;
    arm(g_cpu_limit);
    return true;
}
void Ctx::fail(const std::string& what, const std::string& detail) {
    if (failed_) return; // one per case
    failed_ = true;
    if (replay) { replay_msgs.push_back(what + (detail.empty() ? "" : "\n" + detail)); return; }
    int k = __sync_fetch_and_add(&shm->nv, 1);
    if (k >= MAXV) { shm->nv = MAXV; shm->stop = 1; return; }
    Viol& v = shm->v[k]; Slot& s = shm->w[worker];
    v.worker = worker; v.index = s.index; v.start = start_index; v.family = s.family; v.nseq = s.nseq; memcpy(v.seq, s.seq, sizeof v.seq); memcpy(v.text, s.text, sizeof v.text);
    put(v.what, sizeof v.what, what); put(v.detail, sizeof v.detail, detail);
    if (k + 1 >= 8) shm->stop = 1;
}
void Ctx::evals(uint64_t n) { shm->w[worker].evals += n; }
void Ctx::steps(uint64_t n) { shm->w[worker].steps += n; }
void Ctx::nontrivial(uint64_t n) { shm->w[worker].nontrivial += n; }
void Ctx::traces(uint64_t n) { shm->w[worker].traces += n; }
void Ctx::outcome(const std::string& name, uint64_t n) {
    Slot& s = shm->w[worker];
    for (int i = 0; i < MAXO; i++) {
        if (s.out[i].name[0] == 0) put(s.out[i].name, sizeof s.out[i].name, name);
        if (name.compare(0, 79, s.out[i].name) == 0) { s.out[i].n += n; return; }
    }
}
void Ctx::sample(const std::string& t) {
    Slot& s = shm->w[worker];
    if (s.nsamples < MAXS && worker < 3) put(s.samples[s.nsamples++], sizeof s.samples[0], t);
}

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void rmtree(const std::string& d) {
    if (d.find("/cndmc.") == std::string::npos) return;
    nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
static std::string make_scratch() {
    struct stat st;
    std::string base = (stat("/dev/shm", &st) == 0 && access("/dev/shm", W_OK) == 0) ? "/dev/shm" : "/tmp";
    std::string t = base + "/cndmc.XXXXXX";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { t = "/tmp/cndmc.XXXXXX"; b.assign(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(3); } }
    return b.data();
}

static std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

static void run_family(const Family& f, int fi, Ctx& ctx) {
    Chooser ch;
    ctx.ch = &ch; ctx.family = fi;
    do {
        ch.rewind();
        f.run(ch, ctx);
        arm(0);
        if (ctx.in_case) { ctx.shm->w[ctx.worker].busy = 0; ctx.in_case = false; }
        if (ctx.shm->stop) { break; }
    } while (ch.next());
}


// Runs one case from its choices in a child. Returns 0 quiet, 1 violated (message in msg), other: could not run
static int replay_case(const Options& opt, const std::vector<Family>& fams, int fam, const std::vector<uint32_t>& seq, bool thorough, std::string& msg) {
    std::string dir = make_scratch();
    int p[2]; if (pipe(p)) return 3;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        dup2(p[1], 2);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        signal(SIGPROF, on_prof); g_cpu_limit = opt.case_cpu_s;
        Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Ctx ctx; ctx.shm = shm; ctx.replay = true; ctx.scratch = dir; ctx.thorough = thorough; ctx.family = fam;
        if (chdir(dir.c_str())) _exit(3);
        Chooser ch; ch.seq = seq; ctx.ch = &ch;
        fams[fam].run(ch, ctx);
        for (auto& m : ctx.replay_msgs) fprintf(stderr, "%s\n", m.c_str());
        fflush(stderr);
        _exit(ctx.replay_msgs.empty() ? 0 : 1);
    }
    close(p[1]);
    char buf[4096]; ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) if (msg.size() < 20000) msg.append(buf, n);
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    rmtree(dir);
    if (WIFSIGNALED(st)) { msg += fmt("\nended by signal %d", WTERMSIG(st)); return 1; }
    int c = WEXITSTATUS(st);
    if (c == 0) return 0;
    if (c == 77) msg = "sanitizer report:\n" + msg;
    return 1;
}

// Repeats everything the worker did up to the case, in a fresh process
static bool replay_history(const Options& opt, const std::vector<Family>& fams, const Viol& v, int W, bool thorough, const std::string& only) {
    std::string dir = make_scratch();
    Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return false;
    shm->stop_after = v.index + 1;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
        signal(SIGPROF, on_prof); g_cpu_limit = opt.case_cpu_s;
        Ctx ctx; ctx.shm = shm; ctx.worker = v.worker; ctx.workers = W; ctx.thorough = thorough; ctx.scratch = dir; ctx.start_index = v.start;
        if (chdir(dir.c_str())) _exit(3);
        for (size_t i = 0; i < fams.size() && !shm->stop; i++) {
            if (!only.empty() && fams[i].name != only) continue;
            run_family(fams[i], (int)i, ctx);
        }
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    rmtree(dir);
    bool r = shm->nv > 0 || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    munmap(shm, sizeof(Shm));
    return r;
}

static std::set<std::string> known_sigs(const std::string& prop) {
    std::set<std::string> r;
    FILE* f = fopen("/verif/known_findings.txt", "r");
    if (!f) return r;
    char line[2048];
    std::string pre = "KNOWN-FINDING: property=" + prop + " sig=";
    while (fgets(line, sizeof line, f)) {
        if (strncmp(line, pre.c_str(), pre.size()) == 0) {
            char* e = strchr(line + pre.size(), '|');
            if (e) r.insert(std::string(line + pre.size(), e));
        }
    }
    fclose(f);
    return r;
}

int main_driver(int argc, char** argv, const Options& opt, const std::vector<Family>& fams) {
    bool thorough = false; std::string replay_file, only;
    int W = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "thorough") thorough = true;
        else if (a == "--replay" && i + 1 < argc) replay_file = argv[++i];
        else if (a == "--family" && i + 1 < argc) only = argv[++i];
        else if (a == "-j" && i + 1 < argc) W = atoi(argv[++i]);
    }
    if (W > MAXW) W = MAXW;
    double t0 = now();
    const char* tier = thorough ? "thorough" : "quick";
    g_cpu_limit = opt.case_cpu_s;
    setenv("TZ", "UTC", 1);

    if (!replay_file.empty()) {
        FILE* f = fopen(replay_file.c_str(), "r");
        if (!f) { perror("replay"); return 3; }
        char fam[256]; int th; std::vector<uint32_t> seq; unsigned x;
        if (fscanf(f, "family %255s thorough %d choices", fam, &th) != 2) return 3;
        while (fscanf(f, "%u", &x) == 1) seq.push_back(x);
        fclose(f);
        for (size_t i = 0; i < fams.size(); i++) if (fams[i].name == fam) {
            std::string msg; int r = replay_case(opt, fams, (int)i, seq, th, msg);
            printf("%s\n%s\n", r ? "violated" : "held", msg.c_str());
            return r ? 1 : 0;
        }
        return 3;
    }

    Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 3; }
    double limit = 0;
    if (const char* e = getenv("MC_WALL_S")) limit = atof(e);
    if (limit <= 0) limit = thorough ? 6 * 3600.0 : 600.0;

    std::vector<std::string> dirs(W);
    std::vector<pid_t> pids(W, -1);
    std::vector<uint64_t> start(W, 0);
    std::vector<int> deaths(W, 0);
    std::vector<std::string> err_files(W);
    std::string base = make_scratch();
    auto spawn = [&](int w) {
        dirs[w] = base + fmt("/w%d", w);
        mkdir(dirs[w].c_str(), 0777);
        err_files[w] = base + fmt("/err%d", w);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int ef = open(err_files[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(ef, 2);
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
            signal(SIGPROF, on_prof);
            Ctx ctx; ctx.shm = shm; ctx.worker = w; ctx.workers = W; ctx.thorough = thorough; ctx.scratch = dirs[w]; ctx.start_index = start[w];
            if (chdir(dirs[w].c_str())) _exit(3);
            uint64_t before = 0;
            for (size_t i = 0; i < fams.size(); i++) {
                if (!only.empty() && fams[i].name != only) continue;
                run_family(fams[i], (int)i, ctx);
                if (!shm->stop) shm->total_cases[i] = ctx.index - before;
                before = ctx.index;
                if (shm->stop) break;
            }
            shm->w[w].done = 1;
            _exit(0);
        }
        pids[w] = pid;
    };
    for (int w = 0; w < W; w++) spawn(w);
    int alive = W; bool timed_out = false, broken = false;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            if (now() - t0 > limit && !timed_out) { timed_out = true; shm->stop = 1; }
            usleep(2000);
            continue;
        }
        if (p < 0) break;
        for (int w = 0; w < W; w++) if (pids[w] == p) {
            pids[w] = -1;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; break; }
            Slot& s = shm->w[w];
            std::string err;
            if (FILE* f = fopen(err_files[w].c_str(), "r")) { char b[6000]; size_t n = fread(b, 1, sizeof b, f); err.assign(b, n); fclose(f); }
            if (!s.busy) { fprintf(stderr, "worker %d ended outside of a case (status %d): %s\n", w, st, err.c_str()); broken = true; shm->stop = 1; alive--; break; }
            int k = __sync_fetch_and_add(&shm->nv, 1);
            if (k < MAXV) {
                Viol& v = shm->v[k];
                v.worker = w; v.index = s.index; v.start = start[w]; v.family = s.family; v.nseq = s.nseq; memcpy(v.seq, s.seq, sizeof v.seq); memcpy(v.text, s.text, sizeof v.text);
                std::string what = WIFSIGNALED(st) ? fmt("process ended by signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 77 ? "sanitizer report" : WEXITSTATUS(st) == 78 ? "no end within the CPU limit" : fmt("process exited with %d", WEXITSTATUS(st));
                put(v.what, sizeof v.what, what); put(v.detail, sizeof v.detail, err);
            } else shm->nv = MAXV;
            s.busy = 0; start[w] = s.index + 1;
            if (++deaths[w] >= 2 || shm->stop) { shm->stop = 1; alive--; }
            else spawn(w);
            break;
        }
    }
    rmtree(base);

    uint64_t evals = 0, steps = 0, nontriv = 0, traces = 0, cases = 0; std::map<std::string, uint64_t> outs; std::vector<std::string> samples;
    for (int w = 0; w < W; w++) {
        Slot& s = shm->w[w];
        evals += s.evals; steps += s.steps; nontriv += s.nontrivial; traces += s.traces; cases += s.cases;
        for (auto& o : s.out) if (o.name[0]) outs[o.name] += o.n;
        for (int i = 0; i < s.nsamples; i++) samples.push_back(s.samples[i]);
    }

    auto known = known_sigs(opt.property);
    int reported = 0, unconfirmed = 0; std::set<std::string> known_seen;
    int nv = shm->nv < MAXV ? shm->nv : MAXV;
    mkdir("/verif/build", 0777); mkdir("/verif/build/replay", 0777);
    for (int i = 0; i < nv && reported < 5; i++) {
        Viol& v = shm->v[i];
        std::vector<uint32_t> seq(v.seq, v.seq + v.nseq);
        std::string msg;
        int r = replay_case(opt, fams, v.family, seq, thorough, msg);
        if (known.count(v.what)) { if (known_seen.insert(v.what).second) printf("KNOWN-FINDING: property=%s %s\n", opt.property.c_str(), v.what); continue; }
        bool history = false;
        if (r == 0 && unconfirmed < 2) {
            history = replay_history(opt, fams, v, W, thorough, only);
            if (history) msg = fmt("only together with what worker %d of %d did before (case %llu)", v.worker, W, (unsigned long long)v.index);
        }
        if (r == 0 && !history) { unconfirmed++; fprintf(stderr, "not confirmed by replay: [%s] %s\n%s\n%s\n", fams[v.family].name.c_str(), v.what, v.text, v.detail); continue; }
        std::string path = fmt("/verif/build/replay/%s-%d.txt", opt.property.c_str(), reported);
        if (FILE* f = fopen(path.c_str(), "w")) {
            fprintf(f, "family %s thorough %d choices", fams[v.family].name.c_str(), thorough ? 1 : 0);
            for (uint32_t x : seq) fprintf(f, " %u", x);
            fprintf(f, "\n# %s\n# case:\n%s\n# detail:\n%s\n# on replay:\n%s\n", v.what, v.text, v.detail, msg.c_str());
            fclose(f);
        }
        printf("%s: [%s] %s\n%s\n%s\n", opt.property.c_str(), fams[v.family].name.c_str(), v.what, v.text, v.detail[0] ? v.detail : msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
        reported++;
    }
    double wall = now() - t0;
    mkdir("/verif/evidence", 0777);
    std::string ep = "/verif/evidence/" + opt.property + ".json";
    if (FILE* f = fopen(ep.c_str(), "w")) {
        const char* sd = getenv("VERIF_SEED");
        fprintf(f, "{\"property\": %s, \"tier\": \"%s\", \"seed\": %d, \"level\": \"model_checking\",\n", json_str(opt.property).c_str(), tier, sd ? atoi(sd) : 1);
        fprintf(f, " \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n", (unsigned long long)cases, (unsigned long long)steps, (unsigned long long)traces, (unsigned long long)evals, (unsigned long long)nontriv);
        fprintf(f, "  \"rule\": %s,\n  \"exhaustive\": %s,\n", json_str(opt.rule).c_str(), (timed_out || broken || shm->stop) ? "false" : "true");
        fprintf(f, "  \"families\": {");
        bool first = true;
        for (size_t i = 0; i < fams.size() && i < 64; i++) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(fams[i].name).c_str(), (unsigned long long)shm->total_cases[i]); first = false; }
        fprintf(f, "},\n  \"outcomes\": {"); first = true;
        for (auto& o : outs) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(o.first).c_str(), (unsigned long long)o.second); first = false; }
        fprintf(f, "},\n  \"samples\": ["); first = true;
        for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",\n   ", json_str(s).c_str()); first = false; }
        fprintf(f, "]},\n \"assumptions\": ["); first = true;
        for (auto& s : opt.assumptions) { fprintf(f, "%s%s", first ? "" : ", ", json_str(s).c_str()); first = false; }
        fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", wall, reported);
        fclose(f);
    }
    printf("%s %s: cases=%llu executions=%llu steps=%llu outcomes=%zu%s wall=%.1fs\n", opt.property.c_str(), tier, (unsigned long long)cases, (unsigned long long)evals, (unsigned long long)steps, outs.size(), timed_out ? " (wall limit reached, bound not completed)" : "", wall);
    for (auto& o : outs) printf("   %-60s %llu\n", o.first.c_str(), (unsigned long long)o.second);
    if (reported) return 1;
    if (broken) return 2;
    return 0;
}

} // namespace mc
