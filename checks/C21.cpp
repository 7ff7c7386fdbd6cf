// Every run through the Go package against the same run through the C library, and the constants of every language
#include "common.hpp"
#include "isa.hpp"
#include <fstream>
#include <regex>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using Bytes = vector<uint8_t>;

// ---------------------------------------------------------------- the Go process
struct Wr {
    string b;
    void n(uint64_t v, int k) { for (int i = 0; i < k; i++) b += (char)(v >> 8 * i); }
    void blob(const string& s) { n(s.size(), 4); b += s; }
    void blob(const Bytes& s) { n(s.size(), 4); b.append((const char*)s.data(), s.size()); }
};
struct Rd {
    string b; size_t p = 0; bool bad = false;
    uint64_t n(int k) { if (p + (size_t)k > b.size()) { bad = true; return 0; } uint64_t v = 0; for (int i = k; i-- > 0;) v = v << 8 | (uint8_t)b[p + (size_t)i]; p += (size_t)k; return v; }
    string blob() { size_t k = n(4); if (bad || p + k > b.size()) { bad = true; return ""; } string s = b.substr(p, k); p += k; return s; }
};
struct Go {
    int in = -1, out = -1; pid_t pid = 0; string err;
    void start(const string& scratch) {
        err = scratch + "/go.err"; unlink(err.c_str());
        int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
        pid_t parent = getpid();
        pid = fork();
        if (!pid) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(1);
            dup2(a[0], 0); dup2(b[1], 1); int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(e, 2);
            for (int i = 3; i < 64; i++) close(i);
            setenv("GOMAXPROCS", "2", 1); setenv("ASAN_OPTIONS", "detect_leaks=0:detect_odr_violation=0", 1);
            signal(SIGPIPE, SIG_DFL); struct sigaction sa{}; sa.sa_handler = SIG_DFL; for (int s : {SIGXCPU, SIGALRM, SIGSEGV, SIGABRT}) sigaction(s, &sa, nullptr);
            execl("/verif/build/bin/gohost", "gohost", (char*)nullptr); _exit(127);
        }
        close(a[0]); close(b[1]); in = a[1]; out = b[0];
        fcntl(in, F_SETFD, FD_CLOEXEC); fcntl(out, F_SETFD, FD_CLOEXEC);
    }
    void stop() { if (pid) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); pid = 0; } }
    bool io(bool wr, char* p, size_t n) { while (n) { ssize_t k = wr ? write(in, p, n) : read(out, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
    // Empty answer: the process ended
    bool ask(const string& req, Rd& answer, const string& scratch, string& why) {
        if (!pid) { signal(SIGPIPE, SIG_IGN); start(scratch); }
        uint8_t h[4]; for (int i = 0; i < 4; i++) h[i] = (uint8_t)(req.size() >> 8 * i);
        bool ok = io(true, (char*)h, 4) && io(true, (char*)req.data(), req.size()) && io(false, (char*)h, 4);
        if (ok) { size_t n = h[0] | h[1] << 8 | h[2] << 16 | (size_t)h[3] << 24; answer.b.resize(n); answer.p = 0; ok = io(false, &answer.b[0], n); }
        if (!ok) { stop(); impl::read_file(err, why); why = why.substr(0, 3000); }
        return ok;
    }
};
static Go go_;

// ---------------------------------------------------------------- the C library, recorded
struct Cb { uint16_t key; uint8_t op, mode; string val; int ret = 0, kind = 0; string data; };
static int size_of(uint8_t op) {
    switch (op) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1;
        case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: return 2;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_EOF: case OP_ARR_DYNAMIC: return 4;
        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_STORE_CTX: case OP_LOAD_CTX: case OP_CTX_QUERY: return 8;
    }
    return 0;
}
static bool is_text(uint8_t op) { return op >= OP_STR_NULL && op <= OP_STR_PRE_U32; }
struct Rec {
    impl::Host* host = nullptr; int policy = 0, fail_at = -1; vector<Cb> log; size_t cap = 20000;
    cnd_error_t generic(cnd_vm_ctx*, uint8_t op, void* p) {
        if ((int)log.size() == fail_at || log.size() > cap) return CND_ERR_CALLBACK;
        if (op == OP_RAW_BYTES) return CND_ERR_CALLBACK;
        return reply(op, p);
    }
    bool enc = false;
    cnd_error_t reply(uint8_t op, void* p) {
        int n = size_of(op); if (!p) return CND_ERR_OK;
        static const char* T[] = {"", "a", "text of a host", "\xff\x80"};
        if (is_text(op)) { if (enc) *(const char**)p = T[policy % 4]; return CND_ERR_OK; }
        if (op == OP_STORE_CTX || op == OP_ARR_FIXED || op == OP_ARR_DYNAMIC) return CND_ERR_OK;
        if (n && (enc || op == OP_CTX_QUERY || op == OP_LOAD_CTX)) {
            uint64_t v = policy == 0 ? 0 : policy == 1 ? 1 : policy == 2 ? 0x4045000000000002ull : ~0ull;
            if (op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF) v &= 3;
            memcpy(p, &v, (size_t)n);
        }
        return CND_ERR_OK;
    }
};
extern "C" cnd_error_t rec_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* p) {
    Rec& r = *(Rec*)ctx->user_ptr;
    Cb c; c.key = key; c.op = op; c.mode = (uint8_t)ctx->mode;
    int n = p ? size_of(op) : 0;
    uint64_t before = 0, after = 0; if (n) memcpy(&before, p, (size_t)n);
    Wr v; uint64_t b = before;
    switch (n) {
        case 1: v.n(b, 8); v.n((uint64_t)(int64_t)(int8_t)b, 8); v.n(b != 0, 8); break;
        case 2: v.n(b, 8); v.n((uint64_t)(int64_t)(int16_t)b, 8); break;
        case 4: v.n(b, 8); v.n((uint64_t)(int64_t)(int32_t)b, 8); v.n(b, 8); break;
        case 8: v.n(b, 8); v.n(b, 8); v.n(b, 8); break;
    }
    c.val = v.b;
    if (is_text(op) && c.mode == CND_MODE_DECODE && p) {
        const uint8_t* t = (const uint8_t*)p; size_t len = 0;
        if (op == OP_STR_NULL) len = strlen((char*)t);
        else { int w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4; for (int i = 0; i < w; i++) len = len << 8 | t[ctx->endianness == CND_BE ? i - w : -1 - i]; }
        c.val.assign((const char*)t, len);
    }
    size_t pos = r.host ? r.host->pos : 0;
    void* self = ctx->user_ptr;
    r.enc = ctx->mode == CND_MODE_ENCODE;
    cnd_error_t e = r.host ? r.host->cb(ctx, key, op, p) : r.generic(ctx, op, p);
    ctx->user_ptr = self;
    c.ret = e != CND_ERR_OK;
    if (n) { memcpy(&after, p, (size_t)n); if (after != before) { c.kind = 1; Wr w; w.n(after, 8); c.data = w.b; } }
    if (is_text(op) && r.enc && p && *(const char**)p) { c.kind = 2; c.data = *(const char**)p; }
    if (op == OP_RAW_BYTES && e == CND_ERR_OK && r.host) {
        size_t k = r.host->pos - pos;
        if (r.enc) { c.kind = 3; c.data.assign((const char*)p, k); }
        else { c.kind = 4; Wr w; w.n(k, 4); c.data = w.b; c.val.assign((const char*)p, k); }
    }
    r.log.push_back(c);
    return e;
}
struct Exec { int slot = 0, mode = 0, flags = 0; Bytes in, out; Rec rec; int err = 0; };
static void run_c(const cnd_program& p, Exec& x) {
    impl::Block b(x.in); cnd_vm_ctx ctx; memset(&ctx, 0xCD, sizeof ctx);
    cnd_init(&ctx, (cnd_mode_t)x.mode, &p, b.p, b.n, rec_cb, &x.rec);
    x.err = cnd_execute(&ctx);
    x.out.assign(b.p, b.p + b.n);
}
static void put_exec(Wr& w, const Exec& x) {
    w.n((uint64_t)x.slot, 1); w.n((uint64_t)x.mode, 1); w.n((uint64_t)x.flags, 1); w.blob(x.in); w.n(x.rec.log.size(), 2);
    for (auto& c : x.rec.log) { w.n((uint64_t)c.ret, 1); w.n((uint64_t)c.kind, 1); w.n(0, 1); w.blob(c.data); }
}
// The text of an error belongs to one code
static string error_bad(Rd& a, int code) {
    static std::map<int, string> texts; static bool init = false;
    if (!init) { init = true; texts.clear(); }
    int k = (int)a.n(1); string t = a.blob();
    if (code == 0) return k == 0 ? "" : "the Go package reports \"" + t + "\", the C library success";
    if (k == 0) return fmt("the Go package reports success, the C library %s", impl::err_name(code));
    static const int order[] = {0, CND_ERR_OOB, CND_ERR_INVALID_OP, CND_ERR_VALIDATION, CND_ERR_CALLBACK, CND_ERR_STACK_OVERFLOW, CND_ERR_STACK_UNDERFLOW};
    if (k != 255 && order[k] != code) return fmt("the Go package reports %s, the C library %s", impl::err_name(order[k]), impl::err_name(code));
    if (k == 255 && code <= CND_ERR_STACK_UNDERFLOW) return fmt("the Go package reports \"%s\", the C library %s", t.c_str(), impl::err_name(code));
    for (auto& [c, s] : texts) if (c != code && s == t) return fmt("\"%s\" stands for %s and for %s", t.c_str(), impl::err_name(c), impl::err_name(code));
    if (texts.count(code) && texts[code] != t) return fmt("%s is reported as \"%s\" and as \"%s\"", impl::err_name(code), t.c_str(), texts[code].c_str());
    texts[code] = t; return "";
}
static string cb_str(int k, int op, int mode, const string& v) { return fmt("key %d, type 0x%02X, %s, value ", k, op, mode ? "decode" : "encode") + hex((const uint8_t*)v.data(), v.size()); }
static string exec_bad(Rd& a, const Exec& x, bool loose = false) {
    string e = error_bad(a, x.err); string out = a.blob(); size_t n = a.n(4);
    for (size_t i = 0; i < n && !a.bad; i++) {
        int key = (int)a.n(2), op = (int)a.n(1), mode = (int)a.n(1); string v = a.blob();
        if (i >= x.rec.log.size()) { e = fmt("callback %zu only through the Go package: ", i) + cb_str(key, op, mode, v); continue; }
        auto& c = x.rec.log[i];
        if (key != c.key || op != c.op || mode != c.mode || v != c.val) return fmt("callback %zu differs: Go ", i) + cb_str(key, op, mode, v) + ", C " + cb_str(c.key, c.op, c.mode, c.val);
    }
    if (a.bad) return "broken answer";
    if (n < x.rec.log.size()) return fmt("%zu callbacks through the Go package, %zu by the C library", n, x.rec.log.size());
    if (!e.empty()) return e;
    if (Bytes(out.begin(), out.end()) != x.out) return "bytes differ: Go " + hex((const uint8_t*)out.data(), out.size()) + ", C " + hex(x.out);
    (void)loose; return "";
}
// Executes all on the Go side and compares; the image is in slot 0
static bool compare(Ctx& ctx, const string& image, vector<Exec>& xs, const string& note = "", bool whole = false) {
    Wr w; w.n(xs.size() + (whole ? 0 : 1), 4);
    if (!whole) { w.n('L', 1); w.n(0, 1); w.blob(image); }
    for (auto& x : xs) { w.n(whole ? 'X' : 'E', 1); if (whole) w.blob(image); put_exec(w, x); }
    Rd a; string why;
    if (!go_.ask(w.b, a, ctx.scratch, why)) { ctx.fail("the Go process ended: " + first_line(why), why + note); return false; }
    if (!whole) { string e = error_bad(a, 0); if (!e.empty()) { ctx.fail("loading: " + e, note); return false; } }
    for (auto& x : xs) {
        string e = exec_bad(a, x);
        ctx.evals(); ctx.steps(x.rec.log.size() + 1); ctx.traces(); if (x.rec.log.size() > 1) ctx.nontrivial();
        ctx.outcome(fmt("%s %s", x.mode ? "decode" : "encode", impl::err_name(x.err)));
        if (!e.empty()) { ctx.fail(e.substr(0, e.find(':')), e + fmt("\n%s of %zu bytes ", x.mode ? "decode" : "encode", x.in.size()) + hex(x.in) + "\n" + note); return false; }
    }
    return true;
}
// Every record, encoded and decoded; every truncation and smaller buffer; an error at every callback
static void explore(Prep& x, Ctx& ctx, int budget, int width) {
    Chooser rc; int raws = has_byte_array(x.text) ? 2 : 1; bool first = true, ok = true; uint64_t count = 0;
    vector<Exec> xs; vector<std::unique_ptr<impl::Host>> hosts; vector<std::unique_ptr<Run>> runs;
    auto flush = [&] { if (ok && !xs.empty()) ok = compare(ctx, x.il, xs, x.text); xs.clear(); hosts.clear(); runs.clear(); };
    auto add = [&](const Run& r, int mode, const Bytes& in, int raw, int fail, int flags) {
        runs.push_back(std::make_unique<Run>(r)); hosts.push_back(std::make_unique<impl::Host>());
        impl::Host& h = *hosts.back(); h.ev = &runs.back()->ev; h.prog = &x.p; h.enc = mode == CND_MODE_ENCODE; h.raw_ok = raw; h.fail_at = fail;
        Exec e; e.mode = mode; e.in = in; e.flags = flags; e.rec.host = &h;
        impl::Block b(e.in); h.buf = b.p; h.buf_len = b.n;
        cnd_vm_ctx c; memset(&c, 0xCD, sizeof c);
        cnd_init(&c, (cnd_mode_t)mode, &x.p.prog, b.p, b.n, rec_cb, &e.rec);
        e.err = cnd_execute(&c); e.out.assign(b.p, b.p + b.n);
        int n = (int)e.rec.log.size(); e.rec.host = nullptr;
        xs.push_back(e);
        if (xs.size() >= 256) flush();
        return n;
    };
    do {
        rc.rewind();
        DomGen g(rc, x.s, budget, false, width); g.longtext = 12;
        Run r = ref::encode(x.s, g);
        if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        Run rd = ref::decode(x.s, r.bytes);
        Bytes buf(r.bytes.size() + 3, 0xA5);
        for (int raw = 0; raw < raws; raw++) {
            int flags = first && width >= 4 ? 3 : 0; // garbage collection in every callback
            int ne = add(r, 0, buf, raw, -1, flags), nd = add(rd, 1, r.bytes, raw, -1, flags);
            add(r, 0, Bytes(r.bytes.size(), 0), raw, -1, 0);
            size_t step = std::max<size_t>(1, r.bytes.size() / 64), step2 = std::max(1, ne / 64);
            if (first || (ctx.thorough ? count % 4 == 0 : count == 5)) {
                for (size_t k = 0; k < r.bytes.size(); k += step) { Run t = ref::decode(x.s, Bytes(r.bytes.begin(), r.bytes.begin() + (ptrdiff_t)k)); add(t, 1, Bytes(r.bytes.begin(), r.bytes.begin() + (ptrdiff_t)k), raw, -1, 0); add(r, 0, Bytes(k, 0x5A), raw, -1, 0); }
                for (int i = 0; i < ne; i += (int)step2) add(r, 0, buf, raw, i, 0);
                for (int i = 0; i < nd; i += (int)step2) add(rd, 1, r.bytes, raw, i, 0);
            }
        }
        first = false; count++;
    } while (ok && rc.next());
    flush();
}
static string assemble(const Bytes& code, int names = 3) {
    string s("CNDIL\1", 6); string tab; for (int i = 0; i < names; i++) tab += fmt("n%d", i) + string(1, '\0');
    auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> 8 * i); };
    put((uint64_t)names, 2); put(16, 4); put(16 + tab.size(), 4);
    return s + tab + string(code.begin(), code.end());
}
static bool pick_ins(Chooser& ch, Bytes& b, bool simple) {
    auto& sh = isa::shapes(); auto& s = sh[ch.pick((uint32_t)sh.size())];
    static const vector<uint8_t> T = {OP_IO_U8, OP_IO_I16, OP_IO_U32, OP_IO_U64, OP_IO_F32, OP_IO_F64};
    static const uint64_t V[] = {0, 1, 0x80, 0x3FF8000000000000, 0xFFFFFFFFFFFFFFFF};
    b.push_back(s.op);
    auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> 8 * i)); };
    auto small = [&] { return simple ? 1 : V[ch.pick(5)]; };
    for (const char* o = s.operands; *o; o++) switch (*o) {
        case 'k': put(simple ? 1 : ch.of(vector<int>{0, 2, 300, 65535}), 2); break;
        case '1': put(small(), 1); break; case '2': put(simple ? 2 : ch.of(vector<int>{0, 1, 3, 65535}), 2); break;
        case '4': put(simple ? 2 : ch.of(vector<int>{0, 1, 3}), 4); break; case '8': put(small(), 8); break;
        case 'b': put(simple ? 5 : ch.of(vector<int>{1, 7, 8, 33, 64}), 1); break;
        case 'j': put(0, 4); break;
        case 't': return false;
        case 'T': case 'M': put(ch.of(T), 1); break;
        case 'W': case 'C': case 'R': { if (*o == 'C') put(1, 2); uint8_t t = ch.of(T); put(t, 1); int n = t == OP_IO_U8 ? 1 : t == OP_IO_I16 ? 2 : t == OP_IO_U32 || t == OP_IO_F32 ? 4 : 8; put(small(), n); if (*o == 'R') put(0x7F, n); break; }
        case 'E': put(OP_IO_U8, 1); put(2, 2); put(0, 1); put(1, 1); break;
        case 'P': put(2, 1); put(V[3], 8); put(V[3], 8); break;
        case 'S': put(2, 1); put(0, 8); put(0, 8); put(V[3], 8); put(V[3], 8); break;
        default: return false;
    }
    return true;
}
static void programs(Chooser& ch, Ctx& ctx, int n) {
    Bytes code; for (int i = 0; i < n; i++) if (!pick_ins(ch, code, n > 1)) return;
    int form = (int)ch.pick(n > 1 ? 1 : 3); // raw, image, through the function of the package
    if (!ctx.begin(fmt("form %d, code %s", form, hex(code).c_str()))) return;
    isa::Prog p = isa::parse(code);
    if (!p.ok || p.backward) { ctx.outcome("not a program"); return; }
    string img = form == 1 ? assemble(code) : string(code.begin(), code.end());
    impl::Block blk(img); cnd_program prog;
    if (form == 1) { if (cnd_program_load_il(&prog, blk.p, blk.n)) { ctx.fail("image does not load"); return; } } else cnd_program_load(&prog, blk.p, blk.n);
    vector<Exec> xs;
    for (int mode = 0; mode < 2; mode++) for (int len : {0, 1, 3, 24}) for (int pol = 0; pol < (mode ? 1 : n > 1 ? 2 : 4); pol++) for (int fill : {0, 0x81}) {
        if (n > 1 && fill == 0x81 && !mode) continue;
        Exec e; e.mode = mode; e.in.assign((size_t)len, (uint8_t)fill); if (len > 4) for (int i = 0; i < 6; i++) e.in[(size_t)i] = (uint8_t)(i % 3); e.rec.policy = mode ? 1 : pol; run_c(prog, e); xs.push_back(e);
    }
    compare(ctx, img, xs, hex(code), form == 2);
}
// Load and ask for names: Go against C
static bool names(Ctx& ctx, const string& img, const string& note) {
    impl::Block b(img); cnd_program p{}; int err;
    bool il = img.compare(0, 5, "CNDIL") == 0 && img.size() >= 5;
    if (img.empty()) err = CND_ERR_INVALID_OP; else if (il) err = cnd_program_load_il(&p, b.p, b.n); else { cnd_program_load(&p, b.p, b.n); err = 0; }
    Wr w; vector<int> ids; vector<string> ask = {"", "f0", "f", "v", "zzz", "P", string(300, 'n')};
    if (!err) {
        for (int k = 0; k < p.string_count + 2 && k < 70; k++) ids.push_back(k);
        for (int k : {255, 256, 32767, 32768, 65534, 65535}) ids.push_back(k);
        for (int k : ids) { const char* s = cnd_get_key_name(&p, (uint16_t)k); if (s) { ask.push_back(s); if (*s) { ask.push_back(string(s) + "x"); ask.push_back(string(s, strlen(s) - 1)); } } }
    }
    size_t ops = 1 + ids.size() + (err ? 0 : ask.size());
    w.n(ops, 4); w.n('L', 1); w.n(1, 1); w.blob(img);
    for (int k : ids) { w.n('N', 1); w.n(1, 1); w.n((uint64_t)k, 2); }
    if (!err) for (auto& s : ask) { w.n('I', 1); w.n(1, 1); w.blob(s); }
    Rd a; string why;
    if (!go_.ask(w.b, a, ctx.scratch, why)) { ctx.fail("the Go process ended: " + first_line(why), why + note); return false; }
    int k = (int)a.n(1); string t = a.blob();
    ctx.evals(); ctx.steps(ops); ctx.traces(); ctx.outcome(err ? "image rejected" : "image loaded");
    if ((k == 0) != (err == 0)) { ctx.fail(err ? "the Go package loads what the C library rejects" : "the Go package rejects what the C library loads: " + t, note); return false; }
    if (err) return false;
    ctx.nontrivial();
    for (int i : ids) { const char* s = cnd_get_key_name(&p, (uint16_t)i); string g = a.blob(); if (g != (s ? s : "")) { ctx.fail("name of a key differs", fmt("key %d: Go \"%s\", C \"%s\"\n", i, g.c_str(), s ? s : "(none)") + note); return false; } }
    for (auto& s : ask) { int g = (int)a.n(2), c = cnd_get_key_id(&p, s.c_str()); if (g != c) { ctx.fail("key of a name differs", fmt("\"%s\": Go %d, C %d\n", s.c_str(), g, c) + note); return false; } }
    return true;
}
static void damage(Chooser& ch, Ctx& ctx) {
    Prep x; if (!pick_sequence(ch, 1, 1, x.s)) return;
    x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    auto one = [&](const string& img, const string& what) {
        string note = what + " of\n" + x.text + "image " + hex((const uint8_t*)img.data(), img.size());
        if (!names(ctx, img, note)) return;
        impl::Block b(img); cnd_program p{}; if (img.compare(0, 5, "CNDIL") == 0) { if (cnd_program_load_il(&p, b.p, b.n)) return; } else return;
        isa::Prog q = isa::parse(Bytes(p.bytecode, p.bytecode + p.bytecode_len)); if (!q.ok || q.backward) return;
        vector<Exec> xs; for (int mode = 0; mode < 2; mode++) { Exec e; e.mode = mode; e.in.assign(9, 1); e.rec.policy = 1; run_c(p, e); xs.push_back(e); }
        compare(ctx, img, xs, note);
    };
    for (size_t n = 0; n <= x.il.size() && !ctx.failed(); n++) one(x.il.substr(0, n), fmt("first %zu bytes", n));
    for (size_t i = 0; i < x.il.size() && !ctx.failed(); i++) for (int v : {0, 1, 2, 0x10, 0x30, 0x7F, 0x80, 0xFF}) { string m = x.il; if ((uint8_t)m[i] == v) continue; m[i] = (char)v; one(m, fmt("byte %zu = %02X", i, v)); if (ctx.failed()) break; }
}
// Texts of all kinds and lengths, both byte orders, both ways
static void texts(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(4); bool be = ch.flag(); int fld = (int)ch.pick(2);
    static const vector<int> L = {0, 1, 2, 127, 128, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 70000};
    int len = ch.of(L); int pat = (int)ch.pick(3);
    static const char* K[] = {"until 0 max 65535", "prefix uint8", "prefix uint16", "prefix uint32"};
    string src = string(be && !fld ? "@big_endian\n" : "") + "packet P { uint8 a; " + (be && fld ? "@big_endian " : "") + "string s " + K[kind] + "; string t prefix uint8; uint16 z; }\n";
    if (!ctx.begin(fmt("%d bytes, pattern %d\n", len, pat) + src)) return;
    Prep x; x.text = src; int r = impl::compile(src, x.il, ctx.scratch); if (r || !x.p.load(x.il)) { ctx.fail("does not compile"); return; }
    string s; for (int i = 0; i < len; i++) s += (char)(pat == 0 ? 'a' + i % 26 : pat == 1 ? 1 + i % 255 : "\xE2\x82\xAC"[i % 3]);
    struct H { static cnd_error_t cb(cnd_vm_ctx*, uint16_t, uint8_t, void*) { return CND_ERR_OK; } };
    // C encodes with these texts
    vector<Exec> xs; Exec e; e.mode = 0; e.in.assign((size_t)len + 64, 0xEE);
    impl::Host none; (void)none;
    struct Two { const string* s; int n = 0; vector<Cb> log; } two{&s, 0, {}};
    auto cb = [](cnd_vm_ctx* c, uint16_t key, uint8_t op, void* p) -> cnd_error_t {
        Two& t = *(Two*)c->user_ptr; Cb k; k.key = key; k.op = op; k.mode = 0;
        int n = size_of(op);
        if (n == 1) { k.val = string(24, '\0'); k.kind = 1; k.data = string("\x07\0\0\0\0\0\0\0", 8); *(uint8_t*)p = 7; }
        else if (n == 2) { k.val = string(16, '\0'); k.kind = 1; k.data = string("\x34\x12\0\0\0\0\0\0", 8); uint16_t v = 0x1234; memcpy(p, &v, 2); }
        else { k.kind = 2; static const string small = "end"; const string& v = t.n++ ? small : *t.s; k.data = v; *(const char**)p = v.c_str(); }
        t.log.push_back(k); return CND_ERR_OK;
    };
    impl::Block b(e.in); cnd_vm_ctx c; cnd_init(&c, CND_MODE_ENCODE, &x.p.prog, b.p, b.n, cb, &two);
    e.err = cnd_execute(&c); e.out.assign(b.p, b.p + b.n); e.rec.log = two.log; e.flags = 3; xs.push_back(e);
    Exec d; d.mode = 1; d.in.assign(b.p, b.p + c.cursor); d.rec.policy = 1; run_c(x.p.prog, d); xs.push_back(d);
    for (size_t cut : {(size_t)1, (size_t)2, (size_t)5, (size_t)6}) if (cut < d.in.size()) { Exec t; t.mode = 1; t.in.assign(d.in.begin(), d.in.end() - (ptrdiff_t)cut); t.rec.policy = 1; run_c(x.p.prog, t); xs.push_back(t); }
    compare(ctx, x.il, xs, src);
}
static void two_programs(vector<Prep>& p, Ctx& ctx);
static Exec sample(const vector<Prep>& p, int which, int kind);
// Very many executions alive at once: in each other, or stopped in a callback each
static void crowd(Chooser& ch, Ctx& ctx) {
    static const vector<int> N = {3, 9, 33, 65, 130, 260, 300};
    bool deep = ch.flag(), late = ch.flag(); int n = ch.of(N), k0 = (int)ch.pick(4), k1 = (int)ch.pick(4), w0 = (int)ch.pick(2); if (!ctx.thorough && n > 65 && (k0 + k1) % 4 > 1) return;
    static vector<Prep> p; if (p.empty()) two_programs(p, ctx);
    static vector<Exec> ex[2]; if (ex[0].empty()) for (int w = 0; w < 2; w++) for (int k = 0; k < 4; k++) ex[w].push_back(sample(p, w, k));
    const Exec &a = ex[w0][(size_t)k0], &b = ex[!w0][(size_t)k1]; size_t na = std::min(a.rec.log.size(), b.rec.log.size()), at = na ? ch.pick((uint32_t)na) : 0; if (!na) return; if (!ctx.thorough && n > 33 && at > 1 && at + 2 < na) return;
    if (!ctx.begin(fmt("%d executions %s, program %d run %d and program %d run %d, at callback %zu %s its work", n, deep ? "in each other" : "at the same time", w0, k0, !w0, k1, at, late ? "behind" : "before"))) return;
    Wr w; w.n(3, 4); for (int s = 0; s < 2; s++) { w.n('L', 1); w.n((uint64_t)s, 1); w.blob(p[(size_t)s].il); }
    w.n(deep ? 'D' : 'A', 1); w.n(at, 2); w.n(late, 1); w.n((uint64_t)n, 2); put_exec(w, a); put_exec(w, b);
    ctx.evals((uint64_t)n); ctx.steps((uint64_t)n * na); ctx.traces((uint64_t)n); ctx.nontrivial(); Rd r; string why, e;
    if (!go_.ask(w.b, r, ctx.scratch, why)) { ctx.fail("the Go process ended: " + first_line(why), why); return; }
    for (int s = 0; s < 2; s++) { e = error_bad(r, 0); if (!e.empty()) { ctx.fail(e); return; } }
    for (int i = 0; i < n; i++) { e = exec_bad(r, i % 2 ? b : a); if (!e.empty()) { ctx.fail("many executions: " + e.substr(0, e.find(':')), fmt("execution %d: ", i) + e); return; } }
    ctx.outcome(deep ? "in each other" : "at the same time", (uint64_t)n);
}
// Programs for histories and schedules
static const char* SRC[] = {
    "packet A { uint8 n; @count(n) uint16 v[]; string s prefix uint8; @crc(32) uint32 c; }\n",
    "@big_endian\npacket B { string s prefix uint16; struct_t st; float f; uint8 k; switch (k) { case 1: uint16 x; default: string y until 0 max 9; } }\n",
};
static void two_programs(vector<Prep>& p, Ctx& ctx) {
    p.resize(2);
    for (int i = 0; i < 2; i++) { string s = i ? "struct struct_t { int8 a : 3; bool b : 1; }\n" + string(SRC[i]) : SRC[i]; if (i) { size_t e = s.find("@big_endian\n"); s.erase(e, 12); s = "@big_endian\n" + s; } p[(size_t)i].text = s; if (impl::compile(s, p[(size_t)i].il, ctx.scratch) || !p[(size_t)i].p.load(p[(size_t)i].il)) { ctx.fail("program does not compile", s); } }
}
static Exec sample(const vector<Prep>& p, int which, int kind) {
    Exec e; e.slot = which;
    // messages: encode once with the C library
    if (kind == 0) { e.mode = 0; e.in.assign(40, 0xEE); e.rec.policy = 1; }
    else if (kind == 1 || kind == 2) { Exec m; m.mode = 0; m.in.assign(40, 0); m.rec.policy = kind; run_c(p[(size_t)which].p.prog, m); e.mode = 1; e.in = m.out; e.rec.policy = 1; }
    else if (kind == 3) { e.mode = 1; e.in.assign(6, 0xFF); e.rec.policy = 1; }
    else { e.mode = 0; e.in.assign(40, 0xEE); e.rec.policy = 2; e.rec.fail_at = 1; }
    run_c(p[(size_t)which].p.prog, e);
    return e;
}
static void histories(Chooser& ch, Ctx& ctx, int n) {
    // operations: load one of 2 programs or a bad image into one of 2 slots, execute, name, id, close
    struct Op { int k, slot, arg; };
    vector<Op> ops; for (int s = 0; s < 2; s++) { for (int a = 0; a < 3; a++) ops.push_back({0, s, a}); for (int k = 0; k < 4; k++) ops.push_back({1, s, k}); ops.push_back({2, s, 1}); ops.push_back({3, s, 0}); ops.push_back({4, s, 0}); }
    vector<Op> seq; string text; for (int i = 0; i < n; i++) { Op o = ch.of(ops); seq.push_back(o); text += fmt(" %s(%d,%d)", o.k == 0 ? "load" : o.k == 1 ? "execute" : o.k == 2 ? "name" : o.k == 3 ? "id" : "close", o.slot, o.arg); }
    if (!ctx.begin("A in slot 0, B in slot 1;" + text)) return;
    static vector<Prep> p; if (p.empty()) two_programs(p, ctx);
    static vector<Exec> ex[2]; if (ex[0].empty()) for (int w = 0; w < 2; w++) for (int k = 0; k < 4; k++) ex[w].push_back(sample(p, w, k == 3 ? 4 : k));
    int st[2] = {0, 1}; // program in the slot, -1 closed
    string badimg = p[0].il.substr(0, 12);
    Wr w; w.n((uint64_t)n + 2, 4);
    for (int s = 0; s < 2; s++) { w.n('L', 1); w.n((uint64_t)s, 1); w.blob(p[(size_t)s].il); }
    vector<std::function<string(Rd&)>> judge;
    for (auto& o : seq) {
        int cur = st[o.slot];
        if (o.k == 0) {
            w.n('L', 1); w.n(o.arg == 2 ? 7 : (uint64_t)o.slot, 1); w.blob(o.arg == 2 ? badimg : p[(size_t)o.arg].il);
            int want = o.arg == 2 ? -2 : 0; judge.push_back([=](Rd& a) { int k = (int)a.n(1); a.blob(); return (k == 0) == (want == 0) ? string() : string("loading gives another result"); });
            if (o.arg != 2) st[o.slot] = o.arg;
        } else if (o.k == 1) {
            const Exec* e = &ex[cur < 0 ? 0 : cur][(size_t)o.arg];
            Exec q = *e; q.slot = o.slot; w.n('E', 1); put_exec(w, q);
            if (cur < 0) judge.push_back([](Rd& a) { int k = (int)a.n(1); a.blob(); a.blob(); size_t n = a.n(4); return k && n == 0 ? string() : string("a closed program executes"); });
            else judge.push_back([e](Rd& a) { return exec_bad(a, *e); });
        } else if (o.k == 2) {
            w.n('N', 1); w.n((uint64_t)o.slot, 1); w.n((uint64_t)o.arg, 2);
            const char* s = cur < 0 ? nullptr : cnd_get_key_name(&p[(size_t)cur].p.prog, (uint16_t)o.arg); string want = s ? s : "";
            judge.push_back([want](Rd& a) { return a.blob() == want ? string() : string("name of a key differs"); });
        } else if (o.k == 3) {
            w.n('I', 1); w.n((uint64_t)o.slot, 1); w.blob("s"); int want = cur < 0 ? 0xFFFF : cnd_get_key_id(&p[(size_t)cur].p.prog, "s");
            judge.push_back([want](Rd& a) { return (int)a.n(2) == want ? string() : string("key of a name differs"); });
        } else { w.n('C', 1); w.n((uint64_t)o.slot, 1); st[o.slot] = -1; judge.push_back([](Rd&) { return string(); }); }
    }
    Rd a; string why; ctx.evals((uint64_t)n); ctx.steps((uint64_t)n); ctx.traces(); ctx.nontrivial();
    if (!go_.ask(w.b, a, ctx.scratch, why)) { ctx.fail("the Go process ended: " + first_line(why), why); return; }
    for (int s = 0; s < 2; s++) { string e = error_bad(a, 0); if (!e.empty()) { ctx.fail(e); return; } }
    for (size_t i = 0; i < judge.size(); i++) { string e = judge[i](a); if (!e.empty()) { ctx.fail(e.substr(0, e.find(':')), fmt("operation %zu: ", i) + e); return; } }
    ctx.outcome("history followed");
}
static void together(Chooser& ch, Ctx& ctx, bool nested) {
    int w0 = (int)ch.pick(2), w1 = (int)ch.pick(2), k0 = (int)ch.pick(5), k1 = (int)ch.pick(5);
    static vector<Prep> p; if (p.empty()) two_programs(p, ctx);
    static vector<Exec> ex[2]; if (ex[0].empty()) for (int w = 0; w < 2; w++) for (int k = 0; k < 5; k++) ex[w].push_back(sample(p, w, k));
    const Exec &a = ex[w0][(size_t)k0], &b = ex[w1][(size_t)k1];
    Wr w; size_t na = a.rec.log.size(), nb = b.rec.log.size(); string text;
    auto head = [&](size_t ops) { w.n(ops + 2, 4); for (int s = 0; s < 2; s++) { w.n('L', 1); w.n((uint64_t)s, 1); w.blob(p[(size_t)s].il); } };
    Rd r; string why, e; size_t runs = 0;
    int late = (int)ch.pick(nested ? 3 : 2); Exec a2, b2; if (late == 2) { a2 = a; b2 = b; a2.flags |= 4; b2.flags |= 4; }
    const Exec &ax = late == 2 ? a2 : a, &bx = late == 2 ? b2 : b;
    if (nested) {
        if (!ctx.begin(fmt("program %d run %d inside of program %d run %d at every callback, %s", w1, k1, w0, k0, late ? late == 2 ? "strings set twice, behind the work of the callback" : "behind its work" : "before its work"))) return;
        head(na); for (size_t i = 0; i < na; i++) { w.n('T', 1); w.n(i, 2); w.n(late != 0, 1); put_exec(w, ax); put_exec(w, bx); } runs = na;
    } else {
        // All merges of the two sequences of steps with at most 3 changes of turn, and all of the first five steps
        vector<string> sch; size_t la = na + 1, lb = nb + 1;
        for (int first = 0; first < 2; first++) for (size_t i = 0; i <= (first ? lb : la); i++) for (size_t j = 0; j <= (first ? la : lb); j++) for (size_t k = 0; k + i <= (first ? lb : la); k += 1 + (k > 2)) sch.push_back(string(i, (char)first) + string(j, (char)!first) + string(k, (char)first));
        for (int m = 0; m < 64; m++) { string s; for (int i = 0; i < 6; i++) s += (char)(m >> i & 1); sch.push_back(s + s + s); }
        size_t per = 64, blocks = (sch.size() + per - 1) / per, bl = ch.pick((uint32_t)blocks);
        if (!ctx.begin(fmt("program %d run %d beside program %d run %d, schedules from %zu%s", w0, k0, w1, k1, bl * per, late ? ", callbacks stop behind their work" : ""))) return;
        runs = std::min(per, sch.size() - bl * per); head(runs);
        for (size_t i = 0; i < runs; i++) { w.n('P', 1); w.blob(sch[bl * per + i]); w.n((uint64_t)late, 1); put_exec(w, a); put_exec(w, b); }
    }
    ctx.evals(2 * runs); ctx.steps(runs * (na + nb)); ctx.traces(2 * runs); ctx.nontrivial();
    if (!go_.ask(w.b, r, ctx.scratch, why)) { ctx.fail("the Go process ended: " + first_line(why), why); return; }
    for (int s = 0; s < 2; s++) { e = error_bad(r, 0); if (!e.empty()) { ctx.fail(e); return; } }
    for (size_t i = 0; i < runs; i++) for (auto x : {&a, &b}) { e = exec_bad(r, *x); if (!e.empty()) { ctx.fail("two executions: " + e.substr(0, e.find(':')), fmt("run %zu: ", i) + e); return; } }
    ctx.outcome(nested ? "nested" : "interleaved", runs);
}

// ---------------------------------------------------------------- constants
struct Const { string name; long long v; };
// The header, read as C: OP_ macros and enumerators in order
static vector<Const> header_consts(const string& text) {
    string t; for (size_t i = 0; i < text.size(); i++) { if (!text.compare(i, 2, "//")) { i = text.find('\n', i); if (i == string::npos) break; t += '\n'; } else if (!text.compare(i, 2, "/*")) { i = text.find("*/", i) + 1; t += ' '; } else t += text[i]; }
    vector<Const> r; std::smatch m;
    std::regex def("#[ \t]*define[ \t]+(OP_\\w+)[ \t]+(\\w+)"), en("enum\\s*\\w*\\s*\\{([^}]*)\\}"), item("(\\w+)\\s*(=\\s*(-?\\w+))?");
    for (std::sregex_iterator i(t.begin(), t.end(), def), e; i != e; ++i) r.push_back({(*i)[1], strtoll((*i)[2].str().c_str(), nullptr, 0)});
    for (std::sregex_iterator i(t.begin(), t.end(), en), e; i != e; ++i) {
        string body = (*i)[1]; long long v = 0;
        for (std::sregex_iterator j(body.begin(), body.end(), item); j != e; ++j) { if ((*j)[3].matched) v = strtoll((*j)[3].str().c_str(), nullptr, 0); string n = (*j)[1]; if (!n.compare(0, 8, "CND_ERR_") || !n.compare(0, 9, "CND_MODE_") || !n.compare(0, 10, "CND_TRANS_")) r.push_back({n, v}); else if (n == "CND_LE" || n == "CND_BE") r.push_back({n, v}); v++; }
    }
    return r;
}
static string low(const string& s) { string r; for (char c : s) if (c != '_') r += (char)tolower(c); return r; }
static string wanted_name(const string& n, const string&) {
    if (!n.compare(0, 3, "OP_")) return "op" + low(n.substr(3));
    return low(n.substr(4)); // CND_
}
// Names and values of a generated file
static string consts_bad(const string& out, const string& lang, const vector<Const>& want, size_t& n) {
    std::map<string, long long> got; std::set<string> kinds; std::istringstream in(out); string l, group;
    std::regex line(lang == "go" ? "^\t(\\w+) (Error|Mode|Trans|OpCode)? ?= (-?\\w+)$" : lang == "python" ? "^    (\\w+)() = (-?\\w+)$" : "^    (\\w+)() = (-?\\w+),$"), grp("^(class|export enum) (\\w+)");
    while (std::getline(in, l)) {
        std::smatch m;
        if (std::regex_search(l, m, grp)) group = m[2];
        else if (std::regex_match(l, m, line)) {
            string name = low(m[1]); if (got.count(name)) return "the name " + m[1].str() + " is generated twice";
            char* end; string num = m[3]; got[name] = strtoll(num.c_str(), &end, 0); if (*end) return "no number: " + l;
            string g = lang == "go" ? m[2].str() : group; string pre = !name.compare(0, 3, "err") ? "Error" : !name.compare(0, 4, "mode") ? "Mode" : !name.compare(0, 5, "trans") ? "Trans" : !name.compare(0, 2, "op") ? "OpCode" : "";
            if (g != pre) return m[1].str() + " is generated as a constant of " + g;
        }
    }
    n = got.size();
    for (auto& c : want) {
        string w = wanted_name(c.name, lang); bool other = c.name == "CND_LE" || c.name == "CND_BE";
        if (!got.count(w)) { if (other && lang != "go") continue; return c.name + " is missing"; }
        if (got[w] != c.v) return fmt("%s is %lld, in the header %lld", c.name.c_str(), got[w], c.v);
        got.erase(w);
    }
    if (!got.empty()) return "constant of no counterpart in the header: " + got.begin()->first;
    return "";
}
static int generate(const string& header, const string& lang, string& out, const string& dir) {
    string h = dir + "/h.h", o = dir + "/gen.out"; impl::write_file(h, header);
    string cmd = "ASAN_OPTIONS=detect_leaks=0 /verif/build/bin/gen_bindings " + h + (lang.empty() ? "" : " " + lang) + " > " + o + " 2> " + dir + "/gen.err";
    int r = system(cmd.c_str()); impl::read_file(o, out); return r;
}
static void constants(Chooser& ch, Ctx& ctx) {
    static const vector<string> LANG = {"", "go", "python", "ts"};
    string h; impl::read_file("/repo/include/concordia.h", h);
    vector<string> ls; { std::istringstream in(h); string l; while (std::getline(in, l)) ls.push_back(l); }
    vector<size_t> at; std::regex d("^#define[ \t]+OP_.*|^[ \t]+CND_(ERR|MODE|TRANS|LE|BE).*"); for (size_t i = 0; i < ls.size(); i++) if (std::regex_match(ls[i], d)) at.push_back(i);
    // every change of one line: none, implicit value, another value, hexadecimal, negative, blank line before, comment behind, swapped with the next, duplicated name part, removed
    int what = (int)ch.pick(10); size_t k = what ? ch.pick((uint32_t)at.size()) : 0; string lang = ch.of(LANG);
    if (!ctx.begin(fmt("%s, change %d of %s", lang.empty() ? "(default)" : lang.c_str(), what, what ? ls[at[k]].c_str() : ""))) return;
    string& l = ls[at[k]]; bool macro = !l.compare(0, 7, "#define"); std::smatch m;
    auto value = [&](const string& v) { if (macro) l = std::regex_replace(l, std::regex("0x[0-9A-Fa-f]+"), v); else { if (l.find('=') == string::npos) l = std::regex_replace(l, std::regex("(CND_\\w+)"), "$1 = 0"); l = std::regex_replace(l, std::regex("= *-?\\w+"), "= " + v); } };
    switch (what) {
        case 1: if (macro) { ctx.outcome("no such change"); return; } l = std::regex_replace(l, std::regex(" *= *-?\\w+"), ""); break;
        case 2: value(macro ? "0xEE" : "77"); break;
        case 3: value("0xeF"); break;
        case 4: if (macro) { ctx.outcome("no such change"); return; } value("-3"); break;
        case 5: l = "\n    // note\n" + l; break;
        case 6: l += " // = 5, CND_ERR_X"; break;
        case 7: if (k + 1 >= at.size() || at[k + 1] != at[k] + 1 || macro != !ls[at[k + 1]].compare(0, 7, "#define")) { ctx.outcome("no such change"); return; } if (!macro && (l.find(',') == string::npos || ls[at[k + 1]].find(',') == string::npos)) { ctx.outcome("no such change"); return; } std::swap(l, ls[at[k + 1]]); break;
        case 8: l = std::regex_replace(l, std::regex("(OP_|CND_ERR_|CND_MODE_|CND_TRANS_)(\\w+)"), "$1$02_CRC_ID"); break;
        case 9: l = ""; break;
    }
    string t; for (auto& s : ls) t += s + "\n";
    vector<Const> want = header_consts(t);
    string out; int r = generate(t, lang, out, ctx.scratch); size_t n = 0;
    ctx.evals(); ctx.traces(); ctx.nontrivial();
    if (r) { string e; impl::read_file(ctx.scratch + "/gen.err", e); ctx.fail("the generator fails", e); return; }
    string bad = consts_bad(out, lang.empty() ? "go" : lang, want, n); ctx.steps(n);
    if (!bad.empty()) { ctx.fail("generated constants: " + bad, bad); return; }
    ctx.outcome("all constants right");
}
// What the Go package declares and what the compiler of C sees
static void package(Chooser&, Ctx& ctx) {
    if (!ctx.begin("the constants of the Go package")) return;
    string h, g; impl::read_file("/repo/include/concordia.h", h); impl::read_file("/repo/go/consts.go", g); size_t n = 0;
    string bad = consts_bad(g, "go", header_consts(h), n); ctx.evals(); ctx.steps(n); ctx.traces();
    if (!bad.empty()) { ctx.fail("constants of the package: " + bad); return; }
    ctx.outcome("all constants right");
}
int main(int argc, char** argv) {
    bool th = is_thorough(argc, argv);
    mc::Options o; o.property = "C21"; o.case_cpu_s = 120;
    o.rule = "Every schema of the families below with every record over the value domains is encoded and decoded by the C library and through the real Go package (built with AddressSanitizer), with every truncation and smaller buffer and a host error at every callback; every instruction and pair of instructions as raw bytecode and image with four hosts; every truncation and byte change of images with every name and number asked; texts of every kind at all boundary lengths; all sequences of 4 (thorough: 5) operations on two programs; every execution inside each callback of each other, before or behind its work and with strings set twice, and two executions under all schedules with up to 3 changes of turn at callbacks; up to 300 executions in each other or at the same time; generated constants of every language for every one-line change of the header. Compared: result, bytes, and the key, type, mode and value of every callback through every typed accessor";
    o.assumptions = {"the C library itself is judged by the other properties", "schedules change at callbacks; the VM has no shared state in between (C12)"};
    vector<mc::Family> f;
    f.push_back({"package", package});
    f.push_back({"constants", constants});
    f.push_back({"instructions", [](Chooser& ch, Ctx& ctx) { programs(ch, ctx, 1); }});
    f.push_back({"pairs of instructions", [](Chooser& ch, Ctx& ctx) { programs(ch, ctx, 2); }});
    f.push_back({"damage", damage});
    f.push_back({"texts", texts});
    f.push_back({"histories", [th](Chooser& ch, Ctx& ctx) { histories(ch, ctx, th ? 5 : 4); }});
    f.push_back({"crowd", crowd});
    f.push_back({"nested", [](Chooser& ch, Ctx& ctx) { together(ch, ctx, true); }});
    f.push_back({"schedules", [](Chooser& ch, Ctx& ctx) { together(ch, ctx, false); }});
    schema_families(f, th, explore, 0, 1, true);
    f.push_back({"very many", [](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, false, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, 0, 3); }});
    return mc::main_driver(argc, argv, o, f);
}
