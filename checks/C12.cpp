#include "common.hpp"
#include <ucontext.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" int cnd_format_file(const char*, const char*);
// ---- controlled scheduler: two executions on stacks of their own, switched at any edge of the VM's code
static ucontext_t main_uc, co_uc[2]; static int running = -1; static long budget = 0, edges[2]; static bool co_done[2]; static std::function<void()> co_body[2]; static char* co_stack[2];
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
// ---- variables of the library: back to what they are when the program starts, so that first uses race too
extern "C" { extern char __start_vm_data[] __attribute__((weak)), __stop_vm_data[] __attribute__((weak)), __start_vm_bss[] __attribute__((weak)), __stop_vm_bss[] __attribute__((weak)); }
static string vars0;
static void raw_copy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); } // behind the sanitizer's back
static void raw_zero(void* d, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }
static void vars_save() { if (__start_vm_data) { vars0.resize((size_t)(__stop_vm_data - __start_vm_data)); raw_copy(&vars0[0], __start_vm_data, vars0.size()); } }
static void vars_fresh() {
    if (__start_vm_data) raw_copy(__start_vm_data, vars0.data(), vars0.size());
    if (__start_vm_bss) raw_zero(__start_vm_bss, (size_t)(__stop_vm_bss - __start_vm_bss));
}
static vector<long> shared[2]; // where an execution touches a variable of the library
static void point(int me, bool var) {
    edges[me]++; if (var && shared[me].size() < 4000) shared[me].push_back(edges[me]);
    if (--budget <= 0) { running = -1; swapcontext(&co_uc[me], &main_uc); }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (running >= 0) point(running, false); }
static void touch(const void* p) {
    if (running < 0) return;
    if ((p >= (void*)__start_vm_data && p < (void*)__stop_vm_data) || (p >= (void*)__start_vm_bss && p < (void*)__stop_vm_bss)) point(running, true);
}
extern "C" {
#define ACCESS(n, t) void __sanitizer_cov_load##n(t* p) { touch(p); } void __sanitizer_cov_store##n(t* p) { touch(p); }
ACCESS(1, uint8_t) ACCESS(2, uint16_t) ACCESS(4, uint32_t) ACCESS(8, uint64_t) ACCESS(16, __int128)
void* vm_memcpy(void* d, const void* s, size_t n) { touch(s); touch(d); return memcpy(d, s, n); }
void* vm_memmove(void* d, const void* s, size_t n) { touch(s); touch(d); return memmove(d, s, n); }
void* vm_memset(void* d, int c, size_t n) { touch(d); return memset(d, c, n); }
}
static void entry(int i) { co_body[i](); co_done[i] = true; running = -1; swapcontext(&co_uc[i], &main_uc); }
static void start(int i, std::function<void()> f) {
    if (!co_stack[i]) co_stack[i] = (char*)malloc(512 << 10);
    co_body[i] = f; co_done[i] = false; edges[i] = 0; shared[i].clear(); getcontext(&co_uc[i]); co_uc[i].uc_stack.ss_sp = co_stack[i]; co_uc[i].uc_stack.ss_size = 512 << 10; co_uc[i].uc_link = nullptr;
    makecontext(&co_uc[i], (void (*)())entry, 1, i);
}
static void step(int i, long n) { if (co_done[i] || n <= 0) return; budget = n; running = i; swapcontext(&main_uc, &co_uc[i]); running = -1; }
// ---- operations
struct Op { int prog; bool enc = false; Run want; vector<uint8_t> data; size_t cap = 0; int fail_at = -1; int err = 0; string name; };
struct World { vector<Prep> s; vector<Op> ops; vector<vector<int>> of; };
static Schema schema(int k) {
    using namespace gen; Schema s; s.file_endian = -1; auto A = [&](const char* a, const char* n) { atom(a).add(s, s.body, n); };
    switch (k) {
        case 0: A("scale", "a"); A("u16", "b"); A("i8", "c"); break;
        case 1: A("u8", "a"); A("opt16", "b"); A("opt16", "c"); break;
        case 2: A("b3", "a"); A("b12", "b"); A("b5be", "c"); break;
        case 3: A("apstruct", "a"); A("a16", "b"); break;
        case 4: A("expr", "a"); A("expr-f", "b"); break;
        case 5: A("switch", "a"); A("switcht", "b"); break;
        case 6: s.file_endian = 1; A("u32", "a"); A("i16le", "b"); A("f64", "c"); break;
        case 7: A("u16", "a"); A("crc32", "b"); break;
        case 8: A("poly", "a"); A("add", "b"); A("u32", "c"); break;
        case 9: A("str8", "a"); A("strz", "b"); A("str", "c"); break;
        case 10: A("range16", "a"); A("const16", "b"); A("enum8", "c"); A("bool", "d"); break;
        case 11: A("structu2", "a"); A("if", "b"); break;
        case 12: A("spline", "a"); A("eof16", "b"); break;
        case 14: A("switchs", "a"); A("switchs", "b"); break;
        case 15: A("astruct", "a"); A("astrz", "b"); A("ascale", "c"); break;
        case 16: A("u8", "a"); A("i8", "b"); A("crc32", "c"); A("u8", "d"); A("crc32", "e"); A("crc16", "g"); break;
        case 17: A("u8", "a"); A("crc32", "c"); A("crc16", "d"); break;
        case 13: A("fill1", "a"); A("ap16", "b"); A("crc16", "c"); break;
    }
    return s;
}
enum { SCHEMAS = 18 };
static string shape(const Run& r) { string t; for (auto& e : r.ev) t += fmt("%d ", e.op) + e.key + ";"; return t; }
static const World& world(Ctx& ctx) {
    static World w; if (!w.s.empty()) return w; w.s.resize(SCHEMAS); w.of.resize(SCHEMAS);
    for (int k = 0; k < SCHEMAS; k++) {
        Prep& x = w.s[(size_t)k]; x.s = schema(k); x.text = print(x.s);
        if (impl::compile(x.text, x.il, ctx.scratch) != 0 || !x.p.load(x.il)) { fprintf(stderr, "schema %d\n%s", k, x.text.c_str()); abort(); }
        Chooser rc; DomGen g(rc, x.s, 0, false, 3); g.longtext = 6; Run r = ref::encode(x.s, g); if (r.err) abort();
        Run r2 = r; { Chooser c2; int left = 300; do { c2.rewind(); DomGen g2(c2, x.s, 6, false, 4); g2.longtext = 9; Run q = ref::encode(x.s, g2); if (q.err || q.unspecified) continue; r2 = q; if (shape(q) != shape(r)) break; } while (--left && c2.next()); }
        auto add = [&](Op o) { o.prog = k; w.of[(size_t)k].push_back((int)w.ops.size()); w.ops.push_back(o); };
        Op e; e.enc = true; e.want = r; e.cap = r.bytes.size() + 3; e.name = "encode"; add(e);
        { Op q; q.enc = true; q.want = r2; q.cap = r2.bytes.size() + 3; q.name = "encode another record"; add(q); Op d2; d2.data = r2.bytes; d2.want = ref::decode(x.s, d2.data); d2.err = d2.want.err; d2.name = "decode another message"; add(d2); }
        e.cap = r.bytes.size() - 1; e.err = CND_ERR_OOB; e.name = "encode into a short buffer"; add(e); e.cap = r.bytes.size() / 2; add(e);
        Op d; d.data = r.bytes; d.want = ref::decode(x.s, d.data); d.name = "decode"; d.err = d.want.err; add(d);
        for (size_t l : {r.bytes.size() - 1, r.bytes.size() / 2, (size_t)1, (size_t)0}) { Op t; t.data.assign(r.bytes.begin(), r.bytes.begin() + (long)l); t.want = ref::decode(x.s, t.data); if (t.want.unspecified) continue; t.err = t.want.err; t.name = fmt("decode %zu bytes", l); add(t); }
        for (size_t i = 0; i < r.bytes.size(); i += 3) { Op t; t.data = r.bytes; t.data[i] ^= 0x80; t.want = ref::decode(x.s, t.data); if (t.want.unspecified || t.want.err == 0) continue; t.err = t.want.err; t.name = fmt("decode with byte %zu changed", i); add(t); break; }
        impl::Result c = impl::encode(x.p, r, r.bytes.size() + 3); int n = c.ncb;
        if (x.text.find("@optional string") == string::npos) for (int f : {0, n / 2, n - 1}) { Op t; t.enc = true; t.want = r; t.cap = r.bytes.size() + 3; t.fail_at = f; t.err = CND_ERR_CALLBACK; t.name = fmt("encode with a host error at callback %d", f); add(t); Op q; q.data = r.bytes; q.want = ref::decode(x.s, q.data); q.fail_at = f; q.err = CND_ERR_CALLBACK; q.name = fmt("decode with a host error at callback %d", f); add(q); }
    }
    return w;
}
static string run(const World& w, const Op& o, const impl::Program& p, cnd_vm_ctx* c, std::function<void(cnd_vm_ctx*)> cb = nullptr, const impl::Arena* at = nullptr) {
    impl::RunOpts ro; ro.at = at; ro.ctx = c; ro.fail_at = o.fail_at; ro.on_cb = cb; (void)w;
    impl::Result r = o.enc ? impl::encode(p, o.want, o.cap, ro) : impl::decode(p, o.want, o.data, ro);
    if (o.fail_at >= 0 && !o.enc && !r.host_failed && r.err == o.want.err && r.complaint.empty()) return ""; // fewer callbacks when decoding
    if (!r.complaint.empty()) return r.complaint;
    if (r.err != o.err) return fmt("result is %s, expected %s", impl::err_name(r.err), impl::err_name(o.err));
    if (r.err == 0 && r.cursor != o.want.consumed) return fmt("length is %zu, expected %zu", r.cursor, o.want.consumed);
    if (o.enc && r.err == 0 && memcmp(r.bytes.data(), o.want.bytes.data(), o.want.bytes.size())) return "encoded bytes differ";
    return "";
}
static string op_name(const World& w, int i) { return fmt("%s [schema %d]", w.ops[(size_t)i].name.c_str(), w.ops[(size_t)i].prog); }
// All sequences of operations on the same context memory and the same program object
static void history(Chooser& ch, Ctx& ctx, int len, bool some) {
    const World& w = world(ctx); vector<int> seq;
    for (int i = 0; i < len - 1; i++) { int k = (int)ch.pick((uint32_t)w.ops.size()); if (some && k % 3 != i % 3) return; seq.push_back(k); }
    string t; for (int i : seq) t += op_name(w, i) + ", then ";
    if (!ctx.begin(t + "every operation")) return;
    impl::Arena data(8192), image(8192); // everything at one address, or everything somewhere new
    cnd_vm_ctx shared; impl::Program prog; memset(&shared, 0xCD, sizeof shared);
    for (size_t turn = 0; turn < 2 * w.ops.size(); turn++) {
        size_t last = turn / 2; bool same = turn % 2;
        if (some && (last % 2 || (int)(last / 2 % 2) == (int)same)) continue;
        vector<int> q = seq; q.push_back((int)last); vars_fresh();
        for (size_t i = 0; i < q.size(); i++) {
            const Op& o = w.ops[(size_t)q[i]]; const Prep& x = w.s[(size_t)o.prog];
            if (!prog.load(x.il, same ? &image : nullptr)) { ctx.fail("image does not load again"); return; }
            string bad = run(w, o, prog, &shared, nullptr, same ? &data : nullptr); ctx.evals();
            if (!bad.empty()) { ctx.fail("an operation gives another result after others: " + first_line(bad).substr(0, 60), t + op_name(w, (int)last) + fmt("\nfails at step %zu: ", i + 1) + bad + "\n" + x.text); return; }
            ctx.steps(o.want.ev.size());
        }
        ctx.traces(); ctx.outcome("history replayed");
    }
    ctx.nontrivial();
}
// The second execution whole, inside every callback of the first
static void nested(Chooser& ch, Ctx& ctx) {
    const World& w = world(ctx); int a = (int)ch.pick((uint32_t)w.ops.size()), b = (int)ch.pick((uint32_t)w.ops.size());
    if (!ctx.begin(op_name(w, a) + " with " + op_name(w, b) + " at every callback")) return;
    const Op &A = w.ops[(size_t)a], &B = w.ops[(size_t)b]; cnd_vm_ctx ca, cb; memset(&ca, 0xCD, sizeof ca); memset(&cb, 0xCD, sizeof cb); string inner; vars_fresh();
    string bad = run(w, A, w.s[(size_t)A.prog].p, &ca, [&](cnd_vm_ctx*) { string r = run(w, B, w.s[(size_t)B.prog].p, &cb); ctx.evals(); if (inner.empty()) inner = r; });
    ctx.evals(); ctx.traces(); ctx.steps(A.want.ev.size());
    if (!bad.empty() || !inner.empty()) { ctx.fail("an execution inside another's callback changes a result", (bad.empty() ? "inner: " + inner : "outer: " + bad)); return; }
    ctx.outcome("nested execution"); ctx.nontrivial();
}
// All interleavings of two executions with up to two (thorough: three) preemptions, at every edge of the code
static void interleave(Chooser& ch, Ctx& ctx) {
    const World& w = world(ctx); int a = (int)ch.pick(SCHEMAS), b = (int)ch.pick(SCHEMAS), va = (int)ch.pick(2), vb = (int)ch.pick(2);
    static const char* N[] = {"encode", "decode", "encode another record", "decode another message"}; // the two run on different records
    auto sel = [&](int k, int v) -> const Op& { for (int i : w.of[(size_t)k]) if (w.ops[(size_t)i].name == N[v]) return w.ops[(size_t)i]; abort(); };
    const Op &A = sel(a, va), &B = sel(b, 2 + vb);
    if (!ctx.begin(fmt("%s of schema %d interleaved with %s of schema %d", A.name.c_str(), a, B.name.c_str(), b))) return;
    string ra, rb; uint64_t schedules = 0;
    auto both = [&](long i, long j, long k) {
        cnd_vm_ctx ca, cb; memset(&ca, 0xCD, sizeof ca); memset(&cb, 0xCD, sizeof cb); vars_fresh();
        start(0, [&] { ra = run(w, A, w.s[(size_t)A.prog].p, &ca); }); start(1, [&] { rb = run(w, B, w.s[(size_t)B.prog].p, &cb); });
        step(0, i); step(1, j); if (k) { step(0, k); }
        if (k) { step(1, 1L << 40); step(0, 1L << 40); } else { step(0, 1L << 40); step(1, 1L << 40); }
        if (!co_done[0] || !co_done[1]) { ctx.fail("an execution does not end"); return false; }
        schedules++; ctx.evals(2);
        if (!ra.empty() || !rb.empty()) { ctx.fail("an interleaved execution gives another result", fmt("first runs %ld edges, second %ld, first %ld\n", i, j, k) + "first: " + ra + "\nsecond: " + rb); return false; }
        return true;
    };
    if (!both(1L << 40, 1L << 40, 0)) return;
    long na = edges[0], nb = edges[1];
    if (!shared[0].empty()) { // around every access to a variable of the library, against every such point of the other
        auto cut = [&](vector<long> v) { vector<long> o; size_t st = std::max<size_t>(1, v.size() / (ctx.thorough ? 200 : 40)); for (size_t i = 0; i < v.size(); i += i < 20 ? 1 : st) o.push_back(v[i]); o.push_back(1L << 40); return o; };
        vector<long> pa = cut(shared[0]); if (!both(1, 1L << 40, 0)) return;
        vector<long> pb = cut(shared[1]); ctx.outcome("touches a variable of the library");
        for (long i : pa) for (long j : pb) if (!both(i, j, 0) || !both(i, j, 1)) return;
    }
    long sa = 1, sb = 1; if (!ctx.thorough) { sb = std::max(1L, nb / 30); sa = std::max(1L, na / 400); }
    for (long i = 1; i <= na; i += sa) for (long j = 1 + i % sb; j <= nb + sb; j += sb) if (!both(i, j, 0)) return;
    if (ctx.thorough) { long ta = std::max(1L, na / 24), tb = std::max(1L, nb / 24); for (long i = 1; i <= na; i += ta) for (long j = 1; j <= nb; j += tb) for (long k = 1; k <= na - i; k += ta) if (!both(i, j, k)) return; }
    ctx.traces(schedules); ctx.steps((uint64_t)(na + nb)); ctx.outcome("schedules", schedules); ctx.nontrivial();
}
// ---- compiler and formatter
static string slurp(const string& p) { string s; impl::read_file(p, s); return s; }
struct Src { string name, text; bool imports; };
static const vector<Src>& sources() {
    static vector<Src> v; if (!v.empty()) return v;
    v.push_back({"good.cnd", "packet P { uint8 a; uint16 b; }\n", false});
    v.push_back({"structs.cnd", "enum E : uint8 { A = 1, B }\nstruct S { uint8 n; E e; @count(n) uint16 v[]; }\n@big_endian\npacket Q { S s; S t[2]; string x until 0; @crc(32) uint32 c; }\n", false});
    v.push_back({"syntax.cnd", "packet P { uint8 ; }\n", false});
    v.push_back({"unknown.cnd", "struct S { uint8 n; Z q; }\npacket P { S s; @count(zz) uint8 v[]; }\n", false});
    v.push_back({"lex.cnd", "packet P { uint8 a; \"unterminated\n }\n", false});
    v.push_back({"empty.cnd", "", false});
    v.push_back({"imp.cnd", "@import(\"inc.cnd\")\npacket P { I i; }\n", true});
    v.push_back({"impbad.cnd", "@import(\"missing.cnd\")\npacket P { uint8 a; }\n", true});
    v.push_back({"impsyn.cnd", "@import(\"syntax.cnd\")\npacket P { uint8 a; }\n", true});
    v.push_back({"deep.cnd", "struct A { uint8 a; }\nstruct B { A a; A b; }\nstruct C { B a; B b; }\npacket P { C c; switch (x) { case 1: uint8 y; } }\n", false});
    v.push_back({"ctl.cnd", "packet P { @range(0, 3) uint8 k; switch (k) { case 0: uint8 a; case 1: { uint16 b; } default: uint32 d; } if (k > 1) { @scale(0.5) uint16 e; } @expr(k * 2 + 1) uint8 f; }\n", false});
    v.push_back({"version.cnd", "@version(3)\n@little_endian\npacket V { @optional uint8 a; @const(7) uint8 b; }\n", false});
    // the same names in other places, the same file with another text
    v.push_back({"names1.cnd", "enum E : uint8 { A = 1, B = 2 }\nstruct S { uint8 n; }\nstruct T { uint16 m; S s; E e; }\npacket P { uint8 a; T t; S s; switch (a) { case 1: uint8 b; case 2: uint16 c; } @expr(t.m + a) uint32 d; }\n", false});
    v.push_back({"names2.cnd", "struct T { uint32 n; }\nstruct X { T t; }\nstruct S { uint64 n; T s; }\nenum E : uint16 { B = 1, C, A = 200 }\npacket P { T t; uint16 d; S s; uint8 c; E a; switch (a) { case E.A: uint8 q; case E.B: uint16 b; } @expr(s.n * 3 + c) uint32 e; }\n", false});
    v.push_back({"names1.cnd", "struct P { uint8 E; }\nstruct E { P S; }\npacket T { E e; P p; int16 m; float a; @expr(a * 2.0) double b; }\n", false});
    v.push_back({"imp.cnd", "@import(\"inc.cnd\") // 2\npacket P { I i; I k; }\n", true});
    return v;
}
enum { KIND_COMPILE, KIND_FORMAT, KIND_COMPILE_JSON, KINDS };
static string do_op(const string& dir, int src, int kind) { // what the operation leaves behind
    const Src& s = sources()[(size_t)src]; string in = dir + "/" + s.name, out = dir + "/out"; unlink(out.c_str()); impl::write_file(in, s.text); if (s.name == "imp.cnd") impl::write_file(dir + "/inc.cnd", s.text.find("// 2") == string::npos ? "struct I { uint8 q; }\n" : "\n\nstruct K { uint32 i; }\nstruct I { uint16 r; K q; }\n"); string diag; int r;
    if (kind == KIND_FORMAT) {
        fflush(stdout); fflush(stderr); string t = in + ".d"; int fd = open(t.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666), a = dup(1), b = dup(2); dup2(fd, 1); dup2(fd, 2); close(fd);
        r = cnd_format_file(in.c_str(), out.c_str()); fflush(stdout); fflush(stderr); dup2(a, 1); dup2(b, 2); close(a); close(b); diag = slurp(t); unlink(t.c_str());
    } else r = impl::compile_file(in, out, &diag, kind == KIND_COMPILE_JSON);
    return fmt("result %d\n", r) + diag + "\n--\n" + slurp(out);
}
static void prepare_dir(const string& dir) { mkdir(dir.c_str(), 0777); for (auto& s : sources()) impl::write_file(dir + "/" + s.name, s.text); impl::write_file(dir + "/inc.cnd", "struct I { uint8 q; }\n"); }
static const vector<string>& alone(Ctx& ctx) { // each operation in a process of its own
    static vector<string> v; if (!v.empty()) return v; string dir = ctx.scratch + "/src"; prepare_dir(dir);
    for (size_t i = 0; i < sources().size(); i++) for (int k = 0; k < KINDS; k++) {
        fflush(stdout); pid_t p = fork(); if (p == 0) { impl::write_file(dir + "/alone", do_op(dir, (int)i, k)); _exit(0); }
        int st; waitpid(p, &st, 0); v.push_back(slurp(dir + "/alone")); unlink((dir + "/alone").c_str());
    }
    return v;
}
static void compiles(Chooser& ch, Ctx& ctx, int len) {
    int N = (int)sources().size() * KINDS; vector<int> seq; for (int i = 0; i < len - 1; i++) seq.push_back((int)ch.pick((uint32_t)N));
    auto nm = [&](int i) { static const char* K[] = {"compile ", "format ", "compile (JSON diagnostics) "}; return string(K[i % KINDS]) + sources()[(size_t)(i / KINDS)].name; };
    string t; for (int i : seq) t += nm(i) + ", then ";
    if (!ctx.begin(t + "every operation")) return;
    const auto& base = alone(ctx); string dir = ctx.scratch + "/src";
    for (int last = 0; last < N; last++) {
        vector<int> q = seq; q.push_back(last);
        // Dirty the heap so that uninitialised memory differs
        { vector<void*> m; for (int i = 1; i < 40; i++) { void* b = malloc((size_t)i * 37); memset(b, 0x40 + last, (size_t)i * 37); m.push_back(b); } for (void* b : m) free(b); }
        for (size_t i = 0; i < q.size(); i++) {
            string r = do_op(dir, q[i] / KINDS, q[i] % KINDS); ctx.evals(); ctx.steps();
            if (r != base[(size_t)q[i]]) { ctx.fail("compiling or formatting depends on what ran before", t + nm(last) + fmt("\nstep %zu (%s) gives\n", i + 1, nm(q[i]).c_str()) + r.substr(0, 1500) + "\nalone it gives\n" + base[(size_t)q[i]].substr(0, 1500)); return; }
        }
        ctx.traces(); ctx.outcome("compile and format history replayed");
    }
    ctx.nontrivial();
}
// Many executions of one program on one context, compiled again in between
static void mixed(Chooser& ch, Ctx& ctx) {
    const World& w = world(ctx); int a = (int)ch.pick((uint32_t)w.ops.size()), src = (int)ch.pick((uint32_t)sources().size()), kind = (int)ch.pick(2);
    if (!ctx.begin(op_name(w, a) + " around " + (kind ? "format " : "compile ") + sources()[(size_t)src].name)) return;
    alone(ctx); const Op& A = w.ops[(size_t)a]; cnd_vm_ctx c; memset(&c, 0xCD, sizeof c);
    for (int i = 0; i < 3; i++) { string bad = run(w, A, w.s[(size_t)A.prog].p, &c); ctx.evals(); if (!bad.empty()) { ctx.fail("compiling changes an execution", bad); return; } do_op(ctx.scratch + "/src", src, kind); }
    string il; if (impl::compile(w.s[(size_t)A.prog].text, il, ctx.scratch) != 0 || il != w.s[(size_t)A.prog].il) { ctx.fail("compiling again gives another image"); return; }
    ctx.traces(); ctx.outcome("mixed history"); ctx.nontrivial();
}
int main(int argc, char** argv) {
    vars_save();
    mc::Options o; o.property = "C12"; bool th = is_thorough(argc, argv);
    o.rule = "18 schemas that use every kind of run state, each with an alphabet of encode/decode, truncated, corrupt, short-buffer and host-error operations: all sequences of 2 (a third of those of 3; thorough: all of 3) on one context and one program object, with message and image at one address or at a new one each time, every operation inside every callback of every other, each history, nest and schedule from the variables of a fresh process, two executions under a scheduler that preempts at the edges of the VM's code (quick: up to 2 preemptions on a grid of 400 x 31 points; thorough: every pair of points, and 3 preemptions on a grid); all sequences of 2 (thorough: 3) compile and format operations over 16 sources (with the same names in other places, and the same files with another text) against the result of a fresh process";
    o.assumptions = {"executions are interleaved on one processor; weak memory effects of true parallelism are covered only as far as there is no shared writable state"};
    vector<mc::Family> f = { {"histories of 2", [](Chooser& c, Ctx& x) { history(c, x, 2, false); }}, {"histories of 3", [th](Chooser& c, Ctx& x) { history(c, x, 3, !th); }}, {"nested", nested}, {"interleavings", interleave}, {"compiles of 2", [](Chooser& c, Ctx& x) { compiles(c, x, 2); }}, {"mixed", mixed} };
    if (th) f.push_back({"compiles of 3", [](Chooser& c, Ctx& x) { compiles(c, x, 3); }});
    return mc::main_driver(argc, argv, o, f);
}
