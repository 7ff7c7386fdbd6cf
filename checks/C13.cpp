#include "common.hpp"
#include "isa.hpp"
#include <set>
typedef vector<uint8_t> Bytes;
static int verify(const Bytes& b) { impl::Block m(b); cnd_program p; cnd_program_load(&p, m.p, m.n); return cnd_verify_program(&p); }
static int marks;
static cnd_error_t yes(cnd_vm_ctx*, uint16_t k, uint8_t t, void* p) { if (k == 0x7777) marks++; if (t == OP_STR_NULL || t == OP_STR_PRE_U8 || t == OP_STR_PRE_U16 || t == OP_STR_PRE_U32) return CND_ERR_OK; if (t == OP_CTX_QUERY || t == OP_LOAD_CTX) { uint64_t v = 1; memcpy(p, &v, 8); } return t == OP_RAW_BYTES ? CND_ERR_INVALID_OP : CND_ERR_OK; }
static cnd_error_t yes_enc(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { if (t == OP_STR_NULL || t == OP_STR_PRE_U8 || t == OP_STR_PRE_U16 || t == OP_STR_PRE_U32) { *(const char**)p = "s"; return CND_ERR_OK; } return yes(c, k, t, p); }
static bool has(const isa::Prog& m, std::initializer_list<int> ops) { for (auto& x : m.ins) for (int o : ops) if (x.op == o) return true; return false; }
// Empty: verifier and model agree, and accepted programs execute without running into malformed code
static string judge(const Bytes& b, Ctx& ctx, bool run, const isa::Prog* given = nullptr) {
    isa::Prog m = given ? *given : isa::parse(b); int v = verify(b); ctx.evals();
    if (m.gray) { ctx.outcome("not judged"); return ""; }
    if ((v == 0) != m.ok) return m.ok ? fmt("verifier rejects (%s) a well-formed program", impl::err_name(v)) : "verifier accepts a malformed program: " + m.why;
    ctx.traces(); ctx.outcome(m.ok ? "accepted" : "rejected");
    if (!m.ok || !run || m.backward || m.stray_end) return "";
    for (auto& x : m.ins) if (x.op >= 0x34 && x.op <= 0x3B && x.op != 0x38 && x.op != 0x39) { // loops run over code that jumps may leave: bound the work
        uint64_t c = 0; if (x.op == 0x34) { c = b[x.off + 3] | b[x.off + 4] << 8 | (uint64_t)b[x.off + 5] << 16; } if (c > 4096) return "";
    }
    // A last instruction that reports whether execution came out of the program in step
    Bytes b2 = b; bool jumps = has(m, {0x50, 0x51, 0x52, 0x53}), loops = has(m, {0x34, 0x35, 0x36, 0x37, 0x3A, 0x3B});
    if (!jumps && !loops) for (uint8_t v : {0x26, 0x10, 0x77, 0x77}) b2.push_back(v);
    impl::Block pm(b2); cnd_program p; cnd_program_load(&p, pm.p, pm.n);
    for (int mode = 0; mode < 2; mode++) {
        impl::Block d(48, mode ? 0 : 0xA5); cnd_vm_ctx c; memset(&c, 0xCD, sizeof c);
        cnd_init(&c, mode ? CND_MODE_DECODE : CND_MODE_ENCODE, &p, d.p, d.n, mode ? yes : yes_enc, nullptr);
        marks = 0; int e = cnd_execute(&c); ctx.evals();
        if (e == CND_ERR_INVALID_OP && !has(m, {0x38})) return "verified program ends with INVALID_OP";
        if (e == 0 && !jumps && !loops && marks != 1) return "execution of a verified program runs out of step with its instructions";
        ctx.outcome(fmt("verified program ends with %s", impl::err_name(e)));
    }
    return "";
}
static bool one(const Bytes& b, Ctx& ctx, bool run) { string bad = judge(b, ctx, run); if (bad.empty()) return true; ctx.fail(bad.substr(0, bad.find(" at ")).substr(0, bad.find(" of the ")), bad + "\nprogram " + hex(b)); return false; }
// Every program of up to 5 bytes over boundary operands
static void shorts(Chooser& ch, Ctx& ctx) {
    int len = (int)ch.pick(ctx.thorough ? 7 : 6); uint8_t op = len ? (uint8_t)ch.pick(256) : 0;
    if (!ctx.begin(fmt("all programs of %d bytes starting with %02X", len, op))) return;
    static const uint8_t A[] = {0, 1, 4, 0x10, 0x1B, 0x38, 0x52, 0xFF}, B[] = {0, 1, 0x10, 0x52};
    if (len < 2) { one(len ? Bytes{op} : Bytes{}, ctx, true); ctx.nontrivial(); return; }
    if (len == 2) { for (int i = 0; i < 256; i++) if (!one({op, (uint8_t)i}, ctx, true)) return; ctx.nontrivial(); return; }
    if (len == 3) { for (int i = 0; i < 65536; i++) if (!one({op, (uint8_t)i, (uint8_t)(i >> 8)}, ctx, false)) return; ctx.nontrivial(); return; }
    int nb = len < 6 ? 8 : 4; const uint8_t* S = len < 6 ? A : B; int tot = 1; for (int i = 1; i < len; i++) tot *= nb;
    for (int c = 0; c < tot; c++) { Bytes b{op}; int q = c; for (int i = 1; i < len; i++) { b.push_back(S[q % nb]); q /= nb; } if (!one(b, ctx, true)) return; }
    ctx.nontrivial();
}
// Instructions with representative operands
static void put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static const vector<Bytes>& catalogue() {
    static vector<Bytes> c; if (!c.empty()) return c;
    for (auto& s : isa::shapes()) {
        Bytes b{s.op};
        string o = s.operands;
        if (o == "C") for (int t = 0x0F; t <= 0x19; t++) { Bytes x = b; put(x, 0x52, 2); put(x, (uint64_t)t, 1); put(x, 0x1052, t == 0x13 || t == 0x17 ? 8 : t == 0x12 || t == 0x16 ? 4 : t == 0x11 || t == 0x15 ? 2 : 1); c.push_back(x); }
        else if (o == "W") for (int t = 0x0F; t <= 0x15; t++) { Bytes x = b; put(x, (uint64_t)t, 1); put(x, 0x52, t == 0x13 ? 8 : t == 0x12 ? 4 : t == 0x11 ? 2 : 1); c.push_back(x); }
        else if (o == "R") for (int t = 0x0F; t <= 0x1B; t++) { Bytes x = b; put(x, (uint64_t)t, 1); int z = t == 0x13 || t == 0x17 || t == 0x19 ? 8 : t == 0x12 || t == 0x16 || t == 0x18 ? 4 : t == 0x11 || t == 0x15 ? 2 : 1; put(x, 0, z); put(x, 0x50, z); c.push_back(x); }
        else if (o == "E") { for (int t = 0x0F; t <= 0x19; t++) for (int k = 0; k < 3; k++) { if (k != 1 && t != 0x10 && t != 0x12) continue; Bytes x = b; put(x, (uint64_t)t, 1); put(x, (uint64_t)k, 2); int z = t == 0x13 || t == 0x17 ? 8 : t == 0x12 || t == 0x16 ? 4 : t == 0x11 || t == 0x15 ? 2 : 1; for (int i = 0; i < k; i++) put(x, 0x52, z); c.push_back(x); } }
        else if (o == "P") for (int k : {0, 1, 3}) { Bytes x = b; put(x, (uint64_t)k, 1); for (int i = 0; i < k; i++) put(x, 0x5253545556575859ull, 8); c.push_back(x); }
        else if (o == "S") for (int k : {0, 1, 2}) { Bytes x = b; put(x, (uint64_t)k, 1); for (int i = 0; i < 2 * k; i++) put(x, 0x5253545556575859ull, 8); c.push_back(x); }
        else if (o == "M") for (int t = 0x0F; t <= 0x1B; t++) { Bytes x = b; put(x, (uint64_t)t, 1); c.push_back(x); }
        else if (o == "j") { Bytes x = b; put(x, 0, 4); c.push_back(x); }
        else if (o == "kt") {
            if (s.op == 0x51) for (int k = 0; k < 3; k++) { Bytes x = b; put(x, 1, 2); put(x, 0, 4); put(x, (uint64_t)k, 2); put(x, (uint64_t)(6 + 12 * k), 4); for (int i = 0; i < k; i++) { put(x, (uint64_t)i, 8); put(x, (uint64_t)(6 + 12 * k), 4); } c.push_back(x); }
            else for (int k = 1; k < 3; k++) { Bytes x = b; put(x, 1, 2); put(x, 0, 4); put(x, 1, 8); put(x, (uint64_t)k, 8); for (int i = 0; i <= k; i++) put(x, (uint64_t)(20 + 4 * k), 4); c.push_back(x); }
        }
        else if (o == "kb") for (int k : {0, 1, 8, 64, 65}) { Bytes x = b; put(x, 0x5152, 2); put(x, (uint64_t)k, 1); c.push_back(x); }
        else { Bytes x = b; for (char q : o) put(x, q == 'k' ? 0x1051 : 0x02, q == 'k' ? 2 : q - '0'); c.push_back(x); }
    }
    c.push_back({0x06, 1, 0}); c.push_back({0x1B, 0, 0}); c.push_back({0xFF});
    return c;
}
// Sequences of instructions, whole and cut off at every length
static void sequences(Chooser& ch, Ctx& ctx, int n) {
    const auto& C = catalogue(); Bytes b; for (int i = 0; i < n - 1; i++) { auto& x = ch.of(C); b.insert(b.end(), x.begin(), x.end()); }
    if (!ctx.begin(fmt("%s followed by every instruction", hex(b).c_str()))) return;
    for (auto& x : C) {
        Bytes p = b; p.insert(p.end(), x.begin(), x.end());
        for (size_t l = p.size(); l > b.size() || (l == 0 && b.empty()); l--) { Bytes q(p.begin(), p.begin() + (long)l); if (!one(q, ctx, l == p.size())) return; if (!l) break; }
    }
    ctx.nontrivial();
}
// A jump or a switch in the middle of instructions, every target
static void targets(Chooser& ch, Ctx& ctx) {
    const auto& C = catalogue(); int kind = (int)ch.pick(6); const Bytes& pre = ch.of(C); 
    if (!ctx.begin(fmt("jump kind %d behind %s, every target, before every instruction", kind, hex(pre).c_str()))) return;
    for (auto& post : C) {
        if (!ctx.thorough && post.size() > 12) continue;
        Bytes tail = post; tail.push_back(0x00);
        size_t at = pre.size();
        auto build = [&](int64_t tgt) { // the target is relative to the first byte of the program
            Bytes b = pre;
            if (kind < 2) { b.push_back(kind ? 0x52 : 0x50); put(b, (uint64_t)(tgt - (int64_t)at - 5), 4); b.insert(b.end(), tail.begin(), tail.end()); return b; }
            bool tab = kind == 3 || kind == 5, def = kind >= 4; b.push_back(tab ? 0x53 : 0x51); put(b, 1, 2); put(b, tail.size(), 4); b.insert(b.end(), tail.begin(), tail.end());
            uint64_t rel = (uint64_t)(tgt - (int64_t)at - 7);
            if (tab) { put(b, 5, 8); put(b, 6, 8); put(b, def ? rel : 0, 4); put(b, 0, 4); put(b, def ? 0 : rel, 4); }
            else { put(b, 1, 2); put(b, def ? rel : 0, 4); put(b, 5, 8); put(b, def ? 0 : rel, 4); }
            b.push_back(0x00); return b;
        };
        int64_t n = (int64_t)build(0).size();
        for (int64_t t = -2; t <= n + 2; t++) if (!one(build(t), ctx, true)) return;
        for (int64_t t : {(int64_t)INT32_MIN, (int64_t)INT32_MAX, (int64_t)-300, (int64_t)70000}) if (!one(build(t), ctx, false)) return;
    }
    ctx.nontrivial();
}
// Jumps and switches over long code, targets around its ends, around the powers of two and inside of an instruction
static void far_targets(Chooser& ch, Ctx& ctx) {
    static const vector<uint32_t> N = {200, 255, 256, 257, 32760, 32767, 32768, 32769, 65530, 65535, 65536, 65537, 70000, 131072}; uint32_t n = ch.of(N); int kind = (int)ch.pick(8), unit = (int)ch.pick(3); if (!ctx.thorough && n > 300 && (unit != 2 || (n & (n - 1) && n != 65537))) return; // unit: instructions of 1, 3 or 9 bytes
    if (!ctx.begin(fmt("jump kind %d over %u bytes of instructions of kind %d", kind, n, unit))) return;
    Bytes tail; static const Bytes U[] = {{0x00}, {0x10, 1, 0}, {0x40, 1, 2, 3, 4, 5, 6, 7, 8}}; const Bytes& u = U[unit]; while (tail.size() < n) tail.insert(tail.end(), u.begin(), u.end());
    auto build = [&](int64_t tgt) {
        Bytes b; bool back = kind & 1;
        if (kind < 4) { if (back) b = tail; size_t at = b.size(); b.push_back(kind / 2 ? 0x52 : 0x50); put(b, (uint64_t)(tgt - (int64_t)at - 5), 4); if (!back) b.insert(b.end(), tail.begin(), tail.end()); b.push_back(0x00); return b; }
        bool tab = kind >= 6, def = kind & 1; b.push_back(tab ? 0x53 : 0x51); put(b, 1, 2); put(b, tail.size(), 4); b.insert(b.end(), tail.begin(), tail.end()); uint64_t rel = (uint64_t)(tgt - 7);
        if (tab) { put(b, 5, 8); put(b, 6, 8); put(b, def ? rel : 0, 4); put(b, 0, 4); put(b, def ? 0 : rel, 4); } else { put(b, 1, 2); put(b, def ? rel : 0, 4); put(b, 5, 8); put(b, def ? 0 : rel, 4); }
        b.push_back(0x00); return b;
    };
    int64_t len = (int64_t)build(0).size(); std::set<int64_t> T;
    for (int64_t c : {(int64_t)0, (int64_t)7, (int64_t)tail.size(), len, len - (int64_t)tail.size(), (int64_t)255, (int64_t)32768, (int64_t)65536, len - 65536, len - 256, len + 65536}) for (int d = -4; d <= 4; d++) T.insert(c + d);
    for (int64_t t : T) if (!one(build(t), ctx, false)) return;
    ctx.nontrivial();
}
// Where the table lies: every table offset
static void tables(Chooser& ch, Ctx& ctx) {
    bool tab = ch.flag(); int k = (int)ch.pick(4), body = (int)ch.pick(4), second = (int)ch.pick(3);
    if (!ctx.begin(fmt("switch %d with %d cases, body %d, second switch %d, every table offset", tab, k, body, second))) return;
    static const vector<Bytes> B = {{}, {0x00, 0x00}, {0x10, 1, 0, 0x01}, {0x52, 0, 0, 0, 0}};
    for (int64_t off = 0; off < 90; off++) for (uint64_t cnt : {(uint64_t)k, (uint64_t)k + 1, (uint64_t)65535, (uint64_t)-1}) {
        Bytes b; b.push_back(tab ? 0x53 : 0x51); put(b, 1, 2); put(b, (uint64_t)off, 4); auto& y = B[(size_t)body]; b.insert(b.end(), y.begin(), y.end());
        if (second) { b.push_back(second == 1 ? 0x51 : 0x53); put(b, 1, 2); put(b, 0, 4); if (second == 1) { put(b, 0, 2); put(b, 6, 4); } else { put(b, 0, 8); put(b, 0, 8); put(b, 24, 4); put(b, 24, 4); } }
        if (tab) { put(b, 3, 8); put(b, 3 + cnt, 8); put(b, 0, 4); for (int i = 0; i <= k; i++) put(b, 0, 4); } else { put(b, cnt, 2); put(b, 0, 4); for (int i = 0; i < k; i++) { put(b, (uint64_t)i, 8); put(b, 0, 4); } }
        b.push_back(0); b.push_back(1);
        if (!one(b, ctx, true)) return;
    }
    for (uint64_t off : {0xFFFFFFF9ull, 0xFFFFFFFFull, 0x80000000ull, 0x7FFFFFFFull}) { Bytes b; b.push_back(tab ? 0x53 : 0x51); put(b, 1, 2); put(b, off, 4); for (int i = 0; i < 60; i++) b.push_back(0); if (!one(b, ctx, false)) return; }
    ctx.nontrivial();
}
static Bytes code_of(const string& il) { uint32_t o; memcpy(&o, il.data() + 12, 4); return Bytes(il.begin() + o, il.end()); }
static void compiled(Prep& x, Ctx& ctx, int budget, int) {
    Bytes b(x.p.prog.bytecode, x.p.prog.bytecode + x.p.prog.bytecode_len);
    isa::Prog m = isa::parse(b);
    if (verify(b) != 0) { ctx.fail("compiled program is rejected", hex(b)); return; }
    if (m.gray || !m.ok) { ctx.outcome("compiled program of a form that is not judged"); }
    ctx.evals(); ctx.outcome("compiled program accepted"); ctx.steps(m.ins.size());
    if (budget == 0) return;
    for (size_t l = 0; l < b.size(); l++) if (!one(Bytes(b.begin(), b.begin() + (long)l), ctx, false)) return;
    for (size_t i = 0; i < b.size(); i++) {
        Bytes q = b;
        if (budget > 6) { for (int v = 1; v < 256; v++) { q[i] = (uint8_t)(b[i] ^ v); if (!one(q, ctx, false)) return; } }
        else for (int v : {1, 0x12, 0xFF}) { q[i] = (uint8_t)(b[i] ^ v); if (!one(q, ctx, false)) return; }
        q = b; q.erase(q.begin() + (long)i); if (!one(q, ctx, false)) return;
        q = b; q.insert(q.begin() + (long)i, 0x00); if (!one(q, ctx, false)) return;
    }
    ctx.nontrivial();
}
// Large constructs: many cases, many nested switches, long bodies
static void large(Chooser& ch, Ctx& ctx) {
    int k = (int)ch.pick(3), n = 1 + (int)ch.pick(70);
    string t = "packet P { uint8 k;\n";
    if (k == 0) { t += "switch (k) {\n"; for (int i = 0; i < n; i++) t += fmt("case %d: uint16 a%d;\n", i * (n % 2 ? 1 : 7), i); t += "}\n"; }
    if (k == 1) { for (int i = 0; i < n; i++) t += fmt("switch (k) { case %d: { uint8 x%d;\n", i, i); for (int i = 0; i < n; i++) t += "} }\n"; }
    if (k == 2) { for (int i = 0; i < n; i++) t += fmt("if (k == %d) { uint8 x%d; } else {\n", i, i); for (int i = 0; i < n; i++) t += "}\n"; }
    t += "uint8 z; }\n";
    if (!ctx.begin(t)) return;
    string il; impl::Program p; int r = impl::compile(t, il, ctx.scratch); ctx.evals();
    if (r != 0) { ctx.outcome("rejected by the compiler"); if (n <= 60) ctx.fail("well-formed schema does not compile"); return; }
    if (!p.load(il)) { ctx.fail("compiled image does not load"); return; }
    int v = cnd_verify_program(&p.prog);
    if (v) { ctx.fail(fmt("compiled program is rejected with %s", impl::err_name(v))); return; }
    ctx.outcome("compiled program accepted"); ctx.traces(); ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C13"; bool th = is_thorough(argc, argv); (void)code_of;
    o.rule = "Every program of up to 3 bytes and, over boundary bytes, 5 (thorough: 6) bytes; all sequences of 2 (thorough: 3) instructions from a catalogue of every opcode with representative operands, whole and cut off at every byte; jumps and switches in front of and behind every instruction with every target; every table position; jumps and switches over up to 131072 bytes with targets around both ends and the powers of two; all compiled schemas of the families (with every truncation, byte change, deletion and insertion for single atoms and nestings); the verdict is compared with an independent model of the instruction set, and verified programs without backward jumps are executed in both modes; schemas with very many of each of 21 constructs (counts around powers of two)";
    o.assumptions = {"shared switch tables, more than 64 pending tables, and jumps to the start of a table are not judged", "an ARR_END without a loop may end with INVALID_OP at run time"};
    vector<mc::Family> f = { {"short programs", shorts}, {"sequences 2", [](Chooser& c, Ctx& x) { sequences(c, x, 2); }}, {"targets", targets}, {"far targets", far_targets}, {"tables", tables}, {"large", large} };
    if (th) f.push_back({"sequences 3", [](Chooser& c, Ctx& x) { sequences(c, x, 3); }});
    vector<mc::Family> g; auto ex = [th](Prep& x, Ctx& c, int, int) { bool small = x.p.prog.bytecode_len < 70; compiled(x, c, small ? (th ? 7 : 1) : th ? 1 : 0, 0); };
    schema_families(g, th, ex, 0, 1, true);
    for (auto& q : g) f.push_back(q);
    f.push_back({"very many", [=](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) compiled(p, x, 0, 0); }});
    f.push_back({"padding", [](Chooser& c, Ctx& x) { Prep p; if (!pick_padding(c, x.thorough, p.s)) return; p.text = print(p.s); if (x.begin(p.text) && prepare(p, x)) compiled(p, x, 0, 0); }});
    f.push_back({"long branches", [](Chooser& c, Ctx& x) { Prep p; vector<uint64_t> v; if (!pick_long_branch(c, x, p.s, v)) return; p.text = print(p.s); if (x.begin(p.text) && prepare(p, x)) { compiled(p, x, 0, 0); x.traces(); x.nontrivial(); } }});
    return mc::main_driver(argc, argv, o, f);
}
