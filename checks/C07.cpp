#include "common.hpp"
// Values by field name, the rest counts up
struct G : Gen {
    std::map<string, uint64_t> v; uint64_t c = 0;
    uint64_t raw(const Node& n, Ty t, int bits) override {
        uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
        auto i = v.find(n.name); if (i != v.end()) return i->second & m;
        if (t == BOOL) return 1;
        return (0x51 + 13 * c++) & m;
    }
    string text(const Node&) override { return "xy"; }
    uint32_t count(const Node&) override { return 2; }
};
static bool both(Prep& x, Ctx& ctx, Gen& g) {
    Run r = ref::encode(x.s, g);
    if (r.unspecified) { ctx.outcome("not judged"); return true; }
    string bad = compare_encode(x, ctx, r);
    if (bad.empty()) {
        Run d = ref::decode(x.s, r.bytes);
        if (r.err == 0 && !d.unspecified) bad = compare_decode(x, ctx, r.bytes, d);
    }
    if (!bad.empty()) { fail2(ctx, bad); return false; }
    ctx.traces(2); ctx.steps(r.ev.size());
    ctx.outcome(r.err ? fmt("ends with %s", impl::err_name(r.err)) : fmt("branch taken, %zu bytes", r.bytes.size() > 20 ? (size_t)20 : r.bytes.size()));
    return true;
}
static Nodes body(int i, const string& p = "c") {
    static const Ty T[] = {U8, U16, U32, I16, U64, I8, F32, I64};
    Nodes b;
    switch (i % 5) {
        case 0: b = {gen::f(T[i % 8], fmt("%s%d", p.c_str(), i))}; break;
        case 1: b = {gen::f(T[i % 8], fmt("%s%d", p.c_str(), i)), gen::f(U8, fmt("%s%db", p.c_str(), i))}; break;
        case 2: break;
        case 3: b = {gen::str(fmt("%s%d", p.c_str(), i), 2)}; break;
        case 4: b = {gen::arr(gen::f(U16, fmt("%s%d", p.c_str(), i)), A_PRE)}; break;
    }
    return b;
}
static vector<uint64_t> probe(Ty t, const vector<int64_t>& cases, int bits) {
    uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; vector<uint64_t> r;
    auto add = [&](uint64_t v) { v &= m; if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); };
    if (bits <= 8) { for (uint64_t v = 0; v <= m; v++) r.push_back(v); return r; }
    for (int64_t c : cases) { for (int d = -2; d <= 2; d++) add((uint64_t)c + d); for (int b = 7; b < bits; b += b < 16 ? 1 : 8) { add((uint64_t)c ^ (1ull << b)); add((uint64_t)c + (1ull << b)); } add((uint64_t)c + 256); add((uint64_t)c - 256); add(0 - (uint64_t)c); add((uint64_t)c + 65536); add((uint64_t)c + (1ull << 32)); add(~(uint64_t)c); }
    for (uint64_t v : {0ull, 1ull, 127ull, 128ull, 255ull, 256ull, 32767ull, 32768ull, 65535ull, 65536ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull}) add(v);
    (void)t; return r;
}
static const vector<vector<int64_t>>& sets() {
    static vector<vector<int64_t>> s;
    if (s.empty()) {
        s = { {0}, {1}, {7}, {-1}, {INT64_MIN}, {INT64_MAX}, {255}, {256}, {65536}, {4294967296ll},
            {0, 1}, {1, 0}, {5, 200}, {-1, 0}, {-1, 1}, {1, -1, 0}, {3, 2, 1}, {10, 20, 30}, {0, 255, 256}, {127, 128, 129}, {-128, -127, 127},
            {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 2, 4, 8, 16, 32, 64}, {-2, -1, 0, 1, 2}, {-5, -4, -3, -2}, {0, 254, 1, 2}, {0, 255, 1, 2}, {0, 256, 1, 2}, {1, 2, 3, 257}, {1, 2, 3, 256}, {1, 2, 3, 258},
            {100, 101, 102, 103, 104}, {100, 102, 104, 106, 355}, {100, 102, 104, 106, 356}, {65533, 65534, 65535, 65536}, {65532, 65533, 65534, 65535}, {4294967293ll, 4294967294ll, 4294967295ll, 4294967296ll}, {4294967296ll, 4294967297ll, 4294967298ll, 4294967299ll},
            {INT64_MAX, INT64_MAX - 1, INT64_MAX - 2, INT64_MAX - 3}, {INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, INT64_MIN + 3}, {INT64_MIN, INT64_MAX, 0, 1}, {-128, -1, 0, 127}, {0, 1000000, 2000000, 3000000, 4000000}, {-1, 0, 1, 2}, {32766, 32767, -32768, -32767} };
        vector<int64_t> d, e, f; for (int i = 0; i < 40; i++) { d.push_back((i * 7) % 40); e.push_back(i * 6); f.push_back(i * 1000 - 20000); } s.push_back(d); s.push_back(e); s.push_back(f);
    }
    return s;
}
static bool fits(Ty t, int bits, int64_t v) { if (is_signed(t)) { int64_t hi = bits >= 64 ? INT64_MAX : (1ll << (bits - 1)) - 1; return v <= hi && v >= -hi - 1; } return v >= 0 && (bits >= 63 || v < (1ll << bits)); }
// Every set of case values on every type of discriminator that holds them; a default at every place or none
static void switches(Chooser& ch, Ctx& ctx) {
    static const vector<Ty> TY = {U8, U16, U32, U64, I8, I16, I32, I64};
    auto& c = ch.of(sets()); Ty t = ch.of(TY); int kind = (int)ch.pick(6); // plain, bit field, enum, enum labels, transformed, byte order
    int def = (int)ch.pick(3); bool hexa = ch.flag();
    int bits = ty_size(t) * 8;
    if (kind == 1) { bits = bits == 8 ? 7 : bits == 16 ? 13 : bits == 32 ? 29 : 61; }
    for (auto v : c) if (!fits(t, bits, v)) return;
    if (hexa && kind >= 2 && kind <= 3) return;
    Prep x; x.s.file_endian = def == 1 ? 1 : -1;
    Node k = gen::f(t, "k", kind == 1 ? bits : 0);
    if (kind == 2 || kind == 3) { vector<int64_t> m = c; for (int64_t e : {(int64_t)0, (int64_t)1, (int64_t)9, (int64_t)77, c[0] + 1, c.back() - 1}) if (fits(t, bits, e) && std::find(m.begin(), m.end(), e) == m.end()) m.push_back(e); k = gen::en(x.s, "k", t, m); }
    if (kind == 4) { k.tr = T_ADD; k.ti = 3; for (auto v : c) if (v > INT64_MAX - 3 || v < INT64_MIN + 3) return; }
    if (kind == 5) k.endian = x.s.file_endian == 1 ? 0 : 1;
    Node w; w.k = Node::SWITCH; w.ref = "k"; w.braces = !hexa;
    for (size_t i = 0; i < c.size(); i++) {
        if (def == 1 && i == c.size() / 2) { w.def = (int)w.bodies.size(); w.labels.push_back(""); w.lvals.push_back(0); w.bodies.push_back({gen::f(U32, "dflt")}); }
        w.labels.push_back(kind == 3 ? fmt("E_k.k_M%zu", i) : hexa && c[i] >= 0 ? fmt("0x%llX", (unsigned long long)c[i]) : fmt("%lld", (long long)c[i]));
        w.lvals.push_back((uint64_t)c[i]); w.bodies.push_back(body((int)i));
    }
    if (def == 2) { w.def = (int)w.bodies.size(); w.labels.push_back(""); w.lvals.push_back(0); w.bodies.push_back({gen::f(U32, "dflt"), gen::f(U8, "dflt2")}); }
    x.s.body = {k, gen::f(U8, "between"), w, gen::f(U16, "after")};
    x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    for (uint64_t v : probe(t, c, bits)) { G g; g.v["k"] = v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial(); ctx.sample(x.text);
}
// Conditions of if chains: every chain over a set of conditions, every value
static EP cond(int i, const string& k) {
    EP a = e_ref(k);
    switch (i) {
        case 0: return e_bin("==", a, e_int(0)); case 1: return e_bin("==", a, e_int(3)); case 2: return e_bin(">", a, e_int(100)); case 3: return e_bin("<", a, e_int(5)); case 4: return e_bin("!=", a, e_int(255)); case 5: return a; case 6: return e_un("!", a);
        case 7: return e_bin("&", a, e_int(1)); case 8: return e_bin("&&", e_bin(">=", a, e_int(2)), e_bin("<=", a, e_int(4))); case 9: return e_bin("||", e_bin("==", a, e_int(7)), e_bin("==", e_bin("%", a, e_int(16)), e_int(9))); case 10: return e_bool(false); case 11: return e_bool(true); case 12: return e_bin(">", e_bin("*", a, e_flt("0.5", .5)), e_flt("20.25", 20.25)); default: return e_bin("==", e_bin(">>", a, e_int(4)), e_int(15));
    }
}
static void ifs(Chooser& ch, Ctx& ctx, int maxlen) {
    Ty t = ch.of(vector<Ty>{U8, I8, BOOL, U16}); int len = 1 + (int)ch.pick((uint32_t)maxlen); bool els = ch.flag(); bool be = ch.flag();
    Prep x; x.s.file_endian = be; Node w; w.k = Node::IF;
    for (int i = 0; i < len; i++) { w.conds.push_back(cond((int)ch.pick(len > 2 && !ctx.thorough ? 7 : 14), "k")); w.blocks.push_back(body(i)); }
    if (els) w.blocks.push_back({gen::f(U32, "els")});
    if (be && len > 2) return;
    x.s.body = {gen::f(t, "k"), w, gen::f(U8, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    vector<uint64_t> vs; if (t == BOOL) vs = {0, 1}; else if (t == U16) vs = probe(t, {0, 3, 100, 255, 7, 9}, 16); else for (uint64_t v = 0; v < 256; v++) vs.push_back(v);
    for (uint64_t v : vs) { G g; g.v["k"] = v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial();
}
// Numbers of any width and kind as conditions: their truth is that of the whole number
static void wide(Chooser& ch, Ctx& ctx) {
    Ty t = ch.of(vector<Ty>{U16, U32, I32, U64, I64, F32, F64}); int form = (int)ch.pick(14), els = (int)ch.pick(3), bits = 0; if (is_float(t) && form > 5) return;
    if (!is_float(t) && els == 2) { bits = ty_size(t) * 8 - 3; }
    EP a = e_ref("k"), c; auto I = [](uint64_t v) { return e_int(v); };
    switch (form) {
        case 0: c = a; break; case 1: c = e_un("!", a); break; case 2: c = e_un("!", e_un("!", a)); break; case 3: c = e_bin("&&", a, e_bool(true)); break; case 4: c = e_bin("||", a, e_bool(false)); break; case 5: c = e_bin("||", e_bool(false), e_un("!", a)); break;
        case 6: c = e_bin("&", a, I(1ull << 40)); break; case 7: c = e_bin("&", a, I(0xFFFFFFFF00000000ull)); break; case 8: c = e_bin("^", a, I(1ull << 32)); break; case 9: c = e_bin("<<", a, I(1)); break; case 10: c = e_bin(">>", a, I(8)); break; case 11: c = e_bin("*", a, I(256)); break; case 12: c = e_un("~", a); break; case 13: c = e_bin("&&", e_bin("|", a, I(0)), e_un("!", e_bin("==", a, I(1ull << 33)))); break;
    }
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1; Node w, w2; w.k = Node::IF; w.conds = {c}; w.blocks = {{gen::f(U8, "yes")}};
    if (els == 1) { w.conds.push_back(e_bin("==", a, I(0))); w.blocks.push_back({gen::f(U16, "zero")}); }
    if (els) w.blocks.push_back({gen::f(U32, "els")});
    x.s.body = {gen::f(t, "k", bits), w, gen::f(U8, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    vector<uint64_t> vs; auto num = [&](double d) { vs.push_back(t == F32 ? f_bits((float)d) : d_bits(d)); };
    if (is_float(t)) for (double d : {0.0, 1.0, -1.0, 0.5, -0.25, 1e-30, 256.0, 65536.0, 4294967296.0, 18446744073709551616.0, 1e30, 5e-324, (double)1e-45f, (double)INFINITY}) num(d);
    else { int n = bits ? bits : ty_size(t) * 8; for (int i = 0; i < n; i++) for (int j = i; j <= n; j++) vs.push_back((1ull << i) | (j < n ? 1ull << j : 0)); vs.push_back(0); vs.push_back(~0ull); for (int i = 1; i < n; i++) { vs.push_back((1ull << i) - 1); vs.push_back(~0ull << i); } }
    for (uint64_t v : vs) { G g; g.v["k"] = v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial();
}
// Constructs in each other, to a depth; every combination of discriminators
static int g_id;
static Nodes construct(Chooser& ch, Schema& s, int depth, vector<string>& ks) {
    int id = g_id++;
    string k = fmt("k%d", id);
    if (depth == 0) { switch (ch.pick(3)) { case 0: return {gen::f(U16, fmt("l%d", id))}; case 1: return {gen::str(fmt("l%d", id), 2)}; default: return {}; } }
    Node d = gen::f(U8, k); Node w; Nodes pre = {d};
    int kind = (int)ch.pick(6);
    Nodes in = construct(ch, s, depth - 1, ks);
    Nodes other = {gen::f(U32, fmt("o%d", id))};
    if (kind < 4) ks.push_back(k);
    switch (kind) {
        case 0: w.k = Node::IF; w.conds = {e_bin("==", e_ref(k), e_int(1))}; w.blocks = {in}; pre.push_back(w); break;
        case 1: w.k = Node::IF; w.conds = {e_bin("==", e_ref(k), e_int(1)), e_bin("==", e_ref(k), e_int(2))}; w.blocks = {other, in, {gen::f(U8, fmt("e%d", id))}}; pre.push_back(w); break;
        case 2: w.k = Node::SWITCH; w.ref = k; w.labels = {"1", "2"}; w.lvals = {1, 2}; w.bodies = {in, other}; pre.push_back(w); break;
        case 3: w.k = Node::SWITCH; w.ref = k; w.labels = {"0", "1", "2", "4", ""}; w.lvals = {0, 1, 2, 4, 0}; w.bodies = {other, in, {}, {gen::f(U16, fmt("p%d", id))}, {gen::f(U8, fmt("q%d", id))}}; w.def = 4; pre.push_back(w); break;
        case 4: { if (in.empty()) return {gen::f(U8, fmt("x%d", id))}; Node st = gen::strct(s, fmt("t%d", id), in); return {st, gen::f(U8, fmt("y%d", id))}; }
        case 5: { in.push_back(gen::f(U8, fmt("z%d", id))); Node st = gen::arr(gen::strct(s, fmt("t%d", id), in), A_FIX, 2); return {st}; }
    }
    pre.push_back(gen::f(U8, fmt("s%d", id)));
    return pre;
}
struct NG : Gen { Chooser& c; uint64_t n = 0; NG(Chooser& q) : c(q) {} uint64_t raw(const Node& nd, Ty, int bits) override { if (nd.name[0] == 'k') { static const uint64_t V[] = {1, 2, 0, 3, 4}; return V[c.pick(5)]; } return (0x31 + 7 * n++) & (bits >= 64 ? ~0ull : (1ull << bits) - 1); } string text(const Node&) override { return "q"; } uint32_t count(const Node&) override { return 1; } };
static void nested(Chooser& ch, Ctx& ctx, int depth) {
    Prep x; vector<string> ks; g_id = 0;
    x.s.body = construct(ch, x.s, depth, ks); x.s.body.push_back(gen::f(U16, "after")); x.text = print(x.s);
    if (ks.empty()) return;
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do { rc.rewind(); NG g(rc); if (!both(x, ctx, g)) return; } while (rc.next());
    ctx.nontrivial();
}
// Two constructs one after the other, over the same and over different discriminators, and any atom in a branch
static void in_branch(Chooser& ch, Ctx& ctx) {
    const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())]; if (a.flags & gen::LAST) return;
    int kind = (int)ch.pick(4); Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Nodes b; a.add(x.s, b, "v"); Node w, w2;
    Node k = gen::f(U8, "k"); k.has_range = true; k.rlo = "0"; k.rhi = "2"; k.rl = 0; k.rh = 2;
    if (kind == 0) { w.k = Node::IF; w.conds = {e_bin("==", e_ref("k"), e_int(1))}; w.blocks = {b, {gen::f(U16, "o")}}; }
    if (kind == 1) { w.k = Node::SWITCH; w.ref = "k"; w.labels = {"1", ""}; w.lvals = {1, 0}; w.bodies = {b, {gen::f(U16, "o")}}; w.def = 1; }
    if (kind == 2) { w.k = Node::SWITCH; w.ref = "k"; w.labels = {"0", "1", "2", "3"}; w.lvals = {0, 1, 2, 3}; w.bodies = {{gen::f(U8, "p")}, b, {gen::f(U16, "o")}, {}}; }
    if (kind == 3) { w.k = Node::IF; w.conds = {e_bin("==", e_ref("k"), e_int(2))}; w.blocks = {{gen::f(U16, "o")}, b}; }
    w2.k = Node::IF; w2.conds = {e_bin(">", e_ref("k"), e_int(0))}; w2.blocks = {{gen::f(U32, "n")}};
    x.s.body = {k, w, w2, gen::f(U8, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do { rc.rewind(); DomGen g(rc, x.s, ctx.thorough ? 5 : 4, false, 3); g.longtext = 12; if (!both(x, ctx, g)) return; } while (rc.next());
    ctx.nontrivial();
}
// Very many cases, dense and sparse, in every order; every case value with its neighbours
static void many_cases(Chooser& ch, Ctx& ctx) {
    static const vector<int> Q = {5, 9, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 513}, T = {3, 4, 6, 7, 8, 16, 32, 63, 66, 130, 200, 254, 258, 511, 767, 768, 769, 1000, 1024, 1025, 2000, 4000};
    vector<int> N = Q; if (ctx.thorough) N.insert(N.end(), T.begin(), T.end());
    int n = ch.of(N), step = ch.of(vector<int>{1, 2, 3, 7}), order = (int)ch.pick(3), def = (int)ch.pick(3); Ty t = ch.of(vector<Ty>{U16, I16, U32, U64});
    if (!ctx.thorough && t != U16 && (step == 2 || order == 2)) return;
    int64_t lo = t == I16 ? -(int64_t)n * step / 2 : t == U64 ? (int64_t)0xFFFFFF00 : 0;
    Prep x; x.s.file_endian = order == 1 ? 1 : -1; Node w; w.k = Node::SWITCH; w.ref = "k"; vector<int64_t> c;
    for (int i = 0; i < n; i++) { int j = order == 0 ? i : order == 1 ? n - 1 - i : (int)((uint64_t)i * 7919 % n); c.push_back(lo + (int64_t)j * step); }
    if (order == 2) { auto q = c; std::sort(q.begin(), q.end()); if (std::unique(q.begin(), q.end()) != q.end()) return; }
    for (int i = 0; i < n; i++) {
        if (def && i == (def == 1 ? 0 : n / 2)) { w.def = (int)w.bodies.size(); w.labels.push_back(""); w.lvals.push_back(0); w.bodies.push_back({gen::f(U32, "dflt")}); }
        w.labels.push_back(fmt("%lld", (long long)c[i])); w.lvals.push_back((uint64_t)c[i]); w.bodies.push_back({gen::f(i % 3 ? U8 : U16, fmt("c%d", i))});
    }
    x.s.body = {gen::f(t, "k"), w, gen::f(U16, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    int bits = ty_size(t) * 8; uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; std::set<uint64_t> vs;
    for (int64_t v : c) for (int d = -1; d <= 1; d++) vs.insert((uint64_t)(v + d) & m);
    for (uint64_t v : {lo - 2, lo + (int64_t)n * step + 1, lo + 65536, lo - 65536, (int64_t)0, (int64_t)-1}) vs.insert(v & m);
    for (uint64_t v : vs) { G g; g.v["k"] = v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial();
}
// Chains of very many conditions
static void many_conditions(Chooser& ch, Ctx& ctx) {
    int n = 1 + (int)ch.pick(ctx.thorough ? 250 : 66), els = (int)ch.pick(2), flat = (int)ch.pick(2);
    Prep x; Nodes b = {gen::f(U8, "k")};
    auto c = [&](int i) { return e_bin("==", e_ref("k"), e_int((uint64_t)i)); };
    if (flat) for (int i = 0; i < n; i++) { Node w; w.k = Node::IF; w.conds = {c(i)}; w.blocks = {{gen::f(i % 2 ? U8 : U16, fmt("c%d", i))}}; if (els) w.blocks.push_back({}); b.push_back(w); }
    else { Node w; w.k = Node::IF; for (int i = 0; i < n; i++) { w.conds.push_back(c(i)); w.blocks.push_back({gen::f(i % 2 ? U8 : U16, fmt("c%d", i))}); } if (els) w.blocks.push_back({gen::f(U32, "els")}); b.push_back(w); }
    b.push_back(gen::f(U16, "after")); x.s.body = b; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    for (int v = 0; v < 256; v++) { G g; g.v["k"] = (uint64_t)v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial();
}
// Labels by enum member where the names of members and enums contain each other, in every order of declaration
static void labels(Chooser& ch, Ctx& ctx) {
    static const vector<vector<string>> M = { {"A", "AA", "AAA", "AAAA"}, {"READY", "READY_LATER", "READ", "RE"}, {"a", "A", "a_", "A_"}, {"x1", "x10", "x100", "x"}, {"case1", "default1", "if1", "enum1"}, {"k", "E", "P", "v"}, {"_", "__", "_1", "_a"} };
    static const vector<vector<string>> E = { {"E", "EE"}, {"EE", "E"}, {"E", "e"}, {"Color", "ColorX"}, {"ColorX", "Color"} };
    auto names = ch.of(M); auto& en = ch.of(E); int perm = (int)ch.pick(24), which = (int)ch.pick(2); bool many = ch.flag();
    vector<int> o = {0, 1, 2, 3}; for (int i = 0; i < perm; i++) std::next_permutation(o.begin(), o.end());
    Prep x; for (int e = 0; e < 2; e++) { Enum d; d.name = en[(size_t)e]; d.under = U8; for (int i = 0; i < 4; i++) d.m.push_back({names[(size_t)o[(size_t)i]], (uint64_t)(e * 10 + (e == 1 ? 3 - i : i))}); x.s.enums.push_back(d); }
    Node k; k.ty = ENUM; k.tname = en[(size_t)which]; k.name = "key"; Node w; w.k = Node::SWITCH; w.ref = "key";
    for (int i = 0; i < (many ? 4 : 2); i++) for (auto& d : x.s.enums) if (d.name == k.tname) { auto& mm = d.m[(size_t)(i + which) % 4]; w.labels.push_back(d.name + "." + mm.first); w.lvals.push_back(mm.second); w.bodies.push_back(body(i)); }
    w.def = (int)w.bodies.size(); w.labels.push_back(""); w.lvals.push_back(0); w.bodies.push_back({gen::f(U32, "dflt")});
    x.s.body = {k, w, gen::f(U16, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    for (uint64_t v = 0; v < 256; v++) { G g; g.v["key"] = v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial();
}
// Branches whose code is long
static void long_branches(Chooser& ch, Ctx& ctx) {
    Prep x; vector<uint64_t> vals; if (!pick_long_branch(ch, ctx, x.s, vals)) return; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    for (uint64_t v : vals) { G g; g.v["k"] = v; if (!both(x, ctx, g)) return; }
    ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C07"; bool th = is_thorough(argc, argv);
    o.rule = "49 sets of case values (few, many, dense, sparse, negative, large, around the limits of the jump table) on every discriminator type, plain, as bit field, enum, transformed and with byte order, with the default at the end, in the middle or absent, for every 8-bit discriminator value and for wider ones every case value with neighbours, aliases modulo 2^8, 2^16, 2^32 and bit changes; all if chains up to length 3 (thorough: 4) over 14 conditions for all 256 values; numbers of every width and kind as conditions in 14 forms, with one and two bits set at every place; constructs nested to depth 2 (thorough: 3) with all discriminator combinations; every atom in a branch; switches of up to 513 (thorough: 4000) cases in three orders and four spacings; chains and sequences of up to 66 (thorough: 250) conditions; enum labels whose names contain each other, in every order of declaration; 13 constructs with one branch of exactly n bytes of code, for every n from 9 below (thorough: 29 below to 4 above) to 2^7, 2^8, 2^15, 2^16 (thorough: 2^17, 200000). Both directions against the reference";
    vector<mc::Family> f = { {"switch values", switches}, {"if chains", [=](Chooser& c, Ctx& x) { ifs(c, x, th ? 4 : 3); }}, {"wide conditions", wide}, {"nested 1", [](Chooser& c, Ctx& x) { nested(c, x, 1); }}, {"nested 2", [](Chooser& c, Ctx& x) { nested(c, x, 2); }}, {"in a branch", in_branch}, {"very many cases", many_cases}, {"very many conditions", many_conditions}, {"labels", labels}, {"long branches", long_branches} };
    f.push_back({"nested 3", [](Chooser& c, Ctx& x) { nested(c, x, 3); }});
    if (th) f.push_back({"nested 4", [](Chooser& c, Ctx& x) { nested(c, x, 4); }});
    return mc::main_driver(argc, argv, o, f);
}
