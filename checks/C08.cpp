#include "common.hpp"
static const vector<string> OPS = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"};
static bool int_only(const string& o) { return o == "%" || o == "<<" || o == ">>" || o == "&" || o == "|" || o == "^"; }
static bool is_flt(const EP& e) { // the language's static typing
    switch (e->k) {
        case Expr::FLT: return true;
        case Expr::REF: return e->s == "d" || e->s == "f";
        case Expr::UN: return e->s == "-" && is_flt(e->a[0]);
        case Expr::FN: return e->s != "int";
        case Expr::BIN: return (e->s == "+" || e->s == "-" || e->s == "*" || e->s == "/") && (is_flt(e->a[0]) || is_flt(e->a[1]));
        default: return false;
    }
}
static bool well_typed(const EP& e) {
    for (auto& x : e->a) if (!well_typed(x)) return false;
    if (e->k == Expr::BIN && int_only(e->s) && (is_flt(e->a[0]) || is_flt(e->a[1]))) return false;
    if (e->k == Expr::UN && e->s == "~" && is_flt(e->a[0])) return false;
    return true;
}
static bool uses(const EP& e, const string& n) { if (e->k == Expr::REF && e->s == n) return true; for (auto& x : e->a) if (uses(x, n)) return true; return false; }

struct G : Gen {
    Chooser& c; bool many; G(Chooser& q, bool m) : c(q), many(m) {}
    uint64_t raw(const Node& n, Ty t, int bits) override {
        static const vector<uint64_t> A = {7, 0, 255}, B = {(uint64_t)-5, 0, 0x80000000, 100000}, Q = {0x8000000000000001ull, 3, ~0ull};
        static const vector<double> D = {2.5, 0.0, -1.0, 1e30};
        uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; uint32_t k = many ? 9 : 2;
        auto pick = [&](size_t z) { return c.pick((uint32_t)std::min<size_t>(z, k)); };
        if (n.name == "a") return A[pick(3)] & m;
        if (n.name == "b") return B[pick(4)] & m;
        if (n.name == "q") return Q[pick(3)] & m;
        if (n.name == "d") return d_bits(D[pick(4)]);
        if (n.name == "f") return f_bits((float)D[pick(4)]);
        return (t == BOOL ? 1 : 0x11) & m;
    }
    string text(const Node&) override { return ""; } uint32_t count(const Node&) override { return 0; }
};
static void add_refs(Prep& x, const EP& e) {
    if (uses(e, "a")) x.s.body.push_back(gen::f(U8, "a"));
    if (uses(e, "b")) x.s.body.push_back(gen::f(I32, "b"));
    if (uses(e, "q")) x.s.body.push_back(gen::f(U64, "q"));
    if (uses(e, "d")) x.s.body.push_back(gen::f(F64, "d"));
    if (uses(e, "f")) x.s.body.push_back(gen::f(F32, "f"));
}
static bool both(Prep& x, Ctx& ctx, Gen& g) {
    Run r = ref::encode(x.s, g);
    if (r.unspecified) { ctx.outcome("not judged"); return true; }
    string bad = compare_encode(x, ctx, r);
    if (bad.empty() && r.err == 0) { Run d = ref::decode(x.s, r.bytes); if (!d.unspecified) bad = compare_decode(x, ctx, r.bytes, d); }
    if (!bad.empty()) { fail2(ctx, bad); return false; }
    ctx.traces(2); ctx.steps(r.ev.size());
    ctx.outcome(r.err ? fmt("ends with %s", impl::err_name(r.err)) : "value agrees");
    return true;
}
static string squeeze(const string& t) { // without spaces where that cannot join operators
    string o; for (size_t i = 0; i < t.size(); i++) { if (t[i] == ' ') { char p = i ? t[i - 1] : 0, n = i + 1 < t.size() ? t[i + 1] : 0; if (!strchr("+-*/%<>=!&|^~", n) || !strchr("+-*/%<>=!&|^~", p)) continue; } o += t[i]; }
    return o;
}
// The expression as a computed field (integer or double) or as a condition
static void check(Ctx& ctx, const EP& e, int use, int style, bool many) {
    if (!well_typed(e)) return;
    Prep x; add_refs(x, e);
    if (use == 2) { Node n; n.k = Node::IF; n.conds = {e}; n.blocks = {{gen::f(U16, "t")}, {gen::f(U8, "e")}}; x.s.body.push_back(n); }
    else { Node n = gen::f(use == 1 ? F64 : is_flt(e) ? F64 : U64, "x"); n.expr = e; x.s.body.push_back(n); }
    x.s.body.push_back(gen::f(U8, "z"));
    x.text = print(x.s);
    if (style) { // other spellings of the same expression
        string full = print_expr(e), alt = style == 1 ? print_expr(e, false) : squeeze(full);
        if (alt == full) return;
        size_t at = x.text.find("(" + full + ")"); if (at == string::npos) abort();
        x.text.replace(at + 1, full.size(), alt);
    }
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do { rc.rewind(); G g(rc, many); if (!both(x, ctx, g)) return; } while (rc.next());
    ctx.nontrivial();
}
static vector<EP> leaves(int level) {
    vector<EP> l = {e_int(3), e_ref("a"), e_ref("b"), e_ref("d"), e_flt("0.5", 0.5), e_int(10)};
    if (level > 0) for (EP e : {e_int(0), e_int(1), e_ref("q"), e_ref("f"), e_flt("2.0", 2.0), e_un("-", e_int(7)), e_bool(true), e_lit("0xFF", 255), e_int(9223372036854775807ull), e_int(18446744073709551615ull), e_int(64), e_int(63), e_int(4294967296ull), e_un("-", e_flt("1.5", 1.5)), e_bool(false)}) l.push_back(e);
    return l;
}
static void leaf(Chooser& ch, Ctx& ctx) { EP e = ch.of(leaves(1)); int u = (int)ch.pick(3), s = (int)ch.pick(3); check(ctx, e, u, s, true); }
static void binary(Chooser& ch, Ctx& ctx) { auto l = leaves(1); EP a = ch.of(l), b = ch.of(l); EP e = e_bin(ch.of(OPS), a, b); int u = (int)ch.pick(3), s = (int)ch.pick(2) * 2; check(ctx, e, u, s, true); }
static void two(Chooser& ch, Ctx& ctx) {
    auto l = leaves(0); int shape = (int)ch.pick(2); string o1 = ch.of(OPS), o2 = ch.of(OPS);
    auto& L = l; uint32_t n = ctx.thorough ? (uint32_t)L.size() : 4;
    EP a = L[ch.pick(n)], b = L[ch.pick(n)], c = L[ch.pick(n)];
    EP e = shape ? e_bin(o1, a, e_bin(o2, b, c)) : e_bin(o2, e_bin(o1, a, b), c);
    int u = (int)ch.pick(2) * 2, s = (int)ch.pick(3); if (u == 2 && s) return;
    check(ctx, e, u, s, ctx.thorough);
}
static EP tree(Chooser& ch, int ops, int& leafno) {
    if (ops == 0) { static const EP L[] = {e_ref("a"), e_int(3), e_int(5), e_int(2), e_ref("q")}; return L[leafno++ % 5]; }
    int left = (int)ch.pick((uint32_t)ops); string o = ch.of(OPS);
    EP a = tree(ch, left, leafno); EP b = tree(ch, ops - 1 - left, leafno);
    return e_bin(o, a, b);
}
static void trees(Chooser& ch, Ctx& ctx, int ops) { int n = 0; EP e = tree(ch, ops, n); int s = ops < 4 ? (int)ch.pick(2) * 2 : 0; check(ctx, e, 0, s, false); }
static void unary(Chooser& ch, Ctx& ctx) {
    static const vector<string> F = {"int", "float", "sin", "cos", "tan", "sqrt", "log", "abs"};
    auto wrapu = [&](EP e) { int k = (int)ch.pick(13); if (k == 0) return e; if (k <= 3) return e_un(k == 1 ? "-" : k == 2 ? "!" : "~", e); if (k <= 11) return e_fn(F[k - 4], {e}); return e_fn("pow", {e, e_int(2)}); };
    auto l = leaves(ctx.thorough ? 1 : 0); EP e = ch.of(l);
    if (ctx.thorough || ch.flag()) { e = wrapu(e); e = wrapu(e); }
    else { e = wrapu(e); l = {e_ref("a"), e_flt("0.5", 0.5)}; }
    int k = ctx.thorough || l.size() == 2 ? (int)ch.pick(4) : 0;
    if (k) { string o = ch.of(OPS); EP r = ch.of(l); e = k == 1 ? e_bin(o, e, r) : k == 2 ? e_bin(o, r, e) : wrapu(e_bin(o, e, r)); }
    check(ctx, e, (int)ch.pick(2) * 2, 0, true);
}
static void power(Chooser& ch, Ctx& ctx) { auto l = leaves(1); EP a = ch.of(l), b = ch.of(l); check(ctx, e_fn("pow", {a, b}), 0, (int)ch.pick(2) * 2, true); }
// Types of computed fields, and what is there instead when decoding
static void targets(Chooser& ch, Ctx& ctx) {
    static const vector<Ty> TY = {U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, BOOL};
    static const vector<EP> E = {e_ref("a"), e_bin("*", e_ref("a"), e_int(1000)), e_bin("-", e_ref("a"), e_int(100)), e_bin("==", e_ref("a"), e_int(7)), e_bin("*", e_ref("q"), e_ref("q")), e_bin("*", e_ref("a"), e_flt("0.5", 0.5)), e_ref("d"), e_bin("/", e_int(1000), e_ref("a")), e_ref("b"), e_un("-", e_ref("f")), e_fn("int", {e_ref("d")}), e_un("!", e_ref("a"))};
    Ty t = ch.of(TY); EP e = ch.of(E); int place = (int)ch.pick(5);
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1; Node n = gen::f(t, "x"); n.expr = e;
    if (place == 1) n.endian = x.s.file_endian == 1 ? 0 : 1;
    Prep y; y.s.body.clear(); add_refs(x, e);
    if (place == 2) x.s.body.push_back(gen::f(U8, "bits", 3));
    x.s.body.push_back(n);
    if (place == 3) { Nodes in = x.s.body; x.s.body = {gen::strct(x.s, "s", in)}; }
    if (place == 4) { Nodes in = x.s.body; in.push_back(gen::f(U8, "w")); x.s.body = {gen::arr(gen::strct(x.s, "s", in), A_FIX, 2)}; }
    else if (place != 3) { Node u = gen::f(U64, "y"); if (!is_float(t)) { u.expr = e_bin("+", e_ref("x"), e_int(1)); x.s.body.push_back(u); } }
    x.s.body.push_back(gen::f(U8, "z")); x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do {
        rc.rewind(); G g(rc, place != 4);
        Run r = ref::encode(x.s, g); if (r.unspecified) { ctx.outcome("not judged"); continue; }
        string bad = compare_encode(x, ctx, r);
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.outcome(r.err ? fmt("ends with %s", impl::err_name(r.err)) : "value agrees");
        if (r.err) continue;
        for (size_t i = 0; i <= r.bytes.size(); i++) for (int v : {1, 0x80, 0xFF}) {
            vector<uint8_t> d = r.bytes; if (i < d.size()) d[i] ^= (uint8_t)v; else if (v != 1) break;
            Run w = ref::decode(x.s, d); if (w.unspecified) { ctx.outcome("not judged"); continue; }
            bad = compare_decode(x, ctx, d, w); if (!bad.empty()) { fail2(ctx, bad); return; }
            ctx.outcome(w.err == 0 ? "decode accepted" : fmt("decode rejected with %s", impl::err_name(w.err))); ctx.traces();
        }
        ctx.steps(r.ev.size());
    } while (rc.next());
    ctx.nontrivial();
}
// Literals of every length: digits in front of the point and behind it, zeros that add nothing
static void literals(Chooser& ch, Ctx& ctx) {
    static const vector<int> Q = {1, 2, 7, 8, 9, 10, 15, 16, 17, 19, 20, 21, 30, 31, 32, 33, 38, 39, 40, 47, 48, 49, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 4096};
    int kind = (int)ch.pick(10); size_t n = ctx.thorough ? 1 + ch.pick(1100) : (size_t)ch.of(Q); int use = (int)ch.pick(3); string t;
    EP l; auto digits = [&](size_t k) { string d; for (size_t q = 0; q < k; q++) d += (char)('1' + (q * 7 + 2) % 9); return d; };
    switch (kind) {
        case 0: t = string(n - 1, '0') + "7"; break;
        case 1: t = string(n, '0') + "18446744073709551615"; break;
        case 2: t = "0x" + string(n, '0') + "FF"; break;
        case 3: t = "0X" + string(n, '0') + "fedcBA9876543210"; break;
        case 4: t = string(n, '0') + ".5"; break;
        case 5: t = "2.5" + string(n, '0'); break;
        case 6: t = "0." + string(n, '0') + "25"; break;
        case 7: t = digits(n) + ".75"; if (n > 300) return; break;
        case 8: t = "3." + digits(n); break;
        case 9: t = digits(std::min<size_t>(n, 200)) + "." + digits(n); break;
    }
    if (kind < 4) l = e_lit(t, strtoull(t.c_str(), nullptr, kind < 2 ? 10 : 16)); else l = e_flt(t, strtod(t.c_str(), nullptr));
    EP e = use == 0 ? l : use == 1 ? e_bin("+", e_ref("a"), l) : e_bin("<", l, e_bin("*", e_ref("a"), e_int(2)));
    check(ctx, e, use == 2 ? 2 : 0, 0, true);
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C08"; bool th = is_thorough(argc, argv);
    o.rule = "All expression trees: every operator on every pair of 21 operands, every pair of operators in both shapes over 4 (thorough: 6) operands, every tree of 3 (thorough: 4) operators in every shape, all unary operators and functions two deep and combined with every operator, pow on all operand pairs; printed with minimal parentheses, fully parenthesised and without spaces; as computed integer or double field or condition; over value sets of the referenced fields; integer, hexadecimal and floating literals of lengths up to 4096 (thorough: every length to 1100) in ten forms; all types of computed fields in five places with every byte corrupted on decode. Compared with a reference evaluator of the tree";
    o.assumptions = {"whether the right side of && and || is evaluated when the left decides, and the truth value of -0.0, are not judged", "doubles are compared with a relative tolerance of 1e-9"};
    vector<mc::Family> f = { {"leaf", leaf}, {"binary", binary}, {"two operators", two}, {"trees of 2", [](Chooser& c, Ctx& x) { trees(c, x, 2); }}, {"trees of 3", [](Chooser& c, Ctx& x) { trees(c, x, 3); }}, {"unary and functions", unary}, {"pow", power}, {"targets", targets}, {"literals", literals} };
    if (th) f.push_back({"trees of 4", [](Chooser& c, Ctx& x) { trees(c, x, 4); }});
    return mc::main_driver(argc, argv, o, f);
}
