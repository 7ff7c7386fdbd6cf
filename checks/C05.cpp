#include "common.hpp"
static const vector<Ty> INTS = {U8, U16, U32, U64, I8, I16, I32, I64};
static string ival(Ty t, uint64_t v) {
    int b = ty_size(t) * 8; if (b < 64) v &= (1ull << b) - 1;
    if (!is_signed(t)) return fmt("%llu", (unsigned long long)v);
    int64_t x = b == 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b);
    return fmt("%lld", (long long)x);
}
struct Fixed : Gen { uint64_t v = 0; uint64_t raw(const Node&, Ty, int) override { return v; } string text(const Node&) override { return ""; } uint32_t count(const Node&) override { return 1; } };

// One value in both directions against the reference
static bool one(Prep& x, Ctx& ctx, uint64_t v, int size, const vector<uint8_t>& pre = {}, const vector<uint8_t>& post = {}) {
    bool be = x.s.file_endian == 1;
    vector<uint8_t> d = pre;
    for (int i = 0; i < size; i++) d.push_back((uint8_t)(v >> 8 * (be ? size - 1 - i : i)));
    d.insert(d.end(), post.begin(), post.end());
    Run r = ref::decode(x.s, d);
    if (r.unspecified) { ctx.outcome("not judged"); return true; }
    string bad = compare_decode(x, ctx, d, r);
    if (!bad.empty()) { fail2(ctx, bad); return false; }
    ctx.outcome(r.err == 0 ? "decode accepted" : r.err == CND_ERR_VALIDATION ? "decode rejected" : "decode other error");
    Fixed g; g.v = v;
    Run e = ref::encode(x.s, g);
    bad = compare_encode(x, ctx, e);
    if (!bad.empty()) { fail2(ctx, bad); return false; }
    ctx.outcome(e.err == 0 ? "encode accepted" : e.err == CND_ERR_VALIDATION ? "encode rejected" : "encode other error");
    ctx.traces(2); ctx.steps(r.ev.size() + e.ev.size());
    return true;
}
static vector<uint64_t> around(Ty t, vector<uint64_t> base) {
    int b = ty_size(t) * 8; uint64_t m = b == 64 ? ~0ull : (1ull << b) - 1;
    vector<uint64_t> r;
    auto add = [&](uint64_t v) { v &= m; for (auto x : r) if (x == v) return; r.push_back(v); };
    for (uint64_t v : base) { add(v - 1); add(v); add(v + 1); for (int i = 0; i < b; i++) add(v ^ (1ull << i)); }
    for (uint64_t v : {0ull, 1ull, ~0ull, 1ull << 7, 1ull << 8, 1ull << 15, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 63, 0x7FFFFFFFFFFFFFFFull, 0x7FFFFFFFull, 0x7FFFull, 0x7Full}) add(v);
    return r;
}
static void values(Prep& x, Ctx& ctx, Ty t, vector<uint64_t> base) {
    int size = ty_size(t);
    if (size == 1 || (size == 2 && ctx.thorough)) { for (uint64_t v = 0; v < (1ull << size * 8); v++) if (!one(x, ctx, v, size)) return; }
    else for (uint64_t v : around(t, base)) if (!one(x, ctx, v, size)) return;
    ctx.nontrivial();
}
static vector<uint64_t> bounds(Ty t) {
    int b = ty_size(t) * 8; uint64_t m = b == 64 ? ~0ull : (1ull << b) - 1;
    vector<uint64_t> r;
    if (is_signed(t)) r = {(uint64_t)ty_min(t), (uint64_t)(ty_min(t) + 1), (uint64_t)(ty_min(t) / 2 - 3), (uint64_t)-100, (uint64_t)-1, 0, 1, 100, ty_max(t) / 2 + 3, ty_max(t) - 1, ty_max(t)};
    else r = {0, 1, 100, ty_max(t) / 2, ty_max(t) / 2 + 1, ty_max(t) - 100, ty_max(t) - 1, ty_max(t)};
    for (auto& v : r) v &= m;
    return r;
}
static int64_t sx(Ty t, uint64_t v) { int b = 64 - ty_size(t) * 8; return (int64_t)(v << b) >> b; }
static void ranges(Chooser& ch, Ctx& ctx) {
    Ty t = ch.of(INTS); auto B = bounds(t);
    uint64_t lo = ch.of(B), hi = ch.of(B);
    bool bad_order = is_signed(t) ? sx(t, lo) > sx(t, hi) : lo > hi;
    if (bad_order) return; // rejected by the compiler, see C16
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Node n = gen::f(t, "v"); n.has_range = true; n.rlo = ival(t, lo); n.rhi = ival(t, hi);
    n.rl = is_signed(t) ? (uint64_t)sx(t, lo) : lo; n.rh = is_signed(t) ? (uint64_t)sx(t, hi) : hi;
    x.s.body = {n}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    values(x, ctx, t, {lo, hi, (lo + hi) / 2});
}
static void franges(Chooser& ch, Ctx& ctx) {
    static const vector<string> L = {"-3.4e38", "-1000000.5", "-1.5", "-0.1", "-0.0", "0", "0.1", "0.25", "1", "16777217", "100000000000000000000.0"};
    static const vector<string> T = {"-340000000000000000000000000000000000000.0", "-1000000.5", "-1.5", "-0.1", "-0.0", "0", "0.1", "0.25", "1", "16777217", "100000000000000000000.0"};
    Ty t = ch.flag() ? F32 : F64;
    string a = ch.of(T), b = ch.of(T); double lo = atof(a.c_str()), hi = atof(b.c_str());
    if (lo > hi) return;
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Node n = gen::f(t, "v"); n.has_range = true; n.rlo = a; n.rhi = b; n.fl = lo; n.fh = hi;
    x.s.body = {n}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    vector<double> v = {0.0, -0.0, 1, -1, INFINITY, -INFINITY, (double)NAN, 5e-324, -5e-324, 1e-40, 3.4028234663852886e38, -3.4028234663852886e38, 1.7976931348623157e308};
    for (double q : {lo, hi, (lo + hi) / 2}) { v.push_back(q); v.push_back(nextafter(q, INFINITY)); v.push_back(nextafter(q, -INFINITY)); v.push_back((double)nextafterf((float)q, INFINITY)); v.push_back((double)nextafterf((float)q, -INFINITY)); }
    for (double q : v) if (!one(x, ctx, t == F32 ? f_bits((float)q) : d_bits(q), ty_size(t))) return;
    if (t == F32) { for (uint64_t q : {0x7FC00000ull, 0xFFC00001ull, 0x7F800001ull}) if (!one(x, ctx, q, 4)) return; }
    else for (uint64_t q : {0x7FF8000000000000ull, 0xFFF8000000000001ull, 0x7FF0000000000001ull}) if (!one(x, ctx, q, 8)) return;
    ctx.nontrivial();
}
static void enums(Chooser& ch, Ctx& ctx) {
    Ty t = ch.of(INTS);
    int64_t mx = (int64_t)ty_max(t), mn = ty_min(t);
    vector<vector<int64_t>> sets = {{0}, {1}, {mx}, {0, 1, 2, 3}, {5, 4, 1}, {0, mx}, {2, 4, 8, 16, 32, 64, 100}, {mx, mx - 1, mx / 2}};
    if (is_signed(t)) { sets.push_back({mn}); sets.push_back({-1}); sets.push_back({-1, 0, 1}); sets.push_back({mn, mx}); sets.push_back({-3, -2, mn + 1}); }
    vector<int64_t> many; for (int i = 0; i < 60; i++) many.push_back(i * 2); sets.push_back(many);
    auto& m = ch.of(sets);
    int where = (int)ch.pick(6); // alone, with a range, in an array, in a struct, after another field, implicit members
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Node n = gen::en(x.s, "v", t, m);
    vector<uint64_t> base; for (auto v : m) base.push_back((uint64_t)v);
    int size = ty_size(t); vector<uint8_t> pre, post;
    if (where == 1) { if (m.size() < 2) return; int64_t lo = m[0], hi = m[0]; for (auto v : m) { lo = std::min(lo, v); hi = std::max(hi, v); } if (!is_signed(t) && m[0] == -1) return; n.has_range = true; n.rl = (uint64_t)(lo); n.rh = (uint64_t)(hi - 1); if (lo > hi - 1) return; n.rlo = ival(t, n.rl); n.rhi = ival(t, n.rh); }
    if (where == 2) { n = gen::arr(n, A_PRE); pre = {1}; }
    if (where == 3) n = gen::strct(x.s, "s", {n});
    if (where == 4) x.s.body.push_back(gen::f(U8, "b", 3)), pre = {5};
    if (where == 5) { Enum& e = x.s.enums[0]; e.implicit.assign(e.m.size(), false); bool any = false; for (size_t i = 0; i < m.size(); i++) if (i == 0 ? m[0] == 0 : m[i] == m[i - 1] + 1) { e.implicit[i] = true; any = true; } if (!any) return; }
    x.s.body.push_back(n); x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    vector<uint64_t> vs = around(t, base.size() > 10 ? vector<uint64_t>{base[0], base[30], base[59]} : base);
    if (base.size() > 10) for (auto v : base) vs.push_back(v);
    if (size == 1 || (size == 2 && ctx.thorough)) { vs.clear(); for (uint64_t v = 0; v < (1ull << 8 * size); v++) vs.push_back(v); }
    for (uint64_t v : vs) if (!one(x, ctx, v, size, pre)) return;
    ctx.nontrivial();
}
// Enums with more members than small counters hold: every member, every neighbour
static void big_enums(Chooser& ch, Ctx& ctx) {
    static const vector<Ty> TY = {U16, I16, U32, I64, U64, U8, I8}; Ty t = ch.of(TY); int n = ch.of(vector<int>{127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000}), step = ch.flag() ? 2 : 1; bool down = ch.flag(), opt = ch.flag();
    if (ty_size(t) == 1 && n * step > 256) return;
    vector<int64_t> m; int64_t base = is_signed(t) ? -(n * step / 2) : 0; for (int i = 0; i < n; i++) m.push_back(base + (int64_t)(down ? n - 1 - i : i) * step);
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1; Node e = gen::en(x.s, "v", t, m); e.optional = opt; x.s.body = {e}; if (!opt) x.s.body.push_back(gen::f(U8, "after")); x.text = print(x.s);
    if (!ctx.begin(x.text.substr(0, 2000)) || !prepare(x, ctx)) return;
    vector<uint8_t> post; if (!opt) post.push_back(9);
    for (int64_t v = base - 3; v <= base + (int64_t)n * step + 3; v++) if (ctx.thorough || n < 300 || v % 3 == 0 || v < base + 6 || v > base + (int64_t)n * step - 6) if (!one(x, ctx, (uint64_t)v & (ty_size(t) == 8 ? ~0ull : (1ull << 8 * ty_size(t)) - 1), ty_size(t), {}, post)) return;
    ctx.nontrivial();
}
// Enums whose table of members is longer than 64 KiB
static void huge_enums(Chooser& ch, Ctx& ctx) {
    struct K { Ty t; int n; }; static const vector<K> Q = {{U16, 32767}, {U16, 32768}, {U16, 40000}, {I16, 60000}, {U16, 65535}, {U32, 16383}, {U32, 16384}, {U32, 16385}, {I32, 20000}, {U64, 8191}, {U64, 8192}, {U64, 8193}, {I64, 10000}, {U32, 65535}, {U64, 65535}};
    auto& k = ch.of(Q); int n = k.n; if (!ctx.thorough && (n > 40000 || n == 32767 || n == 16383)) return; int step = ty_size(k.t) == 2 ? 1 : 3; bool opt = ch.flag(); int64_t base = is_signed(k.t) ? -(int64_t)(n / 2) * step : 0; vector<int64_t> m; for (int i = 0; i < n; i++) m.push_back(base + (int64_t)i * step);
    Prep x; bool be = ch.flag(); if (!ctx.thorough && n > 10000 && (opt || be != (n % 2 == 0 && n < 33000))) return; x.s.file_endian = be ? 1 : -1; Node e = gen::en(x.s, "v", k.t, m); e.optional = opt; x.s.body = {e}; if (!opt) x.s.body.push_back(gen::f(U8, "after")); x.text = print(x.s);
    if (!ctx.begin(fmt("enum of %d members (%s)\n", n, ty_name(k.t)) + x.text.substr(0, 500)) || !prepare(x, ctx)) return;
    vector<uint8_t> post; if (!opt) post.push_back(9); std::set<int64_t> vs;
    for (int i : {0, 1, 2, n / 2, n - 2, n - 1, 255, 256, 8191, 8192, 16383, 16384, 32767, 32768, n - 8192, n - 8193, n - 16384, n - 16385, n - 32768, n - 32769, 65536 / ty_size(k.t), 65535 / ty_size(k.t)}) for (int d = -1; d <= 1; d++) vs.insert(base + (int64_t)i * step + d);
    for (int64_t v : vs) if (!one(x, ctx, (uint64_t)v & (ty_size(k.t) == 8 ? ~0ull : (1ull << 8 * ty_size(k.t)) - 1), ty_size(k.t), {}, post)) return;
    ctx.nontrivial();
}
// Bounds and constants spelled with many digits
static void long_literals(Chooser& ch, Ctx& ctx) {
    static const vector<int> Z = {1, 8, 11, 12, 18, 19, 20, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 127, 128, 250, 253, 254, 255, 256, 257, 400};
    Ty t = ch.of(vector<Ty>{U8, U32, I64, U64, F32, F64}); size_t z = (size_t)ch.of(Z); int form = (int)ch.pick(4); string zero(z, '0');
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1; Node n = gen::f(t, "v"); vector<uint64_t> base; bool neg = t == I64;
    if (is_float(t)) {
        if (form == 0) { n.rlo = zero + "1.5"; n.rhi = "2.25" + zero; } else if (form == 1) { n.rlo = "-" + zero + "0.75"; n.rhi = "0." + zero + "125"; } else return;
        n.has_range = true; n.fl = strtod(n.rlo.c_str(), nullptr); n.fh = strtod(n.rhi.c_str(), nullptr);
    } else if (form == 0) { n.has_range = true; n.rl = neg ? (uint64_t)-100 : 7; n.rh = 100; n.rlo = (neg ? "-" : "") + zero + (neg ? "100" : "7"); n.rhi = zero + "100"; base = {n.rl, n.rh}; }
    else if (form == 1) { if (neg) return; n.has_range = true; n.rl = 0x1F; n.rh = 0x7F; n.rlo = "0x" + zero + "1F"; n.rhi = "0x" + zero + "7f"; base = {n.rl, n.rh}; }
    else { n.has_const = true; n.cval = neg && form == 2 ? (uint64_t)-77 : 77; n.ctext = form == 3 ? "0x" + zero + "4D" : (neg ? "-" : "") + zero + "77"; base = {n.cval}; }
    x.s.body = {n, gen::f(U8, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    if (is_float(t)) { for (double lim : {n.fl, n.fh}) for (double d : {lim, lim * 0.5, lim * 2, 0.0, -0.0, 1.75, nextafter(lim, 1e30), nextafter(lim, -1e30)}) if (!one(x, ctx, t == F32 ? f_bits((float)d) : d_bits(d), ty_size(t), {}, {0x77})) return; }
    else for (uint64_t v : around(t, base)) if (!one(x, ctx, v, ty_size(t), {}, {0x77})) return;
    ctx.nontrivial();
}
static void consts(Chooser& ch, Ctx& ctx) {
    Ty t = ch.of(INTS); uint64_t c = ch.of(bounds(t)); int form = (int)ch.pick(3); // decimal, hexadecimal, with byte order
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Node n = gen::f(t, "v"); n.has_const = true; n.cval = is_signed(t) ? (uint64_t)sx(t, c) : c; n.ctext = ival(t, c);
    if (form == 1) { if (is_signed(t) && sx(t, c) < 0) return; n.ctext = fmt("0x%llX", (unsigned long long)c); }
    if (form == 2) n.endian = x.s.file_endian == 1 ? 0 : 1;
    x.s.body = {n, gen::f(U8, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    int size = ty_size(t);
    vector<uint64_t> vs = around(t, {c});
    if (size == 1 || (size == 2 && ctx.thorough)) { vs.clear(); for (uint64_t v = 0; v < (1ull << 8 * size); v++) vs.push_back(v); }
    for (uint64_t v : vs) if (!one(x, ctx, v, size, {}, {0x77})) return;
    // byte swapped
    uint64_t sw = 0; for (int i = 0; i < size; i++) sw |= ((c >> 8 * i) & 0xFF) << 8 * (size - 1 - i);
    if (!one(x, ctx, sw, size, {}, {0x77})) return;
    ctx.nontrivial();
}
static void bools(Chooser& ch, Ctx& ctx) {
    int where = (int)ch.pick(6);
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Node n = gen::f(BOOL, "v"); vector<uint8_t> pre;
    if (where == 1) n = gen::arr(n, A_PRE), pre = {1};
    if (where == 2) n = gen::arr(n, A_FIX, 1);
    if (where == 3) n = gen::strct(x.s, "s", {n});
    if (where == 4) x.s.body.push_back(gen::f(U8, "b", 3)), pre = {5};
    if (where == 5) n.optional = true;
    x.s.body.push_back(n); x.s.body.push_back(gen::f(U8, "after")); x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    for (int v = 0; v < 256; v++) { if (!one(x, ctx, (uint64_t)v, 1, pre, {9})) return; }
    ctx.nontrivial();
}
// Records with invalid values anywhere in sequences of atoms
static void invalid(Chooser& ch, Ctx& ctx, int n, int budget) {
    Prep x; if (!pick_sequence(ch, n, 2, x.s)) return;
    int valid = 0; x.text = print(x.s);
    for (const char* k : {"range", "enum", "bool", "const", "E_"}) if (x.text.find(k) != string::npos) valid = 1;
    if (!valid || !ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do {
        rc.rewind();
        DomGen g(rc, x.s, budget, true, 6); g.longtext = 20;
        Run r = ref::encode(x.s, g);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        string bad = compare_encode(x, ctx, r);
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.outcome(r.err == 0 ? "record accepted" : fmt("record rejected with %s", impl::err_name(r.err)));
        ctx.traces(); ctx.steps(r.ev.size());
    } while (rc.next());
}
// Every byte string over a small alphabet as message
static void messages(Chooser& ch, Ctx& ctx, int n, int len) {
    static const uint8_t AL[] = {0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x0A};
    Prep x; if (!pick_sequence(ch, n, 2, x.s)) return;
    x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do {
        rc.rewind();
        vector<uint8_t> d; int l = (int)rc.pick(len + 1);
        for (int i = 0; i < l; i++) d.push_back(AL[rc.pick(ctx.thorough ? 8 : 6)]);
        Run r = ref::decode(x.s, d);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        string bad = compare_decode(x, ctx, d, r);
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.outcome(r.err == 0 ? "message accepted" : fmt("message rejected with %s", impl::err_name(r.err)));
        ctx.traces(); ctx.steps(r.ev.size());
    } while (rc.next());
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C05"; bool th = is_thorough(argc, argv);
    o.rule = "Ranges: every integer type with every ordered pair of boundary values, every value of 8-bit (thorough: 16-bit) types and every boundary, neighbour and single-bit change for wider ones, float and double bounds with neighbours, infinities and NaNs; enums: member sets of every type in six contexts, and of 127 to 1000 members with every member and neighbour, and of 8191 to 40000 (thorough: 65535) members (tables around 64 KiB and more); bounds and constants spelled with up to 400 digits; constants of every type and spelling; booleans with all 256 bytes; records with invalid values in every position of sequences of atoms; all messages over a byte alphabet up to a length. Accepted or rejected in both directions as the reference says";
    o.assumptions = {"values of wider types are boundary values, their neighbours and single-bit changes"};
    vector<mc::Family> f = {
        {"ranges", ranges}, {"float ranges", franges}, {"enums", enums}, {"big enums", big_enums}, {"huge enums", huge_enums}, {"long literals", long_literals}, {"constants", consts}, {"booleans", bools},
        {"invalid records 1", [](Chooser& c, Ctx& x) { invalid(c, x, 1, 4); }},
        {"invalid records 2", [=](Chooser& c, Ctx& x) { invalid(c, x, 2, th ? 4 : 3); }},
        {"messages 1", [=](Chooser& c, Ctx& x) { messages(c, x, 1, th ? 6 : 4); }},
        {"messages 2", [=](Chooser& c, Ctx& x) { messages(c, x, 2, th ? 4 : 3); }},
    };
    return mc::main_driver(argc, argv, o, f);
}
