#include "common.hpp"
struct T { Tr tr; vector<string> t; int64_t i; };
static const vector<T>& trans() {
    static const vector<T> v = {
        {T_SCALE, {"1", "0"}, 0}, {T_SCALE, {"0.1", "0"}, 0}, {T_SCALE, {"0.5", "0"}, 0}, {T_SCALE, {"-2.5", "0"}, 0}, {T_SCALE, {"3", "0"}, 0}, {T_SCALE, {"0.001", "0"}, 0}, {T_SCALE, {"1000000.0", "0"}, 0}, {T_SCALE, {"0.0", "0"}, 0},
        {T_OFFSET, {"1", "-40"}, 0}, {T_OFFSET, {"1", "0.25"}, 0}, {T_OFFSET, {"1", "100000.125"}, 0},
        {T_SCALEOFF, {"0.5", "-40"}, 0}, {T_SCALEOFF, {"-0.1", "3.3"}, 0}, {T_SCALEOFF, {"0.01", "1000"}, 0},
        {T_ADD, {}, 0}, {T_ADD, {}, 10}, {T_ADD, {}, -10}, {T_ADD, {}, 255}, {T_ADD, {}, 4294967296ll}, {T_ADD, {}, INT64_MAX},
        {T_SUB, {}, 1}, {T_SUB, {}, -7}, {T_SUB, {}, 200}, {T_SUB, {}, INT64_MAX},
        {T_MUL, {}, 1}, {T_MUL, {}, 2}, {T_MUL, {}, -3}, {T_MUL, {}, 100}, {T_MUL, {}, 4294967296ll}, {T_MUL, {}, 0},
        {T_DIV, {}, 1}, {T_DIV, {}, 2}, {T_DIV, {}, -5}, {T_DIV, {}, 300},
        {T_POLY, {"5"}, 0}, {T_POLY, {"1", "2"}, 0}, {T_POLY, {"-3.5", "0.25"}, 0}, {T_POLY, {"0", "1", "0.5"}, 0}, {T_POLY, {"10", "-1.5"}, 0}, {T_POLY, {"0", "1", "0", "0.001"}, 0}, {T_POLY, {"1", "3", "0", "0.001", "0.00002"}, 0}, {T_POLY, {"-2", "1.5", "0.01", "0.002", "0.00001", "0.0000003"}, 0}, {T_POLY, {"7", "1", "0", "0", "0", "0", "0", "0.0000000001", "0.000000000001"}, 0},
        {T_SPLINE, {"0", "0", "255", "1000"}, 0}, {T_SPLINE, {"0", "0", "10", "100", "255", "110"}, 0}, {T_SPLINE, {"-128", "50", "0", "0", "127", "-80"}, 0}, {T_SPLINE, {"0", "10", "100", "20", "200", "25", "255", "26"}, 0}, {T_SPLINE, {"-130", "5", "-100", "6", "-7", "9", "0", "10", "1", "12", "30", "90", "31", "91", "120", "400", "128", "410", "180", "500", "255", "900"}, 0},
    };
    return v;
}
static Node mk(const T& t, Ty ty, const string& name) { Node n = gen::f(ty, name); n.tr = t.tr; n.ti = t.i; n.tft = t.t; for (auto& s : t.t) n.tf.push_back(atof(s.c_str())); return n; }
static string le(uint64_t v, int s) { string r; for (int i = 0; i < s; i++) r += (char)(v >> 8 * i); return r; }
static int64_t sx(Ty t, uint64_t v) { int b = 64 - ty_size(t) * 8; return (int64_t)(v << b) >> b; }

static bool is_f(const Node& n) { return n.tr == T_SCALE || n.tr == T_OFFSET || n.tr == T_SCALEOFF || n.tr == T_POLY || n.tr == T_SPLINE; }

// raw -> engineering value, and back when the formula can be inverted there
static bool raw_value(Prep& x, Ctx& ctx, const Node& n, uint64_t raw, const vector<double>* all) {
    int sz = ty_size(n.ty); uint64_t m = sz == 8 ? ~0ull : (1ull << sz * 8) - 1; raw &= m;
    bool be = x.s.file_endian == 1;
    vector<uint8_t> d; for (int i = 0; i < sz; i++) d.push_back((uint8_t)(raw >> 8 * (be ? sz - 1 - i : i)));
    d.push_back(0x5A);
    Run r = ref::decode(x.s, d);
    if (is_float(n.ty) && (n.tr == T_POLY || n.tr == T_SPLINE)) { double v = n.ty == F32 ? as_float((uint32_t)raw) : as_double(raw); if (!std::isfinite(v)) r.unspecified = true; }
    if (r.unspecified) { ctx.outcome("not judged"); return true; }
    vector<Ev> got; impl::RunOpts o; o.rec = &got;
    impl::Result i = impl::decode(x.p, r, d, o); ctx.evals();
    string bad = i.complaint;
    if (bad.empty() && (i.err != 0) != (r.err != 0)) bad = fmt("decode of a transformed field: %s, expected %s", impl::err_name(i.err), impl::err_name(r.err));
    if (!bad.empty()) { fail2(ctx, bad + fmt("\nraw 0x%llX\n", (unsigned long long)raw) + gen::run_str(r)); return false; }
    ctx.traces(); ctx.steps();
    if (r.err) { ctx.outcome("no engineering value"); return true; }
    ctx.outcome("decoded to the engineering value");
    // Invertible?
    bool inv = true;
    if (n.tr == T_SCALE || n.tr == T_SCALEOFF) inv = n.tf[0] != 0;
    if (n.tr == T_MUL) inv = n.ti != 0;
    if (n.tr == T_DIV) inv = n.ti == 0 || sx(n.ty, raw) % n.ti == 0 || (!is_signed(n.ty) && raw % (uint64_t)llabs(n.ti) == 0);
    if (n.tr == T_DIV && !is_signed(n.ty) && n.ti != 0) inv = raw % (uint64_t)llabs(n.ti) == 0;
    if (n.tr == T_POLY && n.tf.size() < 2) inv = false;
    double y = got.empty() ? 0 : as_double(got[0].bits);
    if (is_f(n) && sz >= 4 && inv && !is_float(n.ty)) { // lost in double precision?
        double x0 = is_signed(n.ty) ? (double)sx(n.ty, raw) : (double)raw;
        if (fabs(x0) * 4 > 1e9 && (n.tr == T_POLY || n.tr == T_SPLINE || n.tr == T_SCALEOFF || n.tr == T_OFFSET || n.tr == T_SCALE) && sz == 8) inv = fabs(x0) < 1e6;
        if (fabs(x0) > 1e12) inv = false;
    }
    if ((n.tr == T_POLY || n.tr == T_SPLINE) && inv) {
        if (all) {
            int same = 0, cross = 0, N = (int)all->size(); double tol = 1e-9 * std::max(1.0, fabs(y));
            auto at = [&](int k) { return (*all)[is_signed(n.ty) ? (k + N / 2) % N : k]; }; // in numeric order
            for (double q : *all) if (fabs(q - y) <= tol) same++;
            for (int k = 0; k + 1 < N; k++) { double a = at(k) - y, b = at(k + 1) - y; if (fabs(a) > tol && fabs(b) > tol && (a < 0) != (b < 0)) cross++; } // the formula takes this value between two raw values as well
            for (int k = 1; k + 1 < N; k++) if (fabs(at(k) - y) <= tol && (at(k - 1) < y) == (at(k + 1) < y)) cross++; // a turning point
            inv = same == 1 && cross == 0;
        }
        else inv = false;
        // several solutions outside of the raw values make the inverse ambiguous only if another raw value is near; numerical search needs a slope
        if (n.tr == T_POLY && n.tf.size() > 2 && inv) { double x0 = is_signed(n.ty) ? (double)sx(n.ty, raw) : (double)raw, s = 0, p = 1; for (size_t k = 1; k < n.tf.size(); k++) { s += k * n.tf[k] * p; p *= x0; } if (fabs(s) < 0.05) inv = false; }
    }
    if (is_float(n.ty)) {
        double v = n.ty == F32 ? as_float((uint32_t)raw) : as_double(raw);
        bool plain = std::isfinite(v) && v == floor(v) && fabs(v) < 1e6 && !(v == 0 && raw);
        if (!plain) inv = false;
        else if (n.tr == T_POLY || n.tr == T_SPLINE) inv = false;
        else if (is_f(n)) { int e; inv = n.tf[0] != 0 && (n.ty == F32 || (fabs(frexp(n.tf[0], &e)) == 0.5 && n.tf[1] * 8 == floor(n.tf[1] * 8))); if (v == 0 && n.tf[1] != 0) inv = inv && n.tf[1] * 8 == floor(n.tf[1] * 8); if (v == 0 && n.tf[0] < 0) inv = false; }
        else inv = n.tr == T_DIV ? n.ti == 0 || (int64_t)v % n.ti == 0 : n.tr != T_MUL || n.ti != 0;
    }
    if (!inv) { ctx.outcome("not invertible there"); return true; }
    Run w; w.bytes = d; w.consumed = d.size(); w.ev = r.ev; w.ev[0].bits = got[0].bits;
    bad = compare_encode(x, ctx, w);
    if (!bad.empty()) { fail2(ctx, "transform not undone: " + bad + fmt("\nraw 0x%llX value bits 0x%llX (%.17g)", (unsigned long long)raw, (unsigned long long)got[0].bits, y)); return false; }
    ctx.outcome("undone exactly");
    return true;
}
static void all_values(Chooser& ch, Ctx& ctx, const T& t, Ty ty) {
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    Node n = mk(t, ty, "v"); x.s.body = {n, gen::f(U8, "after")};
    if (is_float(ty) && !is_f(n) && (n.tr == T_MUL || n.tr == T_DIV)) {}
    x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    int sz = ty_size(ty); vector<uint64_t> vs; vector<double> all;
    if (sz == 1 || (sz == 2 && ctx.thorough)) for (uint64_t v = 0; v < 1ull << 8 * sz; v++) vs.push_back(v);
    else if (is_float(ty)) for (double q : {0.0, 1.0, -1.0, 0.5, 3.0, 100.0, -1000.0, 123456.0, 1e9, 1e18, 9.3e18, -9.3e18, 1e30, (double)INFINITY, -(double)INFINITY, (double)NAN}) vs.push_back(ty == F32 ? f_bits((float)q) : d_bits(q));
    else {
        uint64_t m = sz == 8 ? ~0ull : (1ull << sz * 8) - 1;
        for (uint64_t q = 0; q < 20; q++) { vs.push_back(q); vs.push_back(m - q); vs.push_back((m >> 1) - q); vs.push_back((m >> 1) + 1 + q); }
        for (int b = 4; b < sz * 8; b++) for (int k = -1; k < 2; k++) vs.push_back(((1ull << b) + k) & m);
        for (uint64_t q : {100ull, 255ull, 256ull, 1000ull, 12345ull, 300ull, 600ull}) vs.push_back(q & m);
    }
    if (n.tr == T_POLY || n.tr == T_SPLINE) {
        if (sz <= 2 && !is_float(ty)) for (uint64_t v = 0; v < 1ull << 8 * sz; v++) {
            Schema s1 = x.s; s1.file_endian = -1; vector<uint8_t> d; for (int i = 0; i < sz; i++) d.push_back((uint8_t)(v >> 8 * i)); d.push_back(0);
            all.push_back(as_double(ref::decode(s1, d).ev[0].bits));
            if (sz == 2 && v > 3000 && !ctx.thorough) break;
        }
    }
    bool whole = (sz == 1 || (sz == 2 && ctx.thorough)) && !is_float(ty);
    for (uint64_t v : vs) if (!raw_value(x, ctx, n, v, whole && !all.empty() && n.tr != T_NONE && sz == 1 ? &all : nullptr)) return;
    ctx.nontrivial();
}
static void all_raw(Chooser& ch, Ctx& ctx) {
    static const vector<Ty> TY = {U8, I8, U16, I16, U32, I32, U64, I64, F32, F64};
    const T& t = ch.of(trans()); Ty ty = ch.of(TY); all_values(ch, ctx, t, ty);
}
// Polynomials and splines with any number of coefficients and points that the compiler takes
static void lengths(Chooser& ch, Ctx& ctx) {
    bool spline = ch.flag(); Ty ty = ch.flag() ? I8 : U8; int n = 1 + (int)ch.pick(16); int shape = (int)ch.pick(3);
    T t{T_POLY, {}, 0};
    if (spline) {
        if (n < 2) return;
        t.tr = T_SPLINE; int lo = ty == I8 ? -128 : 0;
        for (int i = 0; i < n; i++) { int at = lo + i * 255 / (n - 1); t.t.push_back(fmt("%d", at)); t.t.push_back(shape == 0 ? fmt("%d", 3 * at + (i % 2)) : shape == 1 ? fmt("%.2f", 1000 - 2.5 * at - 0.25 * (i % 3)) : fmt("%d", at * (i % 3 ? 1 : -1))); }
    } else {
        for (int k = 0; k < n; k++) {
            double c = k == 0 ? 7 : k == 1 ? 1 : shape == 0 ? (k == n - 1 ? 40 / pow(256, k) : 0) : shape == 1 ? 3 / pow(256, k) : (k % 2 ? 5 : -5) / pow(256, k);
            t.t.push_back(fmt("%.*f", k < 2 ? 0 : (int)(k * 2.41) + 6, c));
        }
    }
    all_values(ch, ctx, t, ty);
}
// Engineering values that have no raw value, or whose raw value is known exactly
static void engineering(Chooser& ch, Ctx& ctx) {
    static const vector<Ty> TY = {U8, I8, U16, I16, U32, I32, U64, I64};
    const T& t = ch.of(trans()); Ty ty = ch.of(TY); bool arr = ch.flag();
    Prep x; Node n = mk(t, ty, "v");
    x.s.body = {arr ? gen::arr(n, A_FIX, 1) : n, gen::f(U8, "after")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    int sz = ty_size(ty); bool f = is_f(n);
    double mn = is_signed(ty) ? (double)ty_min(ty) : 0, mx = (double)ty_max(ty);
    auto fwd = [&](double q) { return n.tf.empty() ? q : q * n.tf[0] + n.tf[1]; };
    vector<uint64_t> vals;
    if (f) {
        vector<double> q = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e19, -1e19, 1e30};
        if (n.tr == T_SCALE || n.tr == T_OFFSET || n.tr == T_SCALEOFF) for (double e : {mn, mx, mn - 1, mx + 1, mn - 2, mx + 2, mn * 2 - 10, mx * 2 + 10, 0.0, 1.0, -1.0, 7.0}) q.push_back(fwd(e));
        else for (double e : {-100000.0, 100000.0, -50.0, 2000.0, 1e7, 1e10}) q.push_back(e);
        for (double d : q) vals.push_back(d_bits(d));
    } else for (int64_t b : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)127, (int64_t)128, (int64_t)-128, (int64_t)-129, (int64_t)255, (int64_t)256, (int64_t)257, (int64_t)32767, (int64_t)32768, (int64_t)65535, (int64_t)65536, (int64_t)65546, (int64_t)2147483647, (int64_t)2147483648ll, (int64_t)-2147483648ll, (int64_t)-2147483649ll, (int64_t)4294967295ll, (int64_t)4294967296ll, INT64_MAX, INT64_MIN, INT64_MAX - 10, INT64_MIN + 10, INT64_MAX / 100, INT64_MIN / 3 }) vals.push_back((uint64_t)b);
    for (uint64_t v : vals) {
        // Expected raw value
        bool must_err = false, exact = false; uint64_t raw = 0;
        if (f) {
            double d = as_double(v);
            if (n.tr == T_SCALE || n.tr == T_OFFSET || n.tr == T_SCALEOFF) {
                if (n.tf[0] == 0) { ctx.outcome("not judged"); continue; }
                double q = (d - n.tf[1]) / n.tf[0];
                double tol = std::min(0.01, std::max(1e-6, fabs(q) * 1e-9));
                if (std::isnan(d) || q >= mx + (sz == 8 ? 1e4 : 0.75) || q <= mn - (sz == 8 ? 1e4 : 0.75)) must_err = true;
                else if (fabs(q - nearbyint(q)) < tol && fabs(q) < 1e12 && nearbyint(q) >= mn && nearbyint(q) <= mx) { exact = true; raw = nearbyint(q) < 0 ? (uint64_t)(int64_t)nearbyint(q) : (uint64_t)nearbyint(q); }
            } else {
                if (std::isnan(d)) must_err = true;
                else {
                    Schema s1; s1.body = {n}; double lo = INFINITY, hi = -INFINITY;
                    if (sz > 1) { ctx.outcome("not judged"); continue; }
                    for (int r = 0; r < 256; r++) { double y = as_double(ref::decode(s1, {(uint8_t)r}).ev[0].bits); lo = std::min(lo, y); hi = std::max(hi, y); }
                    if (d < lo - (hi - lo) / 20 - 20 || d > hi + (hi - lo) / 20 + 20) must_err = true;
                }
            }
        } else {
            __int128 y = (int64_t)v, q; int64_t k = n.ti; bool ok = true;
            switch (n.tr) { case T_ADD: q = y - k; break; case T_SUB: q = y + k; break; case T_MUL: q = k ? y / k : y; ok = k == 0 || y % k == 0; break; default: q = y * (k ? k : 1); }
            __int128 lo = is_signed(ty) ? ty_min(ty) : 0, hi = is_signed(ty) ? (__int128)ty_max(ty) : (__int128)ty_max(ty);
            // Values delivered are int64: what does not fit there has no engineering value
            if (q < lo || q > hi || q > INT64_MAX || q < INT64_MIN) must_err = true;
            else if (ok) { exact = true; raw = (uint64_t)(int64_t)q; }
        }
        if (!must_err && !exact) { ctx.outcome("not judged"); continue; }
        Run r; Ev e; e.op = f ? OP_IO_F64 : OP_IO_I64; e.key = "v"; e.k = Ev::NUM; e.size = 8; e.bits = v; e.flt = f;
        if (arr) { Ev a; a.op = OP_ARR_FIXED; a.key = "v"; a.k = Ev::CNT; a.size = 4; a.bits = 1; r.ev.push_back(a); }
        r.ev.push_back(e);
        if (arr) { Ev a; a.op = OP_ARR_END; a.keyed = false; r.ev.push_back(a); }
        if (!must_err) { Ev a; a.op = OP_IO_U8; a.key = "after"; a.k = Ev::NUM; a.size = 1; a.bits = 0x77; r.ev.push_back(a); }
        string b = le(raw, sz); r.bytes.assign(b.begin(), b.end()); r.bytes.push_back(0x77); r.consumed = r.bytes.size();
        string val = f ? fmt("%.17g", as_double(v)) : fmt("%lld", (long long)v);
        if (must_err) {
            impl::Result i = impl::encode(x.p, r, 32); ctx.evals();
            if (i.err == 0 || i.ncb > (arr ? 2 : 1)) { ctx.fail("a value outside of the raw type is not reported", "value " + val + " " + result_str(i, true)); return; }
            ctx.outcome("value outside of the raw type reported");
        } else {
            string bad = compare_encode(x, ctx, r);
            if (!bad.empty()) { fail2(ctx, "engineering value: " + bad + "\nvalue " + val); return; }
            ctx.outcome("value encoded exactly");
        }
        ctx.traces(); ctx.steps();
    }
    ctx.nontrivial();
}
// A transformed field next to and inside of everything
static void context(Chooser& ch, Ctx& ctx, int depth, int budget) {
    static const vector<const char*> TA = {"scale", "scale-i8", "offset", "poly", "spline", "add", "sub", "mul", "div"};
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    const gen::Atom& a = gen::atom(ch.of(TA));
    Nodes leaf; a.add(x.s, leaf, "v"); Node n = leaf[0];
    for (int d = 0; d < depth; d++) {
        vector<Node> before;
        if (!wrap(ch, x.s, n, fmt("w%d", d), before)) return;
        if (!before.empty()) { if (d + 1 < depth) { before.push_back(n); n = gen::strct(x.s, fmt("wr%d", d), before); n.name = fmt("x%d", d); } else for (auto& b : before) x.s.body.push_back(b); }
    }
    x.s.body.push_back(n);
    const gen::Atom& b = gen::atoms()[ch.pick((uint32_t)gen::atoms().size())];
    if (b.flags & gen::LAST) return;
    b.add(x.s, x.s.body, "g");
    x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do {
        rc.rewind(); DomGen g(rc, x.s, budget, false, 3); g.longtext = 12;
        Run r = ref::encode(x.s, g); if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        string bad = compare_encode(x, ctx, r);
        if (bad.empty()) { Run d = ref::decode(x.s, r.bytes); bad = compare_decode(x, ctx, r.bytes, d); }
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.outcome("in context"); ctx.traces(2); ctx.steps(r.ev.size());
    } while (rc.next());
    ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C11"; bool th = is_thorough(argc, argv);
    o.rule = "Every transform of a parameter set on every numeric type and byte order: every raw value of 8-bit (thorough: 16-bit) types and boundary values of the others is decoded and compared with the formula, and the delivered value is encoded again wherever the formula is invertible; polynomials and splines of every length up to the compiler's limit of 16; engineering values at, next to and far outside of the raw range; every transformed field in every container (depth 1; thorough: 2) followed by every atom";
    o.assumptions = {"invertible means: linear with non-zero factor, integer operations without remainder, polynomials and splines that take the value at one point of the raw range only", "floating results are compared with a relative tolerance of 1e-9"};
    vector<mc::Family> f = { {"all raw values", all_raw}, {"lengths", lengths}, {"engineering values", engineering}, {"in context 1", [=](Chooser& c, Ctx& x) { context(c, x, 1, 2); }} };
    if (th) f.push_back({"in context 2", [](Chooser& c, Ctx& x) { context(c, x, 2, 2); }});
    return mc::main_driver(argc, argv, o, f);
}
