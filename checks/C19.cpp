// The command line tools on every schema and record of a bounded family, forwards and backwards
#include "cli.hpp"
#include "json.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
#include "isa.hpp"
using js::J;
static const string OLD = "the file as it was before";
struct Job { Ctx& ctx; string il, json, bin, out; explicit Job(Ctx& c) : ctx(c), il(c.scratch + "/j.il"), json(c.scratch + "/j.json"), bin(c.scratch + "/j.bin"), out(c.scratch + "/j.out") {} };
// Runs a command whose output goes to job.out. -1: failed and left the file alone, 0 success, 1: complaint in `bad`
static int command(Job& j, const vector<string>& a, string& produced, string& bad) {
    impl::write_file(j.out, OLD);
    cli::Res r = cli::run(j.ctx, a);
    produced.clear();
    bool there = impl::read_file(j.out, produced);
    if (r.code == 0) return 0;
    if (!there) { bad = a[0] + " failed and removed the output file"; return 1; }
    if (produced != OLD) { bad = a[0] + " failed and changed the output file"; return 1; }
    return -1;
}
static int encode(Job& j, const string& text, string& produced, string& bad) { impl::write_file(j.json, text); return command(j, {"encode", j.il, j.json, j.out}, produced, bad); }
static int decode(Job& j, const vector<uint8_t>& d, bool hexmode, string& produced, string& bad) {
    impl::write_file(j.bin, string(d.begin(), d.end()));
    vector<string> a = {"decode", j.il, j.bin, j.out}; if (hexmode) a.push_back("--hex");
    return command(j, a, produced, bad);
}
static string sv(const vector<uint8_t>& v) { return string(v.begin(), v.end()); }
static bool expect_bytes(Job& j, const string& text, const vector<uint8_t>& want, const char* what) {
    string p, bad; int r = encode(j, text, p, bad);
    j.ctx.steps(want.size());
    if (r == 1) { j.ctx.fail(bad, text); return false; }
    if (r < 0) { j.ctx.fail(string("encode refuses a valid document") + what, text + "\nexpected bytes " + hex(want)); return false; }
    if (p != sv(want)) { j.ctx.fail(string("encode wrote other bytes") + what, text + "\nexpected " + hex(want) + "\ngot      " + hex((const uint8_t*)p.data(), p.size())); return false; }
    return true;
}
static bool has_nul(const J& j) { if (j.k == J::TEXT && memchr(j.s.data(), 0, j.s.size())) return true; for (auto& e : j.m) if (has_nul(e.second)) return true; return false; }
// Decodes data and compares with the reference decoder
static bool expect_doc(Job& j, const Schema& s, const vector<uint8_t>& d, bool hexmode, const char* what, string* text = nullptr, bool* ok = nullptr) {
    Run r = ref::decode(s, d);
    if (ok) *ok = false;
    if (r.unspecified) { j.ctx.outcome("not judged"); return true; }
    string p, bad; int c = decode(j, d, hexmode, p, bad);
    if (c == 1) { j.ctx.fail(bad, hex(d)); return false; }
    J want = js::document(r.ev);
    bool must = r.err == 0 && !has_nul(want);
    if (must != (c == 0)) { j.ctx.fail(string(must ? "decode refuses valid data" : "decode accepts invalid data") + what, hex(d) + (r.err ? fmt("\nexpected %s", impl::err_name(r.err)) : "")); return false; }
    j.ctx.outcome(c == 0 ? "decoded" : "decode refused");
    if (c) return true;
    js::P got; js::Reader rd(p);
    if (!rd.all(got)) { j.ctx.fail(string("decode did not write JSON") + what, hex(d) + "\n" + p); return false; }
    string df = js::differ(want, got, hexmode);
    j.ctx.steps(r.ev.size());
    if (!df.empty()) { j.ctx.fail(string("decode wrote another document") + what, df + "\ndata " + hex(d) + "\n" + p); return false; }
    if (text) *text = p;
    if (ok) *ok = true;
    return true;
}
static bool must_refuse(Job& j, const string& text, const string& what) {
    string p, bad; int r = encode(j, text, p, bad);
    if (r == 1) { j.ctx.fail(bad, text); return false; }
    if (r == 0) { j.ctx.fail("encode accepts an invalid document: " + what, text + "\nwrote " + hex((const uint8_t*)p.data(), p.size())); return false; }
    j.ctx.outcome("document refused");
    return true;
}
// Every leaf, array and object of the document replaced by something that does not fit
static bool misfits(Job& j, const J& doc, const J& at) {
    auto with = [&](const string& w, const char* what) { js::Style st; st.at = &at; st.with = w; return must_refuse(j, js::print(doc, st), what); };
    static const vector<string> ANY = {"null", "{}", "[]", "\"zz\"", "true", "1.5", "-1", "1"};
    auto all = [&](const string& not_these, const char* what) { for (auto& w : ANY) if (not_these.find("|" + w + "|") == string::npos && !with(w, what)) return false; return true; };
    switch (at.k) {
        case J::OBJ: if (&at != &doc && !all("|{}|", "object expected")) return false; break;
        case J::ARR: {
            if (!all("|[]|", "array expected")) return false;
            string e = at.m.empty() ? "" : js::print(at.m[0].second, {});
            auto list = [&](size_t n) { string r; for (size_t i = 0; i < n; i++) r += (i ? "," : "") + e; return "[" + r + "]"; };
            if (!at.m.empty()) {
                if (at.arr_op == OP_ARR_FIXED || at.arr_op == OP_ARR_DYNAMIC) { if (!with(list(at.m.size() + 1), "array too long") || !with(list(at.m.size() - 1), "array too short")) return false; }
                if (at.arr_op == OP_ARR_PRE_U8 && !with(list(256), "array longer than its prefix can say")) return false;
                if (js::hexable(at) && (!with("\"" + js::hex_of(at) + "0\"", "odd number of hex digits") || !with("\"" + js::hex_of(at).substr(1) + "g\"", "not a hex digit"))) return false;
            }
            break;
        }
        case J::UINT: {
            if (!at.asked) break;
            int w = at.width ? at.width : at.size * 8; string over = w == 64 ? "18446744073709551616" : fmt("%llu", 1ull << w);
            if (!all("|1|", "integer expected") || !with(over, "integer too large") || !with("1e30", "integer too large") || !with("-18446744073709551615", "integer negative")) return false;
            break;
        }
        case J::INT: {
            if (!at.asked) break;
            int w = at.width ? at.width : at.size * 8; string over = fmt("%llu", 1ull << (w - 1)), under = w == 64 ? "-9223372036854775809" : fmt("%lld", -(long long)(1ull << (w - 1)) - 1);
            if (at.tol) break;
            if (!all("|1|-1|", "integer expected") || !with(over, "integer too large") || !with(under, "integer too small")) return false;
            break;
        }
        case J::BOOLV: if (at.asked && (!all("|true|1|", "truth value expected") || !with("2", "truth value expected"))) return false; break;
        case J::F32V: case J::F64V: if (at.asked && (!all("|1.5|-1|1|", "number expected") || !with(at.k == J::F32V ? "1e39" : "1e400", "number too large"))) return false; break;
        case J::TEXT: {
            if (!all("|\"zz\"|", "text expected")) return false;
            if (at.maxlen < 70000 && !with(js::quote(string(at.maxlen + 1, 'x')), "text too long")) return false;
            if (at.maxlen >= 3 && !with("\"a\\u0000b\"", "text with a NUL")) return false;
            break;
        }
        default: break;
    }
    for (auto& e : at.m) if (!misfits(j, doc, e.second)) return false;
    return true;
}
static bool load(Prep& x, Job& j) { if (!prepare(x, j.ctx)) return false; impl::write_file(j.il, x.il); return true; }
static bool bits_or_pads(const Schema& s, const string& text) { (void)s; return text.find(" : ") != string::npos || text.find("unaligned") != string::npos || text.find("@pad") != string::npos || text.find("@fill") != string::npos; }

struct Depth { int budget, width; bool misfit, cuts, flips; };
static void explore(Prep& x, Ctx& ctx, const Depth& dp) {
    Job j(ctx); impl::write_file(j.il, x.il);
    bool bytes = has_byte_array(x.text), packed = bits_or_pads(x.s, x.text);
    Chooser rc; uint64_t n = 0;
    do {
        rc.rewind();
        DomGen g(rc, x.s, dp.budget, false, dp.width);
        Run r = ref::encode(x.s, g);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        J doc = js::document(r.ev);
        if (r.err) { js::Style st; st.skip_unasked = true; if (!must_refuse(j, js::print(doc, st), "no encoding")) return; continue; }
        // as it is, and in other writings of the same document
        js::Style plain, least, rev; least.skip_unasked = true; rev.reverse = rev.spaces = true;
        if (!expect_bytes(j, js::print(doc, plain), r.bytes, "")) return;
        if (n == 0 && !expect_bytes(j, js::print(doc, rev) + "\r\n \t", r.bytes, " (members reversed, with spaces)")) return;
        if (n == 0 && !expect_bytes(j, js::print(doc, least), r.bytes, " (without constants and computed fields)")) return;
        js::Style hx; hx.hex = true;
        if (bytes) { if (!expect_bytes(j, js::print(doc, hx), r.bytes, " (hex digits)")) return; hx.reverse = true; if (n == 0 && !expect_bytes(j, js::print(doc, hx), r.bytes, " (hex digits)")) return; }
        // and back
        for (int h = 0; h <= (bytes ? 1 : 0); h++) {
            string text; bool ok;
            if (!expect_doc(j, x.s, r.bytes, h, h ? " (hex mode)" : "", &text, &ok)) return;
            if (ok && !expect_bytes(j, text, r.bytes, h ? " (of what decode --hex wrote)" : " (of what decode wrote)")) return;
        }
        if (n == 0 && dp.misfit) { J asked = doc; if (!misfits(j, asked, asked)) return; }
        if (n == 0 && dp.cuts) {
            string t = js::print(doc, plain);
            for (size_t k = 0; k < t.size(); k++) if (!must_refuse(j, t.substr(0, k), "cut off")) return;
            if (!must_refuse(j, t + "x", "garbage behind") || !must_refuse(j, t + t, "two documents") || !must_refuse(j, "[" + t + "]", "not an object") || !must_refuse(j, t + string("\0", 1), "a NUL byte behind")) return;
        }
        if (n < 3 && dp.cuts) for (size_t k = 0; k < r.bytes.size(); k++) if (!expect_doc(j, x.s, vector<uint8_t>(r.bytes.begin(), r.bytes.begin() + k), false, " (cut off)")) return;
        if (n == 0 && dp.flips) for (size_t k = 0; k < r.bytes.size() && k < 40; k++) for (uint8_t m : {0x01, 0x80, 0xFF, 0x20}) {
            vector<uint8_t> d = r.bytes; d[k] ^= m;
            string text; bool ok;
            if (!expect_doc(j, x.s, d, false, " (changed data)", &text, &ok)) return;
            Run dr = ref::decode(x.s, d); bool exact = ok && !packed && dr.consumed == d.size();
            for (auto& e : dr.ev) if (e.tol || e.missing) exact = false;
            if (x.text.find("@scale") != string::npos || x.text.find("@offset") != string::npos || x.text.find("@mul") != string::npos || x.text.find("@div") != string::npos) exact = false; // not every wire value comes back
            if (exact && !expect_bytes(j, text, d, " (of what decode wrote)")) return;
        }
        ctx.traces(); n++;
        if (r.bytes.size() > 1) ctx.nontrivial();
    } while (rc.next());
}
static void seq(Chooser& ch, Ctx& ctx, int n, int modes, const Depth& d) {
    Prep x; if (!pick_sequence(ch, n, modes, x.s)) return;
    x.text = print(x.s); if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) explore(x, ctx, d);
    if (n == 1) ctx.sample(x.text);
}
static void nest(Chooser& ch, Ctx& ctx, int depth, const Depth& d) {
    Prep x; if (!pick_nested(ch, depth, x.s)) return;
    x.text = print(x.s); if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) explore(x, ctx, d);
}
// Every boundary value of every type
struct One : Gen { uint64_t v = 0; string t; uint32_t c = 0; uint64_t raw(const Node&, Ty, int b) override { return b == 64 ? v : v & ((1ull << b) - 1); } string text(const Node&) override { return t; } uint32_t count(const Node&) override { return c; } };
static void values(Chooser& ch, Ctx& ctx) {
    Ty t = (Ty)ch.pick(BOOL + 1); int bits = ty_size(t) * 8, w = 0;
    if (t <= I64 && ch.flag()) w = 1 + (int)ch.pick(bits);
    bool sw = ch.flag(); // as the value an expression refers to
    Prep x; Node n = gen::f(t, "v", w); x.s.body = {n};
    if (sw) { if (w || t == BOOL) return; Node e = gen::f(is_float(t) ? F64 : U64, "e"); e.expr = e_ref("v"); x.s.body.push_back(e); }
    x.text = print(x.s); if (!ctx.begin(x.text)) return;
    Job j(ctx); if (!load(x, j)) return;
    int b = w ? w : bits; uint64_t m = b == 64 ? ~0ull : (1ull << b) - 1;
    std::set<uint64_t> V;
    if (t == BOOL) V = {0, 1};
    else if (is_float(t)) {
        for (double q : {0.0, -0.0, 1.0, -1.0, 0.1, 1e-45, 1.17549435e-38, 3.4028234663852886e38, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 123456789.0, 9007199254740993.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 0.30000000000000004, 16777217.0, 1e100})
            for (double k : {1.0, -1.0, 3.0, 1.0 / 3}) V.insert(t == F32 ? f_bits((float)(q * k)) : d_bits(q * k));
        if (t == F32) for (uint64_t q : {0x7F800000ull, 0xFF800000ull, 0x7FC00000ull, 0xFFC00000ull, 0x7FC00001ull, 0x7F800001ull, 0x7F7FFFFFull, 1ull, 0x80000001ull}) V.insert(q);
        else for (uint64_t q : {0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0xFFF8000000000000ull, 0x7FF8000000000001ull, 0x7FF0000000000001ull, 1ull, 0x8000000000000001ull}) V.insert(q);
        for (int e = 0; e < (t == F32 ? 255 : 2047); e += t == F32 ? 1 : 3) { uint64_t q = (uint64_t)e << (t == F32 ? 23 : 52); for (uint64_t k : {0ull, 1ull, 0x2AAAAAull}) { V.insert(q | k); } }
    } else {
        for (uint64_t q : {(uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)10, (uint64_t)99, (uint64_t)100, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) - 1}) V.insert(q & m);
        for (int i = 0; i < 64; i++) for (int k = -1; k <= 1; k++) V.insert(((1ull << i) + k) & m);
        uint64_t p = 1; for (int i = 0; i < 20; i++, p *= 10) for (int k = -1; k <= 1; k++) { V.insert((p + k) & m); V.insert((0 - p + k) & m); }
        if (b <= 8) for (uint64_t q = 0; q <= m; q++) V.insert(q);
    }
    for (uint64_t v : V) {
        One g; g.v = v; Run r = ref::encode(x.s, g);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        J doc = js::document(r.ev);
        string text = js::print(doc, {});
        if (r.err) { if (!must_refuse(j, text, "no encoding")) return; continue; }
        if (!expect_bytes(j, text, r.bytes, "")) return;
        bool ok; if (!expect_doc(j, x.s, r.bytes, false, "", &text, &ok)) return;
        if (ok && !expect_bytes(j, text, r.bytes, " (of what decode wrote)")) return;
        ctx.traces();
    }
    ctx.nontrivial();
}
// Computed fields of every type from fields of every type, in every scope, and what depends on a value of the document
static void computed(Chooser& ch, Ctx& ctx) {
    Ty t = (Ty)ch.pick(BOOL + 1), u = (Ty)ch.pick(BOOL + 1); int kind = (int)ch.pick(8), place = (int)ch.pick(4); EP a = e_ref("v");
    EP e = kind == 0 ? a : kind == 1 ? e_bin("+", e_bin("*", a, is_float(t) ? e_flt("3.0", 3) : e_int(3)), is_float(t) ? e_flt("1.5", 1.5) : e_int(1)) : kind == 2 ? e_un("-", a) : kind == 3 ? e_fn("float", {a}) : kind == 4 ? e_fn("int", {a}) : kind == 5 ? e_bin(">", a, is_float(t) ? e_flt("10.0", 10) : e_int(10)) : kind == 6 ? e_un("!", a) : e_bin("+", e_fn("float", {a}), e_flt("0.25", .25));
    Prep x; Node c = gen::f(u, "c"); c.expr = e; Node w; w.k = Node::IF; w.conds = {is_float(t) ? e_bin("<", a, e_flt("1.0", 1)) : e_bin("==", a, e_int(1))}; w.blocks = {{gen::f(U8, "small")}, {gen::f(U16, "large")}};
    Nodes m = {gen::f(t, "v"), c, w};
    if (place == 0) x.s.body = m; else if (place == 1) { x.s.body = {gen::strct(x.s, "in", m)}; } else if (place == 2) { x.s.body = {gen::arr(gen::strct(x.s, "in", m), A_FIX, 2)}; } else { Node v2 = gen::f(U32, "v"); x.s.body = {v2, gen::strct(x.s, "in", m), c}; x.s.body[2].expr = e_ref("v"); }
    x.text = print(x.s); if (!ctx.begin(x.text)) return;
    Job j(ctx); if (!load(x, j)) return;
    int b = ty_size(t) * 8; uint64_t M = b == 64 ? ~0ull : (1ull << b) - 1; std::set<uint64_t> V;
    if (t == BOOL) V = {0, 1}; else if (is_float(t)) for (double q : {0.0, 1.0, -1.0, 0.5, 0.1, 10.0, 10.5, 255.0, 256.0, -128.0, 65535.5, 2147483648.0, 4294967296.0, 1e15, 9007199254740993.0, 1e30, -3.75}) V.insert(t == F32 ? f_bits((float)q) : d_bits(q));
    else for (uint64_t q : {(uint64_t)0, (uint64_t)1, (uint64_t)3, (uint64_t)10, (uint64_t)11, (uint64_t)42, (uint64_t)85, M, M - 1, M >> 1, (M >> 1) + 1, M / 3, M - 9}) V.insert(q & M);
    bool any = false;
    for (uint64_t v : V) {
        One g; g.v = v; Run r = ref::encode(x.s, g);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        J doc = js::document(r.ev); string text = js::print(doc, {});
        if (r.err) { if (!must_refuse(j, text, "no encoding")) return; continue; }
        js::Style least; least.skip_unasked = true;
        if (!expect_bytes(j, text, r.bytes, "") || !expect_bytes(j, js::print(doc, least), r.bytes, " (without computed fields)")) return;
        bool ok; if (!expect_doc(j, x.s, r.bytes, false, "", &text, &ok)) return;
        if (ok && !expect_bytes(j, text, r.bytes, " (of what decode wrote)")) return;
        ctx.traces(); any = true;
    }
    if (any) ctx.nontrivial();
}
// Every character in texts
static void texts(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(6); int part = (int)ch.pick(4);
    Prep x; x.s.body = {gen::str("s", kind, kind == 5 || kind == 0 ? 20 : 255), gen::f(U8, "after")};
    x.text = print(x.s) + fmt("// part %d", part); if (!ctx.begin(x.text)) return;
    Job j(ctx); if (!load(x, j)) return;
    for (int c = 1 + part; c < 256; c += 4) for (int pos = 0; pos < 3; pos++) {
        string u; if (c < 128) u = string(1, (char)c); else { u += (char)(0xC0 | c >> 6); u += (char)(0x80 | (c & 63)); }
        One g; g.v = 7; g.t = pos == 0 ? u : pos == 1 ? "a" + u + "b" : u + u + "\\" + u; 
        Run r = ref::encode(x.s, g); if (r.unspecified || r.err) continue;
        string text = js::print(js::document(r.ev), {});
        if (!expect_bytes(j, text, r.bytes, "")) return;
        bool ok; if (!expect_doc(j, x.s, r.bytes, false, "", &text, &ok)) return;
        if (ok && !expect_bytes(j, text, r.bytes, " (of what decode wrote)")) return;
        // the same character as an escape
        if (pos == 0 && !expect_bytes(j, fmt("{\"s\":\"\\u%04x\",\"after\":7}", c), r.bytes, " (escaped)")) return;
        ctx.traces();
    }
    for (string s : {string(1, '1') + string(30, '0'), string("-12345678901234567890"), string("0"), string("NaN"), string("Infinity"), string("00ff"), string("int:12345678901234567"), string("{\"a\":1}"), string("\"1234567890123456789")}) {
        if ((kind == 0 || kind == 5) && s.size() > 20) s.resize(20);
        One g; g.v = 7; g.t = s; Run r = ref::encode(x.s, g); if (r.unspecified || r.err) continue;
        string text = js::print(js::document(r.ev), {});
        if (!expect_bytes(j, text, r.bytes, "")) return;
        if (!expect_doc(j, x.s, r.bytes, false, "")) return;
    }
    ctx.nontrivial();
}
// Messages of every size around those at which buffers grow
static void sizes(Chooser& ch, Ctx& ctx) {
    static const vector<uint32_t> N = {0, 1, 2, 127, 128, 255, 256, 1000, 1022, 1023, 1024, 1025, 1026, 4094, 4095, 4096, 4097, 16383, 16384, 16385, 65533, 65534, 65535, 65536, 65537};
    int kind = (int)ch.pick(7); uint32_t n = ch.of(N);
    Prep x; Node a;
    switch (kind) {
        case 0: a = gen::arr(gen::f(U8, "v"), A_PRE, 0, "", 4); break;
        case 1: a = gen::arr(gen::f(U16, "v"), A_EOF); break;
        case 2: if (n < 1) return; a = gen::arr(gen::f(U8, "v"), A_FIX, n); break;
        case 3: a = gen::str("v", 3, 65535); if (n > 65535) return; break;
        case 4: a = gen::arr(gen::strct(x.s, "v", {gen::f(U8, "a"), gen::f(U16, "b")}), A_PRE, 0, "", 4); break;
        case 5: a = gen::str("v", 4, 1 << 30); break;
        default: a = gen::arr(gen::f(U8, "v"), A_PRE, 0, "", 2); if (n > 65535) return; break;
    }
    x.s.body = {gen::f(U8, "h"), a}; if (kind != 1) x.s.body.push_back(gen::f(U8, "t"));
    x.text = print(x.s) + fmt("// size %u", n); if (!ctx.begin(x.text)) return;
    Job j(ctx); if (!load(x, j)) return;
    struct G : Gen { uint32_t n; uint64_t k = 0; uint64_t raw(const Node&, Ty, int b) override { k = k * 6364136223846793005ull + 1442695040888963407ull; return k >> (64 - b); } string text(const Node&) override { string s(n, 'a'); for (size_t i = 0; i < n; i++) s[i] = (char)('a' + i % 26); return s; } uint32_t count(const Node&) override { return n; } } g; g.n = n;
    Run r = ref::encode(x.s, g);
    if (r.unspecified || r.err) { ctx.outcome("not judged"); return; }
    J doc = js::document(r.ev); string text;
    if (!expect_bytes(j, js::print(doc, {}), r.bytes, "")) return;
    bool hx = kind == 0 || kind == 2 || kind == 6, ok;
    for (int h = 0; h <= (hx && n ? 1 : 0); h++) {
        if (!expect_doc(j, x.s, r.bytes, h, h ? " (hex mode)" : "", &text, &ok)) return;
        if (ok && !expect_bytes(j, text, r.bytes, " (of what decode wrote)")) return;
    }
    ctx.traces(); ctx.nontrivial();
}
// Structs in structs and arrays in arrays, as deep as they go
static void depths(Chooser& ch, Ctx& ctx) {
    static const vector<int> D = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 100};
    int kind = (int)ch.pick(2), d = kind ? 1 + (int)ch.pick(8) : ch.of(D);
    Prep x; Node n = gen::f(U16, "v");
    for (int i = 0; i < d; i++) {
        n = gen::strct(x.s, fmt("s%d", i), {gen::f(U8, "a"), n});
        if (kind) n = gen::arr(n, A_PRE, 0, "", 1);
    }
    x.s.body = {n, gen::f(U8, "t")};
    x.text = print(x.s); if (!ctx.begin(x.text)) return;
    Job j(ctx); if (!load(x, j)) return;
    One g; g.v = 0xC8 + d; g.c = 2;
    Run r = ref::encode(x.s, g); if (r.unspecified || r.err) { ctx.outcome("not judged"); return; }
    string text; bool ok;
    if (!expect_bytes(j, js::print(js::document(r.ev), {}), r.bytes, "")) return;
    if (!expect_doc(j, x.s, r.bytes, false, "", &text, &ok)) return;
    if (ok && !expect_bytes(j, text, r.bytes, " (of what decode wrote)")) return;
    ctx.traces(); ctx.nontrivial();
}
// Images cut off or damaged: no crash, and a failure leaves the output alone. In a process of its own, since such an image may loop
struct Damage { string il, what; };
// 0 fine, 1 may loop, 2 failed
static int isolated(Job& j, const vector<Damage>& list, const string& text, const vector<uint8_t>& d, string& how, string& log_text) {
    impl::write_file(j.json, text); impl::write_file(j.bin, sv(d));
    string log = j.ctx.scratch + "/log";
    pid_t p = fork();
    if (p == 0) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
        signal(SIGXCPU, SIG_DFL); signal(SIGPROF, SIG_IGN);
        rlimit cpu{4, 4}; setrlimit(RLIMIT_CPU, &cpu);
        string o, bad;
        for (auto& x : list) {
            impl::write_file(j.il, x.il);
            for (auto& a : vector<vector<string>>{{"encode", j.il, j.json, j.out}, {"decode", j.il, j.bin, j.out}, {"decode", j.il, j.bin, j.out, "--hex"}}) if (command(j, a, o, bad) == 1) { dprintf(2, "%s", bad.c_str()); _exit(9); }
        }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    j.ctx.evals(3 * list.size());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return 1;
    impl::read_file(log, log_text);
    how = WIFSIGNALED(st) ? fmt("ended by signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 77 ? "sanitizer report" : log_text;
    return 2;
}
static bool all_isolated(Job& j, const vector<Damage>& list, const string& text, const vector<uint8_t>& d) {
    string how, log;
    if (isolated(j, list, text, d, how, log) == 0) { j.ctx.outcome("damaged image survived", list.size()); return true; }
    for (auto& x : list) {
        int r = isolated(j, {x}, text, d, how, log);
        if (r == 2) { j.ctx.fail(how, x.what + "\n" + log); return false; }
        j.ctx.outcome(r ? "cut off (may loop)" : "damaged image survived");
    }
    return true;
}
static void damage(Chooser& ch, Ctx& ctx) {
    const auto& A = gen::atoms();
    const auto& a = A[ch.pick((uint32_t)A.size())]; bool cut = ch.flag();
    Prep x; a.add(x.s, x.s.body, "f"); x.text = print(x.s);
    if (!ctx.begin(x.text + (cut ? "// image cut" : "// image damaged"))) return;
    Job j(ctx); if (!prepare(x, ctx)) return;
    Chooser rc; DomGen g(rc, x.s, 0, false, 3); Run r = ref::encode(x.s, g); if (r.err || r.unspecified) return;
    string text = js::print(js::document(r.ev), {});
    vector<Damage> list;
    if (cut) for (size_t k = 0; k < x.il.size(); k++) list.push_back({x.il.substr(0, k), fmt("image cut to %zu of %zu bytes", k, x.il.size())});
    else {
        uint32_t bc; memcpy(&bc, x.il.data() + 12, 4);
        for (size_t k = 0; k < x.il.size(); k++) {
            if (k >= 16 && k < bc && !ctx.thorough) continue; // names
            for (int m : ctx.thorough ? vector<int>{1, 2, 4, 8, 16, 32, 64, 128, 255} : vector<int>{1, 4, 128, 255}) { string il = x.il; il[k] = (char)(il[k] ^ m); list.push_back({il, fmt("byte %zu of the image changed by %02X", k, m)}); }
        }
    }
    for (size_t at = 0; at < list.size(); at += 256) if (!all_isolated(j, vector<Damage>(list.begin() + at, list.begin() + std::min(at + 256, list.size())), text, r.bytes)) return;
    ctx.nontrivial();
}
// The commands themselves: missing arguments and files, places that cannot be written
static void usage(Chooser& ch, Ctx& ctx) {
    int cmd = (int)ch.pick(4), nargs = (int)ch.pick(4); int bad_at = (int)ch.pick(4), how = (int)ch.pick(4);
    static const char* C[] = {"compile", "encode", "decode", "fmt"};
    int need = cmd == 0 || cmd == 3 ? 2 : 3;
    if (nargs > need) return;
    if (bad_at > nargs || (nargs < need && (bad_at || how))) return; // bad_at: 0 none, else the argument
    if (bad_at == 0 && how) return;
    if (!ctx.begin(fmt("%s with %d arguments, number %d %s", C[cmd], nargs, bad_at, (const char*[]){"missing", "a directory", "empty", "in no directory"}[how]))) return;
    Job j(ctx); Prep x; x.s.body = {gen::f(U8, "a"), gen::f(U16, "b")}; x.text = print(x.s);
    if (!load(x, j)) return;
    string src = ctx.scratch + "/j.cnd"; impl::write_file(src, x.text);
    impl::write_file(j.json, "{\"a\":1,\"b\":2}"); impl::write_file(j.bin, string("\1\2\0", 3));
    vector<string> a = cmd == 0 || cmd == 3 ? vector<string>{C[cmd], src, j.out} : vector<string>{C[cmd], j.il, cmd == 1 ? j.json : j.bin, j.out};
    a.resize(1 + nargs);
    bool is_out = bad_at == need;
    string gone = ctx.scratch + "/none", dir = ctx.scratch + "/dir", empty = ctx.scratch + "/empty", deep = ctx.scratch + "/nodir/x";
    mkdir(dir.c_str(), 0700); impl::write_file(empty, "");
    if (bad_at) a[bad_at] = how == 0 ? gone : how == 1 ? dir : how == 2 ? empty : deep;
    impl::write_file(j.out, OLD);
    cli::Res r = cli::run(ctx, a);
    string now; impl::read_file(j.out, now);
    bool fine = nargs == need && (bad_at == 0 || (is_out && (how == 0 || how == 2)));
    if (cmd == 3 && nargs == 1) { string s; impl::read_file(src, s); bool ok = r.code == 0 && !s.empty(); if (!bad_at && !ok) ctx.fail("fmt of one file fails"); if (bad_at && how != 2 && r.code == 0) ctx.fail("fmt succeeds without its file"); return; }
    if (cmd == 3 && how == 2 && bad_at == 1) return; // an empty text may be formatted
    if (fine != (r.code == 0)) { ctx.fail(fine ? "command fails" : "command succeeds where it cannot"); return; }
    if (!fine && now != OLD) { ctx.fail("failed and changed the output file"); return; }
    unlink(gone.c_str()); rmdir(dir.c_str());
    ctx.outcome(fine ? "command done" : "command refused"); ctx.nontrivial();
}
// Schemas cut off anywhere: compile fails without touching the output, or succeeds
static void schemas(Chooser& ch, Ctx& ctx) {
    const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())];
    Prep x; a.add(x.s, x.s.body, "f"); x.text = print(x.s);
    if (!ctx.begin(x.text + "// cut off anywhere")) return;
    Job j(ctx); string src = ctx.scratch + "/j.cnd", p, bad;
    size_t last = x.text.rfind('}');
    for (size_t k = 0; k <= x.text.size(); k++) {
        impl::write_file(src, x.text.substr(0, k));
        int r = command(j, {"compile", src, j.out}, p, bad);
        if (r == 1) { ctx.fail(bad, x.text.substr(0, k)); return; }
        if (r == 0 && (p.size() < 16 || p.compare(0, 5, "CNDIL"))) { ctx.fail("compile succeeded without an image", x.text.substr(0, k)); return; }
        if (k <= last && r == 0) { ctx.fail("compile accepts a schema that is cut off", x.text.substr(0, k)); return; }
        if (k > last && r != 0) { ctx.fail("compile refuses a whole schema", x.text.substr(0, k)); return; }
        ctx.outcome(r == 0 ? "schema compiled" : "schema refused");
    }
    ctx.nontrivial();
}
int main(int argc, char** argv) {
    bool th = is_thorough(argc, argv);
    vector<mc::Family> F;
    Depth d1 = {th ? 6 : 4, th ? 5 : 3, true, true, true}, d2 = {th ? 2 : 1, 3, th, th, th}, dn = {th ? 4 : 3, 3, true, true, th};
    F.push_back({"single", [=](Chooser& c, Ctx& x) { seq(c, x, 1, 2, d1); }});
    F.push_back({"values", values});
    F.push_back({"computed", computed});
    F.push_back({"texts", texts});
    F.push_back({"sizes", sizes});
    F.push_back({"depths", depths});
    F.push_back({"very many", [](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, {1, 3, false, false, false}); }});
    F.push_back({"nest1", [=](Chooser& c, Ctx& x) { nest(c, x, 1, dn); }});
    F.push_back({"pairs", [=](Chooser& c, Ctx& x) { seq(c, x, 2, 1, d2); }});
    F.push_back({"usage", usage});
    F.push_back({"schemas", schemas});
    F.push_back({"damage", damage});
    if (th) F.push_back({"nest2", [=](Chooser& c, Ctx& x) { nest(c, x, 2, Depth{2, 3, false, false, false}); }});
    return mc::main_driver(argc, argv, {"C19", "Every schema of the families below with every record of its value domain, written as JSON in several ways, through the real encode and decode commands and back; every misfit, cut and damaged input of the bounded kinds.", {"the reference model says which bytes and which document belong to a record", "commands run in one process with fresh variables"}, 120}, F);
}
