#include "common.hpp"
// Counts are drawn from 0..cmax, everything else from its domain
struct CG : DomGen {
    uint32_t cmax; CG(Chooser& c, const Schema& s, int b, uint32_t m) : DomGen(c, s, b, false, 3), cmax(m) { longtext = 12; }
    uint32_t count(const Node&) override { return ch.pick(cmax + 1); }
    uint64_t raw(const Node& n, Ty t, int bits) override {
        if (n.has_range && n.rlo == "0" && !n.name.empty() && n.name.back() == 'n') return ch.pick((uint32_t)n.rh + 1);
        return DomGen::raw(n, t, bits);
    }
};
static void explore(Prep& x, Ctx& ctx, int budget, uint32_t cmax, uint32_t limit = 4000) {
    Chooser rc; int raws = has_byte_array(x.text) ? 2 : 1; uint32_t done = 0;
    do {
        rc.rewind(); CG g(rc, x.s, budget, cmax);
        Run r = ref::encode(x.s, g);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        for (int raw = 0; raw < raws; raw++) {
            string bad = compare_encode(x, ctx, r, 0xA5, raw);
            if (!bad.empty()) { fail2(ctx, bad); return; }
            if (r.err) { ctx.outcome("encode stopped"); continue; }
            Run d = ref::decode(x.s, r.bytes);
            if (d.unspecified) { ctx.outcome("not judged"); continue; }
            bad = compare_decode(x, ctx, r.bytes, d, raw);
            if (!bad.empty()) { fail2(ctx, bad); return; }
            ctx.traces(2); ctx.steps(r.ev.size()); ctx.outcome(raw ? "both ways with bulk transfer" : "both ways");
        }
        if (++done >= limit) break;
    } while (rc.next());
    ctx.nontrivial();
}
static bool go(Prep& x, Ctx& ctx) { x.text = print(x.s); return ctx.begin(x.text) && prepare(x, ctx); }
// Makes an array of n; field-counted arrays put their count into `o`
static bool make_arr(Chooser& ch, Schema& s, Nodes& o, Node n, const string& name, int kinds = 8) {
    if (n.arr != A_NONE || n.bits) { Node i = n; i.name = "e"; n = gen::strct(s, name + "e", {i}); }
    int k = (int)ch.pick((uint32_t)kinds);
    if (n.ty == STR && !(k == 0 || k == 1 || (k == 7 && n.strk == 1))) { n.name = "e"; n = gen::strct(s, name + "e", {n}); }
    if (n.ty == STR && n.strk == 0) { n.name = "e"; n = gen::strct(s, name + "e", {n}); }
    n.name = name;
    switch (k) {
        case 0: n = gen::arr(n, A_FIX, 1 + ch.pick(3)); break;
        case 1: n = gen::arr(n, A_COUNT, 2); break;
        case 2: case 3: case 4: n = gen::arr(n, A_PRE, 0, "", k == 2 ? 1 : k == 3 ? 2 : 4); break;
        case 5: case 6: { Node c = gen::f(k == 5 ? U8 : U32, name + "n"); c.has_range = true; c.rlo = "0"; c.rhi = "3"; c.rl = 0; c.rh = 3; o.push_back(c); n = gen::arr(n, A_DYN, 0, name + "n"); break; }
        default: n = gen::arr(n, A_EOF);
    }
    n.name = name; o.push_back(n); return true;
}
// Every atom as the element (directly, or as the member of an element struct) of every kind of array, in five places
static void elements(Chooser& ch, Ctx& ctx) {
    Prep x; const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())];
    x.s.file_endian = ch.flag() ? 1 : -1;
    if (a.flags & (gen::OPT)) return;
    if (a.flags & gen::LAST && true) return;
    Nodes b; a.add(x.s, b, "v");
    bool direct = b.size() == 1 && (a.flags & gen::ELEM) && ch.flag();
    Node el = b[0];
    if (!direct) { bool more = ch.flag(); if (more) b.push_back(gen::f(U8, "w")); el = gen::strct(x.s, "el", b); }
    else if (el.arr != A_NONE) return;
    int place = (int)ch.pick(5); Nodes o;
    if (!make_arr(ch, x.s, o, el, "arr", place == 0 || place == 1 ? 8 : 7)) return;
    switch (place) {
        case 0: x.s.body = o; x.s.body.insert(x.s.body.begin(), gen::f(U16, "hd")); break;
        case 1: x.s.body = {gen::f(U8, "hd"), gen::strct(x.s, "in", o)}; break;
        case 2: x.s.body = o; x.s.body.push_back(gen::f(U16, "z")); break;
        case 3: o.push_back(gen::f(U8, "t")); x.s.body = {gen::arr(gen::strct(x.s, "in", o), A_PRE), gen::f(U8, "z")}; x.s.body[0].name = "outer"; break;
        case 4: { Node w; w.k = Node::SWITCH; Node k = gen::f(U8, "k"); k.has_range = true; k.rlo = "0"; k.rhi = "1"; k.rl = 0; k.rh = 1; w.ref = "k"; w.labels = {"1"}; w.lvals = {1}; w.bodies = {o}; x.s.body = {k, w, gen::f(U8, "z")}; break; }
    }
    if (go(x, ctx)) explore(x, ctx, ctx.thorough ? 3 : 1, 3, ctx.thorough ? 4000 : 300);
}
// Arrays in arrays in arrays, all kinds, all counts 0..2 (thorough 0..3) at each level
static void nested(Chooser& ch, Ctx& ctx, int depth) {
    static const char* names[] = {"l0", "l1", "l2", "l3"};
    Prep x; static const vector<const char*> L = {"u8", "u16", "str8", "strz", "bool", "structu", "switch", "structb", "i8"};
    Nodes b; gen::atom(ch.of(L)).add(x.s, b, "v");
    Node n = b.size() == 1 ? b[0] : gen::strct(x.s, "el", b);
    Nodes o;
    for (int d = 0; d < depth; d++) {
        bool last = d + 1 == depth, head = d ? ch.flag() : false;
        if (d) { if (head) o.push_back(gen::f(U16, fmt("t%d", d))); n = gen::strct(x.s, fmt("s%d", d), o); o.clear(); }
        if (!make_arr(ch, x.s, o, n, names[d], last ? 8 : 7)) return;
        if (o.back().arr == A_FIX && o.back().n != 2) return;
    }
    x.s.body = o; if (o.back().arr != A_EOF) x.s.body.push_back(gen::f(U8, "z"));
    if (go(x, ctx)) explore(x, ctx, 0, ctx.thorough ? 3 : 2, depth > 2 && !ctx.thorough ? 60 : 3000);
}
// Nesting at the supported limit, any level empty
static void deep(Chooser& ch, Ctx& ctx) {
    int depth = 6 + (int)ch.pick(3), zero = (int)ch.pick((uint32_t)depth + 1), k = (int)ch.pick(3);
    Prep x; Node n = gen::f(U8, "v");
    for (int d = 0; d < depth; d++) {
        if (d) n = gen::strct(x.s, fmt("s%d", d), {n, gen::f(U8, "t")});
        n = k == 0 ? gen::arr(n, A_PRE) : k == 1 ? gen::arr(n, d % 2 ? A_FIX : A_PRE, 1) : gen::arr(n, A_PRE, 0, "", 1 << (d % 3)); n.name = fmt("a%d", d);
    }
    x.s.body = {n, gen::f(U8, "z")}; x.text = print(x.s);
    if (!ctx.begin(x.text + fmt("level %d empty", zero)) || !prepare(x, ctx)) return;
    struct G : Gen { int depth, zero; uint64_t c = 0; uint64_t raw(const Node&, Ty, int) override { return ++c & 0xFF; } string text(const Node&) override { return ""; } uint32_t count(const Node& n) override { int lvl = atoi(n.name.c_str() + 1); return lvl == zero ? 0 : lvl == 2 ? 2 : 1; } } g; g.depth = depth; g.zero = zero;
    Run r = ref::encode(x.s, g);
    for (int raw = 0; raw < 2; raw++) {
        string bad = compare_encode(x, ctx, r, 0x5A, raw); if (bad.empty()) { Run d = ref::decode(x.s, r.bytes); bad = compare_decode(x, ctx, r.bytes, d, raw); }
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.traces(2); ctx.steps(r.ev.size()); ctx.outcome("deep nesting");
    }
    ctx.nontrivial();
}
// Arrays of every kind in the elements of arrays that are empty, or have one or two elements; fields behind. Also where the inner one reads to the end
static void hollow(Chooser& ch, Ctx& ctx) {
    int depth = 2 + (int)ch.pick(ctx.thorough ? 3 : 2); bool head = ch.flag(), tail = ch.flag(); Prep x; x.s.file_endian = ch.flag() ? 1 : -1; Nodes b; gen::atom(ch.of(vector<const char*>{"u8", "u16", "str8", "switch", "structu", "strz"})).add(x.s, b, "v");
    Node n = b.size() == 1 ? b[0] : gen::strct(x.s, "el", b); Nodes o; static const char* names[] = {"l0", "l1", "l2", "l3"}; int eofs = 0;
    for (int d = 0; d < depth; d++) {
        if (d) { if (head) o.insert(o.begin(), gen::f(U8, fmt("h%d", d))); if (tail) o.push_back(gen::f(U8, fmt("t%d", d))); n = gen::strct(x.s, fmt("s%d", d), o); o.clear(); }
        if (!make_arr(ch, x.s, o, n, names[d], 8)) return;
        if (o.back().arr == A_EOF) eofs++;
        if (o.back().arr == A_FIX && o.back().n != 2) return;
    }
    x.s.body = o; x.s.body.push_back(gen::f(U8, "z")); x.text = print(x.s);
    if (!eofs && !ctx.thorough) return; // the others are in `nested`
    if (!go(x, ctx)) return;
    Chooser rc; int done = 0;
    do {
        rc.rewind(); CG g(rc, x.s, 0, 2); Run r = ref::encode(x.s, g); if (r.unspecified) { ctx.outcome("not judged"); continue; }
        string bad = compare_encode(x, ctx, r); if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.traces(); ctx.steps(r.ev.size()); ctx.outcome(r.err ? "encode stopped" : "encoded"); if (r.err) continue;
        for (int cut = 0; cut < 2; cut++) { // also without what is behind
            vector<uint8_t> m = r.bytes; if (cut) { if (m.empty()) continue; m.pop_back(); }
            Run d = ref::decode(x.s, m); if (d.unspecified) { ctx.outcome("not judged"); continue; }
            bad = compare_decode(x, ctx, m, d); if (!bad.empty()) { fail2(ctx, bad); return; }
            ctx.traces(); ctx.outcome(d.err ? "decode stopped" : "decoded");
        }
    } while (++done < 60 && rc.next());
    ctx.nontrivial();
}
struct Fixed : Gen { uint32_t n; string t; uint64_t c = 0; uint64_t raw(const Node& nd, Ty, int bits) override { if (!nd.name.empty() && nd.name.back() == 'n') return n; c = c * 31 + 7; return c & (bits >= 64 ? ~0ull : (1ull << bits) - 1); } string text(const Node&) override { return t; } uint32_t count(const Node&) override { return n; } };
static bool both(Prep& x, Ctx& ctx, Gen& g, int raw) {
    Run r = ref::encode(x.s, g); if (r.unspecified) { ctx.outcome("not judged"); return true; }
    string bad = compare_encode(x, ctx, r, 0xA5, raw);
    if (bad.empty() && r.err == 0) { Run d = ref::decode(x.s, r.bytes); if (!d.unspecified) bad = compare_decode(x, ctx, r.bytes, d, raw); }
    if (!bad.empty()) { fail2(ctx, bad.substr(0, 3000)); return false; }
    ctx.traces(2); ctx.steps(r.ev.size()); ctx.outcome(r.err ? fmt("ends with %s", impl::err_name(r.err)) : "size handled"); return true;
}
// Counts around the prefix widths
static void sizes(Chooser& ch, Ctx& ctx) {
    static const vector<uint32_t> N = {0, 1, 2, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 70000};
    static const vector<Ty> T = {U8, I8, U16, BOOL};
    Ty t = ch.of(T); int kind = (int)ch.pick(8); uint32_t n = ch.of(N); bool be = ch.flag();
    Prep x; x.s.file_endian = be ? 1 : -1; Node v = gen::f(t, "v"); uint64_t top = ~0ull;
    if (kind < 3) { v = gen::arr(v, A_PRE, 0, "", 1 << kind); top = kind == 0 ? 255 : kind == 1 ? 65535 : ~0u; }
    else if (kind < 6) { Ty ct = kind == 3 ? U8 : kind == 4 ? U16 : U32; x.s.body.push_back(gen::f(ct, "vn")); v = gen::arr(v, A_DYN, 0, "vn"); top = kind == 3 ? 255 : kind == 4 ? 65535 : ~0u; }
    else { if (!n || n > 65535) return; v = gen::arr(v, kind == 6 ? A_FIX : A_COUNT, n); }
    if (n > top) return;
    x.s.body.push_back(v); x.s.body.push_back(gen::f(U16, "z")); x.text = print(x.s);
    if (!ctx.begin(x.text + fmt("count %u", n)) || !prepare(x, ctx)) return;
    for (int raw = 0; raw < (t == U8 || t == I8 ? 2 : 1); raw++) {
        struct F : Fixed { Ty t; uint64_t raw(const Node& nd, Ty ty, int b) override { uint64_t v = Fixed::raw(nd, ty, b); return t == BOOL && nd.ty == BOOL ? v & 1 : v; } } g; g.n = n; g.t = t;
        if (!both(x, ctx, g, raw)) return;
    }
    ctx.nontrivial();
}
// Every announced count against data of every length: the array ends with the data or after the announced elements
static void announced(Chooser& ch, Ctx& ctx) {
    static const vector<const char*> L = {"u8", "i8", "u16", "bool", "strz", "str8", "structu"};
    Prep x; Nodes b; gen::atom(ch.of(L)).add(x.s, b, "v"); Node n = b[0]; if (n.ty == STR) n = gen::strct(x.s, "el", {n});
    int k = (int)ch.pick(4); n.name = "v";
    if (k == 3) { x.s.body.push_back(gen::f(U8, "vn")); n = gen::arr(n, A_DYN, 0, "vn"); } else n = gen::arr(n, A_PRE, 0, "", 1 << k);
    n.name = "v"; bool tail = ch.flag(); x.s.body.push_back(n); if (tail) x.s.body.push_back(gen::f(U8, "z"));
    if (!go(x, ctx)) return;
    int w = k == 3 ? 1 : 1 << k;
    static const vector<uint32_t> big = {256, 257, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x01000000};
    vector<uint32_t> counts; for (uint32_t i = 0; i < 256; i++) counts.push_back(i); if (w == 2) { counts.push_back(256); counts.push_back(257); counts.push_back(65535); } if (w == 4) for (uint32_t v : big) counts.push_back(v);
    for (uint32_t c : counts) for (size_t len = 0; len <= 9; len++) for (int pat = 0; pat < 2; pat++) {
        vector<uint8_t> d; for (int i = 0; i < w; i++) d.push_back((uint8_t)(c >> (8 * i)));
        for (size_t i = 0; i < len; i++) d.push_back(pat ? (uint8_t)(i % 2) : 0);
        Run r = ref::decode(x.s, d); if (r.unspecified) { ctx.outcome("not judged"); continue; }
        for (int raw = 0; raw < 2; raw++) {
            string bad = compare_decode(x, ctx, d, r, raw); if (bad.empty() || raw == 0 ? false : false) {}
            if (raw && r.err && !bad.empty()) { // the bulk path may notice earlier that the data is short
                impl::RunOpts o; o.raw_ok = true; impl::Result i = impl::decode(x.p, r, d, o); if (i.err == r.err) bad.clear();
            }
            if (!bad.empty()) { fail2(ctx, bad); return; }
            ctx.traces(); ctx.outcome(r.err ? fmt("announced count ends with %s", impl::err_name(r.err)) : "announced count processed");
        }
        ctx.steps(r.ev.size());
    }
    ctx.nontrivial();
}
// Keys whose numbers look like any opcode, in front of and inside of empty and full arrays
static void keys(Chooser& ch, Ctx& ctx) {
    uint32_t off = ch.pick(ctx.thorough ? 520 : 256); int el = (int)ch.pick(6); int kind = (int)ch.pick(3);
    static const char* E[] = {"u16", "switch", "str8", "apstruct", "expr", "enum8"};
    Prep x; Nodes b; gen::atom(E[el]).add(x.s, b, "v"); b.push_back(gen::f(U8, "w"));
    Node n = gen::strct(x.s, "el", b); n = kind == 0 ? gen::arr(n, A_PRE) : kind == 1 ? gen::arr(n, A_DYN, 0, "cn") : gen::arr(n, A_EOF); n.name = "v";
    for (uint32_t i = 0; i < off; i++) x.s.body.push_back(gen::f(U8, fmt("k%u", i)));
    if (kind == 1) { Node c = gen::f(U8, "cn"); c.has_range = true; c.rlo = "0"; c.rhi = "2"; c.rl = 0; c.rh = 2; x.s.body.push_back(c); }
    x.s.body.push_back(n); if (kind != 2) x.s.body.push_back(gen::f(U8, "z"));
    x.text = print(x.s);
    if (!ctx.begin(fmt("%u fields k0.. before:\n", off) + x.text) || !prepare(x, ctx)) return;
    explore(x, ctx, 0, 2, 20);
}
// Strings of every kind at lengths around their limits
static void strings(Chooser& ch, Ctx& ctx) {
    static const vector<int> M = {0, 1, 2, 7, 254, 255, 256, 1000, 65535};
    int kind = (int)ch.pick(6); int m = kind == 0 || kind == 5 ? ch.of(M) : 255; int place = (int)ch.pick(4); bool be = ch.flag();
    if ((kind == 0 || kind == 5) && m == 0) return;
    Prep x; x.s.file_endian = be ? 1 : -1; Node v = gen::str("v", kind, m);
    if (place == 1) { v = gen::strct(x.s, "s", {gen::f(U8, "h"), v}); v.name = "sv"; }
    if (place == 2) { v = gen::strct(x.s, "s", {v}); v = gen::arr(v, A_PRE); v.name = "av"; }
    if (place == 3) { if (!kind) return; v = gen::arr(v, A_FIX, 2); }
    x.s.body = {v, gen::f(U16, "z")};
    if (!go(x, ctx)) return;
    vector<size_t> L = {0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 65534, 65535};
    if (kind >= 3 && kind != 5) { L.push_back(65536); L.push_back(70001); }
    for (int d = -1; d <= 2; d++) if (m + d >= 0) L.push_back((size_t)(m + d));
    for (size_t l : L) {
        if (kind == 2 && l > 255) continue;
        if (kind == 3 && l > 65535) continue;
        Fixed g; g.n = 2; g.t.clear(); for (size_t i = 0; i < l; i++) g.t += (char)('a' + i % 23);
        if (!both(x, ctx, g, 0)) return;
    }
    ctx.nontrivial();
}
// Strings longer than their limit: either encoding is refused, or the string is cut at its limit and everything else is as it was
static void overlong(Chooser& ch, Ctx& ctx) {
    static const vector<int> M = {1, 2, 7, 254, 255, 256, 1000};
    int kind = (int)ch.pick(5); if (kind == 1) kind = 5; bool pre = kind >= 2 && kind <= 3; int m = kind == 0 || kind == 5 ? ch.of(M) : kind == 2 ? 255 : 65535; if (kind == 4) return;
    int place = (int)ch.pick(4); bool be = ch.flag();
    Prep x; x.s.file_endian = be ? 1 : -1; Node v = gen::str("v", kind, m);
    if (place == 1) { v = gen::strct(x.s, "s", {gen::f(U8, "h"), v}); v.name = "sv"; }
    if (place == 2) { v = gen::strct(x.s, "s", {v, gen::f(U8, "t")}); v = gen::arr(v, A_PRE); v.name = "av"; }
    if (place == 3) { if (!pre) return; v = gen::arr(v, A_FIX, 2); }
    x.s.body = {v, gen::f(U16, "z")};
    if (!go(x, ctx)) return;
    for (size_t l : {(size_t)m + 1, (size_t)m + 2, (size_t)m + 3, 2 * (size_t)m, 2 * (size_t)m + 1, 2 * (size_t)m + 2, (size_t)m + 255, (size_t)m + 256, (size_t)m + 257, (size_t)m + 65535, (size_t)m + 65536, (size_t)m + 65537}) {
        if (l <= (size_t)m) continue;
        Fixed g; g.n = 2; for (size_t i = 0; i < l; i++) g.t += (char)('a' + i % 23);
        Run r = ref::encode(x.s, g);
        for (size_t more : {(size_t)0, (size_t)1, l}) {
            impl::Result i = impl::encode(x.p, r, r.bytes.size() + more); ctx.evals();
            if (i.err == CND_ERR_OK && (!i.complaint.empty() || i.cursor != r.bytes.size() || !std::equal(r.bytes.begin(), r.bytes.end(), i.bytes.begin()))) { ctx.fail(fmt("a string of %zu characters with limit %d is neither refused nor cut at its limit: %zu bytes, expected %zu", l, m, i.cursor, r.bytes.size()), i.complaint); return; }
            ctx.traces(); ctx.outcome(i.err ? "over-long string refused" : "over-long string cut");
        }
        ctx.steps(r.ev.size());
    }
    ctx.nontrivial();
}
// Strings on the wire: every short byte string over {NUL, a, 0xFF}, and long ones without an end
static void string_wire(Chooser& ch, Ctx& ctx) {
    static const vector<int> M = {1, 2, 3, 255};
    int kind = (int)ch.pick(6); int m = kind == 0 || kind == 5 ? ch.of(M) : 255; bool arr = ch.flag(), tail = ch.flag(); if (arr && !kind) return;
    Prep x; Node v = gen::str("v", kind, m); if (arr) v = gen::arr(v, A_FIX, 2); x.s.body = {v}; if (tail) x.s.body.push_back(gen::f(U8, "z"));
    if (!go(x, ctx)) return;
    int w = kind == 2 ? 1 : kind == 3 ? 2 : kind == 4 ? 4 : 0;
    static const uint8_t al[] = {0, 'a', 0xFF, 2};
    vector<vector<uint8_t>> D; int maxlen = ctx.thorough ? 7 : 6;
    for (int len = 0; len <= maxlen; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 4; if (len > 5 && !ctx.thorough) { tot = 1 << len; } for (int c = 0; c < tot; c++) { vector<uint8_t> d; int q = c; for (int i = 0; i < len; i++) { int b = len > 5 && !ctx.thorough ? 2 : 4; d.push_back(al[q % b]); q /= b; } D.push_back(d); } }
    for (size_t l : {250, 254, 255, 256, 257, 300, 600}) for (int e = 0; e < 2; e++) { vector<uint8_t> d(l, 'q'); if (e) d.push_back(0); if (w == 1) d.insert(d.begin(), (uint8_t)std::min<size_t>(l, 255)); if (w == 2) { d.insert(d.begin(), (uint8_t)(l >> 8)); d.insert(d.begin(), (uint8_t)l); } D.push_back(d); }
    for (auto& d : D) {
        Run r = ref::decode(x.s, d); if (r.unspecified) { ctx.outcome("not judged"); continue; }
        string bad = compare_decode(x, ctx, d, r); if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.traces(); ctx.steps(r.ev.size()); ctx.outcome(r.err ? fmt("string data ends with %s", impl::err_name(r.err)) : "string delivered");
    }
    ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C09"; bool th = is_thorough(argc, argv);
    o.rule = "Every schema atom as element (directly and in element structs) of every array kind (fixed, @count, 1/2/4 byte prefix, field-counted, read-to-end) in five places, all counts 0..3; arrays nested 2 (thorough: 3) deep in every mixture of kinds with all counts 0..2 at each level; nesting 6..8 deep with each level empty; arrays of every kind, also read-to-end, 2 to 3 (thorough: 4) deep with fields around, with all counts 0..2; counts around every prefix width; every announced count 0..255 and boundary counts against data of 0..9 bytes; up to 255 (thorough: 519) keys before an array so that key numbers take every opcode value; strings of every kind at all lengths around their limits, and longer than the limit by 1..65537; all byte strings up to 6 (thorough: 7) bytes over an alphabet as string data; each with hosts that take and refuse bulk transfer. Compared with the reference interpreter event by event";
    vector<mc::Family> f = { {"elements", elements}, {"nested 2", [](Chooser& c, Ctx& x) { nested(c, x, 2); }}, {"deep", deep}, {"hollow", hollow}, {"sizes", sizes}, {"announced", announced}, {"key numbers", keys}, {"strings", strings}, {"over-long strings", overlong}, {"string data", string_wire} };
    if (th) f.push_back({"nested 3", [](Chooser& c, Ctx& x) { nested(c, x, 3); }});
    return mc::main_driver(argc, argv, o, f);
}
