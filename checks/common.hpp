// Schema families shared by several checks
#pragma once
#include "gen.hpp"
#include "impl.hpp"
#include <cmath>
#include <algorithm>
#include "mc.hpp"
using namespace ref;
using mc::Chooser; using mc::Ctx; using mc::fmt; using mc::hex;
using std::string; using std::vector;

struct Prep { Schema s; string text, il; impl::Program p; };

// The same schema in another spelling (aliases of types and decorators, other order and notation) is the same program
inline bool respelled(Prep& x, Ctx& ctx) {
    if (x.text.size() > 20000 || print(x.s) != x.text) return true;
    int was = x.s.style; x.s.style = x.text.size() % 2 ? SP_ALIAS | SP_DECO | SP_ROTATE : SP_ALL; string t = print(x.s), il; x.s.style = was; int r = impl::compile(t, il, ctx.scratch);
    if (r != 0) { ctx.fail("another spelling of a well-formed schema does not compile", t); return false; }
    if (il != x.il) { ctx.fail("another spelling of the schema compiles to another program", t); return false; }
    return true;
}

// Compiles and loads a well-formed schema; anything else than success is reported
inline bool prepare(Prep& x, Ctx& ctx) {
    int r = impl::compile(x.text, x.il, ctx.scratch);
    if (r != 0) { ctx.fail("well-formed schema does not compile", fmt("result %d", r)); return false; }
    if (!x.p.load(x.il)) { ctx.fail("compiled image does not load"); return false; }
    return respelled(x, ctx);
}

// Pairs of names that are easily taken for one: equal under a common hash (with equal length), or different in one character, case or the length only
inline const vector<std::pair<string, string>>& close_names() {
    static vector<std::pair<string, string>> v; if (!v.empty()) return v;
    typedef uint32_t (*H)(const string&);
#define POLY(name, m, init, op) static_cast<H>([](const string& s) -> uint32_t { uint32_t h = init; for (unsigned char c : s) h = (h * m) op c; return h; })
    static const H hs[] = { POLY(djb2, 33u, 5381u, +), POLY(djb2x, 33u, 5381u, ^), POLY(java, 31u, 0u, +), POLY(k37, 37u, 0u, +), POLY(bkdr, 131u, 0u, +), POLY(sdbm, 65599u, 0u, +), POLY(fnv1, 16777619u, 2166136261u, ^),
        [](const string& s) -> uint32_t { uint32_t h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h; },
        [](const string& s) -> uint32_t { uint32_t h = ~0u; for (unsigned char c : s) { h ^= c; for (int k = 0; k < 8; k++) h = h >> 1 ^ (h & 1 ? 0xEDB88320u : 0); } return ~h; },
        [](const string& s) -> uint32_t { uint32_t a = 1, b = 0; for (unsigned char c : s) { a = (a + c) % 65521; b = (b + a) % 65521; } return b << 16 | a; },
        [](const string& s) -> uint32_t { uint32_t h = 0; for (unsigned char c : s) { h += c; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; return h + (h << 15); },
        [](const string& s) -> uint32_t { uint32_t h = 0; for (unsigned char c : s) { h = (h << 4) + c; uint32_t g = h & 0xF0000000u; if (g) h ^= g >> 24; h &= ~g; } return h; },
        [](const string& s) -> uint32_t { uint32_t h = 0; for (unsigned char c : s) h += c; return h; }, [](const string& s) -> uint32_t { uint32_t h = 0; for (unsigned char c : s) h = (h << 5 | h >> 27) ^ c; return h; },
        [](const string& s) -> uint32_t { uint32_t h = 0; for (unsigned char c : s) h ^= c; return h; }, [](const string& s) -> uint32_t { return (unsigned char)s[0] << 8 | (unsigned char)s.back(); } };
#undef POLY
    static const char C[] = "xabcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; const uint32_t n = sizeof C - 1;
    for (H h : hs) for (int width = 0; width < 2; width++) { // the whole hash; its lower half
        std::map<uint32_t, string> seen; int found = 0; for (uint32_t i = 0; found < 2 && i < 400000; i++) {
            uint32_t k = i * 2654435761u % 14776336u; string s = "x"; for (int j = 0; j < 4; j++) { s += C[k % n]; k /= n; } // five characters in a scattered but fixed order
            uint32_t q = h(s); if (width) q &= 0xFFFF; auto it = seen.find(q); if (it == seen.end()) seen[q] = s; else if (it->second != s) { v.push_back({it->second, s}); found++; seen.erase(it); } } }
    v.push_back({"xEz", "xFY"}); v.push_back({"name", "Name"}); v.push_back({"name", "NAME"}); v.push_back({"abc", "acb"}); v.push_back({"a_b", "ab_"});
    for (int len : {8, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255}) {
        string a(len, 'n'); for (int i = 1; i < len; i++) a[i] = (char)('a' + i % 26); for (int at : {0, 1, len / 2, len - 2, len - 1}) { string b = a; b[at] = 'Q'; v.push_back({a, b}); } v.push_back({a, a.substr(0, len - 1)}); v.push_back({a, a.substr(1)}); v.push_back({a, a + "_"}); string c = a; c[len / 3] = (char)(c[len / 3] - 32); v.push_back({a, c}); }
    return v;
}

enum Fam { SINGLE, PAIR, TRIPLE, NEST, QUAD };
inline const char* FIELD_NAMES[] = {"f0", "f1", "f2", "f3"};

// All sequences of n atoms; `modes`: 1 default endianness, 2: also big endian, 3: also the decorator after the structs
inline bool pick_sequence(Chooser& ch, int n, int modes, Schema& s, int exclude = 0) {
    const auto& A = gen::atoms();
    int m = (int)ch.pick(modes);
    s.file_endian = m == 0 ? -1 : 1; s.endian_after = m == 2;
    for (int i = 0; i < n; i++) {
        const auto& a = A[ch.pick((uint32_t)A.size())];
        if ((a.flags & gen::LAST) && i + 1 < n) return false;
        if (a.flags & exclude) return false;
        a.add(s, s.body, FIELD_NAMES[i]);
    }
    return true;
}

// Every element atom inside every container (arrays of every kind, structs, unaligned structs, switch, if), nested twice if depth is 2
inline bool wrap(Chooser& ch, Schema& s, Node& n, const string& name, vector<Node>& before) {
    switch (ch.pick(9)) {
        case 0: n.name = "e"; n = gen::strct(s, name, {gen::f(U8, "h"), n, gen::f(U16, "t")}); return true;
        case 1: n.name = "e"; n = gen::strct(s, name, {n}); n.endian = 1; return true;
        case 2: if (n.arr != A_NONE || (n.ty == STR && !n.strk)) return false; n = gen::arr(n, A_FIX, 2); n.name = name; return true;
        case 3: if (n.arr != A_NONE || n.ty == STR) return false; n = gen::arr(n, A_PRE, 0, "", 1); n.name = name; return true;
        case 4: if (n.arr != A_NONE || n.ty == STR) return false; n = gen::arr(n, A_PRE, 0, "", 2); n.name = name; return true;
        case 5: {
            if (n.arr != A_NONE || (n.ty == STR && !n.strk)) return false;
            Node c = gen::f(U8, name + "n"); c.has_range = true; c.rlo = "0"; c.rhi = "2"; c.rl = 0; c.rh = 2;
            before.push_back(c); n = gen::arr(n, A_DYN, 0, name + "n"); n.name = name; return true;
        }
        case 6: { // array of a struct that holds it
            n.name = "e"; n = gen::arr(gen::strct(s, name, {n, gen::f(U8, "t")}), A_FIX, 2); return true;
        }
        case 7: {
            Node k = gen::f(U8, name + "k"); k.has_range = true; k.rlo = "0"; k.rhi = "2"; k.rl = 0; k.rh = 2;
            n.name = name + "e";
            Node w; w.k = Node::SWITCH; w.ref = name + "k"; w.labels = {"1", "2"}; w.lvals = {1, 2}; w.bodies = {{n}, {gen::f(U16, name + "o")}};
            n = gen::strct(s, name, {k, w, gen::f(U8, "t")}); n.name = name; return true;
        }
        default: {
            Node k = gen::f(U8, name + "k"); k.has_range = true; k.rlo = "0"; k.rhi = "1"; k.rl = 0; k.rh = 1;
            n.name = name + "e";
            Node w; w.k = Node::IF; w.conds = {e_bin("==", e_ref(name + "k"), e_int(1))}; w.blocks = {{n}, {gen::f(U16, name + "o"), gen::f(U8, name + "p")}};
            n = gen::strct(s, name, {k, w}); n.name = name; return true;
        }
    }
}
inline bool pick_nested(Chooser& ch, int depth, Schema& s) {
    const auto& A = gen::atoms();
    s.file_endian = ch.flag() ? 1 : -1;
    const auto& a = A[ch.pick((uint32_t)A.size())];
    if (!(a.flags & gen::ELEM) ) return false;
    Nodes leaf; a.add(s, leaf, "v");
    if (leaf.size() != 1) return false;
    Node n = leaf[0];
    for (int d = 0; d < depth; d++) {
        vector<Node> before;
        if (!wrap(ch, s, n, fmt("w%d", d), before)) return false;
        if (!before.empty()) {
            if (d + 1 < depth) { before.push_back(n); n = gen::strct(s, fmt("wr%d", d), before); n.name = fmt("x%d", d); }
            else for (auto& b : before) s.body.push_back(b);
        }
    }
    s.body.push_back(n);
    s.body.push_back(gen::f(U16, "after"));
    return true;
}

inline string result_str(const impl::Result& r, bool enc) {
    return fmt("implementation: %s, cursor %zu%s%s%s", impl::err_name(r.err), r.cursor, enc ? (", bytes " + hex(r.bytes)).c_str() : "", r.complaint.empty() ? "" : "; ", r.complaint.c_str());
}

// Decodes `data` and compares with the reference decoder. Empty: they agree
inline string compare_decode(Prep& x, Ctx& ctx, const vector<uint8_t>& data, const Run& r, bool raw_ok = false, bool any_error = false) {
    impl::RunOpts o; o.raw_ok = raw_ok;
    impl::Result d = impl::decode(x.p, r, data, o);
    ctx.evals();
    string bad;
    if (!d.complaint.empty()) bad = d.complaint;
    else if (any_error ? (d.err != 0) != (r.err != 0) : d.err != r.err) bad = fmt("decode result is %s, expected %s", impl::err_name(d.err), impl::err_name(r.err));
    else if (r.err == 0 && d.cursor != r.consumed) bad = fmt("decode consumed %zu bytes, expected %zu", d.cursor, r.consumed);
    if (bad.empty()) return bad;
    return bad + "\n" + fmt("data %s, bulk transfer %s\nreference:\n%s%s", hex(data).c_str(), raw_ok ? "accepted" : "refused", gen::run_str(r).c_str(), result_str(d, false).c_str());
}
inline string first_line(const string& s) { return s.substr(0, s.find('\n')); }
// "what" of a violation: without the varying details
inline void fail2(Ctx& ctx, const string& bad) { ctx.fail(first_line(bad), bad); }

inline string compare_encode(Prep& x, Ctx& ctx, const Run& r, int fill = 0xA5, bool raw_ok = false, size_t slack = 5) {
    impl::RunOpts o; o.raw_ok = raw_ok; o.fill = fill;
    size_t cap = r.bytes.size() + slack;
    impl::Result res = impl::encode(x.p, r, cap, o);
    ctx.evals();
    string bad;
    if (!res.complaint.empty()) bad = res.complaint;
    else if (res.err != r.err) bad = fmt("encode result is %s, expected %s", impl::err_name(res.err), impl::err_name(r.err));
    else if (r.err == 0) {
        if (res.cursor != r.consumed) bad = fmt("encoded length is %zu, expected %zu", res.cursor, r.consumed);
        else if (memcmp(res.bytes.data(), r.bytes.data(), r.bytes.size()) != 0) bad = "encoded bytes differ";
        else for (size_t i = r.bytes.size(); i < cap; i++) if (res.bytes[i] != fill) bad = "bytes after the message were changed";
    }
    if (bad.empty()) return bad;
    return bad + "\n" + fmt("buffer filled with %02X, bulk transfer %s\nrecord and reference:\n%s%s", fill, raw_ok ? "accepted" : "refused", gen::run_str(r).c_str(), result_str(res, true).c_str());
}

using Explore = std::function<void(Prep&, Ctx&, int budget, int width)>;
// The schema enumerations: sequences of atoms and nestings
inline bool pick_unaligned(Chooser&, int, Schema&, int* = nullptr);
inline void schema_families(vector<mc::Family>& f, bool th, Explore ex, int exclude = 0, int qb = 3, bool light = false) {
    auto go = [ex](Ctx& ctx, Prep& x, int budget, int width) {
        x.text = print(x.s);
        if (!ctx.begin(x.text)) return;
        if (prepare(x, ctx)) ex(x, ctx, budget, width);
    };
    auto seq = [=](int n, int modes, int b, int w) { return [=](Chooser& ch, Ctx& ctx) { Prep x; if (pick_sequence(ch, n, modes, x.s, exclude)) { go(ctx, x, b, w); if (n == 1) ctx.sample(x.text); } }; };
    auto nest = [=](int d, int b) { return [=](Chooser& ch, Ctx& ctx) { Prep x; if (pick_nested(ch, d, x.s)) go(ctx, x, b, 3); }; };
    f.push_back({"single", seq(1, light ? 2 : 3, light ? 6 : 8, light ? 4 : 5)});
    f.push_back({"pairs", seq(2, light ? 2 : 3, th ? 5 : qb, 3)});
    f.push_back({"nest1", nest(1, 6)});
    f.push_back({"nest2", nest(2, th ? 6 : qb)});
    f.push_back({"packed", [=](Chooser& ch, Ctx& ctx) { Prep x; pick_unaligned(ch, th && !light ? 3 : th || !light ? 2 : 1, x.s); go(ctx, x, 2, 3); }});
    if (th) {
        f.push_back({"nest3", nest(3, 3)});
        f.push_back({"triples", seq(3, light ? 1 : 2, 2, 3)});
    }
}
// Structs whose members are packed bit by bit: sequences of k fields, arrays, paddings, fillings and conditionals
inline bool pick_unaligned(Chooser& ch, int k, Schema& s, int* rest) { // rest: not completed to whole bytes, gets the number of bits in the last one or -1
    enum { ITEMS = 18 };
    s.file_endian = ch.flag() ? 1 : -1; int use = (int)ch.pick(4);
    Nodes b; b.push_back(gen::f(U8, "n")); b.back().has_range = false; int bits = 8; bool known = true;
    for (int i = 0; i < k; i++) {
        string x = fmt("b%d", i); Node q;
        switch (ch.pick(ITEMS)) {
            case 0: b.push_back(gen::f(U8, x, 3)); bits += 3; break;
            case 1: b.push_back(gen::f(I16, x, 9)); bits += 9; break;
            case 2: b.push_back(gen::f(BOOL, x)); bits += 1; break;
            case 3: b.push_back(gen::f(U16, x)); bits += 16; break;
            case 4: b.push_back(gen::f(I32, x)); bits += 32; break;
            case 5: b.push_back(gen::f(U64, x)); bits += 64; break;
            case 6: q.k = Node::FILL; q.val = 1; b.push_back(q); bits = 0; break;
            case 7: q.k = Node::FILL; q.val = 0; b.push_back(q); bits = 0; break;
            case 8: q.k = Node::PAD; q.val = 3; b.push_back(q); bits += 3; break;
            case 9: q.k = Node::PAD; q.val = 13; b.push_back(q); bits += 13; break;
            case 10: b.push_back(gen::arr(gen::f(U8, x, 3), A_FIX, 3)); bits = 0; break; // arrays align
            case 11: b.push_back(gen::arr(gen::f(I8, x, 5), A_COUNT, 2)); bits = 0; break;
            case 12: b.push_back(gen::arr(gen::f(U8, x, 4), A_DYN, 0, "n")); bits = 0; break;
            case 13: b.push_back(gen::arr(gen::f(U16, x), A_FIX, 2)); bits = 0; break;
            case 14: q.k = Node::IF; q.conds = {e_bin("==", e_ref("n"), e_int(1))}; q.blocks = {{gen::f(U8, x + "y", 4)}, {gen::f(U8, x + "z", 12 - 8)}}; b.push_back(q); known = false; break;
            case 15: q.k = Node::SWITCH; q.ref = "n"; q.labels = {"0", "1"}; q.lvals = {0, 1}; q.bodies = {{gen::f(U16, x + "y", 12)}, {gen::f(U8, x + "z", 2)}}; b.push_back(q); known = false; break;
            case 16: b.push_back(gen::f(U32, x, 31)); bits += 31; break;
            default: b.push_back(gen::f(I64, x, 33)); bits += 33; break;
        }
    }
    bits %= 8;
    if (rest) *rest = known ? bits : -1; else if (known) { if (bits) b.push_back(gen::f(U8, "r", 8 - bits)); } else if (ch.flag()) { Node q; q.k = Node::FILL; q.val = 1; b.push_back(q); }
    Node u = gen::strct(s, "u", b, true);
    if (use == 1) { s.body = {gen::arr(u, A_FIX, 2)}; } else if (use == 2) { Node o = gen::strct(s, "o", {gen::f(U16, "h"), u, gen::f(U8, "t")}); s.body = {gen::f(U8, "p"), gen::arr(o, A_PRE)}; } else s.body = {u};
    if (use != 3) s.body.push_back(gen::f(U16, "after")); else s.body = {gen::f(U8, "n"), u, u}, s.body[2].name = "u2";
    return true;
}
// Schemas with very many of one construct. kind < MANY_KINDS
enum { MANY_KINDS = 21 };
inline bool pick_many(Chooser& ch, bool thorough, Schema& s, string& note, int maxn = 1 << 30) {
    static const vector<int> Q = {1, 2, 127, 128, 129, 254, 255, 256, 257, 300, 1000}, T = {3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 511, 512, 513, 767, 1023, 1024, 1025, 3000};
    vector<int> N = Q; if (thorough) N.insert(N.end(), T.begin(), T.end());
    N.erase(std::remove_if(N.begin(), N.end(), [=](int v) { return v > maxn; }), N.end());
    int kind = (int)ch.pick(MANY_KINDS), n = ch.of(N); s.file_endian = ch.flag() ? 1 : -1; note = fmt("// kind %d, %d of them\n", kind, n);
    static const Ty C[] = {U8, I16, U32, U64, F32, BOOL, I8, U16};
    auto lim = [](Node k, uint64_t hi) { k.has_range = true; k.rlo = "0"; k.rhi = fmt("%llu", (unsigned long long)hi); k.rl = 0; k.rh = hi; return k; };
    Node w; vector<int64_t> v;
    switch (kind) {
        case 0: for (int i = 0; i < n; i++) s.body.push_back(gen::f(C[i % 8], fmt("f%d", i))); break;
        case 1: if (n > 300) return false; for (int i = 0; i < n; i++) s.body.push_back(gen::strct(s, fmt("s%d", i), {gen::f(C[i % 8], "a"), gen::f(U8, fmt("b%d", i % 3))})); break;
        case 2: for (int i = 0; i < n; i++) v.push_back(i * 3); s.body.push_back(gen::en(s, "e", U16, v)); break;
        case 3: case 4: s.body.push_back(lim(gen::f(U16, "k"), (uint64_t)n * (kind == 4 ? 50 : 1))); w.k = Node::SWITCH; w.ref = "k"; for (int i = 0; i < n; i++) { uint64_t l = (uint64_t)i * (kind == 4 ? 50 : 1); w.labels.push_back(fmt("%d", (int)l)); w.lvals.push_back(l); w.bodies.push_back({gen::f(C[i % 4], fmt("c%d", i))}); } s.body.push_back(w); break;
        case 5: s.body.push_back(gen::arr(gen::f(U16, "a"), A_FIX, (uint32_t)n)); break;
        case 6: for (int i = 0; i < n; i++) s.body.push_back(gen::f(i % 2 ? U8 : I16, fmt("b%d", i), 3)); break;
        case 7: s.body.push_back(lim(gen::f(U16, "k"), (uint64_t)n)); for (int i = 0; i < n; i++) { Node q; q.k = Node::IF; q.conds = {e_bin("==", e_ref("k"), e_int((uint64_t)i))}; q.blocks = {{gen::f(C[i % 4], fmt("c%d", i))}}; s.body.push_back(q); } break;
        case 8: if (n > 255) return false; s.body.push_back(gen::f(U8, string((size_t)n, 'n'))); s.body.push_back(gen::f(U8, string((size_t)n, 'n').substr(1) + "m")); break;
        case 9: for (int i = 0; i < n; i++) { Node c = gen::f(U16, fmt("c%d", i)); c.has_const = true; c.cval = (uint64_t)i; c.ctext = fmt("%d", i); s.body.push_back(c); } break;
        case 10: s.body.push_back(gen::arr(gen::strct(s, "e", {gen::f(U8, "a"), gen::f(I32, "b")}), A_FIX, (uint32_t)n)); break;
        case 12: if (n > 300) return false; for (int i = 0; i < n; i++) s.body.push_back(gen::en(s, fmt("e%d", i), i % 2 ? U8 : I16, {i % 100, i % 100 + 1 + i % 7})); break;
        case 13: for (int i = 0; i < n; i++) { Node q = gen::strct(s, fmt("s%d", i), {gen::f(C[i % 8], fmt("a%d", i % 11))}); if (i < 2 || i >= n - 2 || (i >= 126 && i <= 130) || (i >= 253 && i <= 258) || i % 100 == 7) s.body.push_back(q); } break;
        case 14: for (int i = 0; i < n; i++) { Node q = gen::f(C[i % 8], fmt("o%d", i)); q.optional = true; s.body.push_back(q); } s.body.insert(s.body.begin(), gen::f(U16, "before")); return true;
        case 15: if (n > 300) return false; for (int i = 0; i < n; i++) s.body.push_back(gen::str(fmt("t%d", i), 1 + i % 4, 255)); break;
        case 16: if (n > 300) return false; s.body.push_back(gen::f(U8, "k")); for (int i = 0; i < n; i++) { Node q = gen::f(C[1 + i % 3], fmt("x%d", i)); q.expr = e_bin("+", e_ref(i && i % 5 == 0 ? fmt("x%d", i - 1) : "k"), e_int((uint64_t)i)); s.body.push_back(q); } break;
        case 17: { if (n > 300) return false; Node q = gen::strct(s, "one", {gen::f(U8, "a"), gen::f(I16, "b")}); for (int i = 0; i < n; i++) { q.name = fmt("u%d", i); s.body.push_back(q); } break; }
        case 18: { s.body.push_back(gen::f(U8, "k")); EP e = e_ref("k"); for (int i = 0; i < n; i++) e = e_bin(i % 2 ? "-" : "+", e, e_int((uint64_t)(i * 37 % 1000))); Node q = gen::f(I32, "x"); q.expr = e; s.body.push_back(q); break; }
        case 19: { if (n > 130) return false; Nodes in = {gen::f(U16, "leaf")}; for (int i = 0; i < n; i++) { Node q; q.k = Node::IF; q.conds = {e_bin("!=", e_ref("k"), e_int((uint64_t)i))}; q.blocks = {in, {gen::f(U8, fmt("e%d", i))}}; in = {q, gen::f(U8, fmt("s%d", i))}; } s.body.push_back(lim(gen::f(U8, "k"), (uint64_t)n)); for (auto& q : in) s.body.push_back(q); break; }
        case 20: { if (n > 60) { if (n > 128) return false; n = n == 127 ? 60 : 63; } Node q = gen::f(U8, "v"); for (int i = 0; i < n; i++) { q = gen::strct(s, fmt("d%d", i), i % 3 ? Nodes{q, gen::f(U8, "w")} : Nodes{q}); q.name = fmt("m%d", i % 4); } s.body.push_back(q); break; }
        default: if (n > 300) return false; for (int i = 0; i < n; i++) { Node c = lim(gen::f(U8, fmt("n%d", i)), 2); s.body.push_back(c); s.body.push_back(gen::arr(gen::f(U8, fmt("a%d", i)), A_DYN, 0, fmt("n%d", i))); } break;
    }
    s.body.push_back(gen::f(U16, "after"));
    return true;
}
// Paddings of every width at every place in a byte, one or two in a row, and what follows
inline bool pick_padding(Chooser& ch, bool thorough, Schema& s) {
    s.file_endian = ch.flag() ? 1 : -1; bool un = ch.flag(); int off = (int)ch.pick(8), w = 1 + (int)ch.pick(255), next = (int)ch.pick(thorough ? 5 : 3);
    if (un && next == 4) return false;
    if (!thorough && w > 66 && w % 8 > 1 && w < 247 && (w + off) % 3) return false;
    Nodes b; if (off) b.push_back(gen::f(U8, "o", off));
    Node p; p.k = Node::PAD; p.val = w; b.push_back(p); int bits = off + w;
    if (next == 0) b.push_back(gen::f(U8, "n", 3)), bits += 3;
    if (next == 1) b.push_back(gen::f(U16, "n", 13)), bits += 13;
    if (next == 2) { Node q = p; q.val = 1 + (w * 5) % 255; b.push_back(gen::f(BOOL, "n", 1)); b.push_back(q); bits += 1 + q.val; b.push_back(gen::f(U64, "m", 57)); bits += 57; }
    if (next == 3) { Node q = p; q.val = 256 - w > 255 ? 255 : 256 - w; b.push_back(q); bits += q.val; b.push_back(gen::f(I8, "m", 5)); bits += 5; }
    if (next == 4) b.push_back(gen::f(U32, "n"));
    if (un) { if (bits % 8) b.push_back(gen::f(U8, "r", 8 - bits % 8)); s.body = {gen::strct(s, "u", b, true)}; } else s.body = b;
    s.body.push_back(gen::f(U16, "after"));
    return true;
}
// A body whose instructions have exactly `bytes` bytes (from 60 on). Few names: a struct is used again and again
inline size_t code_size(const Schema& s, Ctx& ctx) { Prep x; x.s = s; x.text = print(s); if (!prepare(x, ctx)) return 0; return x.p.prog.bytecode_len; }
inline bool pick_long_body(Ctx& ctx, Schema& s, int bytes, const string& p, Nodes& out) {
    auto big = [](const string& n) { Node f = gen::f(U64, n); f.has_range = true; f.rlo = "0"; f.rhi = "18446744073709551615"; f.rl = 0; f.rh = ~0ull; return f; };
    Nodes ten; for (int i = 0; i < 10; i++) ten.push_back(big(fmt("t%d", i)));
    static int cs = 0, cb = 0, cu = 0; // what each costs
    if (!cu) {
        auto cost = [&](int k) { Schema q; auto one = [&](const string& n) { return k == 0 ? gen::strct(q, "ten", ten) : k == 1 ? gen::f(U8, n, 8) : gen::f(U8, n); }; Node a = one("a"), b = one("b"); a.name = "a"; b.name = "b"; q.body = {a}; size_t x = code_size(q, ctx); q.body = {a, b}; return (int)(code_size(q, ctx) - x); };
        cs = cost(0); cb = cost(1); cu = cost(2);
    }
    if (cs < 1 || cb < 1 || cu < 1) return false;
    int m = std::max(0, (bytes - 60) / cs), rest = bytes - m * cs, r = 0;
    while (rest >= 0 && rest % cu) { rest -= cb; r++; }
    if (rest < 0) return false;
    for (int i = 0; i < m; i++) { Node n = gen::strct(s, "ten", ten); n.name = fmt("%ss%d", p.c_str(), i); out.push_back(n); }
    for (int i = 0; i < r; i++) out.push_back(gen::f(U8, fmt("%sb%d", p.c_str(), i), 8));
    for (int i = 0; i < rest / cu; i++) out.push_back(gen::f(U8, fmt("%su%d", p.c_str(), i)));
    return true;
}
// A construct with one branch of a given length of code, around the powers of two. vals: discriminators to try
enum { LONG_KINDS = 13 };
inline bool pick_long_branch(Chooser& ch, Ctx& ctx, Schema& s, vector<uint64_t>& vals) {
    static const vector<int> P = {128, 256, 32768, 65536}, T = {127, 255, 32767, 65535, 131072, 200000};
    vector<int> N = P; if (ctx.thorough) N.insert(N.end(), T.begin(), T.end());
    int kind = (int)ch.pick(LONG_KINDS), at = ch.of(N), d = (int)ch.pick(ctx.thorough ? 34 : 10); s.file_endian = ch.flag() ? 1 : -1;
    if (!ctx.thorough && s.file_endian == 1 && at > 256) return false;
    Nodes b; if (!pick_long_body(ctx, s, at - (ctx.thorough ? d - 4 : d), "l", b)) return false;
    Node w; auto c = [](uint64_t v) { return e_bin("==", e_ref("k"), e_int(v)); }; Nodes x = {gen::f(U16, "x")}, y = {gen::f(U32, "y")}, z = {gen::f(U8, "z")};
    vals = {0, 1, 2, 3, 4, 200}; if (!ctx.thorough && at > 256) vals = {0, 1, kind == 6 || kind == 7 ? 200ull : 2ull};
    switch (kind) {
        case 0: w.k = Node::IF; w.conds = {c(1)}; w.blocks = {b}; break;
        case 1: w.k = Node::IF; w.conds = {c(1)}; w.blocks = {b, x}; break;
        case 2: w.k = Node::IF; w.conds = {c(1)}; w.blocks = {x, b}; break;
        case 3: w.k = Node::IF; w.conds = {c(1), c(2)}; w.blocks = {x, b, y}; break;
        case 4: w.k = Node::IF; w.conds = {c(1), c(2)}; w.blocks = {b, x, y}; break;
        case 5: w.k = Node::IF; w.conds = {c(1), c(2)}; w.blocks = {x, y, b}; break;
        case 6: case 7: case 8: case 9: { // first case, second case, dense and sparse, with default
            bool dense = kind >= 8; w.k = Node::SWITCH; w.ref = "k"; w.labels = dense ? vector<string>{"1", "2", "3", "4", ""} : vector<string>{"1", "200", ""}; w.lvals = dense ? vector<uint64_t>{1, 2, 3, 4, 0} : vector<uint64_t>{1, 200, 0};
            w.bodies = dense ? vector<Nodes>{x, y, {}, x, z} : vector<Nodes>{x, y, z}; for (size_t i = 0; i < w.bodies.size(); i++) for (auto& n : w.bodies[i]) n.name += fmt("%zu", i);
            w.bodies[kind % 2] = b; w.def = (int)w.bodies.size() - 1; break; }
        case 10: w.k = Node::SWITCH; w.ref = "k"; w.labels = {"1", "2", ""}; w.lvals = {1, 2, 0}; w.bodies = {x, y, b}; w.def = 2; break;
        case 11: w.k = Node::SWITCH; w.ref = "k"; w.labels = {"", "1", "2", "3"}; w.lvals = {0, 1, 2, 3}; w.bodies = {b, y, x, z}; w.def = 0; break;
        default: { Node in; in.k = Node::IF; in.conds = {c(2)}; in.blocks = {b, z}; w.k = Node::IF; w.conds = {e_bin(">", e_ref("k"), e_int(1))}; w.blocks = {{in, gen::f(U8, "q")}, x}; break; }
    }
    s.body = {gen::f(U8, "k"), w, gen::f(U16, "after")};
    return true;
}
inline bool is_thorough(int argc, char** argv) { for (int i = 1; i < argc; i++) if (string(argv[i]) == "thorough") return true; return false; }
inline bool has_byte_array(const string& text) {
    for (size_t i = text.find("int8 "); i != string::npos; i = text.find("int8 ", i + 1)) { size_t e = text.find(';', i); if (text.substr(i, e - i).find('[') != string::npos) return true; }
    return false;
}
