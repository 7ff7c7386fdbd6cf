#include "common.hpp"
#include "isa.hpp"
#include <set>
static void names_of(const Schema& s, const Nodes& ns, const string& pre, std::set<string>& out) {
    for (auto& n : ns) {
        if (n.k == Node::FIELD && !n.crc) { out.insert(pre + n.name); if (n.ty == STRUCT) names_of(s, s.find_struct(n.tname)->f, pre + n.name + ".", out); }
        for (auto& b : n.bodies) names_of(s, b, pre, out);
        for (auto& b : n.blocks) names_of(s, b, pre, out);
    }
}
// The image holds exactly the qualified names and every key of the program names one of them
static string static_check(Prep& x) {
    std::set<string> want; if (x.s.alias.empty()) names_of(x.s, x.s.body, "", want); else names_of(x.s, x.s.find_struct(x.s.alias)->f, "", want);
    std::set<string> have;
    for (auto& n : x.p.names) if (!have.insert(n).second) return "two keys with the same name\n" + n;
    for (auto& n : want) if (!have.count(n) ) { bool used = true; (void)used; return "a field has no key of its own\n" + n; }
    for (auto& n : have) if (!want.count(n) && n != x.s.packet) return "a name that is no field of the packet\n" + n;
    vector<uint8_t> b(x.p.prog.bytecode, x.p.prog.bytecode + x.p.prog.bytecode_len); isa::Prog m = isa::parse(b); bool packet = false;
    for (auto& i : m.ins) for (size_t k : i.keys) {
        unsigned key = b[k] | b[k + 1] << 8; if (key >= x.p.names.size()) return fmt("key %u of the program is not in the table", key);
        if (i.op == OP_META_NAME) { if (x.p.names[key] != x.s.packet) return "the packet has another name\n" + x.p.names[key]; packet = true; }
        else if (!want.count(x.p.names[key])) return "an instruction uses a name that is no field\n" + x.p.names[key];
    }
    if (!packet) return "the packet has no name";
    if (x.p.prog.string_count && cnd_get_key_id(&x.p.prog, x.s.packet.c_str()) == 0xFFFF) return "the packet's name is not in the table";
    return "";
}
static bool explore(Prep& x, Ctx& ctx, int budget, int limit, uint32_t cmax = 2) {
    string bad = static_check(x); ctx.evals(); ctx.steps(x.p.names.size());
    if (!bad.empty()) { fail2(ctx, bad); return false; }
    ctx.outcome("names checked");
    Chooser rc; int done = 0;
    do {
        rc.rewind(); DomGen g(rc, x.s, budget, false, 3); g.max_count = cmax; g.longtext = 8; Run r = ref::encode(x.s, g);
        if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        bad = compare_encode(x, ctx, r); if (bad.empty()) { Run d = ref::decode(x.s, r.bytes); if (!d.unspecified) bad = compare_decode(x, ctx, r.bytes, d); }
        if (!bad.empty()) { fail2(ctx, bad); return false; }
        ctx.traces(2); ctx.steps(r.ev.size()); ctx.outcome("every field under its name");
    } while (rc.next() && ++done < limit);
    ctx.nontrivial(); return true;
}
static bool go(Prep& x, Ctx& ctx) { x.text = print(x.s); return ctx.begin(x.text) && prepare(x, ctx); }
// Every pair of atoms as the members of a struct that is used at two levels and twice, with the same names outside
static void members(Chooser& ch, Ctx& ctx) {
    const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())]; const auto& b = A[ch.pick((uint32_t)A.size())]; int shape = (int)ch.pick(ctx.thorough ? 4 : 2); if (!ctx.thorough) shape = shape ? 3 : 1;
    if ((a.flags | b.flags) & gen::LAST) return;
    Prep x; Nodes m; a.add(x.s, m, "f"); b.add(x.s, m, "g");
    Node s1 = gen::strct(x.s, "one", m); s1.name = "p";
    if (shape == 0) x.s.body = {s1};
    else if (shape == 1) { Node s2 = s1; s2.name = "q"; Node s3 = gen::strct(x.s, "two", {gen::f(U8, "f"), s1, s2}); s3.name = "p"; x.s.body = {gen::f(U8, "g"), s3, s1}; x.s.body[2].name = "f"; }
    else if (shape == 2) { Node s3 = gen::strct(x.s, "two", {s1}); s3.name = "p"; Node s4 = gen::strct(x.s, "three", {s3, gen::f(U16, "q")}); s4.name = "p"; x.s.body = {s4}; }
    else { Node v = gen::arr(s1, A_FIX, 2); v.name = "v"; Node s3 = gen::strct(x.s, "two", {v}); s3.name = "p"; x.s.body = {s3, gen::f(U8, "v")}; Node s4 = gen::arr(s3, A_PRE); s4.name = "w"; x.s.body.push_back(s4); }
    if (go(x, ctx)) explore(x, ctx, 1, ctx.thorough ? 20 : 3);
}
// References of every kind in every scope; the same names exist in the other scopes with other values
static void references(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(7), depth = (int)ch.pick(3), where = (int)ch.pick(3), reuse = (int)ch.pick(2), before = (int)ch.pick(3);
    Prep x; Nodes m; Node n = gen::f(U8, "n"); n.has_range = true; n.rlo = "0"; n.rhi = "2"; n.rl = 0; n.rh = 2;
    if (before == 1) m.push_back(gen::f(U16, "x")); if (before == 2) { m.push_back(gen::f(U8, "nn")); m.push_back(gen::f(U8, "n_")); }
    m.push_back(n);
    switch (kind) {
        case 0: { Node a = gen::arr(gen::f(U16, "v"), A_DYN, 0, "n"); a.name = "v"; m.push_back(a); break; }
        case 1: { Node w; w.k = Node::SWITCH; w.ref = "n"; w.labels = {"0", "1"}; w.lvals = {0, 1}; w.bodies = {{gen::f(U8, "a")}, {gen::f(U16, "b")}}; m.push_back(w); break; }
        case 2: { Node w; w.k = Node::IF; w.conds = {e_bin("==", e_ref("n"), e_int(1))}; w.blocks = {{gen::f(U8, "a")}, {gen::f(U16, "b")}}; m.push_back(w); break; }
        case 3: { Node c = gen::f(U32, "c"); c.expr = e_bin("+", e_bin("*", e_ref("n"), e_int(100)), e_ref("n")); m.push_back(c); break; }
        case 4: { Node w; w.k = Node::SWITCH; w.ref = "n"; w.labels = {"0", "1", "2", "5", ""}; w.lvals = {0, 1, 2, 5, 0}; w.bodies = {{gen::f(U8, "a")}, {gen::f(U16, "b")}, {gen::f(U8, "c")}, {}, {gen::f(U32, "d")}}; w.def = 4; m.push_back(w); break; }
        case 5: { Node c = gen::f(U32, "c"); c.expr = e_bin("+", e_ref("n"), e_int(1)); m.push_back(c); Node d = gen::f(U32, "d"); d.expr = e_bin("*", e_ref("c"), e_ref("n")); m.push_back(d); break; }
        case 6: { Node a = gen::arr(gen::strct(x.s, "el", {n, gen::arr(gen::f(U8, "v"), A_DYN, 0, "n")}), A_DYN, 0, "n"); a.name = "v"; x.s.structs[0].f[1].name = "v"; m.push_back(a); break; }
    }
    Node s = gen::strct(x.s, "in", m); s.name = "n";
    if (where == 1) { Node v = gen::arr(s, A_FIX, 2); v.name = "n"; s = v; }
    if (where == 2) { Node v = gen::arr(s, A_PRE); v.name = "n"; s = v; }
    Nodes cur = {s}; if (reuse) { Node s2 = s; s2.name = "n2"; cur.push_back(s2); }
    for (int d = 0; d < depth; d++) { Node o = gen::strct(x.s, fmt("o%d", d), cur); o.name = d ? "n" : "v"; cur = {o}; if (d == 0) cur.insert(cur.begin(), n); }
    if (depth == 0) { for (auto& q : m) x.s.body.push_back(q); for (auto& q : cur) { q.name = "z" + q.name; x.s.body.push_back(q); } } else x.s.body = cur;
    if (go(x, ctx)) explore(x, ctx, ctx.thorough ? 6 : 5, ctx.thorough ? 800 : 250);
}
// Every member atom behind so many other names that key numbers take every value
static void offsets(Chooser& ch, Ctx& ctx) {
    static const vector<const char*> E = {"u16", "switch", "switcht", "apstruct", "expr", "enum8", "const16", "str8", "scale", "if", "crc32", "adyn", "poly", "spline", "range16"};
    uint32_t off = ch.pick(ctx.thorough ? 600 : 260); const auto& A = gen::atoms(); const char* want = ch.of(E); bool ok = false; for (auto& a : A) ok = ok || !strcmp(a.name, want); if (!ok) return;
    int place = (int)ch.pick(2);
    Prep x; for (uint32_t i = 0; i < off; i++) x.s.body.push_back(gen::f(U8, fmt("k%u", i)));
    Nodes m; gen::atom(want).add(x.s, m, "f"); m.push_back(gen::f(U8, "t")); Node s = gen::strct(x.s, "in", m); s.name = "s";
    if (place) { Nodes o = x.s.body; o.push_back(s); x.s.body = {gen::strct(x.s, "out", o)}; x.s.body[0].name = "o"; } else { x.s.body.push_back(s); Node s2 = s; s2.name = "s2"; x.s.body.push_back(s2); }
    x.text = print(x.s);
    if (!ctx.begin(fmt("%u fields before, place %d:\n", off, place) + x.text) || !prepare(x, ctx)) return;
    explore(x, ctx, 0, 1);
}
// Names of many shapes and lengths
static void spellings(Chooser& ch, Ctx& ctx) {
    static const vector<string> N = {"a", "A", "_", "a1", "abc", "ab", "self_", "x_y_z", "count_", "uint", "P", "S_in", string(63, 'n'), string(64, 'n'), string(127, 'm'), string(128, 'm'), string(255, 'l'), string(256, 'l'), string(600, 'k')};
    string a = ch.of(N), b = ch.of(N); int shape = (int)ch.pick(3); if (a == b && shape != 1) return;
    Prep x; Node s = gen::strct(x.s, "in", {gen::f(U8, a), shape == 1 ? gen::f(U16, "other") : gen::f(U16, b)}); s.name = a;
    if (shape == 0) x.s.body = {s, gen::f(U8, b)};
    if (shape == 1) { Node o = gen::strct(x.s, "out", {s, gen::f(U8, b + "2")}); o.name = b; Node o2 = gen::strct(x.s, "top", {o}); o2.name = a; x.s.body = {o2}; x.s.packet = a == "P" ? "Q" : "P"; }
    if (shape == 2) { Node o = s; o.name = b; x.s.body = {s, o}; x.s.packet = "Pkt_" + a; }
    if (go(x, ctx)) explore(x, ctx, 2, 4);
}
// Names that are easily taken for one
static void close(Chooser& ch, Ctx& ctx) {
    const auto& p = ch.of(close_names()); int shape = (int)ch.pick(6); bool turn = ch.flag(); string a = turn ? p.second : p.first, b = turn ? p.first : p.second; Prep x; 
    if (shape == 0) x.s.body = {gen::f(U8, a), gen::f(U16, b)};
    if (shape == 1) { Node s = gen::strct(x.s, "in", {gen::f(U8, a), gen::f(U16, b)}); s.name = "s"; x.s.body = {s, gen::f(U8, b)}; }
    if (shape == 2) { Node s = gen::strct(x.s, a, {gen::f(U8, "v")}), t = gen::strct(x.s, b, {gen::f(U16, "v"), gen::f(U8, "w")}); s.name = a; t.name = b; x.s.body = {t, s}; }
    if (shape == 3) { Node s = gen::en(x.s, a, U8, {0, 1, 5}), t = gen::en(x.s, b, U16, {2, 3, 500}); s.name = "v"; t.name = "w"; x.s.body = {s, t}; }
    if (shape == 4) { Node s = gen::en(x.s, "e", U8, {0, 5}); x.s.enums[0].m[0].first = a; x.s.enums[0].m[1].first = b; s.name = "k"; Node w; w.k = Node::SWITCH; w.ref = "k"; w.labels = {x.s.enums[0].name + "." + b, x.s.enums[0].name + "." + a}; w.lvals = {5, 0}; w.bodies = {{gen::f(U8, "p")}, {gen::f(U16, "q")}}; x.s.body = {s, w}; }
    if (shape == 5) { Node c = gen::f(U32, "c"); c.expr = e_bin("+", e_bin("*", e_ref(a), e_int(3)), e_ref(b)); Node v = gen::arr(gen::f(U16, "v"), A_DYN, 0, b); v.name = "v"; x.s.body = {gen::f(U8, a), gen::f(U8, b), c, v}; x.s.body[1].has_range = true; x.s.body[1].rlo = "0"; x.s.body[1].rhi = "2"; x.s.body[1].rh = 2; }
    if (go(x, ctx)) explore(x, ctx, 2, 6);
}
// Names put together from long parts
static void long_paths(Chooser& ch, Ctx& ctx) {
    int n = 1 + (int)ch.pick(127), parts = 2 + (int)ch.pick(4), kind = (int)ch.pick(2);
    string names[6]; for (int i = 0; i < parts; i++) names[i] = string(1, (char)('a' + i)) + string(n - 1, (char)('p' + i)); Prep x; string path = names[0]; for (int i = 1; i < parts; i++) path += "." + names[i];
    if (path.size() > 255) return; // reported as too long, see C16
    Node v = gen::f(U8, names[parts - 1]); v.has_range = true; v.rlo = "0"; v.rhi = "3"; v.rh = 3; Node in = v; for (int i = parts - 2; i >= 0; i--) { in = gen::strct(x.s, fmt("s%d", i), {in, gen::f(U16, "w")}); in.name = names[i]; } x.s.body = {in};
    if (kind == 0) { Node c = gen::f(U32, "c"); c.expr = e_bin("+", e_bin("*", e_ref(path), e_int(3)), e_ref(path)); x.s.body.push_back(c); }
    else { Node w; w.k = Node::IF; w.conds = {e_bin("==", e_ref(path), e_int(1))}; w.blocks = {{gen::f(U8, "p")}, {gen::f(U16, "q")}}; x.s.body.push_back(w); }
    if (go(x, ctx)) explore(x, ctx, 1, 6);
}
// Deep nesting and large tables
static void large(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(2); Prep x;
    if (kind == 0) { int depth = 1 + (int)ch.pick(ctx.thorough ? 60 : 24); Node n = gen::f(U8, "v"); for (int d = 0; d < depth; d++) { n = gen::strct(x.s, fmt("s%d", d), {n, gen::f(U8, "w")}); n.name = d % 2 ? "v" : fmt("lvl%d", d); } x.s.body = {n}; }
    else { static const vector<int> C = {10, 60, 255, 256, 257}; int inner = ch.of(C), outer = ch.of(C); if ((long)inner * outer > (ctx.thorough ? 60000 : 16000)) return; Nodes m; for (int i = 0; i < inner; i++) m.push_back(gen::f(U8, fmt("m%d", i))); Node s = gen::strct(x.s, "in", m); for (int i = 0; i < outer; i++) { s.name = fmt("s%d", i); x.s.body.push_back(s); } }
    x.text = print(x.s); if (!ctx.begin(x.text.size() > 3000 ? x.text.substr(0, 3000) + "..." : x.text) || !prepare(x, ctx)) return;
    explore(x, ctx, 0, 1);
}
static void alias(Chooser& ch, Ctx& ctx) {
    const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())]; int lvl = (int)ch.pick(2);
    Prep x; Nodes m; a.add(x.s, m, "f"); if (lvl) { if (a.flags & gen::LAST) return; Node s = gen::strct(x.s, "in", m); s.name = "f"; m = {s, gen::f(U8, "g")}; }
    gen::strct(x.s, "all", m); x.s.alias = "S_all"; x.s.packet = "Alias";
    if (go(x, ctx)) explore(x, ctx, 3, 20);
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C15"; bool th = is_thorough(argc, argv);
    o.rule = "Every pair of atoms as members of a struct reused on three levels with the same names outside; references of seven kinds in every scope with the same names elsewhere; 0..259 (thorough: 599) keys before every operand-carrying construct in a struct; 19 x 19 field names of different shapes and lengths; nesting 24 (thorough: 60) deep and up to 16000 (60000) keys; packets defined from structs; about 240 pairs of names that are equal under one of 16 common hash functions (whole or lower half) or differ in one character, case or length, for fields, members, structs, enums, enum members and references; dotted references of 2-5 parts of together up to 255 characters (in expressions and conditions). The string table must hold exactly the qualified names once, every key operand must name a field, and a host that checks every name follows all records; schemas with very many of each of 21 constructs (counts around powers of two)";
    o.assumptions = {"names are checked through the reference schema's own qualification rule: outer field name, dot, inner field name"};
    vector<mc::Family> f = { {"members", members}, {"references", references}, {"key numbers", offsets}, {"spellings", spellings}, {"close names", close}, {"long paths", long_paths}, {"large", large}, {"packet from struct", alias} };
    vector<mc::Family> g; schema_families(g, th, [](Prep& x, Ctx& c, int, int) { explore(x, c, 0, 1); }, 0, 1, true);
    for (auto& q : g) if (th || q.name != "pairs") f.push_back(q);
    f.push_back({"very many", [=](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, 0, 1); }});
    return mc::main_driver(argc, argv, o, f);
}
