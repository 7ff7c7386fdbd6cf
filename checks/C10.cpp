#include "common.hpp"
// Every truncation of every message, against the reference decoder
static bool cut(Prep& x, Ctx& ctx, const vector<uint8_t>& b, bool raws) {
    for (size_t k = 0; k <= b.size(); k++) {
        vector<uint8_t> d(b.begin(), b.begin() + k);
        Run r = ref::decode(x.s, d);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        for (int raw = 0; raw < (raws ? 2 : 1); raw++) {
            string bad = compare_decode(x, ctx, d, r, raw);
            if (!bad.empty()) { fail2(ctx, fmt("message cut to %zu of %zu bytes: ", k, b.size()) + bad); return false; }
        }
        bool miss = false; for (auto& e : r.ev) miss |= e.missing;
        ctx.outcome(r.err ? fmt("rejected with %s", impl::err_name(r.err)) : miss ? "missing fields delivered as zero" : "complete");
        ctx.traces(); ctx.steps(r.ev.size());
        if (miss) ctx.nontrivial();
    }
    return true;
}
static void run(Prep& x, Ctx& ctx, int budget, int width) {
    x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    bool raws = has_byte_array(x.text);
    Chooser rc;
    do {
        rc.rewind(); DomGen g(rc, x.s, budget, false, width); g.longtext = 12;
        Run r = ref::encode(x.s, g);
        if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        string bad = compare_encode(x, ctx, r);
        if (!bad.empty()) { fail2(ctx, bad); return; }
        if (!cut(x, ctx, r.bytes, raws)) return;
        // invalid values in present optional fields
    } while (rc.next());
    // messages with any byte: present fields keep their checks
    for (int v : {0, 1, 2, 0x7F, 0xFF}) { vector<uint8_t> d(12, (uint8_t)v); d[0] = 1; if (!cut(x, ctx, d, raws)) return; }
}
// Every way to mark the fields of a sequence as optional
static bool make_optional(Node& n) {
    if (n.k != Node::FIELD || n.ty == STRUCT) return false;
    n.optional = true; return true;
}
static void seq(Chooser& ch, Ctx& ctx, int n, int budget) {
    Prep x; if (!pick_sequence(ch, n, 2, x.s, gen::LAST | gen::OPT)) return;
    int mask = 1 + (int)ch.pick((1u << n) - 1);
    // The last field of each atom
    vector<size_t> last; size_t at = 0;
    { Schema t; for (int i = 0; i < n; i++) { (void)t; } }
    for (size_t i = 0; i < x.s.body.size(); i++) if (i + 1 == x.s.body.size() || (x.s.body[i + 1].k == Node::FIELD && x.s.body[i + 1].name.compare(0, 2, x.s.body[i].name.size() > 1 ? x.s.body[i].name.substr(0, 2) : "??") != 0)) last.push_back(i);
    (void)at; int m = 0;
    for (size_t i = 0; i < last.size(); i++) if (mask >> i & 1) { if (!make_optional(x.s.body[last[i]])) return; m++; }
    if (!m) return;
    run(x, ctx, budget, 3);
}
// Optional before something else: what follows a present or missing optional field
static void before(Chooser& ch, Ctx& ctx, int budget) {
    Prep x; const auto& A = gen::atoms();
    x.s.file_endian = ch.flag() ? 1 : -1;
    const auto& a = A[ch.pick((uint32_t)A.size())]; const auto& b = A[ch.pick((uint32_t)A.size())];
    if (!(a.flags & gen::OPT) || (b.flags & gen::LAST)) return;
    bool lead = ch.flag(); if (lead) x.s.body.push_back(gen::f(U8, "lead"));
    a.add(x.s, x.s.body, "f0"); b.add(x.s, x.s.body, "f1");
    if (ch.flag()) { Node o = gen::f(U8, "tail"); o.optional = true; x.s.body.push_back(o); }
    run(x, ctx, budget, 3);
}
// In structs, arrays of structs, switch and if
static void inside(Chooser& ch, Ctx& ctx, int budget) {
    Prep x; const auto& A = gen::atoms(); x.s.file_endian = ch.flag() ? 1 : -1;
    const auto& a = A[ch.pick((uint32_t)A.size())]; if (a.flags & (gen::LAST | gen::OPT)) return;
    int place = (int)ch.pick(5); Nodes b; a.add(x.s, b, "v");
    if (!make_optional(b.back())) return;
    if (place == 0) { b.insert(b.begin(), gen::f(U8, "h")); x.s.body = {gen::strct(x.s, "s", b)}; }
    if (place == 1) { b.insert(b.begin(), gen::f(U8, "h")); Node c = gen::arr(gen::strct(x.s, "s", b), A_FIX, 2); x.s.body = {c}; }
    if (place == 2) { Node k = gen::f(U8, "k"); Node w; w.k = Node::SWITCH; w.ref = "k"; w.labels = {"1", ""}; w.lvals = {1, 0}; w.bodies = {b, {}}; w.def = 1; x.s.body = {k, w}; }
    if (place == 3) { Node k = gen::f(BOOL, "k"); Node w; w.k = Node::IF; w.conds = {e_ref("k")}; w.blocks = {b}; x.s.body = {k, w}; }
    if (place == 4) { x.s.body = {gen::f(U8, "h")}; for (auto& n : b) x.s.body.push_back(n); Node w; w.k = Node::IF; Node& l = b.back(); if (l.ty == STR || l.arr != A_NONE || is_float(l.ty) || l.crc || l.k != Node::FIELD) return; w.conds = {e_bin("==", e_ref(l.name), e_int(0))}; Node t = gen::f(U8, "t"); t.optional = true; w.blocks = {{t}}; x.s.body.push_back(w); }
    Node o = gen::f(U16, "tail"); o.optional = true; x.s.body.push_back(o);
    run(x, ctx, budget, 3);
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C10"; bool th = is_thorough(argc, argv);
    o.rule = "Every atom and every pair (thorough: triple) of atoms with every non-empty choice of fields made optional, optional fields before every atom, and optional fields in structs, arrays, switches and conditions; for every record and five further messages, every truncation is decoded and compared with the reference decoder: result, fields, zero values of missing ones";
    o.assumptions = {"an optional array element or count follows the implementation's documented granularity: the count of a prefixed array, each element of other arrays"};
    vector<mc::Family> f = {
        {"optional 1", [](Chooser& c, Ctx& x) { seq(c, x, 1, 4); }},
        {"optional 2", [=](Chooser& c, Ctx& x) { seq(c, x, 2, th ? 3 : 1); }},
        {"optional before", [=](Chooser& c, Ctx& x) { before(c, x, th ? 4 : 2); }},
        {"optional inside", [=](Chooser& c, Ctx& x) { inside(c, x, th ? 5 : 3); }},
    };
    if (th) f.push_back({"optional 3", [=](Chooser& c, Ctx& x) { seq(c, x, 3, 1); }});
    return mc::main_driver(argc, argv, o, f);
}
