#include "common.hpp"
// Every record of the value domain, on buffers that held 00, FF and A5, with and without bulk transfer
static void explore(Prep& x, Ctx& ctx, int budget, int width) {
    Chooser rc;
    do {
        rc.rewind();
        DomGen g(rc, x.s, budget, false, width);
        Run r = ref::encode(x.s, g);
        if (r.unspecified) { ctx.outcome("not judged"); continue; }
        for (int v = 0; v < 4; v++) {
            static const int fills[] = {0x00, 0xFF, 0xA5, 0xFF};
            impl::RunOpts o; o.fill = fills[v]; o.raw_ok = v == 3;
            size_t cap = r.bytes.size() + (v == 1 ? 0 : 5);
            impl::Result res = impl::encode(x.p, r, cap, o);
            ctx.evals();
            string bad;
            if (res.err != r.err) bad = fmt("result is %s, expected %s", impl::err_name(res.err), impl::err_name(r.err));
            else if (!res.complaint.empty()) bad = "wrong question to the host";
            else if (r.err == 0) {
                if (res.cursor != r.consumed) bad = fmt("length is %zu, expected %zu", res.cursor, r.consumed);
                else if (memcmp(res.bytes.data(), r.bytes.data(), r.bytes.size()) != 0) bad = "bytes differ";
                else for (size_t i = r.bytes.size(); i < cap; i++) if (res.bytes[i] != fills[v]) bad = fmt("byte %zu after the message was changed", i - r.bytes.size());
            }
            if (!bad.empty()) { ctx.fail("encode: " + bad, fmt("buffer filled with %02X, bulk transfer %s\nrecord and reference:\n%s%s", fills[v], v == 3 ? "accepted" : "refused", gen::run_str(r).c_str(), result_str(res, true).c_str())); return; }
        }
        ctx.traces(); ctx.steps(r.ev.size() + r.bytes.size());
        if (r.bytes.size() > 1) ctx.nontrivial();
        ctx.outcome(r.err ? fmt("encode ends with %s", impl::err_name(r.err)) : "encoded");
    } while (rc.next());
}
static void seq(Chooser& ch, Ctx& ctx, int n, int modes, int budget, int width) {
    Prep x;
    if (!pick_sequence(ch, n, modes, x.s)) return;
    x.text = print(x.s);
    if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) explore(x, ctx, budget, width);
    ctx.sample(x.text);
}
static void nest(Chooser& ch, Ctx& ctx, int depth, int budget) {
    Prep x;
    if (!pick_nested(ch, depth, x.s)) return;
    x.text = print(x.s);
    if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) explore(x, ctx, budget, 3);
}
// Bit fields: every sequence of k widths, types and byte orders, packed together
static void bits(Chooser& ch, Ctx& ctx, int k, int budget) {
    static const int W[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64};
    Prep x;
    x.s.file_endian = ch.flag() ? 1 : -1;
    bool un = ch.flag();
    Nodes b; int total = 0;
    for (int i = 0; i < k; i++) {
        int w = W[ch.pick(15)]; bool sg = ch.flag(); total += w;
        Ty t = w <= 8 ? (sg ? I8 : U8) : w <= 16 ? (sg ? I16 : U16) : w <= 32 ? (sg ? I32 : U32) : (sg ? I64 : U64);
        b.push_back(gen::f(t, fmt("b%d", i), w));
    }
    if (un && total % 8) b.push_back(gen::f(U8, "r", 8 - total % 8));
    if (un) x.s.body.push_back(gen::strct(x.s, "u", b, true)); else x.s.body = b;
    x.s.body.push_back(gen::f(U16, "after"));
    x.text = print(x.s);
    if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) explore(x, ctx, budget, 3);
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C03";
    o.rule = "All sequences of schema atoms (every scalar type, byte order override, string and array form, bit field, padding, struct, conditional, transform, check) up to length 2 (thorough: 3), every element atom in every container nested to depth 2 (thorough: 3), all sequences of bit field widths up to length 2 (thorough: 3); every record over the value domains; each encoded over three buffer contents with and without bulk transfer and compared byte by byte with the reference encoder; schemas with very many of each of 21 constructs (counts around powers of two); paddings of every width at every place in a byte";
    o.assumptions = {"records use boundary values per field and not the full range", "bit fields of different byte order within one byte are not judged"};
    bool th = argc > 1 && string(argv[1]) == "thorough";
    vector<mc::Family> f = {
        {"single", [=](Chooser& c, Ctx& x) { seq(c, x, 1, 3, 8, 5); }},
        {"pairs", [=](Chooser& c, Ctx& x) { seq(c, x, 2, 3, th ? 5 : 3, 3); }},
        {"bits1", [=](Chooser& c, Ctx& x) { bits(c, x, 1, 3); }},
        {"bits2", [=](Chooser& c, Ctx& x) { bits(c, x, 2, 3); }},
        {"nest1", [=](Chooser& c, Ctx& x) { nest(c, x, 1, 6); }},
        {"nest2", [=](Chooser& c, Ctx& x) { nest(c, x, 2, th ? 6 : 4); }},
    };
    f.push_back({"unaligned", [=](Chooser& c, Ctx& x) { Prep p; pick_unaligned(c, x.thorough ? 3 : 2, p.s); p.text = print(p.s); if (x.begin(p.text) && prepare(p, x)) explore(p, x, 3, 3); }});
    f.push_back({"padding", [](Chooser& c, Ctx& x) { Prep p; if (!pick_padding(c, x.thorough, p.s)) return; p.text = print(p.s); if (x.begin(p.text) && prepare(p, x)) explore(p, x, 2, 2); }});
    f.push_back({"very many", [=](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, 1, 3); }});
    if (th) {
        f.push_back({"bits3", [=](Chooser& c, Ctx& x) { bits(c, x, 3, 2); }});
        f.push_back({"nest3", [=](Chooser& c, Ctx& x) { nest(c, x, 3, 4); }});
        f.push_back({"triples", [=](Chooser& c, Ctx& x) { seq(c, x, 3, 2, 2, 3); }});
    }
    return mc::main_driver(argc, argv, o, f);
}
