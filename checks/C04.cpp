#include "common.hpp"
// encode -> decode -> encode with the host's own values as the oracle
static void explore(Prep& x, Ctx& ctx, int budget, int width) {
    Chooser rc; int raws = has_byte_array(x.text) ? 2 : 1;
    do {
        rc.rewind();
        DomGen g(rc, x.s, budget, false, width);
        Run r = ref::encode(x.s, g);
        if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        for (int raw = 0; raw < raws; raw++) {
            impl::RunOpts o; o.raw_ok = raw;
            impl::Result e = impl::encode(x.p, r, r.bytes.size() + 64, o);
            ctx.evals();
            if (e.err || !e.complaint.empty()) { ctx.fail("encoding a valid record fails", gen::run_str(r) + result_str(e, true)); return; }
            vector<uint8_t> b(e.bytes.begin(), e.bytes.begin() + e.cursor);
            Run want = r;
            for (auto& v : want.ev) if (v.op == OP_ARR_EOF) v.bits = 0xFFFFFFFFu;
            vector<Ev> got; o.rec = &got;
            impl::Result d = impl::decode(x.p, want, b, o);
            ctx.evals();
            string bad;
            if (!d.complaint.empty()) bad = "decoding delivers something else";
            else if (d.err) bad = fmt("decoding the encoded message fails with %s", impl::err_name(d.err));
            else if (d.cursor != b.size()) bad = fmt("decoding consumed %zu of %zu bytes", d.cursor, b.size());
            if (!bad.empty()) { ctx.fail(bad, "message " + hex(b) + "\nrecord:\n" + gen::run_str(want) + result_str(d, false)); return; }
            // Encode what was delivered
            Run again = want; again.ev = got;
            size_t gi = 0;
            for (auto& v : again.ev) { (void)gi; if (v.op == OP_ARR_EOF) for (; gi < r.ev.size(); gi++) if (r.ev[gi].op == OP_ARR_EOF) { v.bits = r.ev[gi++].bits; break; } }
            o.rec = nullptr;
            impl::Result e2 = impl::encode(x.p, again, b.size() + 64, o);
            ctx.evals();
            if (e2.err || !e2.complaint.empty() || e2.cursor != b.size() || memcmp(e2.bytes.data(), b.data(), b.size())) { ctx.fail("encoding the decoded record gives other bytes", "message " + hex(b) + "\n" + gen::run_str(again) + result_str(e2, true)); return; }
            ctx.traces(); ctx.steps(r.ev.size());
            if (r.ev.size() > 2) ctx.nontrivial();
            ctx.outcome(raw ? "round trip with bulk transfer" : "round trip");
        }
    } while (rc.next());
}
// Bit fields of every width and type, alone and in pairs, packed with what follows
static void bits(Chooser& ch, Ctx& ctx, int k) {
    static const int W[] = {1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 40, 48, 57, 63, 64};
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1; bool un = ch.flag(); Nodes b; int total = 0;
    for (int i = 0; i < k; i++) {
        int w = k == 1 ? 1 + (int)ch.pick(64) : W[ch.pick(19)]; bool sg = ch.flag(); total += w;
        Ty t = w <= 8 ? (sg ? I8 : U8) : w <= 16 ? (sg ? I16 : U16) : w <= 32 ? (sg ? I32 : U32) : (sg ? I64 : U64);
        if (k == 1 && ch.flag()) t = sg ? I64 : U64;
        b.push_back(gen::f(t, fmt("b%d", i), w));
    }
    if (un && total % 8) b.push_back(gen::f(U8, "r", 8 - total % 8));
    if (un) x.s.body.push_back(gen::strct(x.s, "u", b, true)); else x.s.body = b;
    x.s.body.push_back(gen::f(U16, "after"));
    x.text = print(x.s);
    if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) explore(x, ctx, 3, 4);
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C04";
    o.rule = "All sequences of schema atoms up to length 2 (thorough: 3) in little and big endian, every element atom in every container nested to depth 2 (thorough: 3), bit fields of every width and type and all pairs of 19 widths; paddings of every width (1 to 255) at every place in a byte; schemas with very many of each of 21 constructs; every record over the value domains is encoded, decoded against the host's own values in order, and the delivered values are encoded again; with and without bulk transfer";
    o.assumptions = {"records use boundary values per field and not the full range"};
    vector<mc::Family> f;
    schema_families(f, is_thorough(argc, argv), explore);
    f.push_back({"bit fields of every width", [](Chooser& c, Ctx& x) { bits(c, x, 1); }});
    f.push_back({"pairs of bit fields", [](Chooser& c, Ctx& x) { bits(c, x, 2); }});
    f.push_back({"padding", [](Chooser& c, Ctx& x) { Prep p; if (!pick_padding(c, x.thorough, p.s)) return; p.text = print(p.s); if (x.begin(p.text) && prepare(p, x)) explore(p, x, 2, 2); }});
    f.push_back({"very many", [](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, 1, 3); }});
    return mc::main_driver(argc, argv, o, f);
}
