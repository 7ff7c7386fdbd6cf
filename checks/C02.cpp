#include "common.hpp"
// Every prefix of every message, every buffer size below the length
static void explore(Prep& x, Ctx& ctx, int budget, int width) {
    Chooser rc; int raws = has_byte_array(x.text) ? 2 : 1;
    do {
        rc.rewind();
        DomGen g(rc, x.s, budget, false, width); g.longtext = budget == 2 ? 300 : 20;
        Run r = ref::encode(x.s, g);
        if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        for (int raw = 0; raw < raws; raw++) {
            size_t n = r.bytes.size();
            for (size_t k = 0; k <= n; k++) {
                vector<uint8_t> pre(r.bytes.begin(), r.bytes.begin() + k);
                Run want = ref::decode(x.s, pre);
                if (!want.unspecified) {
                    string bad = compare_decode(x, ctx, pre, want, raw, true);
                    if (!bad.empty()) { fail2(ctx, fmt("prefix of %zu of %zu bytes: ", k, n) + bad); return; }
                    ctx.traces(); ctx.steps(want.ev.size());
                    if (k < n) ctx.outcome(want.err ? "prefix rejected" : "prefix accepted (optional or read to the end)");
                    else ctx.outcome("whole message");
                }
            }
            for (size_t k = 0; k < n; k++) for (int fill = 0; fill < (ctx.thorough ? 2 : 1); fill++) {
                impl::RunOpts o; o.raw_ok = raw; o.fill = fill ? 0 : 0xFF;
                impl::Result e = impl::encode(x.p, r, k, o);
                ctx.evals();
                if (e.err != CND_ERR_OOB || !e.complaint.empty()) {
                    ctx.fail(fmt("encoding into a buffer that is too small: result %s", impl::err_name(e.err)), fmt("buffer %zu of %zu bytes\n", k, n) + gen::run_str(r) + result_str(e, true)); return;
                }
                ctx.outcome("small buffer reported");
            }
            // A buffer that just fits
            string bad = compare_encode(x, ctx, r, 0x5A, raw, 0);
            if (!bad.empty()) { fail2(ctx, "buffer of the exact size: " + bad); return; }
            if (n > 1) ctx.nontrivial();
        }
    } while (rc.next());
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C02";
    o.rule = "All sequences of schema atoms up to length 2 (thorough: 3), every element atom in every container nested to depth 2 (thorough: 3); for every record over the value domains: decoding every proper prefix (in exact-size memory) must fail unless the reference decoder accepts it because only optional fields or read-to-end elements are missing, and encoding into every smaller buffer (exact-size memory, thorough: two fills) must end with the out-of-bounds error; with and without bulk transfer; schemas with very many of each of 21 constructs (counts around powers of two)";
    o.assumptions = {"accesses outside are detected by AddressSanitizer on exact-size heap blocks"};
    vector<mc::Family> f;
    schema_families(f, is_thorough(argc, argv), explore, 0, 1, true);
    f.push_back({"very many", [=](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note, x.thorough ? 1000 : 300)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, 0, 1); }});
    f.push_back({"long strings", [](Chooser& ch, Ctx& ctx) { Prep x; if (!pick_sequence(ch, 1, 2, x.s)) return; x.text = print(x.s); if (ctx.begin(x.text) && prepare(x, ctx)) explore(x, ctx, 2, 4); }});
    return mc::main_driver(argc, argv, o, f);
}
