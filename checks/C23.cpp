#include "common.hpp"
// An error at every callback, in both directions
static void explore(Prep& x, Ctx& ctx, int budget, int width) {
    Chooser rc; unsigned turn = 0; int raws = has_byte_array(x.text) ? 2 : 1;
    bool optstr = x.text.find("@optional string") != string::npos;
    do {
        rc.rewind();
        DomGen g(rc, x.s, budget, false, width); g.longtext = 12;
        Run r = ref::encode(x.s, g);
        if (r.unspecified || r.err) { ctx.outcome("not judged"); continue; }
        Run rd = ref::decode(x.s, r.bytes);
        for (int raw = 0; raw < raws; raw++) for (int enc = 0; enc < 2; enc++) {
            impl::RunOpts o; o.raw_ok = raw; o.fill = 0xA5;
            const Run& want = enc ? r : rd;
            size_t cap = r.bytes.size() + 4;
            impl::Result clean = enc ? impl::encode(x.p, want, cap, o) : impl::decode(x.p, want, r.bytes, o);
            ctx.evals();
            if (clean.err || !clean.complaint.empty()) { ctx.fail("run without host error fails", gen::run_str(want) + result_str(clean, enc)); return; }
            for (int j = 0; j < 2 * clean.ncb; j++) { // with the code that is meant for it, and with others
                static const int codes[] = {CND_ERR_OOB, CND_ERR_INVALID_OP, CND_ERR_VALIDATION, 0x100, CND_ERR_STACK_OVERFLOW, CND_ERR_STACK_UNDERFLOW, CND_ERR_CRC_MISMATCH, CND_ERR_ARITHMETIC, 9, 255, -1, 0x10000, INT32_MIN};
                int i = j / 2; o.fail_at = i; o.fail_code = j % 2 ? codes[turn++ % (sizeof codes / sizeof *codes)] : CND_ERR_CALLBACK;
                impl::Result e = enc ? impl::encode(x.p, want, cap, o) : impl::decode(x.p, want, r.bytes, o);
                ctx.evals();
                if (e.err == 0 && !e.host_failed) { ctx.outcome("bulk transfer refused instead"); continue; }
                string where = fmt("host error %d at callback %d of %d (%s)\n", o.fail_code, i, clean.ncb, enc ? "encode" : "decode");
                if (enc && optstr && e.pos < want.ev.size() && want.ev[e.pos].k == Ev::TEXT) { ctx.outcome("absent optional string"); continue; }
                if (!e.host_failed) { ctx.fail("callbacks differ from the run without error", where + gen::run_str(want) + result_str(e, enc)); return; }
                if (!e.complaint.empty()) { fail2(ctx, e.complaint + "\n" + where + gen::run_str(want) + result_str(e, enc)); return; }
                if (e.err != CND_ERR_CALLBACK) { ctx.fail(fmt("a host error ends with %s", impl::err_name(e.err)), where + gen::run_str(want) + result_str(e, enc)); return; }
                if (enc) {
                    // Bytes of the fields before
                    size_t p = e.pos;
                    size_t full = p < want.ev.size() ? want.ev[p].wire_pos : r.bytes.size();
                    size_t lo = full;
                    if (e.fail_query) { // asked between two fields: what is silently written in between may be there or not
                        lo = 0; for (size_t q = 0; q < p && q < want.ev.size(); q++) if (!want.ev[q].silent_enc) lo = want.ev[q].wire_pos;
                        if (e.cursor >= lo && e.cursor <= full) full = e.cursor;
                    }
                    bool part = p < want.ev.size() && want.ev[p].partial;
                    if (memcmp(e.bytes.data(), r.bytes.data(), full)) { ctx.fail("bytes of the fields before the error are not there", where + gen::run_str(want) + result_str(e, enc)); return; }
                    if (e.cursor != full && !(part && e.cursor == full + 1)) { ctx.fail("length after a host error is not that of the fields before", fmt("expected %zu, ", full) + where + gen::run_str(want) + result_str(e, enc)); return; }
                    for (size_t k = full + (part ? 1 : 0); k < cap; k++) if (e.bytes[k] != 0xA5) { ctx.fail("bytes of the field with the error or behind it were written", fmt("byte %zu, ", k) + where + gen::run_str(want) + result_str(e, enc)); return; }
                }
                ctx.outcome(enc ? "encode stopped at the error" : "decode stopped at the error");
                ctx.traces(); ctx.steps((uint64_t)i + 1);
            }
            if (clean.ncb > 2) ctx.nontrivial();
        }
    } while (rc.next());
}
// Loop nesting: `depth` arrays in each other through structs, for every mixture of array kinds
static void loops(Chooser& ch, Ctx& ctx, int max_depth) {
    int depth = 1 + (int)ch.pick((uint32_t)max_depth);
    Prep x; x.s.file_endian = -1;
    Node n = gen::f(U8, "v");
    int kinds = 0;
    for (int d = 0; d < depth; d++) {
        int k = d < 3 || d >= depth - 2 ? (int)ch.pick(3) : d % 3;
        if (d) n = gen::strct(x.s, fmt("s%d", d), {n, gen::f(U8, "t")});
        n = k == 0 ? gen::arr(n, A_FIX, 1) : k == 1 ? gen::arr(n, A_PRE) : gen::arr(n, A_FIX, 2);
        if (k == 2 && d < depth - 1 && d > 1) n.n = 1;
        n.name = fmt("a%d", d); kinds++;
    }
    x.s.body = {n, gen::f(U8, "z")}; x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    struct G : Gen { uint64_t c = 0; uint64_t raw(const Node&, Ty, int) override { return ++c & 0xFF; } string text(const Node&) override { return ""; } uint32_t count(const Node&) override { return 1; } } g;
    Run r = ref::encode(x.s, g);
    bool over = depth > CND_MAX_LOOP_DEPTH;
    if (!over) {
        r.unspecified = false;
        string bad = compare_encode(x, ctx, r);
        if (bad.empty()) { Run d = ref::decode(x.s, r.bytes); bad = compare_decode(x, ctx, r.bytes, d); }
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.outcome("nesting within the limit");
    } else for (int enc = 0; enc < 2; enc++) {
        impl::Result e; Run d = ref::decode(x.s, r.bytes);
        if (enc) e = impl::encode(x.p, r, r.bytes.size() + 8); else e = impl::decode(x.p, d, r.bytes);
        ctx.evals();
        if (e.err != CND_ERR_OOB && e.err != CND_ERR_STACK_OVERFLOW) { ctx.fail(fmt("nesting beyond the limit ends with %s", impl::err_name(e.err)), result_str(e, enc)); return; }
        if (!e.complaint.empty()) { fail2(ctx, e.complaint); return; }
        ctx.outcome("nesting beyond the limit reported");
    }
    ctx.traces(2); ctx.steps(r.ev.size()); ctx.nontrivial();
}
// Expressions of every stack need around the limit and every shape
static void stacks(Chooser& ch, Ctx& ctx) {
    int depth = 1 + (int)ch.pick(12); int shape = (int)ch.pick(4); bool cond = ch.flag();
    EP e = e_int(1);
    for (int i = 1; i < depth; i++) {
        EP o = shape == 2 ? e_ref("a") : e_int((uint64_t)i);
        e = shape == 1 ? e_bin("+", e, o) : shape == 3 && i == 1 ? e_fn("int", {e_fn("abs", {e_ref("a")})}) : e_bin(i % 2 ? "-" : "+", o, e);
    }
    Prep x; x.s.body = {gen::f(U8, "a")};
    if (cond) { Node n; n.k = Node::IF; n.conds = {e_bin("!=", e, e_int(12345))}; n.blocks = {{gen::f(U16, "t")}}; x.s.body.push_back(n); }
    else { Node n = gen::f(U64, "x"); n.expr = e; x.s.body.push_back(n); }
    x.s.body.push_back(gen::f(U8, "z")); x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc; DomGen g(rc, x.s, 0);
    Run r = ref::encode(x.s, g);
    // Storing a computed field needs one slot more
    int need = cond ? e_stack(x.s.body[1].conds[0]) : std::max(e_stack(e), 2);
    if (need == CND_MAX_EXPR_STACK + 1 || r.unspecified) { }
    impl::Result i = impl::encode(x.p, r, 64);
    ctx.evals();
    if (need > CND_MAX_EXPR_STACK) {
        if (i.err != CND_ERR_STACK_OVERFLOW) { ctx.fail(fmt("expression beyond the stack limit ends with %s", impl::err_name(i.err)), result_str(i, true)); return; }
        ctx.outcome("expression beyond the limit reported");
    } else {
        string bad = compare_encode(x, ctx, r);
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.outcome("expression within the limit");
    }
    ctx.traces(); ctx.steps(r.ev.size()); ctx.nontrivial();
}
// Read-to-end arrays whose elements may take no bytes
static void empty_eof(Chooser& ch, Ctx& ctx) {
    int el = (int)ch.pick(6); int outer = (int)ch.pick(3); int len = (int)ch.pick(5); int v = (int)ch.pick(3);
    Prep x; Nodes b; Node n;
    Node k = gen::f(U8, "k");
    switch (el) {
        case 0: break; // empty struct
        case 1: n.k = Node::IF; n.conds = {e_bin("==", e_int(1), e_int(2))}; n.blocks = {{gen::f(U8, "q")}}; b = {n}; break;
        case 2: b = {gen::arr(gen::f(U16, "v"), A_PRE)}; break;
        case 3: n.k = Node::SWITCH; n.ref = "k"; n.labels = {"1"}; n.lvals = {1}; n.bodies = {{gen::f(U16, "q")}}; b = {k, n}; break;
        case 4: { Node e = gen::strct(x.s, "in", {}); b = {e}; break; }
        case 5: b = {gen::f(U8, "h", 4)}; break;
    }
    Node a = gen::arr(gen::strct(x.s, "el", b), A_EOF); a.name = "v";
    if (outer == 1) { a = gen::strct(x.s, "o", {gen::f(U8, "p"), a}); a.name = "oo"; }
    if (outer == 2) { a = gen::arr(gen::strct(x.s, "o", {gen::f(U8, "p"), a}), A_PRE); a.name = "oo"; }
    x.s.body = {a}; x.text = print(x.s);
    vector<uint8_t> d; for (int i = 0; i < len; i++) d.push_back((uint8_t)(v == 0 ? 0 : v == 1 ? 1 : i));
    if (!ctx.begin(x.text + "data " + hex(d)) || !prepare(x, ctx)) return;
    Run r = ref::decode(x.s, d);
    if (r.unspecified) { ctx.outcome("not judged"); return; }
    impl::Result i = impl::decode(x.p, r, d);
    ctx.evals(); ctx.traces(); ctx.steps(r.ev.size()); ctx.nontrivial();
    if ((i.err != 0) != (r.err != 0)) { ctx.fail(fmt("read-to-end array: result %s, expected %s", impl::err_name(i.err), impl::err_name(r.err)), gen::run_str(r) + result_str(i, false)); return; }
    if (!i.complaint.empty() && r.err == 0) { fail2(ctx, i.complaint + "\n" + gen::run_str(r)); return; }
    ctx.outcome(r.err ? "read-to-end array stopped with an error" : "read-to-end array ended");
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C23"; o.case_cpu_s = 30; bool th = is_thorough(argc, argv);
    o.rule = "All sequences of schema atoms up to length 2 (thorough: 3) and nestings to depth 2 (thorough: 3), every record over the value domains, both directions, with and without bulk transfer: the host reports an error at every single callback in turn, as the code meant for it and as another (13 codes in rotation); array nesting of every depth 1..10 and every mixture of kinds; expressions of every stack need 1..12 in four shapes; read-to-end arrays over every element that may be empty. Every case runs under a CPU limit; schemas with very many of each of 21 constructs (counts around powers of two)";
    o.assumptions = {"a host error at an optional string means that it is absent (tested behaviour)"};
    vector<mc::Family> f;
    schema_families(f, th, explore, 0, 1, true);
    f.push_back({"very many", [=](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note, x.thorough ? 1000 : 300)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) explore(p, x, 0, 1); }});
    f.push_back({"loop limit", [](Chooser& c, Ctx& x) { loops(c, x, 10); }});
    f.push_back({"stack limit", stacks});
    f.push_back({"empty elements", empty_eof});
    return mc::main_driver(argc, argv, o, f);
}
