#include "common.hpp"
#include <set>
struct G : Gen { vector<uint8_t> b; size_t i = 0; uint64_t raw(const Node&, Ty, int bits) override { uint64_t v = 0; for (int k = 0; k < (bits + 7) / 8; k++) v = v << 8 | (i < b.size() ? b[i] : 0), i++; return bits < 64 ? v & ((1ull << bits) - 1) : v; } string text(const Node&) override { return "ab"; } uint32_t count(const Node&) override { return 2; } };

static Node crc_node(int w, uint64_t poly, uint64_t init, uint64_t xo, int refl, int given, const string& name = "c") {
    Node n = gen::f(w == 16 ? U16 : U32, name); n.crc = w;
    uint32_t m = w == 16 ? 0xFFFF : 0xFFFFFFFF;
    n.cpoly = w == 16 ? 0x1021 : 0x04C11DB7; n.cinit = m; n.cxor = w == 16 ? 0 : m; n.crefin = n.crefout = w == 32;
    if (given & 1) { n.cpoly = (uint32_t)poly & m; n.crc_deco += fmt("@crc_poly(0x%X) ", n.cpoly); }
    if (given & 2) { n.cinit = (uint32_t)init & m; n.crc_deco += fmt("@crc_init(0x%X) ", n.cinit); }
    if (given & 4) { n.cxor = (uint32_t)xo & m; n.crc_deco += fmt("@crc_xor(0x%X) ", n.cxor); }
    if (refl & 1) { n.crefin = true; n.crc_deco += "@crc_refin "; }
    if (refl & 2) { n.crefout = true; n.crc_deco += "@crc_refout "; }
    return n;
}
static vector<uint8_t> payload(int kind, int len) {
    vector<uint8_t> v;
    for (int i = 0; i < len; i++) v.push_back(kind == 0 ? "123456789"[i % 9] : kind == 1 ? 0 : kind == 2 ? 0xFF : (uint8_t)(1 << (i % 8)));
    return v;
}
// All parameters
static void params(Chooser& ch, Ctx& ctx) {
    static const vector<uint64_t> P = {0x04C11DB7, 0x1021, 0x8005, 0x1EDC6F41, 1, 0x80000001, 0xFFFFFFFF, 0};
    static const vector<uint64_t> I = {0, 0xFFFFFFFF, 1, 0x80000000, 0x12345678, 0x1D0F, 0x8001};
    static const vector<uint64_t> X = {0, 0xFFFFFFFF, 0x0F0F1234};
    int w = ch.flag() ? 32 : 16; int given = (int)ch.pick(8);
    uint64_t p = given & 1 ? ch.of(P) : 0, i = given & 2 ? ch.of(I) : 0, x0 = given & 4 ? ch.of(X) : 0;
    int refl = (int)ch.pick(4); bool be = ch.flag();
    int len = (int)ch.of(vector<int>{0, 1, 2, 9, 40});
    Prep x; x.s.file_endian = be;
    if (len) x.s.body.push_back(gen::arr(gen::f(U8, "d"), A_FIX, (uint32_t)len));
    x.s.body.push_back(crc_node(w, p, i, x0, refl, given)); x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    for (int k = 0; k < (len ? 4 : 1); k++) {
        G g; g.b = payload(k, len);
        Run r = ref::encode(x.s, g);
        string bad = compare_encode(x, ctx, r, 0xA5, k == 1);
        if (bad.empty()) { Run d = ref::decode(x.s, r.bytes); bad = d.err ? "reference error" : compare_decode(x, ctx, r.bytes, d); }
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.traces(2); ctx.steps(r.bytes.size());
        ctx.outcome(w == 16 ? "CRC-16 with given parameters" : "CRC-32 with given parameters");
    }
    if (len) ctx.nontrivial();
}
// Known answers of the published catalogue, so that reference and implementation cannot be wrong alike
static void catalogue(Chooser& ch, Ctx& ctx) {
    struct K { const char* n; int w; uint32_t poly, init, xo; int refl; uint32_t check; };
    static const vector<K> C = {
        {"CRC-16/CCITT-FALSE", 16, 0x1021, 0xFFFF, 0, 0, 0x29B1}, {"CRC-16/XMODEM", 16, 0x1021, 0, 0, 0, 0x31C3}, {"CRC-16/KERMIT", 16, 0x1021, 0, 0, 3, 0x2189},
        {"CRC-16/ARC", 16, 0x8005, 0, 0, 3, 0xBB3D}, {"CRC-16/MODBUS", 16, 0x8005, 0xFFFF, 0, 3, 0x4B37}, {"CRC-16/X-25", 16, 0x1021, 0xFFFF, 0xFFFF, 3, 0x906E}, {"CRC-16/AUG-CCITT", 16, 0x1021, 0x1D0F, 0, 0, 0xE5CC}, {"CRC-16/RIELLO", 16, 0x1021, 0xB2AA, 0, 3, 0x63D0}, {"CRC-16/DNP", 16, 0x3D65, 0, 0xFFFF, 3, 0xEA82}, {"CRC-16/TELEDISK", 16, 0xA097, 0, 0, 0, 0x0FB3},
        {"CRC-32", 32, 0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF, 3, 0xCBF43926}, {"CRC-32/JAMCRC", 32, 0x04C11DB7, 0xFFFFFFFF, 0, 3, 0x340BC6D9}, {"CRC-32C", 32, 0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, 3, 0xE3069283}, {"CRC-32D", 32, 0xA833982B, 0xFFFFFFFF, 0xFFFFFFFF, 3, 0x87315576},
    };
    const K& k = ch.of(C); bool be = ch.flag();
    Prep x; x.s.file_endian = be;
    x.s.body = {gen::arr(gen::f(U8, "d"), A_FIX, 9), crc_node(k.w, k.poly, k.init, k.xo, k.refl, 7)}; x.text = print(x.s);
    if (!ctx.begin(string(k.n) + "\n" + x.text) || !prepare(x, ctx)) return;
    G g; g.b = payload(0, 9); Run r = ref::encode(x.s, g);
    uint32_t c = 0; int n = k.w / 8; for (int i = 0; i < n; i++) c |= (uint32_t)r.bytes[9 + i] << 8 * (be ? n - 1 - i : i);
    if (c != k.check) { ctx.fail("reference CRC is wrong", fmt("%X", c)); return; }
    string bad = compare_encode(x, ctx, r); if (!bad.empty()) { fail2(ctx, bad); return; }
    ctx.outcome("catalogue value"); ctx.traces(); ctx.steps(11); ctx.nontrivial();
}
// Where the CRC field stands: after any atom, twice, in structs, after bit fields, in arrays and branches
static void places(Chooser& ch, Ctx& ctx) {
    Prep x; x.s.file_endian = ch.flag() ? 1 : -1;
    const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())]; if (a.flags & gen::LAST) return;
    int place = (int)ch.pick(6); int w = ch.flag() ? 32 : 16;
    a.add(x.s, x.s.body, "f");
    Node c = crc_node(w, 0, 0, 0, 0, 0);
    if (place == 0) x.s.body.push_back(c);
    if (place == 1) { x.s.body.push_back(c); x.s.body.push_back(gen::f(U8, "m")); x.s.body.push_back(crc_node(48 - w, 0, 0, 0, 0, 0, "c2")); }
    if (place == 2) x.s.body.push_back(gen::strct(x.s, "s", {gen::f(U8, "h"), c, gen::f(U16, "t")}));
    if (place == 3) { x.s.body.push_back(gen::arr(gen::strct(x.s, "s", {gen::f(U8, "h"), c}), A_FIX, 3)); }
    if (place == 4) { Node n; n.k = Node::IF; n.conds = {e_bin(">", e_ref("k"), e_int(0))}; n.blocks = {{c}, {gen::f(U8, "o")}}; Node k = gen::f(BOOL, "k"); x.s.body.push_back(k); x.s.body.push_back(n); }
    if (place == 5) { x.s.body.push_back(gen::f(U8, "bits", 3)); x.s.body.push_back(c); }
    x.s.body.push_back(gen::f(U8, "z")); x.text = print(x.s);
    if (!ctx.begin(x.text) || !prepare(x, ctx)) return;
    Chooser rc;
    do {
        rc.rewind(); DomGen g(rc, x.s, ctx.thorough ? 3 : 1, false, 3); g.longtext = 12;
        Run r = ref::encode(x.s, g); if (r.unspecified || r.err) continue;
        string bad = compare_encode(x, ctx, r, 0xFF);
        if (!bad.empty()) { fail2(ctx, bad); return; }
        ctx.traces(); ctx.steps(r.bytes.size()); ctx.outcome("CRC in place");
        for (size_t i = 0; i < r.bytes.size(); i++) for (int b = 0; b < 8; b++) {
            vector<uint8_t> d = r.bytes; d[i] ^= (uint8_t)(1 << b);
            Run w2 = ref::decode(x.s, d); if (w2.unspecified) continue;
            bad = compare_decode(x, ctx, d, w2); if (!bad.empty()) { fail2(ctx, bad); return; }
            ctx.outcome(w2.err == CND_ERR_CRC_MISMATCH ? "corruption reported by the CRC" : w2.err ? "corruption reported otherwise" : "corruption outside of the CRC");
        }
    } while (rc.next());
    ctx.nontrivial();
}
// All one-bit, two-bit and one-byte changes
static void corrupt(Chooser& ch, Ctx& ctx, int maxlen) {
    int w = ch.flag() ? 32 : 16; bool be = ch.flag(); int len = (int)ch.pick((uint32_t)maxlen) + 1; int kind = (int)ch.pick(4); int var = (int)ch.pick(3);
    Prep x; x.s.file_endian = be;
    Node c = var == 0 ? crc_node(w, 0, 0, 0, 0, 0) : var == 1 ? crc_node(w, w == 16 ? 0x8005 : 0x1EDC6F41, 0, 0, 3, 7) : crc_node(w, 0, 0x1234, 0x5555, 1, 6);
    if (var == 2 && len > 4) { x.s.body.push_back(gen::f(U16, "a", 5)); x.s.body.push_back(gen::f(U32, "b", 11)); x.s.body.push_back(gen::f(U16, "e")); if (len > 4) x.s.body.push_back(gen::arr(gen::f(U8, "d"), A_FIX, (uint32_t)(len - 4))); }
    else x.s.body.push_back(gen::arr(gen::f(U8, "d"), A_FIX, (uint32_t)len));
    x.s.body.push_back(c); x.text = print(x.s);
    if (!ctx.begin(x.text + fmt("payload kind %d", kind)) || !prepare(x, ctx)) return;
    G g; g.b = payload(kind, len + 8);
    Run r = ref::encode(x.s, g);
    string bad = compare_encode(x, ctx, r); if (!bad.empty()) { fail2(ctx, bad); return; }
    size_t n = r.bytes.size();
    auto must_reject = [&](const vector<uint8_t>& d, const char* what) {
        Run e = ref::decode(x.s, d);
        if (e.err != CND_ERR_CRC_MISMATCH) { if (e.unspecified) return true; ctx.fail("reference accepts a corrupted message", hex(d)); return false; }
        for (int raw = 0; raw < 2; raw++) {
            impl::RunOpts o; o.raw_ok = raw;
            impl::Result i = impl::decode(x.p, e, d, o); ctx.evals();
            if (i.err != CND_ERR_CRC_MISMATCH) { ctx.fail(fmt("message with %s changed: %s", what, impl::err_name(i.err)), "sent " + hex(r.bytes) + "\nreceived " + hex(d)); return false; }
        }
        ctx.outcome(fmt("rejected with %s changed", what)); ctx.steps();
        return true;
    };
    for (size_t i = 0; i < n * 8; i++) {
        vector<uint8_t> d = r.bytes; d[i / 8] ^= (uint8_t)(1 << i % 8);
        if (!must_reject(d, "one bit")) return;
        for (size_t j = i + 1; j < n * 8; j++) { d[j / 8] ^= (uint8_t)(1 << j % 8); if (!must_reject(d, "two bits")) return; d[j / 8] ^= (uint8_t)(1 << j % 8); }
    }
    for (size_t i = 0; i < n; i++) for (int v = 1; v < 256; v++) { vector<uint8_t> d = r.bytes; d[i] ^= (uint8_t)v; if (!must_reject(d, "one byte")) return; }
    ctx.traces(); ctx.nontrivial();
}
// Messages of many lengths, and one bit changed at many places of each
static void lengths(Chooser& ch, Ctx& ctx) {
    static const vector<int> L = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 70000, 131071, 131072, 131073, 200000};
    int w = ch.flag() ? 32 : 16; bool be = ch.flag(); int var = (int)ch.pick(4); int len = ch.of(L); int kind = ch.flag() ? 3 : 0;
    if (!ctx.thorough && len > 5000 && (kind == 0 || be != (var == 0))) return;
    Prep x; x.s.file_endian = be;
    // wide elements, and single bytes for the rest; bit fields in front take another way through the VM
    int left = len; if (var == 3) { x.s.body.push_back(gen::f(U8, "hi", 3)); x.s.body.push_back(gen::f(U8, "lo", 5)); left--; }
    if (left / 8) x.s.body.push_back(gen::arr(gen::f(U64, "d"), A_FIX, (uint32_t)left / 8));
    if (left % 8) x.s.body.push_back(gen::arr(gen::f(U8, "e"), A_FIX, (uint32_t)left % 8));
    x.s.body.push_back(var == 1 ? crc_node(w, w == 16 ? 0x8005 : 0x1EDC6F41, 0, 0, 3, 7) : var == 2 ? crc_node(w, 0, 0x1234, 0x5555, 1, 6) : crc_node(w, 0, 0, 0, 0, 0)); x.text = print(x.s);
    if (!ctx.begin(x.text + fmt("payload kind %d", kind)) || !prepare(x, ctx)) return;
    G g; g.b = payload(kind, len + 8); Run r = ref::encode(x.s, g);
    string bad = compare_encode(x, ctx, r, 0xA5); if (!bad.empty()) { fail2(ctx, bad.substr(0, 300)); return; }
    Run d = ref::decode(x.s, r.bytes); bad = d.err ? "reference error" : compare_decode(x, ctx, r.bytes, d); if (!bad.empty()) { fail2(ctx, bad.substr(0, 300)); return; }
    ctx.traces(2); ctx.steps(r.bytes.size());
    std::set<size_t> at; size_t n = r.bytes.size();
    for (size_t p = 1; p < n; p *= 2) for (size_t q : {p - 1, p, p + 1}) { if (!ctx.thorough && n > 5000 && p > 1 && p < 32768) continue; if (q < n) at.insert(q); at.insert(n - 1 - std::min(q, n - 1)); }
    Run e = d; e.err = CND_ERR_CRC_MISMATCH;
    for (size_t i : at) for (int b : {0, 7}) { if (!ctx.thorough && n > 5000 && b != (int)(i & 1) * 7) continue;
        vector<uint8_t> c = r.bytes; c[i] ^= (uint8_t)(1 << b);
        impl::RunOpts o; o.raw_ok = i & 1; impl::Result got = impl::decode(x.p, e, c, o); ctx.evals();
        if (got.err != CND_ERR_CRC_MISMATCH) { ctx.fail(fmt("bit %d of byte %zu of %zu changed: %s", b, i, n, impl::err_name(got.err)), x.text); return; }
        ctx.outcome("one bit of a long message changed");
    }
    ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C06"; bool th = is_thorough(argc, argv);
    o.rule = "Every combination of width, polynomial, initial value, final xor, reflection, given and default parameters over a value set, byte order and payload lengths against a bitwise reference, which itself must give the published check values of 14 catalogued algorithms; CRC fields after every schema atom, repeated, in structs, arrays, branches and after bit fields with every one-bit corruption; all one-bit, two-bit and one-byte changes of messages of every length up to a bound; messages of lengths around every power of two up to 200000 bytes with single bits changed around every power of two from either end";
    o.assumptions = {"two-bit detection is demanded for the standard polynomials and message lengths below their order"};
    vector<mc::Family> f = { {"lengths", lengths}, {"parameters", params}, {"catalogue", catalogue}, {"places", places}, {"corruption", [=](Chooser& c, Ctx& x) { corrupt(c, x, th ? 24 : 9); }} };
    return mc::main_driver(argc, argv, o, f);
}
