#include "common.hpp"
#include <set>
typedef vector<uint8_t> Bytes;
static uint32_t u32(const Bytes& b, size_t o) { return b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (uint32_t)b[o + 3] << 24; }
// What the image says: independent of the loader
struct Img { bool header = false, strings = false, strict = false; uint16_t count = 0; size_t so = 0, bo = 0; vector<string> names; };
static Img read_image(const Bytes& b) {
    Img m; static const uint8_t magic[6] = {'C', 'N', 'D', 'I', 'L', 1};
    if (b.size() < 16 || memcmp(b.data(), magic, 6)) return m;
    m.count = (uint16_t)(b[6] | b[7] << 8); m.so = u32(b, 8); m.bo = u32(b, 12);
    m.header = m.so <= b.size() && m.bo <= b.size(); if (!m.header) return m;
    size_t p = m.so; m.strings = true;
    for (uint32_t i = 0; i < m.count; i++) { size_t e = p; while (e < b.size() && b[e]) e++; if (e >= b.size()) { m.strings = false; m.names.clear(); break; } m.names.push_back(string((const char*)&b[p], e - p)); p = e + 1; }
    m.strict = m.strings && m.so >= 16 && m.bo >= 16 && p <= m.bo;
    return m;
}
// Empty: loaded as the image says, or rejected because it is damaged; every query stays inside (sanitizer)
static string judge(const Bytes& b, Ctx& ctx, bool all_ids, bool pristine) {
    Img m = read_image(b); impl::Block blk(b); cnd_program p; memset(&p, 0xEE, sizeof p);
    int r = cnd_program_load_il(&p, blk.p, blk.n); ctx.evals();
    if (r != 0) {
        if (m.strict) return fmt("sound image is rejected with %s", impl::err_name(r));
        if (r < 0 || r > 8) return fmt("undocumented result %d", r);
        ctx.outcome("rejected"); return "";
    }
    if (!m.header) return "image with a broken header is accepted";
    if (!m.strings) { // accepted: then nothing it answers may come from outside of the image. Ask everything
        for (uint32_t k = 0; k <= m.count; k++) { const char* s = cnd_get_key_name(&p, (uint16_t)k); if (s && ((const uint8_t*)s < blk.p || (const uint8_t*)s + strlen(s) >= blk.p + blk.n)) return "name outside of the image"; }
        (void)cnd_get_key_id(&p, "no such name"); ctx.outcome("accepted with a damaged string table"); return "";
    }
    if (p.string_count != m.count) return fmt("%u strings, image has %u", p.string_count, m.count);
    if (p.bytecode != blk.p + m.bo || p.bytecode_len != b.size() - m.bo) return "bytecode is not that of the image";
    for (uint32_t k = 0; k < (all_ids ? 65536u : m.count + 2u); k++) {
        const char* s = cnd_get_key_name(&p, (uint16_t)k);
        if (k >= m.count) { if (k < 65536 && s) return "name of a number that is not in the table"; continue; }
        if (!s) return "no name for a number of the table";
        if ((const uint8_t*)s < blk.p || (const uint8_t*)s >= blk.p + blk.n) return "name outside of the image";
        if (m.names[k] != s) return "wrong name for a number";
        if (m.count > 300 && k > 20 && k + 20 < m.count && k % 4096) continue;
        uint32_t first = (uint32_t)(std::find(m.names.begin(), m.names.end(), m.names[k]) - m.names.begin());
        if (cnd_get_key_id(&p, m.names[k].c_str()) != first) return "wrong number for a name";
        if (pristine) for (string v : {m.names[k] + "x", m.names[k].substr(0, m.names[k].size() ? m.names[k].size() - 1 : 0), "." + m.names[k], string("~")}) {
            auto it = std::find(m.names.begin(), m.names.end(), v);
            if (cnd_get_key_id(&p, v.c_str()) != (it == m.names.end() ? 0xFFFF : (uint16_t)(it - m.names.begin()))) return "wrong number for another name";
        }
        ctx.steps();
    }
    if (cnd_get_key_id(&p, "no such name") != 0xFFFF) return "number for an unknown name";
    ctx.outcome(m.strict ? "loaded as the image says" : "damaged image still loads consistently"); ctx.traces();
    return "";
}
static bool one(const Bytes& b, Ctx& ctx, bool all = false, bool pristine = false) { string bad = judge(b, ctx, all, pristine); if (bad.empty()) return true; ctx.fail(bad, "image of " + fmt("%zu bytes: ", b.size()) + hex(b.data(), std::min<size_t>(b.size(), 400))); return false; }
static void compiled(Prep& x, Ctx& ctx, int level) {
    Bytes b(x.il.begin(), x.il.end()); Img m = read_image(b);
    if (!m.strict) { ctx.fail("the compiler's image is not sound", hex(b)); return; }
    if (!one(b, ctx, level > 1, true)) return;
    ctx.nontrivial(); if (!level) return;
    for (size_t l = 0; l < b.size(); l++) if (!one(Bytes(b.begin(), b.begin() + (long)l), ctx)) return;
    for (size_t i = 0; i < std::min(b.size(), m.bo + 2); i++) { Bytes q = b; for (int v = 1; v < 256; v++) { if (level < 2 && i >= 16 && v != b[i] && v != 0x80 && v != 1) continue; q[i] = (uint8_t)(b[i] ^ v); if (!one(q, ctx)) return; } }
}
static Bytes make(uint32_t count, uint32_t so, uint32_t bo, const string& body) { Bytes b = {'C', 'N', 'D', 'I', 'L', 1, (uint8_t)count, (uint8_t)(count >> 8)}; for (int i = 0; i < 4; i++) b.push_back((uint8_t)(so >> (8 * i))); for (int i = 0; i < 4; i++) b.push_back((uint8_t)(bo >> (8 * i))); b.insert(b.end(), body.begin(), body.end()); return b; }
static const vector<string>& bodies() { static const vector<string> B = { "", string("\0", 1), string("a\0bb\0a.b\0\x10\0\0", 12), string("a\0\0b\0", 5), string("abc", 3), string("\x10\1\0x\0y\0", 7), string("a\0bb\0\xC3\xA9\0dup\0dup\0\0\x12\0\0\x12\0", 22) }; return B; }
// All combinations of boundary values in the header
static void header(Chooser& ch, Ctx& ctx) {
    const string& body = ch.of(bodies()); uint32_t len = 16 + (uint32_t)body.size(); uint32_t count = ch.pick(9); static const uint32_t C[] = {0, 1, 2, 3, 4, 255, 256, 0x7FFF, 0xFFFF};
    count = C[count]; if (!ctx.begin(fmt("body of %zu bytes, %u strings, all offsets", body.size(), count))) return;
    vector<uint32_t> V; for (uint32_t i = 0; i <= len + 2; i++) V.push_back(i);
    for (uint32_t v : {0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFF0u, 0x10000u, 0x100u, 0x1000010u}) V.push_back(v);
    for (uint32_t so : V) for (uint32_t bo : V) for (uint32_t l : {len, len - (body.empty() ? 0u : 1u)}) { Bytes b = make(count, so, bo, body); b.resize(l); if (!one(b, ctx)) return; }
    ctx.nontrivial();
}
// Every pair of header bytes at a time
static void header_pairs(Chooser& ch, Ctx& ctx) {
    const string& body = bodies()[ctx.thorough ? 1 + ch.pick(6) : 6]; int i = (int)ch.pick(16), j = (int)ch.pick(16); if (i >= j) return;
    if (!ctx.begin(fmt("header bytes %d and %d, body of %zu bytes", i, j, body.size()))) return;
    Img m; Bytes b0 = make(6, 16, 16 + 16, body);
    static const vector<int> few = {0, 1, 2, 3, 5, 6, 15, 16, 17, 32, 37, 38, 39, 64, 127, 128, 254, 255};
    for (int a = 0; a < 256; a++) for (int c = 0; c < 256; c++) { if (!ctx.thorough && (i < 6 || i > 7) && !std::count(few.begin(), few.end(), a)) continue; Bytes b = b0; b[(size_t)i] = (uint8_t)a; b[(size_t)j] = (uint8_t)c; if (!one(b, ctx)) return; }
    ctx.nontrivial();
}
// Every short table over {NUL, a, b} with every count and both orders of table and code
static void small_tables(Chooser& ch, Ctx& ctx) {
    int len = (int)ch.pick(ctx.thorough ? 9 : 8), count = (int)ch.pick(8), order = (int)ch.pick(3);
    if (!ctx.begin(fmt("all tables of %d bytes, %d strings, order %d", len, count, order))) return;
    int tot = 1; for (int i = 0; i < len; i++) tot *= 3;
    for (int c = 0; c < tot; c++) {
        string t; int q = c; for (int i = 0; i < len; i++) { t += "\0ab"[q % 3]; q /= 3; }
        Bytes b = order == 0 ? make((uint32_t)count, 16, 16 + (uint32_t)len, t + "\x10") : order == 1 ? make((uint32_t)count, 18, 16, "\x10\x01" + t) : make((uint32_t)count, 16, 16 + (uint32_t)len, t);
        if (!one(b, ctx, false, true)) return;
    }
    ctx.nontrivial();
}
// Tables of very many strings
static void many(Chooser& ch, Ctx& ctx) {
    static const vector<uint32_t> N = {254, 255, 256, 257, 4095, 32767, 32768, 65534, 65535}; uint32_t n = ch.of(N); int kind = (int)ch.pick(4), cut = (int)ch.pick(3);
    if (!ctx.begin(fmt("%u strings, kind %d, cut %d", n, kind, cut))) return;
    string t; for (uint32_t i = 0; i < n; i++) { if (kind == 1) t += fmt("s%u", i); if (kind == 2) t += "same"; if (kind == 3) t += string(i % 7, 'q'); t += '\0'; }
    if (cut == 1) t.resize(t.size() - 1); if (cut == 2) t.resize(t.size() / 2);
    one(make(n, 16, 16 + (uint32_t)t.size(), t), ctx, true); ctx.nontrivial();
}
// Questions in sequence, to one or two program objects, with other images loaded into them in between at the same or at another address
static const vector<vector<string>>& tables() { static const vector<vector<string>> v = { {"a", "bb", "a.b"}, {"bb", "a", "c"}, {"x"}, {}, {"", "a", "", "q"}, {"a", "a", "bb"}, {"longer_name", "longer_name2", "longer", "a", "bb", "z"} }; return v; }
static Bytes table_image(const vector<string>& t, bool behind) { string b; for (auto& x : t) b += x + string(1, '\0'); return behind ? make((uint32_t)t.size(), 18, 16, "\x10\x01" + b) : make((uint32_t)t.size(), 16, 16 + (uint32_t)b.size(), b + "\x10"); }
struct Ask { bool name; uint16_t id; string key; };
static vector<Ask> asks(const vector<string>& t) { vector<Ask> v; for (uint16_t k = 0; k <= t.size(); k++) v.push_back({true, k, ""}); std::set<string> seen; for (auto& x : t) if (seen.insert(x).second) v.push_back({false, 0, x}); v.push_back({false, 0, "zz"}); v.push_back({false, 0, "bb"}); v.push_back({true, 65535, ""}); return v; }
static string answer(const cnd_program& p, const Ask& q, const vector<string>& t) {
    if (q.name) { const char* s = cnd_get_key_name(&p, q.id); return q.id < t.size() ? (s && t[q.id] == s ? "" : fmt("name of %u is ", q.id) + (s ? s : "missing")) : s ? "a name for a number outside of the table" : ""; }
    auto it = std::find(t.begin(), t.end(), q.key); uint16_t want = it == t.end() ? 0xFFFF : (uint16_t)(it - t.begin()), got = cnd_get_key_id(&p, q.key.c_str());
    return got == want ? "" : fmt("number of '%s' is %u and not %u", q.key.c_str(), got, want);
}
static void reload(Chooser& ch, Ctx& ctx) {
    const auto& T = tables(); int a = (int)ch.pick((uint32_t)T.size()), b = (int)ch.pick((uint32_t)T.size()), how = (int)ch.pick(4), lay = (int)ch.pick(3); // same object and address, same object, two objects, two objects in turn
    if (!ctx.begin(fmt("tables %d and %d, how %d, layout %d: all sequences of three questions", a, b, how, lay))) return;
    Bytes ia = table_image(T[(size_t)a], lay == 1), ib = table_image(T[(size_t)b], lay >= 1); impl::Arena m1(512), m2(512);
    auto QA = asks(T[(size_t)a]), QB = asks(T[(size_t)b]);
    for (auto& q1 : QA) for (auto& q2 : QB) for (int third = 0; third < 3; third++) for (auto& q3 : third == 2 ? QA : QB) {
        cnd_program p, o; memset(&p, 0xEE, sizeof p); memset(&o, 0xEE, sizeof o); cnd_program& second = how < 2 ? p : o; string bad;
        auto load = [&](cnd_program& g, const Bytes& i, const impl::Arena& m) { impl::Block k(m, i.size(), i.data(), 0); if (cnd_program_load_il(&g, k.p, k.n) != 0) bad = "a sound image is rejected"; };
        load(p, ia, m1); if (how == 3) load(o, ib, m2);
        if (bad.empty()) bad = answer(p, q1, T[(size_t)a]);
        if (how < 3) load(second, ib, how == 0 ? m1 : m2);
        if (bad.empty()) bad = answer(second, q2, T[(size_t)b]);
        if (third == 1) load(second, ib, how == 0 ? m1 : m2);
        if (third == 2 && how < 2) load(p, ia, m1);
        if (bad.empty()) bad = answer(third == 2 ? p : second, q3, third == 2 ? T[(size_t)a] : T[(size_t)b]);
        ctx.evals(3); ctx.steps();
        if (!bad.empty()) { ctx.fail("an answer depends on what was asked before", bad + fmt("; questions %s, %s, %s", q1.name ? fmt("%u", q1.id).c_str() : q1.key.c_str(), q2.name ? fmt("%u", q2.id).c_str() : q2.key.c_str(), q3.name ? fmt("%u", q3.id).c_str() : q3.key.c_str())); return; }
        ctx.traces();
    }
    ctx.outcome("same answers in every history"); ctx.nontrivial();
}
static void odd_calls(Chooser& ch, Ctx& ctx) {
    int k = (int)ch.pick(8); if (!ctx.begin(fmt("call %d with missing arguments", k))) return;
    Bytes b = make(1, 16, 18, string("a\0\0", 3)); impl::Block blk(b); cnd_program p; bool ok = true; string what;
    switch (k) {
        case 0: ok = cnd_program_load_il(nullptr, blk.p, blk.n) != 0; break;
        case 1: ok = cnd_program_load_il(&p, nullptr, 16) != 0; break;
        case 2: ok = cnd_program_load_il(&p, blk.p, 0) != 0; break;
        case 3: cnd_program_load(&p, blk.p, 3); ok = !cnd_get_key_name(&p, 0) && cnd_get_key_id(&p, "a") == 0xFFFF && p.bytecode == blk.p && p.bytecode_len == 3; break;
        case 4: ok = !cnd_get_key_name(nullptr, 0) && cnd_get_key_id(nullptr, "a") == 0xFFFF; break;
        case 5: cnd_program_load_il(&p, blk.p, blk.n); ok = cnd_get_key_id(&p, nullptr) == 0xFFFF; break;
        case 6: cnd_program_load(nullptr, blk.p, 3); break;
        case 7: for (int e = -2; e < 12; e++) { const char* s = cnd_error_string((cnd_error_t)e); ok = ok && s && *s; } break;
    }
    ctx.evals(); if (!ok) ctx.fail("a call with missing arguments is not answered safely"); ctx.outcome("missing arguments"); ctx.nontrivial();
}
// The image of a schema runs its own bytecode with its own names: after swapping the parts of the image around
static void relocated(Prep& x, Ctx& ctx, int budget, int width) {
    Bytes b(x.il.begin(), x.il.end()); Img m = read_image(b); if (!m.strict) return;
    Bytes tab(b.begin() + (long)m.so, b.begin() + (long)m.bo), code(b.begin() + (long)m.bo, b.end());
    for (int k = 0; k < 3; k++) {
        string body; uint32_t so, bo; string T(tab.begin(), tab.end()), C(code.begin(), code.end());
        if (k == 0) { body = "??" + T + "gap" + C; so = 18; bo = 18 + (uint32_t)T.size() + 3; } else if (k == 1) { body = T + C; so = 16; bo = 16 + (uint32_t)T.size(); } else { body = string("\xFF\xFF\xFF\xFF", 4) + T + C; so = 20; bo = 20 + (uint32_t)T.size(); }
        Bytes q = make(m.count, so, bo, body); Prep y; y.s = x.s; y.il = string(q.begin(), q.end());
        if (!y.p.load(y.il)) { ctx.fail("sound image is rejected", hex(q)); return; }
        Chooser rc; int done = 0;
        do { rc.rewind(); DomGen g(rc, x.s, budget, false, width); Run r = ref::encode(x.s, g); if (r.unspecified || r.err) continue; string bad = compare_encode(y, ctx, r); if (!bad.empty()) { fail2(ctx, bad); return; } ctx.traces(); ctx.steps(r.ev.size()); } while (rc.next() && ++done < 5);
        ctx.outcome("executes the bytecode of the image");
    }
    ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C14"; bool th = is_thorough(argc, argv);
    o.rule = "All offset values in and around the image with boundary string counts for seven bodies; every pair of header bytes (thorough: all values for six bodies); every string table of up to 7 (thorough: 8) bytes over {NUL,a,b} with every count; up to 65535 strings; every truncation and byte change of the images of all single-atom and nested schemas; images laid out differently executed against the reference; exactly sized buffers under AddressSanitizer; every number and name asked; all sequences of three questions with one of seven tables loaded at first and one in between, into the same or another program object, at the same or another address";
    o.assumptions = {"an image whose strings reach into the bytecode may be accepted or rejected"};
    vector<mc::Family> f = { {"header values", header}, {"header byte pairs", header_pairs}, {"small tables", small_tables}, {"many strings", many}, {"odd calls", odd_calls}, {"reload", reload} };
    vector<mc::Family> g; schema_families(g, th, [th](Prep& x, Ctx& c, int, int) { compiled(x, c, x.s.body.size() < 2 ? (th ? 2 : 1) : 0); if (!c.failed()) relocated(x, c, 1, 2); }, 0, 1, true);
    for (auto& q : g) if (th || q.name != "nest2") f.push_back(q);
    return mc::main_driver(argc, argv, o, f);
}
