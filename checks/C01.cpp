#include "common.hpp"
#include "isa.hpp"
#include <csetjmp>
typedef vector<uint8_t> Bytes;
// ---- fuel: programs with backward jumps need not end, so an execution is cut off after a number of edges of the VM's code
static jmp_buf out_of_fuel; static long fuel = -1;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (fuel >= 0 && fuel-- == 0) { fuel = -1; longjmp(out_of_fuel, 1); } }
// ---- a host that touches everything it is allowed to touch
struct Policy { uint64_t v; bool raw; const char* text; };
static const Policy POL[] = {{1, true, "ab"}, {0, false, ""}, {~0ull, true, "abcdefghijklmnopqrstuvwxyz0123456789"}, {2, false, nullptr}, {5, true, "x"}, {0x3FF0000000000000ull, false, "abc"}};
struct Host { Policy p; uint64_t count = 0; const uint8_t* data; size_t len; volatile uint8_t sink = 0; const char* bad = nullptr; int ncb = 0; int fail_at = -1; };
static void touch(Host& h, const uint8_t* p, size_t n) { uint8_t s = 0; for (size_t i = 0; i < n; i++) s ^= p[i]; h.sink = h.sink ^ s; }
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t, uint8_t op, void* ptr) {
    Host& h = *(Host*)c->user_ptr; bool enc = c->mode == CND_MODE_ENCODE; if (h.ncb++ == h.fail_at) return CND_ERR_CALLBACK; if (h.ncb > 20000) return CND_ERR_CALLBACK;
    size_t sz = 0;
    switch (op) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: sz = 1; break;
        case OP_IO_U16: case OP_IO_I16: sz = 2; break;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: sz = 4; break;
        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: sz = 8; break;
        case OP_STORE_CTX: touch(h, (uint8_t*)ptr, 8); return CND_ERR_OK;
        case OP_CTX_QUERY: case OP_LOAD_CTX: memcpy(ptr, &h.p.v, 8); return CND_ERR_OK;
        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: { size_t n = op == OP_ARR_PRE_U8 ? 1 : op == OP_ARR_PRE_U16 ? 2 : 4; if (enc) memcpy(ptr, &h.p.v, n); h.count = 0; memcpy(&h.count, ptr, n); return CND_ERR_OK; }
        case OP_ARR_FIXED: case OP_ARR_DYNAMIC: { uint32_t x; memcpy(&x, ptr, 4); h.count = x; if (enc) { x = (uint32_t)h.p.v ^ 77; memcpy(ptr, &x, 4); } return CND_ERR_OK; }
        case OP_ARR_EOF: { if (enc && h.p.v != 2) { uint32_t x = (uint32_t)h.p.v; memcpy(ptr, &x, 4); } uint32_t x; memcpy(&x, ptr, 4); h.count = x; return CND_ERR_OK; }
        case OP_RAW_BYTES: {
            uint8_t* p = (uint8_t*)ptr; if (p < h.data || p > h.data + h.len) { h.bad = "bulk transfer outside of the data"; return CND_ERR_OK; }
            if (!h.p.raw) return CND_ERR_INVALID_OP;
            if (h.count <= h.len) { if (h.count > h.len - (size_t)(p - h.data)) { if (!h.bad) h.bad = nullptr; } else if (enc) memset(p, 0x5A, h.count); else touch(h, p, h.count); } return CND_ERR_OK;
        }
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
            if (enc) { memcpy(ptr, &h.p.text, sizeof h.p.text); return CND_ERR_OK; }
            if (!ptr) { h.bad = "string without address"; return CND_ERR_OK; }
            if (op == OP_STR_NULL) { h.count = strlen((const char*)ptr); touch(h, (uint8_t*)ptr, h.count + 1); }
            else { // the length is the number before the text
                size_t w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4; uint8_t* t = (uint8_t*)ptr; uint64_t n = 0; for (size_t i = 0; i < w; i++) n = n << 8 | (c->endianness == CND_BE ? t[(long)i - (long)w] : t[-1 - (long)i]); touch(h, t, (size_t)n);
            }
            return CND_ERR_OK;
        default: return CND_ERR_OK; // struct and array ends
    }
    if (enc) memcpy(ptr, &h.p.v, sz); else touch(h, (uint8_t*)ptr, sz);
    return CND_ERR_OK;
}
// ---- data
static const vector<size_t>& LENS() { static const vector<size_t> v = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 40}; return v; }
enum { PATTERNS = 5 };
static uint8_t pat(int k, size_t i) { switch (k) { case 0: return 0; case 1: return 0xFF; case 2: return (uint8_t)(i + 1); case 3: return i % 2 ? 0x80 : 0x02; default: return i == 0 ? 3 : 0x41; } }
// Runs one program once. False if something is wrong
static bool run(Ctx& ctx, const Bytes& code, const cnd_program& prog, impl::Block& d, const uint8_t* orig, bool dec, const Policy& pol, int fail_at, const char** out) {
    static thread_local impl::Block* cblk = nullptr; if (!cblk) cblk = new impl::Block(sizeof(cnd_vm_ctx));
    cnd_vm_ctx& c = *(cnd_vm_ctx*)cblk->p; memset(cblk->p, 0xCD, sizeof c); Host h; h.p = pol; h.data = d.p; h.len = d.n; h.fail_at = fail_at;
    memcpy(d.p, orig, d.n); cnd_init(&c, dec ? CND_MODE_DECODE : CND_MODE_ENCODE, &prog, d.p, d.n, cb, &h);
    int e = -1; volatile bool cut = false; if (setjmp(out_of_fuel) == 0) { fuel = 30000; e = cnd_execute(&c); fuel = -1; } else cut = true;
    ctx.evals(); const char* bad = nullptr;
    if (!cut && (e < 0 || e > 8)) bad = "undocumented result"; else if (h.bad) bad = h.bad; else if (c.cursor > d.n) bad = "cursor beyond the end of the data";
    else if (c.program != &prog || c.data_buffer != d.p || c.data_len != d.n || c.io_callback != cb || c.user_ptr != &h || c.mode != (dec ? CND_MODE_DECODE : CND_MODE_ENCODE)) bad = "execution changed its configuration";
    else if (!cut && (c.loop_depth > CND_MAX_LOOP_DEPTH || c.expr_sp > CND_MAX_EXPR_STACK || c.bit_offset > 7)) bad = "inconsistent context after execution";
    else if (dec && memcmp(d.p, orig, d.n)) bad = "decoding modified the data";
    else if (cut) { ctx.outcome("cut off (may loop)"); return true; }
    if (bad) { *out = bad; return false; }
    static const char* names[] = {"ends with OK", "ends with OOB", "ends with INVALID_OP", "ends with VALIDATION", "ends with CALLBACK", "ends with STACK_OVERFLOW", "ends with STACK_UNDERFLOW", "ends with CRC_MISMATCH", "ends with ARITHMETIC"}; ctx.outcome(names[e]); (void)code;
    return true;
}
struct Set { vector<size_t> lens; int patterns, policies; bool failing; };
static const Set FULL = {{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 40}, PATTERNS, 6, true}, MID = {{0, 1, 3, 8, 40}, 3, 4, false}, LOW = {{0, 2, 9}, 2, 3, false}, MIN = {{1, 9}, 1, 2, false};
static bool one(Ctx& ctx, const Bytes& code, const Set& s) {
    impl::Block b(code); cnd_program p; cnd_program_load(&p, b.p, b.n); const char* bad = nullptr;
    static vector<std::unique_ptr<impl::Block>> blocks; static vector<vector<Bytes>> orig; if (blocks.empty()) { for (size_t n : LENS()) { blocks.emplace_back(new impl::Block(n)); vector<Bytes> v; for (int k = 0; k < PATTERNS; k++) { Bytes x; for (size_t i = 0; i < n; i++) x.push_back(pat(k, i)); x.reserve(1); v.push_back(x); } orig.push_back(v); } }
    for (size_t li = 0; li < LENS().size(); li++) {
        bool use = false; for (size_t l : s.lens) use |= l == LENS()[li]; if (!use) continue; impl::Block& d = *blocks[li];
        for (int pol = 0; pol < s.policies; pol++) {
            for (int k = 0; k < s.patterns; k++) {
                for (int dec = 0; dec < 2; dec++) {
                    if (!dec && k > 1) continue; if (dec && pol > 3 && pol != 5) continue;
                    for (int f = -1; f < (s.failing ? 3 : 0); f++) if (!run(ctx, code, p, d, orig[li][(size_t)k].data(), dec, POL[pol], f, &bad)) { ctx.fail(bad, fmt("program %s\n%s %zu bytes, data pattern %d, host %d, host error at callback %d", hex(code).c_str(), dec ? "decoding" : "encoding into", d.n, k, pol, f)); return false; }
                }
            }
        }
    }
    ctx.steps(); ctx.traces(); return true;
}
// ---- programs
static void put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static const vector<Bytes>& catalogue(bool wide) {
    static vector<Bytes> cs[2]; vector<Bytes>& c = cs[wide]; if (!c.empty()) return c;
    auto add = [&](std::initializer_list<std::pair<uint64_t, int>> l) { Bytes x; for (auto& q : l) put(x, q.first, q.second); c.push_back(x); };
    for (auto& s : isa::shapes()) {
        Bytes b{s.op}; string o = s.operands; uint8_t op = s.op;
        auto sizes = [](int t) { return t == 0x13 || t == 0x17 || t == 0x19 ? 8 : t == 0x12 || t == 0x16 || t == 0x18 ? 4 : t == 0x11 || t == 0x15 ? 2 : 1; };
        vector<int> types; for (int t = 0x0F; t <= 0x1B; t++) if (wide || t == 0x10 || t == 0x13 || t == 0x15 || t == 0x18) types.push_back(t); if (wide) types.push_back(0xFF);
        if (o == "C") for (int t : types) { Bytes x = b; put(x, 1, 2); put(x, (uint64_t)t, 1); put(x, wide ? 1 : 0, sizes(t)); c.push_back(x); }
        else if (o == "W") for (int t : types) { Bytes x = b; put(x, (uint64_t)t, 1); put(x, 0x52, sizes(t)); c.push_back(x); }
        else if (o == "R") for (int t : types) { Bytes x = b; put(x, (uint64_t)t, 1); put(x, 0, sizes(t)); put(x, 0x50, sizes(t)); c.push_back(x); }
        else if (o == "E") for (int t : types) for (uint64_t k : {0, 1, 2, 300, 65535}) { if (!wide && k != 1 && k != 300) continue; Bytes x = b; put(x, (uint64_t)t, 1); put(x, k, 2); for (uint64_t i = 0; i < k && i < 3; i++) put(x, 1, sizes(t)); c.push_back(x); }
        else if (o == "P" || o == "S") for (uint64_t k : {0, 1, 2, 3, 32, 255}) { if (!wide && k != 1 && k != 255) continue; Bytes x = b; put(x, k, 1); for (uint64_t i = 0; i < k * (o == "S" ? 2 : 1) && i < 6; i++) put(x, i ? 0x4000000000000000ull + (i << 48) : 0x3FF0000000000000ull, 8); c.push_back(x); }
        else if (o == "M") for (int t : types) { Bytes x = b; put(x, (uint64_t)t, 1); c.push_back(x); }
        else if (o == "j") for (int64_t t : {0, 1, 3, 8, -5, -8, -1000, 100000, (int)INT32_MIN, (int)INT32_MAX}) { if (!wide && t != 0 && t != 3 && t != -5) continue; Bytes x = b; put(x, (uint64_t)t, 4); c.push_back(x); }
        else if (o == "kt") {
            for (uint64_t off : {0ull, 1ull, 6ull, 100ull, 0xFFFFFFF0ull, 0x80000000ull, 0x7FFFFFFFull, 0xFFFFFFFFull}) { if (!wide && off != 0 && off != 0xFFFFFFF0ull) continue; add({{op, 1}, {1, 2}, {off, 4}}); }
            if (op == 0x51) for (uint64_t k : {0, 1, 2, 200, 65535}) { if (!wide && k != 1) continue; Bytes x = b; put(x, 1, 2); put(x, 0, 4); put(x, k, 2); put(x, 18, 4); for (uint64_t i = 0; i < k && i < 2; i++) { put(x, i, 8); put(x, wide ? 0xFFFFFFF0ull : 18, 4); } c.push_back(x); }
            else for (uint64_t hi : {0ull, 1ull, 2ull, 1000ull, ~0ull, 0x7FFFFFFFFFFFFFFFull}) for (uint64_t lo : {0ull, 1ull, 0x8000000000000000ull}) { if (!wide && (hi != 2 || lo)) continue; Bytes x = b; put(x, 1, 2); put(x, 0, 4); put(x, lo, 8); put(x, hi, 8); for (int i = 0; i < 3; i++) put(x, i == 2 ? 0xFFFFFF00ull : 32, 4); c.push_back(x); }
        }
        else if (o == "kb") for (uint64_t k : {0, 1, 3, 7, 8, 9, 13, 63, 64, 65, 128, 255}) { if (!wide && k != 3 && k != 13 && k != 64) continue; add({{op, 1}, {1, 2}, {k, 1}}); }
        else if (op == 0x30) for (uint64_t k : {0, 1, 2, 7, 255, 65535}) { if (!wide && k != 2 && k != 65535) continue; add({{op, 1}, {1, 2}, {k, 2}}); }
        else if (o == "k4") for (uint64_t k : {0ull, 1ull, 2ull, 3ull, 9ull, 41ull, 65536ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull}) { if (!wide && k != 0 && k != 2 && k != 0xFFFFFFFFull) continue; add({{op, 1}, {1, 2}, {k, 4}}); }
        else if (op == 0x23 || op == 0x24) for (uint64_t k : {0, 1, 3, 7, 8, 9, 64, 200, 255}) { if (!wide && k != 1 && k != 3) continue; add({{op, 1}, {k, 1}}); }
        else if (op == 0x43) for (uint64_t k : {0ull, 0x3FF0000000000000ull, 0x7FF0000000000000ull, 0x7FF8000000000000ull, 0xC1E0000000000000ull}) { if (!wide && k != 0x3FF0000000000000ull) continue; add({{op, 1}, {k, 8}, {0x4010000000000000ull, 8}}); }
        else if (o == "8") for (uint64_t k : {0ull, 1ull, 2ull, ~0ull, 0x8000000000000000ull, 0x3FF0000000000000ull, 0x7FF0000000000000ull, 64ull}) { if (!wide && k != 0 && k != 2 && k != ~0ull) continue; add({{op, 1}, {k, 8}}); }
        else if (o == "2221" || o == "4441") for (uint64_t k : {0, 1, 2, 3, 255}) { if (!wide && k != 3) continue; int n = o[0] - '0'; Bytes x = b; put(x, 0x1021, n); put(x, ~0ull, n); put(x, 0, n); put(x, k, 1); c.push_back(x); }
        else { Bytes x = b; for (char q : o) put(x, q == 'k' ? 1 : 2, q == 'k' ? 2 : q - '0'); c.push_back(x); }
    }
    if (wide) { for (int u = 0; u < 256; u++) if (!isa::shape((uint8_t)u)) { Bytes x{(uint8_t)u}; put(x, 0x0101, 2); c.push_back(x); } }
    else { c.push_back({0x06, 1, 0}); c.push_back({0x1B, 1, 0}); }
    return c;
}
static const isa::Shape* shape(uint8_t op) { return isa::shape(op); }
// States of the machine before the instructions under test
static const vector<Bytes>& setups() {
    static vector<Bytes> v; if (!v.empty()) return v; auto cat = [](std::initializer_list<Bytes> l) { Bytes r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; };
    Bytes push = {0x61, 1, 0, 0, 0, 0, 0, 0, 0}, pushneg = {0x61, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, pushmin = {0x61, 0, 0, 0, 0, 0, 0, 0, 0x80}, pushf = {0x61, 0, 0, 0, 0, 0, 0, 0xF0, 0x7F}, arr2 = {0x34, 1, 0, 2, 0, 0, 0}, arrbig = {0x34, 1, 0, 0xFF, 0xFF, 0xFF, 0xFF}, arr1 = {0x34, 1, 0, 1, 0, 0, 0}, arreof = {0x3A, 1, 0}, dyn = {0x3B, 1, 0, 2, 0}, bits = {0x25}, b3 = {0x20, 1, 0, 3}, be = {0x02}, opt = {0x4A}, scale = {0x43, 0, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0, 0, 0, 0, 0, 0}, add = {0x45, 1, 0, 0, 0, 0, 0, 0, 0}, divz = {0x48, 0, 0, 0, 0, 0, 0, 0, 0}, mulbig = {0x47, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F}, u8 = {0x10, 1, 0}, u32 = {0x12, 1, 0};
    auto rep = [](const Bytes& b, int n) { Bytes r; for (int i = 0; i < n; i++) r.insert(r.end(), b.begin(), b.end()); return r; };
    Bytes poly = {0x4C, 1}; put(poly, 0x4000000000000000ull, 8); Bytes spline = {0x4D, 2}; for (uint64_t q : {0ull, 0ull, 0x4010000000000000ull, 0x4010000000000000ull}) put(spline, q, 8); Bytes spline0 = {0x4D, 0}, polycut = {0x4C, 255};
    v = {{}, arr2, arrbig, arr1, arreof, dyn, cat({arr2, arr2}), rep(arr1, 7), rep(arr1, 8), rep(arr1, 9), cat({rep(arr1, 7), arreof}), rep(arreof, 8), bits, cat({bits, b3}), cat({bits, b3, arr2}), cat({bits, be, b3}), b3, cat({b3, be}), be, opt, cat({opt, arr2}), cat({arreof, opt}), scale, add, divz, mulbig, poly, spline, spline0, polycut, cat({scale, arr2}), cat({scale, opt}), push, cat({push, push}), cat({push, pushneg}), cat({pushmin, pushneg}), cat({pushf, push}), rep(push, 7), rep(push, 8), rep(push, 9), cat({push, arr2}), u8, cat({u32, u32, u8}), cat({arr2, u8}), cat({arrbig, u8}), cat({arreof, u8}), cat({rep(arr1, 8), u8, {0x38}}), cat({u8, {0x38}}), cat({u32, {0x20, 1, 0, 5}}), cat({opt, push}), {0x03, 1, 0}, cat({opt, spline}) };
    return v;
}
static void shorts(Chooser& ch, Ctx& ctx) {
    int len = (int)ch.pick(ctx.thorough ? 6 : 5); uint8_t op = len ? (uint8_t)ch.pick(256) : 0; if (!ctx.begin(fmt("all programs of %d bytes starting with %02X", len, op))) return;
    static const uint8_t A[] = {0, 1, 3, 0x10, 0x38, 0x52, 0x80, 0xFF};
    if (len < 2) { if (one(ctx, len ? Bytes{op} : Bytes{}, FULL)) ctx.nontrivial(); return; }
    if (len == 2) { for (int i = 0; i < 256; i++) if (!one(ctx, {op, (uint8_t)i}, MID)) return; ctx.nontrivial(); return; }
    if (len == 3 && ctx.thorough) { for (int i = 0; i < 65536; i++) if (!one(ctx, {op, (uint8_t)i, (uint8_t)(i >> 8)}, LOW)) return; ctx.nontrivial(); return; }
    if (len == 3) { for (int i = 0; i < 256; i++) for (uint8_t q : A) { if (!one(ctx, {op, (uint8_t)i, q}, MIN)) return; if (!one(ctx, {op, q, (uint8_t)i}, MIN)) return; } ctx.nontrivial(); return; }
    int tot = 1; for (int i = 1; i < len; i++) tot *= 8; for (int c = 0; c < tot; c++) { Bytes b{op}; int q = c; for (int i = 1; i < len; i++) { b.push_back(A[q % 8]); q /= 8; } if (!one(ctx, b, LOW)) return; }
    ctx.nontrivial();
}
static Bytes cat(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
// One instruction of the wide catalogue in every state, followed by nothing or by typical ends; whole and cut off at every byte
static void states(Chooser& ch, Ctx& ctx) {
    const Bytes& pre = ch.of(setups()); const auto& C = catalogue(true); int tail = (int)ch.pick(5); if (!ctx.begin(fmt("every instruction behind %s, tail %d", hex(pre).c_str(), tail))) return;
    static const Bytes T[] = {{}, {0x38}, {0x10, 1, 0, 0x38, 0x12, 1, 0}, {0x23, 3, 0x10, 1, 0}, {0x26, 0x11, 2, 0}};
    for (auto& x : C) { Bytes p = cat(pre, x); if (!one(ctx, cat(p, T[tail]), tail == 0 ? FULL : MID)) return; if (tail == 0) for (size_t l = pre.size() + 1; l < p.size(); l++) if (!one(ctx, Bytes(p.begin(), p.begin() + (long)l), LOW)) return; }
    ctx.nontrivial();
}
static void pairs(Chooser& ch, Ctx& ctx) { // of instructions, in every state
    const Bytes& pre = ch.of(setups()); const auto& C = catalogue(false); const Bytes& a = ch.of(C); if (!ctx.begin(fmt("every instruction behind %s %s", hex(pre).c_str(), hex(a).c_str()))) return;
    Bytes p = cat(pre, a); for (auto& x : C) if (!one(ctx, cat(p, x), ctx.thorough ? MID : MIN)) return; ctx.nontrivial();
}
static void wide_pairs(Chooser& ch, Ctx& ctx) {
    const auto& C = catalogue(true); const Bytes& a = ch.of(C); if (!ctx.begin(fmt("every instruction behind %s", hex(a).c_str()))) return;
    for (auto& x : C) { Bytes p = cat(a, x); if (!one(ctx, p, ctx.thorough ? MID : LOW)) return; p.push_back(0x38); if (!one(ctx, p, MIN)) return; } ctx.nontrivial();
}
static void triples(Chooser& ch, Ctx& ctx) {
    const auto& C = catalogue(false); const Bytes &a = ch.of(C), &b = ch.of(C); if (!ctx.begin(fmt("every instruction behind %s %s", hex(a).c_str(), hex(b).c_str()))) return;
    Bytes p = cat(a, b); for (auto& x : C) if (!one(ctx, cat(p, x), ctx.thorough ? LOW : MIN)) return; ctx.nontrivial();
}
// Jumps and switches: every target and every place of the table, in front of and behind instructions
static void jumps(Chooser& ch, Ctx& ctx) {
    static const vector<Bytes> B = {{}, {0x10, 1, 0}, {0x34, 1, 0, 2, 0, 0, 0, 0x10, 1, 0, 0x38}, {0x3A, 1, 0, 0x11, 1, 0, 0x38}, {0x61, 1, 0, 0, 0, 0, 0, 0, 0}, {0x20, 1, 0, 5}, {0x30, 1, 0, 4, 0}}; const Bytes &pre = ch.of(B), &post = ch.of(B); int kind = (int)ch.pick(7);
    if (!ctx.begin(fmt("jump kind %d between %s and %s", kind, hex(pre).c_str(), hex(post).c_str()))) return;
    auto build = [&](int64_t v) {
        Bytes b = pre; switch (kind) {
            case 0: case 1: b.push_back(kind ? 0x52 : 0x50); put(b, (uint64_t)v, 4); b = cat(b, post); break;
            case 2: case 3: b.push_back(kind == 3 ? 0x53 : 0x51); put(b, 1, 2); put(b, (uint64_t)v, 4); b = cat(b, post); if (kind == 2) { put(b, 1, 2); put(b, 0, 4); put(b, 1, 8); put(b, 3, 4); } else { put(b, 0, 8); put(b, 1, 8); put(b, 0, 4); put(b, 3, 4); put(b, 0, 4); } break;
            case 4: case 5: b.push_back(kind == 5 ? 0x53 : 0x51); put(b, 1, 2); put(b, post.size(), 4); b = cat(b, post); if (kind == 4) { put(b, 1, 2); put(b, (uint64_t)v, 4); put(b, 1, 8); put(b, (uint64_t)v, 4); } else { put(b, 0, 8); put(b, 1, 8); put(b, (uint64_t)v, 4); put(b, (uint64_t)v, 4); put(b, (uint64_t)v, 4); } break;
            case 6: b.push_back(0x53); put(b, 1, 2); put(b, post.size(), 4); b = cat(b, post); put(b, (uint64_t)(v * 0x1000000001ll), 8); put(b, (uint64_t)v + 2, 8); for (int i = 0; i < 4; i++) put(b, 0, 4); break;
        } return b; };
    int64_t n = (int64_t)build(0).size();
    for (int64_t v = -n - 3; v <= n + 3; v++) if (!one(ctx, build(v), MID)) return;
    for (int64_t v : {(int64_t)INT32_MIN, (int64_t)INT32_MIN + 1, (int64_t)INT32_MAX, (int64_t)INT32_MAX - 6, (int64_t)-65536, (int64_t)65536, (int64_t)0x3FFFFFFF}) if (!one(ctx, build(v), MID)) return;
    ctx.nontrivial();
}
// Compiled programs: damaged programs, and damaged data
static const vector<string>& compiled() {
    static vector<string> v; if (!v.empty()) return v; for (auto& a : gen::atoms()) for (int be = 0; be < 2; be++) { Schema s; s.file_endian = be ? 1 : -1; a.add(s, s.body, "f"); if (!(a.flags & gen::LAST)) s.body.push_back(gen::f(U8, "z")); v.push_back(print(s)); } return v;
}
static bool load(Ctx& ctx, const string& text, Bytes& code) { string il; if (impl::compile(text, il, ctx.scratch) != 0) { ctx.fail("well-formed schema does not compile"); return false; } uint32_t o; memcpy(&o, il.data() + 12, 4); code.assign(il.begin() + o, il.end()); return true; }
static void mutants(Chooser& ch, Ctx& ctx) {
    const string& t = ch.of(compiled()); if (!ctx.begin("damaged program of " + t)) return; Bytes code; if (!load(ctx, t, code)) return; if (!one(ctx, code, FULL)) return;
    for (size_t l = 0; l < code.size(); l++) if (!one(ctx, Bytes(code.begin(), code.begin() + (long)l), MID)) return;
    for (size_t i = 0; i < code.size(); i++) {
        Bytes q = code; if (code.size() < 40 || ctx.thorough) { for (int v = 1; v < 256; v++) { q[i] = (uint8_t)(code[i] ^ v); if (!one(ctx, q, ctx.thorough ? MID : MIN)) return; } } else for (int v : {1, 2, 0x10, 0x7F, 0x80, 0xFF}) { q[i] = (uint8_t)(code[i] ^ v); if (!one(ctx, q, MIN)) return; }
        q = code; q.erase(q.begin() + (long)i); if (!one(ctx, q, LOW)) return; q = code; q.insert(q.begin() + (long)i, code[i]); if (!one(ctx, q, LOW)) return;
        if (i + 1 < code.size()) { q = code; std::swap(q[i], q[i + 1]); if (!one(ctx, q, LOW)) return; }
    }
    ctx.nontrivial();
}
static void any_data(Chooser& ch, Ctx& ctx) { // every data of up to 2 bytes, and longer over boundary bytes
    const string& t = ch.of(compiled()); int len = (int)ch.pick(ctx.thorough ? 7 : 6); if (!ctx.begin(fmt("all data of %d bytes for ", len) + t)) return; Bytes code; if (!load(ctx, t, code)) return;
    impl::Block b(code), d((size_t)len); cnd_program p; cnd_program_load(&p, b.p, b.n); static const uint8_t A[] = {0, 1, 2, 0x7F, 0x80, 0xFF}; long tot = 1; for (int i = 0; i < len; i++) tot *= len <= 2 ? 256 : 6; Bytes x((size_t)len + 1); const char* bad = nullptr;
    for (long c = 0; c < tot; c++) { long q = c; for (int i = 0; i < len; i++) { x[(size_t)i] = len <= 2 ? (uint8_t)q : A[q % 6]; q /= len <= 2 ? 256 : 6; } for (int pol = 0; pol < (len <= 2 ? 2 : 3); pol++) if (!run(ctx, code, p, d, x.data(), true, POL[pol], -1, &bad)) { x.pop_back(); ctx.fail(bad, "data " + hex(x)); return; } ctx.steps(); }
    ctx.nontrivial(); ctx.traces();
}
// Long arrays of operations: deep nesting, long expressions, far jumps
static void large(Chooser& ch, Ctx& ctx) {
    const auto& C = catalogue(false); const Bytes& a = ch.of(C); if (!ctx.begin("repeated " + hex(a))) return; for (int n : {2, 3, 7, 8, 9, 10, 16, 17, 33, 64, 65, 66, 100, 257}) { Bytes b; for (int i = 0; i < n; i++) b = cat(b, a); if (!one(ctx, b, MID)) return; for (int i = 0; i < n && i < 20; i++) b.push_back(0x38); if (!one(ctx, b, MID)) return; b = {}; for (int i = 0; i < n; i++) { b = cat(b, a); put(b, 0x61, 1); put(b, (uint64_t)i * 0x0101010101010101ull, 8); } if (!one(ctx, b, LOW)) return; } ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C01"; bool th = is_thorough(argc, argv); o.case_cpu_s = 120; (void)shape;
    o.rule = "Programs: all of up to 2 (thorough: 3) bytes and over boundary bytes 4 (5) bytes; every instruction of a catalogue of every opcode (defined or not) with extreme operands in each of ~50 states of the machine (nested loops up to and above the limit, bit mode, pending optional or transform, filled stack), whole and cut off at every byte; all pairs in every state; all triples; jumps and switches with every target and every place of their table; each compiled schema with every byte changed, removed, doubled, swapped and every truncation. Each is run in both modes over data of 0..40 bytes in several patterns with hosts giving 0, 1, 2, all ones, taking and refusing bulk transfers, failing at the first callbacks; compiled programs also over all data of up to 2 bytes and of up to 5 (6) boundary bytes. Program, data and context lie in memory blocks of exactly their size under AddressSanitizer and UBSan bounds; the host touches everything it is handed";
    o.assumptions = {"executions are cut off after 30000 edges of the VM's code", "a host of the documented protocol"};
    vector<mc::Family> f = { {"short programs", shorts}, {"states", states}, {"pairs in states", pairs}, {"wide pairs", wide_pairs}, {"triples", triples}, {"jumps", jumps}, {"damaged programs", mutants}, {"data", any_data}, {"large", large} };
    return mc::main_driver(argc, argv, o, f);
}
