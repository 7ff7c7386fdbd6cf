#include "isa.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
namespace isa {
const std::vector<Shape>& shapes() {
    static const std::vector<Shape> s = {
        {0x00, "NOOP", ""}, {0x01, "SET_ENDIAN_LE", ""}, {0x02, "SET_ENDIAN_BE", ""}, {0x03, "ENTER_STRUCT", "k"}, {0x04, "EXIT_STRUCT", ""}, {0x05, "META_VERSION", "1"}, {0x07, "META_NAME", "k"},
        {0x10, "IO_U8", "k"}, {0x11, "IO_U16", "k"}, {0x12, "IO_U32", "k"}, {0x13, "IO_U64", "k"}, {0x14, "IO_I8", "k"}, {0x15, "IO_I16", "k"}, {0x16, "IO_I32", "k"}, {0x17, "IO_I64", "k"}, {0x18, "IO_F32", "k"}, {0x19, "IO_F64", "k"}, {0x1A, "IO_BOOL", "k"},
        {0x20, "IO_BIT_U", "kb"}, {0x21, "IO_BIT_I", "kb"}, {0x22, "IO_BIT_BOOL", "k"}, {0x23, "ALIGN_PAD", "1"}, {0x24, "ALIGN_FILL", "1"}, {0x25, "ENTER_BIT_MODE", ""}, {0x26, "EXIT_BIT_MODE", ""},
        {0x30, "STR_NULL", "k2"}, {0x31, "STR_PRE_U8", "k"}, {0x32, "STR_PRE_U16", "k"}, {0x33, "STR_PRE_U32", "k"}, {0x34, "ARR_FIXED", "k4"}, {0x35, "ARR_PRE_U8", "k"}, {0x36, "ARR_PRE_U16", "k"}, {0x37, "ARR_PRE_U32", "k"}, {0x38, "ARR_END", ""}, {0x39, "RAW_BYTES", "k4"}, {0x3A, "ARR_EOF", "k"}, {0x3B, "ARR_DYNAMIC", "kk"},
        {0x40, "CONST_CHECK", "C"}, {0x41, "CONST_WRITE", "W"}, {0x42, "RANGE_CHECK", "R"}, {0x43, "SCALE_LIN", "88"}, {0x44, "CRC_16", "2221"}, {0x45, "TRANS_ADD", "8"}, {0x46, "TRANS_SUB", "8"}, {0x47, "TRANS_MUL", "8"}, {0x48, "TRANS_DIV", "8"}, {0x49, "CRC_32", "4441"}, {0x4A, "MARK_OPTIONAL", ""}, {0x4B, "ENUM_CHECK", "E"}, {0x4C, "TRANS_POLY", "P"}, {0x4D, "TRANS_SPLINE", "S"},
        {0x50, "JUMP_IF_NOT", "j"}, {0x51, "SWITCH", "kt"}, {0x52, "JUMP", "j"}, {0x53, "SWITCH_TABLE", "kt"},
        {0x60, "LOAD_CTX", "k"}, {0x61, "PUSH_IMM", "8"}, {0x62, "POP", ""}, {0x63, "SWAP", ""}, {0x64, "DUP", ""}, {0x65, "EMIT", "M"}, {0x69, "EQ", ""}, {0x6A, "NEQ", ""}, {0x6B, "GT", ""}, {0x6C, "LT", ""}, {0x6D, "GTE", ""}, {0x6E, "LTE", ""}, {0x6F, "LOG_AND", ""}, {0x70, "LOG_OR", ""}, {0x71, "LOG_NOT", ""},
        {0x72, "ADD", ""}, {0x73, "SUB", ""}, {0x74, "MUL", ""}, {0x75, "DIV", ""}, {0x76, "MOD", ""}, {0x77, "NEG", ""}, {0x78, "STORE_CTX", "k"},
        {0x80, "FADD", ""}, {0x81, "FSUB", ""}, {0x82, "FMUL", ""}, {0x83, "FDIV", ""}, {0x84, "FNEG", ""}, {0x85, "SIN", ""}, {0x86, "COS", ""}, {0x87, "TAN", ""}, {0x88, "SQRT", ""}, {0x89, "POW", ""}, {0x8A, "LOG", ""}, {0x8B, "ABS", ""},
        {0x90, "ITOF", ""}, {0x91, "FTOI", ""}, {0x92, "EQ_F", ""}, {0x93, "NEQ_F", ""}, {0x94, "GT_F", ""}, {0x95, "LT_F", ""}, {0x96, "GTE_F", ""}, {0x97, "LTE_F", ""},
        {0xA0, "BIT_AND", ""}, {0xA1, "BIT_OR", ""}, {0xA2, "BIT_XOR", ""}, {0xA3, "BIT_NOT", ""}, {0xA4, "SHL", ""}, {0xA5, "SHR", ""} };
    return s;
}
const Shape* shape(uint8_t op) { static std::vector<const Shape*> t; if (t.empty()) { t.assign(256, nullptr); for (auto& s : shapes()) t[s.op] = &s; } return t[op]; }
static int isz(uint8_t t) { switch (t) { case 0x10: case 0x14: return 1; case 0x11: case 0x15: return 2; case 0x12: case 0x16: return 4; case 0x13: case 0x17: return 8; } return 0; }
static uint64_t le(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
Prog parse(const std::vector<uint8_t>& b) {
    Prog r; size_t n = b.size(), ip = 0; auto bad = [&](const std::string& w) { r.why = w; return r; };
    std::map<size_t, size_t> tabs; // start -> end, of tables not reached yet
    std::map<size_t, bool> starts; std::set<size_t> table_starts;
    for (;;) {
        while (!tabs.empty() && tabs.begin()->first <= ip) {
            size_t s = tabs.begin()->first, e = tabs.begin()->second; tabs.erase(tabs.begin());
            if (s < ip) return bad("table overlaps code");
            if (!r.ins.empty() && r.ins.back().off + r.ins.back().len == s && r.ins.back().op != 0x52 && r.ins.back().op != 0x51 && r.ins.back().op != 0x53) return bad("code runs into a table");
            ip = e;
        }
        if (ip >= n) break;
        Ins x; x.off = ip; x.op = b[ip];
        if (x.op == 0x06) r.gray = true; // callback code, named in the opcode list
        const Shape* s = shape(x.op); if (!s) return bad(mc::fmt("undefined opcode %02X at %zu", x.op, ip));
        size_t p = ip + 1; auto need = [&](size_t k) { return p + k <= n; };
        for (const char* o = s->operands; *o; o++) {
            size_t k = 0;
            switch (*o) {
                case 'k': k = 2; if (need(2)) x.keys.push_back(p); break;
                case '1': case '2': case '4': case '8': k = (size_t)(*o - '0'); break;
                case 'b': k = 1; if (need(1) && (b[p] == 0 || b[p] > 64)) return bad("bit count"); break;
                case 'j': k = 4; break;
                case 't': k = 4; break;
                case 'P': k = need(1) ? 1 + 8u * b[p] : 1; break;
                case 'S': k = need(1) ? 1 + 16u * b[p] : 1; break;
                case 'M': k = 1; if (need(1) && !isz(b[p]) && b[p] != 0x18 && b[p] != 0x19 && b[p] != 0x1A) return bad("type"); break;
                case 'W': k = 1; if (need(1)) { if (!(b[p] >= 0x10 && b[p] <= 0x13)) return bad("type"); k = 1 + (size_t)isz(b[p]); } break;
                case 'C': k = 3; if (need(3)) { x.keys.push_back(p); if (!isz(b[p + 2])) return bad("type"); k = 3 + (size_t)isz(b[p + 2]); } break;
                case 'R': k = 1; if (need(1)) { int z = isz(b[p]); if (b[p] == 0x18) z = 4; if (b[p] == 0x19) z = 8; if (!z) return bad("type"); k = 1 + 2 * (size_t)z; } break;
                case 'E': k = 3; if (need(3)) { int z = isz(b[p]); if (!z) return bad("type"); k = 3 + (size_t)z * le(&b[p + 1], 2); } break;
            }
            if (!need(k)) return bad(mc::fmt("instruction at %zu is cut off", ip));
            p += k;
        }
        x.len = p - ip; starts[ip] = true;
        if (*s->operands == 'j') { x.jump = true; x.targets.push_back((int64_t)p + (int32_t)le(&b[p - 4], 4)); }
        if (s->operands[0] == 'k' && s->operands[1] == 't') {
            uint64_t at = p + le(&b[p - 4], 4); uint64_t sz;
            if (x.op == 0x51) { if (at + 6 > n) return bad("table outside"); sz = 6 + 12 * le(&b[at], 2); }
            else { if (at + 20 > n) return bad("table outside"); uint64_t lo = le(&b[at], 8), hi = le(&b[at + 8], 8); if (hi < lo) return bad("empty range"); if (hi - lo >= n) return bad("table outside"); sz = 20 + 4 * (hi - lo + 1); }
            if (at + sz > n) return bad("table outside");
            if (tabs.count(at)) r.gray = true; // two switches share a table
            tabs[at] = std::max(tabs[at], at + sz); table_starts.insert(at);
            if (tabs.size() > 64) r.gray = true;
            x.tab = at; x.tab_len = sz;
            if (x.op == 0x51) for (size_t i = at + 2; i < at + sz; i += 12) x.targets.push_back((int64_t)p + (int32_t)le(&b[i], 4));
            else for (size_t i = at + 16; i < at + sz; i += 4) x.targets.push_back((int64_t)p + (int32_t)le(&b[i], 4));
        }
        r.ins.push_back(x); ip = p;
    }
    for (auto& x : r.ins) for (int64_t t : x.targets) {
        if (t >= 0 && table_starts.count((size_t)t) && !starts.count((size_t)t)) r.gray = true; // where the code goes on behind the table
        else if (t < 0 || ((size_t)t != n && !starts.count((size_t)t))) return bad(mc::fmt("target %lld of the instruction at %zu", (long long)t, x.off));
        if (t <= (int64_t)x.off) r.backward = true;
    }
    int depth = 0; for (auto& x : r.ins) { if (x.op == 0x38) { if (!depth) r.stray_end = true; else depth--; } if ((x.op >= 0x34 && x.op <= 0x37) || x.op == 0x3A || x.op == 0x3B) depth++; }
    r.ok = true; return r;
}
}
