#include "ref.hpp"
#include "concordia.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <algorithm>

namespace ref {
using std::string; using std::vector; using mc::fmt;

double as_double(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t d_bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
uint32_t f_bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
float as_float(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }

const char* ty_name(Ty t) {
    static const char* n[] = {"uint8","uint16","uint32","uint64","int8","int16","int32","int64","float","double","bool","string","",""};
    return n[t];
}
const char* ty_alias(Ty t, int style) {
    static const char* n[] = {"u8","u16","u32","u64","i8","i16","i32","i64","f32","f64"};
    return t > F64 ? ty_name(t) : t == U8 && (style & SP_BYTE) ? "byte" : style & SP_ALIAS ? n[t] : ty_name(t);
}
// A number in hexadecimal notation
static string hexed(const string& t, int style) {
    if (!(style & SP_HEX) || t.empty() || t.size() > 19 || (t[0] == '0' && t.size() > 1)) return t; for (char c : t) if (c < '0' || c > '9') return t;
    return fmt("0x%llx", strtoull(t.c_str(), nullptr, 10));
}
int ty_size(Ty t) {
    static const int n[] = {1,2,4,8,1,2,4,8,4,8,1,0,0,0};
    return n[t];
}
int ty_op(Ty t) {
    static const int n[] = {OP_IO_U8,OP_IO_U16,OP_IO_U32,OP_IO_U64,OP_IO_I8,OP_IO_I16,OP_IO_I32,OP_IO_I64,OP_IO_F32,OP_IO_F64,OP_IO_BOOL,0,0,0};
    return n[t];
}
static uint64_t mask_bits(int b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
uint64_t ty_max(Ty t) { return is_signed(t) ? mask_bits(ty_size(t) * 8 - 1) : mask_bits(ty_size(t) * 8); }
int64_t ty_min(Ty t) { return is_signed(t) ? -(int64_t)mask_bits(ty_size(t) * 8 - 1) - 1 : 0; }
static int64_t sext(uint64_t v, int bits) { if (bits >= 64) return (int64_t)v; uint64_t m = 1ull << (bits - 1); v &= mask_bits(bits); return (int64_t)((v ^ m) - m); }

// ---- expressions ----
static EP mk(Expr e) { return std::make_shared<Expr>(std::move(e)); }
EP e_lit(const string& t, uint64_t v) { Expr e; e.k = Expr::INT; e.s = t; e.i = v; return mk(e); }
EP e_int(uint64_t v) { return e_lit(fmt("%llu", (unsigned long long)v), v); }
EP e_flt(const string& t, double v) { Expr e; e.k = Expr::FLT; e.s = t; e.f = v; return mk(e); }
EP e_bool(bool b) { Expr e; e.k = Expr::BOOLEAN; e.i = b; return mk(e); }
EP e_ref(const string& s) { Expr e; e.k = Expr::REF; e.s = s; return mk(e); }
EP e_un(const string& op, EP a) { Expr e; e.k = Expr::UN; e.s = op; e.a = {a}; return mk(e); }
EP e_bin(const string& op, EP a, EP b) { Expr e; e.k = Expr::BIN; e.s = op; e.a = {a, b}; return mk(e); }
EP e_fn(const string& f, vector<EP> a) { Expr e; e.k = Expr::FN; e.s = f; e.a = std::move(a); return mk(e); }

static int prec(const string& o) {
    static const std::map<string, int> p = {{"||",1},{"&&",2},{"|",3},{"^",4},{"&",5},{"==",6},{"!=",6},{"<",7},{">",7},{"<=",7},{">=",7},{"<<",8},{">>",8},{"+",9},{"-",9},{"*",10},{"/",10},{"%",10}};
    return p.at(o);
}
static int prec(const EP& e) { return e->k == Expr::BIN ? prec(e->s) : e->k == Expr::UN ? 11 : 12; }
string print_expr(const EP& e, bool minimal) {
    switch (e->k) {
        case Expr::INT: case Expr::FLT: case Expr::REF: return e->s;
        case Expr::BOOLEAN: return e->i ? "true" : "false";
        case Expr::UN: {
            string in = print_expr(e->a[0], minimal);
            if (prec(e->a[0]) < 11 || !minimal || in[0] == '-') in = "(" + in + ")";
            return e->s + in;
        }
        case Expr::BIN: {
            string l = print_expr(e->a[0], minimal), r = print_expr(e->a[1], minimal);
            if (prec(e->a[0]) < prec(e) || (!minimal && prec(e->a[0]) < 12)) l = "(" + l + ")";
            if (prec(e->a[1]) <= prec(e) || (!minimal && prec(e->a[1]) < 12)) r = "(" + r + ")";
            return l + " " + e->s + " " + r;
        }
        case Expr::FN: {
            string r = e->s + "(";
            for (size_t i = 0; i < e->a.size(); i++) r += (i ? ", " : "") + print_expr(e->a[i], minimal);
            return r + ")";
        }
    }
    return "";
}
int e_stack(const EP& e) {
    int m = 1;
    for (size_t i = 0; i < e->a.size(); i++) m = std::max(m, (int)i + e_stack(e->a[i]));
    return m;
}

// ---- schema ----
const Enum* Schema::find_enum(const string& n) const { for (auto& e : enums) if (e.name == n) return &e; return nullptr; }
const Struct* Schema::find_struct(const string& n) const { for (auto& e : structs) if (e.name == n) return &e; return nullptr; }
bool is_char_array(const Node& n) { return n.arr != A_NONE && (n.ty == U8 || n.ty == I8); }

string print_nodes(const Schema& s, const Nodes& ns, int ind) {
    string o, pad(ind * 4, ' ');
    for (auto& n : ns) {
        switch (n.k) {
            case Node::PAD: o += pad + fmt("@pad(%d);\n", n.val); break;
            case Node::FILL: o += pad + (n.val < 0 ? string("@fill;\n") : fmt("@fill(%d);\n", n.val)); break;
            case Node::IF: {
                for (size_t i = 0; i < n.blocks.size(); i++) {
                    o += i == 0 ? pad : " else ";
                    if (i < n.conds.size()) o += "if (" + print_expr(n.conds[i]) + ") ";
                    o += "{\n" + print_nodes(s, n.blocks[i], ind + 1) + pad + "}";
                }
                o += "\n";
                break;
            }
            case Node::SWITCH: {
                o += pad + "switch (" + n.ref + ") {\n";
                for (size_t i = 0; i < n.bodies.size(); i++) {
                    o += pad + "  " + ((int)i == n.def ? string("default:") : "case " + hexed(n.labels[i], s.style) + ":");
                    if (n.braces || n.bodies[i].size() != 1) o += " {\n" + print_nodes(s, n.bodies[i], ind + 1) + pad + "  }\n";
                    else o += "\n" + print_nodes(s, n.bodies[i], ind + 1);
                }
                o += pad + "}\n";
                break;
            }
            case Node::FIELD: {
                o += pad; int y = s.style; vector<string> d;
                if (n.endian == 0) d.push_back(y & SP_DECO ? "@le " : "@little_endian ");
                if (n.endian == 1) d.push_back(y & SP_DECO ? "@be " : "@big_endian ");
                if (n.optional) d.push_back("@optional ");
                if (n.has_const) d.push_back((y & SP_DECO ? "@match(" : "@const(") + hexed(n.ctext, y) + ") ");
                if (n.has_range) d.push_back("@range(" + (is_float(n.ty) ? n.rlo : hexed(n.rlo, y)) + ", " + (is_float(n.ty) ? n.rhi : hexed(n.rhi, y)) + ") ");
                switch (n.tr) {
                    case T_NONE: break;
                    case T_SCALE: d.push_back("@scale(" + n.tft[0] + ") "); break;
                    case T_OFFSET: d.push_back("@offset(" + n.tft[1] + ") "); break;
                    case T_SCALEOFF: d.push_back("@scale(" + n.tft[0] + ") "); d.push_back("@offset(" + n.tft[1] + ") "); break;
                    case T_ADD: d.push_back(fmt("@add(%lld) ", (long long)n.ti)); break;
                    case T_SUB: d.push_back(fmt("@sub(%lld) ", (long long)n.ti)); break;
                    case T_MUL: d.push_back(fmt("@mul(%lld) ", (long long)n.ti)); break;
                    case T_DIV: d.push_back(fmt("@div(%lld) ", (long long)n.ti)); break;
                    case T_POLY: case T_SPLINE: {
                        string q = n.tr == T_POLY ? "@poly(" : "@spline(";
                        for (size_t i = 0; i < n.tft.size(); i++) q += (i ? ", " : "") + n.tft[i];
                        d.push_back(q + ") "); break; }
                }
                if (n.crc) d.push_back(fmt("@crc(%d) ", n.crc) + n.crc_deco);
                if (n.expr) d.push_back("@expr(" + print_expr(n.expr) + ") ");
                if (n.arr == A_COUNT) d.push_back((y & SP_DECO ? "@len(" : "@count(") + hexed(fmt("%u", n.n), y) + ") ");
                if (n.arr == A_DYN) d.push_back((y & SP_DECO ? "@len(" : "@count(") + n.ref + ") ");
                if (n.arr == A_EOF) d.push_back("@eof ");
                d.push_back(n.extra_deco);
                if (y & SP_REVERSE) std::reverse(d.begin(), d.end()); if (y & SP_ROTATE) std::rotate(d.begin(), d.begin() + 1, d.end());
                for (auto& q : d) o += q;
                o += (n.ty == ENUM || n.ty == STRUCT ? n.tname : string(ty_alias(n.ty, y))) + (y & SP_LAYOUT ? "\t/* c */\r\n" : " ") + n.name;
                if (n.bits) o += " : " + hexed(fmt("%d", n.bits), y);
                if (n.arr == A_FIX) o += "[" + hexed(fmt("%u", n.n), y) + "]";
                else if (n.arr != A_NONE) o += "[]";
                if (n.arr == A_PRE) o += (n.prew == 1 && (y & SP_BYTE)) ? string(" prefix byte") : fmt(y & SP_ALIAS ? " prefix u%d" : " prefix uint%d", n.prew * 8);
                else if (n.ty == STR) {
                    if (n.strk == 1) o += y & SP_HEX ? " until 0" : " until 0x00";
                    if (n.strk == 5) o += " until 0 max " + hexed(fmt("%d", n.maxlen), y);
                    if (n.strk == 0 && n.show_max) o += " max " + hexed(fmt("%d", n.maxlen), y);
                    if (n.strk >= 2 && n.strk <= 4) o += (n.strk == 2 && (y & SP_BYTE)) ? string(" prefix byte") : fmt(y & SP_ALIAS ? " prefix u%d" : " prefix uint%d", 8 << (n.strk - 2));
                }
                o += y & SP_LAYOUT ? " /* d */\n;// c\r\n" : ";\n";
                break;
            }
        }
    }
    return o;
}
string print(const Schema& s) {
    string o;
    if (s.version >= 0) o += fmt("@version(%d)\n", s.version);
    const char* e = s.file_endian == 1 ? s.style & SP_DECO ? "@be\n" : "@big_endian\n" : s.file_endian == 0 ? s.style & SP_DECO ? "@le\n" : "@little_endian\n" : "";
    if (!s.endian_after) o += e;
    for (auto& en : s.enums) {
        o += "enum " + en.name + (en.expl ? string(" : ") + ty_alias(en.under, s.style) : string()) + " {\n";
        for (size_t i = 0; i < en.m.size(); i++) {
            o += "    " + en.m[i].first;
            bool impl = i < en.implicit.size() && en.implicit[i];
            if (!impl) o += is_signed(en.under) ? fmt(" = %lld", (long long)sext(en.m[i].second, ty_size(en.under) * 8)) : " = " + hexed(fmt("%llu", (unsigned long long)en.m[i].second), s.style);
            o += i + 1 < en.m.size() ? ",\n" : "\n";
        }
        o += "}\n";
    }
    for (auto& st : s.structs) {
        if (st.unaligned) o += "@unaligned_bytes\n";
        o += "struct " + st.name + " {\n" + print_nodes(s, st.f) + "}\n";
    }
    if (s.endian_after) o += e;
    if (!s.alias.empty()) o += "packet " + s.packet + " = " + s.alias + ";\n";
    else o += "packet " + s.packet + " {\n" + print_nodes(s, s.body) + "}\n";
    return o;
}

string Ev::str() const {
    string r = fmt("op=0x%02X", op);
    if (keyed) r += " key=" + key;
    if (k == NUM) r += fmt(" bits=0x%llX", (unsigned long long)bits);
    if (k == CNT) r += fmt(" count=%llu", (unsigned long long)bits);
    if (k == TEXT) r += " text=" + mc::hex((const uint8_t*)s.data(), s.size());
    if (missing) r += " missing";
    return r;
}

// ---- CRC, bit at a time, message polynomial form ----
uint32_t crc(const uint8_t* p, size_t n, int width, uint32_t poly, uint32_t init, uint32_t xorout, bool refin, bool refout) {
    uint64_t top = 1ull << (width - 1), mask = mask_bits(width), reg = init & mask;
    for (size_t i = 0; i < n; i++) for (int b = 0; b < 8; b++) {
        int bit = refin ? (p[i] >> b) & 1 : (p[i] >> (7 - b)) & 1;
        bool out = ((reg & top) != 0) != (bit != 0);
        reg = (reg << 1) & mask;
        if (out) reg ^= poly & mask;
    }
    if (refout) { uint64_t r = 0; for (int i = 0; i < width; i++) if (reg >> i & 1) r |= 1ull << (width - 1 - i); reg = r; }
    return (uint32_t)((reg ^ xorout) & mask);
}

// ---- interpreter ----
struct Stop { int err; };
struct Val { uint64_t v = 0; bool flt = false; };

struct Walker {
    const Schema& s; Gen* g; Run& r;
    bool enc; size_t cur = 0; int bit = 0; int bit_endian = 0; // bit: used bits of the byte at cur
    std::map<string, Val> tbl;
    int loops = 0;
    bool opt_next = false;

    Walker(const Schema& sc, Gen* gen, Run& run) : s(sc), g(gen), r(run), enc(gen != nullptr) {}

    void align() { if (bit) { bit = 0; cur++; } }
    size_t len() const { return r.bytes.size(); }

    void put_byte(size_t at, uint8_t v) { if (at >= r.bytes.size()) r.bytes.resize(at + 1, 0); r.bytes[at] = v; }
    void put(uint64_t v, int size, int endian) {
        for (int i = 0; i < size; i++) put_byte(cur + i, (uint8_t)(v >> 8 * (endian ? size - 1 - i : i)));
        cur += size;
    }
    uint64_t get(int size, int endian) {
        uint64_t v = 0;
        for (int i = 0; i < size; i++) v |= (uint64_t)r.bytes[cur + i] << 8 * (endian ? size - 1 - i : i);
        cur += size;
        return v;
    }
    bool bits_fit(int n) const { return (cur * 8 + bit + n) <= len() * 8; }
    void note_bits(int endian) { if (bit && bit_endian != endian) r.unspecified = true; bit_endian = endian; }
    void put_bits(uint64_t v, int n, int endian) {
        note_bits(endian);
        for (int i = 0; i < n; i++) {
            int b = endian ? (v >> (n - 1 - i)) & 1 : (v >> i) & 1;
            uint8_t m = endian ? 0x80 >> bit : 1 << bit;
            uint8_t old = bit ? r.bytes[cur] : 0;
            put_byte(cur, b ? old | m : old);
            if (++bit == 8) { bit = 0; cur++; }
        }
    }
    uint64_t get_bits(int n, int endian) {
        note_bits(endian);
        uint64_t v = 0;
        for (int i = 0; i < n; i++) {
            int b = endian ? (r.bytes[cur] >> (7 - bit)) & 1 : (r.bytes[cur] >> bit) & 1;
            if (endian) v = v << 1 | b; else v |= (uint64_t)b << i;
            if (++bit == 8) { bit = 0; cur++; }
        }
        return v;
    }
    // In decode: true if the field is an optional one that is not there any more
    bool missing(const Node& n, bool fits) {
        if (enc || fits) return false;
        if (!n.optional) throw Stop{CND_ERR_OOB};
        cur = len(); bit = 0;
        return true;
    }

    Ev& push(Ev e) { e.wire_pos = cur; e.partial = bit != 0; r.ev.push_back(std::move(e)); return r.ev.back(); }
    void mark(int op, const string& key = "", bool keyed = false) { Ev e; e.op = (uint8_t)op; e.key = key; e.keyed = keyed; push(e); }

    void set_ctx(Ev& e, uint64_t v, bool flt) { e.has_ctx = true; e.ctxv = v; e.ctxflt = flt; tbl[e.key] = Val{v, flt}; }

    string pre;
    string q(const string& n) const { return pre + n; }

    // ---- expressions ----
    int type_of(const EP& e) {
        switch (e->k) {
            case Expr::INT: case Expr::BOOLEAN: return 0;
            case Expr::FLT: return 1;
            case Expr::REF: { auto it = ftype.find(q(e->s)); return it != ftype.end() && it->second; }
            case Expr::UN: return e->s == "-" ? type_of(e->a[0]) : 0;
            case Expr::FN: return e->s == "int" ? 0 : 1;
            case Expr::BIN: {
                if (e->s == "+" || e->s == "-" || e->s == "*" || e->s == "/") return type_of(e->a[0]) || type_of(e->a[1]);
                return 0;
            }
        }
        return 0;
    }
    std::map<string, bool> ftype; // qualified field name -> floating

    static double to_d(Val v) { return v.flt ? as_double(v.v) : (double)(int64_t)v.v; }
    static Val vd(double d) { return Val{d_bits(d), true}; }
    static Val vi(uint64_t i) { return Val{i, false}; }
    Val eval(const EP& e) {
        switch (e->k) {
            case Expr::INT: case Expr::BOOLEAN: return vi(e->i);
            case Expr::FLT: return vd(e->f);
            case Expr::REF: {
                auto it = tbl.find(q(e->s));
                if (it == tbl.end()) throw Stop{CND_ERR_CALLBACK};
                return it->second;
            }
            case Expr::UN: {
                Val a = eval(e->a[0]);
                if (e->s == "-") return a.flt ? vd(-as_double(a.v)) : vi(0 - a.v);
                if (a.flt && e->s == "!") { if (a.v == d_bits(-0.0)) r.unspecified = true; return vi(as_double(a.v) == 0.0); }
                if (e->s == "!") return vi(!a.v);
                return vi(~a.v);
            }
            case Expr::FN: {
                Val a = eval(e->a[0]);
                if (e->s == "int") {
                    if (!a.flt) return a;
                    double d = as_double(a.v);
                    if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) throw Stop{CND_ERR_ARITHMETIC};
                    return vi((uint64_t)(int64_t)d);
                }
                double d = to_d(a);
                if (e->s == "float") return vd(d);
                if (e->s == "sin") return vd(sin(d));
                if (e->s == "cos") return vd(cos(d));
                if (e->s == "tan") return vd(tan(d));
                if (e->s == "abs") return vd(fabs(d));
                if (e->s == "sqrt") { if (d < 0) throw Stop{CND_ERR_ARITHMETIC}; return vd(sqrt(d)); }
                if (e->s == "log") { if (d <= 0) throw Stop{CND_ERR_ARITHMETIC}; return vd(log(d)); }
                if (e->s == "pow") {
                    double b = to_d(eval(e->a[1]));
                    if ((d < 0 && floor(b) != b) || (d == 0 && b < 0)) throw Stop{CND_ERR_ARITHMETIC};
                    if (d == 0 && b == 0) r.unspecified = true;
                    return vd(pow(d, b));
                }
                return vi(0);
            }
            case Expr::BIN: {
                Val a = eval(e->a[0]);
                Val b;
                const string& o = e->s;
                if (o == "&&" || o == "||") {
                    // The language does not say whether the right side is evaluated when the left one decides
                    bool av = a.flt ? as_double(a.v) != 0 : a.v != 0;
                    if (a.flt && a.v == d_bits(-0.0)) r.unspecified = true;
                    try { b = eval(e->a[1]); } catch (Stop&) { if (av == (o == "||")) r.unspecified = true; throw; }
                    if (b.flt && b.v == d_bits(-0.0)) r.unspecified = true;
                    bool bv = b.flt ? as_double(b.v) != 0 : b.v != 0;
                    return vi(o == "&&" ? av && bv : av || bv);
                }
                b = eval(e->a[1]);
                if (a.flt || b.flt) {
                    double x = to_d(a), y = to_d(b);
                    if (o == "+") return vd(x + y);
                    if (o == "-") return vd(x - y);
                    if (o == "*") return vd(x * y);
                    if (o == "/") { if (y == 0) throw Stop{CND_ERR_ARITHMETIC}; return vd(x / y); }
                    if (o == "==") return vi(x == y);
                    if (o == "!=") return vi(x != y);
                    if (o == "<") return vi(x < y);
                    if (o == ">") return vi(x > y);
                    if (o == "<=") return vi(x <= y);
                    if (o == ">=") return vi(x >= y);
                    r.unspecified = true; return vi(0);
                }
                uint64_t x = a.v, y = b.v;
                if (o == "+") return vi(x + y);
                if (o == "-") return vi(x - y);
                if (o == "*") return vi(x * y);
                if (o == "/") { if (!y) throw Stop{CND_ERR_ARITHMETIC}; return vi(x / y); }
                if (o == "%") { if (!y) throw Stop{CND_ERR_ARITHMETIC}; return vi(x % y); }
                if (o == "&") return vi(x & y);
                if (o == "|") return vi(x | y);
                if (o == "^") return vi(x ^ y);
                if (o == "<<") return vi(y < 64 ? x << y : 0);
                if (o == ">>") return vi(y < 64 ? x >> y : 0);
                if (o == "==") return vi(x == y);
                if (o == "!=") return vi(x != y);
                if (o == "<") return vi(x < y);
                if (o == ">") return vi(x > y);
                if (o == "<=") return vi(x <= y);
                if (o == ">=") return vi(x >= y);
                return vi(0);
            }
        }
        return Val{};
    }
    Val eval_top(const EP& e) {
        if (e_stack(e) > CND_MAX_EXPR_STACK) {
            // The error comes when the stack is full; an earlier one in evaluation order may win
            try { eval(e); } catch (Stop&) { r.unspecified = true; }
            throw Stop{CND_ERR_STACK_OVERFLOW};
        }
        return eval(e);
    }

    // ---- transforms ----
    static bool f_trans(const Node& n) { return n.tr == T_SCALE || n.tr == T_OFFSET || n.tr == T_SCALEOFF || n.tr == T_POLY || n.tr == T_SPLINE; }
    static double fwd_f(const Node& n, double x) {
        if (n.tr == T_POLY) { double y = 0, p = 1; for (double c : n.tf) { y += c * p; p *= x; } return y; }
        if (n.tr == T_SPLINE) {
            size_t np = n.tf.size() / 2;
            if (np < 2) return 0;
            size_t i = 0;
            while (i + 2 < np && x > n.tf[2 * (i + 1)]) i++;
            double x0 = n.tf[2 * i], y0 = n.tf[2 * i + 1], x1 = n.tf[2 * i + 2], y1 = n.tf[2 * i + 3];
            return x1 == x0 ? y0 : y0 + (x - x0) * (y1 - y0) / (x1 - x0);
        }
        return x * n.tf[0] + n.tf[1];
    }
    static bool fwd_i(const Node& n, int64_t x, int64_t* y) {
        switch (n.tr) {
            case T_ADD: return !__builtin_add_overflow(x, n.ti, y);
            case T_SUB: return !__builtin_sub_overflow(x, n.ti, y);
            case T_MUL: return !__builtin_mul_overflow(x, n.ti, y);
            case T_DIV: if (n.ti == 0) { *y = x; return true; } if (x == INT64_MIN && n.ti == -1) return false; *y = x / n.ti; return true;
            default: *y = x; return true;
        }
    }
    static bool inv_i(const Node& n, int64_t y, int64_t* x) {
        switch (n.tr) {
            case T_ADD: return !__builtin_sub_overflow(y, n.ti, x);
            case T_SUB: return !__builtin_add_overflow(y, n.ti, x);
            case T_DIV: return !__builtin_mul_overflow(y, n.ti ? n.ti : 1, x);
            case T_MUL: if (n.ti == 0) { *x = y; return true; } if (y == INT64_MIN && n.ti == -1) return false; *x = y / n.ti; return true;
            default: *x = y; return true;
        }
    }

    // ---- fields ----
    void check_value(const Node& n, Ty ty, uint64_t raw) {
        // After the value has been handed over
        if (n.ty == ENUM) {
            const Enum* e = s.find_enum(n.tname); bool ok = false;
            for (auto& m : e->m) if ((m.second & mask_bits(ty_size(ty) * 8)) == raw) ok = true;
            if (!ok) { r.ev.back().maybe = true; throw Stop{CND_ERR_VALIDATION}; }
        }
        if (n.has_range) {
            bool ok;
            if (ty == F32) { float v = as_float((uint32_t)raw); ok = v >= (float)n.fl && v <= (float)n.fh; }
            else if (ty == F64) { double v = as_double(raw); ok = v >= n.fl && v <= n.fh; }
            else if (is_signed(ty)) { int64_t v = sext(raw, ty_size(ty) * 8); ok = v >= (int64_t)n.rl && v <= (int64_t)n.rh; }
            else ok = raw >= n.rl && raw <= n.rh;
            if (!ok) { r.ev.back().maybe = true; throw Stop{CND_ERR_VALIDATION}; }
        }
    }

    void scalar(const Node& n, int e) {
        Ty ty = n.ty == ENUM ? s.find_enum(n.tname)->under : n.ty;
        int size = ty_size(ty);
        string key = q(n.name);
        Ev ev; ev.key = key; ev.k = Ev::NUM;
        if (n.bits) {
            ev.width = n.bits;
            ev.op = ty == BOOL ? OP_IO_BIT_BOOL : is_signed(ty) ? OP_IO_BIT_I : OP_IO_BIT_U;
            ev.size = ty == BOOL ? 1 : 8;
            ftype[key] = false;
            if (missing(n, enc || bits_fit(n.bits))) { ev.missing = true; push(ev); set_ctx(r.ev.back(), 0, false); return; }
            if (enc) {
                uint64_t raw = g->raw(n, ty, n.bits);
                ev.bits = ty == BOOL ? raw : is_signed(ty) ? (uint64_t)sext(raw, n.bits) : raw;
                Ev& x = push(ev);
                if (ty == BOOL && raw > 1) { x.maybe = true; throw Stop{CND_ERR_VALIDATION}; }
                set_ctx(x, ev.bits, false);
                put_bits(raw, n.bits, e);
            } else {
                uint64_t raw = get_bits(n.bits, e);
                ev.bits = is_signed(ty) ? (uint64_t)sext(raw, n.bits) : raw;
                set_ctx(push(ev), ev.bits, false);
            }
            return;
        }
        align();
        if (n.has_const) {
            ev.op = (uint8_t)ty_op(ty); ev.size = size; ev.silent_enc = true;
            ev.bits = n.cval & mask_bits(size * 8);
            uint64_t cv = is_signed(ty) ? (uint64_t)sext(ev.bits, size * 8) : ev.bits;
            ftype[key] = false;
            if (missing(n, enc || cur + size <= len())) { ev.bits = 0; ev.missing = true; set_ctx(push(ev), 0, false); return; }
            if (enc) { put(ev.bits, size, e); set_ctx(push(ev), cv, false); }
            else {
                uint64_t raw = get(size, e);
                if (raw != ev.bits) throw Stop{CND_ERR_VALIDATION};
                set_ctx(push(ev), cv, false);
            }
            check_value(n, ty, ev.bits);
            return;
        }
        if (n.crc) {
            size = n.crc / 8;
            uint32_t c = crc(r.bytes.data(), cur, n.crc, n.cpoly, n.cinit, n.cxor, n.crefin, n.crefout);
            if (missing(n, enc || cur + size <= len())) return;
            if (enc) put(c, size, e);
            else if (get(size, e) != c) throw Stop{CND_ERR_CRC_MISMATCH};
            return;
        }
        if (n.expr) {
            Val v = eval_top(n.expr);
            bool fl = is_float(ty);
            if (v.flt && !fl) { double d = as_double(v.v); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) throw Stop{CND_ERR_ARITHMETIC}; v = vi((uint64_t)(int64_t)d); }
            if (!v.flt && fl) v = vd((double)(int64_t)v.v);
            ev.op = OP_STORE_CTX; ev.bits = v.v; ev.size = fl ? 8 : size; ev.flt = fl; ev.tol = fl;
            ftype[key] = fl;
            Ev& x = push(ev); set_ctx(x, v.v, fl);
            if (ty == BOOL && v.v > 1) { x.maybe = true; throw Stop{CND_ERR_VALIDATION}; }
            uint64_t wire = ty == F32 ? f_bits((float)as_double(v.v)) : v.v & mask_bits(size * 8);
            if (!enc && missing(n, cur + size <= len())) return;
            if (enc) put(wire, size, e);
            else {
                uint64_t raw = get(size, e);
                bool ok = raw == wire;
                if (!ok && ty == F32) { double a = as_float((uint32_t)raw), b = as_float((uint32_t)wire); if (fabs(a - b) <= 0.0001) r.unspecified = true; }
                if (!ok && ty == F64) { double a = as_double(raw), b = as_double(wire); if (fabs(a - b) <= 0.000001) r.unspecified = true; }
                if (!ok) throw Stop{CND_ERR_VALIDATION};
            }
            return;
        }
        // Plain, possibly transformed
        bool ft = n.tr != T_NONE && f_trans(n), it = n.tr != T_NONE && !ft;
        ev.op = (uint8_t)(ft ? OP_IO_F64 : it ? OP_IO_I64 : ty_op(ty));
        ev.size = n.tr != T_NONE ? 8 : size;
        ev.flt = ft || (!it && is_float(ty)); ev.tol = ft;
        ftype[key] = ev.flt;
        if (missing(n, enc || cur + size <= len())) { ev.missing = true; ev.bits = 0; set_ctx(push(ev), 0, ev.flt); return; }
        auto to_ev = [&](uint64_t raw) -> bool { // raw wire bits to the value of the event
            if (n.tr == T_NONE) { ev.bits = raw; return true; }
            if (ft) {
                double x = ty == F32 ? (double)as_float((uint32_t)raw) : ty == F64 ? as_double(raw) : is_signed(ty) ? (double)sext(raw, size * 8) : (double)raw;
                ev.bits = d_bits(fwd_f(n, x)); return true;
            }
            int64_t x;
            if (is_float(ty)) {
                double d = ty == F32 ? (double)as_float((uint32_t)raw) : as_double(raw);
                if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return false;
                x = (int64_t)d;
            } else if (is_signed(ty)) x = sext(raw, size * 8);
            else { if (raw > (uint64_t)INT64_MAX) return false; x = (int64_t)raw; }
            int64_t y; if (!fwd_i(n, x, &y)) return false;
            ev.bits = (uint64_t)y; return true;
        };
        auto ctx_of = [&]() -> uint64_t {
            if (n.tr != T_NONE) return ev.bits;
            if (ty == F32) return d_bits((double)as_float((uint32_t)ev.bits));
            if (is_signed(ty)) return (uint64_t)sext(ev.bits, size * 8);
            return ev.bits;
        };
        if (enc) {
            uint64_t raw = g->raw(n, ty, size * 8);
            if (!to_ev(raw)) { // no engineering value: hand over the largest one, which cannot be encoded either
                ev.bits = INT64_MAX; ev.maybe = false; push(ev);
                int64_t x; bool ok = inv_i(n, INT64_MAX, &x);
                if (ok && (is_signed(ty) ? x <= (int64_t)ty_max(ty) && x >= ty_min(ty) : x >= 0 && (uint64_t)x <= ty_max(ty))) r.unspecified = true;
                if (is_float(ty)) r.unspecified = true;
                throw Stop{CND_ERR_ARITHMETIC};
            }
            set_ctx(push(ev), ctx_of(), ev.flt);
            if (it) { // undone exactly as integers
                int64_t x;
                if (is_float(ty)) { inv_i(n, (int64_t)ev.bits, &x); raw = ty == F32 ? f_bits((float)x) : d_bits((double)x); }
                else {
                    if (!inv_i(n, (int64_t)ev.bits, &x) || (is_signed(ty) ? x > (int64_t)ty_max(ty) || x < ty_min(ty) : x < 0 || (uint64_t)x > ty_max(ty))) throw Stop{CND_ERR_ARITHMETIC};
                    raw = (uint64_t)x & mask_bits(size * 8);
                }
            }
            if (ty == BOOL && raw > 1) { r.ev.back().maybe = true; throw Stop{CND_ERR_VALIDATION}; }
            size_t at = cur;
            put(raw, size, e);
            (void)at;
            check_value(n, ty, raw);
        } else {
            uint64_t raw = get(size, e);
            if (ty == BOOL && raw > 1) throw Stop{CND_ERR_VALIDATION};
            if (!to_ev(raw)) throw Stop{CND_ERR_ARITHMETIC};
            set_ctx(push(ev), ctx_of(), ev.flt);
            check_value(n, ty, raw);
        }
    }

    void text(const Node& n, int e) {
        align();
        Ev ev; ev.key = q(n.name); ev.k = Ev::TEXT; ev.strk = n.strk; ev.maxlen = n.strk < 2 || n.strk == 5 ? n.maxlen : n.strk == 2 ? 255 : n.strk == 3 ? 65535 : 1 << 30;
        bool nul = n.strk < 2 || n.strk == 5;
        int w = nul ? 0 : 1 << (n.strk - 2);
        ev.op = (uint8_t)(nul ? OP_STR_NULL : n.strk == 2 ? OP_STR_PRE_U8 : n.strk == 3 ? OP_STR_PRE_U16 : OP_STR_PRE_U32);
        if (enc) {
            ev.s = g->text(n);
            push(ev);
            string t = ev.s;
            if (nul && t.size() > (size_t)n.maxlen) { t.resize(n.maxlen); r.unspecified = true; }
            if ((w == 1 || w == 2) && t.size() > (size_t)ev.maxlen) { t.resize((size_t)ev.maxlen); r.unspecified = true; }
            if (w) put(t.size(), w, e);
            for (char c : t) put_byte(cur++, (uint8_t)c);
            if (nul) put_byte(cur++, 0);
            return;
        }
        if (nul) {
            size_t k = cur; while (k < len() && r.bytes[k] && k - cur <= (size_t)n.maxlen) k++;
            if (k - cur > (size_t)n.maxlen) { if (k == len() && n.optional) r.unspecified = true; throw Stop{CND_ERR_VALIDATION}; }
            if (missing(n, k < len())) { ev.missing = true; push(ev); return; }
            ev.s.assign((const char*)r.bytes.data() + cur, k - cur);
            push(ev); cur = k + 1;
        } else {
            bool fits = cur + w <= len();
            uint64_t l = 0; size_t at = cur;
            if (fits) { l = get(w, e); cur = at; fits = l <= len() - cur - w; }
            if (missing(n, fits)) { ev.missing = true; push(ev); return; }
            ev.s.assign((const char*)r.bytes.data() + cur + w, l);
            push(ev); cur += w + l;
        }
    }

    void element(const Node& n, int e) {
        if (n.ty == STR) text(n, e);
        else if (n.ty == STRUCT) {
            const Struct* st = s.find_struct(n.tname);
            mark(OP_ENTER_STRUCT, q(n.name), true);
            string save = pre; pre = q(n.name) + ".";
            if (st->unaligned) {
                if (bit) r.unspecified = true;
                nodes(st->f, 1, true);
                if (bit) throw Stop{CND_ERR_VALIDATION};
            } else nodes(st->f, e, false);
            pre = save;
            mark(OP_EXIT_STRUCT);
        } else scalar(n, e);
    }

    void field(const Node& n0, int amb, bool unaligned) {
        Node n = n0;
        if (unaligned && !n.bits && n.k == Node::FIELD) n.bits = n.ty == BOOL ? 1 : ty_size(n.ty) * 8;
        int e = n.endian >= 0 ? n.endian : amb;
        if (n.arr == A_NONE) { element(n, e); return; }
        align();
        if (loops >= CND_MAX_LOOP_DEPTH) r.unspecified = true; // the limit is judged separately
        Ev ev; ev.key = q(n.name); ev.k = Ev::CNT;
        uint64_t count = 0; bool eof = false;
        switch (n.arr) {
            case A_FIX: case A_COUNT: ev.op = OP_ARR_FIXED; count = n.n; ev.bits = count; ev.size = 4; push(ev); break;
            case A_PRE: {
                ev.op = (uint8_t)(n.prew == 1 ? OP_ARR_PRE_U8 : n.prew == 2 ? OP_ARR_PRE_U16 : OP_ARR_PRE_U32);
                ev.size = n.prew;
                if (enc) { count = g->count(n); ev.bits = count; push(ev); put(count, n.prew, e); }
                else if (missing(n, cur + n.prew <= len())) { ev.missing = true; push(ev); }
                else { count = get(n.prew, e); ev.bits = count; push(ev); }
                break;
            }
            case A_DYN: {
                auto it = tbl.find(q(n.ref));
                if (it == tbl.end()) throw Stop{CND_ERR_CALLBACK};
                count = it->second.v;
                if (count > 0xFFFFFFFFull) throw Stop{CND_ERR_ARITHMETIC};
                ev.op = OP_ARR_DYNAMIC; ev.size = 4; ev.bits = count; push(ev); break;
            }
            case A_EOF: {
                ev.op = OP_ARR_EOF; ev.size = 4;
                if (enc) { count = g->count(n); ev.bits = count; } else { eof = true; ev.bits = 0xFFFFFFFFu; }
                push(ev); break;
            }
            default: break;
        }
        Node el = n; el.arr = A_NONE;
        if (n.arr == A_PRE || n.arr == A_EOF) el.optional = false; // only the count may be missing
        loops++;
        if (eof) {
            while (cur < len()) {
                size_t c0 = cur;
                element(el, e); align();
                if (cur == c0 && cur < len()) { r.ev.back().maybe = true; throw Stop{CND_ERR_VALIDATION}; }
            }
        } else for (uint64_t i = 0; i < count; i++) {
            if (r.ev.size() > 300000) { r.unspecified = true; throw Stop{-1}; }
            element(el, e); align();
        }
        loops--;
        mark(OP_ARR_END);
    }

    void nodes(const Nodes& ns, int amb, bool un) {
        for (auto& n : ns) switch (n.k) {
            case Node::FIELD: field(n, amb, un); break;
            case Node::PAD:
                if (enc) put_bits(0, n.val, amb);
                else { if (!bits_fit(n.val)) throw Stop{CND_ERR_OOB}; note_bits(amb); size_t t = cur * 8 + bit + n.val; cur = t / 8; bit = (int)(t % 8); }
                break;
            case Node::FILL:
                if (bit) { if (enc) { note_bits(amb); put_bits(n.val > 0 ? ~0ull : 0, 8 - bit, amb); } else align(); }
                break;
            case Node::IF: {
                bool done = false;
                for (size_t i = 0; i < n.blocks.size() && !done; i++) {
                    bool take = true;
                    if (i < n.conds.size()) { Val v = eval_top(n.conds[i]); if (v.flt && v.v == d_bits(-0.0)) r.unspecified = true; take = v.flt ? as_double(v.v) != 0 : v.v != 0; }
                    if (take) { nodes(n.blocks[i], amb, un); done = true; }
                }
                break;
            }
            case Node::SWITCH: {
                auto it = tbl.find(q(n.ref));
                if (it == tbl.end()) throw Stop{CND_ERR_CALLBACK};
                uint64_t v = it->second.v;
                int t = n.def;
                for (size_t i = 0; i < n.bodies.size(); i++) if ((int)i != n.def && n.lvals[i] == v) t = (int)i;
                if (t >= 0) nodes(n.bodies[t], amb, un);
                break;
            }
        }
    }
    void top() {
        int e = s.file_endian == 1 ? 1 : 0;
        try {
            if (!s.alias.empty()) {
                const Struct* st = s.find_struct(s.alias);
                if (st->unaligned) { nodes(st->f, 1, true); if (bit) throw Stop{CND_ERR_VALIDATION}; }
                else nodes(st->f, e, false);
            } else nodes(s.body, e, false);
        } catch (Stop& st) { r.err = st.err; }
        r.consumed = cur + (bit ? 1 : 0);
    }
};

Run encode(const Schema& s, Gen& g) { Run r; Walker w(s, &g, r); w.top(); return r; }
Run decode(const Schema& s, const vector<uint8_t>& b) { Run r; r.bytes = b; Walker w(s, nullptr, r); w.top(); return r; }

// ---- value domains ----
uint32_t DomGen::choose(uint32_t n) {
    drawn++;
    if (n > (uint32_t)width) n = width;
    if (drawn > budget) return (uint32_t)(drawn % n);
    return ch.pick(n);
}
uint64_t DomGen::raw(const Node& n, Ty ty, int bits) {
    uint64_t m = mask_bits(bits);
    vector<uint64_t> d;
    if (n.ty == ENUM) {
        const Enum* e = s.find_enum(n.tname);
        for (auto& x : e->m) d.push_back(x.second & m);
        if (d.size() > 2 && width == 3) d = {d[0], d[d.size() / 2], d.back()};
        if (invalid && !n.has_range) { auto in = [&](uint64_t v) { for (auto& x : e->m) if ((x.second & m) == v) return true; return false; };
            vector<uint64_t> bad; for (auto& x : e->m) for (int k : {-1, 1}) { uint64_t v = (x.second + k) & m; if (!in(v)) bad.push_back(v); } if (!bad.empty()) d.insert(d.begin() + 1, bad[drawn % bad.size()]); }
    } else if (n.has_range) {
        if (ty == F32) { float lo = (float)n.fl, hi = (float)n.fh; d = {f_bits(lo), f_bits(hi), f_bits((lo + hi) / 2)}; if (invalid) { d.insert(d.begin() + 1, {f_bits(nextafterf(lo, -INFINITY)), f_bits(nextafterf(hi, INFINITY)), f_bits(NAN)}); } }
        else if (ty == F64) { d = {d_bits(n.fl), d_bits(n.fh), d_bits((n.fl + n.fh) / 2)}; if (invalid) { d.insert(d.begin() + 1, {d_bits(nextafter(n.fl, -INFINITY)), d_bits(nextafter(n.fh, INFINITY)), d_bits(NAN)}); } }
        else { d = {n.rl & m, n.rh & m, (n.rl + (n.rh - n.rl) / 2) & m}; if (invalid) { d.insert(d.begin() + 1, {(n.rl - 1) & m, (n.rh + 1) & m, 0}); } }
    } else if (ty == BOOL) { d = {1, 0}; if (invalid) d = {1, 2, 0, 255}; }
    else if (ty == F32) d = {f_bits(1.5f), f_bits(-0.0f), 0x7FC00001u, f_bits(3.4028235e38f), 1u};
    else if (ty == F64) d = {d_bits(-2.25), d_bits(-0.0), 0x7FF8000000000123ull, d_bits(1.7976931348623157e308), 1u};
    else {
        static const uint64_t pat[] = {0x8123456789ABCDEFull, 0x0000000000000000ull, 0xFFFFFFFFFFFFFFFFull, 0x7F80402010080402ull, 1};
        // Take the pattern from the top, so that every width has its own most significant bits
        if (n.tr == T_NONE) d = {(pat[0] >> (64 - bits)) ^ (uint64_t)(drawn * 2 & (bits > 4 ? 0xE : 0)), 0, m, (pat[3] >> (64 - bits)), 1 & m};
        else d = {7 & m, 0, 100 & m, 3, (is_signed(ty) ? (uint64_t)-5 : 12) & m};
    }
    return d[choose((uint32_t)d.size())] & ((invalid && ty == BOOL) ? 0xFF : m);
}
string DomGen::text(const Node& n) {
    size_t cap = n.strk < 2 || n.strk == 5 ? (size_t)n.maxlen : n.strk == 2 ? 255 : 1000;
    vector<string> d;
    d.push_back(cap >= 2 ? "Hi" : cap == 1 ? "H" : "");
    d.push_back("");
    d.push_back(cap <= longtext ? string(cap, 'm') : string(longtext, 'l'));
    d.push_back(cap >= 3 ? "a\xC3\xA9" : "");
    return d[choose((uint32_t)d.size())];
}
uint32_t DomGen::count(const Node&) { static const uint32_t d[] = {2, 0, 1, 3}; return d[choose(max_count + 1 < 4 ? max_count + 1 : 4)]; }

} // namespace ref
