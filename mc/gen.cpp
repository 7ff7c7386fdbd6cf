#include "gen.hpp"
namespace gen {
using std::string; using std::vector; using mc::fmt;

Node f(Ty t, const string& name, int bits) { Node n; n.ty = t; n.name = name; n.bits = bits; return n; }
Node arr(Node n, Arr a, uint32_t k, const string& ref, int prew) { n.arr = a; n.n = k; n.ref = ref; n.prew = prew; return n; }
Node str(const string& name, int kind, int max) { Node n; n.ty = STR; n.name = name; n.strk = kind; n.maxlen = max; n.show_max = kind == 0 && max != 255; return n; }
Node strct(Schema& s, const string& name, Nodes body, bool un) {
    string t = "S_" + name;
    if (!s.find_struct(t)) s.structs.push_back({t, un, std::move(body)});
    Node n; n.ty = STRUCT; n.tname = t; n.name = name; return n;
}
Node en(Schema& s, const string& name, Ty under, vector<int64_t> vals, bool expl) {
    string t = "E_" + name;
    if (!s.find_enum(t)) { Enum e; e.name = t; e.under = under; e.expl = expl; int i = 0; for (int64_t v : vals) e.m.push_back({fmt("%s_M%d", name.c_str(), i++), (uint64_t)v}); s.enums.push_back(e); }
    Node n; n.ty = ENUM; n.tname = t; n.name = name; return n;
}
Node crcf(const string& name, int w) {
    Node n = f(w == 16 ? U16 : U32, name); n.crc = w;
    if (w == 16) { n.cpoly = 0x1021; n.cinit = 0xFFFF; } else { n.cpoly = 0x04C11DB7; n.cinit = 0xFFFFFFFF; n.cxor = 0xFFFFFFFF; n.crefin = n.crefout = true; }
    return n;
}
static Node be(Node n) { n.endian = 1; return n; }
static Node le(Node n) { n.endian = 0; return n; }
static Node opt(Node n) { n.optional = true; return n; }
static Node cst(Node n, const string& t, uint64_t v) { n.has_const = true; n.ctext = t; n.cval = v; return n; }
static Node rng(Node n, const string& a, const string& b, int64_t lo, int64_t hi) { n.has_range = true; n.rlo = a; n.rhi = b; n.rl = (uint64_t)lo; n.rh = (uint64_t)hi; n.fl = atof(a.c_str()); n.fh = atof(b.c_str()); return n; }
static Node tr(Node n, Tr t, vector<string> text, int64_t ti = 0) { n.tr = t; n.ti = ti; n.tft = text; for (auto& x : text) n.tf.push_back(atof(x.c_str())); if (n.tf.empty()) { n.tf = {1, 0}; n.tft = {"1", "0"}; } return n; }
static Node pad(int b) { Node n; n.k = Node::PAD; n.val = b; return n; }
static Node fill(int b) { Node n; n.k = Node::FILL; n.val = b; return n; }
static Node sw(const string& ref, vector<std::pair<string, uint64_t>> labels, vector<Nodes> bodies, int def) {
    Node n; n.k = Node::SWITCH; n.ref = ref; n.bodies = bodies; n.def = def;
    for (auto& l : labels) { n.labels.push_back(l.first); n.lvals.push_back(l.second); }
    return n;
}
static Node iff(vector<EP> c, vector<Nodes> b) { Node n; n.k = Node::IF; n.conds = c; n.blocks = b; return n; }

#define A(nm, fl, ...) { nm, [](Schema& s, Nodes& o, const string& x) { (void)s; __VA_ARGS__ }, fl }
#define P(e) o.push_back(e)
const vector<Atom>& atoms() {
    static const vector<Atom> a = {
        A("u8", ELEM, P(f(U8, x));), A("u16", ELEM, P(f(U16, x));), A("u32", ELEM, P(f(U32, x));), A("u64", ELEM, P(f(U64, x));),
        A("i8", ELEM, P(f(I8, x));), A("i16", ELEM, P(f(I16, x));), A("i32", ELEM, P(f(I32, x));), A("i64", ELEM, P(f(I64, x));),
        A("f32", ELEM | FLOATY, P(f(F32, x));), A("f64", ELEM | FLOATY, P(f(F64, x));), A("bool", ELEM | VALID, P(f(BOOL, x));),
        A("u32be", ELEM, P(be(f(U32, x)));), A("i16le", ELEM, P(le(f(I16, x)));), A("f64be", ELEM | FLOATY, P(be(f(F64, x)));), A("u64le", ELEM, P(le(f(U64, x)));), A("f32be", ELEM | FLOATY, P(be(f(F32, x)));),
        A("str", ELEM, P(str(x, 0, 5));), A("strz", ELEM, P(str(x, 1));), A("strzmax", ELEM, P(str(x, 5, 4));), A("str8", ELEM, P(str(x, 2));), A("str16", ELEM, P(str(x, 3));), A("str32be", ELEM, P(be(str(x, 4)));),
        A("enum8", ELEM | VALID, P(en(s, x, U8, {0, 3, 255}));), A("enum-i16", ELEM | VALID, P(en(s, x, I16, {-32768, -1, 7}));), A("enum32", ELEM | VALID, P(en(s, x, U32, {1, 4294967295ll, 65536}, false));), A("enum64", ELEM | VALID, P(en(s, x, I64, {INT64_MIN, 5, INT64_MAX}));),
        A("b1", BITS, P(f(U8, x, 1));), A("b3", BITS, P(f(U8, x, 3));), A("b12", BITS, P(f(U16, x, 12));), A("b33", BITS, P(f(U64, x, 33));), A("ib4", BITS, P(f(I8, x, 4));), A("ib20", BITS, P(f(I32, x, 20));), A("b64", BITS, P(f(U64, x, 64));), A("boolb", BITS, P(f(BOOL, x, 1));), A("b8", BITS, P(f(U8, x, 8));),
        A("b5be", BITS, P(be(f(U8, x, 5)));), A("b11le", BITS, P(le(f(U16, x, 11)));),
        A("pad3", BITS, P(f(U8, x, 2)); P(pad(3));), A("pad19", BITS, P(pad(19)); P(f(U8, x, 2));), A("fill0", BITS, P(f(U8, x, 3)); P(fill(0));), A("fill1", BITS, P(f(U8, x, 3)); P(fill(1));), A("filld", BITS, P(f(U8, x, 6)); P(fill(-1));),
        A("const16", VALID, P(cst(f(U16, x), "0xCAFE", 0xCAFE));), A("const-i32", VALID, P(cst(f(I32, x), "-2", (uint64_t)-2));), A("const8be", VALID, P(cst(be(f(U64, x)), "0x0102030405060708", 0x0102030405060708ull));),
        A("range16", VALID, P(rng(f(U16, x), "10", "300", 10, 300));), A("range-i8", VALID, P(rng(f(I8, x), "-5", "6", -5, 6));), A("range-f32", VALID | FLOATY, P(rng(f(F32, x), "-1.5", "2.25", 0, 0));), A("range-i64", VALID, P(rng(f(I64, x), "-9000000000", "9000000001", -9000000000ll, 9000000001ll));), A("range-u64", VALID, P(rng(f(U64, x), "1", "18446744073709551614", 1, -2));), A("range-f64", VALID | FLOATY, P(rng(f(F64, x), "0.5", "10000000000.0", 0, 0));),
        A("crc16", VALID, P(crcf(x, 16));), A("crc32", VALID, P(crcf(x, 32));), A("crc32be", VALID, P(be(crcf(x, 32)));),
        A("expr", VALID, P(f(U8, x + "s")); Node n = f(U32, x); n.expr = e_bin("+", e_bin("*", e_ref(x + "s"), e_int(3)), e_int(1)); P(n);),
        A("expr-f", VALID | FLOATY, P(f(I16, x + "s")); Node n = f(F64, x); n.expr = e_bin("*", e_ref(x + "s"), e_flt("0.5", .5)); P(n);),
        A("a16", ELEM, P(arr(f(U16, x), A_FIX, 3));), A("a8", ELEM, P(arr(f(U8, x), A_FIX, 4));), A("a0", ELEM, P(arr(f(U32, x), A_FIX, 1));), A("ap8", ELEM, P(arr(f(I8, x), A_PRE, 0, "", 1));), A("ap16", ELEM, P(arr(f(U32, x), A_PRE, 0, "", 2));), A("ap32be", ELEM | FLOATY, P(be(arr(f(F64, x), A_PRE, 0, "", 4)));), A("acnt", ELEM, P(arr(f(U16, x), A_COUNT, 2));),
        A("adyn", 0, P(rng(f(U8, x + "n"), "0", "3", 0, 3)); P(arr(f(U16, x), A_DYN, 0, x + "n"));), A("adyn8", 0, P(rng(f(U16, x + "n"), "0", "2", 0, 2)); P(arr(f(U8, x), A_DYN, 0, x + "n"));),
        A("astr", ELEM, P(arr(str(x, 2), A_FIX, 2));), A("astrz", ELEM, P(arr(str(x, 1), A_FIX, 2));), A("abool", VALID, P(arr(f(BOOL, x), A_FIX, 3));), A("aenum", VALID, P(arr(en(s, x, U8, {1, 2}), A_PRE));), A("arange", VALID, P(arr(rng(f(I16, x), "-1", "1", -1, 1), A_FIX, 2));), A("abe", ELEM, P(be(arr(f(U32, x), A_FIX, 2)));),
        A("struct", ELEM, P(strct(s, x, {f(U8, "a"), f(U16, "b")}));), A("structbe", ELEM, P(be(strct(s, x, {f(U8, "a"), f(U32, "b"), le(f(U16, "c"))})));), A("struct2", ELEM, { Node i = strct(s, x + "i", {f(I16, "a"), str("b", 2)}); i.name = "in"; P(strct(s, x, {f(U8, "a"), i, f(U32, "z")})); }), A("struct0", ELEM, P(strct(s, x, {arr(f(U8, "v"), A_PRE), arr(f(U16, "w"), A_FIX, 2)}));),
        A("structu", ELEM, P(strct(s, x, {f(U8, "a", 3), f(U16, "b", 9), f(U8, "c", 4)}, true));), A("structu2", ELEM, P(strct(s, x, {f(U8, "a", 3), f(U16, "b"), f(I8, "c", 4), f(BOOL, "d")}, true));), A("structb", ELEM, P(strct(s, x, {f(U8, "a", 3), f(U8, "b", 7), f(U8, "c")}));),
        A("astruct", ELEM, P(arr(strct(s, x, {f(U8, "a"), f(I32, "b")}), A_FIX, 2));), A("apstruct", ELEM, P(arr(strct(s, x, {f(U16, "a"), str("t", 1)}), A_PRE));), A("astructu", ELEM, P(arr(strct(s, x, {f(U8, "a", 5), f(U8, "b", 3)}, true), A_FIX, 2));),
        A("switch", 0, P(rng(f(U8, x + "k"), "0", "3", 0, 3)); P(sw(x + "k", {{"1", 1}, {"2", 2}, {"", 0}}, {{f(U16, x + "a")}, {f(U8, x + "b"), f(U8, x + "c")}, {f(U32, x + "d")}}, 2));),
        A("switchn", 0, P(rng(f(I8, x + "k"), "-1", "1", -1, 1)); P(sw(x + "k", {{"-1", (uint64_t)-1}, {"1", 1}}, {{f(U16, x + "a")}, {str(x + "b", 2)}}, -1));),
        A("switcht", 0, P(rng(f(U16, x + "k"), "4", "8", 4, 8)); P(sw(x + "k", {{"4", 4}, {"5", 5}, {"6", 6}, {"8", 8}, {"", 0}}, {{f(U8, x + "a")}, {f(U16, x + "b")}, {}, {f(U64, x + "c")}, {f(I8, x + "d")}}, 4));),
        A("switchs", 0, { Node k = en(s, x + "k", U32, {1, 100, 4000000000ll, 7}); P(k); P(sw(x + "k", {{"1", 1}, {"100", 100}, {"4000000000", 4000000000ull}}, {{f(U16, x + "a")}, {f(U8, x + "b")}, {f(I32, x + "c")}}, -1)); }),
        A("if", 0, P(rng(f(U8, x + "k"), "0", "2", 0, 2)); P(iff({e_bin("==", e_ref(x + "k"), e_int(1)), e_bin(">", e_ref(x + "k"), e_int(1))}, {{f(U16, x + "a")}, {f(U8, x + "b")}, {f(U32, x + "c")}}));),
        A("if1", 0, P(f(BOOL, x + "k")); P(iff({e_ref(x + "k")}, {{f(U16, x + "a"), f(U8, x + "b")}}));),
        A("scale", FLOATY, P(tr(f(U16, x), T_SCALEOFF, {"0.5", "-40.0"}));), A("scale-i8", FLOATY, P(tr(f(I8, x), T_SCALE, {"2.0", "0"}));), A("offset", FLOATY, P(tr(f(U8, x), T_OFFSET, {"1", "100.25"}));), A("poly", FLOATY, P(tr(f(U8, x), T_POLY, {"1.0", "2.0", "0.5"}));), A("spline", FLOATY, P(tr(f(U8, x), T_SPLINE, {"0.0", "0.0", "10.0", "100.0", "255.0", "300.0"}));),
        A("add", 0, P(tr(f(U16, x), T_ADD, {}, 10));), A("sub", 0, P(tr(f(I32, x), T_SUB, {}, 3));), A("mul", 0, P(tr(be(f(U32, x)), T_MUL, {}, -4));), A("div", 0, P(tr(f(U32, x), T_DIV, {}, 7));), A("ascale", FLOATY, P(tr(arr(f(I16, x), A_PRE), T_SCALE, {"0.25", "0"}));), A("aadd", 0, P(tr(arr(f(U8, x), A_FIX, 2), T_ADD, {}, -1));),
        A("opt16", OPT, P(opt(f(U16, x)));), A("optstr", OPT, P(opt(str(x, 1)));), A("optarr", OPT, P(opt(arr(f(U8, x), A_PRE)));), A("optconst", OPT | VALID, P(opt(cst(f(U8, x), "7", 7)));), A("optbit", OPT | BITS, P(opt(f(U8, x, 4)));), A("optf", OPT | FLOATY, P(opt(tr(f(U8, x), T_SCALE, {"0.5", "0"})));), A("optenum", OPT | VALID, P(opt(en(s, x, U16, {3, 4})));),
        A("eof8", LAST, P(arr(f(U8, x), A_EOF));), A("eof16", LAST, P(arr(f(U16, x), A_EOF));), A("eofs", LAST, P(arr(strct(s, x, {f(U8, "a"), str("b", 2)}), A_EOF));), A("eofstr", LAST, P(arr(str(x, 1), A_EOF));),
    };
    return a;
}
const Atom& atom(const string& n) { for (auto& a : atoms()) if (n == a.name) return a; abort(); }
string run_str(const Run& r) {
    string o = fmt("result %d, %zu bytes %s\n", r.err, r.bytes.size(), mc::hex(r.bytes).c_str());
    size_t i = 0;
    for (auto& e : r.ev) { o += "  " + e.str() + "\n"; if (++i > 60) { o += "  ...\n"; break; } }
    return o;
}
}
