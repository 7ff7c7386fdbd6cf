#include "common.hpp"
// The program of a schema does not depend on how the schema is spelled
static string shows(const string& s) { string o; for (char c : s) { if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c == '\f') o += "\\f"; else if (c == '\v') o += "\\v"; else o += c; } return o; }
static bool equal(Ctx& ctx, const string& il, const string& t, const char* what) {
    string o; int r = impl::compile(t, o, ctx.scratch); ctx.evals(); ctx.steps(); ctx.traces();
    if (r != 0) { ctx.fail(string("rejected when spelled in another way: ") + what, shows(t)); return false; }
    if (o != il) { ctx.fail(string("another program when spelled in another way: ") + what, shows(t) + "\nimages " + hex((const uint8_t*)il.data(), il.size()).substr(0, 2000) + "\nand    " + hex((const uint8_t*)o.data(), o.size()).substr(0, 2000)); return false; }
    return true;
}
static bool base(Prep& x, Ctx& ctx) { int r = impl::compile(x.text, x.il, ctx.scratch); if (r != 0) { ctx.fail("well-formed schema does not compile", fmt("result %d", r)); return false; } return true; }
static void respell(Prep& x, Ctx& ctx, bool every) {
    if (!base(x, ctx)) return; int n = 0; string last = x.text;
    for (int m = 1; m < 128; m++) {
        if (!every && (m & (m - 1)) && m != SP_ALL && m != (SP_ALIAS | SP_DECO | SP_ROTATE)) continue;
        x.s.style = m; string t = print(x.s); x.s.style = 0; if (t == x.text || t == last) continue; last = t;
        if (!equal(ctx, x.il, t, "names of types and decorators, order of decorators, notation of numbers, comments")) return; n++;
    }
    ctx.outcome("other spellings of the schema give the same program", n); if (n) ctx.nontrivial();
}
static bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
struct T { string s; char k; }; // w word or number, s string, d documentation, o other
static vector<T> tokens(const string& s) {
    vector<T> r; size_t i = 0; static const char* two[] = {"==", "!=", "&&", "||", ">=", ">>", "<=", "<<"};
    while (i < s.size()) {
        size_t b = i; char c = s[i]; if (isspace((unsigned char)c)) { i++; continue; }
        if (!s.compare(i, 3, "///")) { i = std::min(s.find('\n', i), s.size()); r.push_back({s.substr(b, i - b), 'd'}); continue; }
        if (!s.compare(i, 2, "//")) { i = std::min(s.find('\n', i), s.size()); continue; }
        if (c == '"') { i = s.find('"', i + 1) + 1; r.push_back({s.substr(b, i - b), 's'}); continue; }
        if (word(c) || (c == '-' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) { i++; while (i < s.size() && (word(s[i]) || (s[i] == '.' && isdigit((unsigned char)s[i + 1]) && (isdigit((unsigned char)s[b]) || c == '-')) || ((s[i] == '-' || s[i] == '+') && (s[i - 1] | 32) == 'e' && isdigit((unsigned char)s[b])))) i++; r.push_back({s.substr(b, i - b), 'w'}); continue; }
        i++; for (auto q : two) if (!s.compare(b, 2, q)) { i = b + 2; break; } r.push_back({s.substr(b, i - b), 'o'});
    }
    return r;
}
static const vector<string>& seps() { static const vector<string> v = {"", " ", "\n", "\r\n", "\t", "\r", "     \t  \n\n\n  ", "/* c */", "// c\n", "// c\r\n", "/**/", "/***/", "/* // */", "// /* c\n", "/* \n * \"c\" ; }\n */", "//\n", "/* a */ /* b */", "/*/ c */", "/* @const(9) uint8 c; **/"}; return v; }
static bool joined(const T& a, const string& sep, const T& b) { // stays two tokens
    if (a.k == 'd') return sep.find('\n') != string::npos && sep[0] != '/';
    if (!sep.empty()) return !(a.s == "/" && sep[0] == '/'); if (a.k == 'w' && b.k == 'w') return false; if (a.k == 'o' && b.k == 'w' && b.s[0] == '-') return true;
    if (a.k == 'w' && b.s == ".") return false; if (a.s == "." && b.k == 'w') return !isdigit((unsigned char)b.s[0]); if (a.s == "-" && isdigit((unsigned char)b.s[0])) return false; if (a.s == "/") return b.s[0] != '/' && b.s[0] != '*';
    if (a.k == 'o' && b.k == 'o') for (const char* q : {"==", "!=", "&&", "||", ">=", ">>", "<=", "<<", "//", "/*"}) if (a.s.back() == q[0] && b.s[0] == q[1]) return false;
    if (b.s[0] == '-' && b.k == 'w' && a.k == 'w') return false; return true;
}
static const vector<string>& rich() {
    static const vector<string> v = {
        "@version(3)\n@big_endian\nenum E : uint8 { A = 1, B, C = 0x10 }\n@unaligned_bytes\nstruct U { uint8 a : 3; int8 b : 5; }\nstruct S { @range(0, 3) uint8 n; E e; U u; @count(n) uint16 v[]; }\npacket P { S s; S t[2]; @optional uint8 o; }\n",
        "packet P { uint8 n; @const(0x2A) uint8 c; @range(-5, 5) int16 r; @scale(0.5) @offset(-2.5) int16 s; @little_endian uint32 l; @crc(16) @crc_poly(0x1021) @crc_init(0xFFFF) @crc_xor(0) @crc_refin @crc_refout uint16 x; }\n",
        "packet P { uint8 n; if (n > 2 && n < 9 || n == 100) { uint8 a; } else if (n >= 10) { uint16 b; } else { uint32 c; } switch (n) { case 1: uint8 d; case 0x7: { uint8 e; uint8 f; } default: uint16 g; } }\n",
        "enum E : int16 { LOW = -300, ZERO = 0, HIGH = 300, }\nstruct In { uint8 a; float b; }\npacket P { In i; E e; switch (e) { case E.LOW: uint8 q; case E.HIGH: string s until 0; } @expr(i.a * 2 + 1) uint16 x; @expr(sin(i.b) + 0.5) double y; @expr((i.a << 2) >> 1 != 0) bool z; @expr(-(i.a) - 3) int32 w; @expr(~i.a & 15 | 3 ^ 1) uint8 k; @expr(i.a % 3 / 1) uint8 m; }\n",
        "packet P { string a max 10; string b until 0; string c prefix uint16; uint8 d[4]; uint16 e[] prefix uint8; @pad(3) uint8 f : 5; @fill; uint8 g; bool h : 1; bool i; @eof uint8 j[]; }\n",
        "packet P { @poly(1.5, -2.0, 0.25) uint8 a; @spline(0.0, 0.0, 10.0, 100.0) uint8 b; @add(5) uint8 c; @sub(-5) int8 d; @mul(3) int16 e; @div(2) uint16 f; @match(7) uint8 g; @len(3) uint8 h[]; @be uint16 i; @le uint16 j; @expr(1000.0 + 0.25) double k; }\n",
        "/// doc\nstruct A { /// field\n uint8 a; }\n/// packet\npacket P { /// first\n A a; }\n", "struct S { uint16 a; };\npacket P = S;\n", "packet P { uint8 n; switch (n) { case 1: { } default: { } } if (n) { } else { } }\n" };
    return v;
}
// One other separator at a place, or the same one everywhere
static void layout(Chooser& ch, Ctx& ctx, bool atoms) {
    string text; if (atoms) { const auto& A = gen::atoms(); Schema s; A[ch.pick((uint32_t)A.size())].add(s, s.body, "f"); text = print(s); } else text = ch.of(rich());
    vector<T> t = tokens(text); int sep = (int)ch.pick((uint32_t)seps().size());
    if (!ctx.begin(text + "separator " + shows(seps()[(size_t)sep]))) return; Prep x; x.text = text; if (!base(x, ctx)) return; const string& q = seps()[(size_t)sep]; int n = 0;
    auto build = [&](long at, bool both) { string o; for (size_t i = 0; i < t.size(); i++) { bool use = at < 0 || (long)i == at || (both && (long)i == at + 1); string d = i && t[i - 1].k == 'd' ? "\n" : " "; if (i) o += use && joined(t[i - 1], q, t[i]) ? q : d; else if (use && at != 0) o += q; o += t[i].s; } return o + (at < 0 ? q : "") + (t.back().k == 'd' ? "\n" : ""); };
    for (long at = -1; at < (long)t.size(); at++) for (int both = 0; both < (at > 0 && ctx.thorough ? 2 : 1); both++) { if (at == 0) continue; if (!equal(ctx, x.il, build(at, both), "spaces, line ends and comments")) return; n++; }
    ctx.outcome("other layouts give the same program", n); ctx.nontrivial();
}
// Names of structs, enums and their members; a sound schema keeps its program when they are renamed
static void rename(Chooser& ch, Ctx& ctx, int from) {
    static const vector<string> N = {"x", "_", "Zz9", "uint8_t", "u8x", "u", "uint", "structure", "enum_", "packets", "counts", "Ecase", "prefixed", "maximum", "selfish", "E1", "false_", "trueish", "sin2", "f", "P", string(63, 'n'), string(64, 'n'), string(128, 'y'), string(255, 'l')};
    string text; if (from < 0) { const auto& A = gen::atoms(); Schema s; const auto& a = A[ch.pick((uint32_t)A.size())]; a.add(s, s.body, "f0"); if (!(a.flags & gen::LAST)) A[ch.pick((uint32_t)A.size())].add(s, s.body, "g0"); else return; if (s.structs.empty() && s.enums.empty()) return; text = print(s); } else text = rich()[(size_t)from];
    vector<T> t = tokens(text); vector<string> names; for (size_t i = 0; i + 1 < t.size(); i++) { if (t[i].s == "struct" || t[i].s == "enum") names.push_back(t[i + 1].s); if (t[i].s == "enum") { size_t k = i; while (t[k].s != "{") k++; for (k++; t[k].s != "}"; k++) if (t[k].k == 'w' && (t[k - 1].s == "{" || t[k - 1].s == ",")) names.push_back(t[k].s); } }
    if (names.empty()) return; string old = ch.of(names); if (!ctx.begin(text + "rename " + old)) return; Prep x; x.text = text; if (!base(x, ctx)) return; int n = 0;
    for (auto& nn : N) { bool used = false; for (auto& k : t) if (k.s == nn) used = true; if (used) continue; string o; for (auto& k : t) o += (k.s == old ? nn : k.s) + (k.k == 'd' ? "\n" : " "); if (!equal(ctx, x.il, o, "names of types and members")) return; n++; }
    ctx.outcome("renamed types and members give the same program", n); ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C24"; bool th = is_thorough(argc, argv);
    o.rule = "Every single atom under both byte orders in all 127 combinations of seven ways to spell it (short names of types, byte for uint8, short names of decorators, decorators reversed and rotated, numbers in hexadecimal, comments and line ends), every pair of atoms, every nesting and unaligned struct and schemas with very many of each of 21 constructs in each way and two combinations; every gap of nine rich texts and of every atom filled with each of 19 separators, alone and all at once (thorough: two neighbours); every struct, enum and member of the rich texts and of every pair of atoms given each of 25 other names. The image must be the same, byte for byte";
    o.assumptions = {"what the program of the plain spelling means is judged by the other properties", "the names of structs, enums and members are not part of the image"};
    vector<mc::Family> f;
    f.push_back({"single spellings", [](Chooser& c, Ctx& x) { Prep p; if (!pick_sequence(c, 1, 3, p.s)) return; p.text = print(p.s); if (x.begin(p.text)) respell(p, x, true); }});
    schema_families(f, th, [](Prep& p, Ctx& x, int, int) { respell(p, x, false); }, 0, 1, true);
    f.push_back({"very many", [](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000))) respell(p, x, false); }});
    f.push_back({"layouts", [](Chooser& c, Ctx& x) { layout(c, x, false); }}); f.push_back({"layouts of atoms", [](Chooser& c, Ctx& x) { layout(c, x, true); }});
    for (size_t i = 0; i < rich().size(); i++) f.push_back({fmt("names %zu", i), [i](Chooser& c, Ctx& x) { rename(c, x, (int)i); }});
    f.push_back({"names of atoms", [](Chooser& c, Ctx& x) { rename(c, x, -1); }});
    return mc::main_driver(argc, argv, o, f);
}
