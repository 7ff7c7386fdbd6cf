#include "common.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
// Independent reading of a text: its tokens and comments in order
static void read(const string& s, vector<string>& t) {
    t.clear(); size_t i = 0, n = s.size(); auto at = [&](size_t k) { return k < n ? s[k] : '\0'; };
    while (i < n) {
        char c = s[i]; if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { i++; continue; } size_t b = i;
        if (c == '/' && at(i + 1) == '/') while (i < n && s[i] != '\n') i++;
        else if (c == '/' && at(i + 1) == '*') { i += 2; while (i < n && !(s[i] == '*' && at(i + 1) == '/')) i++; i = i < n ? i + 2 : n; }
        else if (c == '"') { i++; while (i < n && s[i] != '"') i++; if (i < n) i++; }
        else if (isalpha((unsigned char)c) || c == '_') while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++;
        else if (isdigit((unsigned char)c) || (c == '-' && isdigit((unsigned char)at(i + 1)))) {
            if (c == '-') i++;
            if (s[i] == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X')) { i += 2; while (i < n && isxdigit((unsigned char)s[i])) i++; }
            else { while (i < n && isdigit((unsigned char)s[i])) i++; if (at(i) == '.' && isdigit((unsigned char)at(i + 1))) { i++; while (i < n && isdigit((unsigned char)s[i])) i++; } }
        } else { static const char* two[] = {"==", "!=", "&&", "||", ">=", ">>", "<=", "<<"}; i++; for (auto d : two) if (c == d[0] && at(i) == d[1]) { i++; break; } }
        t.push_back(s.substr(b, i - b));
    }
    for (auto& x : t) if (x.size() > 1 && x[0] == '/' && x[1] == '/') while (!x.empty() && (x.back() == ' ' || x.back() == '\t' || x.back() == '\r')) x.pop_back();
}
static string format(const string& s) { impl::Block b(s + string(1, '\0')); char* f = cnd_format_source((const char*)b.p); string r = f ? f : "<null>"; free(f); return r; }
static string shows(const string& s) { string o; for (char c : s) { if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else o += c; } return o; }
static bool judge(Ctx& ctx, const string& s, bool comp) {
    string f = format(s), g = format(f); ctx.evals(2); ctx.steps(); ctx.traces(); vector<string> a, b; read(s, a); read(f, b);
    if (a != b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; ctx.fail("formatting changes the tokens or comments", fmt("item %zu: `%s` became `%s`\nformatted:\n", k, k < a.size() ? a[k].c_str() : "(end)", k < b.size() ? b[k].c_str() : "(end)") + shows(f)); return false; }
    if (f != g) { ctx.fail("formatting twice gives another text", "once:\n" + shows(f) + "\ntwice:\n" + shows(g)); return false; }
    if (comp) {
        string x, y; int rx = impl::compile(s, x, ctx.scratch), ry = impl::compile(f, y, ctx.scratch); ctx.evals(2);
        if ((rx == 0) != (ry == 0)) { ctx.fail(rx ? "only the formatted text compiles" : "the formatted text does not compile", shows(f)); return false; }
        if (rx == 0 && x != y) { ctx.fail("the formatted text compiles to another program", shows(f)); return false; }
        ctx.outcome(rx ? "both do not compile" : "compiles to the same program");
    } else ctx.outcome("same tokens and comments, stable");
    return true;
}
static const vector<string>& rich() {
    static const vector<string> v = {
        "// head\n@version(2)\n/* block */\nenum E : uint8 { A = 1, B, C = 0x9 } // tail\n/// doc of S\nstruct S { uint8 n; @count(n) uint16 v[]; E e; }\n@big_endian\npacket P { S s; S t[2]; @const(0xAA) uint8 m; @range(-5, 5) int8 r; string x until 0 max 9; string y prefix uint16; @crc(16) @crc_poly(0x8005) @crc_refin uint16 c; }\n",
        "packet P { uint8 k; switch (k) { case 0: uint8 a; case 1: { uint16 b; uint8 c : 3; } default: { bool d; } } if (k > 1 && k <= 9 || !(k == -3)) { uint8 e; } else if (k != 0) { float f; } else { double g; } }\n",
        "@unaligned_bytes\nstruct U { uint8 a : 3; int16 b : 13; bool c; uint8 d : 7; }\npacket P { U u; @pad(4) uint8 x : 2; @fill uint8 y; @optional uint16 z; @eof uint8 w[]; }\n",
        "packet P { @scale(0.1) @offset(-40) uint16 a; @add(3) uint8 b; @poly(1.0, -0.5) uint8 c; @spline(0.0, 0.0, 10.0, 5.0) uint8 d; @expr((b + 2) * -3 % 7 << 1 & ~b | 4 ^ 1) int32 e; @expr(sin(1.5) + pow(2.0, 3.0) - 1) double f; @little_endian uint32 g; string h[2] until 0; uint8 i[] prefix uint32; @const(1) @big_endian uint16 j; @expr(b-1) uint8 l; @expr(b >= 2 && b >> 1 < 3) uint8 o; }\n",
        "struct S{uint8 a;}packet P{S s[3];uint8 b;}", "packet P { uint8 a; }", "enum E{A,B=-1,C}packet P{uint8 a;}" };
    return v;
}
static string seed(uint32_t i) { if (i < rich().size()) return rich()[i]; const auto& a = gen::atoms()[i - rich().size()]; Schema s; a.add(s, s.body, "f"); return print(s); }
static uint32_t seeds() { return (uint32_t)(rich().size() + gen::atoms().size()); }
// what may stand between two tokens
static const vector<string>& gaps() { static const vector<string> v = {" ", "\n", "", "\n\n", "\n\n\n\n", "\t", "\r\n", "  \t ", " \n ", "// c\n", " // c ; {\n", "\n// c\n", "\n\n// c \n\n", "/* c */", " /* c */ ", "/* a\n   b\n*/", "\n/* x */\n", "\n/// doc\n", "/// doc\n", "/**/", "// a\n// b\n", "/* a */ // b\n", " //\n", "\n    \n\t\n", "// \"s\" /* \n", "/* // */", "// c\r\n", "\r\n\r\n", "\r"}; return v; }
static bool glue(const string& a, const string& b) { // would they become something else without a gap?
    vector<string> t; read(a + b, t); return !(t.size() == 2 && t[0] == a && t[1] == b);
}
static string build(const vector<string>& t, const std::function<const string&(size_t)>& gap) { string s; for (size_t i = 0; i <= t.size(); i++) { const string& g = gap(i); bool tight = i && i < t.size() && (g.empty() || (g[0] == '/' && t[i - 1].back() == '/')) && (g.empty() ? glue(t[i - 1], t[i]) : true); s += tight ? " " + g : g; if (i && i < t.size() && !g.empty() && !tight && 0) s += ""; if (i < t.size()) { s += t[i]; if (t[i].size() > 1 && t[i][0] == '/' && t[i][1] == '/') s += "\n"; } } return s; }
static void one_gap(Chooser& ch, Ctx& ctx) {
    uint32_t sd = ch.pick(seeds()); string s = seed(sd); vector<string> t; read(s, t); uint32_t at = ch.pick((uint32_t)t.size() + 1); const auto& G = gaps(); uint32_t k = ch.pick((uint32_t)G.size()); int rest = (int)ch.pick(2);
    if (!ctx.thorough && sd >= rich().size() && (rest || (sd + at + k) % 3)) return;
    static const string sp = " ", nl = "\n"; string x = build(t, [&](size_t i) -> const string& { return i == at ? G[k] : rest ? nl : i && i < t.size() ? sp : nl; }); if (!ctx.begin(shows(x))) return; if (judge(ctx, x, sd < rich().size() || ctx.thorough)) ctx.nontrivial();
}
static void all_gaps(Chooser& ch, Ctx& ctx) { // the same in every gap, or two alternating
    string s = seed(ch.pick(seeds())); vector<string> t; read(s, t); const auto& G = gaps(); uint32_t a = ch.pick((uint32_t)G.size()), b = ch.pick((uint32_t)G.size()), m = 1 + ch.pick(2);
    if (!ctx.thorough && a != b && t.size() > 30 && (a + b) % 4) return; if (a == b && m > 1) return; string x = build(t, [&](size_t i) -> const string& { return i % (m + 1) ? G[a] : G[b]; }); if (!ctx.begin(shows(x))) return; if (judge(ctx, x, ctx.thorough || a == b)) ctx.nontrivial();
}
static void two_gaps(Chooser& ch, Ctx& ctx) {
    static const vector<string> S = {"packet P { uint8 a; }", "enum E { A, B = -1 } packet P { E e[2]; }", "packet P { uint8 k; switch (k) { case 1: uint8 b; default: { bool d; } } }", "packet P { uint8 k; if (k) { @const(1) uint8 a; } else { uint8 b : 3; } }"};
    uint32_t sd = ch.pick(ctx.thorough ? 4 : 3); vector<string> t; read(S[sd], t); uint32_t a = ch.pick((uint32_t)t.size() + 1), b = ch.pick((uint32_t)t.size() + 1); const auto& G = gaps(); if (b <= a) return; if (!ctx.thorough && b > a + (sd ? 2 : 8)) return; uint32_t x = ch.pick((uint32_t)G.size()), y = ch.pick((uint32_t)G.size());
    static const string sp = " "; string s = build(t, [&](size_t i) -> const string& { return i == a ? G[x] : i == b ? G[y] : sp; }); if (!ctx.begin(shows(s))) return; if (judge(ctx, s, ctx.thorough)) ctx.nontrivial();
}
static const vector<string>& pieces() { static const vector<string> v = {"a", "1", "-1", "-", "{", "}", "(", ")", "[", "]", ";", ":", ",", "@", "\"s\"", "\"", "//c\n", "//c", "/*c*/", "/*", "///d\n", " ", "\n", "\t", "\r\n", "\r", ".", "/", "*", "=", "&", "0x", "1.5", "if", "\x80", "$"}; return v; }
static void sequences(Chooser& ch, Ctx& ctx, int len) {
    const auto& P = pieces(); string s; for (int i = 0; i < len; i++) s += P[ch.pick((uint32_t)P.size())];
    static thread_local int lead; lead = 0; if (!ctx.begin(shows(s))) return; if (judge(ctx, s, len <= 2)) ctx.nontrivial();
}
static void in_packet(Chooser& ch, Ctx& ctx, int len) {
    const auto& P = pieces(); int place = (int)ch.pick(4); string s; for (int i = 0; i < len; i++) s += P[ch.pick((uint32_t)P.size())];
    static const char* pre[] = {"packet P {uint8 a;", "packet P {uint8 a", "packet P {uint8 a;}", ""}; static const char* post[] = {"uint8 b;}", ";uint8 b;}", "", "packet P {uint8 a;}"};
    s = pre[place] + s + post[place]; if (!ctx.begin(shows(s))) return; if (judge(ctx, s, true)) ctx.nontrivial();
}
static void bytes(Chooser& ch, Ctx& ctx) {
    uint32_t sd = ch.pick(ctx.thorough ? seeds() : (uint32_t)rich().size() + 8); string t = seed(sd); uint32_t at = ch.pick((uint32_t)t.size() + 1), k = ch.pick(14); static const vector<string> B = {"", "\xFF", "\x80", "\"", "/", "*", "{", "}", "\n", "\v", "\f", "\\", "\x01"};
    if (k == 0) t.resize(at); else t = t.substr(0, at) + B[k - 1] + (at < t.size() ? t.substr(at + 1) : "");
    if (!ctx.begin(shows(t))) return; if (judge(ctx, t, true)) ctx.nontrivial();
}
static void sizes(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(12); static const vector<int> N = {0, 1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097}; int n = ch.of(N); string t; auto rep = [&](const string& s) { string o; for (int i = 0; i < n; i++) o += s; return o; };
    switch (kind) {
        case 0: if (n > 2000) return; t = "packet P " + rep("{ ") + rep("} "); break;
        case 1: t = "packet P { " + rep("}"); break;
        case 2: t = "packet P { uint8 a" + rep("a") + "; }"; break;
        case 3: t = "//" + rep("x") + "\npacket P { uint8 a; }"; break;
        case 4: t = "/*" + rep("x\n") + "*/packet P { uint8 a; }"; break;
        case 5: t = "packet P { uint8 a;" + rep("\n") + "uint8 b; }"; break;
        case 6: t = "packet P { uint8 a;" + rep(" ") + "}" + rep("\t"); break;
        case 7: t = "@import(\"" + rep("s") + "\")packet P{uint8 a;}"; break;
        case 8: t = rep("struct S{uint8 a;}"); break;
        case 9: t = "packet P { @expr(" + rep("1+") + "1) uint32 a; }"; break;
        case 10: t = rep(" "); break;
        case 11: t = rep("\n") + "packet P{" + rep(";") + "}" ; break;
    }
    if (!ctx.begin(fmt("size %d of kind %d", n, kind))) return; if (judge(ctx, t, kind != 1 && n <= 1000)) ctx.nontrivial();
}
struct Quiet { int a, b; explicit Quiet(int to = -1) { fflush(stdout); fflush(stderr); a = dup(1); b = dup(2); int n = open("/dev/null", O_WRONLY); dup2(to >= 0 ? to : n, 1); dup2(n, 2); close(n); } ~Quiet() { fflush(stdout); fflush(stderr); dup2(a, 1); dup2(b, 2); close(a); close(b); clearerr(stdout); } };
static void files(Chooser& ch, Ctx& ctx) {
    uint32_t sd = ch.pick(ctx.thorough ? seeds() : (uint32_t)rich().size()); int target = (int)ch.pick(3); string t = seed(sd); if (!ctx.begin(fmt("target %d: ", target) + t)) return;
    string f = format(t), in = ctx.scratch + "/f.cnd", out = target == 1 ? in : ctx.scratch + "/f.out", so = ctx.scratch + "/f.stdout"; signal(SIGXFSZ, SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    for (size_t n = 0; n <= f.size() + 1; n += (n < 40 || n + 40 > f.size() || ctx.thorough) ? 1 : 13) {
        impl::write_file(in, t); unlink(ctx.scratch.c_str()); if (target == 0 && n % 2) impl::write_file(out, string(4000, 'o')); int fd = open(so.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666); rlimit l = old; l.rlim_cur = n; int r;
        { Quiet q(target == 2 ? fd : -1); setrlimit(RLIMIT_FSIZE, &l); r = cnd_format_file(in.c_str(), target == 2 ? nullptr : out.c_str()); fflush(stdout); setrlimit(RLIMIT_FSIZE, &old); }
        close(fd); ctx.evals(); ctx.steps(); string now; impl::read_file(target == 2 ? so : out, now);
        if (n >= f.size() && (r != 0 || now != f)) { ctx.fail("the formatted file is not what formatting the text gives", fmt("result %d\n", r) + now); return; }
        if (n < f.size() && r == 0) { ctx.fail("success is reported although writing failed", fmt("limit %zu of %zu bytes", n, f.size())); return; }
        ctx.outcome(r ? "failed write reported" : "complete file written");
    }
    ctx.traces(); ctx.nontrivial();
}
static void faults(Chooser& ch, Ctx& ctx) {
    int k = (int)ch.pick(8); if (!ctx.begin(fmt("file fault %d", k))) return; string d = ctx.scratch + "/ff", in = d + "/in.cnd", out = d + "/out.cnd"; mkdir(d.c_str(), 0777); impl::write_file(in, "packet P{uint8 a;}"); impl::write_file(out, "before"); bool good = false;
    switch (k) { case 0: in = d + "/none.cnd"; break; case 1: in = d; break; case 2: out = d; break; case 3: out = d + "/no/dir"; break; case 4: in = ""; break; case 5: out = ""; break; case 6: good = true; break; case 7: impl::write_file(in, string("packet P{uint8 a;}\0uint8 b;", 27)); break; }
    int r; { Quiet q; r = cnd_format_file(in.c_str(), out.c_str()); } ctx.evals(); ctx.steps();
    if ((r == 0) != good) { ctx.fail("wrong result when a file cannot be used", fmt("result %d", r)); return; }
    string now; if (!good && impl::read_file(d + "/out.cnd", now) && now != "before") { ctx.fail("a file that cannot be read or holds no text overwrites the output"); return; }
    ctx.outcome("file fault reported"); ctx.traces(); ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C18"; bool th = is_thorough(argc, argv); o.case_cpu_s = 30;
    o.rule = "A corpus of all constructs: each of 29 kinds of white space and comments in each gap between tokens, in all gaps, alternating, and every pair of kinds in pairs of gaps; all sequences of up to 4 (thorough: 5) of 36 pieces of text and of 2 (3) of them at four places of a schema; truncations and byte changes; sizes around powers of two up to 4097 and nesting to 2000; output cut off after every number of bytes for file, same file and standard output; unusable files. Judged by an independent reader of tokens and comments, by formatting again, and by compiling both texts";
    o.assumptions = {"trailing blanks of a line comment are not part of it"};
    vector<mc::Family> f = { {"one gap", one_gap}, {"all gaps", all_gaps}, {"two gaps", two_gaps}, {"short texts", [](Chooser& c, Ctx& x) { sequences(c, x, 1 + (int)c.pick(3)); }}, {"texts of 4", [](Chooser& c, Ctx& x) { sequences(c, x, 4); }}, {"pieces in a schema", [th](Chooser& c, Ctx& x) { in_packet(c, x, th ? 3 : 2); }}, {"bytes", bytes}, {"sizes", sizes}, {"files", files}, {"faults", faults} };
    if (th) f.push_back({"texts of 5", [](Chooser& c, Ctx& x) { sequences(c, x, 5); }});
    return mc::main_driver(argc, argv, o, f);
}
