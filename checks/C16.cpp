#include "common.hpp"
#include "isa.hpp"
#include <cjson/cJSON.h>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
static string SENT = "what was there before\n";
// A rejection must say what is wrong: text mentions an error, JSON is one object with a message per line
static string diagnostic(const string& diag, bool json) {
    if (!json) return diag.find("rror") == string::npos && diag.find("ould not") == string::npos ? "a schema is rejected without a diagnostic" : "";
    int n = 0; size_t i = 0;
    while (i < diag.size()) {
        size_t e = diag.find('\n', i); string l = diag.substr(i, e == string::npos ? string::npos : e - i); i = e == string::npos ? diag.size() : e + 1; if (l.find_first_not_of(" \r\t") == string::npos) continue;
        cJSON* j = cJSON_ParseWithOpts(l.c_str(), nullptr, 1); if (!j) return "diagnostics are not valid JSON";
        cJSON *m = cJSON_GetObjectItem(j, "message"), *x = cJSON_GetObjectItem(j, "error"); bool ok = (cJSON_IsString(m) && *m->valuestring) || (cJSON_IsString(x) && *x->valuestring); cJSON_Delete(j); if (!ok) return "no message in the JSON diagnostics"; n++;
    }
    return n ? "" : "a schema is rejected without a diagnostic";
}
// Compiles; empty if it behaves: rejects with a diagnostic and leaves the output alone, or produces a sound image
static string judge(Ctx& ctx, const string& text, int want /* 0 accept, 1 reject, -1 either */, bool json = false, bool existing = true) {
    string in = ctx.scratch + "/c16.cnd", out = ctx.scratch + "/c16.il", diag, now; unlink(out.c_str());
    if (existing) impl::write_file(out, SENT);
    impl::write_file(in, text); int r = impl::compile_file(in, out, &diag, json); ctx.evals();
    bool there = impl::read_file(out, now);
    if (r != 0) {
        if (existing ? (!there || now != SENT) : there) return "a rejected schema changes the output file";
        string why = diagnostic(diag, json); if (!why.empty()) return why + "\n" + diag;
        if (want == 0) return "well-formed schema is rejected\n" + diag;
        ctx.outcome("rejected with a diagnostic"); return "";
    }
    if (want == 1) return "ill-formed schema is accepted";
    if (!there || now == SENT) return "success without an output file";
    vector<uint8_t> b(now.begin(), now.end()); impl::Block blk(b); cnd_program p; if (cnd_program_load_il(&p, blk.p, blk.n) != 0) return "success with an image that does not load";
    if (cnd_verify_program(&p) != 0) return "success with a program that is not valid";
    vector<uint8_t> code(p.bytecode, p.bytecode + p.bytecode_len); isa::Prog m = isa::parse(code); if (!m.ok && !m.gray) return "success with a malformed program: " + m.why;
    for (auto& i : m.ins) for (size_t k : i.keys) if ((code[k] | code[k + 1] << 8) >= p.string_count) return "success with a key outside of the string table";
    ctx.outcome("accepted with a sound image"); return "";
}
static bool check(Ctx& ctx, const string& text, int want, bool json = false, bool existing = true) { string bad = judge(ctx, text, want, json, existing); ctx.steps(); ctx.traces(); if (bad.empty()) return true; fail2(ctx, bad); return false; }
// ---- catalogue of violations inside of a body
static const vector<string>& bad_fields() {
    static const vector<string> v = {
        "Unknown x;", "uint8 ;", "uint8 1a;", "uint8 q uint8 r;", "uint8 q, r;", "uint8 q; uint8 q;", "uint8 n;", "uint8 q; uint16 q;", "string q max 3; uint8 q;", "S1 q; uint8 q;", "uint8 q[2]; uint8 q;", "uint8 q : 2; uint8 q : 3;", "uint8 self;",
        "uint8 q[];", "uint8 q[-1];", "uint8 q[1.5];", "uint8 q[4294967296];", "uint8 q[", "uint8 q[2;", "uint8 q[2][2];", "uint8 q[n];", "uint8 q[] prefix float;", "uint8 q[] prefix int8;", "uint8 q[] prefix uint64;", "uint8 q[] prefix;", "uint8 q[2] prefix uint8;", "uint8 q prefix uint8;", "uint8 q max 3;", "uint8 q until 0;",
        "@count(nope) uint8 q[];", "@count(n) uint8 q;", "@count(n) uint8 q[2];", "@count(n) uint8 q[] prefix uint8;", "@count() uint8 q[];", "@count uint8 q[];", "@eof uint8 q;", "@eof uint8 q[2];", "@eof uint8 q[] prefix uint8;", "@eof @count(n) uint8 q[];", "@count(q) uint8 q[];", "@count(r) uint8 q[]; uint8 r;",
        "string q : 3;", "string q[];", "string q[2];", "string q[] prefix;", "string q prefix int8;", "string q prefix uint64;", "string q prefix float;", "string q max;", "string q max -1;", "string q max 65536;", "string q max x;", "string q prefix uint8",
        "uint8 q : 0;", "uint8 q : 9;", "uint8 q : -1;", "uint16 q : 17;", "uint32 q : 33;", "uint64 q : 65;", "int8 q : 9;", "bool q : 2;", "bool q : 0;", "float q : 3;", "double q : 64;", "uint8 q : 2.5;", "uint8 q : x;", "uint8 q : ;", "E1 q : 3;", "S1 q : 3;", "@const(1) uint8 q : 3;", "@expr(1) uint8 q : 3;", "@crc(16) uint16 q : 16;",
        "@const(256) uint8 q;", "@const(-1) uint8 q;", "@const(128) int8 q;", "@const(-129) int8 q;", "@const(65536) uint16 q;", "@const(4294967296) uint32 q;", "@const(18446744073709551616) uint64 q;", "@const(9223372036854775808) int64 q;", "@const(-9223372036854775809) int64 q;", "@const(1) string q max 3;", "@const(1) S1 q;", "@const uint8 q;", "@const() uint8 q;", "@const(1 uint8 q;", "@const(x) uint8 q;", "@const(1, 2) uint8 q;", "@const(0x) uint8 q;", "@const(1.5) uint8 q;",
        "@range(5, 1) uint8 q;", "@range(0, 256) uint8 q;", "@range(-1, 5) uint8 q;", "@range(-129, 0) int8 q;", "@range(0, 128) int8 q;", "@range(1) uint8 q;", "@range(1, 2, 3) uint8 q;", "@range() uint8 q;", "@range(1 2) uint8 q;", "@range(0, 1) string q max 3;", "@range(0, 1) S1 q;", "@range(2.0, 1.0) float q;", "@range(0, x) uint8 q;",
        "@crc(8) uint8 q;", "@crc(64) uint64 q;", "@crc(16) uint32 q;", "@crc(32) uint16 q;", "@crc(16) int16 q;", "@crc(16) string q max 4;", "@crc(32) S1 q;", "@crc(32) E1 q;", "@crc(32) float q;", "@crc_poly(1) uint16 q;", "@crc_init(1) uint32 q;", "@crc_xor(1) uint32 q;", "@crc(16) @crc_poly(65536) uint16 q;", "@crc(16) @crc_init(65536) uint16 q;", "@crc(32) @crc_poly(4294967296) uint32 q;", "@crc(16) uint16 q[2];", "@crc() uint16 q;", "@crc uint16 q;",
        "@expr(1 +) uint8 q;", "@expr() uint8 q;", "@expr uint8 q;", "@expr(nope) uint8 q;", "@expr(nope + 1) uint8 q;", "@expr(1) uint8 q[2];", "@expr(1) string q max 3;", "@expr(1) S1 q;", "@expr((1) uint8 q;", "@expr(1)) uint8 q;", "@expr(* 2) uint8 q;", "@expr(1 1) uint8 q;", "@expr(n n) uint8 q;", "@expr(sin()) float q;", "@expr(sin(1.0) float q;", "@expr(1.5 % 2) uint8 q;", "@expr(1.5 & 2) uint8 q;", "@expr(~1.5) uint8 q;", "@expr(1.5 << 2) uint8 q;", "@expr(18446744073709551616) uint64 q;", "@expr(E1) uint8 q;", "@expr(E1.NOPE) uint8 q;", "@expr(n = 1) uint8 q;", "@expr(n ? 1 : 2) uint8 q;", "@expr(q) uint8 q;", "@expr(\"a\") uint8 q;",
        "@const(1) @expr(1) uint8 q;", "@const(1) @crc(16) uint16 q;", "@expr(1) @crc(16) uint16 q;",
        "@scale(2.0) string q max 3;", "@scale(2.0) S1 q;", "@scale(2.0) E1 q;", "@offset(1.0) string q max 3;", "@scale() uint8 q;", "@scale uint8 q;", "@scale(x) uint8 q;", "@scale(1.0, 2.0) uint8 q;", "@add(1) string q max 3;", "@mul(2) S1 q;", "@add() uint8 q;", "@div(x) uint8 q;", "@poly() uint8 q;", "@poly(1.0, ) uint8 q;", "@poly(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17) uint8 q;", "@spline(1.0) uint8 q;", "@spline(0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13,14,14,15,15,16,16) uint8 q;", "@scale(2.0) uint8 q : 3;", "@poly(1.0, 2.0) string q max 3;",
        "switch (nope) { case 1: uint8 q; }", "switch (n) { case 1: uint8 q; case 1: uint8 r; }", "switch (n) { default: uint8 q; default: uint8 r; }", "switch (n) { case E1.NOPE: uint8 q; }", "switch (n) { case NOPE.A: uint8 q; }", "switch (n) { case E1: uint8 q; }", "switch (n) { uint8 q; }", "switch (n) { case 1 uint8 q; }", "switch (n) { case : uint8 q; }", "switch (n) { case x: uint8 q; }", "switch n { case 1: uint8 q; }", "switch () { case 1: uint8 q; }", "switch (n) case 1: uint8 q;", "switch (n) { case 1: uint8 q;", "switch (n) { case 1: Unknown q; }", "switch (n) { case 1: { uint8 q; uint8 q; } }", "switch (n) { case 18446744073709551616: uint8 q; }", "switch (n) { case 1.5: uint8 q; }", "switch (n) { default uint8 q; }", "switch (q) { case 1: uint8 r; } uint8 q;",
        "if (nope) { uint8 q; }", "if () { uint8 q; }", "if (n == ) { uint8 q; }", "if (n) uint8 q;;", "if n { uint8 q; }", "if (n) { uint8 q; } else", "if (n) { uint8 q;", "else { uint8 q; }", "if (n) { Unknown q; }", "if (n) { uint8 q; } else { Unknown r; }", "if (n) { uint8 q; } else if (nope) { uint8 r; }", "if (q) { uint8 r; } uint8 q;", "if (n & 1.5) { uint8 q; }",
        "@optional S1 q;", "@bogus uint8 q;", "@unaligned_bytes uint8 q;", "@ uint8 q;", "@big_endian", "@optional", "@const(1)", "struct X { uint8 a; }", "enum X { A }", "packet Q { uint8 a; }", "@import(\"x.cnd\") uint8 q;", "S1;", "E1;", "E1 ;", "uint8 q = 5;", "uint8 q(5);", "uint8 q { }", "5;", "q;", "\"s\";", "(uint8 q);", "uint8 uint8;;q", "uint8 q.r;", "uint8 q-r;", "uint8 $q;", "uint8 q#;", "uint8 q\\;", "uint8 q!;", "uint8 \"q\";", "uint8 q /* c */ r;", "@pad(-1)", "@pad() uint8 q;", "@pad(x) uint8 q;", "uint8 \xC3\xA9;", "S0 q;" };
    return v;
}
static string in_context(const string& d, int c) {
    string pre = "enum E1 : uint8 { A = 1, B = 2 }\nstruct S1 { uint8 x; }\n";
    switch (c) {
        case 0: return pre + "packet P { uint8 n; S1 s1; " + d + " }\n";
        case 1: return pre + "struct C { uint8 n; S1 s1; " + d + " }\npacket P { uint8 k; C c; uint8 z; }\n";
        case 2: return pre + "struct C { uint8 n; S1 s1; " + d + " }\npacket P { uint8 k; }\n";
        case 3: return pre + "packet P { uint8 n; S1 s1; switch (n) { case 7: { uint8 a; " + d + " } } uint8 z; }\n";
        case 4: return pre + "packet P { uint8 n; S1 s1; if (n == 3) { uint8 a; " + d + " } uint8 z; }\n";
        case 5: return pre + "packet P { uint8 n; S1 s1; if (n == 3) { uint8 a; } else { " + d + " } }\n";
        case 6: return pre + "packet P { uint8 n; S1 s1; switch (n) { case 1: uint8 a; default: { " + d + " } } }\n";
        case 7: return pre + "struct I { uint8 n; S1 s1; if (n > 1) { switch (n) { case 2: { " + d + " } } } }\nstruct C { I i[2]; }\npacket P { C c; }\n";
        default: return pre + "@big_endian\npacket P { @range(0, 9) uint8 n; S1 s1; " + d + " uint8 z; @crc(32) uint32 crc; }\n";
    }
}
static void catalogue(Chooser& ch, Ctx& ctx) {
    const string& d = ch.of(bad_fields()); int c = (int)ch.pick(9); int mode = (int)ch.pick(2); string t = in_context(d, c);
    if (c == 8 && d[0] == '@' && d.find(';') == string::npos && (d == "@big_endian" || d == "@optional" || d == "@const(1)")) return; // applies to the next field there
    if (!ctx.begin(t)) return;
    if (check(ctx, t, 1, mode, !mode)) ctx.nontrivial();
}
// The same contexts with sound declarations must be accepted
static void sound(Chooser& ch, Ctx& ctx) {
    static const vector<string> G = { "uint8 q;", "uint8 q : 3; uint8 r : 5;", "E1 q;", "S1 q[2];", "string q prefix uint8;", "@count(n) uint16 q[];", "@const(255) uint8 q;", "@const(-128) int8 q;", "@range(0, 255) uint8 q;", "@range(1, 1) uint8 q;", "@crc(16) uint16 q;", "@crc(32) uint32 q;", "@expr(n * 2 + 1) uint16 q;", "@scale(0.5) int16 q;", "@poly(1.0, 2.0) uint8 q;", "switch (n) { case 1: uint8 q; case 2: { uint8 r; } default: uint8 w; }", "if (n == 1) { uint8 q; } else if (n == 2) { uint8 r; } else { uint8 w; }", "@optional uint8 q;", "@pad(3) uint8 q;", "string q[2] prefix uint8;", "@big_endian uint32 q;", "@expr(sin(0.5) * 2.0) double q;", "switch (n) { case E1.A: uint8 q; }", "@const(0xFF) uint8 q;", "uint64 q : 64;", "bool q : 1;" };
    const string& d = ch.of(G); int c = (int)ch.pick(9); string t = in_context(d, c); if (!ctx.begin(t)) return;
    if (check(ctx, t, 0, ch.flag())) ctx.nontrivial();
}
// The catalogue in imported files, and names defined twice in different files
static string in_files(Ctx& ctx, const string& text, int where) { // text becomes a file that is imported; the main file imports it
    string d = ctx.scratch + "/imp"; mkdir(d.c_str(), 0777); impl::write_file(ctx.scratch + "/imp/bad.cnd", text); impl::write_file(d + "/mid.cnd", "struct M1 { uint8 m; }\n@import(\"bad.cnd\")\nstruct M2 { uint8 m; }\n");
    return where == 0 ? "@import(\"imp/bad.cnd\")\npacket P { uint8 k; }\n" : "@import(\"imp/mid.cnd\")\npacket P { M1 m; M2 n; }\n";
}
static void imported(Chooser& ch, Ctx& ctx) {
    const string& d = ch.of(bad_fields()); int where = (int)ch.pick(2), c = 1 + (int)ch.pick(2); bool json = ch.flag(); string t = in_context(d, c == 1 ? 1 : 7); size_t p = t.rfind("packet P"); if (p != string::npos) t.resize(p);
    if (d.find("packet Q") != string::npos) { }
    if (!ctx.begin("imported: " + t)) return; string m = in_files(ctx, t, where);
    if (check(ctx, m, 1, json)) ctx.nontrivial();
}
static void across(Chooser& ch, Ctx& ctx) {
    static const vector<string> K = {"struct X { uint8 a; }\n", "struct X { uint16 b; }\n", "enum X { A }\n", "enum X : uint16 { B = 7 }\n", "packet X { uint8 a; }\n", "@unaligned_bytes\nstruct X { uint8 a : 3; uint8 b : 5; }\n", "struct X { }\n"};
    int a = (int)ch.pick((uint32_t)K.size()), b = (int)ch.pick((uint32_t)K.size()), fa = (int)ch.pick(4), fb = (int)ch.pick(4), order = (int)ch.pick(2); bool same = ch.flag(), json = ch.flag();
    string x = K[a], y = K[b]; if (!same) y.replace(y.find('X'), 1, "Y"); bool pk = a == 4 || b == 4; if (a == 4 && b == 4 && !same) return;
    // 0 main before, 1 a.cnd, 2 b.cnd, 3 c.cnd imported by a.cnd
    string f[4]; f[fa] += x; f[fb] += y; string text = "main:\n" + f[0] + "a.cnd:\n" + f[1] + "b.cnd:\n" + f[2] + "c.cnd:\n" + f[3]; if (!ctx.begin(text + (order ? "own declarations first" : "imports first"))) return;
    string d = ctx.scratch + "/imp"; mkdir(d.c_str(), 0777); impl::write_file(d + "/a.cnd", order ? f[1] + "@import(\"c.cnd\")\n" : "@import(\"c.cnd\")\n" + f[1]); impl::write_file(d + "/b.cnd", f[2]); impl::write_file(d + "/c.cnd", f[3]);
    string im = "@import(\"imp/a.cnd\")\n@import(\"imp/b.cnd\")\n", m = (order ? f[0] + im : im + f[0]) + (pk ? "" : "packet P { uint8 k; }\n");
    if (check(ctx, m, same ? 1 : (a == 6 || b == 6) ? -1 : 0, json)) ctx.nontrivial();
}
static void toplevel(Chooser& ch, Ctx& ctx) {
    static const vector<string> B = {
        "", "// only a comment\n", "struct S { uint8 a; }\n", "enum E { A }\n", "packet P { uint8 a; }\npacket Q { uint8 a; }\n", "packet P { uint8 a; }\npacket P { uint8 a; }\n", "struct S { uint8 a; }\nstruct S { uint8 b; }\npacket P { S s; }\n", "enum E { A }\nenum E { B }\npacket P { E e; }\n", "enum E { A }\nstruct E { uint8 a; }\npacket P { uint8 a; }\n", "struct E { uint8 a; }\nenum E { A }\npacket P { uint8 a; }\n", "struct P { uint8 a; }\npacket P { uint8 a; }\n", "enum P { A }\npacket P { uint8 a; }\n", "packet P { uint8 a; }\nstruct P { uint8 a; }\n", "packet P { uint8 a; }\nenum P { A }\n",
        "enum E { A, A }\npacket P { E e; }\n", "enum E { A = 1, B = 1 }\npacket P { E e; }\n", "enum E { A = 1, B = 0, C }\npacket P { E e; }\n", "enum E : uint8 { A = 256 }\npacket P { E e; }\n", "enum E : uint8 { A = -1 }\npacket P { E e; }\n", "enum E : int8 { A = 128 }\npacket P { E e; }\n", "enum E : int8 { A = -129 }\npacket P { E e; }\n", "enum E : uint8 { A = 255, B }\npacket P { E e; }\n", "enum E : int8 { A = 127, B }\npacket P { E e; }\n", "enum E : uint64 { A = 18446744073709551615, B }\npacket P { E e; }\n", "enum E : float { A }\npacket P { E e; }\n", "enum E : bool { A }\npacket P { E e; }\n", "enum E : string { A }\npacket P { E e; }\n", "enum E : Foo { A }\npacket P { E e; }\n", "enum E { A = x }\npacket P { E e; }\n", "enum E { A = }\npacket P { E e; }\n", "enum E { 1 }\npacket P { E e; }\n", "enum { A }\npacket P { uint8 e; }\n", "enum E { A = 1.5 }\npacket P { E e; }\n", "enum E { A = 4294967296 }\npacket P { E e; }\n", "enum E : { A }\npacket P { E e; }\n", "enum E { A ", "enum E A }\npacket P { uint8 a; }\n",
        "struct { uint8 a; }\npacket P { uint8 a; }\n", "packet { uint8 a; }\n", "packet P uint8 a; }\n", "packet P { uint8 a;\n", "packet P { uint8 a; } }\n", "packet P { uint8 a; } uint8 b;\n", "uint8 a;\npacket P { uint8 a; }\n", "struct S { S s; }\npacket P { S s; }\n", "struct A { B b; }\nstruct B { A a; }\npacket P { A a; }\n", "packet P { P p; }\n", "packet P { S s; }\nstruct S { uint8 a; }\n", "packet P = Nope;\n", "packet P = ;\n", "packet P = E;\nenum E { A }\n", "bogus P { uint8 a; }\n", "Packet P { uint8 a; }\n", "packet 1P { uint8 a; }\n", "packet \"P\" { uint8 a; }\n",
        "@version packet P { uint8 a; }\n", "@version() packet P { uint8 a; }\n", "@version(256)\npacket P { uint8 a; }\n", "@version(-1)\npacket P { uint8 a; }\n", "@version(x)\npacket P { uint8 a; }\n", "@\npacket P { uint8 a; }\n", "@unaligned_bytes\npacket P { uint8 a; }\n",
        "@import(nope)\npacket P { uint8 a; }\n", "@import()\npacket P { uint8 a; }\n", "@import(\"nope.cnd\")\npacket P { uint8 a; }\n", "@import(\"nope.cnd\"\npacket P { uint8 a; }\n", "@import \"nope.cnd\"\npacket P { uint8 a; }\n", "@import(\"\")\npacket P { uint8 a; }\n", "@import(\".\")\npacket P { uint8 a; }\n", "@import(\"/\")\npacket P { uint8 a; }\n", "@import(\"unterminated\npacket P { uint8 a; }\n",
        "@unaligned_bytes\nstruct S { uint8 a : 3; }\npacket P { S s; }\n", "@unaligned_bytes\nstruct S { uint8 a : 3; uint8 b : 6; }\npacket P { S s; }\n", "@unaligned_bytes\nstruct S { float a; }\npacket P { S s; }\n", "@unaligned_bytes\nstruct S { string a max 3; }\npacket P { S s; }\n", "@unaligned_bytes\nstruct S { uint8 a[2]; uint8 b : 3; }\npacket P { S s; }\n", "struct I { uint8 a; }\n@unaligned_bytes\nstruct S { I i; }\npacket P { S s; }\n", "enum E : uint8 { A }\n@unaligned_bytes\nstruct S { E e; }\npacket P { S s; }\n",
        "$\npacket P { uint8 a; }\n", "packet P { uint8 a; } $\n", "\"x\"\npacket P { uint8 a; }\n", "1\npacket P { uint8 a; }\n", "{ }\npacket P { uint8 a; }\n", "; packet P { uint8 a : 3x; }\n", "\xEF\xBB\xBFpacket P { uint8 a; }\n\xFF", "packet P { uint8 a; }\nstruct S { Unknown b; }\n", "packet P { uint8 a; }\nenum E : uint8 { A = 300 }\n" };
    const string& t = ch.of(B); int mode = (int)ch.pick(2); int lead = (int)ch.pick(3);
    string full = lead == 0 ? t : lead == 1 ? "// comment\n\n" + t : "struct First { uint8 zz; }\nenum Fe : uint8 { FA }\n" + t;
    if (!ctx.begin(full)) return;
    if (check(ctx, full, 1, mode, !mode)) ctx.nontrivial();
}
// ---- literals at the limits of every type
static string dec(__int128 v) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; string s; do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u); return neg ? "-" + s : s; }
static string hexs(__int128 v) { unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v; string s; do { s.insert(s.begin(), "0123456789ABCDEF"[(int)(u % 16)]); u /= 16; } while (u); return (v < 0 ? "-0x" : "0x") + s; }
static void literals(Chooser& ch, Ctx& ctx) {
    static const vector<Ty> T = {U8, U16, U32, U64, I8, I16, I32, I64}; Ty t = ch.of(T); int use = (int)ch.pick(9); bool hx = ch.flag(); uint32_t vi = ch.pick(40); bool lead0 = ch.flag(); if (lead0 && hx) return;
    __int128 lo = is_signed(t) ? (__int128)ty_min(t) : 0, hi = (__int128)ty_max(t);
    vector<__int128> V; for (int d = -2; d <= 2; d++) { V.push_back(lo + d); V.push_back(hi + d); }
    for (int b : {7, 8, 15, 16, 31, 32, 63, 64, 65, 100}) { V.push_back((__int128)1 << b); V.push_back(-((__int128)1 << b)); V.push_back(((__int128)1 << b) - 1); }
    if (vi >= V.size()) return; __int128 v = V[vi]; bool fits = v >= lo && v <= hi; string l = hx ? hexs(v) : dec(v); if (lead0) { if (v < 0) return; l = "00" + l; }
    string tn = ty_name(t), text; int want = fits ? 0 : 1;
    switch (use) {
        case 0: text = "packet P { @const(" + l + ") " + tn + " a; }\n"; break;
        case 1: text = "packet P { @range(" + l + ", " + dec(hi) + ") " + tn + " a; }\n"; break;
        case 2: text = "packet P { @range(" + dec(lo) + ", " + l + ") " + tn + " a; }\n"; break;
        case 3: text = "enum E : " + tn + " { A = " + l + " }\npacket P { E e; }\n"; break;
        case 4: text = "packet P { " + tn + " k; switch (k) { case " + l + ": uint8 a; } }\n"; if (!fits && v >= -((__int128)1 << 63) && v < ((__int128)1 << 64)) want = -1; break;
        case 5: text = "enum E : " + tn + " { A = " + l + ", B }\npacket P { E e; }\n"; want = fits && v + 1 <= hi ? 0 : 1; break;
        case 6: if (t != U8) return; text = "packet P { @expr(" + l + ") uint64 a; }\n"; want = v < ((__int128)1 << 64) && v >= -((__int128)1 << 63) ? 0 : v >= ((__int128)1 << 64) ? 1 : -1; break;
        case 7: if (t != U8) return; text = "packet P { uint8 a[" + l + "]; }\n"; want = v >= 1 && v <= 65535 ? 0 : v < 0 || v > 4294967295ll ? 1 : -1; break;
        case 8: if (t != U8) return; text = "packet P { string a max " + l + "; }\n"; want = v >= 1 && v <= 65535 ? 0 : v < 0 || v > 65535 ? 1 : -1; break;
    }
    if (!ctx.begin(text)) return; if (check(ctx, text, want)) ctx.nontrivial();
}
// ---- every edit of one token of a corpus that covers every construct
static vector<string> tokens(const string& s) {
    vector<string> t; size_t i = 0;
    while (i < s.size()) {
        char c = s[i]; if (isspace((unsigned char)c)) { i++; continue; } size_t b = i;
        if (isalpha((unsigned char)c) || c == '_') while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++;
        else if (isdigit((unsigned char)c)) while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '.')) i++;
        else if (c == '"') { i++; while (i < s.size() && s[i] != '"') i++; i++; }
        else { i++; if (i < s.size() && strchr("=<>&|", s[i]) && strchr("=<>!&|", c)) i++; }
        t.push_back(s.substr(b, i - b));
    }
    return t;
}
static string join(const vector<string>& t) { string s; for (auto& x : t) { s += x; s += x == ";" || x == "{" || x == "}" ? "\n" : " "; } return s; }
static const vector<string>& rich() {
    static const vector<string> v = {
        "@version(2)\nenum E : uint8 { A = 1, B, C = 9 }\nstruct S { uint8 n; @count(n) uint16 v[]; E e; }\n@big_endian\npacket P { S s; S t[2]; @const(0xAA) uint8 m; @range(-5, 5) int8 r; string x until 0 max 9; string y prefix uint16; @crc(16) @crc_poly(0x8005) @crc_refin uint16 c; }\n",
        "packet P { uint8 k; switch (k) { case 0: uint8 a; case 1: { uint16 b; uint8 c : 3; } default: { bool d; } } if (k > 1 && k < 9) { uint8 e; } else if (k == 0) { float f; } else { double g; } }\n",
        "@unaligned_bytes\nstruct U { uint8 a : 3; int16 b : 13; bool c; uint8 d : 7; }\npacket P { U u; @pad(4) uint8 x : 2; @fill uint8 y; @optional uint16 z; @eof uint8 w[]; }\n",
        "packet P { @scale(0.1) @offset(-40) uint16 a; @add(3) uint8 b; @poly(1.0, 0.5) uint8 c; @spline(0.0, 0.0, 10.0, 5.0) uint8 d; @expr((b + 2) * -3 % 7 << 1) int32 e; @expr(sin(1.5) + pow(2.0, 3.0)) double f; @little_endian uint32 g; string h[2] until 0; uint8 i[] prefix uint32; @const(1) @big_endian uint16 j; }\n" };
    return v;
}
static string seed(uint32_t i) { if (i < rich().size()) return rich()[i]; const auto& a = gen::atoms()[i - rich().size()]; Schema s; a.add(s, s.body, "f"); return print(s); }
static uint32_t seeds() { return (uint32_t)(rich().size() + gen::atoms().size()); }
static const vector<string>& subs() { static const vector<string> v = {"uint8", "float", "string", "bool", "S", "E", "f", "packet", "struct", "enum", "switch", "case", "default", "if", "else", "prefix", "until", "max", "{", "}", "(", ")", "[", "]", ";", ":", ",", ".", "@", "=", "==", "+", "-", "!", "~", "&&", "0", "1", "-1", "300", "2.5", "\"s\"", "18446744073709551616", "@import", "self", "$", "//", "/*"}; return v; }
static void edits(Chooser& ch, Ctx& ctx) {
    uint32_t s = ch.pick(seeds()); string text = seed(s); vector<string> t = tokens(text); uint32_t at = ch.pick((uint32_t)t.size()); uint32_t kind = ch.pick(4); vector<string> r = t;
    if (kind == 0) r.erase(r.begin() + at); else if (kind == 1) r.insert(r.begin() + at, t[at]); else if (kind == 2) { if (at + 1 >= t.size() || t[at] == t[at + 1]) return; std::swap(r[at], r[at + 1]); }
    else { const auto& S = subs(); uint32_t n = (uint32_t)S.size(); uint32_t k = ch.pick(n); r[at] = S[k]; if (!ctx.thorough && s >= rich().size() && (k + at + s) % 4) return; }
    string out = join(r); if (!ctx.begin(out)) return;
    if (check(ctx, out, -1, at % 2)) ctx.nontrivial();
}
static void inserts(Chooser& ch, Ctx& ctx) {
    uint32_t s = ch.pick(ctx.thorough ? seeds() : (uint32_t)rich().size()); vector<string> t = tokens(seed(s)); uint32_t at = ch.pick((uint32_t)t.size() + 1); const string& x = ch.of(subs()); t.insert(t.begin() + at, x);
    string out = join(t); if (!ctx.begin(out)) return; if (check(ctx, out, -1)) ctx.nontrivial();
}
static void double_edits(Chooser& ch, Ctx& ctx) { // deletes any two tokens
    uint32_t s = ch.pick((uint32_t)rich().size()); vector<string> t = tokens(seed(s)); uint32_t a = ch.pick((uint32_t)t.size()), b = ch.pick((uint32_t)t.size()); if (b <= a) return; if (!ctx.thorough && (a + b) % 3) return;
    t.erase(t.begin() + b); t.erase(t.begin() + a); string out = join(t); if (!ctx.begin(out)) return; if (check(ctx, out, -1)) ctx.nontrivial();
}
static void bytes(Chooser& ch, Ctx& ctx) { // every truncation and every byte replaced
    uint32_t s = ch.pick(ctx.thorough ? seeds() : (uint32_t)rich().size() + 12); if (!ctx.thorough && s >= rich().size()) s = (uint32_t)rich().size() + (s - (uint32_t)rich().size()) * 9; string t = seed(s); uint32_t at = ch.pick((uint32_t)t.size()), k = ch.pick(8);
    if (k == 0) t.resize(at); else { static const char B[] = {0, '\xFF', '"', '/', '*', '{', '\n'}; t[at] = B[k - 1]; }
    if (!ctx.begin(t)) return; if (check(ctx, t, k == 0 ? (s < rich().size() || true) && at + 3 < t.size() ? -1 : -1 : -1)) ctx.nontrivial();
}
// ---- all short token sequences, in a body and at the top
static void token_sequences(Chooser& ch, Ctx& ctx, int len) {
    int where = (int)ch.pick(4); string s; for (int i = 0; i < len; i++) { s += ch.of(subs()); s += " "; }
    static const char* pre[] = {"", "packet P { uint8 f ; ", "packet P { uint8 f ; @", "packet P { uint8 f ; if ( "}; static const char* post[] = {"\npacket P { uint8 a ; }", " }", " uint8 g ; }", " ) { uint8 g ; } }"};
    string t = pre[where] + s + post[where]; if (!ctx.begin(t)) return; if (check(ctx, t, -1)) ctx.nontrivial();
}
// ---- size
static void sizes(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(14); static const vector<int> N = {1, 2, 10, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 3000, 20000}; int n = ch.of(N); string t; int want = -1; if (n == 20000 && !ctx.thorough && (kind == 4 || kind == 7 || kind == 8)) return;
    auto rep = [&](const string& s) { string o; for (int i = 0; i < n; i++) o += s; return o; };
    switch (kind) {
        case 0: t = "packet P { uint8 a; @expr(" + rep("(") + "1" + rep(")") + ") uint8 b; }"; break;
        case 1: t = "packet P { uint8 a; " + rep("if (a) { "); for (int i = 0; i < n; i++) t += fmt("uint8 x%d; }", i); t += " }"; break;
        case 2: t = "packet P { uint8 a; " + rep("{ ") + rep("} ") + "}"; break;
        case 3: t = "packet P { uint8 " + rep("n") + "; }"; want = n <= 255 ? 0 : -1; break;
        case 4: t = "packet P { "; for (int i = 0; i < n; i++) t += fmt("uint8 a%d; ", i); t += "}"; want = 0; break;
        case 5: t = "packet P { @expr(" + rep("-") + "1) int8 a; }"; break;
        case 6: t = "packet P { @expr(1" + rep(" + 1") + ") uint32 a; }"; want = n <= 1000 ? 0 : -1; break;
        case 7: t = "enum E { "; for (int i = 0; i < n; i++) t += fmt("A%d,", i); t += " Z }\npacket P { E e; }"; want = n <= 3000 ? 0 : -1; break;
        case 8: t = "packet P { uint32 k; switch (k) { "; for (int i = 0; i < n; i++) t += fmt("case %d: uint8 x%d; ", i * 3, i); t += "} }"; want = n <= 3000 ? 0 : -1; break;
        case 9: t = rep("// comment\n") + rep("/* x */ ") + "packet P { uint8 a; }" + rep("\n"); want = 0; break;
        case 10: t = rep("packet "); want = 1; break;
        case 11: t = "packet P { " + rep("uint8 ; ") + " }"; want = 1; break;
        case 12: for (int i = 0; i < n; i++) t += fmt("struct S%d { %s a; }\n", i, i ? fmt("S%d", i - 1).c_str() : "uint8"); t += fmt("packet P { S%d s; }", n - 1); if (n > 1000) return; break;
        case 13: t = "packet P { uint8 a; " + rep("@big_endian ") + "uint16 b; @const(" + rep("0") + "1) uint8 c; }"; break;
    }
    if (!ctx.begin(fmt("size %d of kind %d: ", n, kind) + t.substr(0, 400))) return;
    if (check(ctx, t, want)) { if (kind == 9 || kind == 4 || ctx.thorough) check(ctx, t, want, true, false); ctx.nontrivial(); }
}
// ---- failures of the files
struct Quiet { int a, b; Quiet() { fflush(stdout); fflush(stderr); a = dup(1); b = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); } ~Quiet() { fflush(stdout); fflush(stderr); dup2(a, 1); dup2(b, 2); close(a); close(b); } };
static void write_faults(Chooser& ch, Ctx& ctx) {
    uint32_t s = ch.pick(ctx.thorough ? seeds() : (uint32_t)rich().size() + 3); int existing = (int)ch.pick(2), json = (int)ch.pick(2); string t = seed(s);
    if (!ctx.begin("output cut off after every number of bytes: " + t)) return;
    string il; if (impl::compile(t, il, ctx.scratch) != 0) { ctx.fail("seed does not compile"); return; }
    string in = ctx.scratch + "/w.cnd", out = ctx.scratch + "/w.il"; impl::write_file(in, t); signal(SIGXFSZ, SIG_IGN);
    rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    for (size_t n = 0; n <= il.size() + 1; n++) {
        unlink(out.c_str()); if (existing) impl::write_file(out, string(n % 2 ? 3 : 5000, 'o'));
        rlimit l = old; l.rlim_cur = n; int r; { Quiet q; setrlimit(RLIMIT_FSIZE, &l); r = cnd_compile_file(in.c_str(), out.c_str(), json, 0); setrlimit(RLIMIT_FSIZE, &old); } ctx.evals(); ctx.steps();
        string now; bool there = impl::read_file(out, now);
        if (r == 0 && (!there || now != il)) { ctx.fail("success is reported although the image is incomplete", fmt("limit %zu of %zu bytes", n, il.size())); return; }
        if (n >= il.size() && r != 0) { ctx.fail("writing the whole image fails"); return; }
        if (n < il.size() && r == 0) { ctx.fail("success is reported although writing failed"); return; }
        ctx.outcome(r ? "failed write reported" : "complete image written");
    }
    ctx.traces(); ctx.nontrivial();
}
static void file_faults(Chooser& ch, Ctx& ctx) {
    int k = (int)ch.pick(9), json = (int)ch.pick(2); if (!ctx.begin(fmt("file fault %d, json %d", k, json))) return;
    string d = ctx.scratch + "/ff", in = d + "/in.cnd", out = d + "/out.il", diag; mkdir(d.c_str(), 0777); impl::write_file(in, "packet P { uint8 a; }\n"); unlink(out.c_str()); rmdir(out.c_str()); bool ok = false, want_ok = false;
    switch (k) {
        case 0: in = d + "/missing.cnd"; break;
        case 1: in = d; break;
        case 2: out = d + "/no/such/dir/out.il"; break;
        case 3: out = d; break;
        case 4: out = ""; break;
        case 5: in = ""; break;
        case 6: impl::write_file(out, "old"); want_ok = true; break;
        case 7: impl::write_file(d + "/in2.cnd", "@import(\"" + d + "\")\npacket P { uint8 a; }\n"); in = d + "/in2.cnd"; break;
        case 8: out = in; want_ok = true; break; // whatever was there is replaced only by a complete image
    }
    string before; bool was = k == 6 && impl::read_file(out, before); (void)was;
    string tmp = ctx.scratch + "/ffdiag"; int fd = open(tmp.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666); fflush(stdout); fflush(stderr); int a = dup(1), b = dup(2); dup2(fd, 1); dup2(fd, 2); close(fd);
    int r = cnd_compile_file(in.c_str(), out.c_str(), json, 0); fflush(stdout); fflush(stderr); dup2(a, 1); dup2(b, 2); close(a); close(b); impl::read_file(tmp, diag); ctx.evals();
    ok = r == 0; if (ok != want_ok) { ctx.fail("wrong result when a file cannot be used", fmt("result %d\n", r) + diag); return; }
    if (!ok) { string why = diagnostic(diag, json); if (!why.empty()) { ctx.fail(why, diag); return; } }
    ctx.outcome(ok ? "output replaced" : "file fault reported"); ctx.traces(); ctx.nontrivial();
}
// Structs packed by bits: accepted if and only if they end at a byte, as far as that is known
static void unaligned(Chooser& ch, Ctx& ctx) {
    Schema s; int rest = 0; pick_unaligned(ch, ctx.thorough ? 4 : 3, s, &rest); string t = print(s);
    if (!ctx.begin(t)) return; if (check(ctx, t, rest > 0 ? 1 : 0)) ctx.nontrivial();
}
// One name or value twice among n, at every two places
static void duplicates(Chooser& ch, Ctx& ctx, bool far) {
    static const vector<int> FAR = {127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 514, 1025};
    int kind = (int)ch.pick(12), n = far ? ch.of(FAR) : ch.of(ctx.thorough ? vector<int>{2, 3, 5, 9, 17, 24, 33, 40} : vector<int>{3, 9, 20, 33}), step = ch.of(vector<int>{1, 7, 300}); bool def = ch.flag();
    if (def && kind > 3) return;
    int i, j;
    if (far) {
        if (step > 60 || (kind > 3 && step > 1) || ((kind < 2 || kind == 5) && n * step > 65000) || (!ctx.thorough && (!(n == 129 || n == 256 || n == 257 || n == 300) || step > 1 || (def && kind)))) return;
        std::set<int> I, J; for (int k : {0, 1, n / 2, 126, 127, 128, 129, 254, 255, 256, 257, n - 3, n - 2, n - 1}) if (k < n && (ctx.thorough || k < 2 || k == n / 2 || k == 255 || k == 256 || k > n - 3)) I.insert(k);
        i = ch.of(vector<int>(I.begin(), I.end()));
        for (int k : {i + 1, i + 127, i + 128, i + 255, i + 256, i + 257, i + 512, n - 2, n - 1, n}) if (k > i && k <= n) J.insert(k);
        j = ch.of(vector<int>(J.begin(), J.end()));
    } else { i = (int)ch.pick((uint32_t)n); j = (int)ch.pick((uint32_t)n + 1); }
    if (j <= i) return; bool twice = j < n; if (!twice && i) return; // once without
    if (!far && !ctx.thorough && n > 20 && i > 1 && j < n - 2 && (i + j) % 5) return;
    auto at = [&](int k) { return twice && k == j ? i : k; }; string t;
    switch (kind) {
        case 0: case 1: case 2: case 3: { // case labels: numbers, numbers in another notation, members of an enum, members and numbers
            t = "enum E : uint16 { "; for (int k = 0; k < n; k++) t += fmt("M%d = %d, ", k, k * step); t += "Z = 65535 }\npacket P { E k; switch (k) { ";
            for (int k = 0; k < n; k++) { int v = at(k); bool mem = kind == 2 || (kind == 3 && k % 2); t += "case " + (mem ? fmt("E.M%d", v) : kind == 1 && k % 2 ? fmt("0x%X", v * step) : fmt("%d", v * step)) + fmt(": uint8 f%d; ", k); if (def && k == n / 2) t += "default: uint8 d; "; }
            t += "} }\n"; break; }
        case 4: t = "enum E { "; for (int k = 0; k < n; k++) t += fmt("M%d = %d, ", at(k), k * step); t += "Z }\npacket P { E e; }\n"; break;
        case 5: t = "enum E { "; for (int k = 0; k < n; k++) t += fmt("M%d = %d, ", k, at(k) * step); t += "Z = 65535 }\npacket P { E e; }\n"; break;
        case 6: t = "packet P { "; for (int k = 0; k < n; k++) t += fmt(k % 3 ? "uint8 f%d; " : "string f%d max 3; ", at(k)); t += "}\n"; break;
        case 7: t = "struct S { "; for (int k = 0; k < n; k++) t += fmt(k % 3 ? "uint8 f%d; " : "uint16 f%d[2]; ", at(k)); t += "}\npacket P { S s; }\n"; break;
        case 8: for (int k = 0; k < n; k++) t += fmt("struct S%d { uint8 a; }\n", at(k)); t += "packet P { S0 s; }\n"; break;
        case 9: for (int k = 0; k < n; k++) t += fmt("enum E%d { A }\n", at(k)); t += "packet P { E0 s; }\n"; break;
        case 10: for (int k = 0; k < n; k++) t += k % 2 ? fmt("enum T%d { A }\n", at(k)) : fmt("struct T%d { uint8 a; }\n", at(k)); t += "packet P { T0 s; }\n"; break;
        default: t = "packet P { uint8 k; "; for (int k = 0; k < n; k++) t += k % 2 ? fmt("if (k == %d) { uint8 f%d; } ", k, at(k)) : fmt("uint8 f%d; ", at(k)); t += "}\n"; break;
    }
    int want = twice; if (kind == 11 && twice && (i % 2 || j % 2)) want = i % 2 && j % 2 ? -1 : -1; if (n == 3 && kind == 3 && false) want = -1;
    if (!ctx.begin(t)) return; if (check(ctx, t, want)) ctx.nontrivial();
}
// Names and dotted references of every length: up to 255 characters they work, longer ones are rejected or work
static void name_lengths(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(12), parts = kind < 4 ? 2 + (int)ch.pick(3) : 1; vector<int> N; for (int i = 1; i < 270; i++) N.push_back(i); for (int i : {300, 383, 384, 385, 400, 510, 511, 512, 513, 514, 600, 1022, 1023, 1024, 1025, 1026, 2048, 4095, 4096, 4097, 5000, 65533, 65534, 65535, 65536, 70000}) N.push_back(i);
    int total = ch.of(N), split = parts > 1 ? (int)ch.pick(3) : 0; if (parts > 1 && total < parts * 2) return; if (!ctx.thorough && kind >= 4 && total < 250 && total % 5) return;
    vector<string> nm; int left = total - (parts - 1), used = 0; for (int i = 0; i < parts; i++) { int l = i == parts - 1 ? left - used : split == 0 ? left / parts : split == 1 ? 1 : left - used - (parts - 1 - i); nm.push_back(string(l, (char)('a' + i))); used += l; }
    string path = nm[0], decl, t; for (int i = 1; i < parts; i++) path += "." + nm[i]; for (int i = parts - 1; i >= 1; i--) decl += fmt("struct S%d { ", i) + (i == parts - 1 ? "uint8" : fmt("S%d", i + 1)) + " " + nm[i] + "; }\n";
    const string& n = nm[0]; 
    switch (kind) {
        case 0: t = decl + "packet P { S1 " + n + "; @expr(" + path + " * 2) uint32 xx; }"; break;
        case 1: t = decl + "packet P { S1 " + n + "; if (" + path + " == 2) { uint8 xx; } }"; break;
        case 2: t = decl + "struct O { S1 " + n + "; @expr(" + path + " + " + path + ") uint32 xx; }\npacket P { O o[2]; }"; break;
        case 3: t = decl + "packet P { S1 " + n + "; @expr(" + path + "zz * 2) uint32 xx; }"; break; // unknown
        case 4: t = "packet P { uint8 " + n + "; @expr(" + n + " * 2) uint32 xx; @count(" + n + ") uint8 yy[]; switch (" + n + ") { case 1: uint8 zz; } }"; break;
        case 5: t = "struct " + n + " { uint8 a; }\npacket P { " + n + " x; " + n + " y[2]; }"; break;
        case 6: t = "enum " + n + " { " + n + " = 3 }\npacket P { " + n + " x; switch (x) { case " + n + "." + n + ": uint8 y; } }"; break;
        case 7: t = "packet " + n + " { uint8 a; }"; break;
        case 8: t = "packet P { @" + n + " uint8 a; }"; break;
        case 9: t = "packet P { " + n + " a; }"; break;
        case 10: t = "packet P { uint8 a; @expr(" + n + "(a)) uint32 b; }"; break;
        default: t = "enum E { A }\npacket P { uint8 a; switch (a) { case E." + n + ": uint8 b; } }"; break;
    }
    int want = kind == 3 || kind >= 8 ? 1 : total <= 255 ? 0 : -1; if (kind == 4 && total == 2) want = -1; if ((kind == 9 && total == 1) || (kind == 5 && n == "x")) want = kind == 9 ? 1 : 0;
    if (!ctx.begin(fmt("length %d, %d parts, split %d: ", total, parts, split) + t.substr(0, 1200))) return; if (check(ctx, t, want)) ctx.nontrivial();
}
// Names that are easily taken for one are different names
static void close_pairs(Chooser& ch, Ctx& ctx) {
    const auto& p = ch.of(close_names()); int kind = (int)ch.pick(8); const string &a = p.first, &b = p.second; string t;
    switch (kind) {
        case 0: t = "packet P { uint8 " + a + "; uint8 " + b + "; }"; break;
        case 1: t = "struct S { uint8 " + a + "; uint8 " + b + "; }\npacket P { S s; uint8 " + b + "; }"; break;
        case 2: t = "struct " + a + " { uint8 v; }\nstruct " + b + " { uint8 v; }\npacket P { " + b + " v; }"; break;
        case 3: t = "enum " + a + " { V }\nstruct " + b + " { uint8 v; }\npacket P { " + b + " v; }"; break;
        case 4: t = "enum " + a + " { V }\nenum " + b + " { V }\npacket P { " + b + " v; }"; break;
        case 5: t = "enum E { " + a + ", " + b + " = 9 }\npacket P { E v; switch (v) { case E." + b + ": uint8 x; case E." + a + ": uint8 y; } }"; break;
        case 6: t = "packet P { uint8 " + a + "; @count(" + b + ") uint8 v[]; }"; break; // not defined
        default: t = "struct S { uint8 " + a + "; }\npacket P { S s; @expr(s." + b + ") uint8 v; }"; break;
    }
    if (!ctx.begin(t)) return; if (check(ctx, t, kind >= 6)) ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C16"; bool th = is_thorough(argc, argv); o.case_cpu_s = 20;
    o.rule = "A catalogue of about 230 violations in a body in nine contexts and 90 at the top level (all must be rejected with a diagnostic, output untouched, text and JSON) the first also in imported files; definitions of one name in every two of four files that import each other, and of two names; and the same contexts with sound fields (accepted); literals at and around every limit of every integer type in nine uses; every one-token deletion, duplication, swap and substitution (48 tokens) of a corpus of all constructs, insertions, pairs of deletions; every truncation and byte replacement; all sequences of 2 (thorough: 3) tokens in four places; sizes 1..20000 of fourteen constructs; output cut off after every number of bytes; unusable files. Every sequence of 3 (thorough: 4) of 18 members of an unaligned struct. One name or value twice at every two of up to 33 (thorough: 40) places, and at the ends and 1, 128, 255, 256, 512 apart of up to 300 (thorough: 1025), for case labels in four notations, members and values of enums, fields of packets and structs, structs and enums. Names and dotted references of 1-269 and up to 70000 characters in twelve places; about 240 pairs of names equal under one of 16 hash functions or nearly equal, in eight places. Success must mean an image that loads, verifies (also by the independent model) and has all its keys";
    o.assumptions = {"edited texts may be well-formed by accident: for them only soundness of the outcome is judged"};
    vector<mc::Family> f = { {"catalogue", catalogue}, {"sound", sound}, {"top level", toplevel}, {"imported", imported}, {"across files", across}, {"unaligned", unaligned}, {"duplicates", [](Chooser& c, Ctx& x) { duplicates(c, x, false); }}, {"far duplicates", [](Chooser& c, Ctx& x) { duplicates(c, x, true); }}, {"literals", literals}, {"name lengths", name_lengths}, {"close names", close_pairs}, {"edits", edits}, {"insertions", inserts}, {"two deletions", double_edits}, {"bytes", bytes}, {"token sequences", [](Chooser& c, Ctx& x) { token_sequences(c, x, 2); }}, {"sizes", sizes}, {"write faults", write_faults}, {"file faults", file_faults} };
    if (th) f.push_back({"token triples", [](Chooser& c, Ctx& x) { token_sequences(c, x, 3); }});
    return mc::main_driver(argc, argv, o, f);
}
