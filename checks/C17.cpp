#include "common.hpp"
#include <cjson/cJSON.h>
#include <sys/stat.h>
#include <unistd.h>
// A tree of files below the scratch directory
struct Tree {
    string root; vector<string> made;
    explicit Tree(Ctx& ctx) : root(ctx.scratch + "/t") { mkdir(root.c_str(), 0777); }
    void dir(const string& d) { string p = root; size_t i = 0; while (i < d.size()) { size_t e = d.find('/', i); if (e == string::npos) e = d.size(); p += "/" + d.substr(i, e - i); if (mkdir(p.c_str(), 0777) == 0) made.push_back(p); i = e + 1; } }
    void file(const string& f, const string& text) { size_t s = f.rfind('/'); if (s != string::npos) dir(f.substr(0, s)); string p = root + "/" + f; unlink(p.c_str()); impl::write_file(p, text); made.push_back(p); }
    void link(const string& f, const string& to) { size_t s = f.rfind('/'); if (s != string::npos) dir(f.substr(0, s)); string p = root + "/" + f; unlink(p.c_str()); if (symlink(to.c_str(), p.c_str()) == 0) made.push_back(p); }
    ~Tree() { for (size_t i = made.size(); i-- > 0;) if (unlink(made[i].c_str()) != 0) rmdir(made[i].c_str()); }
};
static int compile_text(Ctx& ctx, const string& text, string& il) { il.clear(); string d = ctx.scratch + "/single", f = d + "/single.cnd", o = d + "/single.il", diag; mkdir(d.c_str(), 0777); impl::write_file(f, text); unlink(o.c_str()); int r = impl::compile_file(f, o, &diag); ctx.evals(); if (r == 0) impl::read_file(o, il); return r; }
static int compile_main(Ctx& ctx, const string& path, string& il, string& diag, bool json = false) { il.clear(); string o = ctx.scratch + "/multi.il"; impl::write_file(o, "before"); int r = impl::compile_file(path, o, &diag, json); ctx.evals(); impl::read_file(o, il); return r; }
static bool same(Ctx& ctx, const string& main, const string& inlined, int want = -1) {
    string a, b, diag; int rb = compile_text(ctx, inlined, b), ra = compile_main(ctx, main, a, diag); ctx.steps(); ctx.traces();
    if (want == 0 && rb != 0) { ctx.fail("the single-file equivalent does not compile", inlined); return false; }
    if ((ra == 0) != (rb == 0)) { ctx.fail(ra ? "the split schema is rejected, the single file is not" : "the split schema compiles, the single file does not", diag + "\nsingle file:\n" + inlined); return false; }
    if (ra == 0 && a != b) { ctx.fail("the split schema compiles to another program than the single file", "single file:\n" + inlined); return false; }
    if (ra != 0 && a != "before") { ctx.fail("failed compilation changes the output"); return false; }
    ctx.outcome(ra ? "both rejected" : "same program"); return true;
}
// ---- graphs
static string up(int n) { string s; while (n--) s += "../"; return s; }
static string place(int layout, int i) { // directory of file i, with a slash
    switch (layout) { case 0: return ""; case 1: return fmt("d%d/", i); case 2: { string s; for (int k = 0; k < i; k++) s += "n/"; return s; } default: { string s; for (int k = i; k < 3; k++) s += "m/"; return s; } }
}
static int depth_of(const string& d) { int n = 0; for (char c : d) n += c == '/'; return n; }
static string spell(int style, const string& from, const string& to_dir, const string& name, const string& own, int number) {
    string rel = from == to_dir ? name : up(depth_of(from)) + to_dir + name;
    switch (style) {
        case 0: return rel;
        case 1: return "./" + rel;
        case 2: return own + "../" + (depth_of(own) > 1 ? up(depth_of(own) - 1) : "") + rel; // out of a directory below and back
        case 3: return ".//././/" + rel;
        case 4: return up(depth_of(from)) + fmt("links/%d/", number) + name;   // a link to the file
        default: return up(depth_of(from)) + "ldir/" + to_dir + name; // a link to the directory
    }
}
struct Graph {
    int n; vector<vector<int>> e; int order, mid; // e[i][j]: 0 none, else 1 + style
    string body_a(int i) const { return fmt("struct A%d { uint8 a%d; uint16 x%d; }\n", i, i, i); }
    vector<string> defs; vector<char> taken;
    string body_b(int i) { string s = fmt("struct B%d { uint%d b%d;", i, i % 2 ? 16 : 8, i); for (auto& d : defs) s += " " + d + " q" + d + ";"; return s + " }\n"; }
    vector<int> targets(int i) const { vector<int> v; for (int k = 0; k < n; k++) { int j = order ? n - 1 - k : k; if (e[i][j]) v.push_back(j); } return v; }
    string expand(int i, vector<string>& files, const vector<vector<string>>& sp) {
        taken[i] = 1; string out; string f;
        if (mid) { out += body_a(i); f += body_a(i); defs.push_back(fmt("A%d", i)); }
        for (int j : targets(i)) { f += "@import(\"" + sp[i][j] + "\")\n"; if (!taken[j]) out += expand(j, files, sp); }
        string b = body_b(i); defs.push_back(fmt("B%d", i)); out += b; f += b;
        if (!mid) { string a = body_a(i); defs.push_back(fmt("A%d", i)); out += a; f += a; }
        if (i == 0) { string p = "packet P {"; for (auto& d : defs) p += " " + d + " p" + d + ";"; p += " }\n"; out += p; f += p; }
        files[i] = f; return out;
    }
};
static void graphs(Chooser& ch, Ctx& ctx, int n, int layouts, bool self, int each) {
    Graph g; g.n = n; g.e.assign(n, vector<int>(n, 0)); int layout = (int)ch.pick(layouts), names = (int)ch.pick(n >= 4 || each ? (layout ? 2 : 1) : layout ? 4 : 3), base = each ? 0 : (int)ch.pick(n >= 4 ? (ctx.thorough ? 6 : 2) : 6); g.order = (int)ch.pick(2); g.mid = (int)ch.pick(2);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j && !self) continue; if (each) g.e[i][j] = (int)ch.pick(each); else if (ch.flag()) g.e[i][j] = 1 + (base + i * 2 + j + (g.order ? 3 : 0)) % 6; }
    // only graphs in which every file is reached
    vector<char> seen(n, 0); vector<int> todo = {0}; seen[0] = 1; while (!todo.empty()) { int i = todo.back(); todo.pop_back(); for (int j = 0; j < n; j++) if (g.e[i][j] && !seen[j]) { seen[j] = 1; todo.push_back(j); } }
    for (char s : seen) if (!s) return;
    auto nm = [&](int i) { // distinct, prefixes of each other, odd characters, or the same in every directory
        if (names == 1 && layout) return string("f.cnd"); int k = layout && names > 1 ? names - 1 : names;
        return k == 1 ? "f" + string(i, 'f') + ".cnd" : k == 2 ? string((const char*[]){"F g.cnd", "f g.cnd", "f%20g.cnd", "f\xC3\xA9'.cnd.cnd"}[i]) : fmt("f%d.cnd", i); };
    string note = fmt("layout %d names %d order %d mid %d edges", layout, names, g.order, g.mid); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.e[i][j]) note += fmt(" %d->%d/%d", i, j, g.e[i][j] - 1);
    if (!ctx.begin(note)) return;
    Tree t(ctx); vector<string> dirs(n), files(n); vector<vector<string>> sp(n, vector<string>(n));
    for (int i = 0; i < n; i++) { dirs[i] = place(layout, i); t.dir(dirs[i] + "below"); }
    t.dir("links"); t.link("ldir", "."); for (int i = 0; i < n; i++) { t.dir(fmt("links/%d", i)); t.link(fmt("links/%d/", i) + nm(i), "../../" + dirs[i] + nm(i)); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.e[i][j]) sp[i][j] = spell(g.e[i][j] - 1, dirs[i], dirs[j], nm(j), "below/", j);
    g.taken.assign(n, 0); string inlined = g.expand(0, files, sp); for (int i = 0; i < n; i++) t.file(dirs[i] + nm(i), files[i]);
    if (same(ctx, t.root + "/" + dirs[0] + nm(0), inlined, 0)) ctx.nontrivial();
}
// ---- every pair and triple of spellings of the same file, and of the main file
static void spellings(Chooser& ch, Ctx& ctx) {
    static const vector<string> S = {"a.cnd", "./a.cnd", ".//a.cnd", "././a.cnd", "s/../a.cnd", "../t2/a.cnd", "s/../s/../a.cnd", "link.cnd", "ld/a.cnd", "ld/../t2/a.cnd", "s/up.cnd", "s/back/a.cnd", "link2.cnd", "../t2/./s/.././a.cnd"};
    int k = (int)ch.pick(3) + 1; vector<string> v; for (int i = 0; i < k; i++) v.push_back(ch.of(S)); int nested = (int)ch.pick(3), how = (int)ch.pick(6), self = (int)ch.pick(2);
    if (k == 3 && !ctx.thorough && how) return;
    string note = fmt("main as %d nested %d self %d:", how, nested, self); for (auto& x : v) note += " " + x; if (!ctx.begin(note)) return;
    Tree t(ctx); t.dir("t2/s"); t.link("t2/link.cnd", "a.cnd"); t.link("t2/link2.cnd", "link.cnd"); t.link("t2/ld", "."); t.link("t2/s/up.cnd", "../a.cnd"); t.link("t2/s/back", "..");
    string a = "struct A { uint16 v; }\n", main, inl;
    // an import of the main file by itself, by another spelling
    static const char* M[] = {"main.cnd", "./main.cnd", "s/back/main.cnd"}; string im; for (auto& x : v) im += "@import(\"" + x + "\")\n"; if (self) im += string("@import(\"") + M[k - 1] + "\")\n";
    string rest = "packet P { A x; uint8 y; A z; }\n";
    if (nested == 0) main = im + rest;
    else if (nested == 1) { t.file("t2/mid.cnd", im + "struct N { A q; }\n"); main = "@import(\"mid.cnd\")\n" + im + "struct K { N n; }\n" + rest; }
    else { t.file("t2/mid.cnd", im + "struct N { A q; }\n"); main = im + "@import(\"s/../mid.cnd\")\nstruct K { N n; }\n" + rest; }
    inl = nested ? a + "struct N { A q; }\nstruct K { N n; }\n" + rest : a + rest; t.file("t2/a.cnd", a); t.file("t2/main.cnd", main);
    string path = t.root + "/t2/main.cnd"; char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return; if (how >= 3 && chdir((t.root + "/t2").c_str()) != 0) { ctx.fail("no directory"); return; }
    static const char* H[] = {"", "", "", "main.cnd", "./main.cnd", "s/../main.cnd"}; if (how == 1) path = t.root + "/t2/s/../main.cnd"; else if (how == 2) path = t.root + "/t2/ld/main.cnd"; else if (how >= 3) path = H[how];
    bool ok = same(ctx, path, inl, 0); if (chdir(cwd)) {} if (ok) ctx.nontrivial();
}
// ---- what may stand around an import, in every order: the text of the file in place of the import
static const vector<string>& main_items() { static const vector<string> v = {"", "@big_endian\n", "@little_endian\n", "@import(\"a.cnd\")\n", "@import(\"b.cnd\")\n", "struct M { A x; uint16 y; }\n", "@version(3)\n", "packet P { uint16 p; A q; }\n", "@unaligned_bytes\n", "/// doc\n// c\n", ";\n", "struct W { uint32 w; B z; }\n"}; return v; }
static const vector<string>& a_items() { static const vector<string> v = {"", "@be\n", "@le\n", "@import(\"b.cnd\")\n", "@import(\"main.cnd\")\n", "struct A { uint16 v; B w; }\n", "struct A { uint32 v; }\n", "@version(4)\n", "packet Q { uint16 v; }\n", "@unaligned_bytes\nstruct A { uint8 v : 3; int8 w : 5; }\n"}; return v; }
static const vector<string>& b_items() { static const vector<string> v = {"", "@big_endian\n", "@little_endian\n", "@import(\"a.cnd\")\n", "struct B { uint16 u; }\n", "enum B : uint16 { K, L = 9 }\n", "struct M { uint8 u; }\n", "} uint8\n"}; return v; }
static string inline_file(int f, const vector<int>* items, vector<char>& taken, const vector<const vector<string>*>& voc) {
    taken[f] = 1; string s;
    for (int i : items[f]) { const string& x = (*voc[f])[i]; if (x.compare(0, 8, "@import(") == 0) { int g = x[9] == 'a' ? 1 : x[9] == 'b' ? 2 : 0; if (!taken[g]) s += inline_file(g, items, taken, voc); } else s += x; }
    return s;
}
static void sequences(Chooser& ch, Ctx& ctx, int nm, int na, int nb, bool packet) {
    vector<int> items[3]; vector<const vector<string>*> voc = {&main_items(), &a_items(), &b_items()};
    for (int i = 0; i < nm; i++) items[0].push_back((int)ch.pick((uint32_t)main_items().size())); 
    for (int i = 0; i < na; i++) items[1].push_back((int)ch.pick((uint32_t)a_items().size()));
    for (int i = 0; i < nb; i++) items[2].push_back((int)ch.pick((uint32_t)b_items().size()));
    // empty items only at the end, and a file that nobody names stays as it is
    for (int f = 0; f < 3; f++) for (size_t i = 0; i + 1 < items[f].size(); i++) if (items[f][i] == 0 && items[f][i + 1] != 0) return;
    for (size_t i = 0; i + 1 < items[0].size(); i++) if (items[0][i] == 8) for (size_t k = i + 1; k < items[0].size() && main_items()[items[0][k]].compare(0, 6, "struct"); k++) if (items[0][k] == 3 || items[0][k] == 4) return; // a decorator applies to a declaration of its own file
    bool ma = false, mb = false, ab = false; for (int i : items[0]) { ma |= i == 3; mb |= i == 4; } if (!ma && !mb) return; for (int i : items[1]) ab |= i == 3; bool ba = false; for (int i : items[2]) ba |= i == 3;
    bool ra = ma || (mb && ba), rb = mb || (ma && ab); if ((!ra && items[1][0]) || (!rb && items[2][0])) return;
    string text[3], tail = packet ? "packet P { uint16 p; uint32 q; }\n" : "packet P { uint16 p; A q; B r; }\n"; for (int f = 0; f < 3; f++) for (int i : items[f]) text[f] += (*voc[f])[i]; text[0] += tail;
    string note = "main.cnd:\n" + text[0] + "a.cnd:\n" + text[1] + "b.cnd:\n" + text[2]; if (!ctx.begin(note)) return;
    vector<char> taken(3, 0); string inl = inline_file(0, items, taken, voc) + tail;
    string d = ctx.scratch + "/q"; mkdir(d.c_str(), 0777); static const char* N[] = {"/main.cnd", "/a.cnd", "/b.cnd"}; for (int f = 0; f < 3; f++) impl::write_file(d + N[f], text[f]);
    if (same(ctx, d + "/main.cnd", inl)) ctx.nontrivial();
}
// ---- faults: at the end of a chain of good files
static void faults(Chooser& ch, Ctx& ctx) {
    int chain = (int)ch.pick(4), kind = (int)ch.pick(19), where = (int)ch.pick(3); bool json = ch.flag(); int second = (int)ch.pick(3), layout = (int)ch.pick(3);
    string note = fmt("chain %d kind %d where %d json %d second %d layout %d", chain, kind, where, json, second, layout); if (!ctx.begin(note)) return;
    Tree t(ctx); string bad = "bad.cnd", bad_dir; t.dir("x"); bool dir_named = false; string bd = place(layout, chain + 1);
    static const char* texts[] = {"struct S { uint8 }\n", "struct S { Unknown u; }\n", "struct S { uint8 a; uint8 a; }\n", "enum E { A, A }\n", "struct S { uint8 a : 9; }\n", "struct S { uint8 a;", "}\n", "packet Z { uint8 a; }\n", "\"open\n", "struct S { @const(300) uint8 a; }\n", "@import(\"gone.cnd\")\n", "struct S { uint8 a; } $\n", "struct S { uint8 a; \x01 }\n"};
    string want = bad;
    if (kind < 13) { t.file(bd + bad, string("struct Ok { uint8 a; }\n") + texts[kind]); if (kind == 10) want = "gone.cnd"; if (kind == 7) want = ""; }
    else if (kind == 13) {} // missing
    else if (kind == 14) { t.dir(bd + bad); }
    else if (kind == 15) t.link(bd + bad, "nowhere.cnd");
    else if (kind == 16) { bad = "missing dir/bad.cnd"; want = "bad.cnd"; }
    else if (kind == 17) { t.link(bd + bad, bad); } // a link to itself
    else if (kind == 18) t.file(bd + bad, string("struct S { uint8 a; }\n\0struct T { uint8 b; }\n", 44));
    (void)bad_dir; (void)dir_named;
    for (int i = chain; i >= 0; i--) {
        string d = place(layout, i), nd = place(layout, i + 1), nx = i == chain ? bad : fmt("g%d.cnd", i + 1), rel = (d == nd ? "" : up(depth_of(d)) + nd) + nx, im = "@import(\"" + rel + "\")\n", ok = fmt("struct G%d { uint16 g; }\n", i), f;
        if (i == 0 && second == 1) { t.file(d + "fine.cnd", "struct Fine { uint8 q; }\n"); f += "@import(\"fine.cnd\")\n"; }
        f += where == 0 ? im + ok : where == 1 ? ok + im : ok + "// c\n@big_endian\n" + im;
        if (i == 0) { if (second == 2) { f = im + f; } f += "packet P { uint8 a; }\n"; if (where == 2) { f = ok + "packet P { uint8 a; }\n" + im; } }
        t.file(d + fmt("g%d.cnd", i), f);
    }
    string il, diag; int r = compile_main(ctx, t.root + "/" + place(layout, 0) + "g0.cnd", il, diag, json); ctx.steps(); ctx.traces();
    if (r == 0) { ctx.fail("a faulty import is accepted"); return; }
    if (il != "before") { ctx.fail("failed compilation changes the output"); return; }
    if (!want.empty() && diag.find(want) == string::npos) { ctx.fail("the diagnostic does not name the file", diag); return; }
    if (json) { size_t i = 0; while (i < diag.size()) { size_t e = diag.find('\n', i); if (e == string::npos) e = diag.size(); string l = diag.substr(i, e - i); i = e + 1; if (l.empty()) continue; cJSON* j = cJSON_ParseWithOpts(l.c_str(), nullptr, 1); if (!j) { ctx.fail("diagnostics are not valid JSON", diag); return; } cJSON_Delete(j); } }
    ctx.outcome("faulty import reported"); ctx.nontrivial();
}
// ---- long chains and many imports
static void sizes(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(5); static const vector<int> N = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 254, 255, 256, 257, 300, 600}; int n = ch.of(N); if (!ctx.begin(fmt("kind %d of %d files", kind, n))) return;
    Tree t(ctx); string inl; auto st = [](int i) { return fmt("struct T%d { uint8 a; uint%d b; }\n", i, 8 << (i % 4)); }; string main;
    if (kind == 0 || kind == 4) { // chain; 4: the last imports the first again
        for (int i = 1; i <= n; i++) t.file(fmt("f%d.cnd", i), (i < n ? fmt("@import(\"f%d.cnd\")\n", i + 1) : kind == 4 ? string("@import(\"main.cnd\")\n@import(\"f1.cnd\")\n") : string()) + st(i)); main = "@import(\"f1.cnd\")\n"; for (int i = n; i >= 1; i--) inl += st(i);
    } else if (kind == 1) { for (int i = 1; i <= n; i++) { t.file(fmt("f%d.cnd", i), st(i)); main += fmt("@import(\"f%d.cnd\")\n", i); inl += st(i); } } // star
    else if (kind == 2) { for (int i = 1; i <= n; i++) main += i % 2 ? "@import(\"f1.cnd\")\n" : "@import(\"./f1.cnd\")\n"; t.file("f1.cnd", st(1)); inl = st(1); } // the same again and again
    else { int m = n < 33 ? n : 33; for (int i = 1; i <= m; i++) { string f; for (int j = 1; j <= m; j++) f += fmt("@import(\"f%d.cnd\")\n", j); t.file(fmt("f%d.cnd", i), f + st(i)); } main = "@import(\"f1.cnd\")\n"; for (int i = m; i >= 1; i--) inl += st(i); } // everyone imports everyone
    string p = "packet P {"; int used = kind == 2 ? 1 : kind == 3 ? (n < 33 ? n : 33) : n; for (int i = 1; i <= used; i += used > 40 ? 7 : 1) p += fmt(" T%d v%d;", i, i); p += " }\n"; main += p; inl += p; t.file("main.cnd", main);
    if ((kind == 0 || kind == 4) && n >= 256) { string il, diag; int r = compile_main(ctx, t.root + "/main.cnd", il, diag); ctx.steps(); if (r != 0) { ctx.outcome("too deep: reported"); if (diag.find(".cnd") == string::npos) ctx.fail("too deep without a file", diag); if (il != "before") ctx.fail("failed compilation changes the output"); return; } }
    if (same(ctx, t.root + "/main.cnd", inl, 0)) ctx.nontrivial();
}
// ---- many files, the first, a middle or the last of them imported again; and long spellings
static void many_again(Chooser& ch, Ctx& ctx) {
    static const vector<int> N = {1, 2, 8, 16, 17, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1023, 1024, 1025}; int n = ch.of(N), who = (int)ch.pick(4), kind = (int)ch.pick(3);
    if (!ctx.begin(fmt("%d files, again %d, kind %d", n, who, kind))) return; Tree t(ctx); string main, inl; auto st = [](int i) { return fmt("struct T%d { uint%d b; }\n", i, 8 << (i % 4)); };
    vector<int> again; if (who == 0) again = {1}; else if (who == 1) again = {n}; else if (who == 2) again = {n / 2 ? n / 2 : 1}; else for (int i = 1; i <= n; i++) again.push_back(i);
    string ag; for (int i : again) ag += (kind == 1 ? "@import(\"d/../" : "@import(\"") + fmt("f%d.cnd\")\n", i); t.dir("d");
    for (int i = 1; i <= n; i++) { t.file(fmt("f%d.cnd", i), st(i)); main += fmt("@import(\"f%d.cnd\")\n", i); inl += st(i); }
    if (kind == 2) { t.file("last.cnd", ag + "struct L { uint8 l; }\n"); main += "@import(\"last.cnd\")\n"; inl += "struct L { uint8 l; }\n"; } else main += ag;
    string p = fmt("packet P { T1 a; T%d b; T%d c; }\n", n, n / 2 ? n / 2 : 1); t.file("main.cnd", main + p); if (same(ctx, t.root + "/main.cnd", inl + p, 0)) ctx.nontrivial();
}
static void long_spelling(Chooser& ch, Ctx& ctx) {
    static const vector<int> N = {1, 30, 31, 63, 64, 65, 120, 126, 127, 128, 129, 130, 140, 250, 255, 256, 260, 500, 511, 512, 513, 900, 1000, 1020, 1023, 1024, 1025, 1500, 1900}; int n = ch.of(N), kind = (int)ch.pick(5), two = (int)ch.pick(3), total = n * 2;
    if (!ctx.begin(fmt("%d pairs, kind %d, two %d", n, kind, two))) return; Tree t(ctx); string sp, dirs; 
    if (kind == 0) { for (int i = 0; i < n; i++) sp += "./"; sp += "a.cnd"; }
    else if (kind == 1) { sp = "d" + string(total, '/') + "../a.cnd"; t.dir("d"); }
    else if (kind == 2) { t.dir("d"); for (int i = 0; i * 5 < total; i++) sp += "d/../"; sp += "a.cnd"; }
    else if (kind == 3) { while ((int)dirs.size() < total) dirs += string(std::min(200, total - (int)dirs.size()), (char)('a' + dirs.size() % 23)) + "/"; sp = dirs + "a.cnd"; } // deep directories with long names
    else { if (total > 240) { ctx.outcome("no such name"); return; } sp = string(total, 'n') + ".cnd"; }
    string f = kind == 3 ? dirs + "a.cnd" : kind == 4 ? sp : "a.cnd"; t.file(f, "struct A { uint16 v; }\n"); string main = "@import(\"" + sp + "\")\n", inl = "struct A { uint16 v; }\n";
    if (two == 1) main += "@import(\"" + f + "\")\n";
    if (two == 2) { // another whose spelling differs in the last characters only
        string g = f; g.insert(g.size() - 4, "2"), sp.insert(sp.size() - 4, "2"); t.file(g, "struct B { uint32 v; }\n"); main += "@import(\"" + sp + "\")\n"; inl += "struct B { uint32 v; }\n"; }
    string p = string("packet P { A a; ") + (two == 2 ? "B b; " : "") + "}\n"; t.file("main.cnd", main + p); if (same(ctx, t.root + "/main.cnd", inl + p, (int)(t.root.size() + sp.size()) < 4000 ? 0 : -1)) ctx.nontrivial();
}
int main(int argc, char** argv) {
    mc::Options o; o.property = "C17"; bool th = is_thorough(argc, argv); o.case_cpu_s = 20;
    o.rule = "All import graphs of 1-3 files including self-imports and cycles (thorough: all of 4 files with every layout and spelling rotation, quick: all of 4 files without self-imports, fewer spellings), in four directory layouts and four ways of naming the files (distinct, prefixes of each other, odd characters, the same in every directory), with imports in both orders and before or between the declarations, every edge spelled in one of six ways (plain, ./, detour, doubled separators, link to file, link to directory); all tuples of up to 3 of 14 spellings of one file by the main file or by a file between, with 6 spellings of the main file; all sequences of 3 items of main file and 1-2 items of two more files (endianness, version, imports, definitions, pending decorators); 19 kinds of faulty imports at the end of chains of 0-3 good files; chains, stars, repeats and cliques up to 600 files; up to 1025 files of which the first, a middle, the last or all are imported again; spellings of up to 3800 characters in five ways, alone, with a short one, or with another that differs in the last characters. Each is compared with the single file in which every import is replaced by the file's text at its first occurrence: same program, or both rejected";
    o.assumptions = {"import paths are relative (absolute paths are not part of the language)", "two hard links are two files", "a decorator before an import does not wait for a declaration of the imported file"};
    vector<mc::Family> f = { {"graphs1", [](Chooser& c, Ctx& x) { graphs(c, x, 1, 4, true, 7); }}, {"graphs2", [](Chooser& c, Ctx& x) { graphs(c, x, 2, 4, true, 7); }}, {"graphs3", [](Chooser& c, Ctx& x) { graphs(c, x, 3, 4, true, 0); }},
        {"graphs4", [th](Chooser& c, Ctx& x) { graphs(c, x, 4, th ? 4 : 1, th, 0); }}, {"spellings", spellings}, {"sequences", [th](Chooser& c, Ctx& x) { sequences(c, x, 3, th ? 2 : 1, th ? 2 : 1, false); }}, {"sequences2", [](Chooser& c, Ctx& x) { sequences(c, x, 2, 2, 2, true); }}, {"faults", faults}, {"sizes", sizes}, {"many again", many_again}, {"long spelling", long_spelling} };
    if (th) f.push_back({"sequences4", [](Chooser& c, Ctx& x) { sequences(c, x, 4, 1, 1, false); }});
    if (th) f.push_back({"graphs3 each spelling", [](Chooser& c, Ctx& x) { graphs(c, x, 3, 1, false, 7); }});
    return mc::main_driver(argc, argv, o, f);
}
