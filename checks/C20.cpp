// Sessions of the language server against a model of the protocol and of the documents
#include "cli.hpp"
#include "json.hpp"
#include "compiler.h"
#include <map>
#include <set>
using js::P;
// ---------------------------------------------------------------- reading schemas
struct Tk { char k; string s; size_t off; int line, col; }; // i dentifier, n umber, s tring, d oc comment, else itself
static vector<Tk> tokens(const string& t) {
    vector<Tk> r; size_t i = 0, bol = 0; int line = 0;
    auto nl = [&](size_t a, size_t b) { for (; a < b; a++) if (t[a] == '\n') { line++; bol = a + 1; } };
    while (i < t.size()) {
        unsigned char c = (unsigned char)t[i]; size_t a = i; int l = line, col = (int)(i - bol);
        if (isspace(c)) { i++; nl(a, i); continue; }
        if (t.compare(i, 3, "///") == 0) { size_t e = t.find_first_of("\r\n", i); if (e == string::npos) e = t.size(); r.push_back({'d', t.substr(i + 3, e - i - 3), a, l, col}); i = e; continue; }
        if (t.compare(i, 2, "//") == 0) { i = t.find('\n', i); if (i == string::npos) i = t.size(); continue; }
        if (t.compare(i, 2, "/*") == 0) { size_t e = t.find("*/", i + 2); i = e == string::npos ? t.size() : e + 2; nl(a, i); continue; }
        if (c == '"') { size_t e = t.find('"', i + 1); if (e == string::npos) e = t.size(); r.push_back({'s', t.substr(i + 1, e - i - 1), a, l, col}); i = std::min(t.size(), e + 1); nl(a, i); continue; }
        if (isalpha(c) || c == '_') { while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) i++; r.push_back({'i', t.substr(a, i - a), a, l, col}); continue; }
        if (isdigit(c) || (c == '-' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]))) {
            i++; if (c == '0' && i < t.size() && (t[i] | 32) == 'x') { i++; while (i < t.size() && isxdigit((unsigned char)t[i])) i++; }
            else while (i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '.')) i++;
            r.push_back({'n', t.substr(a, i - a), a, l, col}); continue;
        }
        r.push_back({(char)c, string(1, (char)c), a, l, col}); i++;
    }
    return r;
}
struct Sym { string name; bool en; int line; string file; vector<string> doc, members; size_t end; bool own; };
static string dirname_of(const string& p) { return p.substr(0, p.rfind('/') + 1); }
static string canon(const string& p) { char* r = realpath(p.c_str(), nullptr); string s = r ? r : p; free(r); return s; }
// Structs and enums of a text, those of imported files included
static void symbols_of(const string& text, const string& path, std::set<string>& seen, vector<Sym>& out, bool own, size_t upto) {
    auto T = tokens(text); vector<string> doc; int depth = 0;
    for (size_t i = 0; i < T.size(); i++) {
        auto& t = T[i];
        if (t.k == '{') depth++;
        if (t.k == '}') depth--;
        if (depth > 0) continue;
        if (t.k == 'd') { doc.push_back(t.s); continue; }
        if (t.k == ';') doc.clear();
        if (t.k == '@' && i + 4 < T.size() && T[i + 1].s == "import" && T[i + 2].k == '(' && T[i + 3].k == 's') {
            string f = canon(dirname_of(path) + T[i + 3].s), src;
            if (seen.insert(f).second && impl::read_file(f, src)) symbols_of(src, f, seen, out, false, !own ? upto : T[i + 4].k == ')' ? T[i + 4].off + 1 : text.size() + 1);
        }
        if (t.k == 'i' && (t.s == "struct" || t.s == "enum" || t.s == "packet") && i + 1 < T.size() && T[i + 1].k == 'i' && !(i && T[i - 1].k == '@')) {
            Sym s; s.name = T[i + 1].s; s.en = t.s == "enum"; s.line = T[i + 1].line; s.file = path; s.doc = doc; s.own = own; doc.clear();
            size_t j = i + 2; int d = 0; bool body = false; uint64_t next = 0; bool sgn = true;
            for (; j < T.size(); j++) {
                if (T[j].k == 'i' && d == 0 && (T[j].s == "uint64" || T[j].s == "u64")) sgn = false;
                if (T[j].k == ';' && !body) break;
                if (T[j].k == '{') { d++; body = true; continue; }
                if (T[j].k == '}') { if (--d == 0) break; }
                if (s.en && d == 1 && T[j].k == 'i') {
                    if (j + 2 < T.size() && T[j + 1].k == '=' && T[j + 2].k == 'n') { const string& v = T[j + 2].s; next = v[0] == '-' ? 0 - strtoull(v.c_str() + 1, nullptr, 0) : strtoull(v.c_str(), nullptr, 0); }
                    s.members.push_back(T[j].s + "|" + (sgn ? fmt("%lld", (long long)next) : fmt("%llu", (unsigned long long)next))); next++;
                }
            }
            s.end = own ? (j < T.size() ? T[j].off + 1 : text.size() + 1) : upto;
            if (t.s != "packet") out.push_back(s);
            i++;
        }
    }
}
// ---------------------------------------------------------------- what the compiler says
struct Verdict { bool ok = false; vector<string> at; bool elsewhere = false; size_t err = 0; string msg; }; // at: "line:col message", both from 0
static Verdict verdict(Ctx& ctx, const string& path, const string& text) {
    static std::map<string, Verdict> memo; if (memo.size() > 20000) memo.clear();
    auto it = memo.find(path + "\n" + text); if (it != memo.end()) return it->second;
    string before; bool there = impl::read_file(path, before);
    impl::write_file(path, text);
    string out = ctx.scratch + "/v.il", diag; Verdict v;
    string cp = canon(path);
    v.ok = impl::compile_file(path, out, &diag, false) == 0; unlink(out.c_str());
    if (there) impl::write_file(path, before); else unlink(path.c_str());
    v.err = v.ok ? text.size() + 1 : 0;
    string d; for (size_t i = 0; i < diag.size(); i++) if (diag[i] == '\033') { while (i < diag.size() && diag[i] != 'm') i++; } else d += diag[i];
    size_t i = 0;
    while (i < d.size()) {
        size_t e = d.find('\n', i); if (e == string::npos) e = d.size(); string l = d.substr(i, e - i); i = e + 1;
        size_t m = l.find(": error: "); if (m == string::npos) continue;
        if (l.compare(0, cp.size() + 1, cp + ":")) { v.elsewhere = true; v.msg = l.substr(m + 9); continue; }
        int line = 0, col = 0; sscanf(l.c_str() + cp.size() + 1, "%d:%d", &line, &col);
        if (v.at.empty()) { size_t o = 0; for (int k = 1; k < line && o != string::npos; k++) { o = text.find('\n', o); if (o != string::npos) o++; } v.err = o == string::npos ? text.size() : o + (size_t)col - 1; }
        v.at.push_back(fmt("%d:%d %s", line - 1, col - 1, l.substr(m + 9).c_str()));
    }
    if (v.elsewhere) v.err = 0;
    return memo[path + "\n" + text] = v;
}
struct Model { string text, path; vector<Tk> tk; vector<Sym> sym; Verdict v; };
static const Model& model(Ctx& ctx, const string& path, const string& text) {
    static std::map<string, Model> memo; if (memo.size() > 3000) memo.clear();
    auto& m = memo[path + "\n" + text]; if (!m.path.empty()) return m;
    m.text = text; m.path = path; m.tk = tokens(text); m.v = verdict(ctx, path, text);
    std::set<string> seen = {canon(path)}; symbols_of(text, canon(path), seen, m.sym, true, 0);
    return m;
}
static bool sure(const Model& m, const Sym& s) { return m.v.ok || (!m.v.elsewhere && s.end <= m.v.err); }
// ---------------------------------------------------------------- messages
static string frame(const string& body) { return fmt("Content-Length: %zu\r\n\r\n", body.size()) + body; }
static int URI_STYLE = 0; // 0 escapes in capitals, 1 in small letters, 2 everything escaped, 3 mixed, 4 everything escaped, mixed
static string uri_of(const string& path) {
    string r = "file://";
    for (unsigned char c : path) {
        if (c == '/' || (URI_STYLE != 2 && URI_STYLE != 4 && (isalnum(c) || strchr("-._~", c)))) { r += (char)c; continue; }
        string e = fmt("%02X", c); bool lo0 = URI_STYLE == 1 || URI_STYLE == 3, lo1 = URI_STYLE == 1 || URI_STYLE == 4;
        r += '%'; r += lo0 ? (char)tolower(e[0]) : e[0]; r += lo1 ? (char)tolower(e[1]) : e[1];
    }
    return r;
}
static string path_of(const string& uri) {
    string r; for (size_t i = uri.compare(0, 7, "file://") ? 0 : 7; i < uri.size(); i++) if (uri[i] == '%' && i + 2 < uri.size()) { r += (char)strtol(uri.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += uri[i];
    return r;
}
static const P* get(const P* p, const char* k) { if (p && p->k == 'o') for (auto& e : p->m) if (e.first == k) return &e.second; return nullptr; }
static bool is_str(const P* p) { return p && p->k == 's'; }
static long num(const P* p) { return p && p->k == 'n' && p->s.find_first_not_of("0123456789-") == string::npos ? atol(p->s.c_str()) : -99; }
static string show(const P* p, int depth = 0) {
    if (!p) return "nothing"; if (depth > 12) return "..."; string r;
    switch (p->k) { case 'o': for (auto& e : p->m) r += (r.empty() ? "" : ",") + js::quote(e.first) + ":" + show(&e.second, depth + 1); return "{" + r + "}";
        case 'a': for (auto& e : p->m) r += (r.empty() ? "" : ",") + show(&e.second, depth + 1); return "[" + r + "]";
        case 's': return js::quote(p->s); case 'n': return p->s; case 't': return "true"; case 'f': return "false"; case 'z': return "null"; default: return "?"; }
}
// ---------------------------------------------------------------- a session
enum Kind { NOTE, ASK, ASK_ANY, ASK_UNKNOWN, BAD, BAD_ID, EXIT, RAW_END };
enum Query { NONE, SYMBOLS, FORMAT, HOVER, DEFINE, COMPLETE };
struct Msg { string bytes, show; Kind kind; string id; Query q = NONE; string path; int line = 0, ch = 0; int doc_op = 0; string text; }; // doc_op 1 text, 2 close, 3 save
struct Session {
    Ctx& ctx; vector<Msg> m; int next = 1; 
    explicit Session(Ctx& c) : ctx(c) {}
    string id() { return fmt("%d", next++); }
    void raw(const string& body, Kind k, const string& i = "") { m.push_back({frame(body), body, k, i}); }
    void mark() { string i = id(); raw("{\"jsonrpc\":\"2.0\",\"id\":" + i + ",\"method\":\"check/mark\"}", ASK_UNKNOWN, i); }
    void note(const string& method, const string& params) { raw("{\"jsonrpc\":\"2.0\",\"method\":\"" + method + "\",\"params\":" + params + "}", NOTE); }
    void doc(int op, const string& path, const string& text) { m.back().doc_op = op; m.back().path = path; m.back().text = text; mark(); }
    void open(const string& path, const string& text) { note("textDocument/didOpen", "{\"textDocument\":{\"uri\":" + js::quote(uri_of(path)) + ",\"languageId\":\"concordia\",\"version\":1,\"text\":" + js::quote(text) + "}}"); doc(1, path, text); }
    void change(const string& path, const string& text, bool two = false) { note("textDocument/didChange", "{\"textDocument\":{\"uri\":" + js::quote(uri_of(path)) + ",\"version\":2},\"contentChanges\":[" + (two ? "{\"text\":\"struct Wrong { uint8 x; } packet Q { Wrong w; } oops\"}," : "") + "{\"text\":" + js::quote(text) + "}]}"); doc(1, path, text); }
    void close(const string& path) { note("textDocument/didClose", "{\"textDocument\":{\"uri\":" + js::quote(uri_of(path)) + "}}"); doc(2, path, ""); }
    void save(const string& path) { note("textDocument/didSave", "{\"textDocument\":{\"uri\":" + js::quote(uri_of(path)) + "}}"); doc(3, path, ""); }
    void ask(Query q, const string& path, int line = 0, int ch = 0) {
        static const char* M[] = {"", "documentSymbol", "formatting", "hover", "definition", "completion"};
        string i = id(), p = "{\"textDocument\":{\"uri\":" + js::quote(uri_of(path)) + "}";
        if (q >= HOVER) p += fmt(",\"position\":{\"line\":%d,\"character\":%d}", line, ch);
        if (q == FORMAT) p += ",\"options\":{\"tabSize\":4,\"insertSpaces\":true}";
        raw("{\"jsonrpc\":\"2.0\",\"id\":" + i + ",\"method\":\"textDocument/" + M[q] + "\",\"params\":" + p + "}}", ASK, i);
        m.back().q = q; m.back().path = path; m.back().line = line; m.back().ch = ch;
    }
};
static string words(const string& s) { string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
static bool has_word(const string& hay, const string& w) { for (size_t i = hay.find(w); i != string::npos; i = hay.find(w, i + 1)) { auto id = [&](size_t k) { return k < hay.size() && (isalnum((unsigned char)hay[k]) || hay[k] == '_'); }; if (!(i && id(i - 1)) && !id(i + w.size())) return true; } return false; }
static const char* BUILTIN[] = {"version", "import", "big_endian", "be", "little_endian", "le", "unaligned_bytes", "fill", "crc_refin", "crc_refout", "optional", "count", "len", "const", "match", "pad", "range", "crc", "crc_poly", "crc_init", "crc_xor", "scale", "offset", "mul", "div", "add", "sub", "poly", "spline", "expr", "eof"};
static string find_at(const Model& m, int line, int ch, const Tk*& t, bool& deco) {
    t = nullptr; deco = false;
    for (size_t i = 0; i < m.tk.size(); i++) if (m.tk[i].k == 'i' && m.tk[i].line == line && ch >= m.tk[i].col && ch <= m.tk[i].col + (int)m.tk[i].s.size()) { t = &m.tk[i]; deco = i && m.tk[i - 1].k == '@'; return t->s; }
    return "";
}
// Hover and definition. Empty: right
static string judge_place(const Model& m, const Msg& q, const P* r) {
    const Tk* t; bool deco; string name = find_at(m, q.line, q.ch, t, deco);
    bool null = r->k == 'z';
    if (name.empty()) return null ? "" : "an answer where there is no name";
    if (deco) for (auto b : BUILTIN) if (name == b) {
        if (q.q == DEFINE) return null || (r->k == 'a' && r->m.empty()) ? "" : "a location for something built in";
        const P* v = get(get(r, "contents"), "value"); return is_str(v) && has_word(v->s, name) ? "" : "nothing about a built-in decorator";
    }
    vector<const Sym*> c; bool must = false; for (auto& s : m.sym) if (s.name == name) { c.push_back(&s); if (sure(m, s)) must = true; }
    if (null) return must ? "no answer for a defined name" : "";
    if (c.empty()) return "an answer for a name that is not defined";
    string why;
    for (auto s : c) {
        if (q.q == DEFINE) {
            const P* loc = r->k == 'a' && r->m.size() == 1 ? &r->m[0].second : r; const P* u = get(loc, "uri");
            if (!is_str(u)) return "no uri in the location";
            if (canon(path_of(u->s)) != s->file) { why = "definition in the wrong file: " + u->s; continue; }
            if (s->own && u->s != uri_of(q.path)) { why = "the document has another uri: " + u->s; continue; }
            const P* rg = get(loc, "range");
            if (num(get(get(rg, "start"), "line")) != s->line) { why = "definition on the wrong line"; continue; }
            if (num(get(get(rg, "start"), "character")) < 0 || num(get(get(rg, "end"), "line")) < s->line) { why = "no range"; continue; }
            return "";
        }
        const P* v = get(get(r, "contents"), "value"); if (!is_str(v)) return "no text in the hover";
        if (!has_word(v->s, name)) { why = "hover without the name"; continue; }
        string w = words(v->s); bool ok = true;
        for (auto& d : s->doc) if (w.find(words(d)) == string::npos) { why = "hover without the comment: " + d.substr(0, 100); ok = false; }
        if (!has_word(v->s, fmt("%d", s->line + 1))) { why = "hover without the line"; ok = false; }
        if (s->en && sure(m, *s)) for (auto& e : s->members) { size_t b = e.find('|'); size_t a = v->s.find("`" + e.substr(0, b) + "`"); if (a == string::npos || v->s.compare(a + b + 2, 5 + e.size() - b - 1, " = `" + e.substr(b + 1) + "`")) { why = "hover without the member " + e; ok = false; break; } }
        for (auto& o : m.sym) if (ok && o.name != name) for (auto& d : o.doc) { string x = words(d); bool mine = false; for (auto& k : c) for (auto& e : k->doc) if (words(e).find(x) != string::npos) mine = true; if (x.size() >= 6 && !mine && w.find(x) != string::npos) { why = "hover with the comment of another: " + d.substr(0, 100); ok = false; break; } }
        if (ok) return "";
    }
    return why;
}
static string judge_symbols(const Model& m, const string& path, const P* r) {
    if (r->k != 'a') return "no list of symbols";
    vector<string> got; std::set<string> may;
    for (auto& e : r->m) {
        const P* s = &e.second; const P* n = get(s, "name"); if (!is_str(n)) return "a symbol without a name";
        const P* loc = get(s, "location"); const P* rg = loc ? get(loc, "range") : get(s, "selectionRange");
        if (loc && (!is_str(get(loc, "uri")) || get(loc, "uri")->s != uri_of(path))) return "a symbol of another document";
        got.push_back(fmt("%s %s %ld", num(get(s, "kind")) == 10 ? "enum" : num(get(s, "kind")) == 23 ? "struct" : "?", n->s.c_str(), num(get(get(rg, "start"), "line"))));
    }
    vector<string> must;
    for (auto& s : m.sym) if (s.own) { string w = fmt("%s %s %d", s.en ? "enum" : "struct", s.name.c_str(), s.line); may.insert(w); if (sure(m, s)) must.push_back(w); }
    std::sort(got.begin(), got.end()); std::sort(must.begin(), must.end());
    for (size_t i = 0; i + 1 < got.size(); i++) if (got[i] == got[i + 1]) return "symbol listed twice: " + got[i];
    for (auto& g : got) if (!may.count(g)) return "symbol that is not there: " + g;
    for (auto& w : must) if (!std::binary_search(got.begin(), got.end(), w)) return "symbol missing: " + w;
    return "";
}
static size_t offset(const string& t, long line, long ch) {
    size_t o = 0; for (long i = 0; i < line; i++) { o = t.find('\n', o); if (o == string::npos) return t.size(); o++; }
    size_t e = t.find('\n', o); if (e == string::npos) e = t.size();
    return std::min(e, o + (size_t)ch);
}
static string judge_format(const string& text, const P* r) {
    char* f = cnd_format_source(text.c_str()); string want = f ? f : text; free(f);
    if (r->k != 'a') return "no list of edits";
    string now = text; vector<std::pair<std::pair<size_t, size_t>, string>> ed;
    for (auto& e : r->m) {
        const P* rg = get(&e.second, "range"); const P* n = get(&e.second, "newText");
        long a = num(get(get(rg, "start"), "line")), b = num(get(get(rg, "start"), "character")), c = num(get(get(rg, "end"), "line")), d = num(get(get(rg, "end"), "character"));
        if (!is_str(n) || a < 0 || b < 0 || c < 0 || d < 0) return "not an edit";
        ed.push_back({{offset(text, a, b), offset(text, c, d)}, n->s});
    }
    std::sort(ed.begin(), ed.end());
    for (size_t i = ed.size(); i-- > 0;) now.replace(ed[i].first.first, ed[i].first.second - ed[i].first.first, ed[i].second);
    return now == want ? "" : "the edited text is not the formatted text:\n" + now;
}
static string judge_diagnostics(const Verdict& v, const P* params) {
    const P* d = get(params, "diagnostics"); if (!d || d->k != 'a') return "no list of diagnostics";
    vector<string> got; string all;
    for (auto& e : d->m) { const P* st = get(get(&e.second, "range"), "start"); const P* msg = get(&e.second, "message"); const P* en = get(get(&e.second, "range"), "end");
        if (!is_str(msg)) return "a diagnostic without a message";
        if (num(get(en, "line")) < num(get(st, "line"))) return "a diagnostic that ends before it starts";
        got.push_back(fmt("%ld:%ld %s", num(get(st, "line")), num(get(st, "character")), msg->s.c_str())); all += msg->s + "\n"; if (num(get(st, "line")) < 0 || num(get(st, "character")) < 0) return "a diagnostic without a position"; }
    if (v.ok) return got.empty() ? "" : "diagnostics for a valid text: " + got[0];
    if (got.empty()) return "no diagnostics for an invalid text";
    if (v.elsewhere) return all.find(v.msg) == string::npos ? "diagnostics without the error of the imported file: " + v.msg : "";
    for (auto& w : v.at) { bool f = false; for (auto& g : got) if (g == w) f = true; if (!f) return "the compiler says " + w + ", the server " + got[0]; }
    if (got.size() != v.at.size()) return "other diagnostics than those of the compiler";
    return "";
}
// What must be offered at a place, and that nothing is offered that the text does not have
static string judge_completion(const Model& m, const Msg& q, const P* r) {
    const P* items = r->k == 'o' ? get(r, "items") : r;
    if (!items || items->k != 'a') return "no list of completions";
    std::set<string> have; 
    for (auto& e : items->m) {
        const P* l = get(&e.second, "label"); if (!is_str(l)) return "completion without a label"; have.insert(l->s);
        long kind = num(get(&e.second, "kind")); bool ok = true;
        if (kind == 7 || kind == 13) { ok = false; for (auto& s : m.sym) if (s.name == l->s && s.en == (kind == 13)) ok = true; }
        if (kind == 20) { ok = false; for (auto& s : m.sym) if (s.en) for (auto& x : s.members) if (x.substr(0, x.find('|')) == l->s) ok = true; }
        if (!ok) return "completion of something the text does not have: " + l->s;
        if (kind == 7 || kind == 13) { // and with the comment of the definition
            const P* d = get(&e.second, "detail"); string got = is_str(d) ? words(d->s) : "", why; bool good = false;
            for (auto& s : m.sym) if (s.name == l->s && s.en == (kind == 13)) { bool all = true; size_t n = 0; for (auto& x : s.doc) { n += words(x).size(); if (got.find(words(x)) == string::npos) all = false; } if (s.doc.empty() ? true : all) good = true; (void)n; }
            // nor with that of another
            for (auto& o : m.sym) for (auto& x : o.doc) if (words(x).size() > 3 && got.find(words(x)) != string::npos) { bool mine = false; for (auto& s : m.sym) if (s.name == l->s && s.en == (kind == 13)) for (auto& y : s.doc) if (words(y).find(words(x)) != string::npos) mine = true; if (!mine) return "completion of " + l->s.substr(0, 100) + " with the comment of " + o.name.substr(0, 100); }
            if (!good) return "completion without the comment of " + l->s.substr(0, 100);
        }
    }
    size_t at = 0; for (int i = 0; i < q.line && at < m.text.size(); i++) { at = m.text.find('\n', at); at = at == string::npos ? m.text.size() : at + 1; }
    for (int i = 0; i < q.ch && at < m.text.size() && m.text[at] != '\n'; i++) at++;
    // where are we?
    vector<string> calls; const Tk *p1 = nullptr, *p2 = nullptr; int depth = 0; string in; vector<string> fields; bool in_packet = false, strange = false;
    for (auto& t : m.tk) {
        if (t.off >= at) break;
        if (t.off + t.s.size() > at) strange = true; // inside of a word
        if (t.k == 'd') { if (t.off + 3 + t.s.size() >= at) return ""; continue; }
        if (t.k == 's' && t.off + 2 + t.s.size() > at) return ""; 
        if (t.k == '(') calls.push_back(p1 && p2 && p1->k == 'i' && p2->k == '@' ? p1->s : "");
        if (t.k == ')' && !calls.empty()) calls.pop_back();
        if (t.k == '{' && depth++ == 0) { in = p1 && p2 && p1->k == 'i' && (p2->s == "struct" || p2->s == "packet") ? p1->s : ""; in_packet = p2 && p2->s == "packet"; fields.clear(); }
        if (t.k == '}' && --depth == 0) in.clear();
        static const std::set<string> TY = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float", "double", "bool"};
        if (depth >= 1 && p1 && p2 && (t.k == ';' || t.k == ':') && p1->k == 'i' && TY.count(p2->s)) fields.push_back(p1->s);
        p2 = p1; p1 = &t;
    }
    // comments in front of the place are not our business
    { size_t b = m.text.rfind('\n', at ? at - 1 : 0); b = b == string::npos ? 0 : b; if (m.text.substr(b, at - b).find("//") != string::npos) return ""; size_t o = m.text.rfind("/*", at); if (o != string::npos && m.text.find("*/", o) + 2 > at) return ""; }
    if (p1 && p1->k == '.' && p2 && p2->k == 'i') { for (auto& s : m.sym) if (s.en && s.name == p2->s && sure(m, s)) for (auto& x : s.members) if (!have.count(x.substr(0, x.find('|')))) return "no completion of a member: " + x; return ""; }
    string call; for (auto& c : calls) if (!c.empty()) call = c;
    if (call == "expr" || call == "count" || call == "len") {
        if (call == "expr" && !strange) for (auto f : {"sin", "cos", "tan", "sqrt", "log", "abs", "pow", "int", "float"}) if (!have.count(f)) return string("no completion of the function ") + f;
        if (in_packet || strange || in.empty()) return "";
        const Sym* me = nullptr; for (auto& s : m.sym) if (s.own && !s.en && s.name == in) { if (me) return ""; me = &s; }
        if (!me || !sure(m, *me)) return "";
        for (auto& f : fields) if (!have.count(f)) return "no completion of the field " + f;
        return "";
    }
    if (!calls.empty()) return "";
    if (!strange) for (auto b : BUILTIN) if (!have.count(b) && !have.count(string("@") + b)) return string("no completion of the decorator ") + b;
    for (auto& s : m.sym) if (sure(m, s) && !have.count(s.name)) return "no completion of " + s.name.substr(0, 100);
    return "";
}
static bool run(Session& S, bool at_exit = true) {
    Ctx& ctx = S.ctx; string in; bool ended = false;
    for (auto& m : S.m) in += m.bytes;
    cli::Res r = cli::run(ctx, {"lsp"}, true, &in);
    auto bad = [&](const string& w, const string& d, const Msg* m = nullptr) { string log; for (auto& x : S.m) if (x.show.find("check/mark") == string::npos && log.size() < 6000) log += x.show + "\n"; ctx.fail(w, (m ? "at " + m->show + "\n" : string()) + d + "\nsession:\n" + log); return false; };
    // the output
    vector<P> out; size_t i = 0;
    while (i < r.out.size()) {
        size_t e = r.out.find("\r\n\r\n", i); if (e == string::npos) return bad("output outside of messages", r.out.substr(i, 200));
        size_t len = string::npos; size_t l = i;
        while (l < e + 2) { size_t n = r.out.find("\r\n", l); string h = r.out.substr(l, n - l); if (strncasecmp(h.c_str(), "content-length:", 15) == 0) len = strtoul(h.c_str() + 15, nullptr, 10); else if (strncasecmp(h.c_str(), "content-type:", 13)) return bad("output outside of messages", h.substr(0, 200)); l = n + 2; }
        if (len == string::npos || e + 4 + len > r.out.size()) return bad("wrong length of a message", r.out.substr(i, 200));
        string body = r.out.substr(e + 4, len); js::Reader rd(body); P p;
        if (!rd.all(p) || p.k != 'o') return bad("output that is not a JSON object", body.substr(0, 300));
        if (!is_str(get(&p, "jsonrpc")) || get(&p, "jsonrpc")->s != "2.0") return bad("message without the version of the protocol", body.substr(0, 300));
        out.push_back(std::move(p)); i = e + 4 + len;
    }
    // message by message
    std::map<string, string> text; size_t o = 0;
    auto latest = [&](const string& path, string& t) { auto it = text.find(path); if (it != text.end()) { t = it->second; return true; } return impl::read_file(path, t); };
    std::map<string, int> published;
    // answers with no id, for what could not be understood
    int loose = 0, pending = 0;
    string pub_path; int pub_op = 0; bool pub_seen = false; string pub_text; bool pub_have = false;
    for (auto& m : S.m) {
        ctx.steps();
        if (ended) continue;
        if (m.kind == RAW_END) { ended = true; continue; }
        if (m.kind == EXIT) { if (!m.id.empty() && o < out.size() && get(&out[o], "id")) o++; ended = true; continue; }
        if (m.doc_op == 1) text[m.path] = m.text;
        if (m.doc_op == 2) text.erase(m.path);
        if (m.doc_op) { pub_path = m.path; pub_op = m.doc_op; pub_seen = false; pub_have = latest(m.path, pub_text); continue; }
        if (m.kind == NOTE) continue;
        if (m.kind == BAD || m.kind == BAD_ID) { pending++; }
        if (m.kind == BAD) { const P* i2 = o < out.size() ? get(&out[o], "id") : nullptr; if (o < out.size() && get(&out[o], "error") && (!i2 || i2->k == 'z')) { o++; pending--; } continue; }
        // what comes before the answer
        for (; o < out.size(); o++) {
            const P* p = &out[o];
            if (get(p, "method")) {
                if (get(p, "id")) return bad("the server sends a request", show(p).substr(0, 500), &m);
                const P* me = get(p, "method"); if (!is_str(me)) return bad("a notification without a method", show(p).substr(0, 300), &m);
                if (me->s != "textDocument/publishDiagnostics") continue;
                const P* pa = get(p, "params"); const P* u = get(pa, "uri"); if (!is_str(u)) return bad("diagnostics of no document", show(p).substr(0, 300), &m);
                string path = path_of(u->s), t; 
                if (!latest(path, t)) { const P* d = get(pa, "diagnostics"); if (d && d->k == 'a' && d->m.empty()) continue; return bad("diagnostics of a document that is not there", show(p).substr(0, 300), &m); }
                if (pub_op == 2 && path == pub_path) { const P* d = get(pa, "diagnostics"); if (d && d->k == 'a' && d->m.empty()) continue; }
                string why = judge_diagnostics(verdict(ctx, path, t), pa); if (!why.empty()) return bad("wrong diagnostics", why + "\ngot " + show(p).substr(0, 500) + "\ntext:\n" + t.substr(0, 2000), &m);
                if (path == pub_path) pub_seen = true;
                ctx.outcome(verdict(ctx, path, t).ok ? "diagnostics of a valid text" : "diagnostics of an invalid text");
                continue;
            }
            const P* i2 = get(p, "id"); string is = i2 ? show(i2) : "none";
            if (!i2 || i2->k == 'z') { if (is == m.id) break; if (!get(p, "error")) return bad("a response to nothing", show(p).substr(0, 300), &m); if (++loose > pending) return bad("a response to nothing", show(p).substr(0, 300), &m); continue; }
            break;
        }
        const P* p = o < out.size() ? &out[o] : nullptr; string is = p && get(p, "id") ? show(get(p, "id")) : "none";
        if (m.kind == BAD_ID) { if (p && is == m.id) o++; continue; }
        if (!p) return bad("a request gets no response (or the server stopped)", fmt("exit status %d", r.code), &m);
        if (is != m.id) return bad("expected the response to another request", show(p).substr(0, 500), &m);
        o++;
        const P *res = get(p, "result"), *err = get(p, "error");
        if (!res == !err) return bad("a response needs a result or an error", show(p).substr(0, 500), &m);
        if (err && (err->k != 'o' || num(get(err, "code")) == -99 || !is_str(get(err, "message")))) return bad("not an error object", show(p).substr(0, 500), &m);
        if (pub_op) { if ((pub_op == 1 || (pub_op == 3 && pub_have)) && !pub_seen) return bad("no diagnostics for the new text", "", &m); pub_op = 0; }
        if (m.kind == ASK_UNKNOWN) { if (!err || num(get(err, "code")) != -32601) return bad("an unknown method is not refused", show(p).substr(0, 500), &m); continue; }
        if (m.kind == ASK_ANY) { ctx.outcome(err ? "malformed request refused" : "malformed request answered"); continue; }
        if (m.q == NONE) { if (!res) return bad("a request is refused", show(p).substr(0, 500), &m); continue; }
        string t; if (!latest(m.path, t)) { if (res && res->k != 'z') return bad("an answer about a document that is not there", show(p).substr(0, 500), &m); ctx.outcome("no such document"); continue; }
        if (!res) return bad("a request is refused", show(p).substr(0, 500), &m);
        const Model& M = model(ctx, m.path, t); string why;
        switch (m.q) {
            case SYMBOLS: why = judge_symbols(M, m.path, res); break;
            case FORMAT: why = judge_format(t, res); break;
            case HOVER: case DEFINE: why = judge_place(M, m, res); if (why.empty()) { ctx.outcome(string(m.q == HOVER ? "hover" : "definition") + (res->k == 'z' ? " of nothing" : "")); } break;
            default: why = judge_completion(M, m, res);
        }
        if (!why.empty()) return bad(why.substr(0, why.find('\n')).substr(0, 200), why + "\ngot " + show(p).substr(0, 1000) + "\nlatest text:\n" + t.substr(0, 3000), &m);
        ctx.traces();
    }
    if (ended && at_exit && o != out.size()) return bad("the server goes on after it was asked to exit", show(&out[o]).substr(0, 300));
    if (!ended && r.code != 0) return bad("the server fails at the end of its input", fmt("exit status %d", r.code));
    for (; o < out.size(); o++) {
        if (get(&out[o], "method")) continue;
        const P* i2 = get(&out[o], "id");
        if ((!i2 || i2->k == 'z') && loose < pending) { loose++; continue; }
        return bad("a response to nothing", show(&out[o]).substr(0, 300));
    }
    ctx.nontrivial();
    return true;
}
// ---------------------------------------------------------------- texts
static string rep(const string& s, int n) { string r; for (int i = 0; i < n; i++) r += s; return r; }
static const vector<string>& texts() {
    static vector<string> T;
    if (!T.empty()) return T;
    T = {
        "/// A point\n/// in space\nstruct Point {\n    uint8 x;\n    uint8 y;\n}\n\n/// Kinds\nenum Kind : uint8 {\n    A = 1,\n    B,\n    C = 0x10\n}\n\npacket P {\n    Point p;\n    @const(1) uint8 one;\n    @count(one) Point ps[];\n    Kind k;\n}\n",
        "\n\nenum Kind { Z }\nstruct Other { Kind a; uint16 Point; }\npacket Q { Other o; @range(1, 5) uint8 r; }\n",
        "struct Point { uint8 x; }\nstruct Broken { uint8 ; }\npacket P { Point p; }\n",
        "@import(\"lib.cnd\")\n\npacket P {\n  Lib l;\n  Color c;\n  Deep d;\n}\n",
        "",
        "packet P { uint8 x; }",
        "struct S { uint8 x; }",
        "struct A { uint8 x; } struct B { A a; } packet P { B b; A a2; }",
        "@big_endian\n@version(3)\nstruct S{uint16 v;}packet P{S s;@optional uint8 o;}",
        "struct A\r\n{\r\n  uint8 x; // c\r\n}\r\n\r\npacket P\r\n{\r\n\tA a;\r\n}\r\n",
        "/* a\n b */ struct A { /* c\n */ uint8 x; } /* d */ packet P { A /* e */ a; } // struct F { }\n",
        "enum E : int8 { LOW = -128, ZERO = 0, HIGH = 127 }\nenum U : uint64 { MAXV = 18446744073709551615, MIN = 0 }\nenum I : int64 { M = -9223372036854775808 }\npacket P { E e; U u; I i; }\n",
        "struct A { uint8 x; }\nstruct A { uint8 y; }\npacket P { A a; }\n",
        "struct A { uint8 x; }\nenum A { X }\npacket P { A a; }\n",
        "packet P { Missing m; }\n",
        "packet P { uint8 x; uint8 x; }\n",
        "packet P { uint8 x; }\npacket Q { uint8 y; }\n",
        "packet P {\n  uint8 x\n  uint8 y;\n}\n",
        "packet P { uint8 $; }\n",
        "packet P { uint8 \"str\n ing\"; }\n",
        "struct A { uint8 x; }\n@import(\"nowhere.cnd\")\nstruct B { A a; }\npacket P { B b; }\n",
        "struct A { uint8 x; }\n@import(\"broken.cnd\")\nstruct B { A a; }\npacket P { B b; }\n",
        "@import(\"a.cnd\")\nstruct A { uint8 x; }\npacket P { A a; }\n",
        "@import(\"./sub/../lib.cnd\")\n@import(\"lib.cnd\")\npacket P { Lib l; }\n",
        "@import(\"sub/s p%41c\xC3\xA9.cnd\")\npacket P { Spaced s; Inner i; }\n",
        "struct A { uint8 n; @count(n) uint8 d[]; switch (n) { case 1: uint8 a; default: uint16 b; } @expr(n + 1) uint8 e; if (n > 2) { uint8 c; } @eof uint8 rest[]; }\npacket P { A a; }\n",
        "@unaligned_bytes struct Bits { uint8 a : 3; uint8 b : 5; }\npacket P { Bits b; @fill(1) @pad(3) uint8 x; @crc(16) uint16 c; }\n",
        "@weird @count /// doc\nstruct A { uint8 x; } packet P { A a; }\n",
        "/// orphan\n;\nstruct A { uint8 x; }\npacket P { A a; }\n",
        "struct count { uint8 x; }\npacket P { count c; uint8 n; @count(n) uint8 d[]; }\n",
        "packet Pk { uint8 x; } struct A { uint8 y; }",
        "/// " + rep("long comment ", 40) + "\nstruct A { uint8 x; }\npacket P { A a; }\n",
        // more than the buffers there could be
        "/// " + rep("very long comment ", 400) + "\nstruct A { uint8 x; }\npacket P { A a; }\n",
        rep("/// line\n", 900) + "struct A { uint8 x; }\npacket P { A a; }\n",
        "struct " + rep("N", 5000) + " { uint8 x; }\npacket P { " + rep("N", 5000) + " a; }\n",
        "enum E { " + rep("M", 300) + " = 1, Q" + rep("m", 250) + ", R" + rep("m", 1030) + " }\npacket P { E e; }\n",
    };
    string big = "enum E : uint16 {\n"; for (int i = 0; i < 400; i++) big += fmt("  MEMBER_NUMBER_%d = %d,\n", i, i * 7); T.push_back(big + "}\npacket P { E e; }\n");
    return T;
}
static void files(Ctx& ctx) {
    static bool done = false; if (done) return; done = true;
    string d = ctx.scratch; mkdir((d + "/sub").c_str(), 0700);
    impl::write_file(d + "/a.cnd", "/// on disk\nstruct Disk { uint8 x; }\n\n\npacket D { Disk d; }\n");
    impl::write_file(d + "/lib.cnd", "\n\n/// Imported\nstruct Lib { uint8 x; }\n@import(\"sub/deep.cnd\")\n/// Colors\nenum Color : uint8 { RED = 5, GREEN }\n");
    impl::write_file(d + "/sub/deep.cnd", "\n@import(\"../lib.cnd\")\nstruct Deep { uint8 z; }\n");
    impl::write_file(d + "/broken.cnd", "struct Ok { uint8 z; }\n\n   struct Bad { uint8 }\n");
    impl::write_file(d + "/sub/s p%41c\xC3\xA9.cnd", "@import(\"#in?.cnd\")\nstruct Spaced { uint8 z; }\n");
    impl::write_file(d + "/sub/#in?.cnd", "struct Inner { uint8 z; }\n");
}
static void ask_all(Session& S, const string& path, const string& text, int limit) {
    S.ask(SYMBOLS, path); S.ask(FORMAT, path);
    int n = 0; for (auto& t : tokens(text)) if (t.k == 'i' && n++ < limit) { S.ask(HOVER, path, t.line, t.col); S.ask(DEFINE, path, t.line, t.col + 1); }
    S.ask(COMPLETE, path, 1, 1);
}
// ---------------------------------------------------------------- families
// Histories of openings, changes, savings and closings of two documents, then everything is asked about both
static void documents(Chooser& ch, Ctx& ctx, int len) {
    files(ctx);
    static const vector<string> OTHER = {"/b.cnd", "/a.cnd.new", "/a.cn", "/A.cnd", "/sub/a.cnd"};
    string doc[2] = {ctx.scratch + "/a.cnd", ctx.scratch + (len == 2 ? ch.of(OTHER) : OTHER[0])};
    Session S(ctx); string what = len == 2 ? " of a.cnd and " + doc[1].substr(ctx.scratch.size()) : ""; bool open[2] = {false, false}; string now[2];
    for (int i = 0; i < len; i++) {
        int d = (int)ch.pick(2), op = (int)ch.pick(11);
        if (op < 4) { S.open(doc[d], texts()[(size_t)op]); open[d] = true; now[d] = texts()[(size_t)op]; }
        else if (op < 9) { bool two = op == 8; const string& t = texts()[two ? 1 : (size_t)op - 4]; S.change(doc[d], t, two); open[d] = true; now[d] = t; }
        else if (op == 9) S.save(doc[d]);
        else { S.close(doc[d]); open[d] = false; }
        what += fmt(" %c%d", 'a' + d, op);
    }
    if (!ctx.begin("history" + what)) return;
    for (int d = 0; d < 2; d++) { string t; if (open[d]) t = now[d]; else impl::read_file(doc[d], t); ask_all(S, doc[d], t, 5); }
    string i = S.id(); S.raw("{\"jsonrpc\":\"2.0\",\"id\":" + i + ",\"method\":\"shutdown\"}", ASK, i);
    S.raw("{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}", EXIT);
    S.raw("{\"jsonrpc\":\"2.0\",\"id\":999,\"method\":\"shutdown\"}", ASK, "999");
    run(S);
}
// Documents and imports in directories of every name, their URIs escaped in every way
static void uris(Chooser& ch, Ctx& ctx) {
    files(ctx); int c = 1 + (int)ch.pick(255), style = (int)ch.pick(5), disk = (int)ch.pick(2); if (c == '/') return;
    if (!ctx.begin(fmt("directory with the character %02X in its name, URI written in way %d, document %s", c, style, disk ? "on disk" : "not on disk"))) return;
    string d = ctx.scratch + "/u" + string(1, (char)c) + "v"; mkdir(d.c_str(), 0700); mkdir((d + "/w").c_str(), 0700);
    string text = "@import(\"w/i.cnd\")\nstruct A { uint8 x; }\npacket P { A a; I i; }\n", inc = "\n\nstruct I { uint8 y; }\n";
    impl::write_file(d + "/w/i.cnd", inc); string p = d + "/a.cnd"; if (disk) impl::write_file(p, text);
    URI_STYLE = style; Session S(ctx); if (!disk) S.open(p, text);
    S.ask(SYMBOLS, p); S.ask(HOVER, p, 2, 11); S.ask(DEFINE, p, 2, 11); S.ask(HOVER, p, 2, 16); S.ask(DEFINE, p, 2, 16); S.ask(COMPLETE, p, 2, 11);
    if (disk) S.save(p);
    if (c != 0x1B && c != '\n') S.change(p, "struct A { uint8 }"); // the verdict of the compiler is read from lines with colours
    S.close(p); S.ask(SYMBOLS, p);
    run(S); URI_STYLE = 0;
    unlink(p.c_str()); unlink((d + "/w/i.cnd").c_str()); rmdir((d + "/w").c_str()); rmdir(d.c_str());
}
// A query between the changes, too
static void interleaved(Chooser& ch, Ctx& ctx) {
    files(ctx); string doc = ctx.scratch + (ch.pick(2) ? "/a.cnd" : "/b.cnd"); Session S(ctx); string what;
    int len = ctx.thorough ? 3 : 2; string now; bool open = false;
    for (int i = 0; i < len; i++) {
        int op = (int)ch.pick(7); what += fmt(" %d", op);
        if (op < 4) { now = texts()[(size_t)op + 5]; if (open) S.change(doc, now); else S.open(doc, now); open = true; }
        else if (op == 4) S.close(doc), open = false;
        else if (op == 5) S.save(doc);
        else { string t = now; if (!open) { t.clear(); impl::read_file(doc, t); } ask_all(S, doc, t, 3); }
        int q = (int)ch.pick(5); static const Query Q[] = {SYMBOLS, FORMAT, HOVER, DEFINE, COMPLETE}; S.ask(Q[q], doc, 0, 7); what += fmt("/%d", q);
    }
    if (!ctx.begin("interleaved" + what)) return;
    run(S);
}
static void everywhere(Ctx& ctx, const string& path, const string& text, int from, int step, bool all) {
    Session S(ctx); S.open(path, text);
    vector<string> lines(1); for (char c : text) { if (c == '\n') lines.emplace_back(); else lines.back() += c; }
    int n = 0;
    for (size_t l = 0; l < lines.size() + 2; l++) {
        int w = l < lines.size() ? (int)lines[l].size() : 0;
        for (int c = 0; c <= w + 2; c++) { if (w > 200 && c > 60 && c < w - 60 && c % 97) continue; if (lines.size() > 100 && l > 5 && l + 5 < lines.size() && l % 60) continue; if (n++ % step != from) continue;
            // behind the end of a line: the end of the line, or nothing
            if (c > w) { S.ask(COMPLETE, path, (int)l, c); continue; }
            S.ask(HOVER, path, (int)l, c); S.ask(DEFINE, path, (int)l, c); if (all || c % 3 == 0) S.ask(COMPLETE, path, (int)l, c); }
    }
    if (from == 0) { S.ask(SYMBOLS, path); S.ask(FORMAT, path); S.ask(COMPLETE, path, 2147483647, 2147483647); S.save(path); }
    run(S);
}
static void positions(Chooser& ch, Ctx& ctx) {
    files(ctx); size_t t = ch.pick((uint32_t)texts().size()); int part = (int)ch.pick(4), disk = (int)ch.pick(2);
    if (!ctx.begin(fmt("every position, text %zu part %d of 4, document %s\n", t, part, disk ? "on disk" : "not on disk") + texts()[t].substr(0, 1000))) return;
    everywhere(ctx, ctx.scratch + (disk ? "/a.cnd" : "/b.cnd"), texts()[t], part, 4, true);
    if (part == 0 && !disk) ctx.sample(texts()[t].substr(0, 300));
}
// Completion behind a dot, within the parentheses of a decorator and elsewhere, in texts that are still being written
static void members(Ctx& ctx, Chooser& ch) {
    files(ctx);
    static const vector<string> NAME = {"E", "Flags", "Color", "S", "n", "Missing", "E2", "P", "e", "uint8", "Fl", "In"}, AFTER = {".", ". ", ".A", ".A:", ".A: uint8 x;", ".Zed, E.A:", "", "..", " . ", ".\n  .", ".A."};
    static const vector<string> PLACE = {"struct S {\n  uint8 n; E e; uint8 q : 3;\n  switch (e) { case ", "struct S {\n  uint8 n; E e;\n  @expr(n + ", "struct S {\n  uint8 n; E e;\n  @count(", "struct S {\n  uint8 n; uint16 other;\n  if (n == ", "packet P {\n  uint8 n; E e;\n  ", "struct S { uint8 n; @len(", "", "enum E2 { Z = "};
    const string& n = ch.of(NAME); const string& a = ch.of(AFTER); const string& pl = ch.of(PLACE); int rest = (int)ch.pick(3), first = (int)ch.pick(2); if (!ctx.thorough && first != (n == "Color" || n == "S" || n == "Missing")) return;
    string decl = "enum E { A = 1, B, C_long }\nenum Flags : uint16 { Zed = 7, Last }\nstruct In { uint8 w; Flags f; }\n", text = (first ? "@import(\"lib.cnd\")\n" : "") + decl + pl + n + a;
    if (rest == 1) text += "\n}\npacket Q { E e; }\n"; if (rest == 2) text += ") uint8 z; } }\npacket Q { E e; }\nenum Late { L1 }\n";
    if (!ctx.begin(text)) return;
    Session S(ctx); string p = ctx.scratch + "/b.cnd"; S.open(p, text);
    size_t from = text.rfind(pl + n + a); from += pl.size(); if (ctx.thorough) from = 0; int line = 0, col = 0;
    for (size_t i = 0; i <= text.size(); i++) { if (i >= from) S.ask(COMPLETE, p, line, col); if (i < text.size() && text[i] == '\n') line++, col = 0; else col++; }
    S.ask(COMPLETE, p, line, 10000); S.ask(COMPLETE, p, line + 5, 3); S.ask(SYMBOLS, p);
    run(S);
}
// Definitions of every kind in every order, each with a comment of its own, of two lines, one that was already used, or none
static void definitions(Chooser& ch, Ctx& ctx, int n) {
    files(ctx); string t; vector<string> uses; bool imported = false;
    for (int i = 0; i < n; i++) switch (ch.pick(ctx.thorough ? 12 : 10)) {
        case 0: t += fmt("/// comment %d\nstruct S%d { uint8 a; }\n", i, i); uses.push_back(fmt("S%d", i)); break;
        case 1: t += fmt("struct S%d { uint8 a; }\n", i); uses.push_back(fmt("S%d", i)); break;
        case 2: t += fmt("/// comment %d\nenum E%d { A%d, B%d = 7 }\n", i, i, i, i); uses.push_back(fmt("E%d", i)); break;
        case 3: t += fmt("enum E%d : uint8 { A = %d, B }\n", i, i); uses.push_back(fmt("E%d", i)); break;
        case 4: t += fmt("/// first %d\n///second %d\n\nenum E%d { A, B%d }\n", i, i, i, i); uses.push_back(fmt("E%d", i)); break;
        case 5: t += fmt("/// first %d\n/// second %d\n@unaligned_bytes struct S%d { /// field %d\n uint8 a; }\n", i, i, i, i); uses.push_back(fmt("S%d", i)); break;
        case 6: t += fmt("// plain %d\n/* block */ struct S%d { uint8 a; /// behind %d\n }\n", i, i, i); uses.push_back(fmt("S%d", i)); break;
        case 7: if (imported) return; imported = true; t += "@import(\"lib.cnd\")\n"; uses.push_back("Lib"); uses.push_back("Color"); break;
        case 8: t += fmt("/// members %d\nenum E%d { /// of a %d\n A%d = 3, /// of b\n B }\n", i, i, i, i); uses.push_back(fmt("E%d", i)); break;
        case 9: t += "/// orphan\n;\n"; break;
        case 10: t += fmt("///\n/// \nstruct S%d { }\n", i); uses.push_back(fmt("S%d", i)); break;
        default: t += "@big_endian\n@version(2)\n"; break;
    }
    t += "/// of the packet\npacket P {\n"; int line = (int)std::count(t.begin(), t.end(), '\n'), first = line;
    for (size_t i = 0; i < uses.size(); i++) t += " " + uses[i] + fmt(" f%zu;\n", i);
    t += "}\n"; if (!ctx.begin(t)) return;
    Session S(ctx); string p = ctx.scratch + "/b.cnd"; S.open(p, t); S.ask(COMPLETE, p, first, 0); S.ask(SYMBOLS, p);
    for (size_t i = 0; i < uses.size(); i++, line++) { S.ask(HOVER, p, line, 2); S.ask(DEFINE, p, line, 3); }
    S.ask(COMPLETE, p, line, 0); run(S);
}
static void schemas(Chooser& ch, Ctx& ctx, int n) {
    files(ctx); Schema s; if (!pick_sequence(ch, n, 2, s)) return;
    string text = print(s); if (!ctx.begin(text)) return;
    everywhere(ctx, ctx.scratch + "/b.cnd", text, 0, n == 1 ? 1 : 7, false);
}
// One token missing, doubled or replaced: diagnostics and everything else follow the compiler
static void edits(Chooser& ch, Ctx& ctx) {
    files(ctx); const auto& A = gen::atoms(); uint32_t k = ch.pick((uint32_t)(A.size() + 14)); string text; int how = (int)ch.pick(4);
    if (k < A.size()) { Schema s; A[k].add(s, s.body, "f"); text = print(s); } else { static const int W[] = {0, 1, 3, 7, 8, 9, 10, 11, 23, 24, 25, 26, 27, 28}; text = texts()[(size_t)W[k - A.size()]]; }
    if (!ctx.begin(fmt("token edit %d of\n", how) + text)) return;
    Session S(ctx); string p = ctx.scratch + "/b.cnd"; auto T = tokens(text);
    for (size_t i = 0; i < T.size(); i++) {
        size_t e = T[i].off + T[i].s.size() + (T[i].k == 's' ? 2 : T[i].k == 'd' ? 3 : 0); string t = text; string tok = text.substr(T[i].off, e - T[i].off);
        if (how == 0) t.erase(T[i].off, e - T[i].off); else if (how == 1) t.insert(e, "\n " + tok); else if (how == 2) t.replace(T[i].off, e - T[i].off, "}"); else t.resize(e);
        S.change(p, t); S.ask(SYMBOLS, p); S.ask(FORMAT, p); 
        auto N = tokens(t); for (size_t j = 0; j < N.size(); j += 5) if (N[j].k == 'i') { S.ask(HOVER, p, N[j].line, N[j].col); S.ask(COMPLETE, p, N[j].line, N[j].col); }
    }
    run(S);
}
// ---- malformed and unusual messages
struct Odd { string body; Kind k; string id; };
static const vector<Odd>& odd(const string& uri) {
    static vector<Odd> O; if (!O.empty()) return O;
    string td = "\"textDocument\":{\"uri\":" + js::quote(uri) + "}", pos = "\"position\":{\"line\":0,\"character\":1}";
    int n = 500;
    auto req = [&](const string& method, const string& params, Kind k = ASK_ANY) { string i = fmt("%d", n++); O.push_back({"{\"jsonrpc\":\"2.0\",\"id\":" + i + ",\"method\":" + method + (params.empty() ? "" : ",\"params\":" + params) + "}", k, i}); };
    const vector<string> bad = {"", "null", "7", "\"x\"", "[]", "{}", "{\"textDocument\":null," + pos + "}", "{\"textDocument\":5," + pos + "}", "{\"textDocument\":{}," + pos + "}", "{\"textDocument\":{\"uri\":null}," + pos + "}", "{\"textDocument\":{\"uri\":5}," + pos + "}", "{\"textDocument\":{\"uri\":\"\"}," + pos + "}", "{\"textDocument\":[{\"uri\":\"x\"}]," + pos + "}", "{\"textDocument\":{\"uri\":\"untitled:x%2\"}," + pos + "}", "{\"textDocument\":{\"uri\":\"file://\"}," + pos + "}", "{\"textDocument\":{\"uri\":\"file:///%zz%\"}," + pos + "}"};
    const vector<string> badpos = {"{" + td + "}", "{" + td + ",\"position\":null}", "{" + td + ",\"position\":{}}", "{" + td + ",\"position\":[1,2]}", "{" + td + ",\"position\":{\"line\":0}}", "{" + td + ",\"position\":{\"character\":0}}", "{" + td + ",\"position\":{\"line\":\"0\",\"character\":null}}", "{" + td + ",\"position\":{\"line\":-1,\"character\":0}}", "{" + td + ",\"position\":{\"line\":0,\"character\":-5}}", "{" + td + ",\"position\":{\"line\":1e30,\"character\":1e30}}", "{" + td + ",\"position\":{\"line\":0,\"character\":1e30}}", "{" + td + ",\"position\":{\"line\":-1e30,\"character\":2.5}}"};
    for (auto m : {"\"textDocument/hover\"", "\"textDocument/definition\"", "\"textDocument/completion\""}) { for (auto& b : bad) req(m, b); for (auto& b : badpos) req(m, b); }
    for (auto m : {"\"textDocument/formatting\"", "\"textDocument/documentSymbol\""}) for (auto& b : bad) req(m, b);
    for (auto m : {"\"initialize\"", "\"shutdown\""}) for (auto b : {"", "null", "{}", "[]", "5"}) req(m, b, ASK);
    for (auto m : {"\"\"", "\"textDocument/rename\"", "\"$/x\"", "\"TextDocument/Hover\"", "\"textDocument/hoverX\"", "\"workspace/symbol\""}) req(m, "{" + td + "," + pos + "}", ASK_UNKNOWN);
    for (auto m : {"\"textDocument/didOpen\"", "\"textDocument/didSave\"", "\"textDocument/didChange\"", "\"textDocument/didClose\"", "\"initialized\""}) req(m, "{\"textDocument\":{\"uri\":\"untitled:z\"}}");
    // notifications: nothing may be answered
    for (auto m : {"textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose"}) {
        for (auto& b : bad) O.push_back({string("{\"jsonrpc\":\"2.0\",\"method\":\"") + m + "\"" + (b.empty() ? "" : ",\"params\":" + b) + "}", NOTE, ""});
        for (auto c : {"\"contentChanges\":null", "\"contentChanges\":[]", "\"contentChanges\":[null]", "\"contentChanges\":[{}]", "\"contentChanges\":[{\"text\":5}]", "\"contentChanges\":{\"text\":\"x\"}", "\"contentChanges\":\"x\"", "\"text\":\"x\""}) O.push_back({string("{\"jsonrpc\":\"2.0\",\"method\":\"") + m + "\",\"params\":{\"textDocument\":{\"uri\":\"untitled:z\"}," + c + "}}", NOTE, ""});
    }
    for (auto m : {"initialized", "$/cancelRequest", "initialize", "shutdown", "textDocument/hover", "textDocument/formatting", "textDocument/completion", "textDocument/definition", "textDocument/documentSymbol", "workspace/didChangeConfiguration", "", "what/ever"}) O.push_back({string("{\"jsonrpc\":\"2.0\",\"method\":\"") + m + "\",\"params\":{" + td + "," + pos + "}}", NOTE, ""});
    // ids
    for (auto i : {"0", "-1", "2147483647", "\"abc\"", "\"\"", "\"a\\\"b\"", "null"}) { O.push_back({string("{\"jsonrpc\":\"2.0\",\"id\":") + i + ",\"method\":\"shutdown\"}", ASK, i}); O.push_back({string("{\"method\":\"x/y\",\"params\":{},\"id\":") + i + ",\"jsonrpc\":\"2.0\"}", ASK_UNKNOWN, i}); }
    // no requests and no notifications
    for (auto b : {"{}", "[]", "5", "\"x\"", "null", "true", "{\"jsonrpc\":\"2.0\"}", "{\"method\":5}", "{\"method\":null,\"params\":{}}", "not json", "{", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"shutdown\"", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"shutdown\"} x", "\xff\xfe", "[{\"jsonrpc\":\"2.0\",\"method\":\"initialized\"}]", "{\"a\":\"\\u12\"}"}) O.push_back({b, BAD, ""});
    O.push_back({string("{\"jsonrpc\":\"2.0\",\"method\":\"x\0y\"}", 32), BAD, ""});
    O.push_back({rep("[", 3000) + rep("]", 3000), BAD, ""});
    O.push_back({"{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":5}", BAD_ID, "77"});
    O.push_back({"{\"jsonrpc\":\"2.0\",\"id\":78}", BAD_ID, "78"});
    O.push_back({"{\"jsonrpc\":\"2.0\",\"id\":79,\"result\":null}", NOTE, ""});
    O.push_back({"{\"jsonrpc\":\"2.0\",\"id\":80,\"error\":{\"code\":1,\"message\":\"x\"}}", NOTE, ""});
    O.push_back({"{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}", EXIT, ""});
    return O;
}
static void protocol(Chooser& ch, Ctx& ctx, int len) {
    files(ctx); string a = ctx.scratch + "/a.cnd"; const auto& O = odd(uri_of(a));
    vector<uint32_t> pick; for (int i = 0; i < len; i++) pick.push_back(ch.pick((uint32_t)O.size()));
    if (len == 3 && !ctx.thorough) { }
    string what; for (uint32_t k : pick) what += "\n" + O[k].body.substr(0, 300);
    if (!ctx.begin("messages:" + what)) return;
    Session S(ctx); S.open(a, texts()[0]);
    for (uint32_t k : pick) { S.raw(O[k].body, O[k].k, O[k].id); if (O[k].k != EXIT) S.mark(); }
    S.ask(SYMBOLS, a); S.ask(HOVER, a, 2, 8); S.ask(FORMAT, a);
    run(S);
}
// The lines in front of the messages, and messages that are cut off
static void framing(Chooser& ch, Ctx& ctx) {
    files(ctx); string a = ctx.scratch + "/a.cnd", junk;
    auto wrap = [&](uint32_t k, const string& b) -> string {
        string n = fmt("%zu", b.size());
        switch (k) {
            case 0: return "Content-Length: " + n + "\r\n\r\n" + b;
            case 1: return "content-length: " + n + "\r\n\r\n" + b;
            case 2: return "CONTENT-LENGTH: " + n + "\r\n\r\n" + b;
            case 3: return "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: " + n + "\r\n\r\n" + b;
            case 4: return "Content-Length: " + n + "\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n" + b;
            case 5: return "Content-Length:" + n + "\r\n\r\n" + b;
            case 6: return "Content-Length:   " + n + "  \r\n\r\n" + b;
            case 7: return "X-Long: " + rep("x", 1014) + "\r\nContent-Length: " + n + "\r\n\r\n" + b;
            case 8: return "X-Long: " + rep("Content-Length: 5 ", 300) + "\r\nContent-Length: " + n + "\r\n\r\n" + b;
            case 9: return "Content-Length: " + n + "\r\nX-Long: " + rep("y", 1013) + "\r\n\r\n" + b;
            case 10: return "Content-Length: " + n + "\r\nX-Long: " + rep("z", 1014) + "\r\n\r\n" + b;
            case 11: return "Content-Length: 000000000000000000000000" + n + "\r\n\r\n" + b;
            default: return "Content-Length: " + n + "\n\n" + b;
        }
    };
    static const char* broken[] = {"\r\n", "Content-Length: 0\r\n\r\n", "Content-Length: abc\r\n\r\n", "Content-Length: -5\r\n\r\n", "Content-Length:\r\n\r\n", "Content-Type: x\r\n\r\n", "Content-Length: 99999999999999999999999999\r\n\r\n", "Content-Length\r\n\r\n", "rubbish\r\n\r\n"};
    uint32_t k1 = ch.pick(13), k2 = ch.pick(13), br = ch.pick(10), where = ch.pick(2);
    if (!ctx.begin(fmt("headers %u %u, broken %u before message %u", k1, k2, br, where))) return;
    Session S(ctx); S.open(a, texts()[1]); S.ask(SYMBOLS, a); S.ask(HOVER, a, 2, 6); S.save(a); S.ask(FORMAT, a);
    for (size_t i = 0; i < S.m.size(); i++) S.m[i].bytes = wrap(i % 2 ? k2 : k1, S.m[i].show);
    if (br < 9) { Msg m{broken[br], "broken header", BAD, ""}; S.m.insert(S.m.begin() + (where ? 3 : 0), m); }
    run(S);
}
static void cuts(Chooser& ch, Ctx& ctx) {
    files(ctx); string a = ctx.scratch + "/a.cnd"; int part = (int)ch.pick(8);
    if (!ctx.begin(fmt("input that ends anywhere, part %d", part))) return;
    Session base(ctx); base.open(a, texts()[7]); base.ask(SYMBOLS, a); base.ask(HOVER, a, 0, 8); base.ask(COMPLETE, a, 0, 9); base.save(a); base.ask(FORMAT, a); base.ask(DEFINE, a, 0, 8);
    size_t total = 0; for (auto& m : base.m) total += m.bytes.size();
    for (size_t cut = (size_t)part; cut < total; cut += 8) {
        Session S(ctx); size_t left = cut;
        for (auto& m : base.m) { if (m.bytes.size() <= left) { S.m.push_back(m); left -= m.bytes.size(); continue; } Msg x = m; x.bytes = m.bytes.substr(0, left); x.kind = RAW_END; x.doc_op = 0; x.show = fmt("the first %zu bytes of ", left) + m.show; S.m.push_back(x); break; }
        if (!run(S, false)) return;
    }
}
// Many messages and large documents
static void load(Chooser& ch, Ctx& ctx) {
    files(ctx); int kind = (int)ch.pick(6); int n = (int)ch.of(vector<int>{1, 10, 100, 400});
    if (!ctx.begin(fmt("load, kind %d, %d", kind, n))) return;
    string a = ctx.scratch + "/a.cnd"; Session S(ctx);
    if (kind == 0) { S.open(a, texts()[0]); for (int i = 0; i < n; i++) { S.ask(HOVER, a, 2, 8); S.ask(COMPLETE, a, 4, 4); } }
    else if (kind == 1) for (int i = 0; i < n; i++) { S.open(a, texts()[(size_t)(i % 3)]); S.ask(SYMBOLS, a); S.close(a); }
    else if (kind == 2) { for (int i = 0; i < n; i++) S.open(ctx.scratch + fmt("/n%d.cnd", i), texts()[(size_t)(i % 4)]); for (int i = 0; i < n; i += 2) S.close(ctx.scratch + fmt("/n%d.cnd", i)); for (int i = 0; i < n; i++) S.ask(SYMBOLS, ctx.scratch + fmt("/n%d.cnd", i)); }
    else if (kind == 3) { string t; for (int i = 0; i < n; i++) t += fmt("/// number %d\nstruct S%d { uint8 a; uint16 b%d[3]; }\n", i, i, i); t += "packet P { S0 x; }\n"; S.open(a, t); ask_all(S, a, t, 12); S.ask(HOVER, a, 2 * n - 1, 8); S.ask(DEFINE, a, 2 * n, 12); }
    else if (kind == 4) { string t = "packet P {\n"; for (int i = 0; i < n * 10; i++) t += fmt("  uint8 f%d;\n", i); t += "}\n"; S.open(a, t); ask_all(S, a, t, 3); S.change(a, t + "junk"); S.ask(SYMBOLS, a); }
    else { string t = rep("/* c */\n", n * 50) + "struct A { uint8 x; }\npacket P { A a; Missing m; }\n"; S.open(a, t); ask_all(S, a, t, 6); }
    run(S);
}
// Documents whose names are easily taken for one: long directories and names that differ anywhere, names equal under a hash
static void similar(Chooser& ch, Ctx& ctx) {
    files(ctx); int kind = (int)ch.pick(2); string a, b; vector<string> made; static const vector<int> LEN = {20, 60, 100, 126, 127, 128, 129, 200, 254, 255, 256, 300, 510, 512, 700, 1000, 1022, 1024, 1100, 2000, 3000, 3600}; string what;
    if (kind == 0) { const auto& p = ch.of(close_names()); if (p.first.size() > 245 || p.second.size() > 245) return; a = ctx.scratch + "/" + p.first; b = ctx.scratch + "/" + p.second; what = p.first + " and " + p.second; }
    else {
        int len = ch.of(LEN), part = 4 + (int)ch.pick(2) * 190, at = (int)ch.pick(5); string d; while ((int)d.size() < len) d += "/" + string(1, (char)('a' + d.size() / (size_t)part % 26)) + string((size_t)std::min(part, std::max(1, len - (int)d.size() - 1)), 'x');
        string e = d; if (at == 0) e[1] = 'Z'; else if (at == 1) { size_t k = e.size() / 2; if (e[k] == '/') k++; e[k] = 'Z'; } else if (at == 2) e[e.size() - 1] = 'Z'; else if (at == 4) e += "x";
        for (auto* q : {&d, &e}) for (size_t i = 1; i <= q->size(); i++) if (i == q->size() || (*q)[i] == '/') { string m = ctx.scratch + q->substr(0, i); if (mkdir(m.c_str(), 0700) == 0) made.push_back(m); }
        a = ctx.scratch + d + "/a"; b = ctx.scratch + e + (at == 3 ? "/b" : "/a"); what = fmt("directory of %d characters, parts of %d, other in way %d", len, part, at); }
    int order = (int)ch.pick(2); a += ".cnd"; b += ".cnd"; bool go = ctx.begin("two documents: " + what);
    if (go) {
        string ta = "/// of a\nstruct A { uint8 x; }\npacket P { A a; }\n", tb = "\n\n/// of b\nenum A { X, Y }\nstruct B { A x; }\npacket Q { B b; A c; }\n"; Session S(ctx);
        auto q = [&](const string& p, const string& t) { ask_all(S, p, t, 5); };
        S.open(order ? b : a, order ? tb : ta); S.open(order ? a : b, order ? ta : tb); q(a, ta); q(b, tb); S.change(a, tb); q(b, tb); q(a, tb); S.change(b, ta); q(a, tb); q(b, ta); S.close(order ? a : b); q(order ? b : a, order ? ta : tb); S.change(order ? b : a, "struct Broken { uint8 }"); q(order ? b : a, "struct Broken { uint8 }");
        run(S);
    }
    for (size_t i = made.size(); i-- > 0;) rmdir(made[i].c_str());
}
// Definitions whose names are easily taken for one
static void similar_names(Chooser& ch, Ctx& ctx) {
    files(ctx); const auto& p = ch.of(close_names()); int kind = (int)ch.pick(3), turn = (int)ch.pick(2); string a = turn ? p.second : p.first, b = turn ? p.first : p.second; 
    string t = kind == 0 ? "/// comment one\nstruct " + a + " { uint8 x; }\n/// remark two\nstruct " + b + " { uint8 y; }\n" : kind == 1 ? "/// comment one\nenum " + a + " { X, Y = 4 }\n\n/// remark two\nenum " + b + " { Z = 9 }\n" : "/// comment one\nenum EE { " + a + " = 7, " + b + " = 70 }\nstruct " + b + " { EE e; }\nstruct " + a + " { uint8 x; }\n";
    t += "packet P {\n " + a + " f;\n " + b + " g;\n" + (kind == 2 ? " EE h;\n switch (h) { case EE." + b + ": uint8 x; }\n" : "") + "}\n"; if (!ctx.begin(t)) return;
    Session S(ctx); string d = ctx.scratch + "/b.cnd"; S.open(d, t); ask_all(S, d, t, 40); int line = (int)std::count(t.begin(), t.begin() + (long)t.find("packet"), '\n') + 1; S.ask(HOVER, d, line, 2); S.ask(DEFINE, d, line, 2); S.ask(HOVER, d, line + 1, 2); S.ask(DEFINE, d, line + 1, 2); if (kind == 2) { S.ask(HOVER, d, line + 2, 2); S.ask(COMPLETE, d, line + 3, 22); } S.ask(COMPLETE, d, line, 0); run(S);
}
// Texts with many errors
static void errors(Chooser& ch, Ctx& ctx) {
    files(ctx); static const vector<int> N = {1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 700, 900, 999, 1000}; int n = ch.of(N), kind = (int)ch.pick(12); string t, bad;
    static const char* B[] = {" $\n", " Missing m;\n", " uint8 ;\n", " @const(300) uint8 c;\n", " \x01 ", " $ # ? ", "$\n", "$", "foo\n", "struct S# { Missing m; }\n", "struct S# { uint8 ; }\n", "enum E# { A, A }\n"}; bad = B[kind]; if (kind == 5 && n > 300) return;
    if (kind > 5) { for (int i = 0; i < n; i++) { size_t k = bad.find('#'); t += k == string::npos ? bad : bad.substr(0, k) + fmt("%d", i) + bad.substr(k + 1); } t += " packet P { uint8 a; }\n"; } else {
    t = "struct A { uint8 x; }\npacket P {\n"; for (int i = 0; i < n; i++) { t += bad; if (i % 5 == 3) t += fmt(" uint8 f%d;\n", i); } t += "A a;\n}\nstruct L { uint8 l; }\n"; }
    if (!ctx.begin(fmt("%d errors of kind %d\n", n, kind) + t.substr(0, 300))) return;
    string d = ctx.scratch + "/b.cnd"; size_t es = verdict(ctx, d, t).at.size(); ctx.outcome(es > 200 ? "texts with more than 200 errors" : es > 32 ? "texts with 33-200 errors" : "texts with up to 32 errors"); if (es > 1000) { ctx.outcome("more errors than are kept"); return; }
    Session S(ctx); S.open(d, "packet P { uint8 x; }"); S.change(d, t); S.ask(SYMBOLS, d); S.ask(HOVER, d, 0, 8); S.change(d, "packet P { uint8 x; }"); S.save(d); run(S);
}
// Enums of every type with extreme values at every place
static void values(Chooser& ch, Ctx& ctx) {
    files(ctx); static const vector<string> TY = {"", "uint8", "int8", "u16", "int16", "uint32", "i32", "uint64", "u64", "int64", "i64", "byte"}; static const vector<int> BITS = {32, 8, -8, 16, -16, 32, -32, 64, 64, -64, -64, 8};
    size_t ty = ch.pick((uint32_t)TY.size()); int n = ch.of(vector<int>{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 100}), at = (int)ch.pick(3), v = (int)ch.pick(5), after = (int)ch.pick(2); int bits = BITS[ty], w = abs(bits); bool sgn = bits < 0;
    uint64_t max = sgn ? (w == 64 ? INT64_MAX : (1ull << (w - 1)) - 1) : w == 64 ? ~0ull : (1ull << w) - 1; string val;
    switch (v) { case 0: val = fmt("%llu", (unsigned long long)max); break; case 1: val = fmt("0x%llx", (unsigned long long)max); break; case 2: val = sgn ? w == 64 ? "-9223372036854775808" : fmt("-%llu", (unsigned long long)max + 1) : fmt("%llu", (unsigned long long)(max / 2 + 1)); break; case 3: val = sgn ? "-1" : fmt("%llu", (unsigned long long)(max - 1)); break; default: val = fmt("%llu", (unsigned long long)(max - 2)); }
    int k = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; if ((at == 1 && n < 3) || (at == 2 && n < 2)) return; if (after && (k == n - 1 || v < 2)) return;
    string t = "/// values\nenum E" + (TY[ty].empty() ? string() : " : " + TY[ty]) + " {\n"; for (int i = 0; i < n; i++) t += fmt("  M%d", i) + (i == k ? " = " + val : i == k + 1 && after ? string() : fmt(" = %d", i < k || !sgn ? i + 2 : i + 5)) + (i + 1 < n ? ",\n" : "\n");
    t += "}\npacket P {\n  E e;\n}\n"; if (!ctx.begin(t)) return; Session S(ctx); string d = ctx.scratch + "/b.cnd"; S.open(d, t); S.ask(HOVER, d, n + 4, 2); S.ask(HOVER, d, 1, 5); S.ask(SYMBOLS, d); S.ask(DEFINE, d, n + 4, 2); run(S);
}
int main(int argc, char** argv) {
    bool th = is_thorough(argc, argv);
    vector<mc::Family> F;
    F.push_back({"protocol1", [](Chooser& c, Ctx& x) { protocol(c, x, 1); }});
    F.push_back({"framing", framing});
    F.push_back({"cuts", cuts});
    F.push_back({"documents2", [](Chooser& c, Ctx& x) { documents(c, x, 2); }});
    F.push_back({"positions", positions});
    F.push_back({"schemas1", [](Chooser& c, Ctx& x) { schemas(c, x, 1); }});
    F.push_back({"completion", [](Chooser& c, Ctx& x) { members(x, c); }});
    F.push_back({"definitions", [](Chooser& c, Ctx& x) { definitions(c, x, 4); }});
    F.push_back({"edits", edits});
    F.push_back({"uris", uris});
    F.push_back({"similar", similar}); F.push_back({"similar names", similar_names}); F.push_back({"errors", errors}); F.push_back({"values", values});
    F.push_back({"load", load});
    F.push_back({"interleaved", interleaved});
    F.push_back({"documents3", [](Chooser& c, Ctx& x) { documents(c, x, 3); }});
    F.push_back({"protocol2", [](Chooser& c, Ctx& x) { protocol(c, x, 2); }});
    if (th) { F.push_back({"documents4", [](Chooser& c, Ctx& x) { documents(c, x, 4); }}); F.push_back({"schemas2", [](Chooser& c, Ctx& x) { schemas(c, x, 2); }}); }
    return mc::main_driver(argc, argv, {"C20", "Every session of the families below is fed to the real server loop; its output is compared, message by message, with a model of the protocol (who gets a response), of the documents (whose text counts), the compiler itself (diagnostics), the formatter itself (edits) and an independent reader of schemas (symbols, hover, definition).", {"positions are in bytes; texts with other characters on lines that are asked about are left out", "after an error in a text, names behind the error may be known or not"}, 120}, F);
}
