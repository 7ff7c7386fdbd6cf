// The listing of inspect against an independent disassembler, for compiled, assembled and damaged images
#include "cli.hpp"
#include "isa.hpp"
using Bytes = vector<uint8_t>;
static uint64_t le(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
static string opname(uint8_t op) { auto s = isa::shape(op); return s ? s->name : "?"; }
static int isz(uint8_t t) { switch (t) { case 0x10: case 0x14: return 1; case 0x11: case 0x15: return 2; case 0x12: case 0x16: case 0x18: return 4; } return 8; }
static string num(uint8_t t, const uint8_t* p) {
    uint64_t v = le(p, isz(t));
    if (t == 0x18) return fmt("%.9g", (double)as_float((uint32_t)v));
    if (t == 0x19) return fmt("%.17g", as_double(v));
    if (t >= 0x14) { int b = 64 - 8 * isz(t); return fmt("%lld", (long long)((int64_t)(v << b) >> b)); }
    return fmt("%llu", (unsigned long long)v);
}
static string dbl(const uint8_t* p) { return fmt("%.17g", as_double(le(p, 8))); }
// The operands of an instruction, as name=value
static string operands(const Bytes& b, const isa::Ins& x) {
    const uint8_t* p = b.data() + x.off + 1;
    auto key = [&] { return fmt("KeyID=%u", (unsigned)le(p, 2)); };
    switch (x.op) {
        case 0x05: return fmt("Ver=%u", p[0]);
        case 0x07: return key() + " (Name)";
        case 0x20: case 0x21: return key() + fmt(" Bits=%u", p[2]);
        case 0x23: case 0x24: return fmt("Align=%u", p[0]);
        case 0x30: return key() + fmt(" MaxLen=%u", (unsigned)le(p + 2, 2));
        case 0x34: case 0x39: return key() + fmt(" Count=%u", (unsigned)le(p + 2, 4));
        case 0x3B: return key() + fmt(" RefKeyID=%u", (unsigned)le(p + 2, 2));
        case 0x40: return key() + " Type=" + opname(p[2]) + " Val=" + num(p[2], p + 3);
        case 0x41: return "Type=" + opname(p[0]) + " Val=" + num(p[0], p + 1);
        case 0x42: return "Type=" + opname(p[0]) + " Range=[" + num(p[0], p + 1) + ", " + num(p[0], p + 1 + isz(p[0])) + "]";
        case 0x43: return "Factor=" + dbl(p) + " Offset=" + dbl(p + 8);
        case 0x44: return fmt("Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%u", (unsigned)le(p, 2), (unsigned)le(p + 2, 2), (unsigned)le(p + 4, 2), p[6]);
        case 0x49: return fmt("Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%u", (unsigned)le(p, 4), (unsigned)le(p + 4, 4), (unsigned)le(p + 8, 4), p[12]);
        case 0x45: case 0x46: case 0x47: case 0x48: return fmt("Val=%lld", (long long)le(p, 8));
        case 0x61: return fmt("Val=%llu", (unsigned long long)le(p, 8));
        case 0x65: return "Type=" + opname(p[0]);
        case 0x4B: { unsigned n = (unsigned)le(p + 1, 2); string r = "Type=" + opname(p[0]) + fmt(" Count=%u Values=[", n); for (unsigned i = 0; i < n; i++) r += (i ? ", " : "") + num(p[0], p + 3 + i * isz(p[0])); return r + "]"; }
        case 0x4C: { string r = fmt("Count=%u Coeffs=[", p[0]); for (int i = 0; i < p[0]; i++) r += (i ? ", " : "") + dbl(p + 1 + 8 * i); return r + "]"; }
        case 0x4D: { string r = fmt("Count=%u Points=[", p[0]); for (int i = 0; i < p[0]; i++) r += (i ? ", (" : "(") + dbl(p + 1 + 16 * i) + ", " + dbl(p + 9 + 16 * i) + ")"; return r + "]"; }
        case 0x50: case 0x52: return fmt("Offset=%d", (int32_t)le(p, 4));
        case 0x51: case 0x53: {
            const uint8_t* t = b.data() + x.tab; size_t base = x.off + 7;
            string r = key() + fmt(" TableOff=%u", (unsigned)le(p + 2, 4));
            if (x.op == 0x51) {
                unsigned n = (unsigned)le(t, 2); r += fmt(" Default=%04zX Cases=[", base + (size_t)le(t + 2, 4));
                for (unsigned i = 0; i < n; i++) r += fmt("%s%lld:%04zX", i ? ", " : "", (long long)le(t + 6 + 12 * i, 8), base + (size_t)le(t + 14 + 12 * i, 4));
            } else {
                uint64_t lo = le(t, 8), hi = le(t + 8, 8); r += fmt(" Default=%04zX Cases=[", base + (size_t)le(t + 16, 4));
                for (uint64_t i = 0; i <= hi - lo; i++) r += fmt("%s%lld:%04zX", i ? ", " : "", (long long)(lo + i), base + (size_t)le(t + 20 + 4 * i, 4));
            }
            return r + "]";
        }
        default: return isa::shape(x.op)->operands[0] == 'k' ? key() : "";
    }
}
static string trim(const string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static vector<string> lines(const string& s) { vector<string> r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); r.push_back(s.substr(i, e - i)); i = e + 1; } return r; }
// What the documents say an image is. Empty `code` and false: not one
static bool parts(const string& il, vector<string>& names, Bytes& code) {
    if (il.size() < 16 || il.compare(0, 5, "CNDIL") || il[5] != 1) return false;
    const uint8_t* p = (const uint8_t*)il.data();
    size_t n = (size_t)le(p + 6, 2), so = (size_t)le(p + 8, 4), bo = (size_t)le(p + 12, 4);
    if (so > il.size() || bo > il.size()) return false;
    size_t end = so <= bo ? bo : il.size(), at = so;
    for (size_t i = 0; i < n; i++) { size_t e = il.find('\0', at); if (e == string::npos || e >= end) return false; names.push_back(il.substr(at, e - at)); at = e + 1; }
    code.assign(il.begin() + (ptrdiff_t)bo, il.end());
    return true;
}
static bool check(Ctx& ctx, const string& il, bool compiled, const string& note = "") {
    string f = ctx.scratch + "/i.il"; impl::write_file(f, il);
    cli::Res r = cli::run(ctx, {"inspect", f}, true);
    vector<string> names; Bytes code;
    bool image = parts(il, names, code);
    isa::Prog p; if (image) p = isa::parse(code);
    auto bad = [&](const string& w, const string& d) { ctx.fail(w, d + (note.empty() ? "" : "\n" + note) + "\nimage " + hex((const uint8_t*)il.data(), il.size()) + "\n" + r.out.substr(0, 3000)); return false; };
    if (!image) { if (r.code == 0) return bad("inspect accepts something that is not an image", ""); ctx.outcome("not an image"); return true; }
    if (!p.ok || p.gray) {
        if (compiled) return bad("compiled image is not a program", p.why);
        ctx.outcome(r.code ? "not a program, refused" : "not a program, listed"); return true;
    }
    if (r.code != 0) return bad(compiled ? "inspect fails on a compiled image" : "inspect fails on a valid program", "");
    size_t at = r.out.find("--- Bytecode ---"), st = r.out.find("--- String Table ---");
    if (at == string::npos || st == string::npos || st > at) return bad("no listing", "");
    // names may contain line ends only in damaged images
    bool odd = false; for (auto& n : names) for (char c : n) if (c == '\n' || c == '-' || c == '\r') odd = true;
    if (!odd) {
        vector<string> got, want; for (auto& l : lines(r.out.substr(st, at - st))) if (!l.empty() && l[0] == '[') got.push_back(l);
        for (size_t i = 0; i < names.size(); i++) want.push_back(fmt("[%zu] ", i) + names[i]);
        if (got != want) { string w; for (auto& l : want) w += l + "\n"; return bad("wrong names listed", "expected\n" + w); }
    } else at = r.out.rfind("--- Bytecode ---");
    vector<string> got = lines(r.out.substr(r.out.find('\n', at) + 1));
    ctx.steps(p.ins.size());
    for (size_t i = 0; i < p.ins.size(); i++) {
        auto& x = p.ins[i];
        string want = fmt("%04zX: ", x.off) + opname(x.op) + " " + operands(code, x);
        if (i >= got.size()) return bad("instructions are missing from the listing", "expected " + want);
        // one space where there may be several
        string g; for (char c : trim(got[i])) if (!(c == ' ' && !g.empty() && g.back() == ' ')) g += c;
        if (g != trim(want)) return bad("wrong line in the listing", "expected " + trim(want) + "\ngot      " + g);
    }
    if (got.size() != p.ins.size()) return bad("more lines than instructions", got[p.ins.size()]);
    ctx.outcome("listed"); if (p.ins.size() > 2) ctx.nontrivial(); ctx.traces();
    return true;
}
static void go(Prep& x, Ctx& ctx) {
    x.text = print(x.s);
    if (!ctx.begin(x.text)) return;
    if (prepare(x, ctx)) check(ctx, x.il, true);
}
static string assemble(const Bytes& code, int names = 3) {
    string s("CNDIL\1", 6); string tab; for (int i = 0; i < names; i++) tab += fmt("n%d", i) + string(1, '\0');
    auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> 8 * i); };
    put((uint64_t)names, 2); put(16, 4); put(16 + tab.size(), 4);
    return s + tab + string(code.begin(), code.end());
}
// Every instruction with every combination of boundary operands
static void instructions(Chooser& ch, Ctx& ctx) {
    auto& sh = isa::shapes(); auto& s = sh[ch.pick((uint32_t)sh.size())];
    static const vector<uint8_t> T = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A};
    static const uint64_t V[] = {0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF, 0x0102030405060708, 0x3FF8000000000000, 0x7FF0000000000000, 0x3DCCCCCD};
    Bytes b = {s.op};
    auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> 8 * i)); };
    auto val = [&](int n) { put(V[ch.pick(18)], n); };
    for (const char* o = s.operands; *o; o++) switch (*o) {
        case 'k': put(ch.of(vector<int>{0, 2, 255, 256, 65535}), 2); break;
        case '1': put(ch.of(vector<int>{0, 1, 127, 128, 255}), 1); break;
        case '2': val(2); break; case '4': val(4); break; case '8': val(8); break;
        case 'b': put(1 + ch.pick(64), 1); break;
        case 'j': put(0, 4); break;
        case 't': {
            bool tbl = s.op == 0x53; int n = (int)ch.pick(4); int pos = (int)ch.pick(2); uint64_t lo = V[ch.pick(18)];
            size_t tsz = tbl ? 20 + 4 * (size_t)(n + 1) : 6 + 12 * (size_t)n;
            if (lo + (uint64_t)n < lo) return;
            size_t body = 2; // two instructions behind the switch: NOOP NOOP, then (pos 1) a jump over the table
            if (pos == 0) { // table directly behind
                put(0, 4); uint64_t tgt = tsz;
                if (tbl) { put(lo, 8); put(lo + (uint64_t)n, 8); put(tgt, 4); for (int i = 0; i <= n; i++) put(tgt + (uint64_t)(i % 2), 4); }
                else { put((uint64_t)n, 2); put(tgt, 4); for (int i = 0; i < n; i++) { put(lo + (uint64_t)i, 8); put(tgt + (uint64_t)(i % 2), 4); } }
                put(0, 1); put(0, 1);
            } else {
                put(body + 5, 4); put(0, 1); put(0, 1); put(0x52, 1); put(tsz, 4);
                if (tbl) { put(lo, 8); put(lo + (uint64_t)n, 8); put(0, 4); for (int i = 0; i <= n; i++) put((uint64_t)(i % 3), 4); }
                else { put((uint64_t)n, 2); put(1, 4); for (int i = 0; i < n; i++) { put(lo + (uint64_t)i, 8); put((uint64_t)(i % 3), 4); } }
                put(0, 1);
            }
            break;
        }
        case 'P': { int n = (int)ch.of(vector<int>{0, 1, 2, 255}); put((uint64_t)n, 1); for (int i = 0; i < n; i++) put(V[(i * 5 + 14) % 18], 8); break; }
        case 'S': { int n = (int)ch.of(vector<int>{0, 1, 2, 255}); put((uint64_t)n, 1); for (int i = 0; i < 2 * n; i++) put(V[(i * 5 + 14) % 18], 8); break; }
        case 'M': put(ch.of(T), 1); break;
        case 'W': { uint8_t t = ch.of(T); put(t, 1); val(isz(t)); break; }
        case 'C': { put(ch.of(vector<int>{0, 256}), 2); uint8_t t = ch.of(T); put(t, 1); val(isz(t)); break; }
        case 'R': { uint8_t t = ch.of(T); put(t, 1); val(isz(t)); val(isz(t)); break; }
        case 'E': { uint8_t t = ch.of(T); int n = (int)ch.of(vector<int>{0, 1, 2, 300}); put(t, 1); put((uint64_t)n, 2); for (int i = 0; i < n; i++) put(V[(i * 5 + 3) % 18], isz(t)); break; }
    }
    b.push_back(0x10); put(1, 2);
    if (!ctx.begin("program " + hex(b).substr(0, 200))) return;
    check(ctx, assemble(b), false);
}
static void damage(Chooser& ch, Ctx& ctx) {
    const auto& A = gen::atoms(); const auto& a = A[ch.pick((uint32_t)A.size())]; int part = (int)ch.pick(4);
    Prep x; a.add(x.s, x.s.body, "f"); x.text = print(x.s);
    if (!ctx.begin(x.text + fmt("// image damaged, part %d", part))) return;
    if (!prepare(x, ctx)) return;
    if (part == 0) for (size_t k = 0; k <= x.il.size(); k++) if (!check(ctx, x.il.substr(0, k), k == x.il.size(), fmt("cut to %zu bytes", k))) return;
    static const vector<int> few = {0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xFF};
    for (size_t k = (size_t)part; k < x.il.size(); k += 4) {
        if (ctx.thorough) for (int v = 1; v < 256; v++) { string il = x.il; il[k] = (char)(il[k] ^ v); if (!check(ctx, il, false, fmt("byte %zu xor %02X", k, v))) return; }
        else for (int v : few) { string il = x.il; il[k] = (char)(il[k] ^ v); if (!check(ctx, il, false, fmt("byte %zu xor %02X", k, v))) return; }
        // a byte missing, a byte too many
        string il = x.il; il.erase(k, 1); if (!check(ctx, il, false, fmt("byte %zu removed", k))) return;
        il = x.il; il.insert(k, 1, '\xFF'); if (!check(ctx, il, false, fmt("byte FF before byte %zu", k))) return;
    }
}
// Files that are no images: every header over boundary values, and a few sizes
static void headers(Chooser& ch, Ctx& ctx) {
    static const vector<uint32_t> O = {0, 1, 15, 16, 17, 19, 20, 21, 24, 30, 31, 32, 33, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF};
    uint32_t cnt = ch.of(vector<uint32_t>{0, 1, 2, 3, 4, 255, 65535}), so = ch.of(O), bo = ch.of(O); int ver = (int)ch.of(vector<int>{1, 0, 2, 255});
    if (!ctx.begin(fmt("header: %u names at %u, code at %u, version %d", cnt, so, bo, ver))) return;
    string s("CNDIL", 5); s += (char)ver;
    auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> 8 * i); };
    put(cnt, 2); put(so, 4); put(bo, 4);
    s += string("ab\0\0cd\0", 7); s += string("\x10\0\0\x05\x01\0\x34\1\0\3\0\0\0\x38", 14); // 37 bytes
    check(ctx, s, false);
    check(ctx, s.substr(0, 32), false);
}
// Images that are larger than any buffer: many names, long names, long programs
static void large(Chooser& ch, Ctx& ctx) {
    int kind = (int)ch.pick(3); uint32_t n = ch.of(vector<uint32_t>{1, 100, 254, 255, 256, 257, 1000, 4000, 5000, 20000});
    if (!ctx.begin(fmt("large image, kind %d, %u", kind, n))) return;
    if (kind == 0) { Bytes b; for (uint32_t i = 0; i < n; i++) { b.push_back(0x11); b.push_back((uint8_t)i); b.push_back((uint8_t)(i >> 8)); } check(ctx, assemble(b, (int)n), false); }
    else if (kind == 1) { Prep x; x.text = "packet P { uint8 " + string(std::min(n, 200u), 'x') + "; uint16 y[2]"; for (uint32_t i = 0; i < n / 20; i++) x.text += fmt("; uint8 f%u", i); x.text += "; }"; if (prepare(x, ctx)) check(ctx, x.il, true); }
    else { Bytes b = {0x4B, 0x11, (uint8_t)n, (uint8_t)(n >> 8)}; for (uint32_t i = 0; i < n; i++) { b.push_back((uint8_t)i); b.push_back((uint8_t)(i >> 8)); } check(ctx, assemble(b), false); }
}
int main(int argc, char** argv) {
    bool th = is_thorough(argc, argv);
    vector<mc::Family> F;
    F.push_back({"single", [](Chooser& c, Ctx& x) { Prep p; if (pick_sequence(c, 1, 3, p.s)) { go(p, x); x.sample(p.text); } }});
    F.push_back({"pairs", [](Chooser& c, Ctx& x) { Prep p; if (pick_sequence(c, 2, 3, p.s)) go(p, x); }});
    F.push_back({"nest1", [](Chooser& c, Ctx& x) { Prep p; if (pick_nested(c, 1, p.s)) go(p, x); }});
    F.push_back({"nest2", [](Chooser& c, Ctx& x) { Prep p; if (pick_nested(c, 2, p.s)) go(p, x); }});
    F.push_back({"instructions", instructions});
    F.push_back({"damage", damage});
    F.push_back({"headers", headers});
    F.push_back({"large", large});
    F.push_back({"very many", [](Chooser& c, Ctx& x) { Prep p; string note; if (!pick_many(c, x.thorough, p.s, note)) return; p.text = print(p.s); if (x.begin(note + p.text.substr(0, 2000)) && prepare(p, x)) check(x, p.il, true); }});
    F.push_back({"long branches", [](Chooser& c, Ctx& x) { Prep p; vector<uint64_t> v; if (!pick_long_branch(c, x, p.s, v)) return; go(p, x); }});
    F.push_back({"padding", [](Chooser& c, Ctx& x) { Prep p; if (pick_padding(c, x.thorough, p.s) && (x.thorough || p.s.body.size() % 3 == 1)) go(p, x); }});
    if (th) { F.push_back({"nest3", [](Chooser& c, Ctx& x) { Prep p; if (pick_nested(c, 3, p.s)) go(p, x); }}); F.push_back({"triples", [](Chooser& c, Ctx& x) { Prep p; if (pick_sequence(c, 3, 1, p.s)) go(p, x); }}); }
    return mc::main_driver(argc, argv, {"C22", "The listing of every image of the families below is compared line by line with an independent disassembler; damaged images must end without a report of the sanitizer, and be listed right where they still are programs.", {"the form of the lines is the one of the tool: offset, name, operands", "memory behind the end of the file is poisoned"}, 60}, F);
}
