// Documents: what the command line tools must read and write for a record of the reference model
#pragma once
#include "common.hpp"
namespace js {
struct J { // expected
    enum K { OBJ, ARR, UINT, INT, F32V, F64V, BOOLV, TEXT, LOOSE } k = OBJ; // LOOSE: computed integer, right modulo 2^(8*size)
    uint64_t bits = 0; int size = 8, width = 0, maxlen = 0, arr_op = 0; bool tol = false, asked = true, u8 = false; string s;
    vector<std::pair<string, J>> m;
};
inline string last_part(const string& k) { size_t d = k.rfind('.'); return d == string::npos ? k : k.substr(d + 1); }
inline J document(const vector<Ev>& ev) {
    J root; vector<J*> st = {&root};
    auto add = [&](const Ev& e, J j) -> J* { st.back()->m.push_back({st.back()->k == J::ARR ? "" : last_part(e.key), std::move(j)}); return &st.back()->m.back().second; };
    for (auto& e : ev) {
        J j;
        switch (e.op) {
            case OP_ENTER_STRUCT: st.push_back(add(e, j)); break;
            case OP_EXIT_STRUCT: st.pop_back(); break;
            case OP_ARR_END: st.pop_back(); break;
            case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_DYNAMIC: case OP_ARR_EOF:
                j.k = J::ARR; j.arr_op = e.op; st.push_back(add(e, j)); break;
            case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: j.k = J::TEXT; j.s = e.s; j.maxlen = e.maxlen; add(e, j); break;
            case OP_STORE_CTX:
                j.asked = false; j.tol = e.flt; j.bits = e.bits; j.size = e.size; j.k = e.flt ? J::F64V : J::LOOSE; add(e, j); break;
            default: {
                int s = e.size * 8; j.bits = e.bits; j.size = e.size; j.tol = e.tol; j.width = e.width; j.asked = !e.silent_enc; j.u8 = e.op == OP_IO_U8;
                switch (e.op) {
                    case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64: case OP_IO_BIT_U: j.k = J::UINT; break;
                    case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64: case OP_IO_BIT_I: j.k = J::INT; if (s < 64) j.bits = (uint64_t)((int64_t)(j.bits << (64 - s)) >> (64 - s)); break;
                    case OP_IO_BOOL: case OP_IO_BIT_BOOL: j.k = J::BOOLV; break;
                    case OP_IO_F32: j.k = J::F32V; break;
                    case OP_IO_F64: j.k = J::F64V; break;
                    default: continue;
                }
                add(e, j);
            }
        }
    }
    return root;
}
inline string quote(const string& s) {
    string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32) r += fmt("\\u%04x", c); else r += (char)c; }
    return r + "\"";
}
struct Style { bool reverse = false, hex = false, spaces = false, skip_unasked = false; const J* at = nullptr; string with; };
inline string leaf(const J& j) {
    switch (j.k) {
        case J::UINT: case J::LOOSE: return fmt("%llu", (unsigned long long)j.bits);
        case J::INT: return fmt("%lld", (long long)j.bits);
        case J::BOOLV: return j.bits ? "true" : "false";
        case J::TEXT: return quote(j.s);
        case J::F32V: { float f = as_float((uint32_t)j.bits); if (std::isnan(f)) return fmt("\"NaN(%X)\"", (uint32_t)j.bits); if (std::isinf(f)) return f < 0 ? "\"-Infinity\"" : "\"Infinity\""; return fmt("%.9g", (double)f) == "-0" ? "-0.0" : fmt("%.9g", (double)f); }
        default: { double f = as_double(j.bits); if (std::isnan(f)) return fmt("\"NaN(%llX)\"", (unsigned long long)j.bits); if (std::isinf(f)) return f < 0 ? "\"-Infinity\"" : "\"Infinity\""; return fmt("%.17g", f) == "-0" ? "-0.0" : fmt("%.17g", f); }
    }
}
inline bool hexable(const J& j) { if (j.k != J::ARR || j.m.empty()) return false; for (auto& e : j.m) if (!e.second.u8 || e.second.k != J::UINT) return false; return true; }
inline string hex_of(const J& j, bool lower = false) { string r; for (auto& e : j.m) r += fmt(lower ? "%02x" : "%02X", (unsigned)e.second.bits); return r; }
inline string print(const J& j, const Style& st) {
    if (st.at == &j) return st.with;
    string nl = st.spaces ? "\n\t " : "";
    if (j.k == J::OBJ) {
        string r;
        auto put = [&](const std::pair<string, J>& e) { if (st.skip_unasked && !e.second.asked) return; if (!r.empty()) r += ","; r += nl + quote(e.first) + (st.spaces ? " :\r\n" : ":") + print(e.second, st); };
        if (st.reverse) for (size_t i = j.m.size(); i-- > 0;) put(j.m[i]); else for (auto& e : j.m) put(e);
        return "{" + r + nl + "}";
    }
    if (j.k == J::ARR) {
        if (st.hex && hexable(j)) return "\"" + hex_of(j, st.reverse) + "\"";
        string r;
        for (auto& e : j.m) { if (!r.empty()) r += ","; r += nl + print(e.second, st); }
        return "[" + r + nl + "]";
    }
    return leaf(j);
}
// ---- reading ----
struct P { char k = 0; string s; vector<std::pair<string, P>> m; }; // o a n(umber) s t f z(null)
struct Reader {
    const string& t; size_t i = 0; bool bad = false;
    explicit Reader(const string& x) : t(x) {}
    void ws() { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) i++; }
    string str() {
        string r; i++;
        while (i < t.size() && t[i] != '"') {
            if ((unsigned char)t[i] < 32) { bad = true; return r; }
            if (t[i] == '\\') {
                i++; char c = i < t.size() ? t[i] : 0; i++;
                static const char* a = "\"\\/bfnrt"; static const char* b = "\"\\/\b\f\n\r\t";
                const char* q = c ? strchr(a, c) : nullptr;
                if (q) r += b[q - a];
                else if (c == 'u' && i + 4 <= t.size()) { unsigned v = (unsigned)strtoul(t.substr(i, 4).c_str(), nullptr, 16); i += 4; if (v < 0x80) r += (char)v; else if (v < 0x800) { r += (char)(0xC0 | v >> 6); r += (char)(0x80 | (v & 63)); } else { r += (char)(0xE0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); } }
                else { bad = true; return r; }
            } else r += t[i++];
        }
        if (i >= t.size()) bad = true; else i++;
        return r;
    }
    P val(int depth = 0) {
        P p; ws();
        if (bad || i >= t.size() || depth > 300) { bad = true; return p; }
        char c = t[i];
        if (c == '{' || c == '[') {
            p.k = c == '{' ? 'o' : 'a'; i++; ws(); char end = c == '{' ? '}' : ']';
            if (i < t.size() && t[i] == end) { i++; return p; }
            while (!bad) {
                string k; ws();
                if (c == '{') { if (i >= t.size() || t[i] != '"') { bad = true; break; } k = str(); ws(); if (i >= t.size() || t[i++] != ':') { bad = true; break; } }
                p.m.push_back({k, val(depth + 1)}); ws();
                if (i >= t.size()) { bad = true; break; }
                if (t[i] == end) { i++; break; }
                if (t[i++] != ',') bad = true;
            }
            return p;
        }
        if (c == '"') { p.k = 's'; p.s = str(); return p; }
        for (auto w : {"true", "false", "null"}) if (t.compare(i, strlen(w), w) == 0) { p.k = w[0] == 'n' ? 'z' : w[0]; i += strlen(w); return p; }
        size_t n = i; if (n < t.size() && t[n] == '-') n++;
        size_t d0 = n; while (n < t.size() && isdigit((unsigned char)t[n])) n++;
        if (n == d0 || (t[d0] == '0' && n > d0 + 1)) { bad = true; return p; }
        if (n < t.size() && t[n] == '.') { size_t f = ++n; while (n < t.size() && isdigit((unsigned char)t[n])) n++; if (n == f) bad = true; }
        if (n < t.size() && (t[n] == 'e' || t[n] == 'E')) { n++; if (n < t.size() && (t[n] == '+' || t[n] == '-')) n++; size_t f = n; while (n < t.size() && isdigit((unsigned char)t[n])) n++; if (n == f) bad = true; }
        p.k = 'n'; p.s = t.substr(i, n - i); i = n;
        return p;
    }
    bool all(P& p) { p = val(); ws(); return !bad && i == t.size(); }
};
inline bool int_of(const P& p, uint64_t& v, bool& neg) {
    if (p.k != 'n' || p.s.find_first_not_of("-0123456789") != string::npos) return false;
    neg = p.s[0] == '-'; v = 0;
    for (char c : p.s) if (c != '-') { if (v > (~0ull - (uint64_t)(c - '0')) / 10) return false; v = v * 10 + (uint64_t)(c - '0'); }
    return true;
}
// Empty: equal
inline string differ(const J& j, const P& p, bool hexmode, const string& path = "") {
    auto bad = [&](const string& w) { return fmt("%s: %s (got %c %s)", path.empty() ? "document" : path.c_str(), w.c_str(), p.k ? p.k : '?', p.s.c_str()); };
    switch (j.k) {
        case J::OBJ: {
            if (p.k != 'o') return bad("expected an object");
            if (p.m.size() != j.m.size()) return bad(fmt("expected %zu members, got %zu", j.m.size(), p.m.size()));
            vector<bool> used(p.m.size());
            for (size_t i = 0; i < j.m.size(); i++) {
                size_t f = p.m.size();
                for (size_t q = 0; q < p.m.size(); q++) { size_t c = (i + q) % p.m.size(); if (!used[c] && p.m[c].first == j.m[i].first) { f = c; break; } }
                if (f == p.m.size()) return bad("no member " + j.m[i].first);
                used[f] = true;
                string d = differ(j.m[i].second, p.m[f].second, hexmode, path + "." + j.m[i].first);
                if (!d.empty()) return d;
            }
            return "";
        }
        case J::ARR: {
            bool str_ok = hexmode && (j.m.empty() || hexable(j));
            if (p.k == 's' && str_ok) return p.s == hex_of(j) ? "" : bad("wrong hex digits");
            if (p.k != 'a') return bad("expected an array");
            if (hexmode && hexable(j)) return bad("expected hex digits");
            if (p.m.size() != j.m.size()) return bad(fmt("expected %zu elements, got %zu", j.m.size(), p.m.size()));
            for (size_t i = 0; i < j.m.size(); i++) { string d = differ(j.m[i].second, p.m[i].second, hexmode, path + fmt("[%zu]", i)); if (!d.empty()) return d; }
            return "";
        }
        case J::TEXT: return p.k == 's' && p.s == j.s ? "" : bad("expected text " + quote(j.s));
        case J::BOOLV: return p.k == (j.bits ? 't' : 'f') ? "" : bad(j.bits ? "expected true" : "expected false");
        case J::UINT: case J::INT: case J::LOOSE: {
            uint64_t v; bool neg;
            if (j.k == J::LOOSE) {
                if (p.k == 't' || p.k == 'f') return (j.bits != 0) == (p.k == 't') ? "" : bad("wrong computed value");
                if (!int_of(p, v, neg)) return bad("expected an integer");
                if (neg) v = 0 - v;
                uint64_t m = j.size >= 8 ? ~0ull : (1ull << 8 * j.size) - 1;
                return (v & m) == (j.bits & m) ? "" : bad(fmt("expected computed %llu", (unsigned long long)j.bits));
            }
            bool eneg = j.k == J::INT && (int64_t)j.bits < 0; uint64_t mag = eneg ? 0 - j.bits : j.bits;
            return int_of(p, v, neg) && v == mag && (neg == eneg || v == 0) ? "" : bad("expected " + leaf(j));
        }
        default: {
            bool f32 = j.k == J::F32V; double want = f32 ? (double)as_float((uint32_t)j.bits) : as_double(j.bits);
            if (!std::isfinite(want)) {
                string w = leaf(j); w = w.substr(1, w.size() - 2);
                bool plain = std::isnan(want) && p.k == 's' && p.s == "NaN" && (f32 ? j.bits == 0x7FC00000u : j.bits == 0x7FF8000000000000ull);
                return plain || (p.k == 's' && p.s == w) || j.tol ? "" : bad("expected " + w);
            }
            if (p.k != 'n') return bad("expected a number");
            if (j.tol) { double got = strtod(p.s.c_str(), nullptr); return fabs(got - want) <= 1e-6 * (1 + fabs(want)) ? "" : bad("expected about " + leaf(j)); }
            bool same = f32 ? f_bits(strtof(p.s.c_str(), nullptr)) == (uint32_t)j.bits : d_bits(strtod(p.s.c_str(), nullptr)) == j.bits;
            return same ? "" : bad("expected " + leaf(j));
        }
    }
}
}
