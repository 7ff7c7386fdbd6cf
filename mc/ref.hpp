// Reference model of the schema language: abstract syntax, printer, and an interpreter that says, for a schema and
// a record (or for a schema and bytes), which bytes are on the wire and what the host sees. Written from the
// language documents, independent of compiler and VM.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "mc.hpp"

namespace ref {

enum Ty { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, BOOL, STR, ENUM, STRUCT };
const char* ty_name(Ty);
const char* ty_alias(Ty, int style);
inline bool is_int(Ty t) { return t <= I64; }
inline bool is_signed(Ty t) { return t >= I8 && t <= I64; }
inline bool is_float(Ty t) { return t == F32 || t == F64; }
int ty_size(Ty);
uint64_t ty_max(Ty);                 // as unsigned or signed maximum
int64_t ty_min(Ty);
int ty_op(Ty);                       // IO opcode

struct Expr;
using EP = std::shared_ptr<Expr>;
struct Expr {
    enum K { INT, FLT, BOOLEAN, REF, UN, BIN, FN } k = INT;
    std::string s;                   // literal text, reference, operator or function name
    uint64_t i = 0; double f = 0;
    std::vector<EP> a;
};
EP e_int(uint64_t v); EP e_lit(const std::string& text, uint64_t v); EP e_flt(const std::string& text, double v); EP e_bool(bool);
EP e_ref(const std::string&); EP e_un(const std::string& op, EP); EP e_bin(const std::string& op, EP, EP); EP e_fn(const std::string&, std::vector<EP>);
std::string print_expr(const EP&, bool minimal = true); // minimal: parentheses only where needed
int e_stack(const EP&);              // stack slots needed

struct Node;
using Nodes = std::vector<Node>;
enum Arr { A_NONE, A_FIX, A_COUNT, A_PRE, A_DYN, A_EOF }; // A_COUNT: fixed by @count(n)
enum Tr { T_NONE, T_SCALE, T_OFFSET, T_SCALEOFF, T_ADD, T_SUB, T_MUL, T_DIV, T_POLY, T_SPLINE };

struct Node {
    enum K { FIELD, SWITCH, IF, PAD, FILL } k = FIELD;
    Ty ty = U8; std::string name, tname;
    int bits = 0;
    int endian = -1;                 // -1 inherited, 0 little, 1 big
    Arr arr = A_NONE; uint32_t n = 0; int prew = 1; std::string ref;
    int strk = 0;                    // 0 max, 1 until 0, 2/3/4 prefix 8/16/32, 5 until and max
    int maxlen = 255; bool show_max = false;
    bool has_const = false; uint64_t cval = 0; std::string ctext;
    bool has_range = false; std::string rlo, rhi; uint64_t rl = 0, rh = 0; double fl = 0, fh = 0;
    bool optional = false;
    Tr tr = T_NONE; std::vector<double> tf; std::vector<std::string> tft; int64_t ti = 0;
    int crc = 0; std::string crc_deco; uint32_t cpoly = 0, cinit = 0, cxor = 0; bool crefin = false, crefout = false;
    EP expr;
    std::vector<std::string> labels; std::vector<uint64_t> lvals; Nodes body0; // see below
    std::vector<Nodes> bodies; int def = -1; bool braces = true; // SWITCH: bodies[i] has lvals[i]; bodies[def] is the default (its label is ignored)
    std::vector<EP> conds; std::vector<Nodes> blocks;            // IF: blocks.size() is conds.size() or one more
    int val = 0;                     // PAD bits, FILL bit
    std::string extra_deco;
};
struct Enum { std::string name; Ty under = U32; bool expl = true; std::vector<std::pair<std::string, uint64_t>> m; std::vector<bool> implicit; };
struct Struct { std::string name; bool unaligned = false; Nodes f; };
enum Spelling { SP_ALIAS = 1, SP_BYTE = 2, SP_DECO = 4, SP_REVERSE = 8, SP_HEX = 16, SP_LAYOUT = 32, SP_ROTATE = 64, SP_ALL = 63 }; // other names of types, of uint8, of decorators; order of decorators; notation of numbers; comments and line ends
struct Schema {
    int version = -1, file_endian = -1; bool endian_after = false; // endian_after: decorator between structs and packet
    int style = 0; // spelling, see Spelling
    std::vector<Enum> enums; std::vector<Struct> structs;
    std::string packet = "P"; Nodes body; std::string alias;
    const Enum* find_enum(const std::string&) const; const Struct* find_struct(const std::string&) const;
};
std::string print(const Schema&);
std::string print_nodes(const Schema&, const Nodes&, int indent = 1);

struct Ev {
    uint8_t op = 0; std::string key; bool keyed = true;
    enum K { NONE, NUM, TEXT, CNT } k = NONE;
    uint64_t bits = 0; int size = 0; std::string s;
    bool silent_enc = false;         // the host is not asked when encoding
    bool maybe = false;              // may or may not be delivered (its own check fails)
    bool flt = false, tol = false;   // floating value; compared with tolerance
    bool ctxflt = false; uint64_t ctxv = 0; bool has_ctx = false; // what a reference to it evaluates to
    bool missing = false; int strk = 0; int width = 0, maxlen = 0; // bits; longest text
    bool partial = false; size_t wire_pos = 0;             // bytes complete before this event (for error injection)
    std::string str() const;
};

struct Gen {
    virtual ~Gen() {}
    virtual uint64_t raw(const Node& n, Ty ty, int bits) = 0; // raw wire bits of a scalar
    virtual std::string text(const Node& n) = 0;
    virtual uint32_t count(const Node& n) = 0;
};

struct Run {
    std::vector<Ev> ev;
    std::vector<uint8_t> bytes;      // encode: produced (up to the error). decode: input
    size_t consumed = 0;
    int err = 0;
    bool unspecified = false;        // the documents do not say; do not judge
    size_t min_len = 0;              // encode: bytes that must be there for a decode to succeed
};

struct Opts { uint32_t max_elems = 1u << 20; };

Run encode(const Schema&, Gen&);
Run decode(const Schema&, const std::vector<uint8_t>&);

uint32_t crc(const uint8_t* p, size_t n, int width, uint32_t poly, uint32_t init, uint32_t xorout, bool refin, bool refout);

// Draws from small value domains. The first `budget` draws branch, later ones are fixed (varying with position).
struct DomGen : Gen {
    mc::Chooser& ch; const Schema& s; int budget; bool invalid; int drawn = 0; uint32_t max_count = 3; int width; size_t longtext = 300;
    DomGen(mc::Chooser& c, const Schema& sc, int b, bool inv = false, int w = 3) : ch(c), s(sc), budget(b), invalid(inv), width(w) {}
    uint64_t raw(const Node& n, Ty ty, int bits) override;
    std::string text(const Node& n) override;
    uint32_t count(const Node& n) override;
    uint32_t choose(uint32_t n);
};

double as_double(uint64_t bits);
uint64_t d_bits(double);
uint32_t f_bits(float);
float as_float(uint32_t);
bool is_char_array(const Node&);

} // namespace ref
