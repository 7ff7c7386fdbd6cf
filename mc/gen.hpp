// Schema atoms: small groups of fields that cover the constructs of the language, to be put together exhaustively.
#pragma once
#include "ref.hpp"
namespace gen {
using namespace ref;
struct Atom { const char* name; void (*add)(Schema&, Nodes&, const std::string&); int flags; };
enum { LAST = 1, BITS = 2, FLAT = 4, ELEM = 8, OPT = 16, VALID = 32, FLOATY = 64 };
// LAST: only as the last field. BITS: bit fields. ELEM: one field, usable as an array element. VALID: has checks
const std::vector<Atom>& atoms();
const Atom& atom(const std::string& name);
Node f(Ty t, const std::string& name, int bits = 0);
Node arr(Node n, Arr a, uint32_t k = 0, const std::string& ref = "", int prew = 1);
Node str(const std::string& name, int kind, int max = 255);
Node strct(Schema& s, const std::string& name, Nodes body, bool unaligned = false);
Node en(Schema& s, const std::string& name, Ty under, std::vector<int64_t> vals, bool expl = true);
Node crcf(const std::string& name, int width);
std::string run_str(const Run& r);
}
