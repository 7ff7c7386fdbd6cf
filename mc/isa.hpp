// Independent description of the instruction set: what a program is, written from the opcode documentation.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "mc.hpp"
namespace isa {
struct Shape { uint8_t op; const char* name; const char* operands; };
// operands: k key, 1 2 4 8 bytes of that size, b bit count 1..64, j jump, t table, T IO type, and shapes that depend on operands:
// P polynomial, S spline, W constant of type, C key and constant of type, R two of type, E enum list, M emit type
const std::vector<Shape>& shapes();
const Shape* shape(uint8_t op);
struct Ins { size_t off = 0, len = 0; uint8_t op = 0; std::vector<size_t> keys; std::vector<int64_t> targets; size_t tab = 0, tab_len = 0; bool jump = false; };
struct Prog {
    bool ok = false;                 // every instruction is defined and lies inside, every target is an instruction start or the end
    bool gray = false;               // a form that the documents leave open
    std::string why;
    std::vector<Ins> ins; bool backward = false, stray_end = false;
};
Prog parse(const std::vector<uint8_t>& b);
}
