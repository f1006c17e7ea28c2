// Seeded generator of T86 programs.
#pragma once
#include "isa.h"

namespace gen {
struct Profile {
    // weights of building blocks
    uint32_t alu = 10, mem = 8, stack = 4, flt = 4, io = 2, input = 0, cmpjump = 5, loop = 3, call = 3, indirect = 2,
             dead = 2, lea = 2, spbp = 1, bkpt = 0, fault = 0, retjump = 1, storm = 1, edge = 0;
    uint32_t minItems = 3, maxItems = 14, depth = 2, functions = 2;
    int cells = 6;                 // aliased low memory cells
    bool deadFaults = true;        // never-executed code contains faults, halts, I/O
    bool frames = false;           // functions keep the base pointer convention, no stray stack use
    bool recursion = false;
    bool lines = false;            // number source lines
    bool haltFault = false;        // may end in a fault instead of HALT
    bool floatImmTiny = true;
    bool unusualRegs = true;       // SP/BP/IP as plain operands
};

struct Machine { size_t nreg, nfreg, ram; };

isa::Program generate(sim::Choices& ch, const Profile& p, const Machine& m);

// Draws programs until one halts or faults within maxSteps; returns its reference run length.
// The last attempt falls back to a straight-line program.
isa::Program generateTerminating(sim::Choices& ch, const Profile& p, const Machine& m, const std::string& input,
                                 size_t maxSteps, size_t* steps = nullptr);
}
