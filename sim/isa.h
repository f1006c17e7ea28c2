// The T86 instruction set as the manual defines it: syntax tree, printer and a sequential
// reference machine. Shares no code with the repository.
#pragma once
#include <cmath>
#include <cstdint>
#include <optional>
#include <string>
#include <vector>
#include "core.h"

namespace isa {

enum class Op {
    NOP, MOV, LEA, ADD, SUB, MUL, DIV, IMUL, IDIV, AND, OR, XOR, LSH, RSH, INC, DEC, NEG, NOT,
    CMP, FADD, FSUB, FMUL, FDIV, FCMP, EXT, NRW,
    JMP, LOOP, JZ, JNZ, JE, JNE, JG, JGE, JL, JLE, JA, JAE, JB, JBE, JO, JNO, JS, JNS,
    CALL, RET, PUSH, FPUSH, POP, FPOP, PUTCHAR, PUTNUM, GETCHAR, HALT, BKPT, BREAK
};
const char* name(Op);
inline bool isCondJump(Op o) { return o >= Op::JZ && o <= Op::JNS; }
inline bool isJump(Op o) { return (o >= Op::JMP && o <= Op::CALL) || o == Op::RET; }

constexpr int SP = 1000, BP = 1001, IP = 1002;

enum class K { None, Reg, FReg, Imm, FImm, RegOff, MemImm, MemReg, MemRegOff, MemRegScaled, MemRegReg,
               MemRegOffReg, MemRegRegScaled, MemRegOffRegScaled };

struct Opnd {
    K k = K::None;
    int r1 = 0, r2 = 0;
    int64_t i1 = 0, i2 = 0;
    double f = 0;
    std::string ftext;     // how the float literal is written
    int label = -1;        // i1 is the address of this label, filled in at layout
    bool isMem() const { return k >= K::MemImm; }
    static Opnd reg(int r) { Opnd o; o.k = K::Reg; o.r1 = r; return o; }
    static Opnd freg(int r) { Opnd o; o.k = K::FReg; o.r1 = r; return o; }
    static Opnd imm(int64_t i) { Opnd o; o.k = K::Imm; o.i1 = i; return o; }
    static Opnd fimm(double f, std::string t) { Opnd o; o.k = K::FImm; o.f = f; o.ftext = std::move(t); return o; }
    static Opnd lab(int l) { Opnd o; o.k = K::Imm; o.label = l; return o; }
    static Opnd regoff(int r, int64_t i) { Opnd o; o.k = K::RegOff; o.r1 = r; o.i1 = i; return o; }
    static Opnd memimm(int64_t i) { Opnd o; o.k = K::MemImm; o.i1 = i; return o; }
    static Opnd memreg(int r) { Opnd o; o.k = K::MemReg; o.r1 = r; return o; }
    static Opnd memregoff(int r, int64_t i) { Opnd o; o.k = K::MemRegOff; o.r1 = r; o.i1 = i; return o; }
};

struct Ins {
    Op op = Op::NOP;
    Opnd a, b;
    int line = -1;         // source line (source-level scenarios)
};

std::string text(const Ins&);

struct Program {
    std::vector<Ins> text;
    std::vector<int64_t> data;
    std::string source() const;    // assembler text
};

enum class Step { Ok, Halt, Fault, Bkpt };

// What one executed instruction did (for watchpoints and I/O).
struct Effect {
    std::vector<uint64_t> writes;
    bool wroteOutput = false, readInput = false;
};

struct Machine {
    std::vector<int64_t> R;
    std::vector<uint64_t> F;       // bit patterns
    int64_t sp = 0, bp = 0;
    uint64_t ip = 0;
    int flags = 0;
    std::vector<int64_t> mem;
    std::string out;
    std::string in;
    size_t inpos = 0;
    bool nan = false;              // a float operation produced a NaN: bit pattern unspecified
    bool bkptTraps = false;        // BKPT reports Step::Bkpt (debugger attached)
    Machine(size_t nr, size_t nf, size_t ram) : R(nr), F(nf), sp(ram), bp(ram), mem(ram) {}
    void load(const Program& p) { for (size_t i = 0; i < p.data.size(); ++i) mem.at(i) = p.data[i]; }
    // Executes the instruction at ip. On Fault nothing changes.
    Step step(const std::vector<Ins>& text, Effect* e = nullptr);
    double getF(int i) const { double d; memcpy(&d, &F[i], 8); return d; }
};
}
