#include "gen.h"

namespace gen {
using namespace isa;
using sim::Choices;
using sim::S_PROG;

namespace {
struct G {
    Choices& ch;
    const Profile& p;
    Machine m;
    std::vector<Ins> code;
    std::vector<int64_t> labels;          // label -> address
    std::vector<int> funcLabel;
    int curFunc = -1;                     // -1: main
    int line = 0;
    int dead = 0;

    uint32_t c(uint32_t n) { return ch.choose(S_PROG, n); }
    bool pr(uint32_t n, uint32_t d) { return ch.chance(S_PROG, n, d); }
    int newLabel() { labels.push_back(-1); return (int)labels.size() - 1; }
    void place(int l) { labels[l] = (int64_t)code.size(); }
    void emit(Op op, Opnd a = {}, Opnd b = {}) {
        Ins i; i.op = op; i.a = a; i.b = b; i.line = line;
        code.push_back(i);
        if (p.lines && pr(2, 3)) ++line;
    }
    int nData() const { return (int)m.nreg - 2; }
    int reg() { return (int)c(nData()); }
    int anyReg() {
        if (p.unusualRegs && pr(1, 12)) { static const int s[] = {SP, BP, IP}; return s[c(3)]; }
        if (pr(1, 6)) return (int)c((uint32_t)m.nreg);
        return reg();
    }
    int freg() { return (int)c((uint32_t)m.nfreg); }
    int64_t smallAddr() { return c(p.cells); }
    int64_t immv() {
        switch (ch.weighted(S_PROG, {6, 3, 2, 1})) {
        case 0: return (int64_t)c(8);
        case 1: return (int64_t)c(200) - 100;
        case 2: { static const int64_t v[] = {0, 1, -1, 2147483647, -2147483647, 65536, 255, 1023}; return v[c(8)]; }
        default: return (int64_t)(int32_t)(c(65536) * 65536u + c(65536)) / 2;
        }
    }
    Opnd fimm() {
        static const std::pair<double, const char*> v[] = {{0.0, "0.0"}, {1.0, "1.0"}, {1.5, "1.5"}, {0.25, "0.25"}, {2.0, "2.0"},
            {3.0, "3.0"}, {1000000.0, "1000000.0"}, {123456.789, "123456.789"}, {0.1, "0.1"}, {0.5, "0.5"},
            {0.00000001, "0.00000001"}, {0.1234567890123, "0.1234567890123"}};
        auto& x = v[c(p.floatImmTiny ? 12 : 10)];
        return Opnd::fimm(x.first, x.second);
    }
    // A memory operand; `simple` restricts to [i], [R], [R + i]. Emits address set-up code as needed.
    Opnd memop(bool simple, int keep1 = -1, int keep2 = -1) {
        auto fresh = [&](int avoid) {
            int r = reg();
            for (int k = 0; k < 4 && (r == keep1 || r == keep2 || r == avoid); ++k) r = (r + 1) % nData();
            return r;
        };
        switch (ch.weighted(S_PROG, simple ? std::vector<uint32_t>{6, 4, 4, 1} : std::vector<uint32_t>{6, 4, 4, 1, 2, 2, 2, 2, 2})) {
        case 0: return Opnd::memimm(smallAddr());
        case 1: { int r = fresh(-1); emit(Op::MOV, Opnd::reg(r), Opnd::imm(smallAddr())); return Opnd::memreg(r); }
        case 2: {
            int r = fresh(-1); int64_t o = (int64_t)c(5) - 2;
            emit(Op::MOV, Opnd::reg(r), Opnd::imm(smallAddr() + 2));
            return Opnd::memregoff(r, o);
        }
        case 3: return Opnd::memregoff(pr(1, 2) ? SP : BP, -1 - (int64_t)c(4));
        case 4: {
            int r = fresh(-1); Opnd o; o.k = K::MemRegScaled; o.r1 = r; o.i1 = 1 + c(3);
            emit(Op::MOV, Opnd::reg(r), Opnd::imm(smallAddr()));
            return o;
        }
        default: {
            int r = fresh(-1), q = fresh(r);
            emit(Op::MOV, Opnd::reg(r), Opnd::imm(smallAddr() + 2));
            if (q != r) emit(Op::MOV, Opnd::reg(q), Opnd::imm(c(4)));
            Opnd o; o.r1 = r; o.r2 = q;
            switch (c(4)) {
            case 0: o.k = K::MemRegReg; break;
            case 1: o.k = K::MemRegOffReg; o.i1 = (int64_t)c(5) - 2; break;
            case 2: o.k = K::MemRegRegScaled; o.i2 = 1 + c(3); break;
            default: o.k = K::MemRegOffRegScaled; o.i1 = (int64_t)c(5) - 2; o.i2 = 1 + c(3); break;
            }
            return o;
        }
        }
    }
    Op jcc() { return (Op)((int)Op::JZ + (int)c(16)); }

    void alu() {
        static const Op ops[] = {Op::ADD, Op::SUB, Op::MUL, Op::IMUL, Op::AND, Op::OR, Op::XOR, Op::DIV, Op::IDIV, Op::LSH, Op::RSH};
        switch (ch.weighted(S_PROG, {8, 3, 3, 2})) {
        case 0: {
            Op op = ops[c(11)];
            int d = reg();
            Opnd s;
            if (op == Op::DIV || op == Op::IDIV) {
                int64_t v = immv(); if (v == 0) v = 3;
                if (pr(1, 3)) {
                    int q = (d + 1) % nData();
                    if (q == d) s = Opnd::imm(v);
                    else { emit(Op::MOV, Opnd::reg(q), Opnd::imm(v)); s = Opnd::reg(q); }
                } else s = Opnd::imm(v);
            } else if (op == Op::LSH || op == Op::RSH) {
                s = Opnd::imm(1 + c(pr(1, 4) ? 63 : 4));
            } else {
                switch (ch.weighted(S_PROG, {4, 4, 2, 4})) {
                case 0: s = Opnd::imm(immv()); break;
                case 1: s = Opnd::reg(anyReg()); break;
                case 2: s = Opnd::regoff(anyReg(), immv()); break;
                default: s = memop(true, d); break;
                }
            }
            emit(op, Opnd::reg(d), s);
            break;
        }
        case 1: { static const Op u[] = {Op::INC, Op::DEC, Op::NEG, Op::NOT}; emit(u[c(4)], Opnd::reg(reg())); break; }
        case 2: emit(Op::MOV, Opnd::reg(reg()), pr(1, 2) ? Opnd::imm(immv()) : Opnd::reg(anyReg())); break;
        default: emit(Op::CMP, Opnd::reg(anyReg()), pr(1, 2) ? Opnd::imm(immv()) : pr(1, 2) ? Opnd::reg(anyReg()) : memop(true)); break;
        }
    }
    // Registers at the borders of the number range, combined; the flags decide jumps right away.
    void border(int r) {
        switch (c(6)) {
        case 0: emit(Op::MOV, Opnd::reg(r), Opnd::imm((int64_t)c(5) - 2)); return;
        case 1: emit(Op::MOV, Opnd::reg(r), Opnd::imm(immv())); return;
        case 2: emit(Op::MOV, Opnd::reg(r), Opnd::imm(2147483647)); return;
        case 3: emit(Op::MOV, Opnd::reg(r), Opnd::imm(1)); emit(Op::LSH, Opnd::reg(r), Opnd::imm(31 + c(3))); break;
        default: emit(Op::MOV, Opnd::reg(r), Opnd::imm(1)); emit(Op::LSH, Opnd::reg(r), Opnd::imm(62 + c(2))); break;
        }
        static const Op u[] = {Op::NOT, Op::DEC, Op::INC, Op::NEG};
        uint32_t n = c(3);
        for (uint32_t i = 0; i < n; ++i) emit(u[c(4)], Opnd::reg(r));
    }
    void edge() {
        static const Op ops[] = {Op::CMP, Op::SUB, Op::ADD, Op::MUL, Op::IMUL, Op::DIV, Op::AND, Op::RSH, Op::LSH};
        int r = reg(), q = (r + 1) % nData();
        if (q == r) return;
        border(r);
        border(q);
        Op op = ops[c(9)];
        if (op == Op::DIV && pr(9, 10)) emit(Op::OR, Opnd::reg(q), Opnd::imm(1));
        if (op == Op::RSH || op == Op::LSH) emit(op, Opnd::reg(r), Opnd::imm(1 + c(63)));
        else emit(op, Opnd::reg(r), Opnd::reg(q));
        Op j = jcc();
        int l = newLabel();
        emit(j, Opnd::lab(l));
        emit(Op::PUTNUM, Opnd::reg(r));
        place(l);
    }
    void mem() {
        switch (ch.weighted(S_PROG, {5, 5, 2, 2})) {
        case 0: { int v = reg(); auto o = memop(false, v); emit(Op::MOV, o, pr(2, 3) ? Opnd::reg(v) : Opnd::imm(immv())); break; }
        case 1: { auto o = memop(false); emit(Op::MOV, Opnd::reg(reg()), o); break; }
        case 2: {  // store/load of the same cell through two forms
            int64_t a = smallAddr();
            int r = reg(), v = (r + 1) % nData();
            emit(Op::MOV, Opnd::reg(r), Opnd::imm(a));
            emit(Op::MOV, Opnd::memreg(r), pr(1, 2) && v != r ? Opnd::reg(v) : Opnd::imm(immv()));
            emit(Op::MOV, Opnd::reg(v), Opnd::memimm(a));
            break;
        }
        default: { auto o = memop(true); emit(pr(1, 2) ? Op::ADD : Op::XOR, Opnd::reg(reg()), o); break; }
        }
    }
    void storm() {   // several stores in flight to few cells, then loads
        uint32_t n = 2 + c(5);
        for (uint32_t i = 0; i < n; ++i) {
            int v = reg();
            auto o = memop(false, v);
            emit(Op::MOV, o, pr(1, 2) ? Opnd::reg(v) : Opnd::imm(immv()));
        }
        n = 1 + c(3);
        for (uint32_t i = 0; i < n; ++i) emit(Op::MOV, Opnd::reg(reg()), Opnd::memimm(smallAddr()));
    }
    void flt() {
        static const Op ops[] = {Op::FADD, Op::FSUB, Op::FMUL, Op::FDIV, Op::FCMP};
        switch (ch.weighted(S_PROG, {6, 3, 2, 2, 2, 2})) {
        case 0: emit(ops[c(5)], Opnd::freg(freg()), pr(1, 2) ? fimm() : Opnd::freg(freg())); break;
        case 1: emit(Op::MOV, Opnd::freg(freg()), pr(1, 2) ? fimm() : Opnd::freg(freg())); break;
        case 2: emit(Op::EXT, Opnd::freg(freg()), Opnd::reg(anyReg())); break;
        case 3: emit(Op::NRW, Opnd::reg(reg()), Opnd::freg(freg())); break;
        case 4: { auto o = memop(false); emit(Op::MOV, o, Opnd::freg(freg())); break; }
        default:
            switch (c(4)) {
            case 0: emit(Op::MOV, Opnd::reg(reg()), Opnd::freg(freg())); break;
            case 1: emit(Op::MOV, Opnd::freg(freg()), Opnd::memimm(smallAddr())); break;
            case 2: { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::imm(smallAddr())); emit(Op::MOV, Opnd::freg(freg()), Opnd::memreg(r)); break; }
            default: emit(Op::MOV, Opnd::freg(freg()), Opnd::reg(reg())); break;
            }
        }
    }
    void lea() {
        Opnd o; o.r1 = anyReg(); o.r2 = anyReg();
        switch (c(6)) {
        case 0: o.k = K::MemRegOff; o.i1 = immv(); break;
        case 1: o.k = K::MemRegScaled; o.i1 = c(9); break;
        case 2: o.k = K::MemRegReg; break;
        case 3: o.k = K::MemRegOffReg; o.i1 = immv(); break;
        case 4: o.k = K::MemRegRegScaled; o.i2 = c(9); break;
        default: o.k = K::MemRegOffRegScaled; o.i1 = immv(); o.i2 = c(9); break;
        }
        emit(Op::LEA, Opnd::reg(reg()), o);
    }
    void io() {
        if (pr(1, 2)) emit(Op::PUTNUM, Opnd::reg(anyReg()));
        else { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::imm('a' + c(26))); emit(Op::PUTCHAR, Opnd::reg(r)); }
    }
    void fault() {
        switch (c(12)) {
        case 0: emit(Op::MOV, Opnd::reg(reg()), Opnd::memimm((int64_t)m.ram + c(5))); break;
        case 1: emit(Op::MOV, Opnd::memimm((int64_t)m.ram + c(5)), Opnd::reg(reg())); break;
        case 2: { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::imm(-1 - (int64_t)c(3))); emit(Op::MOV, Opnd::memreg(r), Opnd::imm(immv())); break; }
        case 3: { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::imm(-1 - (int64_t)c(3))); emit(Op::ADD, Opnd::reg(reg()), Opnd::memreg(r)); break; }
        case 4: emit(pr(1, 2) ? Op::DIV : Op::IDIV, Opnd::reg(reg()), Opnd::imm(0)); break;
        case 5: { int r = reg(); emit(Op::XOR, Opnd::reg(r), Opnd::reg(r)); emit(pr(1, 2) ? Op::DIV : Op::IDIV, Opnd::reg(reg()), Opnd::reg(r)); break; }
        case 6: emit(Op::MOV, Opnd::reg((int)m.nreg + (int)c(3)), Opnd::imm(immv())); break;
        case 7: emit(Op::ADD, Opnd::reg(reg()), Opnd::reg((int)m.nreg + (int)c(3))); break;
        case 8: emit(pr(1, 2) ? Op::FADD : Op::FCMP, Opnd::freg((int)m.nfreg + (int)c(2)), fimm()); break;
        case 9: emit(Op::MOV, Opnd::reg(SP), Opnd::imm(0)); emit(pr(1, 2) ? Op::PUSH : Op::CALL, Opnd::imm(0)); break;
        case 10: emit(Op::MOV, Opnd::reg(SP), Opnd::imm((int64_t)m.ram)); if (pr(1, 2)) emit(Op::POP, Opnd::reg(reg())); else emit(Op::RET); break;
        default: {
            int r = reg(), q = (r + 1) % nData();
            emit(Op::MOV, Opnd::reg(r), Opnd::imm(1)); emit(Op::LSH, Opnd::reg(r), Opnd::imm(63));
            if (q == r || pr(1, 2)) emit(Op::IDIV, Opnd::reg(r), Opnd::imm(-1));
            else { emit(Op::MOV, Opnd::reg(q), Opnd::imm(-1)); emit(Op::IDIV, Opnd::reg(r), Opnd::reg(q)); }
            break;
        }
        }
    }
    // Code no correct execution reaches.
    void deadCode() {
        ++dead;
        uint32_t n = 1 + c(4);
        for (uint32_t i = 0; i < n; ++i) {
            switch (p.deadFaults ? ch.weighted(S_PROG, {2, 2, 3, 2, 2, 2, 2, 1, 1, 1}) : 0) {
            case 0: alu(); break;
            case 1: mem(); break;
            case 2: fault(); break;
            case 3: emit(Op::HALT); break;
            case 4: io(); break;
            case 5: emit(Op::GETCHAR, Opnd::reg(reg())); break;
            case 6: if (pr(1, 2)) emit(Op::PUSH, Opnd::imm(immv())); else emit(Op::POP, Opnd::reg(reg())); break;
            case 7: emit(Op::RET); break;
            case 9: emit(Op::BKPT); break;
            default: emit(pr(1, 2) ? Op::BREAK : Op::CALL, {}, {}); if (code.back().op == Op::CALL) code.back().a = Opnd::imm(c(12)); break;
            }
        }
        --dead;
    }
    void item(uint32_t depth) {
        bool inFunc = curFunc >= 0;
        std::vector<uint32_t> w = {p.alu, p.mem, p.stack, p.flt, p.io, p.input, p.cmpjump, depth ? p.loop : 0, p.call, p.indirect,
                                   p.dead, p.lea, p.spbp, p.bkpt, p.fault, p.retjump, p.storm, p.edge};
        if (depth == 0) { w[6] = w[6] / 2; w[9] = w[10] = 0; }
        bool canCall = curFunc + 1 < (int)funcLabel.size();
        if (!canCall) w[8] = 0;
        if (p.frames) { w[12] = 0; w[15] = 0; }
        (void)inFunc;
        switch (ch.weighted(S_PROG, w)) {
        case 0: alu(); break;
        case 1: mem(); break;
        case 2: {
            if (depth && (p.frames || pr(1, 2))) {
                bool f = pr(1, 4);
                if (f) emit(Op::FPUSH, pr(1, 2) ? fimm() : Opnd::freg(freg()));
                else emit(Op::PUSH, pr(1, 2) ? Opnd::imm(immv()) : Opnd::reg(anyReg()));
                block(depth - 1, c(3));
                if (f) emit(Op::FPOP, Opnd::freg(freg())); else emit(Op::POP, Opnd::reg(reg()));
            } else if (p.frames) {
                emit(Op::PUSH, Opnd::reg(reg())); emit(Op::POP, Opnd::reg(reg()));
            } else if (pr(3, 5)) emit(Op::PUSH, pr(1, 2) ? Opnd::imm(immv()) : Opnd::reg(anyReg()));
            else { emit(Op::PUSH, Opnd::reg(reg())); emit(Op::POP, Opnd::reg(reg())); }
            break;
        }
        case 3: flt(); break;
        case 4: io(); break;
        case 5: { int r = reg(); emit(Op::GETCHAR, Opnd::reg(r)); if (pr(1, 3)) emit(Op::PUTCHAR, Opnd::reg(r)); break; }
        case 6: {  // if
            if (pr(4, 5)) emit(Op::CMP, Opnd::reg(anyReg()), pr(1, 2) ? Opnd::imm(immv()) : Opnd::reg(anyReg()));
            else if (pr(1, 2)) emit(Op::SUB, Opnd::reg(reg()), Opnd::imm(immv()));
            int l = newLabel();
            switch (ch.weighted(S_PROG, {6, 1, 1, 1})) {
            case 0: emit(jcc(), Opnd::lab(l)); break;
            case 1: { int64_t cell = smallAddr(); emit(Op::MOV, Opnd::memimm(cell), Opnd::lab(l)); emit(jcc(), Opnd::memimm(cell)); break; }
            case 2: { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::lab(l)); emit(jcc(), Opnd::reg(r)); break; }
            default: {
                int64_t cell = smallAddr(); int r = reg();
                emit(Op::MOV, Opnd::memimm(cell), Opnd::lab(l));
                int64_t o = (int64_t)c(3);
                emit(Op::MOV, Opnd::reg(r), Opnd::imm(cell - o));
                emit(jcc(), o ? Opnd::memregoff(r, o) : Opnd::memreg(r));
                break;
            }
            }
            block(depth ? depth - 1 : 0, 1 + c(3));
            if (pr(1, 3)) {  // else branch
                int e = newLabel();
                emit(Op::JMP, Opnd::lab(e));
                place(l);
                block(depth ? depth - 1 : 0, 1 + c(2));
                place(e);
            } else place(l);
            break;
        }
        case 7: {
            int rc = (int)m.nreg - (int)(p.depth - depth) % 2 - 1;
            emit(Op::MOV, Opnd::reg(rc), Opnd::imm(1 + c(4)));
            int l = newLabel();
            place(l);
            block(depth - 1, 1 + c(4));
            switch (ch.weighted(S_PROG, {3, 2, 1})) {
            case 0: emit(Op::LOOP, Opnd::reg(rc), Opnd::lab(l)); break;
            case 1: emit(Op::SUB, Opnd::reg(rc), Opnd::imm(1)); emit(pr(1, 2) ? Op::JNZ : Op::JG, Opnd::lab(l)); break;
            default: { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::lab(l)); emit(Op::LOOP, Opnd::reg(rc), Opnd::reg(r)); break; }
            }
            break;
        }
        case 8: {
            int f = curFunc + 1 + (int)c((uint32_t)((int)funcLabel.size() - curFunc - 1));
            if (!p.frames && pr(1, 4)) { int r = reg(); emit(Op::MOV, Opnd::reg(r), Opnd::lab(funcLabel[f])); emit(Op::CALL, Opnd::reg(r)); }
            else emit(Op::CALL, Opnd::lab(funcLabel[f]));
            break;
        }
        case 9: {
            int l = newLabel(), r = reg();
            emit(Op::MOV, Opnd::reg(r), Opnd::lab(l));
            emit(Op::JMP, Opnd::reg(r));
            deadCode();
            place(l);
            break;
        }
        case 10: { int l = newLabel(); emit(Op::JMP, Opnd::lab(l)); deadCode(); place(l); break; }
        case 11: lea(); break;
        case 12:
            switch (c(4)) {
            case 0: emit(Op::MOV, Opnd::reg(BP), Opnd::reg(SP)); break;
            case 1: emit(Op::SUB, Opnd::reg(SP), Opnd::imm(c(3))); break;
            case 2: emit(Op::ADD, Opnd::reg(BP), Opnd::imm((int64_t)c(3) - 1)); break;
            default: emit(Op::MOV, Opnd::reg(reg()), Opnd::reg(pr(1, 2) ? SP : BP)); break;
            }
            break;
        case 13: emit(pr(1, 2) ? Op::BKPT : Op::BREAK); break;
        case 14: fault(); break;
        case 15: { int l = newLabel(); emit(Op::PUSH, Opnd::lab(l)); emit(Op::RET); deadCode(); place(l); break; }
        case 16: storm(); break;
        default: edge(); break;
        }
    }
    void block(uint32_t depth, uint32_t n) {
        for (uint32_t i = 0; i < n && code.size() < 160; ++i) item(depth);
    }
    void recursive(int label) {
        // f(n): PUSH BP; MOV BP, SP; ... n in reg 0; if n > 0 { n-1; CALL f }; POP BP; RET
        place(label);
        emit(Op::PUSH, Opnd::reg(BP));
        emit(Op::MOV, Opnd::reg(BP), Opnd::reg(SP));
        emit(Op::CMP, Opnd::reg(0), Opnd::imm(0));
        int l = newLabel();
        emit(Op::JLE, Opnd::lab(l));
        emit(Op::SUB, Opnd::reg(0), Opnd::imm(1));
        uint32_t calls = 1 + c(2);
        for (uint32_t i = 0; i < calls; ++i) { emit(Op::PUSH, Opnd::reg(0)); emit(Op::CALL, Opnd::lab(label)); emit(Op::POP, Opnd::reg(0)); }
        place(l);
        emit(Op::POP, Opnd::reg(BP));
        emit(Op::RET);
    }
    isa::Program go() {
        uint32_t nd = c(p.cells + 1);
        isa::Program prog;
        for (uint32_t i = 0; i < nd; ++i) prog.data.push_back(immv());
        uint32_t nf = p.functions ? c(p.functions + 1) : 0;
        for (uint32_t i = 0; i < nf; ++i) funcLabel.push_back(newLabel());
        int rec = -1;
        if (p.recursion && nf && pr(1, 2)) rec = (int)nf - 1;
        uint32_t items = p.minItems + c(p.maxItems - p.minItems + 1);
        block(p.depth, items);
        if (rec >= 0) { emit(Op::MOV, Opnd::reg(0), Opnd::imm(1 + c(3))); emit(Op::CALL, Opnd::lab(funcLabel[rec])); if (pr(1, 2)) block(0, c(3)); }
        if (p.haltFault && pr(1, 4)) fault();
        emit(Op::HALT);
        if (pr(1, 3)) deadCode();
        for (uint32_t i = 0; i < nf; ++i) {
            if (p.lines) ++line;
            curFunc = (int)i;
            if ((int)i == rec) { recursive(funcLabel[i]); continue; }
            place(funcLabel[i]);
            bool frame = p.frames || pr(1, 2);
            if (frame) { emit(Op::PUSH, Opnd::reg(BP)); emit(Op::MOV, Opnd::reg(BP), Opnd::reg(SP)); }
            block(p.frames ? 1 : 0, 1 + c(4));
            if (frame) {
                if (!p.frames) emit(Op::MOV, Opnd::reg(SP), Opnd::reg(BP));
                emit(Op::POP, Opnd::reg(BP));
            }
            emit(Op::RET);
        }
        for (auto& i : code)
            for (Opnd* o : {&i.a, &i.b})
                if (o->label >= 0) o->i1 = labels[o->label];
        prog.text = std::move(code);
        return prog;
    }
};
}

isa::Program generate(Choices& ch, const Profile& p, const Machine& m) {
    G g{ch, p, m, {}, {}, {}};
    return g.go();
}

isa::Program generateTerminating(Choices& ch, const Profile& p, const Machine& m, const std::string& input, size_t maxSteps, size_t* steps) {
    for (int attempt = 0; attempt < 4; ++attempt) {
        Profile q = p;
        if (attempt == 3) { q.loop = 0; q.call = 0; q.indirect = 0; q.retjump = 0; q.functions = 0; q.fault = 0; }
        auto prog = generate(ch, q, m);
        isa::Machine ref(m.nreg, m.nfreg, m.ram);
        ref.in = input;
        ref.load(prog);
        for (size_t i = 0; i <= maxSteps; ++i) {
            auto s = ref.step(prog.text);
            if (ref.nan) break;
            if (s == Step::Halt || s == Step::Fault) { if (steps) *steps = i + 1; return prog; }
        }
    }
    isa::Program prog;
    Ins h; h.op = Op::HALT;
    prog.text.push_back(h);
    if (steps) *steps = 1;
    return prog;
}
}
