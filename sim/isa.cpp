#include "isa.h"
#include <limits>

namespace isa {

const char* name(Op o) {
    static const char* n[] = {
        "NOP", "MOV", "LEA", "ADD", "SUB", "MUL", "DIV", "IMUL", "IDIV", "AND", "OR", "XOR", "LSH", "RSH", "INC", "DEC",
        "NEG", "NOT", "CMP", "FADD", "FSUB", "FMUL", "FDIV", "FCMP", "EXT", "NRW",
        "JMP", "LOOP", "JZ", "JNZ", "JE", "JNE", "JG", "JGE", "JL", "JLE", "JA", "JAE", "JB", "JBE", "JO", "JNO", "JS", "JNS",
        "CALL", "RET", "PUSH", "FPUSH", "POP", "FPOP", "PUTCHAR", "PUTNUM", "GETCHAR", "HALT", "BKPT", "BREAK"};
    return n[static_cast<int>(o)];
}

static std::string rn(int r) {
    if (r == SP) return "SP";
    if (r == BP) return "BP";
    if (r == IP) return "IP";
    return "R" + std::to_string(r);
}
static std::string off(int64_t i) {
    return i < 0 ? " - " + std::to_string(-i) : " + " + std::to_string(i);
}
static std::string opnd(const Opnd& o) {
    switch (o.k) {
    case K::None: return "";
    case K::Reg: return rn(o.r1);
    case K::FReg: return "F" + std::to_string(o.r1);
    case K::Imm: return std::to_string(o.i1);
    case K::FImm: return o.ftext;
    case K::RegOff: return rn(o.r1) + off(o.i1);
    case K::MemImm: return "[" + std::to_string(o.i1) + "]";
    case K::MemReg: return "[" + rn(o.r1) + "]";
    case K::MemRegOff: return "[" + rn(o.r1) + off(o.i1) + "]";
    case K::MemRegScaled: return "[" + rn(o.r1) + " * " + std::to_string(o.i1) + "]";
    case K::MemRegReg: return "[" + rn(o.r1) + " + " + rn(o.r2) + "]";
    case K::MemRegOffReg: return "[" + rn(o.r1) + off(o.i1) + " + " + rn(o.r2) + "]";
    case K::MemRegRegScaled: return "[" + rn(o.r1) + " + " + rn(o.r2) + " * " + std::to_string(o.i2) + "]";
    case K::MemRegOffRegScaled:
        return "[" + rn(o.r1) + off(o.i1) + " + " + rn(o.r2) + " * " + std::to_string(o.i2) + "]";
    }
    return "";
}

std::string text(const Ins& i) {
    std::string s = name(i.op);
    if (i.a.k != K::None) s += " " + opnd(i.a);
    if (i.b.k != K::None) s += ", " + opnd(i.b);
    return s;
}

std::string Program::source() const {
    std::string s;
    if (!data.empty()) {
        s += ".data\n";
        for (auto d : data) s += std::to_string(d) + "\n";
    }
    s += ".text\n";
    for (size_t i = 0; i < text.size(); ++i) s += std::to_string(i) + " " + isa::text(text[i]) + "\n";
    return s;
}

namespace {
struct FaultEx {};
using u64 = uint64_t;
using i64 = int64_t;

int fl(bool s, bool z, bool c, bool o) { return (s ? 1 : 0) | (z ? 2 : 0) | (c ? 4 : 0) | (o ? 8 : 0); }

struct Res { i64 v; int f; };

Res arith(Op op, i64 x, i64 y) {
    __int128 r;
    i64 v;
    switch (op) {
    case Op::ADD: case Op::INC: {
        unsigned __int128 ur = (unsigned __int128)(u64)x + (u64)y;
        r = (__int128)x + y; v = (i64)(u64)ur;
        return {v, fl(v < 0, v == 0, (ur >> 64) != 0, r != (__int128)v)};
    }
    case Op::SUB: case Op::DEC: case Op::CMP: case Op::LOOP:
        r = (__int128)x - y; v = (i64)((u64)x - (u64)y);
        return {v, fl(v < 0, v == 0, (u64)x < (u64)y, r != (__int128)v)};
    case Op::NEG: v = (i64)(0 - (u64)x); return {v, fl(v < 0, v == 0, false, false)};
    case Op::MUL: {
        unsigned __int128 ur = (unsigned __int128)(u64)x * (u64)y;
        v = (i64)(u64)ur;
        return {v, fl(v < 0, v == 0, (ur >> 64) != 0, false)};
    }
    case Op::IMUL:
        r = (__int128)x * y; v = (i64)((u64)x * (u64)y);
        return {v, fl(v < 0, v == 0, false, r != (__int128)v)};
    case Op::DIV:
        if (y == 0) throw FaultEx{};
        v = (i64)((u64)x / (u64)y);
        return {v, fl(v < 0, v == 0, false, false)};
    case Op::IDIV:
        if (y == 0 || (y == -1 && x == std::numeric_limits<i64>::min())) throw FaultEx{};
        v = x / y;
        return {v, fl(v < 0, v == 0, false, false)};
    case Op::AND: v = x & y; return {v, fl(v < 0, v == 0, false, false)};
    case Op::OR: v = x | y; return {v, fl(v < 0, v == 0, false, false)};
    case Op::XOR: v = x ^ y; return {v, fl(v < 0, v == 0, false, false)};
    case Op::NOT: v = ~x; return {v, fl(v < 0, v == 0, false, false)};
    case Op::LSH: v = (i64)((u64)x << y); return {v, fl(v < 0, v == 0, ((u64)x >> (64 - y)) & 1, false)};
    case Op::RSH: v = x >> y; return {v, fl(v < 0, v == 0, ((u64)x >> (y - 1)) & 1, false)};
    default: throw std::logic_error("arith");
    }
}

bool cond(Op op, int f) {
    bool s = f & 1, z = f & 2, c = f & 4, o = f & 8;
    switch (op) {
    case Op::JZ: case Op::JE: return z;
    case Op::JNZ: case Op::JNE: return !z;
    case Op::JG: return !z && s == o;
    case Op::JGE: return s == o;
    case Op::JL: return s != o;
    case Op::JLE: return z || s != o;
    case Op::JA: return !c && !z;
    case Op::JAE: return !c;
    case Op::JB: return c;
    case Op::JBE: return c || z;
    case Op::JO: return o;
    case Op::JNO: return !o;
    case Op::JS: return s;
    case Op::JNS: return !s;
    default: throw std::logic_error("cond");
    }
}
}

Step Machine::step(const std::vector<Ins>& text, Effect* eff) {
    static const Ins nop;
    const Ins& in = ip < text.size() ? text[ip] : nop;
    Effect dummy;
    Effect& e = eff ? *eff : dummy;
    const u64 next = ip + 1;

    auto get = [&](int r) -> i64 {
        if (r == SP) return sp;
        if (r == BP) return bp;
        if (r == IP) return (i64)next;
        if (r < 0 || (size_t)r >= R.size()) throw FaultEx{};
        return R[r];
    };
    auto set = [&](int r, i64 v) {
        if (r == SP) sp = v;
        else if (r == BP) bp = v;
        else R.at(r) = v;
    };
    auto chk = [&](int r) { (void)get(r); };
    auto getf = [&](int r) -> u64 { if (r < 0 || (size_t)r >= F.size()) throw FaultEx{}; return F[r]; };
    auto addr = [&](const Opnd& o) -> u64 {
        switch (o.k) {
        case K::MemImm: return (u64)o.i1;
        case K::MemReg: return (u64)get(o.r1);
        case K::MemRegOff: return (u64)get(o.r1) + (u64)o.i1;
        case K::MemRegScaled: return (u64)get(o.r1) * (u64)o.i1;
        case K::MemRegReg: return (u64)get(o.r1) + (u64)get(o.r2);
        case K::MemRegOffReg: return (u64)get(o.r1) + (u64)o.i1 + (u64)get(o.r2);
        case K::MemRegRegScaled: return (u64)get(o.r1) + (u64)get(o.r2) * (u64)o.i2;
        case K::MemRegOffRegScaled: return (u64)get(o.r1) + (u64)o.i1 + (u64)get(o.r2) * (u64)o.i2;
        default: throw std::logic_error("addr");
        }
    };
    auto load = [&](u64 a) -> i64 { if (a >= mem.size()) throw FaultEx{}; return mem[a]; };
    auto chkst = [&](u64 a) { if (a >= mem.size()) throw FaultEx{}; };
    auto store = [&](u64 a, i64 v) { mem.at(a) = v; e.writes.push_back(a); };
    // Value of an operand as an integer (floats as bit patterns).
    auto val = [&](const Opnd& o) -> i64 {
        switch (o.k) {
        case K::Reg: return get(o.r1);
        case K::FReg: return (i64)getf(o.r1);
        case K::Imm: return o.i1;
        case K::FImm: { i64 v; memcpy(&v, &o.f, 8); return v; }
        case K::RegOff: return (i64)((u64)get(o.r1) + (u64)o.i1);
        default: return load(addr(o));
        }
    };
    auto fval = [&](const Opnd& o) -> double { i64 v = val(o); double d; memcpy(&d, &v, 8); return d; };
    auto setf = [&](int r, double d) { u64 v; memcpy(&v, &d, 8); F.at(r) = v; };

    try {
        switch (in.op) {
        case Op::NOP: case Op::BREAK: break;
        case Op::BKPT:
            if (bkptTraps) { ip = next; return Step::Bkpt; }
            break;
        case Op::HALT: ip = next; return Step::Halt;
        case Op::MOV: {
            i64 v = val(in.b);
            if (in.a.k == K::Reg) { chk(in.a.r1); set(in.a.r1, v); }
            else if (in.a.k == K::FReg) { getf(in.a.r1); F[in.a.r1] = (u64)v; }
            else { u64 a = addr(in.a); chkst(a); store(a, v); }
            break;
        }
        case Op::LEA: { i64 a = (i64)addr(in.b); chk(in.a.r1); set(in.a.r1, a); break; }
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::IMUL: case Op::IDIV:
        case Op::AND: case Op::OR: case Op::XOR: case Op::LSH: case Op::RSH: {
            i64 x = get(in.a.r1), y = val(in.b);
            auto r = arith(in.op, x, y);
            set(in.a.r1, r.v); flags = r.f;
            break;
        }
        case Op::INC: case Op::DEC: case Op::NEG: case Op::NOT: {
            auto r = arith(in.op, get(in.a.r1), 1);
            set(in.a.r1, r.v); flags = r.f;
            break;
        }
        case Op::CMP: { i64 x = get(in.a.r1), y = val(in.b); flags = arith(Op::CMP, x, y).f; break; }
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FCMP: {
            double x = fval(in.a), y = fval(in.b), r;
            switch (in.op) {
            case Op::FADD: r = x + y; break;
            case Op::FMUL: r = x * y; break;
            case Op::FDIV: r = x / y; break;
            default: r = x - y; break;
            }
            if (std::isnan(r)) nan = true;
            flags = fl(r < 0, r == 0, false, std::isinf(r));
            if (in.op != Op::FCMP) setf(in.a.r1, r);
            break;
        }
        case Op::EXT: { i64 v = get(in.b.r1); getf(in.a.r1); setf(in.a.r1, (double)v); break; }
        case Op::NRW: {
            double d = fval(in.b);
            chk(in.a.r1);
            if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) nan = true; // unspecified conversion
            else set(in.a.r1, (i64)d);
            break;
        }
        case Op::JMP: ip = (u64)val(in.a); return Step::Ok;
        case Op::LOOP: {
            i64 x = get(in.a.r1), t = val(in.b);
            auto r = arith(Op::LOOP, x, 1);
            set(in.a.r1, r.v); flags = r.f;
            ip = r.v != 0 ? (u64)t : next;
            return Step::Ok;
        }
        case Op::CALL: {
            u64 t = (u64)val(in.a), a = (u64)sp - 1;
            chkst(a); store(a, (i64)next); sp = (i64)a; ip = t;
            return Step::Ok;
        }
        case Op::RET: { u64 t = (u64)load((u64)sp); sp = (i64)((u64)sp + 1); ip = t; return Step::Ok; }
        case Op::PUSH: case Op::FPUSH: {
            i64 v = val(in.a); u64 a = (u64)sp - 1;
            chkst(a); store(a, v); sp = (i64)a;
            break;
        }
        case Op::POP: { i64 v = load((u64)sp); chk(in.a.r1); set(in.a.r1, v); sp = (i64)((u64)sp + 1); break; }
        case Op::FPOP: { i64 v = load((u64)sp); getf(in.a.r1); F[in.a.r1] = (u64)v; sp = (i64)((u64)sp + 1); break; }
        case Op::PUTCHAR: out += (char)get(in.a.r1); e.wroteOutput = true; break;
        case Op::PUTNUM: out += std::to_string((int)get(in.a.r1)) + "\n"; e.wroteOutput = true; break;
        case Op::GETCHAR: {
            chk(in.a.r1);
            while (inpos < this->in.size() && isspace((unsigned char)this->in[inpos])) ++inpos;
            i64 v = 0;
            if (inpos < this->in.size()) v = this->in[inpos++];
            set(in.a.r1, v);
            e.readInput = true;
            break;
        }
        default:
            if (isCondJump(in.op)) {
                u64 t = (u64)val(in.a);
                ip = cond(in.op, flags) ? t : next;
                return Step::Ok;
            }
            throw std::logic_error("op");
        }
    } catch (const FaultEx&) {
        return Step::Fault;
    }
    ip = next;
    return Step::Ok;
}
}
