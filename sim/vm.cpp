#include "vm.h"
#include "common/config.h"
#include <cmath>

namespace vm {
Size drawSize(Run& r, bool tiny) {
    Size s;
    auto& ch = r.ch;
    static const size_t rsv[] = {2, 1, 3, 4, 6, 8, 12};
    s.alu = 1 + ch.choose(S_CFG, tiny ? 2 : 4);
    s.rs = rsv[ch.choose(S_CFG, tiny ? 3 : 7)];
    static const size_t g[] = {4, 1, 2, 3};
    s.gates = g[ch.choose(S_CFG, 4)];
    static const size_t regs[] = {8, 7, 6, 5, 4, 3, 16, 11}, fregs[] = {4, 3, 2, 1, 12}, ram[] = {256, 300, 1040};
    s.nreg = regs[ch.choose(S_CFG, 8)];
    s.nfreg = fregs[ch.choose(S_CFG, 5)];
    uint32_t k = ch.choose(S_CFG, 23);
    s.ram = k < 20 ? 128 - 16 * (k % 5) : ram[k - 20];
    return s;
}

std::string describe(const Size& s, const Timing& t) {
    return "machine: " + std::to_string(s.nreg) + " registers, " + std::to_string(s.nfreg) + " float registers, " + std::to_string(s.alu)
        + " ALU, " + std::to_string(s.rs) + " entries, " + std::to_string(s.gates) + " gates, " + std::to_string(s.ram)
        + " cells; jitter exec " + std::to_string(t.execJ) + "% read " + std::to_string(t.readJ) + "% write " + std::to_string(t.writeJ)
        + "% guess " + std::to_string(t.guessPct) + "% stall " + std::to_string(t.stallPct) + "%";
}

std::string drawInput(Run& r) {
    std::string s;
    uint32_t n = r.ch.choose(S_CFG, 9);
    for (uint32_t i = 0; i < n; ++i) {
        if (r.ch.chance(S_CFG, 1, 5)) s += " \n\t"[r.ch.choose(S_CFG, 3)];
        s += "abcXYZ0189+-"[r.ch.choose(S_CFG, 12)];
    }
    return s;
}

void compareState(Run& r, const char* where, const tiny::t86::Cpu& cpu, const isa::Machine& ref, bool regs) {
    using namespace tiny::t86;
    auto bad = [&](const std::string& what, const std::string& got, const std::string& want) {
        r.fail(std::string("state-") + where, std::string(where) + ": " + what + " is " + got + ", sequential execution gives " + want);
    };
    auto num = [&](const std::string& what, int64_t got, int64_t want) { if (got != want) bad(what, std::to_string(got), std::to_string(want)); };
    if (regs) {
    for (size_t i = 0; i < ref.R.size(); ++i) num("R" + std::to_string(i), cpu.getRegister(Register{i}), ref.R[i]);
    num("SP", cpu.getRegister(Register::StackPointer()), ref.sp);
    num("BP", cpu.getRegister(Register::StackBasePointer()), ref.bp);
    num("flags", cpu.getRegister(Register::Flags()), ref.flags);
    for (size_t i = 0; i < ref.F.size(); ++i) {
        double d = cpu.getFloatRegister(FloatRegister{i});
        uint64_t b; memcpy(&b, &d, 8);
        if (b != ref.F[i]) bad("F" + std::to_string(i), std::to_string(d) + " (bits " + std::to_string(b) + ")", std::to_string(ref.getF((int)i)) + " (bits " + std::to_string(ref.F[i]) + ")");
    }
    num("IP", cpu.getRegister(Register::ProgramCounter()), (int64_t)ref.ip);
    }
    for (size_t i = 0; i < ref.mem.size(); ++i) num("[" + std::to_string(i) + "]", cpu.getMemory(i), ref.mem[i]);
}
void configure(const Size& s) {
    tiny::config = tiny::Config{};
    auto set = [&](const char* n, size_t v) { tiny::config.setDefaultIfMissing(n, std::to_string(v)); };
    set("-aluCnt", s.alu);
    set("-ramGates", s.gates);
    set("-registerCnt", s.nreg);
    set("-floatRegisterCnt", s.nfreg);
    set("-reservationStationEntriesCnt", s.rs);
    set("-ram", s.ram);
}

}
