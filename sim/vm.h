// The real virtual machine under simulator control.
#pragma once
#include <iostream>
#include <memory>
#include <sstream>
#include <streambuf>
#include "core.h"
#include "gen.h"
#include "isa.h"
#include "t86/cpu.h"
#include "t86/os.h"
#include "t86/sim_hooks.h"
#include "t86/utils/stats_logger.h"
#include "t86-parser/parser.h"

namespace vm {
using namespace sim;

struct Size { size_t nreg, nfreg, alu, rs, ram, gates; };

// Timing and guessing: every answer is a recorded choice; 0 is what the machine does by itself.
struct Timing : tiny::t86::sim::Hooks {
    Run& run;
    size_t textSize = 1;
    uint32_t execJ = 0, readJ = 0, writeJ = 0, guessPct = 0, stallPct = 0;
    bool active = true;            // when false the machine runs with its own latencies and guesses
    uint64_t retiredCount = 0, maxExec = 3;
    uint32_t stallRun = 0;
    explicit Timing(Run& r) : run(r) { tiny::t86::sim::hooks = this; }
    ~Timing() override { tiny::t86::sim::hooks = nullptr; }
    void draw() {
        static const uint32_t pct[] = {0, 0, 10, 30, 60, 90};
        execJ = pct[run.ch.choose(S_CFG, 6)];
        readJ = pct[run.ch.choose(S_CFG, 6)];
        writeJ = pct[run.ch.choose(S_CFG, 6)];
        guessPct = pct[run.ch.choose(S_CFG, 6)];
        static const uint32_t st[] = {0, 0, 0, 5, 20, 40};
        stallPct = st[run.ch.choose(S_CFG, 6)];
    }
    virtual void pulse() {}        // called at least once for every instruction fetched or executed
    std::size_t executionLength(std::size_t normal) override {
        pulse();
        if (!active || !execJ || !run.ch.chance(S_SCHED, execJ, 100)) return normal;
        static const size_t v[] = {1, 2, 0, 4, 6, 9, 14, 3};
        size_t x = v[run.ch.choose(S_SCHED, 8)];
        ++run.count["jitter.exec"];
        run.mix(x);
        return x;
    }
    std::size_t readLatency(std::size_t, std::size_t normal) override {
        if (!active || !readJ || !run.ch.chance(S_SCHED, readJ, 100)) return normal;
        ++run.count["jitter.ram_read"];
        size_t x = 1 + run.ch.choose(S_SCHED, 5);
        run.mix(x);
        return x;
    }
    std::size_t writeLatency(std::size_t, std::size_t normal) override {
        if (!active || !writeJ || !run.ch.chance(S_SCHED, writeJ, 100)) return normal;
        ++run.count["jitter.ram_write"];
        static const size_t v[] = {0, 1, 2, 3, 8, 13, 20, 4};
        size_t x = v[run.ch.choose(S_SCHED, 8)];
        run.mix(x);
        return x;
    }
    uint64_t branchGuess(uint64_t pc, uint64_t normal) override {
        if (!active || !guessPct || !run.ch.chance(S_SCHED, guessPct, 100)) return normal;
        uint64_t g;
        switch (run.ch.weighted(S_SCHED, {4, 6, 1, 1})) {
        case 0: g = pc + 1; break;
        case 1: g = run.ch.choose(S_SCHED, (uint32_t)textSize); break;
        case 2: g = textSize + run.ch.choose(S_SCHED, 3); break;
        default: g = ~0ULL - run.ch.choose(S_SCHED, 2); break;
        }
        if (g != normal) ++run.count["fault.branch_misguess"];
        run.mix(g);
        return g;
    }
    bool stall(const char* what) {
        if (!active || !stallPct) return false;
        if (stallRun > 12) { stallRun = 0; return false; }
        if (!run.ch.chance(S_SCHED, stallPct, 100)) { stallRun = 0; return false; }
        ++stallRun;
        ++run.count[what];
        return true;
    }
    bool stallFetch() override { return stall("fault.fetch_stall"); }
    bool stallIssue() override { return stall("fault.issue_stall"); }
    void retired() override { ++retiredCount; }
};

// Standard input whose refills the simulator controls, standard output it records.
struct InBuf : std::streambuf {
    std::string data; size_t pos = 0; char c = 0;
    Run* run = nullptr;
    int underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= data.size()) { if (run) ++run->count["fault.stdin_eof"]; return traits_type::eof(); }
        c = data[pos++];
        setg(&c, &c, &c + 1);
        return traits_type::to_int_type(c);
    }
    size_t consumed() const { return pos - (gptr() && gptr() < egptr() ? 1 : 0); }
};

struct StdIo {
    InBuf in; std::stringbuf out;
    std::streambuf *oin, *oout;
    StdIo(Run& r, const std::string& input) {
        in.data = input; in.run = &r;
        oin = std::cin.rdbuf(&in); oout = std::cout.rdbuf(&out);
        std::cin.clear();
    }
    ~StdIo() { std::cin.rdbuf(oin); std::cout.rdbuf(oout); std::cin.clear(); std::cout.clear(); }
};

inline tiny::t86::Program parse(const std::string& src) {
    std::istringstream is(src);
    Parser p(is);
    return p.Parse();
}

Size drawSize(Run& r, bool tiny = false);
void configure(const Size& s);   // the machine's global configuration
std::string describe(const Size& s, const Timing& t);
std::string drawInput(Run& r);

// Compares the machine with the reference; registers only if wanted (after an execution error
// the machine does not promise them, only memory and output).
void compareState(Run& r, const char* where, const tiny::t86::Cpu& cpu, const isa::Machine& ref, bool regs);
}
