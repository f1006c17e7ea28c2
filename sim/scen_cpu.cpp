// P01..P06: programs on the bare machine under adversarial timing and guessing.
#include <cstddef>
#include <deque>
#include <set>
#include "vm.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace dbg { void cpuSession(sim::Run& r); }      // the property in a debug session

namespace vm {
using namespace tiny::t86;

namespace {
struct Case {
    isa::Program prog;
    std::string input;
    Size size;
    size_t steps = 0;
};

void say(Run& r, const Case& c, const Timing& t) {
    if (!r.verbose) return;
    r.say(describe(c.size, t));
    r.say("input: \"" + c.input + "\"");
    r.say(c.prog.source());
}

// Ticks within which the next instruction must retire.
uint64_t progressBound(const Size& s) { return (s.rs + 4) * (14 + 6 * (s.rs + 2) + 2 * 14 + 6) + 64; }

struct Result { bool fault = false; uint64_t ticks = 0, maxGap = 0; uint64_t tickAtMark = 0, bkpts = 0; };

// Runs the machine to its end, or until stopAfter instructions have retired.
Result drive(Run& r, Cpu& cpu, Timing& t, const Size& s, uint64_t maxTicks, uint64_t quietFrom = ~0ULL) {
    Result res;
    uint64_t bound = progressBound(s), gap = 0, last = 0;
    while (true) {
        if (t.retiredCount >= quietFrom && t.active) { t.active = false; }
        try {
            cpu.tick();
        } catch (const Violation&) { throw; } catch (const ChoiceLimit&) { throw; }
        catch (const std::exception& e) {
            res.fault = true;
            r.say(std::string("error stop: ") + e.what());
            ++r.ticks;
            return res;
        }
        ++r.ticks; ++res.ticks;
        if (t.retiredCount != last) {
            r.mix(res.ticks); r.mix(t.retiredCount);
            res.maxGap = std::max(res.maxGap, gap);
            gap = 0; last = t.retiredCount;
            if (t.retiredCount >= quietFrom && !res.tickAtMark) res.tickAtMark = res.ticks;
        }
        else if (++gap > bound) r.fail("no-progress", "no instruction retired for " + std::to_string(gap) + " ticks after " + std::to_string(last) + " retired instructions");
        if (cpu.halted()) return res;
        if (int n = cpu.interrupted()) {
            if (n == 3) ++res.bkpts;
            else r.fail("stop", n == 2 ? "a watchpoint stop for a cell the program never writes" : "a stop of kind " + std::to_string(n) + " that nobody asked for");
        }
        if (res.ticks > maxTicks) r.fail("no-progress", "program still running after " + std::to_string(res.ticks) + " ticks and " + std::to_string(last) + " retired instructions");
    }
}

// The common body: generate, run, compare.
void differential(Run& r, gen::Profile p, size_t maxSteps, bool watch = false) {
    StatsLogger::instance().reset();
    Case c;
    c.size = drawSize(r);
    Timing t(r);
    t.draw();
    c.input = drawInput(r);
    c.prog = gen::generateTerminating(r.ch, p, {c.size.nreg, c.size.nfreg, c.size.ram}, c.input, maxSteps, &c.steps);
    t.textSize = c.prog.text.size();
    say(r, c, t);
    r.note("running program on the bare machine");

    isa::Machine ref(c.size.nreg, c.size.nfreg, c.size.ram);
    ref.in = c.input;
    ref.load(c.prog);
    isa::Step end = isa::Step::Ok;
    size_t steps = 0, bkpts = 0;
    std::set<uint64_t> written;
    while (end == isa::Step::Ok) {
        bkpts += ref.ip < c.prog.text.size() && c.prog.text[ref.ip].op == isa::Op::BKPT;
        isa::Effect e;
        end = ref.step(c.prog.text, &e);
        for (auto x : e.writes) written.insert(x);
        ++steps;
    }

    StdIo io(r, c.input);
    Cpu cpu(c.size.nreg, c.size.nfreg, c.size.alu, c.size.rs, c.size.ram, c.size.gates);
    cpu.start(parse(c.prog.source()));
    if (watch) {
        uint64_t on = 0;
        for (int i = 0; i < 4; ++i) {
            uint64_t a = i < 3 ? r.ch.choose(S_CFG, 8) : c.size.ram - 1 - r.ch.choose(S_CFG, 6);
            if (a >= c.size.ram || written.count(a)) continue;
            cpu.setDebugRegister(i, a);
            on |= 1u << i;
        }
        cpu.setDebugRegister(4, on);
        r.count["watched"] += on != 0;
    }
    auto res = drive(r, cpu, t, c.size, (steps + 4) * (progressBound(c.size)));
    r.say("reference: " + std::to_string(steps) + " instructions, " + (end == isa::Step::Fault ? "error" : "halt") + " at " + std::to_string(ref.ip)
          + "; machine: " + std::to_string(t.retiredCount) + " retired in " + std::to_string(res.ticks) + " ticks");
    if (io.out.str() != ref.out) r.fail("output", "output is \"" + io.out.str() + "\", sequential execution prints \"" + ref.out + "\"");
    if (res.fault != (end == isa::Step::Fault))
        r.fail("end", res.fault ? "the machine reports an error, sequential execution has none" : "sequential execution fails at " + std::to_string(ref.ip) + ", the machine halted");
    if (t.retiredCount != steps) r.fail("instruction-count", std::to_string(t.retiredCount) + " instructions retired, sequential execution executes " + std::to_string(steps));
    if (res.bkpts != bkpts) r.fail("stop", std::to_string(res.bkpts) + " breakpoint stops, the program executes " + std::to_string(bkpts) + " BKPTs");
    if (res.fault) { ++r.count["fault.execution_error"]; }
    compareState(r, res.fault ? "error" : "halt", cpu, ref, !res.fault);
    if (io.in.consumed() != ref.inpos && !(ref.inpos == c.input.size())) r.fail("input", "consumed " + std::to_string(io.in.consumed()) + " input characters, sequential execution " + std::to_string(ref.inpos));
    ++r.count["programs"];
    r.count["instructions"] += steps;
    r.nontrivial = steps >= 8;
    r.mix(io.out.str());
}

// A debugger that only lets the program run and looks at the memory once it has stopped.
struct Script : Messenger {
    Run& r; const Size& size;
    std::string ask, reason;
    std::vector<std::string> data;
    int stops = 0, phase = 0;
    uint32_t bye;
    bool gone = false;
    Script(Run& r, const Size& s, uint32_t bye) : r(r), size(s), bye(bye) {}
    void Send(const std::string& m) override {
        r.say("machine: " + m.substr(0, 60));
        if (m == "STOPPED") { ++stops; phase = 0; if (gone) r.fail("end", "the machine stopped again after its end"); return; }
        if (ask == "REASON") reason = m;
        else if (ask.rfind("PEEKDATA", 0) == 0) {
            std::istringstream is(m);
            std::string l;
            while (std::getline(is, l)) data.push_back(l);
        }
    }
    std::optional<std::string> Receive() override {
        switch (phase++) {
        case 0: ask = "REASON"; break;
        case 1:
            if (reason == "START" || reason == "SW_BKPT") ask = "CONTINUE";
            else ask = "PEEKDATA 0 " + std::to_string(size.ram);
            break;
        default:
            gone = true;
            if (bye == 0) { ask = "EOF"; return std::nullopt; }
            ask = bye == 1 ? "TERMINATE" : "CONTINUE";
        }
        return ask;
    }
};

// The same through the operating system layer, with a debugger attached or not: the run is reported, nothing escapes.
void wholeMachine(Run& r, gen::Profile p, size_t maxSteps) {
    StatsLogger::instance().reset();
    Case c;
    c.size = drawSize(r);
    c.size.rs = 2 * c.size.alu;
    configure(c.size);
    Timing t(r);
    t.draw();
    c.input = drawInput(r);
    c.prog = gen::generateTerminating(r.ch, p, {c.size.nreg, c.size.nfreg, c.size.ram}, c.input, maxSteps, &c.steps);
    t.textSize = c.prog.text.size();
    bool attached = r.ch.chance(S_CFG, 2, 3);
    uint32_t bye = r.ch.choose(S_CFG, 3);
    say(r, c, t);
    r.note("running program on the whole machine");
    isa::Machine ref(c.size.nreg, c.size.nfreg, c.size.ram);
    ref.in = c.input;
    ref.load(c.prog);
    isa::Step end = isa::Step::Ok;
    size_t steps = 0;
    while (end == isa::Step::Ok) { end = ref.step(c.prog.text); ++steps; }
    bool fault = end == isa::Step::Fault;

    StdIo io(r, c.input);
    tiny::t86::OS os(c.size.nreg, c.size.nfreg, c.size.ram);
    Script* s = nullptr;
    if (attached) {
        auto m = std::make_unique<Script>(r, c.size, bye);
        s = m.get();
        os.SetDebuggerComms(std::move(m));
    }
    bool ok = false;
    try {
        ok = os.Run(parse(c.prog.source()));
    } catch (const Violation&) { throw; } catch (const ChoiceLimit&) { throw; }
    catch (const std::exception& e) {
        r.fail("machine-died", std::string("an exception left the machine: ") + e.what());
    }
    if (io.out.str() != ref.out) r.fail("output", "output is \"" + io.out.str() + "\", sequential execution prints \"" + ref.out + "\"");
    if (ok == fault) r.fail("end", fault ? "the failed run is reported as successful" : "the successful run is reported as failed");
    if (t.retiredCount != steps) r.fail("instruction-count", std::to_string(t.retiredCount) + " instructions retired, sequential execution executes " + std::to_string(steps));
    if (s) {
        if (s->reason != (fault ? "CPU_ERROR" : "HALT")) r.fail("end", "the debugger is told '" + s->reason + "' at the end");
        if (s->stops != 2) r.fail("end", std::to_string(s->stops) + " stops instead of 2");
        if (s->data.size() != c.size.ram) r.fail("memory", "the memory shown has " + std::to_string(s->data.size()) + " cells");
        for (size_t i = 0; i < c.size.ram; ++i)
            if (s->data[i] != std::to_string(ref.mem[i])) r.fail("memory", "cell " + std::to_string(i) + " is " + s->data[i] + ", sequential execution leaves " + std::to_string(ref.mem[i]));
    }
    if (fault) ++r.count["fault.execution_error"];
    ++r.count["programs"];
    r.count["instructions"] += steps;
    r.nontrivial = steps >= 8;
    r.mix(io.out.str());
    r.mix(t.retiredCount);
}

void p01(Run& r) {
    gen::Profile p;
    p.edge = 3;
    differential(r, p, 400);
}

void p02(Run& r) {
    gen::Profile p;
    p.dead = 8; p.indirect = 6; p.retjump = 4; p.cmpjump = 10; p.loop = 4; p.io = 4; p.input = 3; p.mem = 8; p.bkpt = 1;
    if (r.ch.chance(S_CFG, 1, 3)) dbg::cpuSession(r);
    else differential(r, p, 400, true);
}

void p03(Run& r);

void p05(Run& r) {
    gen::Profile p;
    p.alu = 3; p.mem = 14; p.storm = 10; p.stack = 8; p.flt = 2; p.io = 0; p.cells = 1 + (int)r.ch.choose(S_CFG, 5); p.call = 4; p.cmpjump = 4; p.spbp = 2;
    differential(r, p, 400);
}

// P04: bounded gaps (checked in every run) and no permanent slowdown: the same tail takes as long on the used machine as on a fresh one.
void p04stops(Run& r);
void p04space(Run& r);
void p04(Run& r) {
    StatsLogger::instance().reset();
    if (r.ch.chance(S_CFG, 1, 3)) { p04stops(r); return; }
    if (r.ch.chance(S_CFG, 1, 4)) { p04space(r); return; }
    Size size = drawSize(r, true);
    if (r.ch.chance(S_CFG, 1, 3)) size = drawSize(r);
    gen::Profile p;
    p.dead = 5; p.indirect = 4; p.cmpjump = 8; p.loop = 6; p.storm = 3; p.maxItems = 12;
    Timing t(r);
    t.draw();
    std::string input = drawInput(r);
    size_t steps = 0;
    auto prog = gen::generateTerminating(r.ch, p, {size.nreg, size.nfreg, size.ram}, input, 600, &steps);
    // Replace the final HALT of the executed path by a jump to the tail.
    isa::Machine ref(size.nreg, size.nfreg, size.ram);
    ref.in = input; ref.load(prog);
    isa::Step end = isa::Step::Ok;
    size_t n = 0;
    while (end == isa::Step::Ok) { end = ref.step(prog.text); ++n; }
    if (end != isa::Step::Halt) { r.discarded = true; return; }
    uint64_t haltAt = ref.ip - 1;
    auto ins = [](isa::Op o, isa::Opnd a = {}, isa::Opnd b = {}) { isa::Ins i; i.op = o; i.a = a; i.b = b; return i; };
    using isa::Op; using isa::Opnd;
    auto tail = [&](std::vector<isa::Ins>& v) {
        for (int i = 0; i < 40; ++i) v.push_back(ins(Op::NOP));
        v.push_back(ins(Op::BREAK));
        for (int k = 0; k < 3; ++k) {
            for (size_t i = 0; i < size.rs + 2; ++i) v.push_back(ins(Op::ADD, Opnd::reg((int)(i % (size.nreg - 1))), Opnd::imm(1)));
            for (size_t i = 0; i < size.gates + 2; ++i) v.push_back(ins(Op::MOV, Opnd::reg((int)(i % (size.nreg - 1))), Opnd::memimm((int64_t)i)));
            for (int i = 0; i < 3; ++i) v.push_back(ins(Op::MOV, Opnd::memimm(i), Opnd::reg(0)));
        }
        v.push_back(ins(Op::HALT));
    };
    uint64_t tailAt = prog.text.size();
    tail(prog.text);
    prog.text[haltAt] = ins(Op::JMP, Opnd::imm((int64_t)tailAt));
    t.textSize = prog.text.size();
    r.say(describe(size, t));
    r.say(prog.source());
    r.note("running program with tail");
    uint64_t mark = n + 41;   // everything up to and including the BREAK has retired
    uint64_t used;
    {
        StdIo io(r, input);
        Cpu cpu(size.nreg, size.nfreg, size.alu, size.rs, size.ram, size.gates);
        cpu.start(parse(prog.source()));
        // Timing returns to normal well before the BREAK, so that the tail runs undisturbed.
        auto res = drive(r, cpu, t, size, (n + 200) * progressBound(size), n);
        if (res.fault) r.fail("end", "the machine reports an error, sequential execution has none");
        // recover the tick at which BREAK retired by a second pass below
        used = res.ticks;
        (void)mark;
    }
    // Ticks from the jump into the tail to the halt, measured on this machine and on a fresh one.
    auto measure = [&](const isa::Program& q, uint64_t quiet, uint64_t breakRetired) {
        Choices& ch = r.ch; (void)ch;
        StdIo io(r, input);
        StatsLogger::instance().reset();
        Cpu cpu(size.nreg, size.nfreg, size.alu, size.rs, size.ram, size.gates);
        cpu.start(parse(q.source()));
        t.retiredCount = 0; t.active = true;
        uint64_t ticks = 0, at = 0;
        while (!cpu.halted()) {
            if (t.retiredCount >= quiet) t.active = false;
            cpu.tick(); ++ticks; ++r.ticks;
            if (!at && t.retiredCount >= breakRetired) at = ticks;
            if (ticks > 20000000) r.fail("no-progress", "no halt");
        }
        return ticks - at;
    };
    (void)used;
    isa::Program fresh;
    tail(fresh.text);
    uint64_t slow = measure(prog, n, mark), fast = measure(fresh, 0, 41);
    r.say("tail: " + std::to_string(slow) + " ticks after the program, " + std::to_string(fast) + " on a fresh machine");
    if (slow > fast) r.fail("slowdown", "after the program the same code takes " + std::to_string(slow) + " ticks instead of " + std::to_string(fast) + ": a machine resource was lost");
    ++r.count["programs"];
    r.count["instructions"] += n;
    r.nontrivial = n >= 8;
}

// The machine's own memory does not grow with the number of instructions executed: the drawn program starts over at its end,
// and what the machine holds is compared between an early and a late stretch of the same length.
void p04space(Run& r) {
    Size size = drawSize(r, true);
    gen::Profile p;
    p.dead = 5; p.indirect = 4; p.cmpjump = 8; p.loop = 6; p.storm = 3; p.maxItems = 12; p.io = 0;
    Timing t(r);
    t.draw();
    size_t steps = 0;
    auto prog = gen::generateTerminating(r.ch, p, {size.nreg, size.nfreg, size.ram}, "", 600, &steps);
    isa::Machine ref(size.nreg, size.nfreg, size.ram);
    ref.load(prog);
    isa::Step end = isa::Step::Ok;
    for (size_t n = 0; end == isa::Step::Ok && n < 700; ++n) end = ref.step(prog.text);
    if (end != isa::Step::Halt) { r.discarded = true; return; }
    uint64_t haltAt = ref.ip - 1;
    isa::Ins jump; jump.op = isa::Op::JMP; jump.a = isa::Opnd::imm(0);
    prog.text[haltAt] = jump;
    // The second and later rounds start from other values: sequential execution must get through all of them.
    const uint64_t warm = 300, stretch = 600, late = 2400, all = late + stretch;
    isa::Machine m(size.nreg, size.nfreg, size.ram);
    m.load(prog);
    uint64_t n = 0;
    while (n < all + 50 && m.step(prog.text) == isa::Step::Ok && !m.nan) ++n;
    if (n < all + 50) { r.discarded = true; return; }
    t.textSize = prog.text.size();
    r.say(describe(size, t));
    r.say(prog.source());
    StdIo io(r, "");
    Cpu cpu(size.nreg, size.nfreg, size.alu, size.rs, size.ram, size.gates);
    cpu.start(parse(prog.source()));
    uint64_t early = 0, then = 0, last = 0, gap = 0, bound = progressBound(size);
    while (t.retiredCount < all) {
        cpu.tick(); ++r.ticks;
        if (t.retiredCount != last) { last = t.retiredCount; gap = 0; r.mix(r.ticks); }
        else if (++gap > bound) r.fail("no-progress", "no instruction retired for " + std::to_string(gap) + " ticks after " + std::to_string(last) + " retired instructions");
        uint64_t held = __sanitizer_get_current_allocated_bytes();
        if (last >= warm && last < warm + stretch) early = std::max(early, held);
        if (last >= late) then = std::max(then, held);
    }
    r.say("memory held: at most " + std::to_string(early) + " bytes early, " + std::to_string(then) + " late");
    // One byte per instruction is a leak; a container that grows once is not.
    if (then > early + 2048) r.fail("memory-grows", "executing " + std::to_string(late - warm) + " more instructions takes " + std::to_string(then - early) + " bytes of memory for good");
    ++r.count["long_programs"];
    r.count["instructions"] += all;
    r.nontrivial = true;
}

// The same with a debugger that stops the machine all the way through: real debug server and operating system layer.
// At the program's end a BKPT of its own hands over to the tail, which then runs on its own.
struct Stopper : Messenger {
    Run& r; const isa::Program& prog; const std::vector<uint64_t>& trace; const std::vector<uint64_t>& cells;
    uint64_t tailAt; uint32_t left;
    std::map<uint64_t, std::string> planted;       // code under our breakpoints
    std::deque<std::string> todo;
    std::string ask, reason, sent;
    uint64_t ip = 0, extra = 0, stops = 0;
    bool inTail = false;
    uint32_t watched = 0;
    Stopper(Run& r, const isa::Program& p, const std::vector<uint64_t>& t, const std::vector<uint64_t>& c, uint64_t tailAt, uint32_t left)
        : r(r), prog(p), trace(t), cells(c), tailAt(tailAt), left(left) {}
    uint32_t c(uint32_t n) { return r.ch.choose(S_CMD, n); }
    void Send(const std::string& m) override {
        if (m == "STOPPED") { ++stops; todo = {"REASON", "PEEKREGS"}; return; }
        if (ask == "REASON") {
            reason = m;
            ++r.count["stop." + m];
            if (m == "SW_BKPT") ++extra;
            if (m == "HALT" || m == "CPU_ERROR") { todo = {"TERMINATE"}; return; }
        } else if (ask == "PEEKREGS") {
            auto at = m.find("IP:");
            ip = at == m.npos ? 0 : std::stoull(m.substr(at + 3));
            plan();
        }
    }
    void plan() {
        if (reason == "SW_BKPT" && planted.count(ip - 1)) {
            --ip;
            todo.push_back("POKETEXT " + std::to_string(ip) + " " + planted[ip]);
            todo.push_back("POKEREGS IP " + std::to_string(ip));
            planted.erase(ip);
        }
        if (ip > tailAt || !left) {
            for (auto& [a, i] : planted) todo.push_back("POKETEXT " + std::to_string(a) + " " + i);
            planted.clear();
            todo.push_back("POKEDEBUGREGS D4 0");
            if (ip > tailAt) inTail = true;
            todo.push_back("CONTINUE");
            return;
        }
        --left;
        for (uint32_t k = c(3); k; --k) {
            switch (c(5)) {
            case 0: case 1: {
                uint64_t a = trace[c((uint32_t)trace.size())];
                if (a == ip || a >= tailAt || planted.count(a)) break;
                planted[a] = isa::text(prog.text[a]);
                todo.push_back("POKETEXT " + std::to_string(a) + " BKPT");
                break;
            }
            case 2: {
                if (cells.empty()) break;
                uint32_t i = c(4);
                watched |= 1u << i;
                todo.push_back("POKEDEBUGREGS D" + std::to_string(i) + " " + std::to_string(cells[c((uint32_t)cells.size())]));
                todo.push_back("POKEDEBUGREGS D4 " + std::to_string(watched));
                break;
            }
            case 3: todo.push_back("POKEREGS IP " + std::to_string(ip)); break;
            default: todo.push_back(c(2) ? "PEEKDATA 0 4" : "PEEKTEXT 0 1"); break;
            }
        }
        todo.push_back(c(3) ? "SINGLESTEP" : "CONTINUE");
    }
    std::optional<std::string> Receive() override {
        if (todo.empty()) r.fail("reply", "the machine does not answer " + ask);
        ask = todo.front();
        todo.pop_front();
        if (r.verbose) r.say("debugger: " + ask);
        return ask;
    }
};

// Tick of each retirement, as the machine counts ticks.
struct TimingLog : Timing {
    using Timing::Timing;
    std::vector<uint64_t> at;
    uint64_t quiet = ~0ULL, bound = 0, last = 0;
    Stopper* s = nullptr;
    void retired() override {
        Timing::retired();
        uint64_t now = StatsLogger::instance().tickCount();
        if (now - last > bound) run.fail("no-progress", "no instruction retired for " + std::to_string(now - last) + " ticks after " + std::to_string(retiredCount - 1) + " retired instructions");
        run.mix(now - last);
        last = now;
        at.push_back(now);
        if (retiredCount >= quiet + (s ? s->extra : 0)) active = false;
    }
};

void p04stops(Run& r) {
    Size size = drawSize(r, true);
    if (r.ch.chance(S_CFG, 1, 3)) size = drawSize(r);
    size.rs = 2 * size.alu;
    configure(size);
    gen::Profile p;
    p.dead = 5; p.indirect = 4; p.cmpjump = 8; p.loop = 6; p.storm = 3; p.maxItems = 10; p.stack = 4;
    TimingLog t(r);
    t.draw();
    std::string input = drawInput(r);
    size_t steps = 0;
    auto prog = gen::generateTerminating(r.ch, p, {size.nreg, size.nfreg, size.ram}, input, 300, &steps);
    isa::Machine ref(size.nreg, size.nfreg, size.ram);
    ref.in = input; ref.load(prog);
    isa::Step end = isa::Step::Ok;
    size_t n = 0;
    std::vector<uint64_t> trace, cells;
    while (end == isa::Step::Ok) {
        if (ref.ip < prog.text.size()) trace.push_back(ref.ip);
        isa::Effect e;
        end = ref.step(prog.text, &e);
        for (auto x : e.writes) cells.push_back(x);
        ++n;
    }
    if (end != isa::Step::Halt || trace.empty()) { r.discarded = true; return; }
    uint64_t haltAt = ref.ip - 1;
    auto ins = [](isa::Op o, isa::Opnd a = {}, isa::Opnd b = {}) { isa::Ins i; i.op = o; i.a = a; i.b = b; return i; };
    using isa::Op; using isa::Opnd;
    size_t T = 0;
    auto tail = [&](std::vector<isa::Ins>& v) {
        v.push_back(ins(Op::BKPT));
        for (int i = 0; i < 40; ++i) v.push_back(ins(Op::NOP));
        v.push_back(ins(Op::BREAK));
        size_t from = v.size();
        for (int k = 0; k < 3; ++k) {
            for (size_t i = 0; i < size.rs + 2; ++i) v.push_back(ins(Op::ADD, Opnd::reg((int)(i % (size.nreg - 1))), Opnd::imm(1)));
            for (size_t i = 0; i < size.gates + 2; ++i) v.push_back(ins(Op::MOV, Opnd::reg((int)(i % (size.nreg - 1))), Opnd::memimm((int64_t)i)));
            for (int i = 0; i < 3; ++i) v.push_back(ins(Op::MOV, Opnd::memimm(i), Opnd::reg(0)));
        }
        v.push_back(ins(Op::HALT));
        T = v.size() - from;
    };
    uint64_t tailAt = prog.text.size();
    tail(prog.text);
    prog.text[haltAt] = ins(Op::JMP, Opnd::imm((int64_t)tailAt));
    t.textSize = prog.text.size();
    r.say(describe(size, t));
    r.say(prog.source());
    auto measure = [&](const isa::Program& q, uint64_t at, uint64_t quiet, uint32_t left) {
        StdIo io(r, input);
        StatsLogger::instance().reset();
        t.retiredCount = 0; t.active = true; t.at.clear(); t.last = 0; t.quiet = quiet; t.bound = progressBound(size);
        tiny::t86::OS os(size.nreg, size.nfreg, size.ram);
        auto m = std::make_unique<Stopper>(r, q, trace, cells, at, left);
        t.s = m.get();
        os.SetDebuggerComms(std::move(m));
        try {
            os.Run(parse(q.source()));
        } catch (const Violation&) { throw; } catch (const ChoiceLimit&) { throw; }
        catch (const std::exception& e) { r.fail("machine-died", std::string("an exception left the machine: ") + e.what()); }
        if (t.s->reason != "HALT") r.fail("end", "the machine ended with " + t.s->reason);
        r.count["debugger_stops"] += t.s->stops;
        r.ticks += StatsLogger::instance().tickCount();
        t.s = nullptr;
        return t.at.back() - t.at[t.at.size() - 1 - T];
    };
    isa::Program fresh;
    tail(fresh.text);
    r.note("running stopped program with tail");
    uint64_t slow = measure(prog, tailAt, n, 3 + r.ch.choose(S_CMD, 60)), fast = measure(fresh, 0, 0, 0);
    r.say("tail: " + std::to_string(slow) + " ticks after the program, " + std::to_string(fast) + " on a fresh machine");
    if (slow > fast) r.fail("slowdown", "after the program and its stops the same code takes " + std::to_string(slow) + " ticks instead of " + std::to_string(fast) + ": a machine resource was lost");
    ++r.count["programs"];
    r.count["instructions"] += n;
    r.nontrivial = n >= 8;
}

void p06(Run& r) {
    gen::Profile p;
    p.io = 10; p.input = 8; p.dead = 6; p.cmpjump = 8; p.indirect = 3; p.alu = 4; p.fault = 0; p.haltFault = true;
    if (r.ch.chance(S_CFG, 1, 3)) dbg::cpuSession(r);
    else differential(r, p, 400);
}

void p03(Run& r) {
    gen::Profile p;
    p.fault = 1; p.haltFault = true; p.io = 3; p.minItems = 2; p.maxItems = 12; p.cmpjump = 4; p.unusualRegs = true;
    if (r.ch.chance(S_CFG, 1, 4)) wholeMachine(r, p, 400);
    else if (r.ch.chance(S_CFG, 1, 4)) dbg::cpuSession(r);
    else differential(r, p, 400);
}
}

Scenario cpuScenario(const std::string& prop) {
    if (prop == "P01") return p01;
    if (prop == "P02") return p02;
    if (prop == "P03") return p03;
    if (prop == "P04") return p04;
    if (prop == "P05") return p05;
    if (prop == "P06") return p06;
    return nullptr;
}
}
