// P07..P12, P16, P17: debug sessions against sequential execution with stops.
#include "dbg.h"
#include "srcinfo.h"
#include "debugger/Source/Parser.h"

namespace vm { sim::Scenario cpuScenario(const std::string&); }
namespace dbg {
sim::Scenario rawScenario(const std::string&);
using isa::Ins; using isa::Op; using isa::Opnd;

namespace {
enum Act { A_STEP, A_CONT, A_OVER, A_OUT, A_RAW, A_SETBP, A_UNSETBP, A_ENABLE, A_DISABLE, A_SETWP, A_RMWP, A_POKEREG, A_POKEIP, A_POKEF,
           A_POKEMEM, A_POKETEXT, A_REFUSED, A_RESTART, A_SETALLBP, A_SETALLWP, A_SRCIN, A_SRCOVER, A_LINEBP, A_EXPR, A_ASSIGN, A_FRAME, A_POINT, A_COUNT };
const char* actName[A_COUNT] = {"step", "continue", "step over", "step out", "raw step", "set bp", "unset bp", "enable bp", "disable bp", "set wp", "remove wp",
    "poke register", "poke ip", "poke float", "poke memory", "poke text", "refused", "restart", "replace bps", "replace wps", "source step in", "source step over", "line bp", "evaluate", "assign", "show frame", "poke variable"};

struct Plan {
    uint32_t w[A_COUNT] = {};
    gen::Profile prof;
    uint32_t maxOps = 24;
    size_t maxSteps = 250;
    bool drain = true;        // finish by removing everything and running to the end
    bool lines = false;
    bool vars = false;        // source variables and expressions
    bool unreached = false;   // prefer code and cells that are never reached or written
};

struct Session {
    Run& r; Plan& plan; Size size; Timing& t; isa::Program prog; std::string input;
    Link link; Host* host = nullptr;
    std::unique_ptr<Host> hostOwner;
    std::unique_ptr<vm::StdIo> io;
    std::unique_ptr<Native> native;
    Model M;
    Source source;
    std::map<size_t, uint64_t> lineMap;
    std::set<uint64_t> lineAddrs;
    srcm::Info info;
    std::string infoText;
    std::set<uint64_t> blank;   // disabled breakpoints put in force as a set and not enabled since
    std::vector<uint64_t> trace, writes;
    std::set<uint64_t> reached;
    bool over = false, errored = false;
    uint32_t switchPct = 0;
    size_t stops = 0;

    Session(Run& r, Plan& p, Size s, Timing& t) : r(r), plan(p), size(s), t(t), M(s) {}

    uint32_t c(uint32_t n) { return r.ch.choose(S_CMD, n); }
    bool pr(uint32_t a, uint32_t b) { return r.ch.chance(S_CMD, a, b); }

    void launch() {
        tiny::t86::StatsLogger::instance().reset();
        configure(size);
        io.reset();
        io = std::make_unique<vm::StdIo>(r, input);
        link = Link{};
        hostOwner = std::make_unique<Host>(r, link, size, vm::parse(prog.source()), switchPct);
        host = hostOwner.get();
        auto proc = std::make_unique<T86Process>(std::make_unique<Client>(r, link, host), size.nreg, size.nfreg, size.ram);
        native = std::make_unique<Native>(std::move(proc));
        M.m = isa::Machine(size.nreg, size.nfreg, size.ram);
        M.m.in = input;
        M.m.load(prog);
        M.text = prog.text;
        over = errored = false;
        auto e = native->WaitForDebugEvent();
        if (!std::holds_alternative<ExecutionBegin>(e)) r.fail("event", "the first stop is not the beginning of the execution");
    }

    void closeHost() {
        for (int i = 0; i < 1000 && !host->done(); ++i) host->resume();
        if (!host->done()) r.fail("not-ended", "the machine did not end after it was told to terminate");
        if (!link.toDbg.empty()) r.fail("extra-message", "the machine sent an extra message: " + link.toDbg.front());
        checkOutput("after the end");
    }

    void terminate() { native->Terminate(); closeHost(); }

    void checkOutput(const char* where) {
        if (io->out.str() != M.m.out) r.fail("output", std::string(where) + ": output is \"" + io->out.str() + "\", sequential execution prints \"" + M.m.out + "\"");
        if (io->in.consumed() != M.m.inpos && M.m.inpos != input.size())
            r.fail("input", std::string(where) + ": consumed " + std::to_string(io->in.consumed()) + " input characters, sequential execution " + std::to_string(M.m.inpos));
    }

    static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

    void compare(const std::string& where, bool full) {
        auto bad = [&](const std::string& what, const std::string& got, const std::string& want) {
            r.fail("state", where + ": " + what + " is " + got + ", expected " + want);
        };
        if (!errored) {
            auto regs = native->GetRegisters();
            auto chk = [&](const std::string& n, int64_t want) {
                auto i = regs.find(n);
                if (i == regs.end()) bad(n, "missing", std::to_string(want));
                if (i->second != want) bad(n, std::to_string(i->second), std::to_string(want));
            };
            chk("IP", (int64_t)M.m.ip); chk("SP", M.m.sp); chk("BP", M.m.bp);
            for (size_t i = 0; i < M.m.R.size(); ++i) chk("R" + std::to_string(i), M.m.R[i]);
            if (regs.size() != M.m.R.size() + 3) bad("number of registers", std::to_string(regs.size()), std::to_string(M.m.R.size() + 3));
            if (full) {
                auto f = native->GetFloatRegisters();
                for (size_t i = 0; i < M.m.F.size(); ++i) {
                    auto it = f.find("F" + std::to_string(i));
                    if (it == f.end()) bad("F" + std::to_string(i), "missing", "shown");
                    double w = M.m.getF((int)i);
                    if (std::isnan(w) ? !std::isnan(it->second) : bits(w) != bits(it->second)) bad("F" + std::to_string(i), fmt::format("{}", it->second), fmt::format("{}", w));
                }
            }
        }
        auto mem = native->ReadMemory(0, size.ram);
        if (mem.size() != size.ram) bad("memory size", std::to_string(mem.size()), std::to_string(size.ram));
        for (size_t i = 0; i < size.ram; ++i) if (mem[i] != M.m.mem[i]) bad("[" + std::to_string(i) + "]", std::to_string(mem[i]), std::to_string(M.m.mem[i]));
        if (full) compareText(where);
        checkOutput(where.c_str());
        auto& b = native->GetBreakpoints();
        bool same = b.size() == M.bps.size();
        for (auto& [a, e] : M.bps) { auto i = b.find(a); same = same && i != b.end() && i->second.enabled == e; }
        if (!same) bad("breakpoint table", table(b), table2());
        auto& w = native->GetWatchpoints();
        bool ws = w.size() == M.wps.size();
        for (auto a : M.wps) ws = ws && w.count(a);
        if (!ws) bad("watchpoint table", std::to_string(w.size()) + " entries", std::to_string(M.wps.size()) + " entries");
    }
    void compareText(const std::string& where) {
        auto n = native->TextSize();
        if (n != M.text.size()) r.fail("text", where + ": text size is " + std::to_string(n));
        auto text = native->ReadText(0, n);
        if (text.size() != n) r.fail("text", where + ": " + std::to_string(text.size()) + " instructions shown instead of " + std::to_string(n));
        for (size_t i = 0; i < n; ++i) {
            std::string got;
            try { got = canon(text[i]); } catch (const std::exception&) { got = text[i]; }
            auto want = canon(isa::text(M.text[i]));
            // Known finding: see known_findings.json. T86_SIM_STRICT reports it.
            if (got.empty() && blank.count(i) && !getenv("T86_SIM_STRICT")) { ++r.count["known.disabled_breakpoint_shown_blank"]; continue; }
            if (got != want) r.fail("text", where + ": instruction " + std::to_string(i) + " is shown as \"" + text[i] + "\", it is \"" + want + "\"");
        }
    }
    template <class B> std::string table(const B& b) { std::string s; for (auto& [a, x] : b) s += std::to_string(a) + (x.enabled ? "+ " : "- "); return s; }
    std::string table2() { std::string s; for (auto& [a, x] : M.bps) s += std::to_string(a) + (x ? "+ " : "- "); return s; }

    static Out toOut(const DebugEvent& e) {
        if (auto* b = std::get_if<BreakpointHit>(&e)) return {Ev::Bp, b->address};
        if (auto* w = std::get_if<WatchpointTrigger>(&e)) return {Ev::Wp, w->address};
        if (std::holds_alternative<Singlestep>(e)) return {Ev::Step, 0};
        if (std::holds_alternative<ExecutionEnd>(e)) return {Ev::End, 0};
        if (std::holds_alternative<CpuError>(e)) return {Ev::Err, 0};
        return {Ev::None, 0};
    }

    // Executes one run-control command on both sides.
    template <class Pred, class Real>
    bool control(const std::string& name, Pred pred, Real real) {
        Model next = M;
        next.steps = 0;
        Out want = pred(next);
        if (want.ev == Ev::None) { ++r.count["skipped"]; return false; }
        r.say(name + " at " + std::to_string(M.m.ip) + " -> " + evName(want.ev) + " " + std::to_string(want.addr) + " ip " + std::to_string(next.m.ip) + " after " + std::to_string(next.steps));
        t.pulses = 0;
        t.limit = 20000 + next.steps * 4000;
        link.limit = link.sentToVm + 5000 + next.steps * 60;
        DebugEvent e;
        try {
            e = real();
        } catch (const DebuggerError& x) {
            r.fail("refused", name + " at " + std::to_string(M.m.ip) + " was refused: " + x.what());
        }
        Out got = toOut(e);
        bool okEv = got.ev == want.ev || (want.bpOk && got.ev == Ev::Bp);
        if (okEv && got.ev == Ev::Bp) okEv = got.addr == (want.bpOk ? next.m.ip : want.addr);
        if (okEv && got.ev == Ev::Wp) okEv = got.addr == want.addr;
        if (!okEv)
            r.fail(std::string("event"), name + " from " + std::to_string(M.m.ip) + " reported " + evName(got.ev) + " " + std::to_string(got.addr) + " (ip " + std::to_string(native->GetIP()) + "), expected " + evName(want.ev) + " " + std::to_string(want.addr) + " (ip " + std::to_string(next.m.ip) + ")");
        r.count[std::string("stop.") + evName(got.ev)]++;
        r.mix((uint64_t)got.ev); r.mix(got.addr); r.mix(t.pulses);
        M = next;
        r.ticks += t.pulses;
        r.count["instructions"] += M.steps;
        ++stops;
        if (got.ev == Ev::End) over = true;
        if (got.ev == Ev::Err) { over = errored = true; ++r.count["fault.execution_error"]; }
        compare("after " + name, over || pr(1, 3));
        return true;
    }

    template <class F> void allowed(const std::string& what, F f) {
        r.say(what);
        try { f(); } catch (const DebuggerError& e) { r.fail("refused", what + " was refused: " + e.what()); }
        catch (const std::exception& e) { r.fail("exception", what + " ended in an exception: " + e.what()); }
    }
    template <class F> void refused(const std::string& what, F f) {
        r.say(what + " (to be refused)");
        ++r.count["fault.refused_request"];
        bool threw = false;
        try { f(); } catch (const DebuggerError&) { threw = true; }
        catch (const std::exception& e) { r.fail("exception", what + " ended in an exception: " + e.what()); }
        if (!threw) r.fail("not-refused", what + " was not refused");
        compare("after refused " + what, true);
    }

    uint64_t addr() {
        if (plan.unreached && pr(3, 4)) {        // code no correct execution reaches
            for (int i = 0; i < 8; ++i) { uint64_t a = c((uint32_t)prog.text.size()); if (!reached.count(a)) return a; }
        }
        if (!trace.empty() && pr(3, 4)) { auto a = trace[c((uint32_t)trace.size())]; if (a < prog.text.size()) return a; }
        if (pr(1, 4) && M.m.ip + 1 < prog.text.size()) return M.m.ip + c(2);
        return c((uint32_t)prog.text.size());
    }
    uint64_t cell() {
        if (plan.unreached && pr(1, 2)) return c(8);
        if (!writes.empty() && pr(3, 4)) return writes[c((uint32_t)writes.size())];
        if (pr(1, 2)) return c(8);
        return c((uint32_t)size.ram);
    }
    int64_t value() {
        static const int64_t v[] = {0, 1, -1, 7, 42, 1000, -12345, 2147483648LL, (int64_t)0x7fffffffffffffffLL, (int64_t)0x8000000000000000ULL};
        return pr(1, 2) ? v[c(10)] : (int64_t)c(1 << 16) - 100;
    }
    Ins newIns() {
        Ins i;
        int reg = (int)c((uint32_t)size.nreg);
        switch (c(9)) {
        case 0: break;
        case 8: i.op = Op::BKPT; break;
        case 1: i.op = Op::ADD; i.a = Opnd::reg(reg); i.b = Opnd::imm((int64_t)c(100) - 50); break;
        case 2: i.op = Op::MOV; i.a = Opnd::memimm(c(6)); i.b = Opnd::reg(reg); break;
        case 3: i.op = Op::PUTNUM; i.a = Opnd::reg(reg); break;
        case 4: i.op = Op::MOV; i.a = Opnd::reg(reg); i.b = Opnd::memimm(c(6)); break;
        case 5: i.op = Op::HALT; break;
        case 6: i.op = Op::JMP; i.a = Opnd::imm(c((uint32_t)prog.text.size())); break;
        default: i = prog.text[c((uint32_t)prog.text.size())]; break;
        }
        return i;
    }
    double fvalue() {
        static const double v[] = {0.0, 1.0, -1.0, 0.1, -2.5, 1e300, 1e-300, 123456.789, -0.0, 1.0 / 3.0};
        return v[c(10)];
    }

    void setBlank() { blank.clear(); for (auto& [a, e] : M.bps) if (!e) blank.insert(a); }

    void restart() {
        r.say("restart");
        ++r.count["fault.restart"];
        auto b = native->GetBreakpoints();
        auto w = native->GetWatchpoints();
        terminate();
        launch();
        if (plan.vars) readInfo();
        setBlank();
        allowed("carry breakpoints over", [&] { native->SetAllBreakpoints(b); });
        allowed("carry watchpoints over", [&] { native->SetAllWatchpoints(w); });
        compare("after restart", true);
    }

    void act(Act a) {
        link.limit = link.sentToVm + 5000;
        ++r.count[std::string("cmd.") + actName[a]];
        auto S = [](auto v) { return std::to_string(v); };
        switch (a) {
        case A_STEP: control("step", [](Model& m) { return m.one(); }, [&] { return native->PerformSingleStep(); }); break;
        case A_CONT: control("continue", [](Model& m) { return m.cont(); }, [&] { native->ContinueExecution(); return native->WaitForDebugEvent(); }); break;
        case A_RAW: control("raw step", [](Model& m) { return m.raw(); }, [&] { return native->DoRawSingleStep(); }); break;
        case A_OVER: control("step over", [&](Model& m) { return both(m, [](Model& x, bool h) { return x.over(true, h); }); }, [&] { return native->PerformStepOver(); }); break;
        case A_OUT: control("step out", [&](Model& m) { return both(m, [](Model& x, bool h) { return x.out(h); }); }, [&] { return native->PerformStepOut(); }); break;
        case A_SRCIN: control("source step in", [&](Model& m) { return m.stepIn(lineAddrs); }, [&] { return source.StepIn(*native); }); break;
        case A_SRCOVER: control("source step over", [&](Model& m) { return both(m, [&](Model& x, bool h) { return x.stepOver(lineAddrs, h); }); }, [&] { return source.StepOver(*native); }); break;
        case A_SETBP: {
            auto x = addr();
            if (M.bps.count(x)) { refused("set bp " + S(x), [&] { native->SetBreakpoint(x); }); break; }
            allowed("set bp " + S(x), [&] { native->SetBreakpoint(x); });
            M.bps[x] = true;
            break;
        }
        case A_UNSETBP: case A_ENABLE: case A_DISABLE: {
            uint64_t x;
            if (!M.bps.empty() && !pr(1, 8)) { auto i = M.bps.begin(); std::advance(i, c((uint32_t)M.bps.size())); x = i->first; } else x = addr();
            bool has = M.bps.count(x);
            std::string n = std::string(actName[a]) + " " + S(x);
            auto f = [&] { if (a == A_UNSETBP) native->UnsetBreakpoint(x); else if (a == A_ENABLE) native->EnableSoftwareBreakpoint(x); else native->DisableSoftwareBreakpoint(x); };
            if (!has) { refused(n, f); break; }
            allowed(n, f);
            if (a == A_UNSETBP) M.bps.erase(x); else M.bps[x] = a == A_ENABLE;
            if (a != A_DISABLE) blank.erase(x);
            if (pr(1, 3)) compareText("after " + n);
            break;
        }
        case A_SETWP: {
            auto x = cell();
            auto f = [&] { native->SetWatchpointWrite(x); };
            if (M.wps.count(x) || M.wps.size() >= 4) { refused("set wp " + S(x), f); break; }
            allowed("set wp " + S(x), f);
            M.wps.insert(x);
            break;
        }
        case A_RMWP: {
            uint64_t x;
            if (!M.wps.empty() && !pr(1, 8)) { auto i = M.wps.begin(); std::advance(i, c((uint32_t)M.wps.size())); x = *i; } else x = cell();
            auto f = [&] { native->RemoveWatchpoint(x); };
            if (!M.wps.count(x)) { refused("remove wp " + S(x), f); break; }
            allowed("remove wp " + S(x), f);
            M.wps.erase(x);
            break;
        }
        case A_POKEREG: {
            int k = (int)c((uint32_t)size.nreg + 2);
            int64_t v = value();
            std::string n;
            if (k < (int)size.nreg) { n = "R" + S(k); M.m.R[k] = v; }
            else { v = (int64_t)size.ram - c((uint32_t)size.ram / 2); if (k == (int)size.nreg) { n = "SP"; M.m.sp = v; } else { n = "BP"; M.m.bp = v; } }
            allowed("set " + n + " to " + S(v), [&] { native->SetRegister(n, v); });
            compare("after setting " + n, true);
            break;
        }
        case A_POKEIP: {
            auto x = addr();
            allowed("set IP to " + S(x), [&] { native->SetRegister("IP", (int64_t)x); });
            M.m.ip = x;
            compare("after setting IP", true);
            break;
        }
        case A_POKEF: {
            for (size_t i = 0; i < M.m.F.size(); ++i) if (std::isnan(M.m.getF((int)i))) return;
            int k = (int)c((uint32_t)size.nfreg);
            double v = fvalue();
            allowed(fmt::format("set F{} to {}", k, v), [&] { native->SetFloatRegister("F" + S(k), v); });
            M.m.F[k] = bits(v);
            compare("after setting F" + S(k), true);
            break;
        }
        case A_POKEMEM: {
            uint64_t x = cell();
            std::vector<int64_t> v;
            uint32_t n = 1 + c(3);
            for (uint32_t i = 0; i < n && x + i < size.ram; ++i) v.push_back(value());
            allowed("set memory at " + S(x) + " to " + S(v[0]) + " ...", [&] { native->SetMemory(x, v); });
            for (size_t i = 0; i < v.size(); ++i) M.m.mem[x + i] = v[i];
            compare("after setting memory", true);
            break;
        }
        case A_POKETEXT: {
            uint64_t x = addr();
            std::vector<std::string> v;
            std::vector<Ins> is;
            uint32_t n = 1 + c(2);
            for (uint32_t i = 0; i < n && x + i < prog.text.size(); ++i) { is.push_back(newIns()); v.push_back(isa::text(is.back())); }
            allowed("write text at " + S(x) + ": " + v[0] + (v.size() > 1 ? "; " + v[1] : ""), [&] { native->WriteText(x, v); });
            for (size_t i = 0; i < v.size(); ++i) { M.text[x + i] = is[i]; blank.erase(x + i); }
            compare("after writing text", true);
            break;
        }
        case A_REFUSED: refusal(); break;
        case A_RESTART: restart(); break;
        case A_SETALLBP: {
            std::map<uint64_t, SoftwareBreakpoint> b;
            std::map<uint64_t, bool> nb;
            uint32_t n = c(4);
            for (uint32_t i = 0; i < n; ++i) { auto x = addr(); bool e = pr(2, 3); b[x] = SoftwareBreakpoint{"", e}; nb[x] = e; }
            allowed("replace all breakpoints", [&] { native->SetAllBreakpoints(b); });
            M.bps = nb;
            setBlank();
            compare("after replacing breakpoints", true);
            break;
        }
        case A_SETALLWP: {
            std::map<uint64_t, Watchpoint> w;
            uint32_t n = c(5);
            for (uint32_t i = 0; i < n; ++i) w[cell()] = Watchpoint{Watchpoint::Type::Write, c(4)};
            allowed("replace all watchpoints", [&] { native->SetAllWatchpoints(w); });
            M.wps.clear();
            for (auto& [x, y] : w) M.wps.insert(x);
            compare("after replacing watchpoints", true);
            break;
        }
        case A_LINEBP: lineBp(); break;
        case A_EXPR: evaluate(info.any(r, M.m, 3), pr(1, 3)); break;
        case A_ASSIGN: evaluate(info.assignment(r, M.m), true); break;
        case A_FRAME: frame(); break;
        case A_POINT: pokeVariable(); break;
        default: break;
        }
    }

    // Step over and step out find the frame by the base pointer; where a program's frames do not
    // fit that convention there is no telling which activation is meant, and the command is skipped.
    template <class F> Out both(Model& m, F f) {
        Model h = m;
        Out a = f(h, true), b = f(m, false);
        if (a.ev != b.ev || a.addr != b.addr || h.m.ip != m.m.ip || h.m.sp != m.m.sp || h.steps != m.steps) { ++r.count["ambiguous_frame"]; return {}; }
        return b;
    }

    void refusal() {
        auto S = [](auto v) { return std::to_string(v); };
        uint64_t far = pr(3, 4) ? c(4) : pr(1, 2) ? 1000000 : ~0ULL - prog.text.size() - size.ram - c(3);
        bool huge = far > 2000000;
        switch (c(9)) {
        case 0: { uint64_t x = huge ? far : prog.text.size() + far; refused("set bp beyond text " + S(x), [&] { native->SetBreakpoint(x); }); break; }
        case 1: { std::string n = c(2) ? "R" + S(size.nreg + c(3)) : "Q1"; refused("set " + n, [&] { native->SetRegister(n, 1); }); break; }
        case 2: { std::string n = "R" + S(size.nreg + c(3)); refused("get " + n, [&] { native->GetRegister(n); }); break; }
        case 3: { std::string n = "F" + S(size.nfreg + c(3)); refused("set " + n, [&] { native->SetFloatRegister(n, 1.0); }); break; }
        case 4: { uint64_t x = huge ? ~0ULL - c(2) : size.ram + far - c(2); refused("write memory " + S(x), [&] { native->SetMemory(x, {value(), value(), value()}); }); break; }
        case 5: { uint64_t x = huge ? ~0ULL - c(2) : size.ram + far - c(2); refused("read memory " + S(x), [&] { native->ReadMemory(x, 3); }); break; }
        case 6: { uint64_t x = huge ? ~0ULL - c(2) : prog.text.size() + far; refused("read text " + S(x), [&] { native->ReadText(x, 1 + c(3) + (huge ? 3 : 0)); }); break; }
        case 7: {
            uint64_t x = huge ? ~0ULL - c(2) : prog.text.size() + far;
            refused("write text " + S(x), [&] { native->WriteText(x, huge ? std::vector<std::string>{"NOP", "NOP", "NOP"} : std::vector<std::string>{"NOP"}); });
            break;
        }
        default: {
            static const char* bad[] = {"FOO", "MOV R0", "ADD R0, ", "MOV R0, 1 2", "", "MOV [R0 + ], 1", "JMP", "NOP NOP"};
            uint64_t x = addr();
            std::vector<std::string> v{bad[c(8)]};
            if (pr(1, 2) && x > 0) { --x; v.insert(v.begin(), "NOP"); }
            refused("write bad text at " + S(x) + ": " + v.back(), [&] { native->WriteText(x, v); });
            break;
        }
        }
    }

    void lineBp() {
        if (lineMap.empty()) return;
        auto i = lineMap.begin();
        std::advance(i, c((uint32_t)lineMap.size()));
        size_t line = i->first;
        uint64_t x = i->second;
        if (pr(1, 10)) {
            size_t no = 0;
            while (lineMap.count(no)) ++no;
            refused("line bp without a line", [&] { source.SetSourceSoftwareBreakpoint(*native, no); });
            return;
        }
        bool has = M.bps.count(x);
        int k = has ? 1 + (int)c(3) : 0;
        std::string n = "line bp " + std::to_string(line) + " kind " + std::to_string(k);
        uint64_t got = ~0ULL;
        allowed(n, [&] {
            switch (k) {
            case 0: got = source.SetSourceSoftwareBreakpoint(*native, line); break;
            case 1: got = source.UnsetSourceSoftwareBreakpoint(*native, line); break;
            case 2: got = source.EnableSourceSoftwareBreakpoint(*native, line); break;
            default: got = source.DisableSourceSoftwareBreakpoint(*native, line); break;
            }
        });
        if (got != x) r.fail("line", "a breakpoint on line " + std::to_string(line) + " went to " + std::to_string(got) + ", the line table says " + std::to_string(x));
        if (k == 1) M.bps.erase(x); else M.bps[x] = k != 3;
        if (k != 3) blank.erase(x);
    }

    // One expression, against the reference evaluator.
    void evaluate(const srcm::P& e, bool all) {
        std::string text = srcm::show(e), want;
        isa::Machine m = M.m;
        srcm::Val v;
        bool ok = true;
        try { v = info.eval(e, m); } catch (const srcm::Refuse& x) { ok = false; want = x.why; } catch (const srcm::Undefined&) { return; }
        std::string shown;
        bool printable = ok;
        if (ok) try { shown = info.show(v, m); } catch (const srcm::Refuse&) { printable = false; }
        if (!ok) {
            ++r.count["expressions_refused"];
            refused("evaluate " + text, [&] { source.EvaluateExpression(*native, text); });
            return;
        }
        ++r.count["expressions"];
        auto before = info.results.size();
        std::optional<TypedValue> got;
        size_t idx = 0;
        allowed("evaluate " + text + " -> " + (printable ? shown : "(cannot be shown)"), [&] { auto x = source.EvaluateExpression(*native, text); got = x.first; idx = x.second; });
        info.results.push_back(v);
        if (idx != before) r.fail("expression", text + " was stored as $" + std::to_string(idx) + " after " + std::to_string(before) + " others");
        if (m.mem != M.m.mem || m.R != M.m.R || m.sp != M.m.sp || m.bp != M.m.bp) ++r.count["assignments"];
        M.m = m;
        std::string type = source.TypedValueTypeToString(*got);
        if (type != info.typeName(v)) r.fail("expression", text + " has type " + type + ", it is " + info.typeName(v));
        if (printable) {
            std::string s;
            allowed("show " + text, [&] { s = source.TypedValueToString(*native, *got); });
            if (s != shown) r.fail("expression", text + " is shown as " + s + ", it is " + shown);
            r.mix(s);
        } else refused("show " + text, [&] { source.TypedValueToString(*native, *got); });
        compare("after evaluating " + text, all);
    }
    // The variables in scope with their types and values.
    void frame() {
        auto sc = info.scope(M.m.ip);
        std::set<std::string> want, got;
        for (auto& [n, v] : sc) want.insert(n);
        allowed("variables at " + std::to_string(M.m.ip), [&] { got = source.GetScopedVariables(M.m.ip); });
        if (got != want) r.fail("scope", "at " + std::to_string(M.m.ip) + " " + std::to_string(got.size()) + " variables are in scope, there should be " + std::to_string(want.size()));
        for (auto& n : want) {
            std::string shown;
            srcm::Val v;
            auto e = std::make_shared<srcm::Ex>();
            e->k = srcm::Ex::Name; e->s = n;
            bool ok = true;
            try { isa::Machine m = M.m; v = info.eval(e, m); shown = info.show(v, m); } catch (const srcm::Refuse&) { ok = false; }
            if (!ok) { refused("show variable " + n, [&] { auto x = source.EvaluateExpression(*native, n, false); source.TypedValueToString(*native, x.first); }); continue; }
            std::string s, ty;
            allowed("show variable " + n, [&] {
                auto x = source.EvaluateExpression(*native, n, false);
                s = source.TypedValueToString(*native, x.first);
                auto t = source.GetVariableTypeInformation(*native, n);
                ty = t ? source.TypeToString(*t) : "(none)";
            });
            if (s != shown || ty != info.typeName(v)) r.fail("variable", "at " + std::to_string(M.m.ip) + " variable " + n + " is shown as (" + ty + ") " + s + ", it is (" + info.typeName(v) + ") " + shown);
            ++r.count["variables_shown"];
        }
        auto f = info.function(M.m.ip);
        auto fn = source.GetFunctionNameByAddress(M.m.ip);
        if ((f ? f->name : "") != (fn ? *fn : "")) r.fail("scope", "the function at " + std::to_string(M.m.ip) + " is said to be " + (fn ? *fn : "none"));
    }
    // Puts something of its type into a variable's cells: addresses into pointers, letters into characters.
    void pokeVariable() {
        auto sc = info.scope(M.m.ip);
        if (sc.empty()) return;
        auto i = sc.begin();
        std::advance(i, c((uint32_t)sc.size()));
        try {
            auto l = info.locate(*i->second, M.m);
            if (!i->second->type) return;
            fillIn(info.read(l, *i->second->type, M.m));
        } catch (const srcm::Refuse&) {}
    }
    void fillIn(const srcm::Val& v) {
        using K = srcm::Kind;
        if (v.k == K::Str) { for (auto& [n, x] : v.m) fillIn(x); return; }
        if (v.k == K::Arr) { for (auto& x : v.a) fillIn(x); return; }
        static const double f[] = {0.0, 1.5, -2.0, 0.25, 1e10};
        int64_t x = 0;
        switch (v.k) {
        case K::Ptr: x = pr(1, 20) ? (int64_t)size.ram - 1 + c(2) : (int64_t)c((uint32_t)std::min<size_t>(size.ram, 24)); break;
        case K::Chr: x = pr(1, 3) ? 0 : pr(1, 12) ? value() : 'a' + (int64_t)c(26); break;
        case K::Flt: { double d = f[c(5)]; memcpy(&x, &d, 8); break; }
        default: x = value(); break;
        }
        if (v.loc->reg >= 0) {
            if (v.loc->reg >= isa::SP) return;
            std::string n = srcm::regName(v.loc->reg);
            allowed("set " + n + " to " + std::to_string(x), [&] { native->SetRegister(n, x); });
            M.m.R[v.loc->reg] = x;
        } else {
            allowed("set memory at " + std::to_string(v.loc->cell) + " to " + std::to_string(x), [&] { native->SetMemory((uint64_t)v.loc->cell, {x}); });
            M.m.mem[(size_t)v.loc->cell] = x;
        }
    }
    void readInfo() {
        source = Source();
        if (plan.lines) source.RegisterLineMapping(LineMapping(lineMap));
        info.results.clear();
        try {
            std::istringstream s(infoText);
            dbg::Parser p(s);
            auto d = p.Parse();
            if (!d.top_die) r.fail("info", "the debugging information was not read");
            source.RegisterDebuggingInformation(std::move(*d.top_die));
        } catch (const std::exception& e) { r.fail("info", std::string("the debugging information was not accepted: ") + e.what()); }
    }
    void makeInfo() {
        std::vector<uint64_t> cuts;
        for (auto& i : prog.text) if (i.op == Op::CALL && i.a.k == isa::K::Imm) cuts.push_back((uint64_t)i.a.i1);
        info.generate(r, size, prog.text.size(), cuts);
        infoText = info.text(r);
        if (r.verbose) r.say(infoText);
        readInfo();
    }

    void makeLines() {
        size_t line = c(3);
        for (uint64_t a = 0; a < prog.text.size(); ++a) {
            if (!pr(1, 3)) continue;
            lineMap[line] = a; lineAddrs.insert(a);
            line += 1 + c(2);
            if (pr(1, 8)) { lineMap[line] = a; ++line; }
        }
        source.RegisterLineMapping(LineMapping(lineMap));
        if (r.verbose) { std::string s = "lines:"; for (auto& [l, a] : lineMap) s += " " + std::to_string(l) + "@" + std::to_string(a); r.say(s); }
    }

    void go() {
        size_t steps = 0;
        input = vm::drawInput(r);
        prog = gen::generateTerminating(r.ch, plan.prof, {size.nreg, size.nfreg, size.ram}, input, plan.maxSteps, &steps);
        t.textSize = prog.text.size();
        static const uint32_t sw[] = {0, 0, 20, 60};
        switchPct = sw[r.ch.choose(S_CFG, 4)];
        if (r.verbose) { r.say(vm::describe(size, t)); r.say("input: \"" + input + "\""); r.say(prog.source()); }
        { // the undisturbed run
            isa::Machine m(size.nreg, size.nfreg, size.ram);
            m.in = input; m.load(prog);
            for (size_t i = 0; i < steps; ++i) { trace.push_back(m.ip); reached.insert(m.ip); isa::Effect e; if (m.step(prog.text, &e) != isa::Step::Ok) break; for (auto w : e.writes) writes.push_back(w); }
        }
        launch();
        if (plan.lines) makeLines();
        if (plan.vars) makeInfo();
        uint32_t ops = 3 + c(plan.maxOps);
        for (uint32_t i = 0; i < ops; ++i) {
            if (over) { if (plan.w[A_RESTART] && i + 3 < ops && pr(1, 2)) restart(); else break; }
            std::vector<uint32_t> w(plan.w, plan.w + A_COUNT);
            act((Act)r.ch.weighted(S_CMD, w));
            r.note("between commands");
        }
        if (!over && plan.drain && pr(3, 4)) {
            r.say("drain");
            std::vector<uint64_t> v;
            for (auto& [a, e] : M.bps) v.push_back(a);
            if (pr(1, 2)) {
                for (auto a : v) { allowed("unset bp " + std::to_string(a), [&] { native->UnsetBreakpoint(a); }); M.bps.erase(a); }
                std::vector<uint64_t> q(M.wps.begin(), M.wps.end());
                for (auto a : q) { allowed("remove wp " + std::to_string(a), [&] { native->RemoveWatchpoint(a); }); M.wps.erase(a); }
            }
            compareText("before the last run");
            for (int i = 0; i < 60 && !over; ++i)
                if (!control("continue", [](Model& m) { return m.cont(); }, [&] { native->ContinueExecution(); return native->WaitForDebugEvent(); })) break;
        }
        terminate();
        r.nontrivial = stops >= 2;
        ++r.count["sessions"];
        r.count["stops"] += stops;
        r.mix(io->out.str());
    }
};

void session(Run& r, Plan p) {
    Size s = vm::drawSize(r);
    s.alu = 1 + r.ch.choose(S_CFG, 4);
    s.rs = 2 * s.alu;
    Timing t(r);
    t.draw();
    auto S = std::make_unique<Session>(r, p, s, t);
    try {
        S->go();
    } catch (...) {
        S.release();   // a machine abandoned in the middle of its run is not unwound
        throw;
    }
}

Plan base() {
    Plan p;
    p.prof.bkpt = 1; p.prof.maxItems = 8; p.prof.io = 2; p.prof.input = 1; p.prof.haltFault = true; p.prof.floatImmTiny = true;
    return p;
}
void set(Plan& p, std::initializer_list<std::pair<Act, uint32_t>> l) { for (auto& [a, w] : l) p.w[a] = w; }

void p07(Run& r) {
    auto p = base();
    p.prof.input = 2; p.prof.fault = 0; p.prof.call = 5;
    set(p, {{A_STEP, 30}, {A_CONT, 6}, {A_SETBP, 5}, {A_UNSETBP, 2}, {A_DISABLE, 2}, {A_ENABLE, 1}, {A_SETWP, 3}, {A_RMWP, 1}, {A_RAW, 2}});
    p.maxOps = 40;
    session(r, p);
}
void p08(Run& r) {
    auto p = base();
    p.prof.loop = 6;
    set(p, {{A_CONT, 14}, {A_STEP, 5}, {A_SETBP, 12}, {A_UNSETBP, 4}, {A_DISABLE, 4}, {A_ENABLE, 4}, {A_RAW, 2}, {A_POKETEXT, 2}, {A_SETWP, 1}, {A_OVER, 1}, {A_REFUSED, 1}});
    p.maxOps = 40;
    session(r, p);
}
void p09(Run& r) {
    auto p = base();
    p.prof.mem = 14; p.prof.storm = 4; p.prof.stack = 6; p.prof.call = 4; p.prof.dead = 4;
    set(p, {{A_CONT, 14}, {A_STEP, 6}, {A_SETWP, 12}, {A_RMWP, 6}, {A_SETBP, 3}, {A_UNSETBP, 1}, {A_DISABLE, 1}, {A_OVER, 2}});
    p.maxOps = 40;
    session(r, p);
}
void p10(Run& r) {
    auto p = base();
    p.prof.mem = 12; p.prof.storm = 3;
    set(p, {{A_CONT, 5}, {A_STEP, 10}, {A_SETBP, 6}, {A_UNSETBP, 2}, {A_DISABLE, 1}, {A_SETWP, 2}, {A_RMWP, 1}, {A_POKEREG, 6}, {A_POKEIP, 2}, {A_POKEF, 3}, {A_POKEMEM, 8}, {A_POKETEXT, 4}, {A_REFUSED, 3}});
    p.maxOps = 30;
    session(r, p);
}
void p11(Run& r) {
    auto p = base();
    p.prof.frames = r.ch.chance(S_CFG, 3, 4); p.prof.recursion = true; p.prof.call = 8; p.prof.functions = 3; p.prof.retjump = 0; p.prof.spbp = 0;
    set(p, {{A_OVER, 16}, {A_OUT, 6}, {A_STEP, 8}, {A_CONT, 3}, {A_SETBP, 5}, {A_UNSETBP, 2}, {A_DISABLE, 3}, {A_ENABLE, 1}, {A_SETWP, 2}, {A_RMWP, 1}});
    p.maxOps = 30;
    session(r, p);
}
void p12(Run& r) {
    auto p = base();
    p.prof.io = 4; p.prof.input = 3; p.prof.fault = r.ch.chance(S_CFG, 1, 4);
    set(p, {{A_CONT, 6}, {A_STEP, 8}, {A_OVER, 4}, {A_OUT, 1}, {A_RAW, 1}, {A_SETBP, 8}, {A_UNSETBP, 2}, {A_DISABLE, 2}, {A_ENABLE, 2}, {A_SETWP, 4}, {A_RMWP, 2}, {A_REFUSED, 1}});
    session(r, p);
}
void p16(Run& r) {
    auto p = base();
    set(p, {{A_CONT, 10}, {A_STEP, 3}, {A_SETBP, 8}, {A_UNSETBP, 3}, {A_DISABLE, 5}, {A_ENABLE, 4}, {A_SETWP, 5}, {A_RMWP, 2}, {A_RESTART, 6}, {A_SETALLBP, 4}, {A_SETALLWP, 3}, {A_POKETEXT, 1}, {A_POKEIP, 1}});
    p.maxOps = 30;
    session(r, p);
}
void p19(Run& r) {
    auto p = base();
    p.vars = true;
    p.lines = r.ch.chance(S_CFG, 1, 3);
    p.prof.frames = r.ch.chance(S_CFG, 3, 4); p.prof.recursion = true; p.prof.call = 6; p.prof.functions = 3; p.prof.mem = 10;
    set(p, {{A_EXPR, 24}, {A_ASSIGN, 14}, {A_FRAME, 6}, {A_POINT, 12}, {A_STEP, 12}, {A_CONT, 3}, {A_OVER, 3}, {A_OUT, 2}, {A_SETBP, 6}, {A_UNSETBP, 1}, {A_DISABLE, 1}, {A_SETWP, 2}, {A_RMWP, 1}, {A_POKEREG, 2}, {A_POKEIP, 1}, {A_POKEMEM, 3}, {A_RESTART, 1}});
    p.maxOps = 50;
    session(r, p);
}
void p17(Run& r) {
    auto p = base();
    p.lines = true;
    p.prof.frames = r.ch.chance(S_CFG, 3, 4); p.prof.recursion = true; p.prof.call = 6; p.prof.functions = 3; p.prof.retjump = 0; p.prof.spbp = 0;
    set(p, {{A_SRCIN, 10}, {A_SRCOVER, 12}, {A_OUT, 3}, {A_STEP, 3}, {A_CONT, 4}, {A_LINEBP, 8}, {A_SETBP, 2}, {A_UNSETBP, 1}, {A_DISABLE, 1}, {A_SETWP, 2}, {A_RMWP, 1}});
    p.maxOps = 30;
    session(r, p);
}
}

// P02, P03 and P06 in debug sessions
void cpuSession(Run& r) {
    auto p = base();
    set(p, {{A_CONT, 12}, {A_STEP, 10}, {A_OVER, 3}, {A_SETBP, 8}, {A_UNSETBP, 2}, {A_DISABLE, 2}, {A_ENABLE, 2}, {A_SETWP, 4}, {A_RMWP, 2}});
    if (r.prop == "P02") {
        p.prof.dead = 8; p.prof.indirect = 6; p.prof.retjump = 4; p.prof.cmpjump = 10; p.prof.loop = 4; p.prof.io = 4; p.prof.input = 3;
        p.unreached = true;
    } else if (r.prop == "P03") {
        p.prof.fault = 1; p.prof.minItems = 2;
    } else {
        p.prof.io = 10; p.prof.input = 8; p.prof.dead = 5; p.prof.alu = 4;
        p.w[A_RESTART] = 1;
    }
    session(r, p);
}

Scenario dbgScenario(const std::string& p) {
    if (p == "P07") return p07;
    if (p == "P08") return p08;
    if (p == "P09") return p09;
    if (p == "P10") return p10;
    if (p == "P11") return p11;
    if (p == "P12") return p12;
    if (p == "P16") return p16;
    if (p == "P17") return p17;
    if (p == "P19") return p19;
    return nullptr;
}
}

sim::Scenario sim::find_scenario(const std::string& p) { auto s = dbg::dbgScenario(p); if (!s) s = dbg::rawScenario(p); return s ? s : vm::cpuScenario(p); }
