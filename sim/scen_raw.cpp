// P15: the debug server against arbitrary clients: well-formed, malformed and unknown requests,
// pipelined or one by one, with disconnects and link failures at any point.
#include "dbg.h"

namespace dbg {
using isa::Ins; using isa::Op; using isa::Opnd;
namespace {
using Check = std::function<std::string(const std::string&)>;   // what is wrong with a reply
struct Expect { std::string request; Check check; bool stopAfter = false, endAfter = false; };

struct Raw {
    Run& r; Size size; Timing& t; isa::Program prog; std::string input;
    Link link; std::unique_ptr<Host> host; std::unique_ptr<vm::StdIo> io;
    isa::Machine m; std::vector<Ins> text;
    std::string reason = "START";
    uint64_t D[5] = {};
    bool ended = false, errored = false, halted = false;
    size_t answered = 0, bad = 0, stops = 0, budget = 3000;
    std::vector<uint64_t> trace, writes;

    Raw(Run& r, Size s, Timing& t) : r(r), size(s), t(t), m(s.nreg, s.nfreg, s.ram) {}
    uint32_t c(uint32_t n) { return r.ch.choose(S_CMD, n); }
    bool pr(uint32_t a, uint32_t b) { return r.ch.chance(S_CMD, a, b); }
    template <class T> static std::string S(T v) { return std::to_string(v); }

    // ---- the reference
    enum class Go { Ok, Unknown };
    Go one(bool single, bool& stop) {
        isa::Effect e;
        stop = true;
        auto s = m.step(text, &e);
        if (m.nan) return Go::Unknown;
        switch (s) {
        case isa::Step::Fault: reason = "CPU_ERROR"; errored = true; return Go::Ok;
        case isa::Step::Halt: reason = "HALT"; halted = true; return Go::Ok;
        case isa::Step::Bkpt: reason = "SW_BKPT"; return Go::Ok;
        default: break;
        }
        bool hit = false;
        for (auto w : e.writes)
            for (int i = 0; i < 4; ++i)
                if ((D[4] >> i & 1) && D[i] == w) { D[4] = (D[4] & ~0xff00ULL) | (0x100ULL << i); hit = true; }
        if (hit) { reason = "HW_BKPT"; return Go::Ok; }
        if (single) { reason = "SINGLESTEP"; return Go::Ok; }
        stop = false;
        return Go::Ok;
    }
    Go go(bool single, size_t& n) {
        bool stop = false;
        for (n = 1; n <= budget; ++n) { if (one(single, stop) == Go::Unknown) return Go::Unknown; if (stop) return Go::Ok; }
        return Go::Unknown;
    }

    // ---- the client
    std::optional<std::string> next() {
        while (link.toDbg.empty()) { if (host->done()) return std::nullopt; host->resume(); }
        auto s = link.toDbg.front();
        link.toDbg.pop_front();
        return s;
    }
    static Check exactly(std::string w) { return [w](const std::string& g) { return g == w ? "" : "expected \"" + w + "\""; }; }
    static Check error() {
        return [](const std::string& g) { return g.starts_with("ERROR") || g.starts_with("UNKNOWN") ? std::string() : std::string("expected an error reply"); };
    }
    uint64_t addr() {
        if (!trace.empty() && pr(3, 4)) { auto a = trace[c((uint32_t)trace.size())]; if (a < prog.text.size()) return a; }
        return c((uint32_t)prog.text.size());
    }
    uint64_t cell() { return !writes.empty() && pr(3, 4) ? writes[c((uint32_t)writes.size())] : c((uint32_t)size.ram); }
    int64_t value() {
        static const int64_t v[] = {0, 1, -1, 42, 2147483648LL, (int64_t)0x7fffffffffffffffLL, (int64_t)0x8000000000000000ULL, 1000};
        return pr(1, 2) ? v[c(8)] : (int64_t)c(1 << 16) - 100;
    }
    static std::string lines(const std::map<std::string, std::string>&) { return ""; }

    Check registers() {
        std::vector<std::pair<std::string, std::string>> w{{"IP", S((int64_t)m.ip)}, {"BP", S(m.bp)}, {"SP", S(m.sp)}};
        for (size_t i = 0; i < m.R.size(); ++i) w.push_back({"R" + S(i), S(m.R[i])});
        bool values = !errored;
        return [w, values](const std::string& g) -> std::string {
            std::istringstream is(g);
            std::string l;
            size_t n = 0;
            std::map<std::string, std::string> got;
            while (std::getline(is, l)) { auto k = l.find(':'); if (k == l.npos) return "a line without a colon"; got[l.substr(0, k)] = l.substr(k + 1); ++n; }
            if (n != w.size()) return "expected " + std::to_string(w.size()) + " registers";
            for (auto& [k, v] : w) { if (!got.count(k)) return k + " is missing"; if (values && got[k] != v) return k + " should be " + v; }
            return "";
        };
    }
    Check floats() {
        std::vector<double> w;
        for (size_t i = 0; i < m.F.size(); ++i) w.push_back(m.getF((int)i));
        bool values = !errored;
        return [w, values](const std::string& g) -> std::string {
            std::istringstream is(g);
            std::string l;
            size_t n = 0;
            while (std::getline(is, l)) {
                if (n >= w.size() || !l.starts_with("F" + std::to_string(n) + ":")) return "an unexpected line " + l;
                double d = strtod(l.c_str() + l.find(':') + 1, nullptr);
                if (values && memcmp(&d, &w[n], 8) && !(std::isnan(d) && std::isnan(w[n]))) return fmt::format("F{} should be {}", n, w[n]);
                ++n;
            }
            return n == w.size() ? "" : "float registers are missing";
        };
    }
    Check debugs() { std::string w; for (int i = 0; i < 5; ++i) w += "D" + S(i) + ":" + S(D[i]) + "\n"; return exactly(w); }
    Check textCheck(size_t a, size_t n) { std::string w; for (size_t i = a; i < a + n; ++i) w += canon(isa::text(text[i])) + "\n"; return exactly(w); }
    Check dataCheck(size_t a, size_t n) { std::string w; for (size_t i = a; i < a + n; ++i) w += S(m.mem[i]) + "\n"; return exactly(w); }

    Ins newIns() {
        Ins i;
        int reg = (int)c((uint32_t)size.nreg);
        switch (c(7)) {
        case 0: break;
        case 1: i.op = Op::ADD; i.a = Opnd::reg(reg); i.b = Opnd::imm((int64_t)c(100) - 50); break;
        case 2: i.op = Op::MOV; i.a = Opnd::memimm(c(6)); i.b = Opnd::reg(reg); break;
        case 3: i.op = Op::PUTNUM; i.a = Opnd::reg(reg); break;
        case 4: i.op = Op::BKPT; break;
        case 5: i.op = Op::HALT; break;
        default: i = prog.text[c((uint32_t)prog.text.size())]; break;
        }
        return i;
    }

    std::string badRequest() {
        auto big = [&]() -> std::string { static const char* v[] = {"9223372036854775807", "9223372036854775808", "18446744073709551615", "99999999999999999999", "-1", "-9223372036854775808", "x", "1x", "0x1", "1.5", "--1", "+", ""}; return v[c(13)]; };
        auto num = [&](size_t lim) -> std::string { switch (c(3)) { case 0: return big(); case 1: return S(lim + c(3)); default: return S(lim * 1000 + 7); } };
        switch (c(16)) {
        case 0: return "";
        case 1: { static const char* v[] = {"FOO", "reason", "PEEK", "POKE", "REASONS", "CONTINUED", "STOP", "OK", "\x01\x02", "PEEKTEXTS 0 1", "PEEKDATAX 0 1", "POKEREGSX R0 1", "TERMINATED", "SINGLESTEPS"}; return v[c(14)]; }
        case 2: { static const char* v[] = {"PEEKTEXT", "PEEKDATA", "POKETEXT", "POKEDATA", "POKEREGS", "POKEFLOATREGS", "POKEDEBUGREGS"}; return v[c(7)]; }
        case 3: { static const char* v[] = {"PEEKTEXT 0", "PEEKDATA 0", "POKETEXT 0", "POKEDATA 0", "POKEREGS R0", "POKEFLOATREGS F0", "POKEDEBUGREGS D0"}; return v[c(7)]; }
        case 4: return "PEEKTEXT " + num(text.size()) + " 1";
        case 5: return "PEEKTEXT " + S(c((uint32_t)text.size())) + " " + num(text.size() + 1);
        case 6: return "PEEKDATA " + num(size.ram) + " 1";
        case 7: return "PEEKDATA " + S(c((uint32_t)size.ram)) + " " + num(size.ram + 1);
        case 8: return "POKEDATA " + num(size.ram) + " 5";
        case 9: { static const char* v[] = {"x", "1x", "9223372036854775808", "0x10", "1.5", "-", "--2"}; return "POKEDATA " + S(cell()) + " " + v[c(7)]; }
        case 10: { static const char* v[] = {"R", "Q1", "r0", "RX", "R-1", "IPX", "F0", "D0", "R0x", "0", "R18446744073709551615"}; uint32_t k = c(12); return "POKEREGS " + (k == 11 ? "R" + S(size.nreg + c(3)) : std::string(v[k])) + " 5"; }
        case 11: { static const char* v[] = {"x", "1x", "9223372036854775808", "1.5", "--2", "0x1"}; return std::string("POKEREGS ") + (pr(1, 2) ? "R0" : pr(1, 2) ? "IP" : "SP") + " " + v[c(6)]; }
        case 12: { static const char* v[] = {"F", "R0", "f0", "FX", "F0x", "D0"}; uint32_t k = c(7); return "POKEFLOATREGS " + (k == 6 ? "F" + S(size.nfreg + c(3)) : std::string(v[k])) + " 1.5"; }
        case 13: { static const char* v[] = {"x", "1.5x", "1..5", "-", ""}; return std::string("POKEFLOATREGS F0 ") + v[c(5)]; }
        case 14: { static const char* v[] = {"D5 1", "D9 1", "D 1", "R0 1", "D0 x", "D0 -1", "D0 18446744073709551616", "D0 1x", "D0"}; return std::string("POKEDEBUGREGS ") + v[c(9)]; }
        default: {
            static const char* v[] = {"FOO", "MOV R0", "MOV R0, 1 2", "ADD R0,", "MOV [R0 + ], 1", "JMP", "NOP NOP", "MOV R0, 99999999999999999999", "MOV 1, R0", "1 NOP NOP"};
            if (pr(1, 3)) return "POKETEXT " + num(text.size()) + " NOP";
            return "POKETEXT " + S(addr()) + " " + v[c(10)];
        }
        }
    }

    bool request(Expect& e) {   // draws a request and applies it to the reference
        switch (r.ch.weighted(S_CMD, {10, 12, 14, 6, 6, 5, 4, 4, 4, 4, 4, 4, 4, 3, 2, 2, 2, 1})) {
        case 0: e = {"REASON", exactly(reason)}; return true;
        case 1: case 2: {
            bool single = pr(1, 2);
            e.request = single ? "SINGLESTEP" : "CONTINUE";
            e.check = exactly("OK");
            if (halted || errored) { e.endAfter = true; ended = true; return true; }
            auto m0 = m; auto r0 = reason; uint64_t d4 = D[4];
            size_t n;
            if (go(single, n) == Go::Unknown) { m = m0; reason = r0; D[4] = d4; halted = errored = false; return false; }
            t.limit += n * 4000;
            e.stopAfter = true;
            ++r.count["stop." + reason];
            if (errored) ++r.count["fault.execution_error"];
            return true;
        }
        case 3: { e = {badRequest(), error()}; ++bad; ++r.count["fault.malformed_request"]; return true; }
        case 4: e = {"PEEKREGS", registers()}; return true;
        case 5: { size_t a = c((uint32_t)text.size() + 1), n = c((uint32_t)(text.size() - a) + 1); e = {"PEEKTEXT " + S(a) + " " + S(n), textCheck(a, n)}; return true; }
        case 6: { size_t a = c((uint32_t)size.ram + 1), n = c((uint32_t)(size.ram - a) + 1); e = {"PEEKDATA " + S(a) + " " + S(n), dataCheck(a, n)}; return true; }
        case 7: e = {"PEEKFLOATREGS", floats()}; return true;
        case 8: e = {"PEEKDEBUGREGS", debugs()}; return true;
        case 9: { auto a = cell(); auto v = value(); m.mem[a] = v; e = {"POKEDATA " + S(a) + " " + S(v), exactly("OK")}; return true; }
        case 10: {
            if (errored) return false;
            uint32_t k = c((uint32_t)size.nreg + 3);
            int64_t v = value();
            std::string n;
            if (k < size.nreg) { n = "R" + S(k); m.R[k] = v; }
            else if (k == size.nreg) { n = "IP"; v = (int64_t)addr(); m.ip = (uint64_t)v; }
            else { v = (int64_t)size.ram - c((uint32_t)size.ram / 2); if (k == size.nreg + 1) { n = "SP"; m.sp = v; } else { n = "BP"; m.bp = v; } }
            e = {"POKEREGS " + n + " " + S(v), exactly("OK")};
            return true;
        }
        case 11: {
            if (errored) return false;
            static const double v[] = {0.0, 1.0, -1.0, 0.1, -2.5, 1e300, 1e-300, 123456.789, -0.0, 1.0 / 3.0};
            uint32_t k = c((uint32_t)size.nfreg);
            double d = v[c(10)];
            memcpy(&m.F[k], &d, 8);
            e = {fmt::format("POKEFLOATREGS F{} {}", k, d), exactly("OK")};
            return true;
        }
        case 12: {
            int k = (int)c(4);
            uint64_t v = pr(1, 4) ? ~0ULL - c(3) : cell();
            D[k] = v;
            e = {"POKEDEBUGREGS D" + S(k) + " " + S(v), exactly("OK")};
            return true;
        }
        case 13: { uint64_t v = c(16); D[4] = v; e = {"POKEDEBUGREGS D4 " + S(v), exactly("OK")}; return true; }
        case 14: {
            auto a = addr();
            Ins i = newIns();
            text[a] = i;
            e = {"POKETEXT " + S(a) + " " + isa::text(i), exactly("OK")};
            return true;
        }
        case 15: e = {"TEXTSIZE", exactly("TEXTSIZE:" + S(text.size()))}; return true;
        case 16: e = pr(1, 2) ? Expect{"DATASIZE", exactly("DATASIZE:" + S(size.ram))} : Expect{"REGCOUNT", [](const std::string& g) { return g.starts_with("REGCOUNT:") ? std::string() : std::string("expected the register count"); }}; return true;
        default: e = {"TERMINATE", exactly("OK")}; e.endAfter = true; ended = true; return true;
        }
    }

    void expectMessage(const std::string& what, const Check& chk) {
        auto g = next();
        if (!g) r.fail("no-reply", what + " got no reply, the machine has ended");
        r.say("  < " + *g);
        auto why = chk(*g);
        if (!why.empty()) r.fail("reply", what + " was answered \"" + *g + "\": " + why);
        r.mix(*g);
    }

    void finish(const std::string& how, const std::vector<std::string>& outputs) {
        for (int i = 0; i < 2000 && !host->done(); ++i) host->resume();
        if (!host->done()) r.fail("not-ended", how + ": the machine does not end");
        bool ok = false;
        for (auto& o : outputs) ok = ok || o == io->out.str();
        if (!ok) r.fail("output", how + ": the machine printed \"" + io->out.str() + "\", expected \"" + outputs[0] + "\"");
    }

    void go() {
        size_t steps = 0;
        gen::Profile prof;
        prof.maxItems = 7; prof.io = 2; prof.input = 1; prof.haltFault = true;
        input = vm::drawInput(r);
        prog = gen::generateTerminating(r.ch, prof, {size.nreg, size.nfreg, size.ram}, input, 200, &steps);
        t.textSize = prog.text.size();
        static const uint32_t sw[] = {0, 0, 20, 60};
        uint32_t switchPct = sw[r.ch.choose(S_CFG, 4)];
        if (r.verbose) { r.say(vm::describe(size, t)); r.say(prog.source()); }
        {
            isa::Machine x(size.nreg, size.nfreg, size.ram);
            x.in = input; x.load(prog);
            for (size_t i = 0; i < steps; ++i) { trace.push_back(x.ip); isa::Effect e; if (x.step(prog.text, &e) != isa::Step::Ok) break; for (auto w : e.writes) writes.push_back(w); }
        }
        tiny::t86::StatsLogger::instance().reset();
        configure(size);
        io = std::make_unique<vm::StdIo>(r, input);
        m.in = input; m.load(prog); m.bkptTraps = true;
        text = prog.text;
        t.pulses = 0; t.limit = 20000;
        host = std::make_unique<Host>(r, link, size, vm::parse(prog.source()), switchPct);
        // the client may already be gone when the machine starts
        uint32_t batches = 2 + c(14);
        if (pr(1, 30)) { cut("disconnect before the start", {}); return; }
        expectMessage("the start", exactly("STOPPED"));
        for (uint32_t b = 0; b < batches && !ended; ++b) {
            std::vector<Expect> q;
            uint32_t n = pr(1, 3) ? 2 + c(4) : 1;
            std::vector<std::string> outs{m.out};   // output before each request and at the end
            for (uint32_t i = 0; i < n && !ended; ++i) { Expect e; if (request(e)) { q.push_back(e); outs.push_back(m.out); } }
            if (q.empty()) continue;
            if (n > 1) ++r.count["pipelined"];
            bool drop = r.ch.chance(S_FAULT, 1, 40);
            for (auto& e : q) { r.say("> " + e.request); r.note("request " + e.request); link.toVm.push_back(e.request); }
            if (drop) { cut("disconnect with " + S(q.size()) + " requests on the way", outs); return; }
            for (auto& e : q) {
                if (r.ch.chance(S_FAULT, 1, 100)) { cut("disconnect while awaiting replies", outs); return; }
                expectMessage("\"" + e.request + "\"", e.check);
                ++answered;
                if (e.stopAfter) {
                    if (r.ch.chance(S_FAULT, 1, 40)) { cut("disconnect while the program runs", outs); return; }
                    expectMessage("the stop after " + e.request, exactly("STOPPED"));
                    ++stops;
                }
                if (e.endAfter) break;
            }
            if (!ended && pr(1, 3)) full();
        }
        if (ended) {
            finish("after the end of the session", {m.out});
            if (!link.toDbg.empty()) r.fail("extra-message", "the machine sent an extra message: " + link.toDbg.front());
        } else {
            full();
            cut("disconnect at a stop", {m.out});
        }
        done();
    }
    void full() {
        std::vector<Expect> q{{"REASON", exactly(reason)}, {"PEEKREGS", registers()}, {"PEEKDATA 0 " + S(size.ram), dataCheck(0, size.ram)},
                              {"PEEKTEXT 0 " + S(text.size()), textCheck(0, text.size())}, {"PEEKDEBUGREGS", debugs()}, {"PEEKFLOATREGS", floats()}};
        for (auto& e : q) { link.toVm.push_back(e.request); expectMessage("\"" + e.request + "\"", e.check); ++answered; }
        if (!link.toDbg.empty()) r.fail("extra-message", "the machine sent an extra message: " + link.toDbg.front());
        if (io->out.str() != m.out) r.fail("output", "the machine printed \"" + io->out.str() + "\", expected \"" + m.out + "\"");
    }
    // The client is gone: what is on the way may be lost, sending and receiving may fail.
    void cut(const std::string& how, std::vector<std::string> outs) {
        uint32_t k = r.ch.choose(S_FAULT, 4);
        r.say(how + ", kind " + S(k));
        ++r.count["fault.disconnect"];
        link.clientGone = true;
        if (k & 1) { link.sendThrows = true; ++r.count["fault.send_error"]; }
        if (k & 2) { link.recvThrows = true; ++r.count["fault.receive_error"]; }
        if (r.ch.chance(S_FAULT, 1, 2)) link.toVm.clear();
        if (outs.empty()) outs.push_back(m.out);
        finish(how, outs);
        done();
    }
    void done() {
        r.nontrivial = answered >= 4;
        r.count["answered"] += answered;
        r.count["stops"] += stops;
        r.ticks += t.pulses;
        r.mix(io->out.str());
    }
};

void p15(Run& r) {
    Size s = vm::drawSize(r);
    s.alu = 1 + r.ch.choose(S_CFG, 4);
    s.rs = 2 * s.alu;
    Timing t(r);
    t.draw();
    auto S = std::make_unique<Raw>(r, s, t);
    try { S->go(); } catch (...) { S.release(); throw; }
}
}

Scenario rawScenario(const std::string& p) { return p == "P15" ? p15 : nullptr; }
}
