#include "dbg.h"
#include "common/config.h"

namespace dbg {
namespace {
struct HostMessenger : Messenger {
    Host& h;
    explicit HostMessenger(Host& h) : h(h) {}
    void Send(const std::string& s) override {
        if (h.link.clientGone && h.link.sendThrows) throw TCP::TCPError("Sending failed");
        h.link.toDbg.push_back(s);
        ++h.link.sentToDbg;
        if (h.switchPct && h.r.ch.chance(S_SCHED, h.switchPct, 100)) { ++h.r.count["jitter.vm_preempted"]; Fiber::suspend(); }
    }
    std::optional<std::string> Receive() override {
        while (h.link.toVm.empty()) {
            if (h.link.clientGone && h.link.recvThrows) throw TCP::TCPError("Reading failed");
            if (h.link.clientGone) return std::nullopt;
            Fiber::suspend();
        }
        auto m = h.link.toVm.front();
        h.link.toVm.pop_front();
        return m;
    }
};
Host* live = nullptr;
void limitReached() {
    if (!Fiber::current()) return;      // on the main side the exception does
    live->limitHit = true;
    while (true) Fiber::suspend();
}
}

void Timing::pulse() {
    if (++pulses > limit && live && Fiber::current()) {
        live->stuck = true;
        while (true) Fiber::suspend();
    }
}

Host::Host(Run& r, Link& l, const Size& s, tiny::t86::Program p, uint32_t sw)
    : r(r), link(l), os(s.nreg, s.nfreg, s.ram), switchPct(sw), fiber([this, q = std::make_shared<tiny::t86::Program>(std::move(p))] {
          try {
              ok = os.Run(std::move(*q));
          } catch (const std::exception& e) {
              died = true; what = e.what();
          } catch (...) {
              died = true; what = "unknown exception";
          }
      }) {
    os.SetDebuggerComms(std::make_unique<HostMessenger>(*this));
    live = this;
    r.ch.onLimit = limitReached;
}

void Host::resume() {
    if (done()) return;
    live = this;
    fiber.resume();
    if (limitHit) throw ChoiceLimit("fiber");
    if (stuck) r.fail("runs-on", "the machine goes on executing and does not stop where it should");
    if (died) r.fail("vm-died", "an exception ended the virtual machine: " + what);
}

void Client::Send(const std::string& s) {
    r.note("debugger sends " + s);
    link.toVm.push_back(s);
    if (++link.sentToVm > link.limit) r.fail("runs-on", "the debugger goes on talking to the machine and does not come to an end");
    if (host && host->switchPct && r.ch.chance(S_SCHED, host->switchPct, 100)) { ++r.count["jitter.debugger_preempted"]; host->resume(); }
}

std::optional<std::string> Client::Receive() {
    while (link.toDbg.empty()) {
        if (!host || host->done()) r.fail("no-reply", "the debugger waits for a message, but the machine has ended");
        host->resume();
    }
    auto m = link.toDbg.front();
    link.toDbg.pop_front();
    return m;
}

std::string canon(const std::string& ins) {
    std::istringstream is(ins);
    Parser p(is);
    auto i = p.Instruction();
    p.CheckEnd();
    return i->toString();
}

const char* evName(Ev e) {
    static const char* n[] = {"nothing", "breakpoint", "watchpoint", "step", "halt", "error"};
    return n[(int)e];
}

Out Model::one() {
    if (++steps > budget) return {};
    isa::Effect e;
    m.bkptTraps = true;
    auto s = m.step(text, &e);
    if (m.nan) return {};
    if (s == isa::Step::Bkpt) return {Ev::Bp, m.ip - 1};   // the program's own, it has been executed
    if (s == isa::Step::Fault) return {Ev::Err, m.ip};
    if (s == isa::Step::Halt) return {Ev::End, m.ip};
    for (auto w : e.writes) if (wps.count(w)) return {Ev::Wp, w};
    return {Ev::Step, m.ip};
}
Out Model::cont() {
    while (true) {
        auto o = one();
        if (o.ev != Ev::Step) return o;
        if (enabled(m.ip)) return {Ev::Bp, m.ip};
    }
}
Out Model::over(bool skipBp, bool heuristic) {
    uint64_t ip0 = m.ip;
    if (ip0 >= text.size()) return {};          // outside of the program there is no code to look at
    if (!skipBp && enabled(ip0)) return {Ev::Bp, ip0};
    if (op() != isa::Op::CALL) return one();
    if (ip0 + 1 >= text.size()) return {};      // no place to return to
    int64_t bp0 = m.bp;
    auto o = one();
    if (o.ev != Ev::Step) return o;
    int depth = 1;
    while (true) {
        if (m.ip == ip0 + 1 && (heuristic ? m.bp == bp0 : depth == 0)) { Out r{Ev::Step, m.ip}; r.bpOk = enabled(m.ip); return r; }
        if (depth <= 0 && !heuristic) return {};
        if (enabled(m.ip)) { if (m.ip == ip0 + 1) return {}; return {Ev::Bp, m.ip}; }
        auto p = op();
        o = one();
        if (o.ev != Ev::Step) return o;
        if (p == isa::Op::CALL) ++depth;
        if (p == isa::Op::RET) --depth;
    }
}
Out Model::out(bool heuristic) {
    bool first = true;
    int depth = 0;
    while (true) {
        if (!first && enabled(m.ip)) return {Ev::Bp, m.ip};
        auto p = op();
        Out o = heuristic ? over(first, true) : one();
        first = false;
        if (o.ev != Ev::Step) return o;
        if (p == isa::Op::CALL && !heuristic) ++depth;
        if (p == isa::Op::RET) { if (depth == 0) return o; --depth; }
    }
}
Out Model::stepIn(const std::set<uint64_t>& lines) {
    auto o = one();
    while (o.ev == Ev::Step && !lines.count(m.ip)) o = raw();
    return o;
}
Out Model::stepOver(const std::set<uint64_t>& lines, bool heuristic) {
    auto o = over(true, heuristic);
    while (o.ev == Ev::Step && !lines.count(m.ip)) o = over(false, heuristic);
    return o;
}
}
