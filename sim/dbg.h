// A debug session: the real virtual machine and its debug server on one simulated thread, the
// real debugger core on the other, a simulated message link between them.
#pragma once
#include <deque>
#include <map>
#include <set>
#include "debugger/Native.h"
#include "debugger/Source/Source.h"
#include "debugger/T86Process.h"
#include "fiber.h"
#include "vm.h"

namespace dbg {
using namespace sim;
using vm::Size;

using vm::configure;

struct Link {
    std::deque<std::string> toVm, toDbg;
    bool clientGone = false, sendThrows = false, recvThrows = false;
    size_t sentToDbg = 0, sentToVm = 0;
    size_t limit = ~(size_t)0;          // of sentToVm, within one operation
};

struct Host;
struct Timing : vm::Timing {
    using vm::Timing::Timing;
    uint64_t pulses = 0, limit = 3000000;
    void pulse() override;
};

// The machine on its fiber.
struct Host {
    Run& r;
    Link& link;
    tiny::t86::OS os;
    bool started = false, ok = false, died = false, stuck = false, limitHit = false;
    uint32_t switchPct = 0;
    std::string what;
    Fiber fiber;
    Host(Run& r, Link& l, const Size& s, tiny::t86::Program p, uint32_t switchPct);
    bool done() const { return fiber.state == Fiber::State::Done; }
    // Lets the machine run until it waits for a message, ends, or chooses to yield.
    void resume();
};

// The debugger's end of the link.
struct Client : Messenger {
    Run& r; Link& link; Host*& host;
    Client(Run& r, Link& l, Host*& h) : r(r), link(l), host(h) {}
    void Send(const std::string& s) override;
    std::optional<std::string> Receive() override;
};

// Canonical text of an instruction, as the machine shows it.
std::string canon(const std::string& ins);

// ---- the reference: sequential execution plus breakpoints and watchpoints
enum class Ev { None, Bp, Wp, Step, End, Err };
const char* evName(Ev);
struct Out { Ev ev = Ev::None; uint64_t addr = 0; bool bpOk = false; };

struct Model {
    isa::Machine m;
    std::vector<isa::Ins> text;
    std::map<uint64_t, bool> bps;
    std::set<uint64_t> wps;
    size_t steps = 0, budget = 3000;
    explicit Model(const Size& s) : m(s.nreg, s.nfreg, s.ram) {}
    bool enabled(uint64_t a) const { auto i = bps.find(a); return i != bps.end() && i->second; }
    isa::Op op() const { return m.ip < text.size() ? text[m.ip].op : isa::Op::NOP; }
    Out one();
    Out cont();
    Out raw() { return enabled(m.ip) ? Out{Ev::Bp, m.ip} : one(); }
    Out over(bool skipBp, bool heuristic);
    Out out(bool heuristic);
    Out stepIn(const std::set<uint64_t>& lines);
    Out stepOver(const std::set<uint64_t>& lines, bool heuristic);
};
}
