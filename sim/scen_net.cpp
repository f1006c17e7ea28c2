// P13: the TCP link over a simulated kernel and network.
//
// The real TCPServer and TCPClient run on two simulated processes over the simulated sockets of
// kernel.h; the seed also decides when a process dies or the connection breaks.
#include <memory>
#include "core.h"
#include "fiber.h"
#include "kernel.h"
#include "common/TCP.h"

using namespace sim;
using namespace sim::net;

namespace {
struct Proc {
    std::string name;
    std::unique_ptr<Fiber> fiber;
    std::function<bool()> ready;            // set while the process waits in the kernel
    bool dead = false, fatal = false;       // fatal: a call failed for good in the current operation
    int afterFatal = 0;
    std::vector<std::string> sent, got;
    std::vector<uint64_t> sentEnd;          // bytes accepted when each Send returned
    bool inSend = false;
    bool ended() const { return dead || fiber->state == Fiber::State::Done; }
};

struct World : Kernel {
    Proc proc[2];
    int cur = -1, port = 9110;
    uint32_t preemptPct = 0;
    std::string bad, badDetail;             // violation found inside a process
    explicit World(Run& r) : Kernel(r) { proc[0].name = "server"; proc[1].name = "client"; }

    void violate(const std::string& k, const std::string& d) override {
        if (bad.empty()) { bad = k; badDetail = d; }
        while (true) Fiber::suspend();
    }
    Proc& me() { return proc[cur]; }
    int who() const override { return Fiber::current() ? cur : -1; }
    std::string nameOf(int p) const override { return proc[p].name; }
    void block(std::function<bool()> f) override {
        me().ready = std::move(f);
        Fiber::suspend();
        me().ready = nullptr;
    }
    void nap() override { Fiber::suspend(); }
    void preempt() override {
        if (preemptPct && r.ch.chance(S_SCHED, preemptPct, 100)) { ++r.count["jitter.preempted"]; Fiber::suspend(); }
    }
    void enter(const char* call) override {
        auto& p = me();
        ++r.count["syscalls"];
        if (p.fatal && ++p.afterFatal > 60) violate("loops", p.name + " keeps calling " + call + " after the connection failed");
    }
    void fatal() override { me().fatal = true; }
};
bool limitHit = false;
void limitReached() {
    if (!Fiber::current()) return;
    limitHit = true;
    while (true) Fiber::suspend();
}

// ---- the scenario
std::string payload(Run& r, size_t maxLen) {
    static const size_t lens[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 70000};
    size_t nl = 0;
    while (nl < sizeof lens / sizeof *lens && lens[nl] <= maxLen) ++nl;
    size_t len;
    switch (r.ch.weighted(S_CMD, {6, 6, 2})) {
        case 0: len = lens[r.ch.choose(S_CMD, std::min<size_t>(nl, 12))]; break;
        case 1: len = r.ch.choose(S_CMD, std::min<size_t>(maxLen, 40) + 1); break;
        default: len = lens[r.ch.choose(S_CMD, nl)]; break;
    }
    std::string s(len, 0);
    uint32_t style = r.ch.choose(S_CMD, 4);
    uint64_t x = r.ch.choose(S_CMD, 1 << 16);
    for (size_t i = 0; i < len; ++i) {
        switch (style) {
            case 0: s[i] = 'a' + (i + x) % 26; break;
            case 1: s[i] = 0; break;
            case 2: s[i] = (char)0xff; break;
            default: s[i] = (char)(splitmix(x) >> 24); break;
        }
    }
    return s;
}
std::string brief(const std::string& s) {
    std::string o = std::to_string(s.size()) + " bytes '";
    for (size_t i = 0; i < s.size() && i < 12; ++i) { char b[8]; snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    return o + (s.size() > 12 ? "...'" : "'");
}

struct Phase { int from; bool duplex; std::vector<std::string> msgs, back; };

template <class T> void body(World& w, int me, const std::vector<Phase>& phases, bool extraRecv) {
    auto& p = w.proc[me]; auto& peer = w.proc[1 - me];
    auto op = [&] { p.fatal = false; p.afterFatal = 0; };
    bool up = false;
    auto link = std::make_unique<T>(w.port);
    op();
    try { link->Initialize(); up = true; }
    catch (const std::exception& e) {
        if (!w.broken) w.violate("no-connection", p.name + " could not connect although nothing failed: " + e.what());
        w.r.say(p.name + ": " + e.what());
        return;
    }
    if (p.fatal) w.violate("error-hidden", p.name + " reports a working connection although a call failed");
    auto send = [&](const std::string& m) {
        op();
        p.sent.push_back(m);
        p.inSend = true;
        w.r.say(p.name + " sends " + brief(m));
        try { link->Send(m); }
        catch (const std::exception& e) {
            p.inSend = false;
            w.r.say(p.name + ": " + e.what());
            if (!w.broken) w.violate("spurious-error", p.name + ": sending failed although the connection works: " + e.what());
            return false;
        }
        p.inSend = false;
        if (p.fatal) w.violate("error-hidden", p.name + ": the connection failed, but the sender is not told");
        p.sentEnd.push_back(p.sent.size());
        return true;
    };
    // Receives the message with the given number (or the end of the stream, if it is not to be sent).
    auto recv = [&](bool expectEnd) {
        op();
        std::optional<std::string> m;
        try { m = link->Receive(); }
        catch (const std::exception& e) {
            w.r.say(p.name + ": " + e.what());
            if (!w.broken) w.violate("spurious-error", p.name + ": receiving failed although the connection works: " + e.what());
            if (!w.lossy && p.got.size() < peer.sentEnd.size()) w.violate("message-lost", p.name + " got an error in place of message " + std::to_string(p.got.size()));
            return false;
        }
        if (!m) {
            w.r.say(p.name + " sees the end of the stream");
            if (!w.broken) w.violate("spurious-end", p.name + " sees the end of the stream although the connection works");
            if (!w.lossy && p.got.size() < peer.sentEnd.size()) w.violate("message-lost", p.name + " sees the end of the stream in place of message " + std::to_string(p.got.size()));
            return false;
        }
        w.r.say(p.name + " receives " + brief(*m));
        w.r.mix(*m);
        size_t i = p.got.size();
        if (i >= peer.sent.size()) w.violate("made-up-message", p.name + " received " + brief(*m) + ", which nobody sent");
        if (*m != peer.sent[i]) w.violate("wrong-message", p.name + " received " + brief(*m) + ", message " + std::to_string(i) + " was " + brief(peer.sent[i]));
        if (p.fatal) w.violate("error-hidden", p.name + " delivers a message although the connection failed meanwhile");
        p.got.push_back(*m);
        (void)expectEnd;
        return true;
    };
    for (auto& ph : phases) {
        auto& mineMsgs = ph.from == me ? ph.msgs : ph.back;
        auto& theirs = ph.from == me ? ph.back : ph.msgs;
        for (auto& m : mineMsgs) if (!send(m)) return;
        for (size_t i = 0; i < theirs.size(); ++i) if (!recv(false)) return;
    }
    if (extraRecv && recv(true)) w.violate("made-up-message", p.name + " received a message after the last one");
}

void P13(Run& r) {
    World w(r);
    kernel = &w;
    limitHit = false;
    r.ch.onLimit = limitReached;
    auto& ch = r.ch;
    static const size_t caps[] = {65536, 1, 2, 3, 8, 9, 16, 100, 4096, 200000};
    w.cap = caps[ch.choose(S_CFG, 10)];
    size_t maxLen = w.cap < 8 ? 40 : w.cap < 4096 ? 300 : 70000;
    w.eintrPct = ch.choose(S_CFG, 3) * 8;
    w.shortPct = ch.choose(S_CFG, 4) * 25;
    w.preemptPct = ch.choose(S_CFG, 3) * 20;
    w.setupPct = ch.weighted(S_CFG, {9, 1}) * 8;
    w.port = ch.choose(S_CFG, 2) ? 9110 : 1024 + ch.choose(S_CFG, 60000);
    std::vector<Phase> phases;
    for (uint32_t n = 1 + ch.choose(S_CMD, 5); n--;) {
        Phase p;
        p.from = ch.choose(S_CMD, 2);
        p.duplex = ch.weighted(S_CMD, {4, 1});
        for (uint32_t k = 1 + ch.choose(S_CMD, 4); k--;) p.msgs.push_back(payload(r, maxLen));
        if (p.duplex) {
            size_t total = 0;
            for (auto& m : p.msgs) total += m.size() + 8;
            std::vector<std::string> back;
            size_t tb = 0;
            for (uint32_t k = 1 + ch.choose(S_CMD, 3); k--;) { back.push_back(payload(r, 200)); tb += back.back().size() + 8; }
            if (total <= w.cap && tb <= w.cap) p.back = back;       // neither side can block the other
        }
        phases.push_back(p);
    }
    bool extra[2] = {ch.choose(S_CMD, 2) != 0, ch.choose(S_CMD, 2) != 0};
    if (extra[0] && extra[1]) extra[ch.choose(S_CMD, 2)] = false;
    // faults that end the connection
    int fault = ch.weighted(S_FAULT, {8, 2, 2, 2});        // none, crash of a process, cut, one-sided cut
    uint64_t at = fault ? 1 + ch.choose(S_FAULT, ch.choose(S_FAULT, 2) ? 40 : 400) : 0;
    int victim = fault == 1 ? ch.choose(S_FAULT, 2) : 0;
    bool early = ch.weighted(S_FAULT, {15, 1});            // the client may come before the server listens

    w.proc[0].fiber = std::make_unique<Fiber>([&] { body<TCP::TCPServer>(w, 0, phases, extra[0]); });
    w.proc[1].fiber = std::make_unique<Fiber>([&] { body<TCP::TCPClient>(w, 1, phases, extra[1]); });
    bool exited[2] = {false, false};
    uint64_t steps = 0, events = 0;
    bool clientStarted = early, serverWasUp = false;
    while (true) {
        if (!w.bad.empty()) { kernel = nullptr; for (auto& p : w.proc) p.fiber->reclaim = true; r.fail(w.bad, w.badDetail); }
        if (limitHit) { kernel = nullptr; for (auto& p : w.proc) p.fiber->reclaim = true; throw ChoiceLimit("fiber"); }
        for (int i = 0; i < 2; ++i) if (w.proc[i].ended() && !exited[i]) { exited[i] = true; w.exitProc(i); }
        if (exited[0] && exited[1]) break;
        serverWasUp = serverWasUp || w.listening();
        if (serverWasUp || exited[0]) clientStarted = true;
        std::vector<std::pair<int, int>> acts;      // 0: run process, 1: deliver direction
        for (int i = 0; i < 2; ++i) {
            auto& p = w.proc[i];
            if (exited[i] || (i == 1 && !clientStarted)) continue;
            if (!p.ready || p.ready()) acts.push_back({0, i});
        }
        if (w.conn) for (int i = 0; i < 2; ++i) {
            auto& d = w.conn->p[i];
            if (!d.flight.empty() || (d.fin && !d.finSeen)) acts.push_back({1, i});
        }
        if (acts.empty()) {
            // The server may wait for a client that never came
            if (!exited[0] && exited[1] && !w.conn) { w.proc[0].dead = true; w.proc[0].fiber->reclaim = true; continue; }
            std::string who;
            for (int i = 0; i < 2; ++i) if (!exited[i]) who += w.proc[i].name + " ";
            kernel = nullptr;
            for (auto& p : w.proc) p.fiber->reclaim = true;
            r.fail("hangs", who + "waits forever");
        }
        if (++steps > 60000) { kernel = nullptr; for (auto& p : w.proc) p.fiber->reclaim = true; throw ChoiceLimit("steps"); }
        if (fault && w.conn) {
            ++events;
            if (events == at) {
                if (fault == 1) {
                    if (!exited[victim]) {
                        r.say(w.proc[victim].name + " is killed");
                        ++r.count["fault.process_killed"];
                        w.proc[victim].dead = true; w.proc[victim].fiber->reclaim = true;
                        w.broken = true;
                        continue;
                    }
                } else { r.say("the connection breaks"); w.cut(fault == 2); }
            }
        }
        auto a = acts[r.ch.choose(S_SCHED, acts.size())];
        if (a.first == 0) {
            w.cur = a.second;
            w.proc[a.second].fiber->resume();
            w.cur = -1;
            r.mix(a.second);
        } else {
            w.deliver(w.conn->p[a.second]);
            r.ticks += 1;
        }
    }
    kernel = nullptr;
    // Without a fault that ends the connection everything arrived (the processes themselves checked order and content).
    bool brokeEarly = fault || w.setupFault;
    for (int i = 0; i < 2; ++i)
        if (!brokeEarly && w.proc[i].got.size() != w.proc[1 - i].sent.size())
            r.fail("message-lost", w.proc[i].name + " received " + std::to_string(w.proc[i].got.size()) + " of " + std::to_string(w.proc[1 - i].sent.size()) + " messages");
    r.count["messages"] += w.proc[0].got.size() + w.proc[1].got.size();
    r.nontrivial = w.proc[0].got.size() + w.proc[1].got.size() >= 1;
}
}

namespace sim {
Scenario find_scenario(const std::string& p) { return p == "P13" ? P13 : nullptr; }
}
