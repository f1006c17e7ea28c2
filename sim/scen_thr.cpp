// P14: the in-process link under every thread interleaving.
//
// The two ends of the link run on two simulated threads. This unit is built with
// -fsanitize=thread, whose calls end up in threads.cpp: every memory access the link makes is a
// point where the seed may switch threads, and is checked for an unordered access by another.
#include <thread>
#include <algorithm>
#include "common/threads_messenger.h"
#include "threads.h"

using namespace sim;
using namespace sim::thr;

namespace {
struct Ev { bool send; int msg; };      // one step of one side: send message msg, or receive (msg: which one must arrive)
struct Plan {
    std::vector<std::string> text;
    std::vector<Ev> script[2];          // 0: debugger side, 1: machine side
};

std::string drawMessage(Run& r, int serial) {
    static const char* stock[] = {"CONTINUE", "PEEKREGS", "REASON", "OK", "STEP", "POKETEXT 3 MOV R0, 1", ""};
    switch (r.ch.weighted(S_CMD, {4, 3, 2, 2, 1})) {
    case 0: return stock[r.ch.choose(S_CMD, 7)];
    case 1: return "m" + std::to_string(serial);
    case 2: { std::string s(r.ch.choose(S_CMD, 40), 'x'); for (auto& c : s) c = static_cast<char>(r.ch.choose(S_CMD, 256)); return s; }
    case 3: return std::string(14 + r.ch.choose(S_CMD, 4), 'a' + serial % 26);
    default: { std::string s(1 + r.ch.choose(S_CMD, 900), 'a' + serial % 26); return s; }
    }
}

// A history in which every receive comes after its send, split into the two sides' programs:
// such programs can always finish, whatever the schedule.
Plan drawPlan(Run& r) {
    Plan p;
    int len = 2 + r.ch.choose(S_PROG, 30);
    uint32_t style = r.ch.choose(S_PROG, 3);        // 0: request and reply, 1: bursts, 2: any
    std::vector<int> onWay[2];
    size_t head[2] = {0, 0};
    auto send = [&](int side) { int m = p.text.size(); p.text.push_back(drawMessage(r, m)); onWay[side].push_back(m); p.script[side].push_back({true, m}); };
    auto recv = [&](int side) { int m = onWay[1 - side][head[1 - side]++]; p.script[side].push_back({false, m}); };
    while (len > 0) {
        if (style == 0) { int s = r.ch.choose(S_PROG, 8) == 7; send(s); recv(1 - s); send(1 - s); recv(s); len -= 4; continue; }
        int side = r.ch.choose(S_PROG, 2);
        int n = style == 1 ? 1 + r.ch.choose(S_PROG, 5) : 1;
        for (int i = 0; i < n; ++i) {
            if (r.ch.choose(S_PROG, 2) && head[1 - side] < onWay[1 - side].size()) recv(side); else send(side);
            --len;
        }
    }
    if (r.ch.choose(S_PROG, 3)) for (int s = 0; s < 2; ++s) while (head[1 - s] < onWay[1 - s].size()) recv(s);
    return p;
}

std::string shown(const std::string& s) {
    std::string o;
    for (unsigned char c : s.substr(0, 40)) { if (c >= 32 && c < 127) o += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    if (s.size() > 40) o += "...";
    return "\"" + o + "\" (" + std::to_string(s.size()) + " bytes)";
}

void trace(Run& r, const std::string& s) { if (r.verbose) r.say(s); r.mix(s); }

void received(World& w, Run& r, Plan& p, int side, int expect, std::optional<std::string>& got) {
    Hidden h;
    std::string who = side ? "machine" : "debugger";
    if (!got) w.fail("lost message", who + " was told there is no message although #" + std::to_string(expect) + " " + shown(p.text[expect]) + " is due");
    if (*got != p.text[expect])
        w.fail("wrong message", who + " received " + shown(*got) + " where #" + std::to_string(expect) + " " + shown(p.text[expect]) + " was due");
    r.count["messages"]++;
    trace(r, who + " received #" + std::to_string(expect));
}

void follow(World& w, Run& r, Plan& p, int side, Messenger& m) {
    for (size_t i = 0; i < p.script[side].size(); ++i) {
        auto& e = p.script[side][i];
        if (e.send) {
            m.Send(p.text[e.msg]);
            Hidden h;
            trace(r, std::string(side ? "machine" : "debugger") + " sent #" + std::to_string(e.msg));
        } else {
            auto got = m.Receive();
            received(w, r, p, side, e.msg, got);
        }
    }
}
}

static void p14(Run& r) {
    Options o;
    o.mode = r.ch.weighted(S_CFG, {1, 3, 6});
    o.density = 1 + r.ch.choose(S_CFG, 6);
    o.spurious = r.ch.choose(S_CFG, 2);
    o.races = true;
    o.maxSteps = 400000;
    int topology = r.ch.choose(S_CFG, 3);
    Plan p = drawPlan(r);
    World w(r, o);
    r.say("topology " + std::to_string(topology) + ", " + std::to_string(p.text.size()) + " messages");
    // The debugger thread makes the link, starts the machine, talks to it, waits for its end and
    // takes the link down, as the command-line debugger does.
    w.spawn("debugger", [&] {
        if (topology == 0) {
            ThreadQueue<std::string> q1, q2;
            ThreadMessenger dbg(q1, q2);
            std::thread vm([&] { ThreadMessenger m(q2, q1); follow(w, r, p, 1, m); });
            follow(w, r, p, 0, dbg);
            vm.join();
        } else if (topology == 1) {
            auto owner = std::make_unique<ThreadMessengerOwner>();
            auto m = std::make_unique<ThreadMessenger>(owner->GetOutQueue(), owner->GetInQueue());
            std::thread vm([&p, &w, &r](std::unique_ptr<ThreadMessenger> m) { follow(w, r, p, 1, *m); }, std::move(m));
            follow(w, r, p, 0, *owner);
            vm.join();
        } else {
            auto q1 = std::make_unique<ThreadQueue<std::string>>();
            auto q2 = std::make_unique<ThreadQueue<std::string>>();
            std::thread vm([&] { ThreadMessenger m(*q1, *q2); follow(w, r, p, 1, m); });
            { ThreadMessenger dbg(*q2, *q1); follow(w, r, p, 0, dbg); }
            vm.join();
        }
    });
    w.run();
    r.ticks += w.steps;
    r.count["switches"] += w.switches;
    r.mix(w.steps);
    r.nontrivial = r.count["messages"] >= 1 && w.switches >= 2;
}

Scenario sim::find_scenario(const std::string& prop) { return prop == "P14" ? p14 : nullptr; }
