// Threads under the simulator's command. Every thread the code under test creates is a
// coroutine; the POSIX calls that create, join, lock, wait, signal, sleep and read clocks are
// replaced by the ones in threads.cpp, which run on simulated time and hand every scheduling
// decision to the run's choice streams. Outside a simulated thread they do nothing (locks) or
// what the real ones do (clocks), so the harness itself may use them.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "core.h"
#include "fiber.h"

namespace sim::thr {
#ifndef SIM_MAXT
#define SIM_MAXT 12
#endif
constexpr int MAXT = SIM_MAXT;
struct Clock {
    uint32_t c[MAXT] = {};
    void join(const Clock& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Options {
    uint32_t mode = 0;          // 0: switch only when blocked; 1: also at synchronisation; 2: also at memory accesses
    uint32_t density = 4;       // one in so many synchronisation points switches
    bool spurious = false;      // condition variables may wake up for no reason
    bool races = false;         // look for unordered conflicting accesses (code built with -fsanitize=thread)
    uint64_t maxSteps = 2000000;
};

// While one lives, the running thread does harness work: accesses are not watched, no switches.
struct Hidden { bool was; Hidden(); ~Hidden(); };

class World {
public:
    World(Run& r, Options o);
    ~World();
    // A first thread (before run) or, called from a simulated thread, one more.
    int spawn(std::string name, std::function<void()> f);
    // Runs all threads to their ends; a deadlock, a race and exhausted steps are violations.
    // `stop` is asked whenever control is back here; true abandons what still runs.
    void run(std::function<bool()> stop = {});
    static World* active();
    static void forget();               // this world is abandoned as it is
    static int self();                  // index of the simulated thread, -1 outside
    void point(bool sync);              // the running thread may be switched out here
    void yieldNow();                    // ... and is switched out here if another can run
    bool done(int t) const { return threads[t]->state == Done; }
    int count() const { return threads.size(); }
    const std::string& nameOf(int t) const { return threads[t]->name; }
    void kill(int t);                   // a thread of another process that dies as it is
    void fail(const std::string& kind, const std::string& detail);   // from a simulated thread: ends the run
    std::string describe() const;       // who waits for what
    std::function<void(int)> onResume;  // a thread is switched to
    uint64_t nowNs = 1000000000ull;
    uint64_t steps = 0, switches = 0;

    // --- used by the replaced calls
    enum State { Ready, Blocked, Done };
    struct Thread {
        std::string name;
        std::unique_ptr<Fiber> fiber;
        State state = Ready;
        const void* on = nullptr;       // what it is blocked on
        const char* why = "";
        uint64_t deadline = 0;          // 0: none
        bool timedOut = false, signalled = false;
        void* result = nullptr;
        bool detached = false, joined = false;
        Clock vc;
    };
    // Blocks the running thread on `on` until woken or until the deadline; true if woken.
    bool block(const void* on, const char* why, uint64_t deadline = 0);
    void wake(Thread& t) { t.state = Ready; t.signalled = true; t.on = nullptr; }
    Thread& me() { return *threads[self()]; }
    std::vector<std::unique_ptr<Thread>> threads;
    Run& r;
    Options opt;
    int cur = -1;
    uint64_t countdown = ~0ull;
    bool failed = false, limit = false;
    std::string failKind, failDetail;
    void access(const void* p, size_t n, bool write);
    void acquire(Clock& c) { if (cur >= 0) me().vc.join(c); }
    void release(Clock& c) { if (cur >= 0) { c.join(me().vc); me().vc.c[cur]++; } }
private:
    void switchOut();
    void drawCountdown();
    int pick();
};
}
