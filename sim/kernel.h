// Simulated stream sockets: the kernels of two simulated processes and the network between them.
//
// Every socket call of the code under test ends up in kernel.cpp (linker --wrap), where the seed
// decides how much is transferred, when the call is interrupted and in which pieces bytes travel.
#pragma once
#include <cerrno>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "core.h"

namespace sim::net {
constexpr int FD0 = 1000000;

struct Pipe {                       // one direction of a connection
    std::deque<uint8_t> flight, ready;
    bool fin = false, finSeen = false;      // the writer closed; the reader may know it
    bool rst = false;                       // the reader's end is broken: reads and writes fail there
    uint64_t accepted = 0;                  // bytes the writer got rid of
};
struct Conn { Pipe p[2]; size_t cap = 0; };     // p[i]: bytes written by side i; side 1 connected
struct Sock {
    int proc = 0;
    enum { Fresh, Bound, Listening, Connected } st = Fresh;
    int port = 0, side = 0;
    bool open = true, nonblock = false, wrShut = false;
    std::shared_ptr<Conn> conn;
    std::deque<std::shared_ptr<Conn>> backlog;
    bool rstTold = false;
};

class Kernel {
public:
    Run& r;
    std::map<int, Sock> socks;
    std::shared_ptr<Conn> conn;             // the latest connection
    int nextFd = FD0;
    size_t cap = 4096;
    uint32_t eintrPct = 0, shortPct = 0, setupPct = 0;
    bool broken = false;                    // a fault that may end the connection happened
    bool lossy = false;                     // data the kernel had accepted may be lost
    const char* only = nullptr;             // the one step of setting up a connection that is to fail
    bool setupFault = false;
    explicit Kernel(Run& r) : r(r) {}
    virtual ~Kernel() = default;

    virtual int who() const = 0;            // the process that makes a call, -1 outside of the simulation
    virtual std::string nameOf(int proc) const = 0;
    virtual void block(std::function<bool()> f) = 0;     // until f holds
    virtual void preempt() {}
    virtual void nap() = 0;                 // lets the others run once
    [[noreturn]] virtual void violate(const std::string& k, const std::string& d) = 0;
    virtual void enter(const char* call) { ++r.count["syscalls"]; }
    virtual void fatal() {}                 // a call of this process failed for good
    virtual void changed() {}               // something another process may wait for

    bool chance(uint32_t pct) { return pct && r.ch.chance(S_FAULT, pct, 100); }
    Sock* sock(int fd) {
        auto i = socks.find(fd);
        return i == socks.end() || !i->second.open ? nullptr : &i->second;
    }
    int fail(int e, bool isFatal = true);
    bool eintr();
    bool setup(const char* what);
    void closeSock(Sock& s);
    void resetTo(Conn& c, int s);           // the end of side s of the connection is told about a reset
    void cut(bool both);
    void exitProc(int i);
    // Part of what travels in direction d arrives; false if nothing travels.
    bool deliver(Pipe& d);
    bool listening();
};
extern Kernel* kernel;                      // the one that is active
}
