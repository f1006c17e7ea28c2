#include "threads.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <map>
#include <unordered_map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>

namespace sim::thr {
static bool hidden = false;
Hidden::Hidden() : was(hidden) { hidden = true; }
Hidden::~Hidden() { hidden = was; }
namespace {
World* theWorld = nullptr;
// Templates this file shares with instrumented units may be the instrumented copies, so the
// run time's own accesses are told apart by a flag, not by how they were compiled.
bool inRuntime = false;
struct Quiet { bool was; Quiet() : was(inRuntime) { inRuntime = true; } ~Quiet() { inRuntime = was; } };

struct Mutex { int owner = -1; uint32_t depth = 0; uint32_t readers = 0; Clock vc; };
struct Shadow {
    uint8_t wtid[8]; uint32_t wclk[8];
    uint32_t rclk[8][MAXT];
    bool freed;
};
std::map<const void*, Mutex> mutexes;
std::map<const void*, Clock> atomics;
template <class T> struct Plain {        // the table that follows allocations does not go through operator new itself
    using value_type = T;
    Plain() = default;
    template <class U> Plain(const Plain<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { free(p); }
    template <class U> bool operator==(const Plain<U>&) const { return true; }
};
using Table = std::unordered_map<uintptr_t, Shadow, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Plain<std::pair<const uintptr_t, Shadow>>>;
Table* shadow = nullptr;
std::vector<void*> quarantine;
Clock fenceClock;

void limitReached() {
    World* w = theWorld;
    if (!w || !Fiber::current()) return;       // not in a simulated thread: the caller throws
    w->limit = true;
    for (;;) { inRuntime = false; Fiber::suspend(); }
}
}
void World::switchOut() {
    bool was = inRuntime, hid = hidden;
    inRuntime = hidden = false;
    Fiber::suspend();
    inRuntime = was; hidden = hid;
}

void World::forget() { if (theWorld) theWorld->r.ch.onLimit = nullptr; theWorld = nullptr; inRuntime = hidden = false; }
World* World::active() { return theWorld; }
int World::self() { return theWorld && Fiber::current() ? theWorld->cur : -1; }

World::World(Run& r, Options o) : r(r), opt(o) {
    theWorld = this;
    mutexes.clear(); atomics.clear(); fenceClock = Clock{};
    if (!shadow) shadow = new Table;
    shadow->clear();
    r.ch.onLimit = limitReached;
}
World::~World() {
    theWorld = nullptr;
    inRuntime = hidden = false;
    r.ch.onLimit = nullptr;
    shadow->clear();
    for (auto p : quarantine) free(p);
    quarantine.clear();
}

int World::spawn(std::string name, std::function<void()> f) {
    Quiet q;
    int id = threads.size();
    if (id >= MAXT) { fprintf(stderr, "too many simulated threads\n"); _exit(3); }
    auto t = std::make_unique<Thread>();
    t->name = std::move(name);
    if (cur >= 0) { t->vc = me().vc; me().vc.c[cur]++; }
    t->vc.c[id] = 1;
    t->fiber = std::make_unique<Fiber>([this, id, f = std::move(f)] {
        f();
        Quiet q;
        hidden = false;
        threads[id]->state = Done;
        for (auto& o : threads) if (o->state == Blocked && o->on == threads[id].get()) wake(*o);
    });
    threads.push_back(std::move(t));
    return id;
}

void World::kill(int t) {
    Quiet q;
    auto& x = *threads[t];
    if (x.state == Done || t == cur) return;
    x.state = Done;
    x.fiber->reclaim = true;
    for (auto& o : threads) if (o->state == Blocked && o->on == &x) wake(*o);
}

void World::fail(const std::string& kind, const std::string& detail) {
    Quiet q;
    if (!failed) { failed = true; failKind = kind; failDetail = detail; }
    if (cur >= 0) for (;;) switchOut();
}

std::string World::describe() const {
    std::string s;
    for (size_t i = 0; i < threads.size(); ++i) {
        auto& t = *threads[i];
        s += (i ? "; " : "") + t.name + ": " + (t.state == Done ? "ended" : t.state == Ready ? "ready" : std::string("waits in ") + t.why);
    }
    return s;
}

void World::drawCountdown() {
    if (opt.mode < 2) { countdown = ~0ull; return; }
    switch (r.ch.weighted(S_SCHED, {2, 3, 3, 2})) {
    case 0: countdown = ~0ull; break;
    case 1: countdown = 1 + r.ch.choose(S_SCHED, 6); break;
    case 2: countdown = 1 + r.ch.choose(S_SCHED, 60); break;
    default: countdown = 1 + r.ch.choose(S_SCHED, 600); break;
    }
}

int World::pick() {
    std::vector<int> ready;
    if (cur >= 0 && threads[cur]->state == Ready) ready.push_back(cur);
    for (int i = 0; i < (int)threads.size(); ++i) if (i != cur && threads[i]->state == Ready) ready.push_back(i);
    if (ready.empty()) return -1;
    // a waiter may wake up although nobody called it
    if (opt.spurious) {
        for (int i = 0; i < (int)threads.size(); ++i) {
            auto& t = *threads[i];
            if (t.state == Blocked && !strncmp(t.why, "cond", 4) && r.ch.chance(S_FAULT, 1, 6)) {
                r.count["fault.spurious_wakeup"]++;
                t.state = Ready; t.signalled = true; t.on = nullptr;
                ready.push_back(i);
            }
            if (t.state == Blocked && t.deadline && r.ch.chance(S_FAULT, 1, 6)) {
                r.count["fault.early_timeout"]++;
                if (t.deadline > nowNs) nowNs = t.deadline;
                t.state = Ready; t.timedOut = true; t.on = nullptr;
                ready.push_back(i);
            }
        }
    }
    if (ready.size() == 1) return ready[0];
    return ready[r.ch.choose(S_SCHED, ready.size())];
}

void World::run(std::function<bool()> stop) {
    for (;;) {
        if (failed) r.fail(failKind, failDetail);
        if (limit) throw ChoiceLimit("schedule");
        if (stop && stop()) return;
        bool all = true;
        for (auto& t : threads) all = all && t->state == Done;
        if (all) return;
        if (steps > opt.maxSteps) r.fail("hang", "the threads go on for ever: " + describe());
        int t = pick();
        if (t < 0) {
            // time passes until the first deadline
            Thread* first = nullptr;
            for (auto& x : threads) if (x->state == Blocked && x->deadline && (!first || x->deadline < first->deadline)) first = x.get();
            if (!first) r.fail("deadlock", describe());
            nowNs = std::max(nowNs, first->deadline);
            first->state = Ready; first->timedOut = true; first->on = nullptr;
            continue;
        }
        if (t != cur) { ++switches; r.mix(t); r.mix(steps); }
        cur = t;
        drawCountdown();
        if (onResume) onResume(t);
        threads[t]->fiber->resume();
        if (threads[t]->state == Done) cur = t;
    }
}

void World::yieldNow() {
    if (self() < 0 || hidden) return;
    switchOut();
}

void World::point(bool sync) {
    if (self() < 0 || hidden) return;
    ++steps; nowNs += 50;
    Quiet q;
    if (steps > opt.maxSteps) { switchOut(); return; }
    if (sync) {
        if (opt.mode == 0) return;
        if (!r.ch.chance(S_SCHED, 1, opt.density)) return;
    } else {
        if (--countdown) return;
        r.count["jitter.preempted_at_access"]++;
    }
    r.count["jitter.preempted"]++;
    switchOut();
}

bool World::block(const void* on, const char* why, uint64_t deadline) {
    Quiet q;
    auto& t = me();
    t.state = Blocked; t.on = on; t.why = why; t.deadline = deadline; t.timedOut = t.signalled = false;
    ++steps;
    while (t.state == Blocked) switchOut();
    t.deadline = 0;
    return !t.timedOut;
}

// ---------------------------------------------------------------- races
void World::access(const void* p, size_t n, bool write) {
    if (inRuntime || hidden || cur < 0 || !Fiber::current()) return;
    if (opt.races) {
        Quiet q;
        auto& vc = me().vc;
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        for (size_t i = 0; i < n; ++i) {
            auto& s = (*shadow)[(a + i) >> 3];
            int b = (a + i) & 7;
            const char* what = nullptr;
            int other = -1;
            if (s.freed) what = "memory that was released is accessed";
            if (s.wclk[b] && s.wtid[b] != cur && s.wclk[b] > vc.c[s.wtid[b]]) { what = write ? "unordered writes" : "a read unordered with a write"; other = s.wtid[b]; }
            if (write)
                for (int k = 0; k < (int)threads.size(); ++k)
                    if (k != cur && s.rclk[b][k] > vc.c[k]) { what = "a write unordered with a read"; other = k; }
            if (what) {
                fail(s.freed ? "use after free" : "data race", std::string(what) + " by " + me().name + (other >= 0 ? " and " + threads[other]->name : ""));
            }
            if (write) { s.wtid[b] = cur; s.wclk[b] = vc.c[cur]; } else s.rclk[b][cur] = vc.c[cur];
        }
    }
    point(false);
}
}

using namespace sim;
using namespace sim::thr;
#define IN_SIM (World::self() >= 0)
static World& W() { return *World::active(); }
static uint64_t ns(const timespec* t) { return uint64_t(t->tv_sec) * 1000000000ull + t->tv_nsec; }

static bool mutexTry(void* m, bool recursive) {
    Quiet q;
    auto& x = mutexes[m];
    int s = World::self();
    if (x.owner == s && recursive) { ++x.depth; return true; }
    if (x.owner >= 0 || x.readers) return false;
    x.owner = s; x.depth = 1;
    W().acquire(x.vc);
    return true;
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int mutexLock(void* m, bool rec, uint64_t deadline) {
    W().point(true);
    while (!mutexTry(m, rec)) {
        if (deadline && W().nowNs >= deadline) return ETIMEDOUT;
        W().block(m, "mutex", deadline);
    }
    return 0;
}
static int mutexUnlock(void* m) {
    {
        Quiet q;
        auto& x = mutexes[m];
        if (x.owner != World::self()) {
            W().fail("bad unlock", W().me().name + " unlocks a mutex it does not hold");
        }
        if (--x.depth) return 0;
        x.owner = -1;
        W().release(x.vc);
        for (auto& t : W().threads) if (t->state == World::Blocked && t->on == m) W().wake(*t);
    }
    W().point(true);
    return 0;
}
static int condWait(void* c, pthread_mutex_t* m, uint64_t deadline) {
    bool woken;
    W().point(true);
    {
        Quiet q;
        auto& x = mutexes[m];
        if (x.owner != World::self()) W().fail("bad wait", W().me().name + " waits without holding the mutex");
        x.owner = -1; x.depth = 0;
        W().release(x.vc);
        for (auto& t : W().threads) if (t->state == World::Blocked && t->on == m) W().wake(*t);
    }
    woken = W().block(c, "condition variable", deadline);
    while (!mutexTry(m, false)) W().block(m, "mutex");
    return woken ? 0 : ETIMEDOUT;
}
static int condSignal(void* c, bool all) {
    W().point(true);
    {
        Quiet q;
        std::vector<World::Thread*> w;
        for (auto& t : W().threads) if (t->state == World::Blocked && t->on == c) w.push_back(t.get());
        if (!w.empty()) {
            if (all) for (auto t : w) W().wake(*t);
            else W().wake(*w[w.size() > 1 ? W().r.ch.choose(S_SCHED, w.size()) : 0]);
        }
    }
    W().point(true);
    return 0;
}

extern "C" {
pthread_t pthread_self() noexcept {
    Quiet q;
    if (IN_SIM) return reinterpret_cast<pthread_t>(W().threads[World::self()].get());
    return reinterpret_cast<pthread_t>(__builtin_thread_pointer());
}
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*f)(void*), void* arg) noexcept {
    if (!IN_SIM) { fprintf(stderr, "thread created outside the simulation\n"); _exit(3); }
    Quiet q;
    World& w = W();
    if (w.r.ch.chance(S_FAULT, 0, 1)) return EAGAIN;
    int id;
    {
        Quiet q;
        id = w.spawn("thread " + std::to_string(w.count()), [f, arg] {
            void* res = f(arg);
            World::active()->me().result = res;
        });
    }
    *out = reinterpret_cast<pthread_t>(w.threads[id].get());
    w.point(true);
    return 0;
}
static World::Thread* threadOf(pthread_t t) {
    for (auto& x : W().threads) if (reinterpret_cast<pthread_t>(x.get()) == t) return x.get();
    return nullptr;
}
int pthread_join(pthread_t t, void** res) {
    if (!IN_SIM) { fprintf(stderr, "join outside the simulation\n"); _exit(3); }
    Quiet q;
    auto x = threadOf(t);
    if (!x || x->detached || x->joined) return EINVAL;
    if (x == &W().me()) return EDEADLK;
    W().point(true);
    while (x->state != World::Done) W().block(x, "join");
    x->joined = true;
    { Quiet q; W().acquire(x->vc); }
    if (res) *res = x->result;
    return 0;
}
int pthread_detach(pthread_t t) noexcept {
    if (!IN_SIM) return 0;
    Quiet q;
    auto x = threadOf(t);
    if (!x || x->detached) return EINVAL;
    x->detached = true;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (World::active()) { Quiet q; mutexes.erase(m); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return IN_SIM ? mutexLock(m, recursive(m), 0) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!IN_SIM) return 0; W().point(true); return mutexTry(m, recursive(m)) ? 0 : EBUSY; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { return IN_SIM ? mutexLock(m, recursive(m), ns(t)) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) noexcept { return IN_SIM ? mutexLock(m, recursive(m), ns(t)) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return IN_SIM ? mutexUnlock(m) : 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    if (IN_SIM) for (auto& t : W().threads) if (t->state == World::Blocked && t->on == c) W().fail("destroyed while waited for", t->name + " waits on a condition variable that is destroyed");
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return IN_SIM ? condWait(c, m, 0) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return IN_SIM ? condWait(c, m, ns(t)) : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return IN_SIM ? condWait(c, m, ns(t)) : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { return IN_SIM ? condSignal(c, false) : 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return IN_SIM ? condSignal(c, true) : 0; }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept { if (World::active()) { Quiet q; mutexes.erase(l); } return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return IN_SIM ? mutexLock(l, false, 0) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return !IN_SIM || mutexTry(l, false) ? 0 : EBUSY; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
    if (!IN_SIM) return 0;
    W().point(true);
    for (;;) {
        { Quiet q; auto& x = mutexes[l]; if (x.owner < 0) { ++x.readers; W().acquire(x.vc); return 0; } }
        W().block(l, "rwlock");
    }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
    if (!IN_SIM) return 0;
    Quiet q; auto& x = mutexes[l]; if (x.owner >= 0) return EBUSY; ++x.readers; W().acquire(x.vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    if (!IN_SIM) return 0;
    {
        Quiet q; auto& x = mutexes[l];
        if (x.owner >= 0) x.owner = -1; else if (x.readers) --x.readers;
        W().release(x.vc);
        for (auto& t : W().threads) if (t->state == World::Blocked && t->on == l) W().wake(*t);
    }
    W().point(true);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 0) { *o = 1; f(); } return 0; }
int sched_yield() noexcept {
    if (IN_SIM) { W().steps++; W().nowNs += 1000; W().yieldNow(); }
    return 0;
}
static int sleepNs(uint64_t n) { Quiet q; W().block(&W().me(), "sleep", W().nowNs + std::max<uint64_t>(n, 1)); return 0; }
int nanosleep(const timespec* t, timespec*) { return IN_SIM ? sleepNs(ns(t)) : (int)syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!IN_SIM) return (int)syscall(SYS_clock_nanosleep, c, fl, t, rem);
    uint64_t n = ns(t);
    if (fl & TIMER_ABSTIME) n = n > W().nowNs ? n - W().nowNs : 1;
    return sleepNs(n);
}
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
static long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}
int clock_gettime(clockid_t c, timespec* t) noexcept {
    if (!IN_SIM) return (int)rawSyscall(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    W().nowNs += 100;
    t->tv_sec = W().nowNs / 1000000000ull; t->tv_nsec = W().nowNs % 1000000000ull;
    return 0;
}
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && IN_SIM) {
        int op = a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            W().point(true);
            if (*reinterpret_cast<volatile int*>(a[0]) != (int)a[2]) { errno = EAGAIN; return -1; }
            uint64_t dl = 0;
            if (a[3]) { dl = ns(reinterpret_cast<timespec*>(a[3])); if (op == FUTEX_WAIT) dl += W().nowNs; }
            if (!W().block(reinterpret_cast<void*>(a[0]), "condition (futex)", dl)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = 0;
            { Quiet q; for (auto& t : W().threads) if (k < a[2] && t->state == World::Blocked && t->on == (void*)a[0]) { W().wake(*t); ++k; } }
            W().point(true);
            return k;
        }
        errno = ENOSYS;
        return -1;
    }
    return rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sem_init(sem_t* s, int, unsigned v) noexcept { *reinterpret_cast<int*>(s) = v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept {
    ++*reinterpret_cast<int*>(s);
    if (IN_SIM) {
        { Quiet q; W().release(atomics[s]); for (auto& t : W().threads) if (t->state == World::Blocked && t->on == s) { W().wake(*t); break; } }
        W().point(true);
    }
    return 0;
}
int sem_trywait(sem_t* s) noexcept {
    if (*reinterpret_cast<int*>(s) <= 0) { errno = EAGAIN; return -1; }
    --*reinterpret_cast<int*>(s);
    if (IN_SIM) { Quiet q; W().acquire(atomics[s]); }
    return 0;
}
int sem_wait(sem_t* s) {
    if (IN_SIM) { W().point(true); while (*reinterpret_cast<int*>(s) <= 0) W().block(s, "semaphore"); }
    return sem_trywait(s);
}
}

#if defined(SIM_TSAN_HOOKS)
// ---------------------------------------------------------------- instrumentation (-fsanitize=thread, own run time)
static inline void acc(void* p, size_t n, bool w) { if (auto x = World::active()) x->access(p, n, w); }
// An atomic operation: ordered with every other one on the same object.
static inline void atomicOp(const volatile void* p, bool acq, bool rel) {
    if (!IN_SIM || inRuntime) return;
    W().point(true);
    W().point(false);
    Quiet q;
    auto& c = atomics[const_cast<const void*>(p)];
    if (acq) W().acquire(c);
    if (rel) W().release(c);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { acc(p, N, false); } \
    void __tsan_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int) { atomicOp(p, true, false); return *p; } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { atomicOp(p, false, true); *p = v; } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { atomicOp(p, true, true); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicOp(p, true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomicOp(p, true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (IN_SIM && !inRuntime) { W().point(true); Quiet q; W().acquire(fenceClock); W().release(fenceClock); } }
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc((void*)s, n, false); acc(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { acc((void*)s, n, false); acc(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { acc(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { acc((void*)a, n, false); acc((void*)b, n, false); return __real_memcmp(a, b, n); }
}

#include <malloc.h>
#include <new>
// Released memory is kept aside until the run ends: an access to it is seen, and no address is reused.
static void released(void* p) noexcept {
    if (!p) return;
    if (IN_SIM && !inRuntime && !hidden && W().opt.races) {
        size_t n = malloc_usable_size(p);
        W().access(p, std::min<size_t>(n, 8), true);
        Quiet q;
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        for (size_t i = 0; i < n; i += 8) { auto& s = (*shadow)[(a + i) >> 3]; s = Shadow{}; s.freed = true; }
        quarantine.push_back(p);
        return;
    }
    if (World::active() && World::active()->opt.races) {
        Quiet q;
        size_t n = malloc_usable_size(p);
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        for (size_t i = 0; i < n; i += 8) shadow->erase((a + i) >> 3);
    }
    free(p);
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { released(p); }
void operator delete[](void* p) noexcept { released(p); }
void operator delete(void* p, size_t) noexcept { released(p); }
void operator delete[](void* p, size_t) noexcept { released(p); }
#endif
