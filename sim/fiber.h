// A second thread of control under the simulator's command: a coroutine that runs only when
// told to and hands control back at its seams. Unwinding state is kept apart, so that either
// side may be switched out inside a catch block.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

// Saves the callee-saved registers and the stack pointer in *from and goes on at `to`.
// (swapcontext would do, but costs a system call per switch and more under a sanitizer.)
extern "C" void sim_switch(void** from, void* to);
__asm__(R"(
.text
.weak sim_switch
.type sim_switch,@function
sim_switch:
    endbr64
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

namespace sim {
struct EhState {
    void* caught = nullptr; unsigned int uncaught = 0;
    static EhState* live() { return reinterpret_cast<EhState*>(__cxxabiv1::__cxa_get_globals()); }
};

class Fiber {
public:
    enum class State { Fresh, Suspended, Running, Done };
    explicit Fiber(std::function<void()> f) : body(std::move(f)) {
        stack = takeStack();
        auto top = reinterpret_cast<void**>(stack + SIZE - 64);     // 16-aligned
        *--top = nullptr;                                           // where entry() would return to
        *--top = reinterpret_cast<void*>(&Fiber::entry);
        for (int i = 0; i < 6; ++i) *--top = nullptr;
        ctx = top;
    }
    Fiber(const Fiber&) = delete;
    ~Fiber() {
        if (state == State::Done || state == State::Fresh || reclaim) giveStack(stack);
        // otherwise abandoned in the middle: its stack and what lives on it are left alone
    }
    // Main side: runs the fiber until it suspends or ends.
    void resume() {
        if (state == State::Done || state == State::Running) abort();
        state = State::Running;
        mainEh = *EhState::live();
        *EhState::live() = eh;
        current() = this;
#if defined(__SANITIZE_ADDRESS__)
        void* fake = nullptr;
        __sanitizer_start_switch_fiber(&fake, stack, SIZE);
#endif
        sim_switch(&mainCtx, ctx);
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
        current() = nullptr;
        eh = *EhState::live();
        *EhState::live() = mainEh;
    }
    // Fiber side: hands control back to main.
    static void suspend() {
        Fiber* f = current();
        f->state = State::Suspended;
        f->back(false);
    }
    static Fiber*& current() { static Fiber* c = nullptr; return c; }
    State state = State::Fresh;
    bool reclaim = false;       // a killed one: its stack is reused, what lived on it is lost
private:
    static constexpr size_t SIZE = 1 << 20;
    static std::vector<char*>& pool() { static std::vector<char*> p; return p; }
    static char* takeStack() {
        if (!pool().empty()) { char* s = pool().back(); pool().pop_back(); return s; }
        void* p = mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        return static_cast<char*>(p);
    }
    static void giveStack(char* s) {
#if defined(__SANITIZE_ADDRESS__)
        ASAN_UNPOISON_MEMORY_REGION(s, SIZE);
#endif
        pool().push_back(s);
    }
    static void entry() { current()->run(); }
    void run() {
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_finish_switch_fiber(nullptr, &mainStack, &mainSize);
#endif
        body();
        state = State::Done;
        back(true);
        abort();
    }
    void back(bool last) {
#if defined(__SANITIZE_ADDRESS__)
        void* fake = nullptr;
        __sanitizer_start_switch_fiber(last ? nullptr : &fake, mainStack, mainSize);
#endif
        sim_switch(&ctx, mainCtx);
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_finish_switch_fiber(fake, &mainStack, &mainSize);
#endif
    }
    std::function<void()> body;
    char* stack;
    void *ctx = nullptr, *mainCtx = nullptr;
    EhState eh, mainEh;
    const void* mainStack = nullptr; size_t mainSize = 0;
};
}
