// Choice streams: the only source of nondeterminism in a simulated run.
//
// Every decision is drawn from a named stream. In search mode a stream draws from a PRNG
// seeded by (run seed, stream name) and records what it drew; in replay mode it reads the
// recording and answers 0 (by convention the plainest choice) when that runs out. Records
// live in shared memory, so that they survive a crash of the process making the choices.
#pragma once
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL) { return fnv(s.data(), s.size(), h); }

enum StreamId { S_CFG, S_PROG, S_SCHED, S_CMD, S_FAULT, S_COUNT };
inline const char* stream_names[S_COUNT] = {"cfg", "prog", "sched", "cmd", "fault"};

constexpr size_t REC_MAX = 1 << 17;
struct SharedRec {
    uint64_t seed;
    uint64_t current_seed_index;      // progress marker read by the parent after a crash
    uint32_t len[S_COUNT];
    uint32_t rec[S_COUNT][REC_MAX];
    char note[512];                   // last thing the run was doing (for crash reports)
};

struct ChoiceLimit : std::runtime_error { using std::runtime_error::runtime_error; };

class Choices {
public:
    explicit Choices(SharedRec* r) : rec(r) {}
    void searchMode(uint64_t seed) {
        replay = false; rec->seed = seed;
        for (int i = 0; i < S_COUNT; ++i) {
            rec->len[i] = 0; pos[i] = 0;
            state[i] = seed ^ fnv(stream_names[i], strlen(stream_names[i]));
            splitmix(state[i]);
        }
    }
    void replayMode(const std::vector<uint32_t> (&in)[S_COUNT]) {
        replay = true;
        for (int i = 0; i < S_COUNT; ++i) { given[i] = in[i]; rec->len[i] = 0; pos[i] = 0; }
    }
    // Uniform in [0, n).
    uint32_t choose(StreamId s, uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        if (replay) v = pos[s] < given[s].size() ? given[s][pos[s]] % n : 0;
        else v = static_cast<uint32_t>((splitmix(state[s]) >> 16) % n);
        put(s, v);
        return v;
    }
    // True with probability num/den; recorded as 0 (false) or 1 (true).
    bool chance(StreamId s, uint32_t num, uint32_t den) {
        uint32_t v;
        if (replay) v = pos[s] < given[s].size() ? (given[s][pos[s]] != 0) : 0;
        else v = (splitmix(state[s]) >> 16) % den < num;
        put(s, v);
        return v;
    }
    // Index into weights; index 0 is the plain choice.
    uint32_t weighted(StreamId s, const std::vector<uint32_t>& w) {
        uint32_t total = 0;
        for (auto x : w) total += x;
        uint32_t v = 0;
        if (replay) {
            v = pos[s] < given[s].size() ? given[s][pos[s]] % w.size() : 0;
            if (!w[v]) { v = 0; while (v + 1 < w.size() && !w[v]) ++v; }
        } else if (total) {
            uint32_t x = (splitmix(state[s]) >> 16) % total;
            while (x >= w[v]) { x -= w[v]; ++v; }
        }
        put(s, v);
        return v;
    }
    int64_t range(StreamId s, int64_t lo, int64_t hi) { return lo + choose(s, static_cast<uint32_t>(hi - lo + 1)); }
    SharedRec* rec;
    bool replay = false;
    void (*onLimit)() = nullptr;
private:
    void put(StreamId s, uint32_t v) {
        if (pos[s] >= REC_MAX) {
            if (onLimit) onLimit();     // does not return when it may not throw (simulated threads)
            throw ChoiceLimit(stream_names[s]);
        }
        rec->rec[s][pos[s]++] = v;
        rec->len[s] = pos[s];
    }
    uint64_t state[S_COUNT];
    uint32_t pos[S_COUNT];
    std::vector<uint32_t> given[S_COUNT];
};

// A property was violated. `kind` names what went wrong; it is what minimisation preserves.
struct Violation {
    std::string kind, detail;
};

// Everything one simulated run reports.
struct Run {
    Choices& ch;
    std::string prop;
    bool verbose = false;
    std::map<std::string, uint64_t> count;   // measured: faults injected, events, ...
    uint64_t hash = 0xcbf29ce484222325ULL;   // event hash: determinism and distinctness
    uint64_t ticks = 0;                      // simulated time
    bool nontrivial = false;
    bool discarded = false;
    std::string log;                         // rendering (only when verbose)
    Run(Choices& c, std::string p) : ch(c), prop(std::move(p)) {}
    void mix(uint64_t v) { hash = fnv(&v, sizeof v, hash); }
    void mix(const std::string& s) { hash = fnv(s, hash); mix(s.size()); }
    void say(const std::string& s) { if (verbose) { log += s; log += '\n'; } }
    void note(const std::string& s) {
        snprintf(ch.rec->note, sizeof ch.rec->note, "%s", s.c_str());
    }
    [[noreturn]] void fail(const std::string& kind, const std::string& detail) { throw Violation{kind, detail}; }
};

using Scenario = void (*)(Run&);
// Registered by each simulator binary.
Scenario find_scenario(const std::string& prop);
// A program's main function that calls exit() comes back here with its code, without unwinding.
extern jmp_buf* main_left;
extern int main_code;
int run_main(int (*f)(int, char**), int argc, char** argv);
}
