// Search, record, replay and minimise simulated runs.
#include <csignal>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "core.h"

using namespace sim;

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:malloc_context_size=3:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2048"; }
#endif

#if defined(SIM_WRAP_NEW)
// A host with little memory: huge allocations fail (the sanitizer would abort instead).
extern "C" void* __real__Znwm(size_t n);
extern "C" void* __wrap__Znwm(size_t n) { if (n >> 34) throw std::bad_alloc(); return __real__Znwm(n); }
#endif

jmp_buf* sim::main_left; int sim::main_code;
extern "C" void sim_main_exit(int code) {
    if (!sim::main_left) _exit(3);
    sim::main_code = code;
    longjmp(*sim::main_left, 1);
}
int sim::run_main(int (*f)(int, char**), int argc, char** argv) {
    jmp_buf here;
    struct Guard { ~Guard() { main_left = nullptr; } } guard;
    main_left = &here;
    if (setjmp(here)) return main_code;
    return f(argc, argv);
}

namespace {
struct Replay {
    std::string prop, kind, detail;
    uint64_t seed = 0;
    std::vector<uint32_t> s[S_COUNT];
};

SharedRec* mapRec(const char* path) {
    int fd = -1;
    if (path) {
        fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(SharedRec))) { perror(path); exit(3); }
    }
    void* p = mmap(nullptr, sizeof(SharedRec), PROT_READ | PROT_WRITE, fd < 0 ? MAP_SHARED | MAP_ANONYMOUS : MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<SharedRec*>(p);
}

uint64_t runSeed(uint64_t base, const std::string& prop, uint64_t idx) {
    uint64_t s = base * 0x9e3779b97f4a7c15ULL ^ fnv(prop) ^ (idx * 0xd1342543de82ef95ULL);
    splitmix(s);
    return splitmix(s);
}

void limits() {
    itimerval t{{0, 0}, {30, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
    itimerval r{{0, 0}, {180, 0}};
    setitimer(ITIMER_REAL, &r, nullptr);
}

struct Outcome { bool violated = false, discarded = false, nontrivial = false; std::string kind, detail, log; uint64_t hash = 0, ticks = 0; std::map<std::string, uint64_t> count; };

Outcome runOne(const std::string& prop, Choices& ch, bool verbose) {
    Scenario sc = find_scenario(prop);
    if (!sc) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); exit(3); }
    Run run(ch, prop);
    run.verbose = verbose;
    Outcome o;
    limits();
    try {
        sc(run);
    } catch (const Violation& v) {
        o.violated = true; o.kind = v.kind; o.detail = v.detail;
    } catch (const ChoiceLimit&) {
        run.discarded = true;
    }
    o.hash = run.hash; o.ticks = run.ticks; o.count = run.count; o.log = run.log;
    o.discarded = run.discarded; o.nontrivial = run.nontrivial && !run.discarded;
    return o;
}

std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

void writeReplay(const std::string& path, const Replay& r, const std::string& render) {
    std::ofstream f(path);
    f << "t86-sim-replay 1\nproperty " << r.prop << "\nkind " << r.kind << "\nseed " << r.seed << "\n";
    for (int i = 0; i < S_COUNT; ++i) {
        f << "stream " << stream_names[i];
        size_t n = r.s[i].size();
        while (n && r.s[i][n - 1] == 0) --n;
        for (size_t k = 0; k < n; ++k) f << ' ' << r.s[i][k];
        f << "\n";
    }
    f << "end\n";
    std::istringstream d(r.detail + "\n\n" + render);
    std::string line;
    while (std::getline(d, line)) f << "# " << line << "\n";
}

Replay readReplay(const std::string& path) {
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
    Replay r;
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property") is >> r.prop;
        else if (k == "kind") { std::getline(is >> std::ws, r.kind); }
        else if (k == "seed") is >> r.seed;
        else if (k == "stream") {
            std::string n; is >> n;
            for (int i = 0; i < S_COUNT; ++i) if (n == stream_names[i]) { uint32_t v; while (is >> v) r.s[i].push_back(v); }
        } else if (k == "end") break;
    }
    return r;
}

std::string firstError(const std::string& path) {
    std::ifstream f(path);
    std::string line, best;
    while (std::getline(f, line)) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("Assertion") != std::string::npos
            || line.find("what():") != std::string::npos || line.find("runtime error") != std::string::npos) {
            if (best.empty()) best = line;
        }
        if (!best.empty() && best.find("AddressSanitizer") != std::string::npos && line.find("/src/") != std::string::npos) { best += " | " + line; break; }
    }
    // addresses differ between runs
    std::string out;
    for (size_t i = 0; i < best.size(); ++i) {
        if (best[i] == '0' && i + 1 < best.size() && best[i + 1] == 'x') { out += "0x_"; i += 2; while (i < best.size() && isxdigit(best[i])) ++i; --i; }
        else if (best[i] == '=' && i + 1 < best.size() && best[i + 1] == '=') { size_t j = i + 2; while (j < best.size() && isdigit(best[j])) ++j; if (j > i + 2) { i = j + 1; } else out += best[i]; }
        else out += best[i];
    }
    return out;
}

// Runs in a child process, so that crashes and hangs are outcomes too.
Outcome runForked(const std::string& prop, SharedRec* rec, const Replay* rp, uint64_t seed, bool verbose) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(3); }
    char errf[] = "/tmp/t86sim.XXXXXX";
    int ef = mkstemp(errf);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        dup2(ef, 2);
        Choices ch(rec);
        if (rp) ch.replayMode(rp->s); else ch.searchMode(seed);
        Outcome o = runOne(prop, ch, verbose);
        std::ostringstream os;
        os << o.violated << ' ' << o.discarded << ' ' << o.nontrivial << ' ' << o.hash << ' ' << o.ticks << '\n';
        auto blob = [&](const std::string& s) { os << s.size() << '\n' << s << '\n'; };
        blob(o.kind); blob(o.detail); blob(o.log);
        std::string s = os.str();
        size_t off = 0;
        while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
        _exit(0);
    }
    close(fd[1]);
    std::string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    close(ef);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !got.empty()) {
        std::istringstream is(got);
        is >> o.violated >> o.discarded >> o.nontrivial >> o.hash >> o.ticks;
        auto blob = [&](std::string& s) { size_t k; is >> k; is.get(); s.resize(k); is.read(s.data(), k); };
        blob(o.kind); blob(o.detail); blob(o.log);
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
        fprintf(stderr, "harness error in child: %s\n", firstError(errf).c_str());
        unlink(errf);
        exit(3);
    } else {
        o.violated = true;
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        bool hang = sig == SIGPROF || sig == SIGALRM;
        o.kind = hang ? "hang" : "crash";
        o.detail = hang ? "the run did not finish" : std::string("the process died: ") + (sig ? strsignal(sig) : "exit " + std::to_string(WEXITSTATUS(st))) + "; " + firstError(errf);
        o.detail += std::string(" (while: ") + rec->note + ")";
        o.hash = fnv(o.kind);
    }
    unlink(errf);
    return o;
}

Replay fromRec(const SharedRec* rec, const std::string& prop, const Outcome& o) {
    Replay r;
    r.prop = prop; r.kind = o.kind; r.detail = o.detail; r.seed = rec->seed;
    for (int i = 0; i < S_COUNT; ++i) r.s[i].assign(rec->rec[i], rec->rec[i] + rec->len[i]);
    return r;
}

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int search(int argc, char** argv) {
    // search PROP BASE FROM STRIDE MAXRUNS SECONDS OUTPREFIX
    std::string prop = argv[2];
    uint64_t base = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), maxr = strtoull(argv[6], 0, 10);
    double secs = atof(argv[7]);
    std::string out = argv[8];
    SharedRec* rec = mapRec((out + ".rec").c_str());
    Choices ch(rec);
    double t0 = now();
    uint64_t runs = 0, disc = 0, ticks = 0, det = 0, nontriv = 0;
    std::map<std::string, uint64_t> count;
    std::set<uint64_t> hashes;
    std::vector<std::string> samples;
    int rc = 0;
    std::string vkind, vdetail;
    uint64_t vseed = 0, idx = from;
    auto dump = [&](bool done) {
        std::string tmp = out + ".json.tmp";
        {
            std::ofstream f(tmp);
            f << "{\"runs\":" << runs << ",\"discarded\":" << disc << ",\"ticks\":" << ticks << ",\"determinism_checked\":" << det
              << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << hashes.size() << ",\"wall\":" << now() - t0 << ",\"next_index\":" << idx
              << ",\"done\":" << (done ? "true" : "false") << ",\"violated\":" << (rc == 1 ? "true" : "false") << ",\"seed\":\"" << vseed << "\",\"kind\":" << jstr(vkind) << ",\"detail\":" << jstr(vdetail) << ",\"count\":{";
            bool first = true;
            for (auto& [k, v] : count) { f << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
            f << "},\"samples\":[";
            for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << jstr(samples[i]);
            f << "]}\n";
        }
        rename(tmp.c_str(), (out + ".json").c_str());
        std::ofstream h(out + ".hashes", std::ios::binary);
        for (auto x : hashes) h.write(reinterpret_cast<const char*>(&x), 8);
    };
    double lastDump = now();
    for (; runs < maxr && now() - t0 < secs; idx += stride) {
        uint64_t seed = runSeed(base, prop, idx);
        rec->current_seed_index = idx;
        ch.searchMode(seed);
        bool wantSample = samples.size() < 2 && runs >= 3;
        Outcome o = runOne(prop, ch, wantSample);
        ++runs;
        ticks += o.ticks;
        if (o.discarded) ++disc;
        if (o.nontrivial) { ++nontriv; hashes.insert(o.hash); }
        for (auto& [k, v] : o.count) count[k] += v;
        if (wantSample && o.nontrivial) samples.push_back(o.log.substr(0, 3000));
        if (o.violated) { rc = 1; vkind = o.kind; vdetail = o.detail; vseed = seed; break; }
        if (runs % 64 == 1) {
            ch.searchMode(seed);
            Outcome p = runOne(prop, ch, false);
            ++det;
            if (p.hash != o.hash || p.violated != o.violated) {
                fprintf(stderr, "NONDETERMINISM: seed %llu gave two different executions\n", (unsigned long long)seed);
                rc = 4; vseed = seed; vkind = "nondeterminism";
                break;
            }
        }
        if (now() - lastDump > 5) { idx += stride; dump(false); idx -= stride; lastDump = now(); }
    }
    dump(true);
    return rc == 4 ? 4 : 0;
}

int record(char** argv) {
    // record PROP SEED OUT
    SharedRec* rec = mapRec(nullptr);
    uint64_t seed = strtoull(argv[3], 0, 10);
    Outcome o = runForked(argv[2], rec, nullptr, seed, true);
    printf("violated=%d kind=%s hash=%llu\n%s\n", o.violated, o.kind.c_str(), (unsigned long long)o.hash, o.detail.c_str());
    if (o.violated) writeReplay(argv[4], fromRec(rec, argv[2], o), o.log);
    return o.violated ? 1 : 0;
}

int replay(int argc, char** argv) {
    Replay r = readReplay(argv[2]);
    SharedRec* rec = mapRec(nullptr);
    Outcome o = runForked(r.prop, rec, &r, 0, argc > 3);
    printf("violated=%d kind=%s hash=%llu\n%s\n", o.violated, o.kind.c_str(), (unsigned long long)o.hash, o.detail.c_str());
    if (argc > 3) printf("%s\n", o.log.c_str());
    return o.violated ? 1 : 0;
}

int minimise(char** argv) {
    // minimise IN OUT SECONDS
    Replay best = readReplay(argv[2]);
    SharedRec* rec = mapRec(nullptr);
    double t0 = now(), secs = atof(argv[4]);
    int tries = 0;
    auto still = [&](Replay& c) {
        ++tries;
        Outcome o = runForked(best.prop, rec, &c, 0, false);
        if (!o.violated || o.kind != best.kind) return false;
        // keep what was actually consumed
        Replay n = fromRec(rec, best.prop, o);
        n.seed = best.seed;
        best = n;
        return true;
    };
    auto size = [&] { size_t n = 0; for (auto& s : best.s) for (auto v : s) n += v != 0; return n; };
    { Replay c = best; if (!still(c)) { fprintf(stderr, "does not reproduce\n"); return 2; } }
    size_t before = size();
    bool progress = true;
    while (progress && now() - t0 < secs) {
        progress = false;
        for (int i : {(int)S_SCHED, (int)S_FAULT, (int)S_CMD, (int)S_PROG, (int)S_CFG}) {
            for (size_t chunk = std::max<size_t>(best.s[i].size() / 2, 1); chunk >= 1 && now() - t0 < secs; chunk /= 2) {
                for (size_t at = 0; at < best.s[i].size() && now() - t0 < secs;) {
                    size_t end = std::min(at + chunk, best.s[i].size());
                    bool zero = true;
                    for (size_t k = at; k < end; ++k) zero = zero && best.s[i][k] == 0;
                    size_t was = best.s[i].size(), wasN = size();
                    Replay c = best;
                    c.s[i].erase(c.s[i].begin() + at, c.s[i].begin() + end);
                    if (i != S_SCHED && still(c) && (size() < wasN || best.s[i].size() < was)) { progress = true; continue; }
                    if (!zero) {
                        c = best;
                        if (end > c.s[i].size()) { at = end; continue; }
                        std::fill(c.s[i].begin() + at, c.s[i].begin() + end, 0);
                        wasN = size();
                        if (still(c) && size() < wasN) progress = true;
                    }
                    at += chunk;
                }
                if (chunk == 1) break;
            }
        }
    }
    Outcome o = runForked(best.prop, rec, &best, 0, true);
    best.detail = o.detail;
    writeReplay(argv[3], best, o.log);
    printf("minimised: %zu -> %zu nonzero choices in %d tries\n", before, size(), tries);
    return o.violated && o.kind == best.kind ? 0 : 2;
}
}

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "search" && argc >= 9) return search(argc, argv);
    if (mode == "record" && argc >= 5) return record(argv);
    if (mode == "replay" && argc >= 3) return replay(argc, argv);
    if (mode == "minimise" && argc >= 5) return minimise(argv);
    fprintf(stderr, "usage: sim search PROP BASE FROM STRIDE MAXRUNS SECONDS OUT | record PROP SEED OUT | replay FILE [v] | minimise IN OUT SECONDS\n");
    return 3;
}
