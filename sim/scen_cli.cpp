// P18: whole sessions of the command-line debugger.
//
// The real Cli runs on one simulated thread and starts the real machine on others, over the real
// in-process link. The terminal is the simulator: each time the debugger asks for a line, what it
// printed since the last one is checked against sequential execution and the next line is drawn.
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <regex>
#include <sys/mman.h>
#include <unistd.h>
#include "dbg-cli/CLI.h"
#include "dbg.h"
#include "kernel.h"
#include "srcinfo.h"
#include "threads.h"
#include "tty.h"

// The program that runs a machine to attach to; its main is compiled under this name.
extern "C" int t86_cli_main(int argc, char** argv) __attribute__((weak));

namespace {
using namespace sim;
using dbg::Ev; using dbg::Model; using dbg::Out; using isa::Ins; using isa::Op; using isa::Opnd;
using vm::Size;
using thr::World;

struct Terminal;
Terminal* term = nullptr;

struct CliTiming : vm::Timing {
    using vm::Timing::Timing;
    uint64_t total = 0, pulses = 0, limit = 3000000;
    void pulse() override;
};

std::string plain(const std::string& s) {       // without colours
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { while (i < s.size() && s[i] != 'm') ++i; continue; }
        o += s[i];
    }
    return o;
}
std::vector<std::string> linesOf(const std::string& s) {
    std::vector<std::string> v;
    size_t at = 0;
    while (at < s.size()) { auto e = s.find('\n', at); if (e == s.npos) e = s.size(); v.push_back(s.substr(at, e - at)); at = e + 1; }
    return v;
}
std::string trimmed(std::string s) {
    while (!s.empty() && isspace((unsigned char)s.front())) s.erase(0, 1);
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    return s;
}

// Standard input and output of a process.
struct ProcessIo {
    vm::InBuf in; std::stringbuf out;
    std::ios::iostate si = std::ios::goodbit, so = std::ios::goodbit;
    ProcessIo(Run& r, const std::string& input) { in.data = input; in.run = &r; }
};

// The network between the debugger's process and that of a machine to attach to.
struct Network : net::Kernel {
    World& w; CliTiming& t;
    Network(Run& r, World& w, CliTiming& t) : Kernel(r), w(w), t(t) { net::kernel = this; }
    ~Network() override { net::kernel = nullptr; }
    int remote = -1;                // the machine's thread
    uint64_t calls = 0, faultAt = ~0ull;
    uint32_t fault = 0;             // 1: the machine dies, 2: the connection breaks, 3: ... and only one end knows
    bool struck = false;
    int who() const override { int s = World::self(); return s < 0 ? -1 : s == 0 ? 1 : 0; }
    std::string nameOf(int p) const override { return p ? "the debugger" : "the attached machine"; }
    void violate(const std::string& k, const std::string& d) override { w.fail(k, d); abort(); }
    void preempt() override { w.point(true); }
    void nap() override { w.yieldNow(); }
    void changed() override { for (auto& x : w.threads) if (x->state == World::Blocked && x->on == this) w.wake(*x); }
    void enter(const char*) override {
        ++r.count["syscalls"];
        if (!conn || ++calls < faultAt || struck || !fault || (fault == 1 && who() == 0)) return;
        struck = true;
        r.note("link fault");
        if (fault == 1) {
            r.say("(the attached machine is killed)");
            ++r.count["fault.process_killed"];
            w.kill(remote);
            exitProc(0);
        } else {
            r.say("(the connection breaks)");
            ++r.count["fault.connection_cut"];
            uint32_t who = fault == 2 ? 3 : 1 + r.ch.choose(S_FAULT, 2);     // both ends are told, or one of them
            for (int s = 0; s < 2; ++s) if (who >> s & 1) resetTo(*conn, s);
        }
    }
    void block(std::function<bool()> f) override {
        while (!f()) {
            bool moved = false;
            bool more = false;
            for (auto& [fd, s] : socks) {
                if (s.proc != who() || !s.open || !s.conn) continue;
                auto& d = s.conn->p[1 - s.side];
                if (!r.ch.chance(S_SCHED, 1, 4)) moved |= deliver(d);
                more |= !d.flight.empty() || (d.fin && !d.finSeen);
            }
            if (f()) break;
            if (moved || more) w.yieldNow(); else w.block(this, "the network");
        }
    }
};

struct Terminal {
    Run& r; World& w; CliTiming& t; Network net; Size size; isa::Program prog; std::string input;
    static constexpr int FD = 900, RFD = 902;      // the program file of the debugger and of a machine started by itself
    char* buf = nullptr; size_t len = 0;
    FILE* real = nullptr; FILE* mem = nullptr;
    std::unique_ptr<ProcessIo> io, rio;      // of our machines, of the one started by itself
    ProcessIo* inUse = nullptr;
    std::streambuf *oin = nullptr, *oout = nullptr;
    void use(ProcessIo* p) {
        if (p == inUse) return;
        if (inUse) { inUse->si = std::cin.rdstate(); inUse->so = std::cout.rdstate(); }
        inUse = p;
        std::cin.rdbuf(p ? &p->in : oin); std::cout.rdbuf(p ? &p->out : oout);
        std::cin.clear(p ? p->si : std::ios::goodbit); std::cout.clear(p ? p->so : std::ios::goodbit);
    }
    Model M;
    bool alive = false, over = false, errored = false, verify = false;    // verify: the last run command failed
    bool lines = false, vars = false;
    std::map<size_t, uint64_t> lineMap; std::set<uint64_t> lineAddrs;
    srcm::Info info; std::string infoText;
    std::set<uint64_t> blank;
    std::vector<uint64_t> trace, writes;
    std::deque<std::optional<std::string>> feed;
    std::function<void(const std::string&)> check;
    std::string last;
    uint32_t left = 0;
    size_t stops = 0, runs = 0;
    bool ended = false;
    uint64_t base = 0, basep = 0;
    std::unique_ptr<tty::Tty> tty;      // P21: the real line editor reads the lines from here
    bool idle = false;                  // ... and nothing is run, the lines just come

    // A machine started by itself, to be attached to: where it is, and whether its link is broken
    enum { None, Starting, Attached, Ending } remote = None;
    bool remotes = false, lost = false, running = false;
    int tables = 0;             // what is in force after a lost command is not known
    size_t refused = 0;

    Terminal(Run& r, World& w, CliTiming& t, Size s) : r(r), w(w), t(t), net(r, w, t), size(s), M(s) {
        term = this;
        oin = std::cin.rdbuf(); oout = std::cout.rdbuf();
        w.onResume = [this](int t) { use(t >= 0 && this->w.nameOf(t) == "attached machine" ? rio.get() : io.get()); };
        real = stdout;
        mem = open_memstream(&buf, &len);
        stdout = mem;
    }
    ~Terminal() { use(nullptr); stdout = real; fclose(mem); free(buf); term = nullptr; close(FD); close(RFD); }

    uint32_t c(uint32_t n) { return r.ch.choose(S_CMD, n); }
    bool pr(uint32_t a, uint32_t b) { return r.ch.chance(S_CMD, a, b); }
    template <class T> static std::string S(T v) { return std::to_string(v); }
    [[noreturn]] void bad(const std::string& kind, const std::string& detail) {
        w.fail(kind, "after \"" + last + "\": " + detail);
        abort();
    }

    // ---------------------------------------------------------- the program file
    void writeFile(const std::string& text, int FD = Terminal::FD) {
        int fd = memfd_create("program", 0);
        if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) { perror("memfd"); _exit(3); }
        if (fd != FD) { dup2(fd, FD); close(fd); }
    }
    std::string fileText() {
        std::string s = prog.source();
        if (lines) {
            s += ".debug_line\n";
            for (auto& [l, a] : lineMap) s += S(l) + ": " + S(a) + "\n";
        }
        if (vars) s += infoText;
        if (lines) {
            s += ".debug_source\n";
            for (size_t i = 0; i < sourceLines(); ++i) s += "statement " + S(i + 1) + ";\n";
        }
        return s;
    }

    // ---------------------------------------------------------- checks of what was printed
    void noError(const std::string& out) {
        if (out.find("Error:") != out.npos) bad("refused", "the command was refused: " + trimmed(out));
    }
    void isError(const std::string& out) {
        if (out.find("Error:") == out.npos) bad("not-refused", "the command was not refused, it printed \"" + out.substr(0, 200) + "\"");
    }
    void checkIo() {
        auto io = (remote == Attached ? rio : this->io).get();
        if (!io || lost) return;
        if (io->out.str() != M.m.out) bad("output", "the program's output is \"" + io->out.str() + "\", sequential execution prints \"" + M.m.out + "\"");
        if (io->in.consumed() != M.m.inpos && M.m.inpos != input.size())
            bad("input", "the program consumed " + S(io->in.consumed()) + " characters, sequential execution " + S(M.m.inpos));
    }
    // Instructions as shown: address and text on each line, breakpoints and the current one marked.
    size_t checkText(const std::string& out, bool current, std::optional<uint64_t> first = {}) {
        static const std::regex re("^(.)(->|  )\\s*(\\d+):  (.*)$");
        size_t n = 0;
        bool cur = false;
        for (auto& l : linesOf(out)) {
            std::smatch m;
            if (!std::regex_match(l, m, re)) continue;
            uint64_t a = std::stoull(m[3]);
            if (a >= M.text.size()) bad("text", "instruction " + S(a) + " is shown, the program has " + S(M.text.size()));
            if (first && a != *first + n) bad("text", "instruction " + S(a) + " is shown in place of " + S(*first + n));
            std::string got;
            try { got = dbg::canon(m[4]); } catch (const std::exception&) { got = m[4]; }
            auto want = dbg::canon(isa::text(M.text[a]));
            if (got.empty() && blank.count(a)) { ++r.count["known.disabled_breakpoint_shown_blank"]; }     // P16's known finding
            else if (got != want) bad("text", "instruction " + S(a) + " is shown as \"" + m[4].str() + "\", it is \"" + want + "\"");
            if ((m[1] == "@") != (M.bps.count(a) > 0)) bad("text", "instruction " + S(a) + " is shown " + (m[1] == "@" ? "with" : "without") + " a breakpoint");
            if (!errored && (m[2] == "->") != (a == M.m.ip)) bad("place", m[2] == "->" ? "the current instruction is shown to be " + S(a) + ", it is " + S(M.m.ip) : "instruction " + S(a) + " is not marked as the current one");
            cur = cur || m[2] == "->";
            ++n;
        }
        if (current && !errored && !cur && M.m.ip < M.text.size()) bad("place", "the current instruction " + S(M.m.ip) + " is not shown");
        return n;
    }
    size_t sourceLines() const { return !lines || lineMap.empty() ? 0 : lineMap.rbegin()->first + 1; }
    // The source lines [from, to) as they should be shown.
    std::string code(uint64_t from, uint64_t to) {
        std::string s;
        auto cur = lineAt(M.m.ip);
        for (uint64_t i = from; i < to && i < sourceLines(); ++i) {
            auto l = lineMap.find(i);
            bool bp = l != lineMap.end() && lineAt(l->second) == i && M.bps.count(l->second);
            std::string no = S(i + 1);
            s += (bp ? "@" : " ") + std::string(cur == i ? "->" : "  ") + std::string(no.size() < 4 ? 4 - no.size() : 0, ' ') + no + ":statement " + no + ";\n";
        }
        return s;
    }
    void checkCode(const std::string& out, uint64_t line) {
        auto want = code(line < 2 ? 0 : line - 2, line + 3);
        if (out.find(want) == out.npos) bad("source", "shown is\n" + out + "instead of the lines around the current one\n" + want);
    }
    // The function that is named and the variables that are said to be active at a stop.
    void checkFunction(const std::string& out, bool values) {
        std::string want = functionText(values), got;
        for (auto& l : linesOf(out)) if (l.rfind("function ", 0) == 0) got += l + "\n";
        if (got != want) bad("scope", "at " + S(M.m.ip) + " shown is \"" + got + "\", it should be \"" + want + "\"");
    }
    std::string functionText(bool bare) {
        auto f = vars ? info.function(M.m.ip) : nullptr;
        if (!f) return "";
        std::string s = "function " + f->name + " at " + S(f->b) + "-" + S(f->e);
        if (!bare) {
            bool first = true;
            for (auto& [n, v] : info.scope(M.m.ip)) { s += (first ? "; active variables: " : ", ") + n; first = false; }
        }
        return s + "\n";
    }
    std::string describe(uint64_t a) {
        auto l = lineAt(a);
        if (!l) return "address " + S(a);
        return "line " + S(*l + 1) + " (addr " + S(a) + "): statement " + S(*l + 1) + ";";
    }
    std::optional<uint64_t> lineAt(uint64_t a) {
        std::optional<uint64_t> l;
        if (lines) for (auto& [k, x] : lineMap) if (x == a) l = k;
        return l;
    }
    std::string reason(const std::string& out) {
        auto p = out.find("Process stopped, reason: ");
        if (p == out.npos) return "";
        p += 25;
        return out.substr(p, out.find('\n', p) - p);
    }
    // One run-control command; false if the model cannot tell what it does.
    template <class Pred> bool control(const std::string& cmd, bool wantText, bool sourceStep, Pred pred) {
        Model next = M;
        next.steps = 0;
        Out want = pred(next);
        if (want.ev == Ev::None) { ++r.count["skipped"]; return false; }
        t.pulses = 0;
        t.limit = 20000 + next.steps * 4000;
        expect(cmd, [this, cmd, next, want, wantText, sourceStep](const std::string& out) {
            noError(out);
            std::string why = reason(out);
            Out got;
            auto num = [&](const std::string& pre) { return std::stoull(why.substr(pre.size())); };
            std::string bpA = "Software breakpoint hit at address ", bpL = "Software breakpoint hit at line ", wp = "Watchpoint triggered at memory address ";
            bool where = true;
            uint64_t bpAt = want.bpOk ? next.m.ip : want.addr;
            if (why.empty()) got.ev = Ev::Step;
            else if (why.rfind(bpA, 0) == 0) { got.ev = Ev::Bp; got.addr = num(bpA); where = got.addr == bpAt && !lineAt(bpAt); }
            else if (why.rfind(bpL, 0) == 0) { got.ev = Ev::Bp; auto l = lineAt(bpAt); got.addr = num(bpL); where = l && got.addr == *l + 1; }
            else if (why.rfind(wp, 0) == 0) { got.ev = Ev::Wp; got.addr = num(wp); where = got.addr == want.addr; }
            else if (why == "The program finished execution") got.ev = Ev::End;
            else if (why == "Inner CPU error occured.") got.ev = Ev::Err;
            else bad("event", "unknown event \"" + why + "\"");
            bool ok = got.ev == want.ev || (want.bpOk && got.ev == Ev::Bp);
            if (!ok || !where)
                bad("event", "from " + S(M.m.ip) + " it reported \"" + (why.empty() ? "a finished step" : why) + "\", expected " + dbg::evName(want.ev) + " " + S(want.addr) + " with ip " + S(next.m.ip));
            r.count[std::string("stop.") + dbg::evName(got.ev)]++;
            r.mix((uint64_t)got.ev); r.mix(got.addr); r.mix(t.pulses);
            r.ticks += t.pulses;
            M = next;
            ++stops;
            if (got.ev == Ev::End) over = true;
            if (got.ev == Ev::Err) { over = errored = true; ++r.count["fault.execution_error"]; }
            if (!over) {
                auto l = lineAt(M.m.ip);
                if (wantText || !l) { if (!sourceStep) checkText(out, true); } else checkCode(out, *l);
                if (!sourceStep || l) if (l || M.m.ip < M.text.size()) checkFunction(out, false);
            }
        });
        return true;
    }

    void expect(std::string cmd, std::function<void(const std::string&)> f) { feed.push_back(std::move(cmd)); check = std::move(f); }
    void expectOk(std::string cmd) { expect(std::move(cmd), [this](const std::string& o) { noError(o); }); }
    void expectError(std::string cmd) { ++r.count["fault.refused_request"]; expect(std::move(cmd), [this](const std::string& o) { isError(o); }); }

    // ---------------------------------------------------------- drawing commands
    uint64_t addr() {
        if (!trace.empty() && pr(3, 4)) { auto a = trace[c((uint32_t)trace.size())]; if (a < prog.text.size()) return a; }
        if (pr(1, 4) && M.m.ip + 1 < prog.text.size()) return M.m.ip + c(2);
        return c((uint32_t)prog.text.size());
    }
    uint64_t cell() {
        if (!writes.empty() && pr(3, 4)) return writes[c((uint32_t)writes.size())];
        return pr(1, 2) ? c(8) : c((uint32_t)size.ram);
    }
    int64_t value() {
        static const int64_t v[] = {0, 1, -1, 7, 42, 1000, -12345, 2147483648LL, (int64_t)0x7fffffffffffffffLL, (int64_t)0x8000000000000000ULL};
        return pr(1, 2) ? v[c(10)] : (int64_t)c(1 << 16) - 100;
    }
    std::string word(std::initializer_list<const char*> l) { return *(l.begin() + c((uint32_t)l.size())); }
    template <class F> Out both(Model& m, F f) {
        Model h = m;
        Out a = f(h, true), b = f(m, false);
        if (a.ev != b.ev || a.addr != b.addr || h.m.ip != m.m.ip || h.m.sp != m.m.sp || h.steps != m.steps) { ++r.count["ambiguous_frame"]; return {}; }
        return b;
    }

    void commandRun() {
        int how = pr(1, 6) && runs && !lost ? 1 + (int)c(6) : 0;
        std::string cmd = word({"run", "r", "ru"});
        if (how) {
            // the file is gone or was replaced by something that is not a program, or there cannot be such a machine
            static const char* names[] = {"", "fault.file_missing", "fault.file_broken", "fault.file_broken", "fault.small_memory", "fault.huge_machine", "fault.out_of_memory"};
            if (how == 4 && prog.data.empty()) how = 5;
            ++r.count[names[how]];
            if (how == 1) close(FD);
            else if (how <= 3) writeFile(how == 2 ? ".text\n0 MOV R0, \n1 FOO\n" : prog.source() + ".debug_info\nDIE_function: {\n");
            else if (how == 4) cmd += " --data-size=" + S(c((uint32_t)prog.data.size()));
            else cmd += std::string(pr(1, 2) ? " --data-size=" : pr(1, 2) ? " --reg-count=" : " --float-reg-count=") + (how == 5 ? "4000000000000000000" : "1000000000000");
            if (how == 4 && pr(1, 3)) cmd += " --reg-count=" + S(size.nreg);
            expect(cmd, [this](const std::string& out) {
                isError(out);
                writeFile(fileText());
                verify = true;
            });
            return;
        }
        checkIo();
        running = true;
        size_t had = runs;
        std::string opt = " --reg-count=" + S(size.nreg) + " --float-reg-count=" + S(size.nfreg) + " --data-size=" + S(size.ram);
        if (alive) ++r.count["fault.restart"];
        use(nullptr);
        io = std::make_unique<ProcessIo>(r, input);
        use(io.get());
        expect(cmd + opt, [this, had](const std::string& out) {
            noError(out);
            if (out.find("Started process") == out.npos) bad("run", "the program was not started: \"" + out + "\"");
            if (remote == Attached) remote = Ending;
            begin(true);
        });
    }
    int machineMain() {
        std::vector<std::string> a{"t86-cli", "/proc/self/fd/" + S(RFD), "--debug", "--register-cnt", S(size.nreg), "--float-register-cnt", S(size.nfreg), "--memory-size", S(size.ram)};
        std::vector<char*> v;
        for (auto& x : a) v.push_back(x.data());
        v.push_back(nullptr);
        return t86_cli_main((int)a.size(), v.data());
    }
    // Somebody starts a machine that waits for a debugger (t86-cli --debug).
    void launch() {
        if (t86_cli_main && pr(1, 8)) {
            static const char* at[] = {"socket_error", "setsockopt_error", "bind_error", "listen_error"};
            net.only = at[r.ch.choose(S_FAULT, 4)];
            r.say(std::string("(a machine cannot be started: ") + net.only + ")");
            ++r.count["unstarted_machines"];
            net.conn = nullptr; net.fault = 0; net.faultAt = ~0ull; net.struck = false;
            writeFile(prog.source(), RFD);
            remote = Ending;
            net.remote = w.spawn("attached machine", [this] {
                try {
                    if (!machineMain()) w.fail("machine", "a machine that cannot be attached to does not end with an error");
                } catch (const std::exception& e) {
                    w.fail("machine died", std::string("an exception ended the machine that could not be started: ") + e.what());
                }
                net.only = nullptr;
                net.exitProc(0);
            });
            return;
        }
        ++r.count["remote_machines"];
        r.say("(a machine is started)");
        writeFile(prog.source(), RFD);
        remote = Starting;
        rio = std::make_unique<ProcessIo>(r, input);
        net.conn = nullptr;
        net.calls = 0; net.struck = false;
        static const uint32_t at[] = {10, 40, 200, 1000};
        net.fault = r.ch.weighted(S_FAULT, {6, 1, 1, 1});
        net.faultAt = net.fault ? 1 + r.ch.choose(S_FAULT, at[r.ch.choose(S_FAULT, 4)]) : ~0ull;
        net.remote = w.spawn("attached machine", [this] {
            try {
                if (t86_cli_main) {
                    if (int rc = machineMain()) w.fail("machine", "the machine to attach to ended with code " + S(rc));
                } else {
                    auto prog = vm::parse(fileTextOf(RFD));
                    tiny::t86::OS os(size.nreg, size.nfreg, size.ram);
                    auto m = std::make_unique<TCP::TCPServer>(9110);
                    m->Initialize();
                    os.SetDebuggerComms(std::move(m));
                    os.Run(std::move(prog));
                }
            } catch (const std::exception& e) {
                w.fail("machine died", std::string("an exception ended the attached machine: ") + e.what());
            }
            net.exitProc(0);
        });
    }
    // The debugger has ended; a machine nobody attached to waits for ever.
    void closed() { if (remote == Starting && net.remote >= 0) w.kill(net.remote); }
    static std::string fileTextOf(int fd) { std::ifstream f("/proc/self/fd/" + S(fd)); std::stringstream s; s << f.rdbuf(); return s.str(); }
    void begin(bool keep) {         // a new process is there
        auto bps = M.bps; auto wps = M.wps;
        M = Model(size);
        if (keep) { M.bps = bps; M.wps = wps; }
        M.m.in = input; M.m.load(prog); M.text = prog.text;
        blank.clear();
        for (auto& [a, e] : M.bps) if (!e) blank.insert(a);
        alive = true; over = errored = verify = lost = false; info.results.clear();
        ++runs;
    }
    void commandAttach() {
        refused = r.count["fault.connection_refused"];
        expect(word({"attach", "at"}) + " 9110", [this](const std::string& out) {
            if (out.find("Unable to attach") != out.npos) {
                if (r.count["fault.connection_refused"] == refused) bad("attach", "attaching failed although the machine accepts debuggers: " + trimmed(out));
                ++r.count["refused_attach"];
                return;
            }
            bool broken = out.find("Error:") != out.npos;
            if (broken && !net.struck) noError(out);
            begin(false);
            remote = Attached;
            lost = net.struck;
            if (!lost) ++r.count["attached"];
        });
    }
    // The link broke while the last command was carried out.
    void loseMachine(const std::string& out, const std::function<void(const std::string&)>& f) {
        lost = true;
        if (out.find("Error:") == out.npos) { f(out); return; }
        ++r.count["lost_in_command"];
        tables = last[0] == 'b' || last[0] == 'w' ? 3 : 0;
    }
    void commandLost() {
        switch (c(6)) {
        case 0: isLost(word({"istep", "continue", "inext", "finish"})); break;
        case 1: isLost("register"); break;
        case 2: isLost("memory get 0 1"); break;
        case 3: isLost("disassemble"); break;
        case 4: if (remote == Starting) { commandAttach(); break; } [[fallthrough]];
        default: commandRun(); break;
        }
    }
    void isLost(const std::string& cmd) { ++r.count["commands_after_loss"]; expect(cmd, [this](const std::string& o) { isError(o); }); }

    void commandRegisters() {
        expect(word({"register", "reg"}), [this](const std::string& out) {
            if (verify) ++r.count["checked_after_failed_run"];
            verify = false;
            noError(out);
            std::map<std::string, std::string> m;
            for (auto& l : linesOf(out)) { auto p = l.find(':'); if (p != l.npos) m[l.substr(0, p)] = l.substr(p + 1); }
            auto chk = [&](const std::string& n, int64_t v) {
                if (!m.count(n)) bad("state", n + " is not shown");
                if (!errored && m[n] != S(v)) bad("state", n + " is shown as " + m[n] + ", it is " + S(v));
            };
            chk("IP", (int64_t)M.m.ip); chk("SP", M.m.sp); chk("BP", M.m.bp);
            for (size_t i = 0; i < M.m.R.size(); ++i) chk("R" + S(i), M.m.R[i]);
            if (m.size() != M.m.R.size() + 3) bad("state", S(m.size()) + " registers are shown");
        });
    }
    // The command that was lost may have changed the breakpoints and watchpoints or not.
    void resync() {
        if (--tables) {
            expect("breakpoint list", [this](const std::string& out) {
                noError(out);
                auto got = listed(out);
                size_t diff = 0;
                for (auto& [a, e] : got) diff += !M.bps.count(a) || M.bps[a] != e;
                for (auto& [a, e] : M.bps) diff += !got.count(a);
                if (diff > 1) bad("breakpoints", "other breakpoints are listed than were set before the connection was lost: " + trimmed(out));
                M.bps = got;
                for (auto& [a, e] : M.bps) if (!e) blank.insert(a);
            });
        } else {
            expect("watchpoint list", [this](const std::string& out) {
                noError(out);
                auto got = watched(out);
                size_t diff = 0;
                for (auto a : got) diff += !M.wps.count(a);
                for (auto a : M.wps) diff += !got.count(a);
                if (diff > 1) bad("watchpoints", "other watchpoints are listed than were set before the connection was lost: " + trimmed(out));
                M.wps = got;
            });
        }
    }
    static std::set<uint64_t> watched(const std::string& out) {
        std::set<uint64_t> got;
        static const std::regex re("^ - address (\\d+)$");
        for (auto& l : linesOf(out)) { std::smatch m; if (std::regex_match(l, m, re)) got.insert(std::stoull(m[1])); }
        return got;
    }
    static std::map<uint64_t, bool> listed(const std::string& out) {
        static const std::regex re("^addr: (\\d+)(?:, line: \\d+)?; (enabled|disabled).*$");
        std::map<uint64_t, bool> got;
        for (auto& l : linesOf(out)) { std::smatch m; if (std::regex_match(l, m, re)) got[std::stoull(m[1])] = m[2] == "enabled"; }
        return got;
    }
    void commandBreakpoints() {
        bool byLine = lines && !lineMap.empty() && pr(1, 2);
        uint64_t a; std::string loc;
        if (byLine) { auto i = lineMap.begin(); std::advance(i, c((uint32_t)lineMap.size())); a = i->second; loc = S(i->first + 1); }
        else if (!M.bps.empty() && pr(1, 2)) { auto i = M.bps.begin(); std::advance(i, c((uint32_t)M.bps.size())); a = i->first; loc = S(a); }
        else { a = addr(); loc = S(a); }
        if (vars && pr(1, 6)) { byLine = true; auto& f = info.funs[c((uint32_t)info.funs.size())]; a = f.b; loc = f.name; }
        std::string at = byLine ? describe(a) : "address " + S(a), instr = a < M.text.size() ? dbg::canon(isa::text(M.text[a])) : "";
        auto said = [this](const std::string& o, const std::string& want) { if (trimmed(o) != want) bad("breakpoints", "the answer is \"" + trimmed(o) + "\", expected \"" + want + "\""); };
        std::string b = word({"breakpoint", "b", "br"}) + " ", pre = byLine ? "" : "i";
        bool has = M.bps.count(a);
        switch (c(8)) {
        case 0: case 1: case 2: case 3:
            if (has) { expectError(b + pre + word({"set", "s"}) + " " + loc); return; }
            expect(b + pre + "set " + loc, [this, a, at, said, byLine](const std::string& o) {
                noError(o);
                M.bps[a] = true;
                if (byLine) said(o, "Breakpoint set on " + at);
            });
            return;
        case 4:
            if (!has) { expectError(b + pre + "remove " + loc); return; }
            expect(b + pre + word({"remove", "rem"}) + " " + loc, [this, a, at, said, byLine](const std::string& o) { noError(o); M.bps.erase(a); blank.erase(a); said(o, "Breakpoint removed from " + at); });
            return;
        case 5:
            if (!has) { expectError(b + pre + "enable " + loc); return; }
            expect(b + pre + word({"enable", "e"}) + " " + loc, [this, a, at, said, byLine](const std::string& o) { noError(o); M.bps[a] = true; blank.erase(a); said(o, "Breakpoint enabled " + std::string(byLine ? "on " : "at ") + at); });
            return;
        case 6:
            if (!has) { expectError(b + pre + "disable " + loc); return; }
            expect(b + pre + word({"disable", "d"}) + " " + loc, [this, a, at, said, byLine](const std::string& o) { noError(o); M.bps[a] = false; said(o, "Breakpoint disabled " + std::string(byLine ? "on " : "at ") + at); });
            return;
        default:
            expect(b + word({"list", "l"}), [this](const std::string& out) {
                noError(out);
                auto got = listed(out);
                if (got != M.bps) bad("breakpoints", S(got.size()) + " breakpoints are listed, " + S(M.bps.size()) + " are set, or with other status: " + trimmed(out));
                std::string want;
                for (auto& [a, e] : M.bps) {
                    auto l = lineAt(a);
                    auto f = vars ? info.function(a) : nullptr;
                    want += "addr: " + S(a) + (l ? ", line: " + S(*l + 1) : "") + (e ? "; enabled" : "; disabled") + (f ? "; function: " + f->name : "") + "\n";
                }
                if (out != want) bad("breakpoints", "listed is\n" + out + "instead of\n" + want);
            });
        }
    }
    void commandWatchpoints() {
        uint64_t a = !M.wps.empty() && pr(1, 3) ? *M.wps.begin() : cell();
        std::string b = word({"watchpoint", "w", "watch"}) + " ";
        switch (c(4)) {
        case 0: case 1:
            if (M.wps.count(a) || M.wps.size() >= 4) { expectError(b + "iset " + S(a)); return; }
            expect(b + "iset " + S(a), [this, a](const std::string& o) { noError(o); M.wps.insert(a); });
            return;
        case 2:
            if (!M.wps.count(a)) { expectError(b + "irem " + S(a)); return; }
            expect(b + "irem " + S(a), [this, a](const std::string& o) { noError(o); M.wps.erase(a); });
            return;
        default:
            expect(b + "list", [this](const std::string& out) {
                noError(out);
                auto got = watched(out);
                if (got != M.wps) bad("watchpoints", "other watchpoints are listed than are set: " + trimmed(out));
            });
        }
    }
    void commandMemory() {
        uint64_t a = cell();
        std::string b = word({"memory", "mem", "m"}) + " ";
        if (pr(1, 10)) {
            uint64_t n = 1 + c((uint32_t)std::min<uint64_t>(size.ram - a, 6));
            expect(b + word({"getstr", "gets"}) + " " + S(a) + " " + S(n), [this, a, n](const std::string& o) {
                noError(o);
                std::string want;
                for (uint64_t i = 0; i < n; ++i) want += (char)M.m.mem[a + i];
                if (M.m.mem[a + n - 1] != '\n') want += "\\%\n";
                if (o != plain(want)) bad("state", "memory is shown as the string \"" + o + "\", it is \"" + want + "\"");
            });
            return;
        }
        if (pr(1, 2) || over) {
            if (pr(1, 2)) a = 0;
            uint64_t n = a == 0 ? size.ram : 1 + c((uint32_t)std::min<uint64_t>(size.ram - a, 6));
            expect(b + "get " + S(a) + " " + S(n), [this, a, n](const std::string& out) {
                noError(out);
                uint64_t k = 0;
                for (auto& l : linesOf(out)) {
                    std::string want = S(a + k) + ":" + (a + k < size.ram ? S(M.m.mem[a + k]) : "?");
                    if (l != want) bad("state", "memory is shown as " + l + ", it is " + want);
                    ++k;
                }
                if (k != n) bad("state", S(k) + " memory cells are shown instead of " + S(n));
            });
            return;
        }
        std::vector<int64_t> v;
        if (pr(1, 4)) {
            std::string text;
            uint32_t n = c(4);
            for (uint32_t i = 0; i < n && a + i + 1 < size.ram; ++i) {
                switch (c(6)) {
                case 0: text += "\\n"; v.push_back('\n'); break;
                case 1: text += "\\t"; v.push_back('\t'); break;
                case 2: text += "\\0"; v.push_back(0); break;
                case 3: if (text.empty() || text.back() != ' ') { text += ' '; v.push_back(' '); break; } [[fallthrough]];
                default: text += (char)('a' + c(26)); v.push_back(text.back()); break;
                }
            }
            v.push_back(0);
            expect(b + word({"setstr", "sets"}) + " " + S(a) + " \"" + text + "\"", [this, a, v](const std::string& o) { noError(o); for (size_t i = 0; i < v.size(); ++i) M.m.mem[a + i] = v[i]; });
            return;
        }
        if (pr(1, 8)) {         // over the end: nothing may be written
            a = size.ram - c(3);
            std::string cmd = b + "set " + S(a);
            for (uint64_t i = a; i <= size.ram; ++i) cmd += " " + S(value());
            expectError(cmd);
            return;
        }
        uint32_t n = 1 + c(3);
        for (uint32_t i = 0; i < n && a + i < size.ram; ++i) v.push_back(value());
        std::string cmd = b + "set " + S(a);
        for (auto x : v) cmd += " " + S(x);
        expect(cmd, [this, a, v](const std::string& o) { noError(o); for (size_t i = 0; i < v.size(); ++i) M.m.mem[a + i] = v[i]; });
    }
    void commandPoke() {
        if (size.nfreg && pr(1, 5)) {
            int k = (int)c((uint32_t)size.nfreg);
            static const char* v[] = {"0", "1.5", "-0.25", "1e10", "0.1", "-3"};
            const char* x = v[c(6)];
            expect(word({"register", "reg"}) + " fset F" + S(k) + " " + x, [this, k, x](const std::string& o) { noError(o); double d = strtod(x, nullptr); memcpy(&M.m.F[k], &d, 8); });
            return;
        }
        std::string b = word({"register", "reg"}) + " set ";
        int k = (int)c((uint32_t)size.nreg + 2);
        int64_t v = value();
        if (k < (int)size.nreg) { expect(b + "R" + S(k) + " " + S(v), [this, k, v](const std::string& o) { noError(o); M.m.R[k] = v; }); return; }
        if (k == (int)size.nreg) { auto x = addr(); expect(b + "IP " + S(x), [this, x](const std::string& o) { noError(o); M.m.ip = x; }); return; }
        v = (int64_t)size.ram - c((uint32_t)size.ram / 2);
        expect(b + "BP " + S(v), [this, v](const std::string& o) { noError(o); M.m.bp = v; });
    }
    void commandGet() {
        if (size.nfreg && pr(1, 3)) {
            int k = (int)c((uint32_t)size.nfreg);
            expect("reg fget F" + S(k), [this, k](const std::string& o) {
                noError(o);
                auto t = trimmed(o);
                char* e = nullptr;
                double got = strtod(t.c_str(), &e), want = M.m.getF(k);
                if (!errored && (*e || t.empty() || (memcmp(&got, &want, 8) && !(got != got && want != want)))) bad("state", "F" + S(k) + " is shown as " + t + ", it is " + S(want));
            });
            return;
        }
        int k = (int)c((uint32_t)size.nreg);
        expect("reg get R" + S(k), [this, k](const std::string& o) {
            noError(o);
            if (!errored && trimmed(o) != S(M.m.R[k])) bad("state", "R" + S(k) + " is shown as " + trimmed(o) + ", it is " + S(M.m.R[k]));
        });
    }
    void commandDisassemble() {
        std::string b = word({"disassemble", "dis", "d"});
        if (pr(1, 3)) { expect(b, [this](const std::string& o) { noError(o); checkText(o, true); if (!errored && M.m.ip < M.text.size()) checkFunction(o, false); }); return; }
        if (vars && pr(1, 4)) {
            auto& f = info.funs[c((uint32_t)info.funs.size())];
            expect(b + " function " + f.name, [this, n = f.e - f.b, first = f.b](const std::string& o) {
                noError(o);
                auto got = checkText(o, false, first);
                if (got != n) bad("text", S(got) + " instructions are shown instead of " + S(n));
            });
            return;
        }
        uint64_t a = addr(), n = 1 + c((uint32_t)(M.text.size() - a));
        bool all = pr(1, 3), range = !all && pr(1, 2);
        if (all) n = M.text.size() - a;
        expect(b + (range ? " range " + S(a) + " " + S(a + n - 1) : " from " + S(a) + (all ? "" : " " + S(n))), [this, n, a](const std::string& o) {
            noError(o);
            auto got = checkText(o, false, a);
            if (got != n) bad("text", S(got) + " instructions are shown instead of " + S(n));
        });
    }
    void commandAssemble() {
        uint64_t x = addr();
        std::vector<Ins> is;
        uint32_t n = 1 + c(2);
        for (uint32_t i = 0; i < n && x + i < prog.text.size(); ++i) {
            Ins k;
            int reg = (int)c((uint32_t)size.nreg);
            switch (c(6)) {
            case 0: break;
            case 1: k.op = Op::ADD; k.a = Opnd::reg(reg); k.b = Opnd::imm((int64_t)c(100) - 50); break;
            case 2: k.op = Op::MOV; k.a = Opnd::memimm(c(6)); k.b = Opnd::reg(reg); break;
            case 3: k.op = Op::PUTNUM; k.a = Opnd::reg(reg); break;
            case 4: k.op = Op::HALT; break;
            default: k = prog.text[c((uint32_t)prog.text.size())]; break;
            }
            is.push_back(k);
        }
        feed.push_back("assemble interactive " + S(x));
        for (auto& i : is) feed.push_back(isa::text(i));
        bool cut = pr(1, 12) && (!tty || tty->kind == tty::Tty::Term);
        if (cut) feed.push_back(std::nullopt); else feed.push_back("");
        check = [this, x, is, cut](const std::string& o) {
            if (cut) { isError(o); return; }
            noError(o);
            for (size_t i = 0; i < is.size(); ++i) { M.text[x + i] = is[i]; blank.erase(x + i); }
        };
    }
    void commandVariables() {
        if (errored) return;
        if (pr(1, 3)) {
            if (over) { expectError("frame"); return; }
            expect(word({"frame", "fr"}), [this](const std::string& o) {
                noError(o);
                std::string want = functionText(true);
                if (!want.empty()) for (auto& [n, v] : info.scope(M.m.ip)) {
                    try {
                        isa::Machine m = M.m;
                        auto e = std::make_shared<srcm::Ex>();
                        e->k = srcm::Ex::Name; e->s = n;
                        auto x = info.eval(e, m);
                        auto t = info.show(x, m);
                        want += "(" + info.typeName(x) + ") " + n + " = " + t + "\n";
                        ++r.count["variables_shown"];
                    } catch (const srcm::Refuse&) {}
                }
                want = plain(want);
                if (lost) {             // what could not be read any more is left out
                    std::set<std::string> have;
                    for (auto& l : linesOf(want)) have.insert(l);
                    for (auto& l : linesOf(o)) if (!have.count(l)) bad("variables", "shown is\n" + o + "instead of\n" + want);
                    return;
                }
                if (o != want) bad("variables", "shown is\n" + o + "instead of\n" + want);
            });
            return;
        }
        auto e = !over && pr(1, 3) ? info.assignment(r, M.m) : info.any(r, M.m, 3);
        std::string text = srcm::show(e), shown;
        isa::Machine m = M.m;
        srcm::Val v;
        std::string cmd = word({"print", "p", "expression", "e"}) + " " + text;
        try { v = info.eval(e, m); }
        catch (const srcm::Refuse&) { ++r.count["expressions_refused"]; expectError(cmd); return; }
        catch (const srcm::Undefined&) { return; }
        bool printable = true;
        try { shown = info.show(v, m); } catch (const srcm::Refuse&) { printable = false; }
        expect(cmd, [this, v, m, shown, printable](const std::string& o) {
            auto no = info.results.size();
            info.results.push_back(v);
            M.m = m;
            ++r.count["expressions"];
            if (!printable) { isError(o); return; }
            std::string want = "(" + info.typeName(v) + ") $" + S(no) + " = " + shown + "\n";
            if (o != plain(want)) bad("variables", "expected " + want + "shown is: " + o);
        });
    }
    void commandSource() {
        if (errored) return;
        std::string b = word({"source", "so"});
        size_t n = sourceLines();
        if (pr(1, 2)) {
            auto l = lineAt(M.m.ip);
            if (!l) { expectError(b); return; }
            expect(b, [this, l](const std::string& o) { noError(o); auto want = code(*l < 2 ? 0 : *l - 2, *l + 3); if (o != want) bad("source", "shown is\n" + o + "instead of\n" + want); });
            return;
        }
        if (!n) return;
        uint64_t from = c((uint32_t)n), k = pr(1, 3) ? n - from : 1 + c((uint32_t)n + 2);
        std::string cmd = b + " from " + S(from + 1) + (k == n - from && pr(1, 2) ? "" : " " + S(k));
        expect(cmd, [this, from, k](const std::string& o) { noError(o); auto want = code(from, from + k); if (o != want) bad("source", "shown is\n" + o + "instead of\n" + want); });
    }
    // Things users type by mistake: they must be answered and change nothing.
    void commandMistake() {
        ++r.count["fault.mistyped_command"];
        static const char* l[] = {"x", "help", "help breakpoint", "b", "b iset", "b iset x", "b iset -1", "b iremove", "w", "w iset", "w iset foo", "m", "m get", "m get 0", "m get x 1", "m get 0 x",
            "m set 0 x", "m set x 1", "m setstr 0 abc", "m setstr 0 \"a", "m setstr 0 \"\\q\"", "m setstr 0 \"\\\"", "m setstr x \"a\"", "m setstr 0 \"", "reg set R0", "reg set R0 x", "reg set Q 1", "reg get Z9", "reg get R99", "reg fget F99", "reg fset F0 x",
            "dis from 99999", "dis from x", "dis range 0", "dis range 5 1", "dis range 0 99999", "dis range 0 18446744073709551615", "dis function nosuch", "dis from 0 99999", "as", "as interactive", "as interactive x", "step x", "istep 2", "next x", "inext x", "finish x",
            "source", "source from", "source from 0", "source from 1 2", "source from 99999", "source from x", "frame", "print", "print nosuch", "print 1 +", "print $99", "print (", "print @", "print ~", "print 1 2", "print a <=", "print 99999999999999999999999", "print )", "print 1 = 2", "print *1", "print $0 $0", "b set", "b set nosuch", "b set 0", "b set 99999", "b remove 99999", "b enable 99999",
            "m get 99999999 1", "m get 0 99999999", "m get 18446744073709551615 2", "m set 99999999 1", "m set 18446744073709551615 1 2", "b iset 99999", "b iset 18446744073709551615", "b iset 9223372036854775807", "w irem 99999999", "attach", "attach x", "attach 9111", "attach -1", "source from 1 9223372036854775807", "source from 9223372036854775807", "   ", "\t"};
        std::string s = l[c(sizeof l / sizeof *l)];
        // "frame", "print v" and the like are fine with debug information; "attach" without a port must not lose the session
        expect(s, [](const std::string&) {});
    }

    // P21: lines that are not commands, however long, and again and again.
    std::vector<std::string> entered;
    void commandIdle() {
        std::string l;
        if (!entered.empty() && pr(1, 3)) l = entered[entered.size() - 1 - c((uint32_t)std::min<size_t>(entered.size(), pr(1, 4) ? 110 : 6))];
        else if (pr(1, 8)) { for (uint32_t i = c(4); i > 0; --i) l += " "; }
        else {
            uint32_t n = c(14);
            if (pr(1, 4)) n = c((uint32_t)tty->screen.cols * 2);
            if (pr(1, 150)) n = tty->kind == tty::Tty::Term ? (uint32_t)tty::LINE - c(3) : 4090 + c(4);
            l = "xyzQ!~\"%\\ "[c(11)];
            while (l.size() < n) l += pr(1, 6) ? ' ' : (char)(33 + c(94));
            if (pr(1, 40)) l += pr(1, 2) ? "\t." : "\xc3\xa9";
            if (pr(1, 8)) l = " " + l;
            if (l.find_first_not_of(' ') != l.npos && strchr("rah", l[l.find_first_not_of(' ')])) l[l.find_first_not_of(' ')] = 'z';
        }
        entered.push_back(l);
        expect(l, [this, l](const std::string& o) {
            if ((l.find_first_not_of(" \t") != l.npos) != !o.empty()) bad("executed", o.empty() ? "the line is not executed" : "a blank line is executed");
        });
    }

    void draw() {
        if (left == 0) { feed.push_back(std::nullopt); check = {}; return; }
        --left;
        if (idle) { commandIdle(); return; }
        if (verify && alive && !lost) { commandRegisters(); return; }
        if (remote == Ending && w.done(net.remote)) remote = None;
        if (remotes && remote == None && !lost && pr(1, 3)) launch();
        if (tables > 1 && alive && !lost) { resync(); return; }
        if (lost) { commandLost(); return; }
        if (!alive) { if (remote == Starting && pr(2, 3)) commandAttach(); else if (pr(1, 8)) commandMistake(); else commandRun(); return; }
        for (int tries = 0; tries < 20 && feed.empty(); ++tries) {
            std::vector<uint32_t> w = {20, 10, 8, 3, lines ? 8u : 1u, lines ? 8u : 1u, 14, 6, 3, 6, 2, 2, 3, 2, vars ? 12u : 0u, 2, 3, 1, remote == Starting ? 6u : 0u, lines ? 3u : 1u};
            if (over) for (int i = 0; i < 6; ++i) w[i] = 1;
            if (over) w[7] = 0, w[10] = 0, w[13] = 0, w[15] = 4;
            uint32_t k = r.ch.weighted(S_CMD, w);
            static const char* names[] = {"istep", "continue", "inext", "finish", "step", "next", "breakpoint", "watchpoint", "registers", "memory", "poke", "get", "disassemble", "assemble", "variables", "run", "mistake", "leave", "attach", "source"};
            if (over && k < 6) {
                expectError(word({"istep", "continue", "inext", "finish", "step", "next"}));
            } else switch (k) {
                case 0: control(word({"istep", "i", "is"}), true, false, [](Model& m) { return m.one(); }); break;
                case 1: control(word({"continue", "c", "cont"}), false, false, [](Model& m) { return m.cont(); }); break;
                case 2: control(word({"inext", "in"}), true, false, [this](Model& m) { return both(m, [](Model& x, bool h) { return x.over(true, h); }); }); break;
                case 3: control(word({"finish", "fi"}), false, false, [this](Model& m) { return both(m, [](Model& x, bool h) { return x.out(h); }); }); break;
                case 4: control(word({"step", "s"}), false, true, [this](Model& m) { return m.stepIn(lineAddrs); }); break;
                case 5: control(word({"next", "n"}), false, true, [this](Model& m) { return both(m, [this](Model& x, bool h) { return x.stepOver(lineAddrs, h); }); }); break;
                case 6: commandBreakpoints(); break;
                case 7: commandWatchpoints(); break;
                case 8: commandRegisters(); break;
                case 9: commandMemory(); break;
                case 10: commandPoke(); break;
                case 11: commandGet(); break;
                case 12: commandDisassemble(); break;
                case 13: commandAssemble(); break;
                case 14: commandVariables(); break;
                case 15: commandRun(); break;
                case 16: commandMistake(); break;
                case 18: commandAttach(); break;
                case 19: commandSource(); break;
                default: left = 0; feed.push_back(std::nullopt); check = {}; break;
            }
            if (!feed.empty()) r.count[std::string("cmd.") + names[k]]++;
        }
        if (feed.empty()) commandRegisters();
    }

    // The debugger asks for a line.
    char* line() {
        if (feed.empty()) {
            fflush(mem);
            std::string out = plain(std::string(buf, len));
            if (tty) out = tty->strip(out);
            fseeko(mem, 0, SEEK_SET);
            fflush(mem);
            if (r.verbose && !out.empty()) r.say(out.size() > 600 ? out.substr(0, 600) + "..." : out);
            r.mix(out);
            if (check) {
                auto f = std::move(check);
                check = {};
                if (remote == Attached && net.struck && !lost && !running) loseMachine(out, f); else f(out);
                running = false;
            }
            checkIo();
            int count = 0;          // machines of ours
            for (int i = 1; i < w.count(); ++i) count += !w.done(i) && w.nameOf(i) != "attached machine";
            int want = !alive || remote == Attached ? 0 : 1;
            if (count > want) bad("threads", S(count) + " machines are running");
            if (count < want) bad("threads", "the machine's thread has ended");
            if (remote == Attached && !lost && w.done(net.remote)) bad("threads", "the attached machine has ended");
            if (ended) { w.fail("session", "the debugger goes on after the end of its input"); }
            draw();
            base = w.steps; basep = t.total;
        }
        auto l = feed.front();
        feed.pop_front();
        if (!l) {
            if (feed.empty() && !check) ended = true;
            r.say("> (end of input)");
            return nullptr;
        }
        last = *l;
        r.note("command " + last);
        r.say("> " + last);
        r.count["commands"]++;
        std::string typed = last;
        if (!idle && !typed.empty() && pr(1, 12)) {      // blanks do not matter
            static const char* b[] = {" ", "\t", "  ", " \t "};
            auto sp = typed.find(' ');
            if (pr(1, 2)) typed += b[c(4)];
            if (sp != typed.npos && typed.find('"') == typed.npos && pr(1, 2)) typed.insert(sp, " ");
            if (pr(1, 2)) typed = b[c(4)] + typed;
        }
        return strdup(typed.c_str());
    }

    void prepare() {
        gen::Profile p;
        p.bkpt = 1;
        p.maxItems = 8; p.io = 3; p.input = 1; p.haltFault = true; p.call = 5; p.functions = 2; p.recursion = true;
        p.frames = r.ch.chance(S_CFG, 3, 4); p.fault = r.ch.chance(S_CFG, 1, 4);
        if (p.frames) p.retjump = p.spbp = 0;
        input = vm::drawInput(r);
        size_t steps = 0;
        prog = gen::generateTerminating(r.ch, p, {size.nreg, size.nfreg, size.ram}, input, 200, &steps);
        t.textSize = prog.text.size();
        lines = r.ch.chance(S_CFG, 1, 2);
        vars = r.ch.chance(S_CFG, 1, 2);
        remotes = r.ch.chance(S_CFG, 1, 2);
        if (remotes) { net.eintrPct = r.ch.choose(S_CFG, 3) * 6; net.shortPct = r.ch.choose(S_CFG, 4) * 25; static const uint32_t cap[] = {65536, 1, 9, 100}; net.cap = cap[r.ch.choose(S_CFG, 4)]; }
        if (lines) {
            size_t line = c(3);
            for (uint64_t a = 0; a < prog.text.size(); ++a) {
                if (!pr(1, 3)) continue;
                lineMap[line] = a; lineAddrs.insert(a);
                line += 1 + c(2);
                if (pr(1, 8)) { lineMap[line] = a; ++line; }
            }
        }
        if (vars) {
            std::vector<uint64_t> cuts;
            for (auto& i : prog.text) if (i.op == Op::CALL && i.a.k == isa::K::Imm) cuts.push_back((uint64_t)i.a.i1);
            info.generate(r, size, prog.text.size(), cuts);
            infoText = info.text(r);
        }
        isa::Machine m(size.nreg, size.nfreg, size.ram);
        m.in = input; m.load(prog);
        for (size_t i = 0; i < steps; ++i) { trace.push_back(m.ip); isa::Effect e; if (m.step(prog.text, &e) != isa::Step::Ok) break; for (auto x : e.writes) writes.push_back(x); }
        writeFile(fileText());
        left = 3 + c(40);
        if (r.verbose) { r.say(vm::describe(size, t)); r.say("input: \"" + input + "\""); r.say(fileText()); }
    }
};

void CliTiming::pulse() {
    auto w = World::active();
    if (!w) return;
    ++total;
    if (++pulses > limit && World::self() >= 0) w->fail("runs-on", "after \"" + (term ? term->last : "") + "\": the machine goes on executing and does not stop where it should");
    w->point(true);
}

std::string lineEditorState[2];        // as it was at the start of the program
void session(Run& r, bool keys);
void resetLineEditor();
void p18(Run& r) { session(r, false); }
void p21(Run& r) { session(r, true); }
void session(Run& r, bool keys) {
    Size s = vm::drawSize(r);
    s.alu = 1 + r.ch.choose(S_CFG, 4);
    s.rs = 2 * s.alu;
    thr::Options o;
    o.mode = r.ch.weighted(S_CFG, {1, 3});
    static const uint32_t den[] = {2, 4, 12, 40};
    o.density = den[r.ch.choose(S_CFG, 4)];
    o.spurious = r.ch.choose(S_CFG, 2);
    o.maxSteps = 4000000;
    CliTiming t(r);
    t.draw();
    dbg::configure(s);
    auto w = std::make_unique<World>(r, o);
    auto T = std::make_unique<Terminal>(r, *w, t, s);
    try {
        if (keys) {
            resetLineEditor();
            static const tty::Tty::Kind kind[] = {tty::Tty::Term, tty::Tty::Dumb, tty::Tty::Pipe};
            T->tty = std::make_unique<tty::Tty>(r, kind[r.ch.weighted(S_CFG, {6, 1, 1})]);
            T->tty->fail = [T = T.get()](const std::string& k, const std::string& d) { T->bad(k, d); };
            T->idle = r.ch.chance(S_CFG, 2, 3);
            if (r.verbose) r.say(std::string("input from ") + (T->tty->kind == tty::Tty::Term ? "a terminal" : T->tty->kind == tty::Tty::Dumb ? "a terminal that cannot edit" : "a pipe") + (T->idle ? ", no program is run" : ""));
        }
        T->prepare();
        if (T->idle) T->left = 1 + T->c(T->pr(1, 6) ? 160 : 30);
        w->spawn("debugger", [&] {
            try {
                Cli cli("/proc/self/fd/" + std::to_string(Terminal::FD));
                int rc = cli.Run();
                if (rc != 0) w->fail("session", "the session ended with code " + std::to_string(rc));
            } catch (const std::exception& e) {
                w->fail("session died", "after \"" + T->last + "\": an exception ended the session: " + e.what());
            }
        });
        w->run([&] {
            if (w->steps - T->base > 50000 + 1000 * (t.total - T->basep)) r.fail("hang", "after \"" + T->last + "\": the debugger and the machine go on without an end");
            if (w->done(0)) { T->closed(); }
            return false;
        });
    } catch (...) {
        stdout = T->real;
        if (T->tty) T->tty->close();
        T->use(nullptr);
        T.release(); w.release();       // threads abandoned in the middle are not unwound
        thr::World::forget();
        throw;
    }
    T->checkIo();
    if (keys) {
        auto& y = *T->tty;
        if (!y.hung && y.kind == tty::Tty::Term && memcmp(&y.cur, &y.orig, sizeof y.cur)) r.fail("terminal mode", "the session ends with the terminal not in its own mode");
        r.count["keys"] += y.keysPressed; r.count["lines"] += y.lines; r.count["recalled"] += y.recalled;
        r.count[y.kind == tty::Tty::Term ? "terminals" : y.kind == tty::Tty::Dumb ? "plain_terminals" : "pipes"]++;
        r.ticks += y.keysPressed + y.lines;
    }
    r.nontrivial = keys ? T->tty->lines >= 3 : T->stops >= 2;
    r.count["sessions"]++;
    r.count["stops"] += T->stops;
    r.count["switches"] += w->switches;
}
}

extern "C" {
char* linenoise_real(const char*) __attribute__((weak));
int linenoiseHistoryAdd_real(const char*) __attribute__((weak));
int linenoiseHistorySetMaxLen_real(int) __attribute__((weak));
// The line editor's own data, set apart by the build
extern char __start_lndata[] __attribute__((weak)), __stop_lndata[] __attribute__((weak)), __start_lnbss[] __attribute__((weak)), __stop_lnbss[] __attribute__((weak));

char* linenoise(const char* prompt) {
    thr::Hidden h;
    char* l = term->line();
    if (!term->tty) return l;
    std::optional<std::string> want;
    if (l) want = l;
    free(l);
    auto& y = *term->tty;
    bool last = !want && term->ended;
    if (want && !want->empty() && y.kind != tty::Tty::Term && term->feed.empty() && term->pr(1, 20)) { last = true; term->left = 0; }
    y.begin(prompt, want, last);
    char* got = linenoise_real(prompt);
    y.end(got);
    return got;
}
int linenoiseHistoryAdd(const char* l) { thr::Hidden h; return term->tty ? linenoiseHistoryAdd_real(l) : 1; }
int linenoiseHistorySetMaxLen(int n) { thr::Hidden h; return term->tty ? linenoiseHistorySetMaxLen_real(n) : 1; }

// What the line editor asks of the terminal
ssize_t ln_read(int fd, void* b, size_t n) { if (fd == 0 && term && term->tty) return term->tty->readKeys((char*)b, n); return read(fd, b, n); }
ssize_t ln_write(int fd, const void* b, size_t n) { if (fd == 1 && term && term->tty) return term->tty->show((const char*)b, n); return write(fd, b, n); }
int ln_ioctl(int fd, unsigned long what, ...) {
    va_list a; va_start(a, what); void* p = va_arg(a, void*); va_end(a);
    if (fd <= 2 && what == TIOCGWINSZ && term && term->tty) return term->tty->window((winsize*)p);
    return ioctl(fd, what, p);
}
int ln_isatty(int fd) { return fd <= 2 && term && term->tty ? term->tty->isTerminal() : isatty(fd); }
int ln_tcgetattr(int fd, termios* t) { return term && term->tty ? term->tty->getMode(t) : tcgetattr(fd, t); }
int ln_tcsetattr(int fd, int how, const termios* t) { return term && term->tty ? term->tty->setMode(t) : tcsetattr(fd, how, t); }
int ln_atexit(void (*)(void)) { return 0; }
}
namespace {
// (the red zones between its variables are copied along)
__attribute__((no_sanitize_address)) void copyRaw(volatile char* d, const volatile char* s, size_t n) { while (n--) *d++ = *s++; }
void resetLineEditor() {
    auto one = [](char* b, char* e, std::string& was) {
        if (!b || b == e) return;
        if (was.empty()) { was.resize(e - b); copyRaw(was.data(), b, e - b); } else copyRaw(b, was.data(), e - b);
    };
    one(__start_lndata, __stop_lndata, lineEditorState[0]);
    one(__start_lnbss, __stop_lnbss, lineEditorState[1]);
}
}

sim::Scenario sim::find_scenario(const std::string& p) { return p == "P18" ? p18 : p == "P21" && linenoise_real ? p21 : nullptr; }
