// P20: program files read from a simulated disk. The assembler and the debug information parser read
// through a stream buffer that delivers what a disk does: any split of the file into reads, an error in
// the middle, and files left torn by a writer that crashed (truncated, blocks lost, stale or doubled,
// bytes flipped) or spoilt by an editor (tokens dropped, doubled, swapped, replaced).
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include <iostream>
#include <set>
#include "isa.h"
#include "srcinfo.h"
#include "vm.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/Source.h"
#include "common/config.h"

extern "C" int t86_cli_main(int argc, char** argv) __attribute__((weak));

namespace {
using namespace sim;
using isa::Ins; using isa::K; using isa::Op; using isa::Opnd;
std::string S(int64_t v) { return std::to_string(v); }

// ------------------------------------------------------------------ what a file says
struct Bad { std::string why; };          // not a program file: must be refused
struct Unsure {};                          // neither the manual nor the tests settle it
struct Prog { std::vector<std::string> text; std::vector<int64_t> data; };
struct Info { std::optional<std::map<size_t, uint64_t>> lines; std::optional<std::string> die; std::optional<std::vector<std::string>> source; };

struct Tok { enum T { Id, Num, Flt, Str, Punct, End } t = End; std::string s; int64_t n = 0; double f = 0; };
struct Lex {
    const std::string& b;
    bool eio;                              // the disk fails where b ends
    size_t p = 0;
    bool skip = false, first = false;      // in a section that is not read; at its first token
    int at(size_t i) { if (i < b.size()) return (unsigned char)b[i]; if (eio) throw Bad{"unreadable"}; return -1; }
    Tok next() {
        Tok t;
        for (;;) {
            int c = at(p);
            if (c == ' ' || (c >= 9 && c <= 13)) { ++p; continue; }
            if (c == '#') { while (at(p) >= 0 && at(p) != '\n') ++p; continue; }
            if (c < 0) return t;
            if (c < 128 && isdigit(c)) {
                int dots = 0;
                while (at(p) == '.' || (at(p) >= '0' && at(p) <= '9')) { dots += at(p) == '.'; t.s += (char)at(p++); }
                if (dots > 1) { if (skip) throw Unsure{}; throw Bad{"number"}; }
                t.t = dots ? Tok::Flt : Tok::Num;
                if (dots) { t.f = strtod(t.s.c_str(), nullptr); if (std::isinf(t.f) || t.s.size() > 300) throw Unsure{}; }
                else {
                    auto d = t.s.substr(std::min(t.s.find_first_not_of('0'), t.s.size() - 1));
                    if (d.size() > 10 || std::stoll(d) > 2147483647) { if (skip) throw Unsure{}; throw Bad{"number too big"}; }
                    t.n = std::stoll(d);
                }
                return t;
            }
            if (c < 128 && (isalpha(c) || c == '_')) {
                while (at(p) >= 0 && at(p) < 128 && (isalnum(at(p)) || at(p) == '_')) t.s += (char)at(p++);
                t.t = Tok::Id;
                return t;
            }
            if (c == '"') {
                ++p; t.t = Tok::Str;
                for (;;) {
                    int k = at(p++);
                    if (k < 0) { if (skip) throw Unsure{}; throw Bad{"string"}; }
                    if (k >= 128) throw Unsure{};
                    if (k == '"') return t;
                    if (k == '\\') {
                        k = at(p++);
                        if (k == 'n') t.s += '\n'; else if (k == 't') t.s += '\t'; else if (k == '\\' || k == '"') t.s += (char)k;
                        else { if (skip) throw Unsure{}; throw Bad{"escape"}; }
                    } else t.s += (char)k;
                }
            }
            static const char* two[] = {"!=", "==", "->", ">=", ">>", "<=", "<<", "&&", "||"};
            static const std::string one = ";,[]{}()!=%+-><:/*`$.&|^";
            if (c > 0 && c < 128 && one.find((char)c) != one.npos) {
                t.t = Tok::Punct; t.s = std::string(1, (char)c); ++p;
                int d = at(p);
                for (auto x : two) if (d > 0 && x[0] == c && x[1] == d) { t.s = x; ++p; break; }
                return t;
            }
            if (!skip) throw Bad{"character"};
            if (first) throw Unsure{};
            ++p;
        }
    }
};

std::string reg(int r) { return srcm::regName(r); }
struct Reader {
    Lex lx;
    Tok t;
    Reader(const std::string& b, bool eio) : lx{b, eio} { go(); }
    void go() { t = lx.next(); }
    bool is(const char* s) { return t.t == Tok::Punct && t.s == s; }
    void want(const char* s) { if (!is(s)) throw Bad{std::string("no ") + s}; go(); }
    bool sign() { return t.t == Tok::Num || is("-"); }
    int64_t num() { if (t.t != Tok::Num) throw Bad{"no number"}; auto v = t.n; go(); return v; }
    int64_t imm() { bool n = is("-"); if (n) go(); auto v = num(); return n ? -v : v; }
    std::string id() { if (t.t != Tok::Id) throw Bad{"no name"}; auto s = t.s; go(); return s; }

    // registers
    static std::optional<int> index(const std::string& s, char c) {
        if (s.size() < 2 || s[0] != c || s.find_first_not_of("0123456789", 1) != s.npos) return {};
        if (s.size() > 9 || (s[1] == '0' && s.size() > 2)) throw Unsure{};
        return std::stoi(s.substr(1));
    }
    static int regNo(const std::string& s) {
        if (s == "SP") return isa::SP;
        if (s == "BP") return isa::BP;
        if (s == "IP") return isa::IP;
        // Known finding P20-register: taken for R0. T86_SIM_STRICT reports it.
        if (s[0] == 'R' && (s.size() < 2 || !isdigit((unsigned char)s[1])) && !getenv("T86_SIM_STRICT")) throw Unsure{};
        auto i = index(s, 'R');
        if (!i) throw Bad{"register"};
        if (*i >= 1000) throw Unsure{};
        return *i;
    }
    Opnd operand() {
        Opnd o;
        if (is("[")) {
            go();
            if (sign()) {
                bool neg = is("-");
                o = Opnd::memimm(imm());
                want("]");
                if (neg) throw Unsure{};
                return o;
            }
            o.r1 = regNo(id());
            if (is("]")) o.k = K::MemReg;
            else if (is("*")) { go(); o.k = K::MemRegScaled; o.i1 = imm(); }
            else if (is("+") || is("-")) {
                bool neg = is("-");
                go();
                if (t.t == Tok::Id) {
                    if (neg) throw Bad{"difference of registers"};
                    o.k = K::MemRegReg; o.r2 = regNo(id());
                    if (is("*")) { go(); o.k = K::MemRegRegScaled; o.i2 = imm(); }
                } else {
                    o.k = K::MemRegOff; o.i1 = imm();
                    if (neg) o.i1 = -o.i1;
                    if (is("+")) {
                        go();
                        o.k = K::MemRegOffReg; o.r2 = regNo(id());
                        if (is("*")) { go(); o.k = K::MemRegOffRegScaled; o.i2 = imm(); }
                    }
                }
            } else throw Bad{"memory operand"};
            want("]");
            return o;
        }
        if (t.t == Tok::Id) {
            auto s = id();
            if (s[0] == 'F') { auto i = index(s, 'F'); if (!i) throw Bad{"register"}; return Opnd::freg(*i); }
            o = Opnd::reg(regNo(s));
            if (is("+") || is("-")) { bool neg = is("-"); go(); auto v = imm(); o = Opnd::regoff(o.r1, neg ? -v : v); }
            return o;
        }
        bool neg = is("-");
        if (neg) go();
        if (t.t == Tok::Flt) { double f = neg ? -t.f : t.f; auto s = (neg ? "-" : "") + t.s; go(); return Opnd::fimm(f, s); }
        auto v = num();
        return Opnd::imm(neg ? -v : v);
    }
    static bool simple(K k) { return k == K::MemImm || k == K::MemReg || k == K::MemRegOff; }
    Ins instruction() {
        if (t.t == Tok::Num) go();
        auto n = id();
        Ins i;
        int op = 0;
        while (op <= (int)Op::BREAK && n != isa::name((Op)op)) ++op;
        if (op > (int)Op::BREAK) throw Bad{"instruction"};
        i.op = (Op)op;
        auto two = [&] { i.a = operand(); want(","); i.b = operand(); };
        auto need = [&](bool b) { if (!b) throw Bad{"operands"}; };
        K a, b;
        switch (i.op) {
        case Op::NOP: case Op::RET: case Op::HALT: case Op::BKPT: case Op::BREAK: return i;
        case Op::MOV:
            two(); a = i.a.k; b = i.b.k;
            if (a == K::Reg) { if (b == K::RegOff) throw Unsure{}; need(b != K::FImm); }
            else if (a == K::FReg) need(b == K::FImm || b == K::FReg || b == K::Reg || b == K::MemImm || b == K::MemReg);
            else { need(i.a.isMem()); need(b == K::Reg || b == K::FReg || b == K::Imm); }
            return i;
        case Op::LEA:
            two(); need(i.a.k == K::Reg && i.b.isMem() && i.b.k != K::MemImm && i.b.k != K::MemReg);
            if (i.b.k == K::MemRegScaled) throw Unsure{};
            return i;
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::IMUL: case Op::IDIV: case Op::AND: case Op::OR: case Op::XOR: case Op::LSH: case Op::RSH:
            two(); b = i.b.k; need(i.a.k == K::Reg && (b == K::Reg || b == K::Imm || b == K::RegOff || simple(b)));
            return i;
        case Op::CMP: two(); b = i.b.k; need(i.a.k == K::Reg && (b == K::Reg || b == K::Imm || simple(b))); return i;
        case Op::LOOP: two(); need(i.a.k == K::Reg && (i.b.k == K::Reg || i.b.k == K::Imm)); return i;
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FCMP: two(); need(i.a.k == K::FReg && (i.b.k == K::FReg || i.b.k == K::FImm)); return i;
        case Op::EXT: two(); need(i.a.k == K::FReg && i.b.k == K::Reg); return i;
        case Op::NRW: two(); need(i.a.k == K::Reg && i.b.k == K::FReg); return i;
        case Op::JMP: case Op::CALL: case Op::PUSH: i.a = operand(); need(i.a.k == K::Reg || i.a.k == K::Imm); return i;
        case Op::FPUSH: i.a = operand(); need(i.a.k == K::FReg || i.a.k == K::FImm); return i;
        case Op::FPOP: i.a = operand(); need(i.a.k == K::FReg); return i;
        default:
            i.a = operand();
            if (isa::isCondJump(i.op)) need(i.a.k == K::Reg || i.a.k == K::Imm || simple(i.a.k));
            else need(i.a.k == K::Reg);
            return i;
        }
    }
    void skipSection() {
        while (t.t != Tok::End && !is(".")) go();
        lx.skip = false;
    }
    std::vector<Ins> text;
    std::vector<int64_t> data;
    void program() {
        std::set<std::string> seen;
        if (!is(".")) throw Bad{"no section"};
        while (is(".")) {
            go();
            if (t.t != Tok::Id) throw Bad{"no section name"};
            auto n = t.s;
            if (n == "debug_source") { if (!seen.count("text")) throw Unsure{}; return; }
            bool known = n == "text" || n == "data";
            if (known && !seen.insert(n).second) throw Unsure{};
            if (!known) { lx.first = lx.skip = true; }
            go();
            lx.first = false;
            if (n == "text") while (t.t == Tok::Num || t.t == Tok::Id) text.push_back(instruction());
            else if (n == "data") while (t.t == Tok::Str || sign()) {
                if (t.t == Tok::Str) { for (char c : t.s) data.push_back(c); data.push_back(0); go(); }
                else data.push_back(imm());
            }
            else skipSection();
        }
        if (t.t != Tok::End) throw Bad{"rest"};
        if (!seen.count("text")) throw Unsure{};
    }

    // ---------------------------------------------------------------- debugging information
    Info info;
    std::string locIns() {
        auto n = id();
        if (n == "ADD" || n == "DEREFERENCE") return n;
        if (n == "BASE_REG_OFFSET") return n + " " + S(imm());
        if (n != "PUSH") throw Bad{"location"};
        if (t.t == Tok::Id) return n + " " + id();
        return n + " " + S(imm());
    }
    std::string attr(const std::string& n) {
        want(":");
        if (n == "ATTR_name") { if (t.t != Tok::Id && t.t != Tok::Str) throw Bad{"name"}; auto s = t.s; go(); return n + "=" + S((int64_t)s.size()) + ":" + s; }
        if (n == "ATTR_type" || n == "ATTR_id" || n == "ATTR_begin_addr" || n == "ATTR_end_addr" || n == "ATTR_size") return n + "=" + S(num());
        if (n == "ATTR_members") {
            std::string s = n + "=";
            want("{");
            while (!is("}")) {
                auto o = num(); want(":"); want("{"); auto ty = num(); want(":"); auto nm = id(); want("}");
                s += S(o) + ":" + S(ty) + ":" + nm + ",";
                if (is(",")) go(); else if (!is("}")) throw Bad{"members"};
            }
            go();
            return s;
        }
        if (n == "ATTR_location") {
            std::string s = n + "=";
            if (is("`")) { go(); if (!is("`")) s += locIns() + ";"; want("`"); return s; }
            want("[");
            while (!is("]")) { s += locIns() + ";"; if (is(";")) go(); else if (!is("]")) throw Bad{"location"}; }
            go();
            return s;
        }
        throw Bad{"attribute"};
    }
    std::string die(const std::string& n, int depth = 0) {
        static const std::set<std::string> tags{"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type", "DIE_array_type", "DIE_variable", "DIE_scope", "DIE_compilation_unit"};
        want(":"); want("{");
        if (!tags.count(n)) throw Bad{"tag"};
        std::string a, c;
        while (!is("}")) {
            auto k = id();
            if (k.rfind("ATTR", 0) == 0) a += attr(k) + "|";
            else if (k.rfind("DIE", 0) == 0) c += die(k, depth + 1);
            else throw Bad{"entry"};
            if (is(",")) go(); else if (!is("}")) throw Bad{"entries"};
        }
        go();
        return n + "{" + a + c + "}";
    }
    void debugInfo() {
        std::set<std::string> seen;
        while (t.t != Tok::End) {
            if (!is(".")) throw Bad{"no section"};
            go();
            if (t.t != Tok::Id) throw Bad{"no section name"};
            auto n = t.s;
            if (n == "debug_source") {
                int c = lx.at(lx.p);
                if (c >= 0 && c != '\n') throw Unsure{};
                if (lx.eio) throw Bad{"unreadable"};
                std::string raw = c < 0 ? "" : lx.b.substr(lx.p + 1), cur;
                info.source.emplace();
                for (char x : raw) { if (x == '\n') { info.source->push_back(cur); cur.clear(); } else cur += x; }
                if (!cur.empty()) info.source->push_back(cur);
                return;
            }
            bool known = n == "debug_line" || n == "debug_info";
            if (known && !seen.insert(n).second) throw Unsure{};
            if (!known) lx.first = lx.skip = true;
            go();
            lx.first = false;
            if (n == "debug_line") {
                info.lines.emplace();
                while (t.t != Tok::End && !is(".")) { auto l = num(); want(":"); auto a = num(); if (!info.lines->emplace(l, a).second) throw Unsure{}; }
            } else if (n == "debug_info") {
                if (t.t == Tok::End || is(".")) info.die = "";
                else { auto k = id(); info.die = die(k); }
            } else skipSection();
        }
    }
};

// Instruction texts, with numbers and signs written one way.
std::string norm(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size();) {
        if (i + 2 < s.size() && s[i] == '+' && s[i + 1] == ' ' && s[i + 2] == '-') { o += "- "; i += 3; continue; }
        bool start = isdigit((unsigned char)s[i]) && (i == 0 || !isalnum((unsigned char)s[i - 1]));
        if (start) {
            size_t j = i;
            while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '.' || s[j] == 'e' || ((s[j] == '+' || s[j] == '-') && s[j - 1] == 'e'))) ++j;
            auto n = s.substr(i, j - i);
            if (n.find_first_of(".e") != n.npos) { char b[64]; snprintf(b, sizeof b, "%.17gf", strtod(n.c_str(), nullptr)); n = b; }
            o += n; i = j;
            continue;
        }
        o += s[i++];
    }
    return o;
}

enum class St { Loaded, Refused };
struct Real { St st = St::Refused; std::string why; Prog prog; Info info; };

struct Disk : std::streambuf {
    Run& r; const std::string& b; bool eio; uint32_t style;
    size_t pos = 0, reads = 0;
    std::vector<char> buf;
    Disk(Run& r, const std::string& b, bool eio, uint32_t style) : r(r), b(b), eio(eio), style(style) {}
    int underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= b.size()) {
            if (eio) { ++r.count["fault.disk_error"]; throw std::ios_base::failure("read error"); }
            return traits_type::eof();
        }
        size_t n = b.size() - pos;
        // A stream swallows exceptions, so a long file must not use up the choices in here.
        if (++reads > 8000) style = 0;
        if (style == 1) n = std::min<size_t>(n, 1 + r.ch.choose(S_SCHED, 8));
        if (style == 2) n = std::min<size_t>(n, 1 + r.ch.choose(S_SCHED, 200));
        if (n < b.size() - pos) ++r.count["fault.short_read"];
        r.mix(n); r.ticks += n;
        buf.assign(b.begin() + pos, b.begin() + pos + n);
        pos += n;
        setg(buf.data(), buf.data(), buf.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};

std::string dieText(const DIE& d) {
    static const std::map<DIE::TAG, std::string> tag{{DIE::TAG::function, "DIE_function"}, {DIE::TAG::scope, "DIE_scope"}, {DIE::TAG::variable, "DIE_variable"}, {DIE::TAG::primitive_type, "DIE_primitive_type"},
        {DIE::TAG::structured_type, "DIE_structured_type"}, {DIE::TAG::pointer_type, "DIE_pointer_type"}, {DIE::TAG::array_type, "DIE_array_type"}, {DIE::TAG::compilation_unit, "DIE_compilation_unit"}};
    if (d.get_tag() == DIE::TAG::invalid && d.begin() == d.end() && d.begin_attr() == d.end_attr()) return "";
    std::string s = (tag.count(d.get_tag()) ? tag.at(d.get_tag()) : "?") + "{";
    for (auto a = d.begin_attr(); a != d.end_attr(); ++a) {
        std::visit([&](auto& x) {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_same_v<T, ATTR_name>) s += "ATTR_name=" + S((int64_t)x.n.size()) + ":" + x.n;
            else if constexpr (std::is_same_v<T, ATTR_begin_addr>) s += "ATTR_begin_addr=" + S((int64_t)x.addr);
            else if constexpr (std::is_same_v<T, ATTR_end_addr>) s += "ATTR_end_addr=" + S((int64_t)x.addr);
            else if constexpr (std::is_same_v<T, ATTR_type>) s += "ATTR_type=" + S((int64_t)x.type_id);
            else if constexpr (std::is_same_v<T, ATTR_size>) s += "ATTR_size=" + S((int64_t)x.size);
            else if constexpr (std::is_same_v<T, ATTR_id>) s += "ATTR_id=" + S((int64_t)x.id);
            else if constexpr (std::is_same_v<T, ATTR_members>) { s += "ATTR_members="; for (auto& m : x.m) s += S(m.offset) + ":" + S((int64_t)m.type_id) + ":" + m.name + ","; }
            else if constexpr (std::is_same_v<T, ATTR_location_expr>) {
                s += "ATTR_location=";
                for (auto& l : x.locs) {
                    if (auto* p = std::get_if<expr::Push>(&l)) { if (auto* g = std::get_if<expr::Register>(&p->value)) s += "PUSH " + g->name; else s += "PUSH " + S(std::get<expr::Offset>(p->value).value); }
                    else if (auto* f = std::get_if<expr::FrameBaseRegisterOffset>(&l)) s += "BASE_REG_OFFSET " + S(f->offset);
                    else if (std::holds_alternative<expr::Add>(l)) s += "ADD";
                    else s += "DEREFERENCE";
                    s += ";";
                }
            }
        }, *a);
        s += "|";
    }
    for (auto& c : d) s += dieText(c);
    return s + "}";
}

// ------------------------------------------------------------------ files
struct Gen {
    Run& r;
    uint32_t c(uint32_t n) { return r.ch.choose(S_PROG, n); }
    bool pr(uint32_t a, uint32_t b) { return r.ch.chance(S_PROG, a, b); }
    using Toks = std::vector<std::string>;
    uint32_t layout = 0;

    int64_t imm() { static const int64_t v[] = {0, 1, 2, 7, 63, 255, 1023, 65536, 2147483647}; int64_t i = pr(1, 2) ? v[c(9)] : c(1000); return pr(1, 4) ? -i : i; }
    int rg() { static const int s[] = {isa::SP, isa::BP, isa::IP}; return pr(1, 6) ? s[c(3)] : (int)c(pr(1, 8) ? 100 : 8); }
    Opnd flt() {
        static const char* v[] = {"0.0", "1.0", "1.5", "0.25", "33.1", "1000000.0", "123456.789", "0.1", "3.", "0.00000001", "0.1234567890123", "007.50"};
        std::string s = pr(2, 3) ? v[c(12)] : S(c(1000)) + "." + S(c(1000));
        if (pr(1, 4)) s = "-" + s;
        return Opnd::fimm(strtod(s.c_str(), nullptr), s);
    }
    Opnd mem(bool simple) {
        Opnd o;
        o.r1 = rg(); o.r2 = rg(); o.i1 = imm(); o.i2 = imm();
        static const K k[] = {K::MemImm, K::MemReg, K::MemRegOff, K::MemRegScaled, K::MemRegReg, K::MemRegOffReg, K::MemRegRegScaled, K::MemRegOffRegScaled};
        o.k = k[c(simple ? 3 : 8)];
        if (o.k == K::MemImm) o.i1 = std::abs(o.i1);
        return o;
    }
    Opnd R() { return Opnd::reg(rg()); }
    Opnd F() { return Opnd::freg((int)c(6)); }
    Opnd I() { return Opnd::imm(imm()); }
    Ins ins() {
        Ins i;
        i.op = (Op)c((uint32_t)Op::BREAK + 1);
        if (pr(1, 4)) i.op = Op::MOV;
        switch (i.op) {
        case Op::NOP: case Op::RET: case Op::HALT: case Op::BKPT: case Op::BREAK: break;
        case Op::MOV:
            switch (c(4)) {
            case 0: i.a = R(); switch (c(4)) { case 0: i.b = R(); break; case 1: i.b = I(); break; case 2: i.b = F(); break; default: i.b = mem(false); } break;
            case 1: i.a = F(); switch (c(4)) { case 0: i.b = R(); break; case 1: i.b = flt(); break; case 2: i.b = F(); break; default: do i.b = mem(true); while (i.b.k == K::MemRegOff && (i.b.k = K::MemReg, false)); } break;
            default: i.a = mem(false); switch (c(3)) { case 0: i.b = R(); break; case 1: i.b = I(); break; default: i.b = F(); } break;
            }
            break;
        case Op::LEA: i.a = R(); i.b = mem(false); if (i.b.k == K::MemImm || i.b.k == K::MemReg || i.b.k == K::MemRegScaled) i.b.k = K::MemRegOff; break;
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::IMUL: case Op::IDIV: case Op::AND: case Op::OR: case Op::XOR: case Op::LSH: case Op::RSH:
            i.a = R(); switch (c(4)) { case 0: i.b = R(); break; case 1: i.b = I(); break; case 2: i.b = Opnd::regoff(rg(), imm()); break; default: i.b = mem(true); } break;
        case Op::CMP: i.a = R(); switch (c(3)) { case 0: i.b = R(); break; case 1: i.b = I(); break; default: i.b = mem(true); } break;
        case Op::LOOP: i.a = R(); i.b = pr(1, 2) ? R() : I(); break;
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FCMP: i.a = F(); i.b = pr(1, 2) ? F() : flt(); break;
        case Op::EXT: i.a = F(); i.b = R(); break;
        case Op::NRW: i.a = R(); i.b = F(); break;
        case Op::JMP: case Op::CALL: case Op::PUSH: i.a = pr(1, 2) ? R() : I(); break;
        case Op::FPUSH: i.a = pr(1, 2) ? F() : flt(); break;
        case Op::FPOP: i.a = F(); break;
        default:
            if (isa::isCondJump(i.op)) switch (c(3)) { case 0: i.a = R(); break; case 1: i.a = I(); break; default: i.a = mem(true); }
            else i.a = R();
        }
        return i;
    }
    void put(Toks& t, const Opnd& o) {
        auto num = [&](int64_t v) { if (v < 0) { t.push_back("-"); v = -v; } t.push_back(S(v)); };
        auto off = [&](int64_t v) {
            if (pr(1, 4)) { t.push_back("-"); num(-v); return; }
            if (v < 0 && pr(3, 4)) { t.push_back("-"); t.push_back(S(-v)); return; }
            t.push_back("+"); num(v);
        };
        switch (o.k) {
        case K::None: return;
        case K::Reg: t.push_back(reg(o.r1)); return;
        case K::FReg: t.push_back("F" + S(o.r1)); return;
        case K::Imm: num(o.i1); return;
        case K::FImm: if (o.ftext[0] == '-') { t.push_back("-"); t.push_back(o.ftext.substr(1)); } else t.push_back(o.ftext); return;
        case K::RegOff: t.push_back(reg(o.r1)); off(o.i1); return;
        default: break;
        }
        t.push_back("[");
        if (o.k == K::MemImm) num(o.i1);
        else {
            t.push_back(reg(o.r1));
            if (o.k == K::MemRegScaled) { t.push_back("*"); num(o.i1); }
            if (o.k == K::MemRegOff || o.k == K::MemRegOffReg || o.k == K::MemRegOffRegScaled) off(o.i1);
            if (o.k == K::MemRegReg || o.k == K::MemRegOffReg || o.k == K::MemRegRegScaled || o.k == K::MemRegOffRegScaled) { t.push_back("+"); t.push_back(reg(o.r2)); }
            if (o.k == K::MemRegRegScaled || o.k == K::MemRegOffRegScaled) { t.push_back("*"); num(o.i2); }
        }
        t.push_back("]");
    }
    std::string quoted(const std::string& s) {
        std::string o = "\"";
        for (char x : s) { if (x == '\n' && pr(2, 3)) o += "\\n"; else if (x == '\t' && pr(1, 2)) o += "\\t"; else if (x == '"' || x == '\\') { o += '\\'; o += x; } else o += x; }
        return o + "\"";
    }
    std::string word(bool any) {
        std::string s;
        static const std::string a = "abcxyzABCXYZ_", b = "abXY_019", w = "ab Z0.,:#;{}[]\"\\\n\t'@`-";
        if (any) { uint32_t n = c(6); for (uint32_t i = 0; i < n; ++i) s += w[c((uint32_t)w.size())]; return s; }
        s += a[c((uint32_t)a.size())];
        uint32_t n = c(5);
        for (uint32_t i = 0; i < n; ++i) s += b[c((uint32_t)b.size())];
        return s;
    }
    bool needs(const std::string& a, const std::string& b) {
        auto w = [](char x) { return isalnum((unsigned char)x) || x == '_' || x == '.'; };
        return (w(a.back()) && w(b.front())) || (a.back() == '-' && b.front() == '>');
    }
    std::string blank(bool must) {
        static const char* v[] = {" ", "\n", "  ", "\t", "\r\n", " \v\f ", "# x\n", "#\n", " # MOV R0, \"1 .text {\n", "\n\n\n", "###;# a\r\n"};
        std::string s;
        if (must) s = v[c(6)];
        while (pr(1, 3)) s += v[c(11)];
        if (pr(1, 4000)) { s += std::string(120000, " \n\t"[c(3)]); ++r.count["long_blank"]; }
        return s;
    }
    // "\x01" in a token list asks for a line break in the plain layout
    std::string join(const Toks& t) {
        std::string o, last;
        bool nl = false;
        for (auto& x : t) {
            if (x == "\x01") { nl = true; continue; }
            bool must = !last.empty() && needs(last, x);
            if (layout == 0) o += last.empty() ? "" : nl ? "\n" : (x == "," || x == "]" || last == "[" || last == ".") ? "" : " ";
            else if (layout == 1) o += blank(must || nl);
            else o += must ? " " : "";
            if (layout == 0 && must && !o.empty() && !isspace((unsigned char)o.back())) o += " ";
            o += x;
            last = x; nl = false;
        }
        return o + (layout == 1 ? blank(true) : "\n");
    }

    Prog prog; Info info;
    std::string location(Toks& t) {
        uint32_t n = c(4);
        std::string s = "ATTR_location=";
        bool tick = n < 2 && pr(1, 2);
        t.push_back(tick ? "`" : "[");
        for (uint32_t i = 0; i < n; ++i) {
            if (i) t.push_back(";");
            auto num = [&] { auto v = imm(); if (v < 0) t.push_back("-"); t.push_back(S(std::abs(v))); return S(v); };
            switch (c(5)) {
            case 0: t.push_back("ADD"); s += "ADD;"; break;
            case 1: t.push_back("DEREFERENCE"); s += "DEREFERENCE;"; break;
            case 2: t.push_back("BASE_REG_OFFSET"); s += "BASE_REG_OFFSET " + num() + ";"; break;
            case 3: t.push_back("PUSH"); s += "PUSH " + num() + ";"; break;
            default: { auto g = reg(rg()); t.push_back("PUSH"); t.push_back(g); s += "PUSH " + g + ";"; }
            }
        }
        if (!tick && n && pr(1, 6)) t.push_back(";");
        t.push_back(tick ? "`" : "]");
        return s;
    }
    std::string die(Toks& t, int depth) {
        static const char* tags[] = {"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type", "DIE_array_type", "DIE_variable", "DIE_scope", "DIE_compilation_unit"};
        std::string tag = depth ? tags[c(7)] : tags[7], a, k;
        t.push_back(tag); t.push_back(":"); t.push_back("{"); t.push_back("\x01");
        uint32_t n = c(5) + !depth;
        for (uint32_t i = 0; i < n; ++i) {
            if (depth < 4 && pr(depth ? 1 : 4, 5)) k += die(t, depth + 1);
            else {
                static const char* at[] = {"ATTR_type", "ATTR_id", "ATTR_begin_addr", "ATTR_end_addr", "ATTR_size"};
                std::string nm;
                auto key = [&](std::string x) { nm = x; t.push_back(x); t.push_back(":"); };
                switch (c(6)) {
                case 0: { key("ATTR_name"); bool q = pr(1, 2); auto s = word(q); t.push_back(q ? quoted(s) : s); a += "ATTR_name=" + S((int64_t)s.size()) + ":" + s + "|"; break; }
                case 1: {
                    key("ATTR_members"); t.push_back("{"); a += "ATTR_members=";
                    uint32_t m = c(4);
                    for (uint32_t j = 0; j < m; ++j) {
                        auto o = S(c(20)), ty = S(c(12)), w = word(false);
                        for (auto x : {o, std::string(":"), std::string("{"), ty, std::string(":"), w, std::string("}")}) t.push_back(x);
                        a += o + ":" + ty + ":" + w + ",";
                        if (j + 1 < m || pr(1, 3)) t.push_back(",");
                    }
                    t.push_back("}"); a += "|";
                    break;
                }
                case 2: key("ATTR_location"); a += location(t) + "|"; break;
                default: { key(at[c(5)]); auto v = S(pr(1, 16) ? 2147483647 : c(30)); t.push_back(v); a += nm + "=" + v + "|"; }
                }
            }
            if (i + 1 < n || pr(1, 3)) t.push_back(",");
            t.push_back("\x01");
        }
        t.push_back("}");
        return tag + "{" + a + k + "}";
    }
    std::string file(bool haltFirst) {
        layout = c(3);
        std::vector<std::string> secs;
        auto head = [&](const std::string& n) { return Toks{".", n, "\x01"}; };
        {
            Toks t = head("text");
            uint32_t n = c(12);
            bool addr = pr(2, 3);
            for (uint32_t i = 0; i < n; ++i) {
                Ins x = ins();
                if (!i && haltFirst) x = Ins{};
                if (!i && haltFirst) x.op = Op::HALT;
                if (addr ? !pr(1, 16) : pr(1, 16)) t.push_back(S(i));
                t.push_back(isa::name(x.op));
                put(t, x.a);
                if (x.b.k != K::None) { t.push_back(","); put(t, x.b); }
                t.push_back("\x01");
                prog.text.push_back(norm(isa::text(x)));
            }
            secs.push_back(join(t));
        }
        if (pr(1, 2)) {
            Toks t = head("data");
            uint32_t n = c(8);
            for (uint32_t i = 0; i < n; ++i) {
                if (pr(1, 3)) { auto s = word(true); t.push_back(quoted(s)); for (char x : s) prog.data.push_back(x); prog.data.push_back(0); }
                else { auto v = imm(); if (v < 0) t.push_back("-"); t.push_back(S(std::abs(v))); prog.data.push_back(v); }
                t.push_back("\x01");
            }
            secs.push_back(join(t));
        }
        if (pr(2, 3)) {
            Toks t = head("debug_line");
            info.lines.emplace();
            uint32_t n = c(6);
            for (uint32_t i = 0; i < n; ++i) {
                auto l = c(20), a = c(15);
                if (!info.lines->emplace(l, a).second) continue;
                t.push_back(S(l)); t.push_back(":"); t.push_back(S(a)); t.push_back("\x01");
            }
            secs.push_back(join(t));
        }
        if (pr(1, 4)) {
            // information as a compiler would give it, about types, scopes and variables
            srcm::Info si;
            si.generate(r, {8, 4, 1, 2, 1024, 4}, 20, {3, 9, 14});
            auto s = si.text(r);
            for (auto& [id, ty] : si.types) if (pr(1, 12)) {
                // types in terms of themselves
                size_t at = s.find("ATTR_type: "), n = c(8);
                while (n-- && at != s.npos) { size_t k = s.find("ATTR_type: ", at + 1); if (k == s.npos) break; at = k; }
                if (at != s.npos) { at += 11; size_t e = at; while (e < s.size() && isdigit((unsigned char)s[e])) ++e; s.replace(at, e - at, S((int64_t)id)); ++r.count["retyped"]; }
            }
            Reader rd(s, false);
            rd.debugInfo();
            info.die = rd.info.die;
            secs.push_back(s);
        } else if (pr(2, 3)) {
            Toks t = head("debug_info");
            if (pr(1, 20)) info.die = ""; else info.die = die(t, 0);
            secs.push_back(join(t));
        }
        if (pr(1, 4)) {
            Toks t = head(word(false) + "_x");
            static const char* v[] = {"a", "12", "{", "}", "@", "?", "~", "\"s. #\"", ":", "-", "3.5", "\\", "`", "'", "<"};
            uint32_t n = c(8);
            for (uint32_t i = 0; i < n; ++i) { std::string x = v[c(15)]; if (!i && (x == "@" || x == "?" || x == "~" || x == "\\" || x == "'")) x = "b"; t.push_back(x); if (pr(1, 3)) t.push_back("\x01"); }
            secs.push_back(join(t));
        }
        for (size_t i = secs.size(); i > 1; --i) std::swap(secs[i - 1], secs[c((uint32_t)i)]);
        std::string o;
        if (layout == 1) o += blank(false);
        for (auto& s : secs) o += s;
        if (pr(1, 2)) {
            info.source.emplace();
            o += ".debug_source";
            uint32_t n = c(6);
            if (n || pr(1, 2)) o += "\n";
            for (uint32_t i = 0; i < n; ++i) {
                static const char* v[] = {"int main() {", "", "  x = \"a\\\";", "}", ".text", "# y", "\ta.b @ '`", "\xc3\xa9", "\xff\x01", "0 HALT"};
                std::string l = v[c(10)];
                info.source->push_back(l);
                o += l;
                if (i + 1 < n || l.empty() || pr(1, 2)) o += "\n";
            }
        }
        return o;
    }
};

// Cuts a text into tokens and what lies between (for editing).
std::vector<std::string> pieces(const std::string& s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) {
        size_t j = i + 1;
        auto w = [](char x) { return isalnum((unsigned char)x) || x == '_'; };
        if (w(s[i])) while (j < s.size() && w(s[j])) ++j;
        else if (isspace((unsigned char)s[i])) while (j < s.size() && isspace((unsigned char)s[j])) ++j;
        v.push_back(s.substr(i, j - i));
        i = j;
    }
    return v;
}

void damage(Run& r, std::string& f, const std::function<std::string()>& older) {
    auto c = [&](uint32_t n) { return r.ch.choose(S_FAULT, n); };
    if (f.empty()) return;
    size_t n = f.size();
    auto cap = [](size_t x) { return (uint32_t)std::max<size_t>(1, x); };
    switch (r.ch.weighted(S_FAULT, {3, 1, 1, 2, 1, 3, 6})) {
    case 0: f.resize(c(cap(n))); ++r.count["fault.file_truncated"]; break;
    case 1: case 2: case 3: case 4: {
        static const size_t sz[] = {8, 16, 32, 64, 1};
        size_t b = sz[c(5)], k = c(cap(n / b)) * b, e = std::min(n, k + b);
        switch (c(4)) {
        case 0: for (size_t i = k; i < e; ++i) f[i] = 0; ++r.count["fault.block_zeroed"]; break;
        case 1: for (size_t i = k; i < e; ++i) f[i] = (char)0xff; ++r.count["fault.block_ff"]; break;
        case 2: { auto g = older(); for (size_t i = k; i < e && i < g.size(); ++i) f[i] = g[i]; ++r.count["fault.block_stale"]; break; }
        default: f.insert(k, f.substr(k, e - k)); ++r.count["fault.block_doubled"]; break;
        }
        break;
    }
    case 5: {
        static const std::string v = std::string("\0\xff\x80\x7f", 4) + "0919azRF_.,:;[]{}()+-*/\"\\`#\n @$%&|^<>=!'";
        f[c(cap(n))] = v[c((uint32_t)v.size())];
        ++r.count["fault.byte_changed"];
        break;
    }
    default: {
        auto v = pieces(f);
        static const char* w[] = {"R1", "F1", "MOV", "5", "-", "+", "*", ",", "[", "]", "{", "}", ":", ";", "`", ".", ".text", ".debug_source", "\"", "\"x\"", "ATTR_size", "DIE_scope", "PUSH", "99999999999",
                                  "1.5", "1.2.3", "R", "Rx", "F", "FX", "R1x", "#", "\n", "BP", "x", "->", "R99999999999", "JMP", "HALT", "!", "ATTR_x", "DIE_x", "R-1", "-1.5"};
        auto pick = [&] { size_t i = c((uint32_t)v.size()); if (isspace((unsigned char)v[i][0]) && i + 1 < v.size() && c(3)) ++i; return i; };
        size_t i = pick();
        switch (c(4)) {
        case 0: v.erase(v.begin() + (long)i); break;
        case 1: { auto x = v[i]; v.insert(v.begin() + (long)i, x); v.insert(v.begin() + (long)i + 1, " "); break; }
        case 2: std::swap(v[i], v[pick()]); break;
        default: if (c(2)) v[i] = w[c(44)]; else v.insert(v.begin() + (long)i, std::string(" ") + w[c(44)] + " "); break;
        }
        f.clear();
        for (auto& x : v) f += x;
        ++r.count["fault.token_edited"];
    }
    }
}

struct Want { enum { Load, Refuse, Any } k = Any; std::string why; Prog prog; Info info; };

std::string show(const Prog& p) {
    std::string s;
    for (size_t i = 0; i < p.text.size(); ++i) s += S((int64_t)i) + " " + p.text[i] + "\n";
    s += ".data";
    for (auto d : p.data) s += " " + S(d);
    return s + "\n";
}
std::string show(const Info& i) {
    std::string s;
    if (i.lines) { s += "lines"; for (auto& [l, a] : *i.lines) s += " " + S((int64_t)l) + ":" + S((int64_t)a); s += "\n"; }
    if (i.die) s += "die " + *i.die + "\n";
    if (i.source) { s += "source " + S((int64_t)i.source->size()); for (auto& l : *i.source) s += "\n|" + l; s += "\n"; }
    return s;
}

void p20(Run& r) {
    Gen g{r};
    bool haltFirst = r.ch.chance(S_CFG, 1, 3);
    std::string file = g.file(haltFirst);
    std::string bytes = file;
    uint32_t faults = r.ch.weighted(S_FAULT, {6, 10, 3});
    for (uint32_t i = 0; i < faults; ++i) damage(r, bytes, [&] { Gen o{r}; return o.file(false); });
    bool eio = r.ch.chance(S_FAULT, 1, 6);
    if (eio) bytes.resize(r.ch.choose(S_FAULT, (uint32_t)bytes.size() + 1));
    if (r.verbose) {
        r.say("file (" + S((int64_t)bytes.size()) + " bytes" + (eio ? ", then the disk fails" : "") + "):");
        std::string esc;
        for (char x : bytes) { if (x == '\n' || (x >= 32 && x < 127)) esc += x; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)x); esc += b; } }
        r.say(esc.size() > 6000 ? esc.substr(0, 6000) + "..." : esc);
    }
    r.mix(bytes); r.mix(eio);

    for (int what = 0; what < 2; ++what) {
        std::string name = what ? "debugging information" : "program";
        Want w;
        try {
            Reader rd(bytes, eio);
            if (what) { rd.debugInfo(); w.info = rd.info; }
            else { rd.program(); for (auto& i : rd.text) w.prog.text.push_back(norm(isa::text(i))); w.prog.data = rd.data; }
            w.k = Want::Load;
        } catch (const Bad& b) {
            // (a program whose last read fails right behind ".debug_source" is complete)
            w.k = !what && eio && b.why == "unreadable" && bytes.ends_with("debug_source") ? Want::Any : Want::Refuse; w.why = b.why;
        } catch (const Unsure&) { w.k = Want::Any; }
        if (!faults && !eio) {
            // An intact file: what was generated is what must be loaded, and the reference reader has to agree.
            if (w.k != Want::Load || show(w.prog) != show(what ? Prog{} : g.prog) || show(w.info) != show(what ? g.info : Info{}))
                throw std::logic_error("P20: generator and reference reader disagree (" + w.why + ")\n" + show(w.prog) + show(w.info) + "/\n" + show(g.prog) + show(g.info) + bytes);
        }
        Real res[2];
        int n = w.k == Want::Any || r.ch.chance(S_CFG, 1, 8) ? 2 : 1;
        std::optional<dbg::DebuggingInfo> di;
        for (int k = 0; k < n; ++k) {
            Disk d(r, bytes, eio, r.ch.choose(S_CFG, 3));
            std::istream is(&d);
            Real& x = res[k];
            r.note("loading the " + name + " of: " + bytes.substr(0, 200));
            try {
                if (!what) {
                    ::Parser p(is);
                    auto pr = p.Parse();
                    x.st = St::Loaded;
                    for (auto& i : pr.instructions()) x.prog.text.push_back(norm(i->toString()));
                    for (auto v : pr.data()) x.prog.data.push_back(v);
                } else {
                    dbg::Parser p(is);
                    di = p.Parse();
                    x.st = St::Loaded;
                    x.info.lines = di->line_mapping;
                    if (di->top_die) x.info.die = dieText(*di->top_die);
                    if (di->source_code) x.info.source = di->source_code->GetLines();
                }
            } catch (const ParserError& e) { x.st = St::Refused; x.why = e.what(); }
            catch (const Violation&) { throw; } catch (const ChoiceLimit&) { throw; }
            catch (const std::exception& e) { r.fail("escaped", "an exception that is not a parser error left the reading of the " + name + ": " + e.what()); }
            if (x.st == St::Refused && x.why.empty()) r.fail("no-message", "the " + name + " was refused without a message");
        }
        auto line = [&](const Real& x) { return x.st == St::Refused ? "refused" : show(x.prog) + show(x.info); };
        if (n == 2 && line(res[0]) != line(res[1])) r.fail("split", "the " + name + " depends on how its reads are split:\n" + line(res[0]) + "and\n" + line(res[1]));
        Real& x = res[0];
        r.mix((uint64_t)x.st);
        if (w.k == Want::Refuse && x.st == St::Loaded) r.fail(eio && w.why == "unreadable" ? "partly-loaded" : "malformed-loaded", "the " + name + " was loaded, but the file is " + (w.why == "unreadable" ? "not readable to its end" : "malformed (" + w.why + ")") + "; loaded:\n" + line(x));
        if (w.k == Want::Load && x.st == St::Refused) r.fail("well-formed-refused", "the " + name + " was refused (" + x.why + "), but the file is well-formed");
        if (w.k == Want::Load && (show(x.prog) != show(w.prog) || show(x.info) != show(w.info))) r.fail("loaded-wrong", "the " + name + " was loaded as\n" + line(x) + "the file says\n" + show(w.prog) + show(w.info));
        ++r.count[w.k == Want::Load ? "loaded" : w.k == Want::Refuse ? "refused" : "unsettled"];
        if (w.k != Want::Any && bytes.size() > 40) r.nontrivial = true;

        if (what && x.st == St::Loaded) {
            // The debugger takes it up: whatever it describes, questions are answered or refused.
            Source src;
            try {
                if (di->line_mapping) src.RegisterLineMapping(*di->line_mapping);
                if (di->source_code) src.RegisterSourceFile(*di->source_code);
                if (di->top_die) src.RegisterDebuggingInformation(*di->top_die);
                for (uint64_t a = 0; a < 30; ++a) {
                    auto ln = src.AddrToLine(a);
                    std::optional<size_t> want;
                    if (x.info.lines) for (auto& [l, ad] : *x.info.lines) if (ad == a) want = l;
                    if (ln != want) r.fail("line", "the line of address " + S((int64_t)a) + " is " + (ln ? S((int64_t)*ln) : "unknown") + ", the file says " + (want ? S((int64_t)*want) : "unknown"));
                    try { src.GetFunctionNameByAddress(a); src.GetScopedVariables(a); } catch (const DebuggerError&) {}
                    try { src.GetTypeSize(a); } catch (const DebuggerError&) {}
                    try { if (auto* ty = src.GetType(a)) src.TypeToString(*ty); } catch (const DebuggerError&) {}
                }
            } catch (const DebuggerError&) {}
            catch (const Violation&) { throw; } catch (const ChoiceLimit&) { throw; }
            catch (const std::exception& e) { r.fail("escaped", std::string("an exception left the taking up of debugging information: ") + e.what()); }
        }
        // The machine's own program, from the command line.
        if (!what && !eio && t86_cli_main && w.k != Want::Any && r.ch.chance(S_CFG, 1, 4)
            && (w.k == Want::Refuse || (!w.prog.text.empty() && w.prog.text[0] == "HALT" && w.prog.data.size() < 900))) {
            ++r.count["t86-cli"];
            int fd = memfd_create("program", 0);
            if (fd < 0 || write(fd, bytes.data(), bytes.size()) != (ssize_t)bytes.size()) throw std::runtime_error("memfd");
            std::stringbuf err, out;
            auto *oe = std::cerr.rdbuf(&err), *oo = std::cout.rdbuf(&out);
            struct Back { std::streambuf *e, *o; int fd; ~Back() { std::cerr.rdbuf(e); std::cout.rdbuf(o); close(fd); } } back{oe, oo, fd};
            std::vector<std::string> a{"t86-cli", "/proc/self/fd/" + S(fd)};
            // A machine of another size, or one that cannot exist.
            int how = w.k == Want::Load ? (int)r.ch.weighted(S_CFG, {3, 2, 2, 1, 1}) : 0;
            if (how == 2 && w.prog.data.empty()) how = 1;
            if (how == 1) a.insert(a.end(), {"--memory-size", S((int64_t)(w.prog.data.size() + r.ch.choose(S_CFG, 3)))});
            if (how == 2) a.insert(a.end(), {"--memory-size", S((int64_t)(w.prog.data.size() - 1 - (r.ch.chance(S_CFG, 1, 2) ? 0 : r.ch.choose(S_CFG, (uint32_t)w.prog.data.size()))))});
            static const char* opt[] = {"--memory-size", "--register-cnt", "--float-register-cnt"};
            static const char* bad[] = {"abc", "-1", "99999999999999999999999", ""};
            if (how == 3) a.insert(a.end(), {opt[r.ch.choose(S_CFG, 3)], r.ch.chance(S_CFG, 1, 2) ? "4000000000000000000" : "1000000000000"});
            if (how == 4) a.insert(a.end(), {opt[r.ch.choose(S_CFG, 3)], bad[r.ch.choose(S_CFG, 4)]});
            if (how) ++r.count[std::vector<std::string>{"", "cli.fits", "fault.small_memory", "fault.huge_machine", "cli.bad_option"}[how]];
            std::vector<char*> v;
            for (auto& x : a) v.push_back(x.data());
            v.push_back(nullptr);
            vm::configure({8, 4, 1, 2, 1024, 4});
            int rc = 0;
            try { rc = sim::run_main(t86_cli_main, (int)a.size(), v.data()); }
            catch (const std::exception& e) { r.fail("cli-escaped", std::string("an exception ended t86-cli: ") + e.what()); }
            if (w.k == Want::Refuse && (!rc || err.str().empty())) r.fail("cli-refuses", "t86-cli ended with code " + S(rc) + (err.str().empty() ? " without a message" : "") + ", but the file is malformed (" + w.why + ")");
            if (w.k == Want::Load && how > 1 && (!rc || err.str().empty())) r.fail("cli-refuses", "t86-cli ended with code " + S(rc) + (err.str().empty() ? " without a message" : "") + ", but it was asked to run with " + a[2] + " " + a[3] + ", which it cannot");
            if (w.k == Want::Load && how < 2 && rc) r.fail("cli-runs", "t86-cli ended with code " + S(rc) + " (" + err.str() + "), but the file is well-formed");
        }
    }
}
}

sim::Scenario sim::find_scenario(const std::string& p) { return p == "P20" ? p20 : nullptr; }
