#include "srcinfo.h"
#include <algorithm>
#include <functional>
#include <limits>

namespace srcm {
using namespace sim;

namespace {
template <class T> std::string S(T v) { return std::to_string(v); }
int64_t wrap(uint64_t v) { return (int64_t)v; }
int64_t cellAt(const isa::Machine& m, int64_t a) {
    if (a < 0 || (uint64_t)a >= m.mem.size()) throw Refuse{"memory"};
    return m.mem[(size_t)a];
}
double asDouble(int64_t v) { double d; memcpy(&d, &v, 8); return d; }
int64_t asBits(double d) { int64_t v; memcpy(&v, &d, 8); return v; }
}

int64_t regOf(const isa::Machine& m, int reg) {
    if (reg == isa::SP) return m.sp;
    if (reg == isa::BP) return m.bp;
    if (reg == isa::IP) return (int64_t)m.ip;
    if (reg < 0 || (size_t)reg >= m.R.size()) throw Refuse{"register"};
    return m.R[reg];
}
std::string regName(int reg) { return reg == isa::SP ? "SP" : reg == isa::BP ? "BP" : reg == isa::IP ? "IP" : "R" + S(reg); }

// ------------------------------------------------------------------ reading

uint64_t Info::sizeOf(size_t id) const {
    if (!known(id)) throw Refuse{"type"};
    auto& t = types.at(id);
    if (t.k == Kind::Arr) return t.n * sizeOf(t.to);
    return t.size;
}
std::string Info::typeName(size_t id) const {
    if (!known(id)) return "<unknown>";
    auto& t = types.at(id);
    switch (t.k) {
    case Kind::Ptr: return typeName(t.to) + "*";
    case Kind::Arr: return known(t.to) ? typeName(t.to) + "[]" : "<unknown>*";
    default: return t.name;
    }
}
std::string Info::typeName(const Val& v) const {
    switch (v.k) {
    case Kind::Int: return "int";
    case Kind::Flt: return "float";
    case Kind::Chr: return "char";
    case Kind::Ptr: return typeName(v.to) + "*";
    case Kind::Arr: return known(v.to) ? typeName(v.to) + "[]" : "<unknown>*";
    default: return v.name;
    }
}
Loc Info::locate(const Var& v, const isa::Machine& m) const {
    if (v.noLoc || v.loc.empty()) throw Refuse{"location"};
    std::vector<Loc> st;
    auto pop = [&] { if (st.empty()) throw Refuse{"location"}; Loc l = st.back(); st.pop_back(); return l; };
    auto val = [&](const Loc& l) { return l.reg >= 0 ? regOf(m, l.reg) : l.cell; };
    for (auto& i : v.loc) switch (i.op) {
        case LocOp::Push: st.push_back({-1, i.v}); break;
        case LocOp::PushReg: st.push_back({(int)i.v, 0}); break;
        case LocOp::Add: { auto a = pop(), b = pop(); st.push_back({-1, wrap((uint64_t)val(a) + (uint64_t)val(b))}); break; }
        case LocOp::BaseOff: st.push_back({-1, wrap((uint64_t)m.bp + (uint64_t)i.v)}); break;
        case LocOp::Deref: { auto a = pop(); st.push_back({-1, cellAt(m, val(a))}); break; }
    }
    return pop();
}
Val Info::read(const Loc& l, size_t type, const isa::Machine& m) const {
    if (!known(type)) throw Refuse{"type"};
    auto& t = types.at(type);
    Val v;
    v.k = t.k; v.loc = l;
    auto raw = [&] { return l.reg >= 0 ? regOf(m, l.reg) : cellAt(m, l.cell); };
    switch (t.k) {
    case Kind::Int: v.i = raw(); break;
    case Kind::Flt: v.f = asDouble(raw()); break;
    case Kind::Chr: v.c = (char)(raw() & 0xff); break;
    case Kind::Ptr: v.p = (uint64_t)raw(); v.to = t.to; break;
    case Kind::Str:
        v.name = t.name;
        for (auto& x : t.m) v.m.emplace(x.name, read({-1, wrap((uint64_t)l.cell + (uint64_t)x.off)}, x.type, m));
        break;
    case Kind::Arr:
        if (l.reg >= 0) throw Refuse{"array in a register"};
        v.to = t.to;
        if (!known(t.to)) throw Refuse{"type"};
        for (uint64_t i = 0; i < t.n; ++i) v.a.push_back(read({-1, wrap((uint64_t)l.cell + i * sizeOf(t.to))}, t.to, m));
        v.p = (uint64_t)l.cell;
        break;
    default: throw Refuse{"type"};
    }
    return v;
}
namespace {
void collect(const std::vector<Var>& vars, std::map<std::string, const Var*>& out) { for (auto& v : vars) out[v.name] = &v; }
void collect(const Scope& s, uint64_t ip, std::map<std::string, const Var*>& out) {
    if (ip < s.b || ip >= s.e) return;
    collect(s.vars, out);
    for (auto& x : s.subs) collect(x, ip, out);
}
}
std::map<std::string, const Var*> Info::scope(uint64_t ip) const {
    std::map<std::string, const Var*> out;
    collect(globals, out);
    for (auto& f : funs) collect(f, ip, out);
    return out;
}
const Scope* Info::function(uint64_t ip) const {
    for (auto& f : funs) if (ip >= f.b && ip < f.e) return &f;
    return nullptr;
}
Val Info::name(const std::string& n, const isa::Machine& m) const {
    auto s = scope(m.ip);
    auto i = s.find(n);
    if (i == s.end()) throw Refuse{"no such variable"};
    if (!i->second->type || !known(*i->second->type)) throw Refuse{"type"};
    return read(locate(*i->second, m), *i->second->type, m);
}

// ------------------------------------------------------------------ evaluation

Val Info::deref(const Val& v, const isa::Machine& m) const {
    if (v.k != Kind::Ptr) throw Refuse{"not a pointer"};
    return read({-1, (int64_t)v.p}, v.to, m);
}
namespace {
Val intv(int64_t i) { Val v; v.k = Kind::Int; v.i = i; return v; }
Val fltv(double f) { Val v; v.k = Kind::Flt; v.f = f; return v; }
template <class T> int64_t compare(const std::string& op, T a, T b) {
    if (op == "==") return a == b;
    if (op == "!=") return a != b;
    if (op == "<") return a < b;
    if (op == ">") return a > b;
    if (op == "<=") return a <= b;
    if (op == ">=") return a >= b;
    if (op == "&&") return a && b;
    return a || b;
}
bool zero(const Val& v) { return v.k == Kind::Int ? v.i == 0 : v.k == Kind::Flt ? v.f == 0 : v.k == Kind::Chr ? v.c == 0 : false; }
}
Val Info::assign(Val l, Val r, isa::Machine& m) const {
    if (!l.loc) throw Refuse{"not an lvalue"};
    if (l.k != r.k) throw Refuse{"types"};
    auto put = [&](int64_t v) {
        if (l.loc->reg < 0) { cellAt(m, l.loc->cell); m.mem[(size_t)l.loc->cell] = v; }
        else if (l.loc->reg == isa::SP) m.sp = v;
        else if (l.loc->reg == isa::BP) m.bp = v;
        else if (l.loc->reg == isa::IP) m.ip = (uint64_t)v;
        else m.R.at(l.loc->reg) = v;
    };
    switch (l.k) {
    case Kind::Int: put(r.i); l.i = r.i; break;
    case Kind::Flt: put(asBits(r.f)); l.f = r.f; break;
    case Kind::Chr: put((int64_t)(signed char)r.c); l.c = r.c; break;
    case Kind::Ptr: if (l.to != r.to) throw Refuse{"types"}; put((int64_t)r.p); l.p = r.p; break;
    case Kind::Arr:
        if (l.to != r.to || l.a.size() != r.a.size()) throw Refuse{"types"};
        for (size_t i = 0; i < l.a.size(); ++i) l.a[i] = assign(l.a[i], r.a[i], m);
        break;
    case Kind::Str:
        if (l.name != r.name) throw Refuse{"types"};
        for (auto& [n, x] : l.m) x = assign(x, r.m.at(n), m);
        break;
    default: throw Refuse{"types"};
    }
    return l;
}
Val Info::binary(const std::string& op, Val a, Val b, isa::Machine& m) const {
    using K = Kind;
    auto both = [&](K k) { return a.k == k && b.k == k; };
    if (op == "=") return assign(a, b, m);
    if (op == "+") {
        if (both(K::Int)) return intv(wrap((uint64_t)a.i + (uint64_t)b.i));
        if (both(K::Flt)) return fltv(a.f + b.f);
        if (both(K::Chr)) return intv((int)a.c + (int)b.c);
        if (a.k == K::Int && b.k == K::Ptr) std::swap(a, b);
        if (a.k == K::Ptr && b.k == K::Int) { Val v; v.k = K::Ptr; v.to = a.to; v.p = a.p + (uint64_t)b.i * sizeOf(a.to); return v; }
        throw Refuse{"types"};
    }
    if (op == "-") {
        if (both(K::Int)) return intv(wrap((uint64_t)a.i - (uint64_t)b.i));
        if (both(K::Flt)) return fltv(a.f - b.f);
        if (a.k == K::Ptr && b.k == K::Int) { Val v; v.k = K::Ptr; v.to = a.to; v.p = a.p - (uint64_t)b.i * sizeOf(a.to); return v; }
        if (both(K::Ptr)) {
            if (a.to != b.to) throw Refuse{"types"};
            int64_t n = (int64_t)sizeOf(a.to), d = wrap(a.p - b.p);
            if (n == 0) throw Refuse{"size"};
            if (d % n) throw Undefined{};
            return intv(d / n);
        }
        throw Refuse{"types"};
    }
    if (op == "*" || op == "/" || op == "%") {
        if (op != "*" && zero(b)) throw Refuse{"zero"};
        if (both(K::Int)) {
            if (op == "*") return intv(wrap((uint64_t)a.i * (uint64_t)b.i));
            if (b.i == -1 && a.i == std::numeric_limits<int64_t>::min()) throw Refuse{"quotient"};
            return intv(op == "/" ? a.i / b.i : a.i % b.i);
        }
        if (both(K::Chr)) return intv(op == "*" ? (int)a.c * b.c : op == "/" ? a.c / b.c : a.c % b.c);
        if (both(K::Flt) && op != "%") return fltv(op == "*" ? a.f * b.f : a.f / b.f);
        throw Refuse{"types"};
    }
    if (op == "<<" || op == ">>") {
        if (both(K::Int)) {
            if (b.i < 0 || b.i > 63) throw Undefined{};
            return intv(op == "<<" ? wrap((uint64_t)a.i << b.i) : a.i >> b.i);
        }
        if (both(K::Chr)) {
            if (b.c < 0 || b.c > 20 || a.c < 0) throw Undefined{};
            return intv(op == "<<" ? (int)a.c << b.c : (int)a.c >> b.c);
        }
        throw Refuse{"types"};
    }
    if (op == "&" || op == "|" || op == "^") {
        int64_t x, y;
        if (both(K::Int)) x = a.i, y = b.i;
        else if (both(K::Chr)) x = a.c, y = b.c;
        else throw Refuse{"types"};
        return intv(op == "&" ? x & y : op == "|" ? x | y : x ^ y);
    }
    if (both(K::Int)) return intv(compare(op, a.i, b.i));
    if (both(K::Flt)) return intv(compare(op, a.f, b.f));
    if (both(K::Chr)) return intv(compare(op, a.c, b.c));
    if (both(K::Ptr)) return intv(compare(op, a.p, b.p));
    throw Refuse{"types"};
}
Val Info::eval(const P& e, isa::Machine& m) const {
    switch (e->k) {
    case Ex::Name: return name(e->s, m);
    case Ex::IntLit: return intv(e->i);
    case Ex::FltLit: return fltv(std::stod(e->s));
    case Ex::Last: if (e->i < 0 || (size_t)e->i >= results.size()) throw Refuse{"no result"}; return results[(size_t)e->i];
    case Ex::Index: {
        Val i = eval(e->b, m), a = eval(e->a, m);
        if (a.k == Kind::Ptr) return deref(binary("+", a, i, m), m);
        if (a.k != Kind::Arr || i.k != Kind::Int) throw Refuse{"types"};
        if (i.i < 0 || (uint64_t)i.i >= a.a.size()) throw Refuse{"bounds"};
        return a.a[(size_t)i.i];
    }
    case Ex::Dot: case Ex::Arrow: {
        Val a = eval(e->a, m);
        if (e->k == Ex::Arrow) a = deref(a, m);
        if (a.k != Kind::Str || !a.m.count(e->s)) throw Refuse{"member"};
        return a.m[e->s];
    }
    case Ex::Un: {
        Val a = eval(e->a, m);
        if (e->s == "*") return deref(a, m);
        Val v;
        v.k = a.k;
        if (a.k == Kind::Int) v.i = e->s == "-" ? wrap(0 - (uint64_t)a.i) : !a.i;
        else if (a.k == Kind::Chr) v.c = (char)(e->s == "-" ? -a.c : !a.c);
        else throw Refuse{"types"};
        return v;
    }
    default: {
        Val a = eval(e->a, m), b = eval(e->b, m);
        return binary(e->s, a, b, m);
    }
    }
}
std::string Info::show(const Val& v, const isa::Machine& m) const {
    auto str = [&](uint64_t a) {
        std::string s;
        for (;; ++a) {
            char c = (char)(cellAt(m, (int64_t)a) & 0xff);
            if (!c) return s;
            if (c == '\n') s += "\\n"; else if (c == '\t') s += "\\t"; else s += c;
        }
    };
    switch (v.k) {
    case Kind::Int: return S(v.i);
    case Kind::Flt: return S(v.f);
    case Kind::Chr: return std::string("'") + v.c + "'";
    case Kind::Ptr: return known(v.to) && types.at(v.to).k == Kind::Chr ? S(v.p) + " \"" + str(v.p) + "\"" : S(v.p);
    case Kind::Arr: {
        if (!v.a.empty() && v.a.back().k == Kind::Chr) return S(v.p) + " \"" + str(v.p) + "\"";
        std::string s = "[";
        for (size_t i = 0; i < v.a.size(); ++i) s += (i ? ", " : "") + show(v.a[i], m);
        return s + "]";
    }
    default: {
        std::string s;
        for (auto& [n, x] : v.m) s += (s.empty() ? "" : ", ") + n + " = " + show(x, m);
        return "{ " + s + " }";
    }
    }
}

// ------------------------------------------------------------------ text of expressions

namespace {
int level(const P& e) {
    if (e->k == Ex::Un) return 8;
    if (e->k == Ex::Index || e->k == Ex::Dot || e->k == Ex::Arrow) return 9;
    if (e->k != Ex::Bin) return 10;
    const std::string& o = e->s;
    if (o == "=") return 0;
    if (o == "==" || o == "!=") return 1;
    if (o == "&&" || o == "||") return 2;
    if (o[0] == '<' || o[0] == '>') return o == "<<" || o == ">>" ? 4 : 3;
    if (o == "&" || o == "|" || o == "^") return 5;
    if (o == "+" || o == "-") return 6;
    return 7;
}
// Parentheses are left out only where the documented grammar and C agree.
std::string child(const P& c, int parent, bool right) {
    int l = level(c);
    bool bare = (l >= 6 && l > parent) || (l == parent && l >= 6 && (!right || l == 8)) || (l == 3 && (parent == 1 || parent == 2)) || parent < 0;
    if (parent == 0) bare = l > 0;
    return bare ? show(c) : "(" + show(c) + ")";
}
}
std::string show(const P& e) {
    switch (e->k) {
    case Ex::Name: case Ex::FltLit: return e->s;
    case Ex::IntLit: return S(e->i);
    case Ex::Last: return "$" + S(e->i);
    case Ex::Index: return child(e->a, 9, false) + "[" + show(e->b) + "]";
    case Ex::Dot:       // "$0." would be read as a number
        if (e->a->k == Ex::Last || e->a->k == Ex::IntLit || e->a->k == Ex::FltLit) return "(" + show(e->a) + ")." + e->s;
        return child(e->a, 9, false) + "." + e->s;
    case Ex::Arrow: return child(e->a, 9, false) + "->" + e->s;
    case Ex::Un: return e->s + child(e->a, 8, true);
    default: { int l = level(e); return child(e->a, l, false) + " " + e->s + " " + child(e->b, l, true); }
    }
}

// ------------------------------------------------------------------ drawing

namespace {
P mk(Ex::K k, std::string s = "", int64_t i = 0, P a = nullptr, P b = nullptr) {
    auto e = std::make_shared<Ex>();
    e->k = k; e->s = std::move(s); e->i = i; e->a = std::move(a); e->b = std::move(b);
    return e;
}
struct Draw {
    Run& r;
    uint32_t c(uint32_t n) { return r.ch.choose(S_CMD, n); }
    bool pr(uint32_t a, uint32_t b) { return r.ch.chance(S_CMD, a, b); }
};
P lit(Draw& d) {
    static const int64_t v[] = {0, 1, 2, 3, 7, 10, 63, 100, 65, 2147483647};
    int64_t i = d.pr(2, 3) ? v[d.c(10)] : (int64_t)d.c(1000);
    P e = mk(Ex::IntLit, "", i);
    return d.pr(1, 5) ? mk(Ex::Un, "-", 0, e) : e;
}
P flit(Draw& d) { static const char* v[] = {"0.0", "1.5", "2.25", "0.1", "1000.125", "3."}; return mk(Ex::FltLit, v[d.c(6)]); }
}
P Info::path(Run& r, const isa::Machine& m) const {
    Draw d{r};
    auto s = scope(m.ip);
    isa::Machine mm = m;
    P e;
    if (s.empty() || d.pr(1, 24)) {
        static const char* n[] = {"nosuch", "main", "R0", "v0", "v1", "g0", "_"};
        e = mk(Ex::Name, n[d.c(7)]);
    } else if (!results.empty() && d.pr(1, 10)) {
        e = mk(Ex::Last, "", d.c((uint32_t)results.size() + (d.pr(1, 12) ? 2 : 0)));
    } else {
        auto i = s.begin();
        std::advance(i, d.c((uint32_t)s.size()));
        e = mk(Ex::Name, i->first);
    }
    for (int n = 0; n < 5; ++n) {
        Val v;
        try { v = eval(e, mm); } catch (const Refuse&) { return e; }
        if (v.k == Kind::Ptr) {
            if (d.pr(1, 4)) break;
            bool str = known(v.to) && types.at(v.to).k == Kind::Str;
            if (str && d.pr(3, 5)) { auto& t = types.at(v.to); e = mk(Ex::Arrow, t.m.empty() || d.pr(1, 20) ? "zz" : t.m[d.c((uint32_t)t.m.size())].name, 0, e); }
            else if (d.pr(2, 3)) e = mk(Ex::Un, "*", 0, e);
            else e = mk(Ex::Index, "", 0, e, d.pr(1, 6) ? mk(Ex::Un, "-", 0, mk(Ex::IntLit, "", 1)) : mk(Ex::IntLit, "", d.c(3)));
        } else if (v.k == Kind::Arr) {
            if (d.pr(1, 5)) break;
            P k = mk(Ex::IntLit, "", d.c((uint32_t)v.a.size() + (d.pr(1, 8) || v.a.empty() ? 2 : 0)));
            if (d.pr(1, 16)) k = mk(Ex::Un, "-", 0, mk(Ex::IntLit, "", 1 + d.c(2)));
            if (d.pr(1, 10)) k = path(r, m);
            e = mk(Ex::Index, "", 0, e, k);
        } else if (v.k == Kind::Str) {
            if (d.pr(1, 5)) break;
            e = mk(Ex::Dot, v.m.empty() || d.pr(1, 20) ? "zz" : std::next(v.m.begin(), d.c((uint32_t)v.m.size()))->first, 0, e);
        } else {
            if (!d.pr(1, 40)) break;
            e = d.pr(1, 2) ? mk(Ex::Un, "*", 0, e) : mk(Ex::Dot, "a", 0, e);
        }
    }
    return e;
}
P Info::any(Run& r, const isa::Machine& m, int depth) const {
    Draw d{r};
    uint32_t k = d.c(depth <= 0 ? 6 : 16);
    if (k < 4) return path(r, m);
    if (k == 4) return lit(d);
    if (k == 5) return d.pr(1, 3) ? flit(d) : lit(d);
    isa::Machine mm = m;
    if (k == 6) {
        P a = any(r, m, depth - 1);
        P e = mk(Ex::Un, d.pr(1, 2) ? "-" : "!", 0, a);
        try { eval(e, mm); } catch (const Refuse&) { if (!d.pr(1, 10)) return a; } catch (const Undefined&) { return a; }
        return e;
    }
    static const char* ops[] = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "<<", ">>"};
    P a = any(r, m, depth - 1), b, e;
    for (int t = 0; t < 4; ++t) {
        b = any(r, m, depth - 1);
        std::string op = ops[d.c(18)];
        if ((op == "<<" || op == ">>") && d.pr(2, 3)) b = mk(Ex::IntLit, "", d.c(20));
        e = mk(Ex::Bin, op, 0, a, b);
        try { eval(e, mm); return e; }
        catch (const Undefined&) { e = a; }
        catch (const Refuse&) { if (d.pr(1, 12)) return e; e = a; }
    }
    return e;
}
P Info::assignment(Run& r, const isa::Machine& m) const {
    Draw d{r};
    P last;
    for (int t = 0; t < 6; ++t) {
        P a = path(r, m), b;
        isa::Machine mm = m;
        Val v;
        try { v = eval(a, mm); } catch (const Refuse&) { last = mk(Ex::Bin, "=", 0, a, lit(d)); if (d.pr(1, 8)) return last; continue; }
        if (v.loc && v.loc->reg == isa::IP) continue;
        if (v.k == Kind::Int) b = d.pr(1, 2) ? lit(d) : any(r, m, 2);
        else if (v.k == Kind::Flt) b = d.pr(1, 2) ? flit(d) : any(r, m, 2);
        else if (v.k == Kind::Ptr && d.pr(1, 2)) b = mk(Ex::Bin, d.pr(1, 2) ? "+" : "-", 0, a, mk(Ex::IntLit, "", d.c(3)));
        else if ((v.k == Kind::Str || v.k == Kind::Arr) && d.pr(3, 4)) {
            // from another of the same type
            std::vector<P> same;
            for (auto& [n, x] : scope(m.ip)) {
                P e = mk(Ex::Name, n);
                for (int k = 0; k < 2; ++k) {
                    try { Val w = eval(e, mm); if (w.k == v.k && w.name == v.name && w.a.size() == v.a.size()) same.push_back(e); else if (w.k == Kind::Ptr && !k) { e = mk(Ex::Un, "*", 0, e); continue; } } catch (const Refuse&) { }
                    break;
                }
            }
            b = same.empty() ? any(r, m, 1) : same[d.c((uint32_t)same.size())];
        }
        else b = any(r, m, 1);
        last = mk(Ex::Bin, "=", 0, a, b);
        try { eval(last, mm); return last; }
        catch (const Undefined&) { last = mk(Ex::Bin, "=", 0, a, lit(d)); }
        catch (const Refuse&) { if (d.pr(1, 8)) return last; }
    }
    return last ? last : mk(Ex::Bin, "=", 0, lit(d), lit(d));
}

void Info::generate(Run& r, const vm::Size& sz, uint64_t textSize, const std::vector<uint64_t>& cuts) {
    size = sz;
    auto c = [&](uint32_t n) { return r.ch.choose(S_PROG, n); };
    auto pr = [&](uint32_t a, uint32_t b) { return r.ch.chance(S_PROG, a, b); };
    size_t id = c(3);
    std::vector<size_t> usable;
    auto add = [&](Ty t) { types[id] = std::move(t); size_t k = id; id += 1 + c(2); return k; };
    auto len = [&](size_t k) { try { return sizeOf(k); } catch (const Refuse&) { return (uint64_t)1; } };
    Ty t;
    t.k = Kind::Int; t.name = "int"; size_t ti = add(t);
    t.k = Kind::Flt; t.name = "float"; size_t tf = add(t);
    t.k = Kind::Chr; t.name = "char"; size_t tc = add(t);
    usable = {ti, ti, tf, tc};
    uint32_t n = 2 + c(5);
    for (uint32_t i = 0; i < n; ++i) {
        Ty x;
        switch (c(6)) {
        case 0: case 1: x.k = Kind::Ptr; x.to = usable[c((uint32_t)usable.size())]; usable.push_back(add(x)); break;
        case 2: x.k = Kind::Arr; x.n = c(16) ? 1 + c(4) : 0; x.to = usable[c((uint32_t)usable.size())]; if (len(x.to) > 6) x.n = 1; usable.push_back(add(x)); break;
        case 3: case 4: {
            x.k = Kind::Str; x.name = pr(1, 2) ? "struct s" + S(i) : "s" + S(i);
            uint32_t k = 1 + c(3);
            uint64_t off = 0;
            static const char* names[] = {"a", "next", "b", "x1", "Z"};
            uint32_t first = c(5);
            bool list = pr(1, 2);
            for (uint32_t j = 0; j < k; ++j) {
                size_t to = usable[c((uint32_t)usable.size())];
                if (len(to) > 4) to = ti;
                x.m.push_back({names[(first + j) % 5], to, (int64_t)off});
                off += len(to);
                if (!c(8)) ++off;
            }
            if (list) x.m.push_back({names[(first + k) % 5], 0, (int64_t)off}), ++off;
            x.size = off;
            size_t self = add(x);
            usable.push_back(self); usable.push_back(self);
            Ty p;
            p.k = Kind::Ptr; p.to = self;
            size_t pt = add(p);
            usable.push_back(pt); usable.push_back(pt);
            if (list) types[self].m.back().type = pt;
            break;
        }
        default:
            if (!c(3)) { x.k = Kind::Unknown; x.name = "struct incomplete"; size_t u = add(x); Ty p; p.k = Kind::Ptr; p.to = u; usable.push_back(add(p)); if (pr(1, 2)) usable.push_back(u); }
            break;
        }
    }
    std::optional<size_t> lastTy;
    int64_t lastCell = 0;
    auto var = [&](const std::string& name) {
        Var v;
        v.name = name;
        size_t ty = usable[c((uint32_t)usable.size())];
        // Often beside, or over, a variable of the same type: assignments between the two overlap.
        bool twin = lastTy && pr(1, 4);
        if (twin) ty = *lastTy;
        if (c(24)) v.type = ty; else if (c(2)) v.type = id + 50;
        uint64_t len_ = len(ty);
        Kind k = Kind::Unknown;
        if (known(ty)) { k = types[ty].k; len_ = std::max<uint64_t>(1, len_); }
        int64_t top = (int64_t)std::min<uint64_t>(sz.ram, 24);
        int64_t cell = c((uint32_t)std::max<int64_t>(1, top - (int64_t)len_));
        if (twin) {
            cell = std::clamp<int64_t>(lastCell + (int64_t)c(7) - 3, 0, std::max<int64_t>(0, top - (int64_t)len_));
            v.loc = {{LocOp::Push, cell}};
            if (pr(1, 2)) lastTy.reset();
            return v;
        }
        bool small = k == Kind::Int || k == Kind::Flt || k == Kind::Chr || k == Kind::Ptr;
        switch (c(12)) {
        case 0: case 1: if (small || k == Kind::Arr) { v.loc = {{LocOp::PushReg, c((uint32_t)sz.nreg)}}; break; } [[fallthrough]];
        case 2: case 3: case 4: v.loc = {{LocOp::Push, cell}}; if (k == Kind::Str || k == Kind::Arr) { lastTy = ty; lastCell = cell; } break;
        case 5: case 6: v.loc = {{LocOp::BaseOff, -(int64_t)(len_ + c(5))}}; break;
        case 7: v.loc = {{LocOp::PushReg, c(2) ? isa::SP : isa::BP}, {LocOp::Push, (int64_t)c(6) - (int64_t)len_ - 2}, {LocOp::Add}}; break;
        case 8: v.loc = {{LocOp::Push, (int64_t)c(3)}, {LocOp::PushReg, c((uint32_t)sz.nreg)}, {LocOp::Add}}; break;
        case 9: v.loc = {{LocOp::Push, cell}, {LocOp::Deref}}; break;
        case 10:
            if (c(2)) v.loc = {{LocOp::PushReg, c((uint32_t)sz.nreg)}, {LocOp::Deref}};
            else v.loc = {{LocOp::Push, 1}, {LocOp::Push, cell}, {LocOp::Deref}, {LocOp::Add}};
            break;
        default:
            switch (c(6)) {
            case 0: v.noLoc = true; break;
            case 1: break;
            case 2: v.loc = {{LocOp::Push, cell}, {LocOp::Add}}; break;
            case 3: v.loc = {{LocOp::PushReg, (int64_t)sz.nreg + 1}, {LocOp::Push, 1}, {LocOp::Add}}; break;
            case 4: v.loc = {{LocOp::Push, (int64_t)sz.ram}}; break;
            default: v.loc = {{LocOp::PushReg, isa::BP}}; if (!small) v.loc = {{LocOp::Push, cell}}; break;
            }
        }
        return v;
    };
    n = c(3);
    for (uint32_t i = 0; i < n; ++i) globals.push_back(var(i ? "g" + S(i) : pr(1, 2) ? "v0" : "g0"));
    std::function<void(Scope&, int)> fill = [&](Scope& s, int depth) {
        uint32_t k = c(depth ? 3 : 5) + (depth ? 0 : 1);
        std::set<std::string> used;
        for (uint32_t i = 0; i < k; ++i) { std::string nm = "v" + S(c(6)); if (used.insert(nm).second) s.vars.push_back(var(nm)); }
        s.subsFirst = pr(1, 2);
        uint64_t at = s.b;
        for (int i = 0; i < 2 && depth < 2 && s.e - at > 2 && pr(2, 3); ++i) {
            Scope x;
            x.b = at + c((uint32_t)std::min<uint64_t>(s.e - at - 1, 6));
            x.e = x.b + 1 + c((uint32_t)(s.e - x.b));
            fill(x, depth + 1);
            at = x.e;
            s.subs.push_back(std::move(x));
            if (at >= s.e) break;
        }
    };
    std::set<uint64_t> at{0, textSize};
    for (auto x : cuts) if (x < textSize && pr(1, 2)) at.insert(x);
    uint64_t b = 0;
    bool first = true;
    size_t no = 0;
    for (auto x : at) {
        if (first) { first = false; b = x; continue; }
        Scope f;
        f.name = no ? "f" + S(no) : "main";
        ++no;
        f.b = b; f.e = x - (pr(1, 8) && x - b > 2 ? 1 : 0);
        fill(f, 0);
        funs.push_back(std::move(f));
        b = x;
    }
}

std::string Info::text(Run& r) const {
    auto pr = [&](uint32_t a, uint32_t b) { return r.ch.chance(S_PROG, a, b); };
    auto join = [&](std::vector<std::string> v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? ",\n" : "") + v[i]; if (!v.empty() && pr(1, 2)) s += ","; return s + "\n"; };
    auto variable = [&](const Var& v) {
        std::vector<std::string> a{"ATTR_name: " + v.name};
        if (v.type) a.push_back("ATTR_type: " + S(*v.type));
        if (!v.noLoc) {
            std::string l;
            for (size_t i = 0; i < v.loc.size(); ++i) {
                auto& x = v.loc[i];
                if (i) l += "; ";
                switch (x.op) {
                case LocOp::Push: l += "PUSH " + S(x.v); break;
                case LocOp::PushReg: l += "PUSH " + regName((int)x.v); break;
                case LocOp::Add: l += "ADD"; break;
                case LocOp::BaseOff: l += "BASE_REG_OFFSET " + S(x.v); break;
                case LocOp::Deref: l += "DEREFERENCE"; break;
                }
            }
            a.push_back("ATTR_location: " + (v.loc.size() == 1 && pr(1, 2) ? "`" + l + "`" : "[" + l + "]"));
        }
        return "DIE_variable: {\n" + join(a) + "}";
    };
    std::function<std::string(const Scope&)> scopeText = [&](const Scope& s) {
        std::vector<std::string> a{"ATTR_begin_addr: " + S(s.b), "ATTR_end_addr: " + S(s.e)}, v, u;
        for (auto& x : s.vars) v.push_back(variable(x));
        for (auto& x : s.subs) u.push_back(scopeText(x));
        if (s.subsFirst) std::swap(v, u);
        a.insert(a.end(), v.begin(), v.end());
        a.insert(a.end(), u.begin(), u.end());
        return "DIE_scope: {\n" + join(a) + "}";
    };
    std::vector<std::string> top, glob;
    for (auto& [id, t] : types) {
        std::string idt = "ATTR_id: " + S(id), to = "ATTR_type: " + S(t.to);
        switch (t.k) {
        case Kind::Int: case Kind::Flt: case Kind::Chr: top.push_back("DIE_primitive_type: {\n" + join({"ATTR_name: " + t.name, idt, "ATTR_size: 1"}) + "}"); break;
        case Kind::Ptr: top.push_back("DIE_pointer_type: {\n" + join({to, "ATTR_size: 1", idt}) + "}"); break;
        case Kind::Arr: top.push_back("DIE_array_type: {\n" + join({to, "ATTR_size: " + S(t.n), idt}) + "}"); break;
        case Kind::Str: {
            std::vector<std::string> m;
            for (auto& x : t.m) m.push_back(S(x.off) + ": {" + S(x.type) + ": " + x.name + "}");
            top.push_back("DIE_structured_type: {\n" + join({"ATTR_size: " + S(t.size), idt, "ATTR_name: \"" + t.name + "\"", "ATTR_members: {" + join(m) + "}"}) + "}");
            break;
        }
        default: top.push_back("DIE_structured_type: {\n" + join({idt, "ATTR_name: \"" + t.name + "\""}) + "}"); break;
        }
    }
    for (auto& f : funs) glob.push_back("DIE_function: {\n" + join({"ATTR_name: " + f.name, "ATTR_begin_addr: " + S(f.b), "ATTR_end_addr: " + S(f.e), scopeText(f)}) + "}");
    for (auto& v : globals) glob.push_back(variable(v));
    if (pr(1, 2)) std::swap(top, glob);
    top.insert(top.end(), glob.begin(), glob.end());
    return ".debug_info\nDIE_compilation_unit: {\n" + join(top) + "}\n";
}
}
