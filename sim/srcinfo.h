// Source-level debugging information and the expressions over it: a generator and a reference
// evaluator over the sequential machine. Shares no code with the repository.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "core.h"
#include "isa.h"
#include "vm.h"

namespace srcm {
using sim::Run;

struct Refuse { std::string why; };       // the expression cannot be evaluated
struct Undefined {};                      // C gives it no meaning

enum class Kind { Int, Flt, Chr, Ptr, Arr, Str, Unknown };
struct Member { std::string name; size_t type; int64_t off; };
struct Ty {
    Kind k = Kind::Unknown;
    std::string name;
    size_t to = 0;
    uint64_t n = 1;
    std::vector<Member> m;
    uint64_t size = 1;
};
struct Loc { int reg = -1; int64_t cell = 0; };
struct Val {
    Kind k = Kind::Int;
    int64_t i = 0; double f = 0; char c = 0; uint64_t p = 0;
    size_t to = 0;                        // of pointers and arrays
    std::string name;
    std::map<std::string, Val> m;
    std::vector<Val> a;
    std::optional<Loc> loc;
};
enum class LocOp { Push, PushReg, Add, BaseOff, Deref };
struct LocIns { LocOp op; int64_t v = 0; };
struct Var {
    std::string name;
    std::optional<size_t> type;
    std::vector<LocIns> loc;
    bool noLoc = false;
};
struct Scope {
    uint64_t b = 0, e = 0;
    std::string name;                     // of functions
    std::vector<Var> vars;
    std::vector<Scope> subs;
    bool subsFirst = false;
};

// Expressions
struct Ex;
using P = std::shared_ptr<Ex>;
struct Ex {
    enum K { Name, IntLit, FltLit, Last, Index, Dot, Arrow, Un, Bin } k = IntLit;
    std::string s;                        // name, member or operator
    int64_t i = 0;
    P a, b;
};
std::string show(const P&);

struct Info {
    vm::Size size;
    std::map<size_t, Ty> types;
    std::vector<Var> globals;
    std::vector<Scope> funs;
    std::vector<Val> results;             // $0, $1, ...

    void generate(Run& r, const vm::Size& s, uint64_t textSize, const std::vector<uint64_t>& cuts);
    std::string text(Run& r) const;       // as a .debug_info section
    std::map<std::string, const Var*> scope(uint64_t ip) const;
    const Scope* function(uint64_t ip) const;

    Loc locate(const Var&, const isa::Machine&) const;
    Val read(const Loc&, size_t type, const isa::Machine&) const;
    Val eval(const P&, isa::Machine&) const;                    // assignments change the machine
    std::string show(const Val&, const isa::Machine&) const;
    std::string typeName(size_t id) const;
    std::string typeName(const Val&) const;
    uint64_t sizeOf(size_t id) const;
    bool known(size_t id) const { auto i = types.find(id); return i != types.end() && i->second.k != Kind::Unknown; }

    // Drawing expressions; m is the machine now.
    P path(Run& r, const isa::Machine& m) const;
    P any(Run& r, const isa::Machine& m, int depth) const;
    P assignment(Run& r, const isa::Machine& m) const;
private:
    Val name(const std::string&, const isa::Machine&) const;
    Val binary(const std::string& op, Val, Val, isa::Machine&) const;
    Val assign(Val, Val, isa::Machine&) const;
    Val deref(const Val&, const isa::Machine&) const;
};
int64_t regOf(const isa::Machine&, int reg);
std::string regName(int reg);
}
