// vtai - abstract interpreter over LLVM IR for the Tsetlini kernels.
//
// Domain: every integer SSA value is a linear form over symbols (monomials are
// products of symbols), a state carries a conjunction of inequalities
// (linear form >= 0), 64-bit feature words are abstracted lane-wise to
// {0,1,unknown}, memory is abstracted to regions in which ONE arbitrary
// ("tracked") element is followed and every other element is summarised.
// Control-flow joins merge states that agree on the partition key (tracked
// contents + inputs already read for the tracked element); differing values are
// replaced by fresh symbols constrained by the inequalities both sides satisfy.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

namespace vt {
using namespace llvm;
using i64 = int64_t;
using u64 = uint64_t;

// ---------------------------------------------------------------- symbols
struct SymInfo { std::string name; bool hasLo = false, hasHi = false; i64 lo = 0, hi = 0; bool noise = false; };
struct Syms {
    std::vector<SymInfo> v;
    int fresh(std::string n, bool noise = false) { SymInfo s; s.name = std::move(n); s.noise = noise; v.push_back(s); return (int)v.size() - 1; }
    int fresh(std::string n, i64 lo, i64 hi, bool noise = false) { int i = fresh(n, noise); v[i].hasLo = v[i].hasHi = true; v[i].lo = lo; v[i].hi = hi; return i; }
    int freshLo(std::string n, i64 lo, bool noise = false) { int i = fresh(n, noise); v[i].hasLo = true; v[i].lo = lo; return i; }
};
extern Syms SY;

// ---------------------------------------------------------------- linear forms
struct Mono { using value_type = int; // sorted symbol ids, non-empty, at most 6 factors
    unsigned char n = 0; int s[6];
    Mono() {}
    Mono(std::initializer_list<int> l) { for (int x : l) push_back(x); }
    void push_back(int x) { if (n >= 6) { fprintf(stderr, "monomial degree\n"); abort(); } s[n++] = x; }
    int * begin() { return s; } int * end() { return s + n; } int const * begin() const { return s; } int const * end() const { return s + n; }
    size_t size() const { return n; } bool empty() const { return n == 0; } int operator[](size_t i) const { return s[i]; }
    void erase(int * p) { for (; p + 1 < s + n; ++p) *p = p[1]; --n; }
    void append(Mono const & o) { for (int x : o) push_back(x); }
    bool operator==(Mono const & o) const { if (n != o.n) return false; for (int i = 0; i < n; ++i) if (s[i] != o.s[i]) return false; return true; }
    bool operator!=(Mono const & o) const { return !(*this == o); }
    bool operator<(Mono const & o) const { return std::lexicographical_compare(begin(), end(), o.begin(), o.end()); }
};
struct Lin {
    std::vector<std::pair<Mono, i64>> t; // sorted by Mono
    i64 c = 0;
    Lin() {}
    Lin(i64 k) : c(k) {}
    static Lin sym(int s) { Lin l; l.t.push_back({Mono{s}, 1}); return l; }
    bool isConst() const { return t.empty(); }
    bool operator==(Lin const & o) const { return c == o.c && t == o.t; }
    bool operator<(Lin const & o) const { return c != o.c ? c < o.c : t < o.t; }
    bool sameTerms(Lin const & o) const { return t == o.t; }
    bool isSym(int & s) const { if (c == 0 && t.size() == 1 && t[0].second == 1 && t[0].first.size() == 1) { s = t[0].first[0]; return true; } return false; }
    bool uses(int s) const { for (auto & m : t) for (int x : m.first) if (x == s) return true; return false; }
    void symsOf(std::set<int> & out) const { for (auto & m : t) for (int x : m.first) out.insert(x); }
    std::string str() const;
};
Lin add(Lin const & a, Lin const & b, i64 kb = 1);
inline Lin operator+(Lin const & a, Lin const & b) { return add(a, b, 1); }
inline Lin operator-(Lin const & a, Lin const & b) { return add(a, b, -1); }
Lin scale(Lin const & a, i64 k);
Lin mul(Lin const & a, Lin const & b);
Lin subst(Lin const & a, int s, Lin const & by);

// ---------------------------------------------------------------- values
enum VK { V_UNDEF, V_INT, V_BOOL, V_WORD, V_PTR, V_FLT, V_AGG, V_FN };
enum BOp { B_CONST, B_GE, B_EQ, B_NE };   // e >= 0, e == 0, e != 0
struct Word { u64 k0 = 0, k1 = 0, lo = 0; bool tt = false, hot = false; /* hot: 1 << idx */ unsigned char tbl = 0; Lin idx; };
struct Val {
    VK k = V_UNDEF;
    Lin e;                 // V_INT value, V_BOOL expression, V_PTR offset
    BOp op = B_CONST; bool bc = false;
    Word w;
    const Value * wreg = nullptr; int wpred = 0; const Value * wreg2 = nullptr; // refinement of words by comparisons
    int region = -1;       // V_PTR; -1 = null
    Function * fn = nullptr;
    std::vector<Val> agg;
    static Val I(Lin l) { Val v; v.k = V_INT; v.e = std::move(l); return v; }
    static Val B(bool b) { Val v; v.k = V_BOOL; v.op = B_CONST; v.bc = b; return v; }
    static Val Cond(BOp o, Lin l) { Val v; v.k = V_BOOL; v.op = o; v.e = std::move(l); return v; }
    static Val P(int r, Lin o) { Val v; v.k = V_PTR; v.region = r; v.e = std::move(o); return v; }
    static Val W(Word w) { Val v; v.k = V_WORD; v.w = w; return v; }
    static Val F() { Val v; v.k = V_FLT; return v; }
    static Val U() { return Val(); }
    bool isBoolConst() const { return k == V_BOOL && op == B_CONST; }
    bool same(Val const & o) const;
    std::string str() const;
};

// ---------------------------------------------------------------- regions
enum RK { R_OBJ, R_ARR, R_MAT, R_OPAQUE };
struct Region {
    std::string name; RK kind = R_OPAQUE; std::string role;
    unsigned elem = 1;           // element size in bytes (R_ARR, R_MAT)
    bool word = false;           // elements are bit blocks
    int strideSym = -1;          // R_MAT: stride symbol, in elements
    Lin trow, tcol;              // tracked element
    bool tracked = false;
    bool readonly = false;
};

struct State;
struct Atom { std::string n; int v; };
struct State {
    std::map<const Value *, Val> regs;
    std::vector<Lin> facts;
    std::map<std::pair<int, i64>, Val> obj;         // R_OBJ cells
    std::map<int, Val> cell;                        // tracked element contents per region
    std::map<std::string, int> atoms;
    std::map<std::pair<Lin, i64>, std::pair<Lin, Lin>> divmod;
    std::vector<std::pair<std::pair<std::string, Lin>, Val>> memo; // generic element loads
    std::map<std::string, int> flags;
    std::map<std::string, Lin> neq;                 // expressions known to differ from 0 (latest comparison per role)
    bool dead = false;
    BasicBlock * prev = nullptr;
};

struct Finding { std::string kind, where, msg; bool operator<(Finding const & o) const { return std::tie(kind, where, msg) < std::tie(o.kind, o.where, o.msg); } };

struct Engine;
struct Client {
    virtual ~Client() {}
    virtual void setup(Engine &, State &, Function &) = 0;
    // object cell that was never written: produce its value
    virtual Val loadObj(Engine &, State &, int region, i64 off, Type * ty) { return Val::U(); }
    // tracked element read; fill `out` with (state, value) alternatives
    virtual void loadTracked(Engine &, State & s, int region, Instruction * I, std::vector<std::pair<State, Val>> & out) = 0;
    virtual void loadOther(Engine &, State & s, int region, Lin const & row, Lin const & col, bool sameRow, Instruction * I, std::vector<std::pair<State, Val>> & out) = 0;
    virtual bool storeTracked(Engine &, State & s, int region, Val const & v, Instruction * I) { s.cell[region] = v; return true; }
    virtual void storeOther(Engine &, State & s, int region, Lin const & row, Lin const & col, Val const & v, Instruction * I) {}
    virtual void access(Engine &, State & s, int region, Lin const & row, Lin const & col, bool store, Instruction * I) {}
    // returns true when the call was modelled
    virtual bool call(Engine &, State & s, CallBase & CB, Function * F, std::string const & name, Val & ret) { return false; }
    virtual void atExit(Engine &, State & s, Instruction * I) {}
    virtual bool atBackEdge(Engine &, State & s, BasicBlock * header, unsigned depth) { return false; }
    virtual std::string keyExtra(Engine &, State & s) { return ""; }
    virtual bool splitSmall(State &) { return false; }
    virtual bool isRowItems(std::string const & name) { return false; }
};

struct Engine {
    Module * M = nullptr; const DataLayout * DL = nullptr;
    Client * C = nullptr;
    Function * F = nullptr;
    std::vector<Region> regions;
    std::set<Finding> findings;     // violations
    std::set<Finding> undecided;
    std::set<int> keepSyms;         // input symbols: never eliminated
    Lin pivotPos;                   // tracked position, 64 * block + lane
    bool forkLane(State & s, Lin const & amt, std::vector<State> & again);
    void noteElem(State & s, Lin const & l, bool word);
    int pivot = -1;                 // tracked lane: counters of small loops are compared with it
    std::vector<Lin> tmplLins; std::set<int> tmplSyms;         // symbols compared with joined values (join templates)
    long steps = 0, maxSteps = 4000000; long nstates = 0, njoins = 0; bool blown = false;
    bool ttMode = false; unsigned char ttAllowed = 0xff;  // universal lane mode for words

    std::map<int, int> ptrBase; std::map<AllocaInst *, int> allocaRegion;
    bool rowCol(int region, Lin const & off, Lin & row, Lin & col);
    int newRegion(Region r) { regions.push_back(std::move(r)); return (int)regions.size() - 1; }
    void run(Function & F);

    // reasoning
    bool entails(State const & s, Lin const & e, int depth = 5);          // e >= 0 ?
    bool entailsEq(State const & s, Lin const & e) { return entails(s, e) && entails(s, scale(e, -1)); }
    bool assumeGE(State & s, Lin e);                       // returns false if contradictory
    bool assumeEQ(State & s, Lin e);
    int decide(State & s, Val const & b);                  // 1 true, 0 false, -1 unknown
    void substitute(State & s, int sym, Lin const & by);
    // assume(b == val) : list of feasible successor states (more than one for disequalities)
    void assume(State const & s, Val const & b, bool val, std::vector<State> & out);
    Val zero(Type * T);
    void viol(std::string kind, Instruction * I, std::string msg);
    void undec(std::string kind, Instruction * I, std::string msg);
    std::string loc(Instruction * I);
    Lin lin(State & s, Val const & v, unsigned bits, bool sgn); // integer view
    bool isNoise(Lin const & e);
    bool fits(State & s, Lin const & e, i64 lo, i64 hi);
    std::pair<Lin, Lin> divmod(State & s, Lin const & e, i64 d);
    std::vector<State> * forks = nullptr; // a client's call model may push alternative states here: the call is then re-executed in each
    Val arg(State & s, CallBase & CB, unsigned i) { return eval(s, CB.getArgOperand(i)); }
    bool clientFork(State & s, Lin const & d, std::string const & tag);
    void accessElem(State & s, int region, Lin const & off, unsigned size, Instruction * I, bool store, Val const & v, std::vector<std::pair<State, Val>> & out);

private:
    struct Node { State st; bool has = false; int visits = 0; std::map<std::string, int> joinSyms; };
    std::map<const BasicBlock *, std::set<const Value *>> liveIn;
    std::map<const BasicBlock *, int> rpo;
    std::map<const BasicBlock *, std::set<const PHINode *>> constPhi;
    std::map<std::pair<const BasicBlock *, std::string>, Node> nodes;
    struct QItem { int prio; std::string key; const BasicBlock * bb; };
    std::set<std::pair<std::pair<std::vector<int>, int>, std::pair<const BasicBlock *, std::string>>> queue;
    LoopInfo * LI = nullptr;
    void computeLive(Function & F);
    std::string key(State & s, const BasicBlock * bb);
    void enter(State s, BasicBlock * from, BasicBlock * to);
    void enter2(State s, BasicBlock * from, BasicBlock * to);
    bool split64(State & s, Lin const & e, Lin & A, Lin & R);
    bool join(Node & n, State & inc, const BasicBlock * bb);
    void execBlock(State s, BasicBlock * bb);
    struct Cont { State s; BasicBlock::iterator it; };
    // executes one instruction; pushes continuation states on `out` (at next instruction or same)
    void execInst(State & s, Instruction * I, std::vector<State> & next, std::vector<State> & again);
    Val eval(State & s, Value * v);
    Val evalConst(Constant * c);
    Val binop(State & s, BinaryOperator * B, Val a, Val b, std::vector<State> & again, bool & forked);
    Val icmp(State & s, ICmpInst * C, Val const & a, Val const & b);
    Val castOp(State & s, CastInst * C, Val const & a);
    bool forkOn(State & s, Val const & b, std::vector<State> & again);
    Val joinVal(State & a, Val const & va, State & b, Val const & vb, Node & n, std::string const & id, std::vector<std::tuple<int, Lin, Lin>> & js);
    friend struct Client;
};

std::string demangleName(Function const & F);
std::string shortName(std::string const & dem);
void prepare(Module & M, std::vector<std::string> const & roots, std::function<bool(std::string const &)> const & keepOut);
} // namespace vt
