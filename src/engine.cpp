#include "engine.hpp"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/IR/Verifier.h"
#include <numeric>

namespace vt {
Syms SY;
using i128 = __int128;

// ================================================================ linear forms
std::string Lin::str() const
{
    std::string o;
    for (auto & m : t) {
        if (!o.empty() && m.second >= 0) o += "+";
        if (m.second == -1) o += "-"; else if (m.second != 1) o += std::to_string(m.second) + "*";
        for (size_t i = 0; i < m.first.size(); ++i) o += (i ? "*" : "") + SY.v[m.first[i]].name;
    }
    if (c != 0 || o.empty()) { if (c >= 0 && !o.empty()) o += "+"; o += std::to_string(c); }
    return o;
}
Lin add(Lin const & a, Lin const & b, i64 kb)
{
    Lin r; r.c = (i64)((u64)a.c + (u64)kb * (u64)b.c);
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { i64 k = kb * b.t[j].second; if (k) r.t.push_back({b.t[j].first, k}); ++j; }
        else { i64 k = a.t[i].second + kb * b.t[j].second; if (k) r.t.push_back({a.t[i].first, k}); ++i; ++j; }
    }
    return r;
}
Lin scale(Lin const & a, i64 k)
{
    Lin r; if (k == 0) return r;
    r.c = (i64)((u64)a.c * (u64)k); r.t = a.t; for (auto & m : r.t) m.second *= k; return r;
}
Lin mul(Lin const & a, Lin const & b)
{
    if (a.isConst()) return scale(b, a.c);
    if (b.isConst()) return scale(a, b.c);
    std::map<Mono, i64> acc; Lin r; r.c = a.c * b.c;
    for (auto & m : a.t) acc[m.first] += m.second * b.c;
    for (auto & m : b.t) acc[m.first] += m.second * a.c;
    for (auto & x : a.t) for (auto & y : b.t) { Mono m = x.first; m.append(y.first); std::sort(m.begin(), m.end()); acc[m] += x.second * y.second; }
    for (auto & p : acc) if (p.second) r.t.push_back({p.first, p.second});
    return r;
}
Lin subst(Lin const & a, int s, Lin const & by)
{
    if (!a.uses(s)) return a;
    Lin r(a.c);
    for (auto & m : a.t) {
        Lin term(m.second); 
        for (int x : m.first) term = mul(term, x == s ? by : Lin::sym(x));
        r = r + term;
    }
    return r;
}

bool Val::same(Val const & o) const
{
    if (k != o.k) return false;
    switch (k) {
    case V_UNDEF: case V_FLT: return true;
    case V_INT: return e == o.e;
    case V_BOOL: return op == o.op && (op == B_CONST ? bc == o.bc : (e == o.e && wreg == o.wreg && wreg2 == o.wreg2 && wpred == o.wpred));
    case V_WORD: return w.k0 == o.w.k0 && w.k1 == o.w.k1 && w.lo == o.w.lo && w.tt == o.w.tt && (!w.tt || (w.tbl == o.w.tbl && w.idx == o.w.idx));
    case V_PTR: return region == o.region && e == o.e;
    case V_FN: return fn == o.fn;
    case V_AGG: if (agg.size() != o.agg.size()) return false; for (size_t i = 0; i < agg.size(); ++i) if (!agg[i].same(o.agg[i])) return false; return true;
    }
    return false;
}
std::string Val::str() const
{
    switch (k) {
    case V_UNDEF: return "undef"; case V_FLT: return "flt"; case V_INT: return e.str();
    case V_BOOL: if (op == B_CONST) return bc ? "true" : "false"; return "(" + e.str() + (op == B_GE ? ">=0)" : op == B_EQ ? "==0)" : "!=0)");
    case V_WORD: { char b[160]; snprintf(b, sizeof b, "word{0:%llx 1:%llx lo:%llu tt:%d %02x}", (unsigned long long)w.k0, (unsigned long long)w.k1, (unsigned long long)w.lo, w.tt, w.tbl); return b; }
    case V_PTR: return "ptr(" + std::to_string(region) + "+" + e.str() + ")";
    default: return "?";
    }
}

std::string demangleName(Function const & F) { return demangle(F.getName().str()); }
std::string shortName(std::string const & dem)
{
    // strip template args / parameter list
    std::string o; int d = 0;
    for (char ch : dem) { if (ch == '<') ++d; else if (ch == '>') --d; else if (d == 0) { if (ch == '(') break; o += ch; } }
    return o;
}

// ================================================================ preparation
void prepare(Module & M, std::vector<std::string> const & roots, std::function<bool(std::string const &)> const & keepOut)
{
    std::set<std::string> R(roots.begin(), roots.end());
    for (Function & F : M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
        if (R.count(F.getName().str())) { F.setLinkage(GlobalValue::ExternalLinkage); continue; }
        if (keepOut(demangleName(F))) F.addFnAttr(Attribute::NoInline);
        else F.addFnAttr(Attribute::AlwaysInline);
        F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr);
    }
    // indirectbr-free, EH stays
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {   // collapse std::for_each lambdas etc. : first clean, then inline
        ModulePassManager MPM;
        MPM.addPass(AlwaysInlinerPass(false));
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(InstSimplifyPass());
        FPM.addPass(SimplifyCFGPass());
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(InstSimplifyPass());
        FPM.addPass(ADCEPass());
        FPM.addPass(SimplifyCFGPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(M, MAM);
    }
}

// ================================================================ reasoning
bool Engine::isNoise(Lin const & e) { for (auto & m : e.t) for (int x : m.first) if (SY.v[x].noise) return true; return false; }

namespace {
struct Row { std::vector<std::pair<int, i64>> t; i64 c; }; // sum t + c >= 0
bool norm(Row & r)
{
    i64 g = 0; for (auto & p : r.t) g = std::gcd(g, p.second < 0 ? -p.second : p.second);
    if (g > 1) { for (auto & p : r.t) p.second /= g; i64 q = r.c / g; if (r.c % g != 0 && r.c < 0) --q; r.c = q; }
    return true;
}
// exact rationals; `bad` marks overflow, after which the query answers "unknown"
struct Rat {
    i64 n = 0, d = 1;
    static bool bad;
    Rat() {} Rat(i64 k) : n(k) {}
    static Rat mk(i128 n, i128 d) {
        if (d < 0) { n = -n; d = -d; }
        if (d != 1) { i128 a = n < 0 ? -n : n, b = d; while (b) { i128 t = a % b; a = b; b = t; } if (a > 1) { n /= a; d /= a; } }
        if (n > INT64_MAX || n < INT64_MIN || d > INT64_MAX) { bad = true; return Rat(0); }
        Rat r; r.n = (i64)n; r.d = (i64)d; return r; }
};
bool Rat::bad = false;
inline Rat operator+(Rat a, Rat b) { if (a.d == 1 && b.d == 1) return Rat::mk((i128)a.n + b.n, 1); return Rat::mk((i128)a.n * b.d + (i128)b.n * a.d, (i128)a.d * b.d); }
inline Rat operator-(Rat a, Rat b) { b.n = -b.n; return a + b; }
inline Rat operator*(Rat a, Rat b) { if (a.n == 0 || b.n == 0) return Rat(0); return Rat::mk((i128)a.n * b.n, (i128)a.d * b.d); }
inline Rat operator/(Rat a, Rat b) { return Rat::mk((i128)a.n * b.d, (i128)a.d * b.n); }
inline bool operator<(Rat a, Rat b) { return (i128)a.n * b.d < (i128)b.n * a.d; }
long lpCalls = 0;
// conjunction of rows with variable bounds: infeasible over the rationals?  (bounded simplex, Bland's rule)
bool infeasibleLP(std::vector<Row> & rows, std::vector<std::pair<bool, i64>> const & lo, std::vector<std::pair<bool, i64>> const & hi)
{
    ++lpCalls; Rat::bad = false;
    int nv = (int)lo.size(), m = (int)rows.size(), n = nv + m;
    for (auto & r : rows) { norm(r); if (r.t.empty() && r.c < 0) return true; }
    std::vector<Rat> T((size_t)m * nv), val(n); std::vector<int> basic(m), nonb(nv);
    for (int j = 0; j < nv; ++j) { nonb[j] = j; Rat v(0); if (lo[j].first && lo[j].second > 0) v = Rat(lo[j].second); else if (hi[j].first && hi[j].second < 0) v = Rat(hi[j].second); val[j] = v; if (lo[j].first && hi[j].first && lo[j].second > hi[j].second) return true; }
    for (int i = 0; i < m; ++i) { basic[i] = nv + i; Rat v(0); for (auto & p : rows[i].t) { T[(size_t)i * nv + p.first] = Rat(p.second); v = v + Rat(p.second) * val[p.first]; } val[nv + i] = v; }
    auto hasLo = [&](int x) { return x >= nv ? true : lo[x].first; }; auto LO = [&](int x) { return x >= nv ? Rat(-rows[x - nv].c) : Rat(lo[x].second); };
    auto hasHi = [&](int x) { return x >= nv ? false : hi[x].first; }; auto HI = [&](int x) { return Rat(hi[x].second); };
    for (int it = 0; it < 2000; ++it) {
        if (Rat::bad) return false;
        int bi = -1; bool low = false;
        for (int i = 0; i < m; ++i) { int x = basic[i]; bool l = hasLo(x) && val[x] < LO(x), h = hasHi(x) && HI(x) < val[x]; if ((l || h) && (bi < 0 || x < basic[bi])) { bi = i; low = l; } }
        if (bi < 0) return false;
        int x = basic[bi], bj = -1; Rat * R = &T[(size_t)bi * nv];
        for (int j = 0; j < nv; ++j) { if (R[j].n == 0) continue; int y = nonb[j]; bool up = low == (R[j].n > 0); // y must increase?
            bool can = up ? !(hasHi(y) && !(val[y] < HI(y))) : !(hasLo(y) && !(LO(y) < val[y]));
            if (can && (bj < 0 || y < nonb[bj])) bj = j; }
        if (bj < 0) return true;
        // pivot x <-> y
        int y = nonb[bj]; Rat target = low ? LO(x) : HI(x); Rat theta = (target - val[x]) / R[bj];
        val[x] = target; val[y] = val[y] + theta;
        for (int i = 0; i < m; ++i) if (i != bi) { Rat k = T[(size_t)i * nv + bj]; if (k.n) val[basic[i]] = val[basic[i]] + k * theta; }
        Rat inv = Rat(1) / R[bj];
        for (int j = 0; j < nv; ++j) if (j != bj) { if (R[j].n) { Rat q = R[j] * inv; q.n = -q.n; R[j] = q; } }
        R[bj] = inv;
        for (int i = 0; i < m; ++i) if (i != bi) { Rat k = T[(size_t)i * nv + bj]; if (!k.n) continue; Rat * Q = &T[(size_t)i * nv]; for (int j = 0; j < nv; ++j) { if (j == bj) Q[j] = k * R[j]; else if (R[j].n) Q[j] = Q[j] + k * R[j]; } }
        basic[bi] = y; nonb[bj] = x;
    }
    return false;
}
struct Conv {
    std::vector<Mono> monos;
    int find(Mono const & m) const { for (size_t i = 0; i < monos.size(); ++i) if (monos[i] == m) return (int)i; return -1; }
    Row row(Lin const & l) { Row r; r.c = l.c; r.t.reserve(l.t.size()); for (auto & m : l.t) { int k = find(m.first); if (k < 0) { k = (int)monos.size(); monos.push_back(m.first); } r.t.push_back({k, m.second}); } std::sort(r.t.begin(), r.t.end()); return r; }
};
bool quickBounds(Lin const & e, bool & nonneg)
{
    // interval lower bound of e
    i128 lo = e.c;
    for (auto & m : e.t) {
        if (m.first.size() != 1) { bool allnn = true; for (int x : m.first) { auto & s = SY.v[x]; if (!s.hasLo || s.lo < 0) allnn = false; } if (allnn && m.second > 0) continue; return false; }
        auto & s = SY.v[m.first[0]];
        if (m.second > 0) { if (!s.hasLo) return false; lo += (i128)m.second * s.lo; } else { if (!s.hasHi) return false; lo += (i128)m.second * s.hi; }
    }
    nonneg = lo >= 0; return nonneg;
}
bool refute(std::vector<Lin> const & facts, Lin const & goalNeg) // goalNeg >= 0 together with facts infeasible?
{
    Conv cv; std::vector<Row> rows;
    rows.push_back(cv.row(goalNeg));
    std::vector<char> used(facts.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < facts.size(); ++i) if (!used[i]) {
            bool touch = false; for (auto & m : facts[i].t) if (cv.find(m.first) >= 0) { touch = true; break; }
            if (touch) { used[i] = 1; rows.push_back(cv.row(facts[i])); ch = true; }
        }
    }
    std::vector<std::pair<bool, i64>> lo, hi;
    for (auto & m : cv.monos) {
        if (m.size() == 1) { auto & s = SY.v[m[0]]; lo.push_back({s.hasLo, s.lo}); hi.push_back({s.hasHi, s.hi}); }
        else { bool allnn = true; for (int x : m) { auto & s = SY.v[x]; if (!s.hasLo || s.lo < 0) allnn = false; } lo.push_back({allnn, 0}); hi.push_back({false, 0}); }
    }
    return infeasibleLP(rows, lo, hi);
}
}

bool Engine::entails(State const & s, Lin const & e, int)
{
    if (e.isConst()) return e.c >= 0;
    bool nn = false; if (quickBounds(e, nn) && nn) return true;
    for (auto & f : s.facts) if (f.t == e.t) { if (e.c >= f.c) return true; }
    Lin neg = scale(e, -1); neg.c -= 1; // -e-1 >= 0
    return refute(s.facts, neg);
}

bool Engine::assumeGE(State & s, Lin e)
{
    if (e.isConst()) return e.c >= 0;
    { i64 g = 0; for (auto & m : e.t) g = std::gcd(g, m.second < 0 ? -m.second : m.second); if (g > 1) { for (auto & m : e.t) m.second /= g; i64 q = e.c / g; if (e.c % g != 0 && e.c < 0) --q; e.c = q; } }
    if (isNoise(e) && e.t.size() > 1) return true; // relations between noise values are not tracked
    for (auto & f : s.facts) if (f.t == e.t) { if (f.c <= e.c) return true; }
    if (refute(s.facts, e)) return false;
    for (auto & f : s.facts) if (f.t == e.t) { f.c = std::min(f.c, e.c); goto eq; }
    s.facts.push_back(e);
eq:
    // e >= 0 and -e >= 0  =>  equality
    { Lin m = scale(e, -1); bool isEq = false; for (auto & f : s.facts) if (f.t == m.t && f.c <= m.c) { isEq = f.c == m.c; if (f.c < m.c) return false; }
      if (isEq) { for (auto & t : e.t) if (t.first.size() == 1 && (t.second == 1 || t.second == -1)) {
            int v = t.first[0]; bool elsewhere = false; for (auto & o : e.t) if (&o != &t) for (int x : o.first) if (x == v) elsewhere = true;
            if (elsewhere || keepSyms.count(v)) continue;
            Lin rest = e - scale(Lin::sym(v), t.second); substitute(s, v, t.second == 1 ? scale(rest, -1) : rest); break; } } }
    return true;
}
bool Engine::assumeEQ(State & s, Lin e)
{
    if (e.isConst()) return e.c == 0;
    // gcd test
    { i64 g = 0; for (auto & m : e.t) g = std::gcd(g, m.second < 0 ? -m.second : m.second); if (g > 1) { if (e.c % g != 0) return false; for (auto & m : e.t) m.second /= g; e.c /= g; } }
    if (refute(s.facts, e) || refute(s.facts, scale(e, -1))) return false;
    int best = -1; i64 bk = 0;
    for (int pass = 0; pass < 2 && best < 0; ++pass)
        for (auto & t : e.t) if (t.first.size() == 1 && (t.second == 1 || t.second == -1)) {
            int v = t.first[0]; if (pass == 0 && keepSyms.count(v)) continue; if (pass == 1 && keepSyms.count(v)) continue;
            bool elsewhere = false; for (auto & o : e.t) if (&o != &t) for (int x : o.first) if (x == v) elsewhere = true;
            if (!elsewhere) { best = v; bk = t.second; }
        }
    if (best >= 0) {
        Lin rest = e - scale(Lin::sym(best), bk); Lin by = bk == 1 ? scale(rest, -1) : rest;
        // keep the static bounds of the eliminated symbol
        auto sb = SY.v[best];
        substitute(s, best, by);
        if (sb.hasLo) { Lin l = by; l.c -= sb.lo; if (!assumeGE(s, l)) return false; }
        if (sb.hasHi) { Lin l = scale(by, -1); l.c += sb.hi; if (!assumeGE(s, l)) return false; }
        return true;
    }
    return assumeGE(s, e) && assumeGE(s, scale(e, -1));
}
static void substVal(Val & v, int sym, Lin const & by)
{
    if (v.k == V_INT || v.k == V_PTR || v.k == V_BOOL) v.e = subst(v.e, sym, by);
    if (v.k == V_WORD && (v.w.tt || v.w.hot)) v.w.idx = subst(v.w.idx, sym, by);
    for (auto & a : v.agg) substVal(a, sym, by);
}
void Engine::substitute(State & s, int sym, Lin const & by)
{
    for (auto & p : s.regs) substVal(p.second, sym, by);
    std::vector<Lin> nf;
    for (auto & f : s.facts) { Lin g = subst(f, sym, by); if (g.isConst()) { if (g.c < 0) s.dead = true; continue; } nf.push_back(g); }
    std::sort(nf.begin(), nf.end()); nf.erase(std::unique(nf.begin(), nf.end()), nf.end());
    s.facts = nf;
    for (auto & p : s.obj) substVal(p.second, sym, by);
    for (auto & p : s.cell) substVal(p.second, sym, by);
    decltype(s.divmod) nd;
    for (auto & p : s.divmod) nd[{subst(p.first.first, sym, by), p.first.second}] = {subst(p.second.first, sym, by), subst(p.second.second, sym, by)};
    s.divmod = nd;
    for (auto & p : s.memo) { p.first.second = subst(p.first.second, sym, by); substVal(p.second, sym, by); }
    for (auto & p : s.neq) { p.second = subst(p.second, sym, by); if (p.second.isConst() && p.second.c == 0) s.dead = true; }
}

// e = 64*A + R with -63 <= R <= 63 : then e == 0 iff A == 0 and R == 0
bool Engine::split64(State & s, Lin const & e, Lin & A, Lin & R)
{
    A = Lin(); R = Lin(); for (auto & m : e.t) if (m.second % 64 == 0) A.t.push_back({m.first, m.second / 64}); else R.t.push_back(m);
    if (A.t.empty() || isNoise(e)) return false;
    i64 base = e.c / 64; for (i64 o : {0, -1, 1}) { Lin r = R; r.c = e.c - 64 * (base + o); if (fits(s, r, -63, 63)) { R = r; A.c = base + o; return true; } }
    return false;
}
// index i = 64*w + l differs from the tracked position because w or l differs
void Engine::noteElem(State & s, Lin const & l, bool word)
{
    if (pivot < 0) return;
    for (auto & d : s.divmod) if (d.first.second == 64) {
        // memoised on i modulo multiples of 64: q = (l - Q)/.. must be constant
        Lin diff = word ? l - d.second.first : l - d.second.second; if (word ? false : !(diff.isConst() && diff.c == 0)) continue;
        Lin idx = word ? d.first.first + scale(diff, 64) : d.first.first; Lin e = idx - pivotPos;
        if (word) { if (!diff.isConst()) continue; s.neq["elem"] = e; return; }
        s.neq["elem"] = e; return;
    }
}
int Engine::decide(State & s, Val const & b)
{
    if (b.k != V_BOOL) return -1;
    if (b.op == B_CONST) return b.bc;
    if (b.op == B_GE) { if (entails(s, b.e)) return 1; Lin n = scale(b.e, -1); n.c -= 1; if (entails(s, n)) return 0; return -1; }
    // ==
    int eq = -1;
    if (b.e.isConst()) eq = b.e.c == 0;
    else {
        i64 g = 0; for (auto & m : b.e.t) g = std::gcd(g, m.second < 0 ? -m.second : m.second);
        Lin p = b.e; p.c -= 1; Lin n = scale(b.e, -1); n.c -= 1;
        Lin A64, R64;
        bool known = false; for (auto & q : s.neq) if (q.second == b.e || q.second == scale(b.e, -1)) known = true;
        if ((g > 1 && b.e.c % g != 0) || known) eq = 0;
        else if (pivot >= 0 && split64(s, b.e, A64, R64)) { int x = decide(s, Val::Cond(B_EQ, A64)), y = decide(s, Val::Cond(B_EQ, R64)); eq = x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1; }
        else { bool ge = entails(s, b.e), le = entails(s, scale(b.e, -1)); if (ge && le) eq = 1; else if (ge && entails(s, p)) eq = 0; else if (le && entails(s, n)) eq = 0; else if (entails(s, p) || entails(s, n)) eq = 0; }
        if (eq < 0 && pivot >= 0) for (auto & q : s.neq) if (q.first == "elem") { if (entailsEq(s, b.e - q.second)) { eq = 0; break; } }
    }
    if (eq < 0) return -1;
    return b.op == B_EQ ? eq : !eq;
}

static void refineWord(State & s, Val const & b, bool val)
{
    // b was produced by an icmp on words; sharpen lower bounds / zero-ness of the compared registers
    if (!b.wreg) return;
    auto get = [&](const Value * r) -> Word * { auto it = s.regs.find(r); if (it == s.regs.end() || it->second.k != V_WORD) return nullptr; return &it->second.w; };
    auto loOf = [&](const Value * r) -> u64 { if (!r) return 0; if (auto C = dyn_cast<ConstantInt>(r)) return C->getZExtValue(); if (Word * w = get(r)) return std::max(w->lo, w->k1); return 0; };
    int p = b.wpred;
    if (!val) p = CmpInst::getInversePredicate((CmpInst::Predicate)p);
    auto raise = [&](const Value * r, u64 lo) { if (Word * w = get(r)) w->lo = std::max(w->lo, lo); };
    auto zero = [&](const Value * r) { if (Word * w = get(r)) { w->k0 = ~0ull; w->k1 = 0; w->lo = 0; w->tt = false; } };
    const Value * A = b.wreg, * B = b.wreg2;
    auto isZero = [&](const Value * r) { if (auto C = dyn_cast_or_null<ConstantInt>(r)) return C->isZero(); if (Word * w = r ? get(r) : nullptr) return w->k0 == ~0ull; return false; };
    switch (p) {
    case CmpInst::ICMP_EQ: if (isZero(B)) zero(A); else if (isZero(A)) zero(B); else { raise(A, loOf(B)); raise(B, loOf(A)); } break;
    case CmpInst::ICMP_NE: if (isZero(B)) raise(A, 1); else if (isZero(A)) raise(B, 1); break;
    case CmpInst::ICMP_UGT: raise(A, loOf(B) + (loOf(B) != ~0ull)); if (isZero(B)) raise(A, 1); break;
    case CmpInst::ICMP_UGE: raise(A, loOf(B)); break;
    case CmpInst::ICMP_ULT: raise(B, loOf(A) + (loOf(A) != ~0ull)); break;
    case CmpInst::ICMP_ULE: raise(B, loOf(A)); if (isZero(B)) zero(A); break;
    default: break;
    }
}

void Engine::assume(State const & s0, Val const & b, bool val, std::vector<State> & out)
{
    if (b.k != V_BOOL) { out.push_back(s0); return; }
    if (b.op == B_CONST) { if (b.bc == val) out.push_back(s0); return; }
    if (b.wreg) { State s = s0; refineWord(s, b, val); out.push_back(std::move(s)); return; }
    if (isNoise(b.e) ) {
        State s = s0; bool ok = true; int ns; (void)ns;
        if (b.op == B_GE) { Lin n = scale(b.e, -1); n.c -= 1; ok = assumeGE(s, val ? b.e : n); }
        else if ((b.op == B_EQ) == val) ok = assumeEQ(s, b.e);
        else if (b.e.t.size() == 1) { // disequality of a bounded noise symbol
            Lin p = b.e; p.c -= 1; Lin n = scale(b.e, -1); n.c -= 1;
            State a = s0, c = s0; bool oa = assumeGE(a, p), oc = assumeGE(c, n);
            if (oa && !oc) s = a; else if (oc && !oa) s = c; else ok = oa || oc;
        }
        if (ok && !s.dead) out.push_back(std::move(s));
        return;
    }
    if (b.op == B_GE) {
        State s = s0; Lin n = scale(b.e, -1); n.c -= 1;
        if (assumeGE(s, val ? b.e : n) && !s.dead) out.push_back(std::move(s));
        return;
    }
    bool wantEq = (b.op == B_EQ) == val;
    { Lin A64, R64; State t = s0; if (pivot >= 0 && split64(t, b.e, A64, R64)) {
        Val ca = Val::Cond(B_EQ, A64), cr = Val::Cond(B_EQ, R64);
        if (wantEq) { if (assumeEQ(t, A64) && !t.dead) { // A64 was substituted away; R64 may mention eliminated symbols only through A64
                State u = s0; bool ok = true; u.memo.push_back({{"@r", R64}, Val::I(R64)}); ok = assumeEQ(u, A64); if (ok && !u.dead) { Lin r2 = u.memo.back().second.e; u.memo.pop_back(); if (assumeEQ(u, r2) && !u.dead) out.push_back(std::move(u)); } } }
        else { assume(s0, cr, false, out); State u = s0; u.memo.push_back({{"@r", A64}, Val::I(A64)}); if (assumeEQ(u, R64) && !u.dead) { Lin a2 = u.memo.back().second.e; u.memo.pop_back(); assume(u, Val::Cond(B_EQ, a2), false, out); } }
        return; } }
    if (wantEq) { State s = s0; if (assumeEQ(s, b.e) && !s.dead) out.push_back(std::move(s)); return; }
    Lin p = b.e; p.c -= 1; Lin n = scale(b.e, -1); n.c -= 1;
    { State s = s0; if (assumeGE(s, p) && !s.dead) out.push_back(std::move(s)); }
    { State s = s0; if (assumeGE(s, n) && !s.dead) out.push_back(std::move(s)); }
}

bool Engine::fits(State & s, Lin const & e, i64 lo, i64 hi) { Lin a = e; a.c -= lo; if (!entails(s, a)) return false; Lin b = scale(e, -1); b.c += hi; return entails(s, b); }

// value of e as an integer of `bits` bits in the signed / unsigned interpretation
static bool rangeOf(unsigned bits, bool sgn, i64 & lo, i64 & hi)
{
    if (sgn) { if (bits >= 64) { lo = INT64_MIN; hi = INT64_MAX; return false; } lo = -(1ll << (bits - 1)); hi = (1ll << (bits - 1)) - 1; return true; }
    lo = 0; if (bits >= 63) { hi = INT64_MAX; return bits == 63; } hi = (1ll << bits) - 1; return true;
}
static i64 wrapTo(i64 v, unsigned bits, bool sgn)
{
    if (bits >= 64) return v;
    u64 m = (1ull << bits) - 1; u64 u = (u64)v & m; if (sgn && (u >> (bits - 1))) return (i64)(u | ~m); return (i64)u;
}
Lin Engine::lin(State & s, Val const & v, unsigned bits, bool sgn)
{
    if (v.k == V_BOOL) { int d = decide(s, v); if (d >= 0) return Lin(sgn && bits == 1 ? -d : d); return Lin::sym(SY.fresh("?b", 0, 1, true)); }
    i64 lo, hi; rangeOf(bits, sgn, lo, hi);
    if (v.k == V_WORD) {
        Word const & w = v.w; u64 unk = ~(w.k0 | w.k1);
        if (unk == 0 && !(w.k1 >> 63)) return Lin((i64)w.k1);
        u64 mx = w.k1 | unk; int s2 = SY.fresh("?w", true); auto & si = SY.v[s2]; si.hasLo = true; si.lo = (i64)(std::max(w.k1, w.lo) >> 63 ? 0 : std::max(w.k1, w.lo));
        if (!(mx >> 63)) { si.hasHi = true; si.hi = (i64)mx; } else if (sgn) si.hasLo = false;
        return Lin::sym(s2);
    }
    if (v.k != V_INT) { int x = SY.fresh("?u", true); if (bits < 63) { SY.v[x].hasLo = SY.v[x].hasHi = true; SY.v[x].lo = lo; SY.v[x].hi = hi; } else if (!sgn) { SY.v[x].hasLo = true; } return Lin::sym(x); }
    if (v.e.isConst()) { i64 c = wrapTo(v.e.c, bits, sgn); if (bits == 64 && !sgn && c < 0) { int x = SY.fresh("?big", true); SY.v[x].hasLo = true; SY.v[x].lo = INT64_MAX / 2; return Lin::sym(x); } return Lin(c); }
    // products of sizes (row * stride) are assumed representable: signed overflow there is undefined behaviour
    for (auto & m : v.e.t) if (m.first.size() > 1) return v.e;
    auto ok = [&](Lin const & e) {
        if (sgn && bits >= 64) return true;
        if (!sgn && bits >= 63) { return entails(s, e); }
        return fits(s, e, lo, hi);
    };
    if (ok(v.e)) return v.e;
    if (bits < 63) { Lin a = v.e; a.c += (1ll << bits); if (ok(a)) return a; a.c -= (2ll << bits); if (ok(a)) return a; }
    bool nz = isNoise(v.e);
    int x = SY.fresh("?r", true); (void)nz; if (bits < 63) { SY.v[x].hasLo = SY.v[x].hasHi = true; SY.v[x].lo = lo; SY.v[x].hi = hi; } else if (!sgn) { SY.v[x].hasLo = true; SY.v[x].lo = 0; }
    return Lin::sym(x);
}

// e = d*q + r, 0 <= r < d ; e known >= 0
std::pair<Lin, Lin> Engine::divmod(State & s, Lin const & e, i64 d)
{
    Lin q, rest(e.c);
    for (auto & m : e.t) { i64 k = m.second; i64 qk = k / d; if (k % d == 0) q.t.push_back({m.first, qk}); else rest.t.push_back(m); }
    if (rest.isConst()) { i64 qc = rest.c / d, rc = rest.c % d; if (rc < 0) { rc += d; --qc; } q.c = qc; return {q, Lin(rc)}; }
    i64 base = rest.c >= 0 ? rest.c / d : -((-rest.c + d - 1) / d);
    for (i64 o : {0, -1, 1, -2, 2}) { Lin r = rest; r.c -= (base + o) * d; if (fits(s, r, 0, d - 1)) { Lin qq = q; qq.c += base + o; return {qq, r}; } }
    rest.c -= base * d;
    // memo on the non-divisible part
    auto it = s.divmod.find({rest, d});
    Lin Q, R;
    if (it != s.divmod.end()) { Q = it->second.first; R = it->second.second; }
    else {
        bool nz = isNoise(rest);
        int qs = SY.fresh("div" + std::to_string(d) + "(" + rest.str() + ")", nz), rs = SY.fresh("mod" + std::to_string(d) + "(" + rest.str() + ")", 0, d - 1, nz);
        bool neg = !entails(s, rest); if (!neg) { SY.v[qs].hasLo = true; SY.v[qs].lo = 0; }
        Q = Lin::sym(qs); R = Lin::sym(rs);
        s.divmod[{rest, d}] = {Q, R};
        if (!nz) {
            // replace a unit-coefficient symbol of `rest` when possible, else relate by facts
            Lin eqn = rest - scale(Q, d) - R;
            int cand = -1; i64 ck = 0; for (auto & m : rest.t) if (m.first.size() == 1 && (m.second == 1 || m.second == -1) && !keepSyms.count(m.first[0])) { cand = m.first[0]; ck = m.second; }
            (void)cand; (void)ck;
            s.facts.push_back(eqn); s.facts.push_back(scale(eqn, -1));
        }
    }
    Lin qq = q + Q; qq.c += base;
    return {qq, R};
}

std::string Engine::loc(Instruction * I)
{
    std::string fn = shortName(demangleName(*I->getFunction()));
    if (auto & D = I->getDebugLoc()) {
        auto * L = D.get(); std::string o; 
        o = L->getFilename().str(); auto p = o.rfind('/'); if (p != std::string::npos) o = o.substr(p + 1);
        o += ":" + std::to_string(L->getLine());
        if (auto * SP = L->getScope()->getSubprogram()) o += " (" + shortName(SP->getName().str()) + ")";
        return o;
    }
    return fn;
}
void Engine::viol(std::string kind, Instruction * I, std::string msg) { findings.insert({kind, I ? loc(I) : "", msg}); }
void Engine::undec(std::string kind, Instruction * I, std::string msg) { undecided.insert({kind, I ? loc(I) : "", msg}); }

// ================================================================ evaluation
static Word wconst(u64 c) { Word w; w.k1 = c; w.k0 = ~c; w.lo = c; return w; }
static bool isBlockTy(Type * T) { return T->isIntegerTy(64); }

Val Engine::zero(Type * T)
{
    if (T->isIntegerTy(1)) return Val::B(false);
    if (T->isIntegerTy()) return Val::I(Lin(0));
    if (T->isPointerTy()) return Val::P(-1, Lin(0));
    if (T->isFloatingPointTy()) return Val::F();
    return Val::U();
}
Val Engine::evalConst(Constant * c)
{
    if (auto * CI = dyn_cast<ConstantInt>(c)) { if (CI->getBitWidth() == 1) return Val::B(CI->isOne()); if (CI->getBitWidth() > 64) return Val::U(); return Val::I(Lin(CI->getSExtValue())); }
    if (isa<ConstantPointerNull>(c)) return Val::P(-1, Lin(0));
    if (isa<ConstantFP>(c)) return Val::F();
    if (auto * F = dyn_cast<Function>(c)) { Val v; v.k = V_FN; v.fn = F; return v; }
    if (isa<ConstantAggregateZero>(c) && c->getType()->isIntegerTy()) return zero(c->getType());
    return Val::U();
}
Val Engine::eval(State & s, Value * v)
{
    if (auto * C = dyn_cast<Constant>(v)) return evalConst(C);
    auto it = s.regs.find(v); if (it != s.regs.end()) return it->second;
    return Val::U();
}

static Word toWord(Engine & E, State & s, Val const & v)
{
    if (v.k == V_WORD) return v.w;
    if (v.k == V_INT) {
        if (v.e.isConst()) return wconst((u64)v.e.c);
        Word w; for (int b : {1, 2, 3, 4, 5, 6, 8, 16, 32}) if (E.fits(s, v.e, 0, (1ll << b) - 1)) { w.k0 = ~((1ull << b) - 1); break; }
        Lin p = v.e; p.c -= 1; if (w.k0 && E.entails(s, p)) w.lo = 1;
        return w;
    }
    if (v.k == V_BOOL) { int d = E.decide(s, v); if (d >= 0) return wconst(d); Word w; w.k0 = ~1ull; return w; }
    return Word();
}
static Val fromWord(Word const & w) { return Val::W(w); }

Val Engine::icmp(State & s, ICmpInst * C, Val const & a, Val const & b)
{
    auto P = C->getPredicate();
    auto unknown = [&]() { return Val::Cond(B_NE, Lin::sym(SY.fresh("?c", 0, 1, true))); };
    if (a.k == V_PTR && b.k == V_PTR) {
        if (a.region != b.region) { if (P == CmpInst::ICMP_EQ) return Val::B(false); if (P == CmpInst::ICMP_NE) return Val::B(true); return unknown(); }
        Lin d = a.e - b.e;
        switch (P) {
        case CmpInst::ICMP_EQ: return Val::Cond(B_EQ, d); case CmpInst::ICMP_NE: return Val::Cond(B_NE, d);
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return Val::Cond(B_GE, d);
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: d.c -= 1; return Val::Cond(B_GE, d);
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return Val::Cond(B_GE, scale(d, -1));
        default: { Lin n = scale(d, -1); n.c -= 1; return Val::Cond(B_GE, n); }
        }
    }
    if (a.k == V_PTR || b.k == V_PTR || a.k == V_FN || b.k == V_FN) return unknown();
    if (C->getOperand(0)->getType()->isIntegerTy(1)) {
        int x = decide(s, a), y = decide(s, b);
        if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
            if (y >= 0 || x >= 0) { Val u = y >= 0 ? a : b; int k = y >= 0 ? y : x; bool inv = (k == 0) != (P == CmpInst::ICMP_NE);
                if (u.op == B_CONST) return Val::B(u.bc != inv); if (u.k != V_BOOL) return unknown(); if (!inv) return u;
                if (u.op == B_GE) { u.e = scale(u.e, -1); u.e.c -= 1; if (u.wreg) u.wpred = CmpInst::getInversePredicate((CmpInst::Predicate)u.wpred); return u; }
                u.op = u.op == B_EQ ? B_NE : B_EQ; if (u.wreg) u.wpred = CmpInst::getInversePredicate((CmpInst::Predicate)u.wpred); return u; }
        }
        return unknown();
    }
    if (a.k == V_WORD || b.k == V_WORD) {
        Word x = toWord(*this, s, a), y = toWord(*this, s, b);
        u64 xmin = std::max(x.lo, x.k1), xmax = ~x.k0, ymin = std::max(y.lo, y.k1), ymax = ~y.k0;
        auto ttZero = [&](Word const & w) { return w.tt && (w.tbl & ttAllowed) == 0; };
        if (ttZero(x)) xmax = 0, xmin = 0; if (ttZero(y)) ymax = 0, ymin = 0;
        int r = -1;
        switch (P) {
        case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: if (xmin == xmax && ymin == ymax) r = xmin == ymin; else if (xmin > ymax || ymin > xmax || (x.k1 & y.k0) || (x.k0 & y.k1)) r = 0; if (r >= 0 && P == CmpInst::ICMP_NE) r = !r; break;
        case CmpInst::ICMP_UGT: if (xmin > ymax) r = 1; else if (xmax <= ymin) r = 0; break;
        case CmpInst::ICMP_UGE: if (xmin >= ymax) r = 1; else if (xmax < ymin) r = 0; break;
        case CmpInst::ICMP_ULT: if (xmax < ymin) r = 1; else if (xmin >= ymax) r = 0; break;
        case CmpInst::ICMP_ULE: if (xmax <= ymin) r = 1; else if (xmin > ymax) r = 0; break;
        default: break;
        }
        if (r >= 0) return Val::B(r);
        Val u = unknown(); u.wreg = C->getOperand(0); u.wreg2 = C->getOperand(1); u.wpred = P; return u;
    }
    unsigned bits = C->getOperand(0)->getType()->getIntegerBitWidth();
    if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
        Lin x = lin(s, a, bits, true), y = lin(s, b, bits, true);
        auto fr = [&](Lin const & l) { int q; return l.isSym(q) && SY.v[q].name == "?r"; };
        if (fr(x) || fr(y)) { x = lin(s, a, bits, false); y = lin(s, b, bits, false); }
        Lin d = x - y;
        Val u = Val::Cond(P == CmpInst::ICMP_EQ ? B_EQ : B_NE, d); if (d.isConst()) return Val::B((d.c == 0) == (P == CmpInst::ICMP_EQ));
        return u;
    }
    bool sg = C->isSigned();
    Lin x = lin(s, a, bits, sg), y = lin(s, b, bits, sg), d;
    switch (P) {
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: d = x - y; d.c -= 1; break;
    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: d = x - y; break;
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: d = y - x; d.c -= 1; break;
    default: d = y - x; break;
    }
    if (d.isConst()) return Val::B(d.c >= 0);
    return Val::Cond(B_GE, d);
}

bool Engine::forkOn(State & s, Val const & b, std::vector<State> & again)
{
    std::vector<State> o; assume(s, b, true, o); assume(s, b, false, o);
    for (auto & x : o) again.push_back(std::move(x));
    return true;
}

// decide d == 0 for a client call model; returns true after pushing the alternatives
bool Engine::clientFork(State & s, Lin const & d, std::string const & tag)
{
    int c = decide(s, Val::Cond(B_EQ, d));
    if (c >= 0) { if (c == 0) s.neq[tag] = d; else s.neq.erase(tag); return false; }
    if (isNoise(d) || !forks) return false;
    std::vector<State> o; Val cnd = Val::Cond(B_EQ, d); assume(s, cnd, true, o); assume(s, cnd, false, o);
    for (auto & q : o) forks->push_back(std::move(q));
    return true;
}

static bool relevant(Engine & E, Val const & b) { return b.k == V_BOOL && b.op != B_CONST && !b.wreg && !E.isNoise(b.e); }

Val Engine::castOp(State & s, CastInst * C, Val const & a)
{
    Type * D = C->getDestTy(), * S = C->getSrcTy();
    switch (C->getOpcode()) {
    case Instruction::Trunc: {
        if (D->isIntegerTy(1)) {
            if (a.k == V_WORD) { if (a.w.k1 & 1) return Val::B(true); if (a.w.k0 & 1) return Val::B(false); return Val::Cond(B_NE, Lin::sym(SY.fresh("?t", 0, 1, true))); }
            unsigned sb = S->getIntegerBitWidth(); Lin e = lin(s, a, sb, false);
            if (e.isConst()) return Val::B(e.c & 1); if (fits(s, e, 0, 1)) return Val::Cond(B_NE, e);
            return Val::Cond(B_NE, Lin::sym(SY.fresh("?t", 0, 1, true)));
        }
        if (a.k == V_WORD) { unsigned db = D->getIntegerBitWidth(); u64 m = db >= 64 ? ~0ull : (1ull << db) - 1; Word w = a.w; w.k0 |= ~m; w.k1 &= m; w.tt = false; if (a.w.lo > m) w.lo = 0; w.lo = w.k1; Val v = Val::W(w); return Val::I(lin(s, v, 64, false)); }
        if (a.k == V_INT) return a; // congruence modulo the smaller width
        return Val::I(lin(s, a, D->getIntegerBitWidth(), false));
    }
    case Instruction::ZExt: case Instruction::SExt: {
        bool sg = C->getOpcode() == Instruction::SExt;
        if (S->isIntegerTy(1)) {
            int d = decide(s, a); if (d >= 0) return Val::I(Lin(sg ? -d : d));
            if (a.op == B_NE && a.k == V_BOOL && fits(s, a.e, 0, 1)) return Val::I(sg ? scale(a.e, -1) : a.e);
            int x = SY.fresh("?z", sg ? -1 : 0, sg ? 0 : 1, true); return Val::I(Lin::sym(x));
        }
        if (a.k == V_WORD) return a;
        return Val::I(lin(s, a, S->getIntegerBitWidth(), sg));
    }
    case Instruction::PtrToInt: {
        if (a.k == V_PTR && a.region >= 0) { auto & base = ptrBase; auto it = base.find(a.region); if (it == base.end()) it = base.emplace(a.region, SY.fresh("&" + regions[a.region].name, 4096, 1ll << 46)).first; return Val::I(Lin::sym(it->second) + a.e); }
        if (a.k == V_PTR) return Val::I(Lin(0));
        return Val::I(lin(s, Val::U(), 64, false));
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::IntToPtr: return Val::U();
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: return Val::F();
    case Instruction::FPToSI: case Instruction::FPToUI: { bool sg = C->getOpcode() == Instruction::FPToSI; return Val::I(lin(s, Val::U(), D->getIntegerBitWidth(), sg)); }
    default: return Val::U();
    }
}

static unsigned char ttConst(bool one) { return one ? 0xff : 0; }

// splits on lane == pivot when that is undecided
bool Engine::forkLane(State & s, Lin const & amt, std::vector<State> & again)
{
    if (pivot < 0 || amt.isConst() || isNoise(amt)) return false;
    Lin d = amt - Lin(pivot), up = d, dn = scale(d, -1); up.c -= 1; dn.c -= 1;
    if (decide(s, Val::Cond(B_EQ, d)) >= 0) return false;
    { State t = s; if (assumeGE(t, dn) && !t.dead) { t.neq["lane"] = d; noteElem(t, amt, false); again.push_back(std::move(t)); } }
    { State t = s; if (assumeGE(t, up) && !t.dead) { t.neq["lane"] = d; noteElem(t, amt, false); again.push_back(std::move(t)); } }
    { State t = s; t.neq.erase("lane"); if (assumeEQ(t, d) && !t.dead) again.push_back(std::move(t)); }
    return true;
}
Val Engine::binop(State & s, BinaryOperator * B, Val a, Val b, std::vector<State> & again, bool & forked)
{
    Type * T = B->getType(); auto op = B->getOpcode();
    if (!T->isIntegerTy()) return Val::F();
    unsigned bits = T->getIntegerBitWidth();
    if (bits == 1) {
        // boolean connectives: fork on relevant undecided operands
        for (Val * v : {&a, &b}) { int d = decide(s, *v); if (d >= 0) *v = Val::B(d); }
        auto shortc = [&](bool z) { return (a.isBoolConst() && a.bc == z) || (b.isBoolConst() && b.bc == z); };
        if (op == Instruction::And && shortc(false)) return Val::B(false);
        if (op == Instruction::Or && shortc(true)) return Val::B(true);
        if (op == Instruction::And) { if (a.isBoolConst()) return b; if (b.isBoolConst()) return a; }
        if (op == Instruction::Or) { if (a.isBoolConst()) return b; if (b.isBoolConst()) return a; }
        if (op == Instruction::Xor) {
            if (a.isBoolConst() && b.isBoolConst()) return Val::B(a.bc != b.bc);
            Val u = a.isBoolConst() ? b : a; if (a.isBoolConst() || b.isBoolConst()) { bool inv = a.isBoolConst() ? a.bc : b.bc; if (!inv) return u; if (u.k == V_BOOL) { if (u.wreg) u.wpred = CmpInst::getInversePredicate((CmpInst::Predicate)u.wpred); if (u.op == B_GE) { u.e = scale(u.e, -1); u.e.c -= 1; } else u.op = u.op == B_EQ ? B_NE : B_EQ; return u; } }
        }
        for (Val * v : {&a, &b}) if (relevant(*this, *v)) { forked = true; forkOn(s, *v, again); return Val::U(); }
        return Val::Cond(B_NE, Lin::sym(SY.fresh("?b", 0, 1, true)));
    }
    bool bitop = op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr;
    if ((a.k == V_WORD || b.k == V_WORD) && !bitop) {
        // arithmetic on a word: only meaningful when it is a small known value
        a = Val::I(lin(s, a, 64, false)); b = Val::I(lin(s, b, 64, false));
    }
    if (bitop && isBlockTy(T) && (a.k == V_WORD || b.k == V_WORD)) {
        Word x = toWord(*this, s, a), y = toWord(*this, s, b), r;
        if (pivot >= 0 && op != Instruction::Shl && op != Instruction::LShr) for (int k = 0; k < 2; ++k) {
            Word & h = k ? y : x, & o = k ? x : y; u64 pb = 1ull << pivot; if (!h.hot || ((h.k0 | h.k1) & pb)) continue;
            int d = decide(s, Val::Cond(B_EQ, h.idx - Lin(pivot)));
            if (d == 1) { h.k1 = pb; h.k0 = ~pb; h.lo = pb; } else if (d == 0) h.k0 |= pb;
            else if (((o.k0 | o.k1) & pb) && forkLane(s, h.idx, again)) { forked = true; return Val::U(); }
        }
        auto lanes = [&](auto f) { // tt combination
            auto tb = [&](Val const & v, Word const & w, unsigned char & t, Lin & idx, bool & has) { if (w.tt) { t = w.tbl; idx = w.idx; has = true; return true; } if (v.k == V_INT && v.e.isConst() && (v.e.c == 0 || v.e.c == -1)) { t = ttConst(v.e.c == -1); return true; } if (v.k == V_WORD && w.k0 == ~0ull) { t = 0; return true; } if (v.k == V_WORD && w.k1 == ~0ull) { t = 0xff; return true; } return false; };
            unsigned char t1 = 0, t2 = 0; Lin i1, i2; bool h1 = false, h2 = false;
            if (tb(a, x, t1, i1, h1) && tb(b, y, t2, i2, h2) && (h1 || h2) && (!(h1 && h2) || i1 == i2)) { r.tt = true; r.tbl = f(t1, t2); r.idx = h1 ? i1 : i2; }
        };
        switch (op) {
        case Instruction::And: r.k1 = x.k1 & y.k1; r.k0 = x.k0 | y.k0; lanes([](unsigned char p, unsigned char q) { return (unsigned char)(p & q); }); break;
        case Instruction::Or: r.k1 = x.k1 | y.k1; r.k0 = x.k0 & y.k0; r.lo = std::max(x.lo, y.lo); lanes([](unsigned char p, unsigned char q) { return (unsigned char)(p | q); }); break;
        case Instruction::Xor: r.k1 = (x.k1 & y.k0) | (x.k0 & y.k1); r.k0 = (x.k0 & y.k0) | (x.k1 & y.k1); lanes([](unsigned char p, unsigned char q) { return (unsigned char)(p ^ q); }); break;
        default: {
            // shifts by a known amount
            Val sh = b; Lin amt = lin(s, sh, 64, false);
            // the lane that is followed is kept apart from the lanes below and above it
            if (op == Instruction::LShr && a.k == V_WORD && pivot >= 0 && ((x.k0 ^ x.k1) >> pivot & 1) && forkLane(s, amt, again)) { forked = true; return Val::U(); }
            if (amt.isConst() && amt.c >= 0 && amt.c < 64) {
                unsigned n = (unsigned)amt.c; u64 m = n ? (op == Instruction::Shl ? (1ull << n) - 1 : ~(~0ull >> n)) : 0;
                if (op == Instruction::Shl) { r.k1 = x.k1 << n; r.k0 = (x.k0 << n) | m; } else { r.k1 = x.k1 >> n; r.k0 = (x.k0 >> n) | m; }
                if (n == 0) r = x;
            } else if (x.k0 == ~0ull) r = x;
            else if (op == Instruction::Shl && (x.k0 | 1) == ~0ull) {
                // one-hot (or zero) at an unknown lane: lanes that the amount provably differs from are 0
                for (int q = pivot >= 0 ? pivot : 0; q < (pivot >= 0 ? pivot + 1 : 64); ++q) { Lin d = amt - Lin(q); Val c = Val::Cond(B_EQ, d); if (decide(s, c) == 0) r.k0 |= 1ull << q; }
                if (x.k1 & 1) r.lo = 1;
            }
            break; }
        }
        r.lo = std::max(r.lo, r.k1);
        return fromWord(r);
    }
    if (isBlockTy(T) && op == Instruction::Shl && a.k == V_INT && fits(s, a.e, 0, 1)) {
        Lin amt = lin(s, b, 64, false);
        if (!amt.isConst() || amt.c > 30 || !a.e.isConst()) {
            if (amt.isConst()) { Word x = toWord(*this, s, a), r; unsigned n = amt.c & 63; r.k1 = x.k1 << n; r.k0 = (x.k0 << n) | ((1ull << n) - 1); r.lo = r.k1; return fromWord(r); }
            Word r; if (a.e.isConst() && a.e.c == 0) return fromWord(wconst(0));
            for (int q = pivot >= 0 ? pivot : 0; q < (pivot >= 0 ? pivot + 1 : 64); ++q) { Val c = Val::Cond(B_EQ, amt - Lin(q)); if (decide(s, c) == 0) r.k0 |= 1ull << q; }
            if (a.e.isConst()) r.lo = 1;
            if (a.e.isConst() && a.e.c == 1 && !isNoise(amt)) { r.hot = true; r.idx = amt; }
            return fromWord(r);
        }
        return Val::I(scale(a.e, 1ll << amt.c));
    }
    if (a.k == V_PTR || b.k == V_PTR) return Val::U();
    auto A = [&](bool sg) { return lin(s, a, bits, sg); };
    auto Bv = [&](bool sg) { return lin(s, b, bits, sg); };
    Lin ra = a.k == V_INT ? a.e : A(true), rb = b.k == V_INT ? b.e : Bv(true);
    bool nsw = false, nuw = false; if (auto * O = dyn_cast<OverflowingBinaryOperator>(B)) { nsw = O->hasNoSignedWrap(); nuw = O->hasNoUnsignedWrap(); }
    auto noiseR = [&](i64 lo, i64 hi) { return Val::I(Lin::sym(SY.fresh("?n", lo, hi, true))); };
    switch (op) {
    case Instruction::Add: return Val::I((nsw ? A(true) : nuw ? A(false) : ra) + (nsw ? Bv(true) : nuw ? Bv(false) : rb));
    case Instruction::Sub: return Val::I((nsw ? A(true) : nuw ? A(false) : ra) - (nsw ? Bv(true) : nuw ? Bv(false) : rb));
    case Instruction::Mul: { Lin x = nsw ? A(true) : nuw ? A(false) : ra, y = nsw ? Bv(true) : nuw ? Bv(false) : rb; return Val::I(mul(x, y)); }
    case Instruction::Shl: { Lin y = Bv(false); if (y.isConst() && y.c >= 0 && y.c < 62) return Val::I(scale(nsw ? A(true) : ra, 1ll << y.c)); return Val::I(lin(s, Val::U(), bits, false)); }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::LShr: case Instruction::AShr: {
        bool sg = op == Instruction::SDiv || op == Instruction::AShr;
        Lin y = Bv(sg); i64 d = 0;
        if (y.isConst()) { d = (op == Instruction::LShr || op == Instruction::AShr) ? (y.c >= 0 && y.c < 62 ? 1ll << y.c : 0) : y.c; }
        Lin x = A(sg);
        if (d >= 1 && (op == Instruction::AShr || entails(s, x) || (op == Instruction::SDiv && B->isExact()))) return Val::I(divmod(s, x, d).first);
        if (d >= 1 && x.isConst()) return Val::I(Lin(x.c / d));
        Val r = Val::I(lin(s, Val::U(), bits, sg));
        if (!sg && entails(s, x)) { int q; if (r.e.isSym(q)) { SY.v[q].noise = isNoise(x) || isNoise(y); if (!SY.v[q].noise) s.facts.push_back(x - r.e); } }
        return r; }
    case Instruction::URem: case Instruction::SRem: {
        bool sg = op == Instruction::SRem; Lin x = A(sg), y = Bv(sg);
        if (y.isConst() && y.c > 0 && entails(s, x)) { if (isNoise(x) ) { return Val::I(Lin::sym(SY.fresh("?m", 0, y.c - 1, false))); } return Val::I(divmod(s, x, y.c).second); }
        if (!sg || entails(s, x)) {
            int r = SY.freshLo("rem", 0); Lin R = Lin::sym(r); Lin up = y - R; up.c -= 1; if (isNoise(y)) SY.v[r].noise = true; else s.facts.push_back(up);
            if (bits < 63) { SY.v[r].hasHi = true; SY.v[r].hi = (1ll << bits) - 1; }
            return Val::I(R);
        }
        return Val::I(lin(s, Val::U(), bits, sg)); }
    case Instruction::And: {
        for (int k = 0; k < 2; ++k, std::swap(ra, rb)) {
            if (rb.isConst()) {
                i64 m = rb.c; if (bits < 64) m = wrapTo(m, bits, true);
                if (m == 0) return Val::I(Lin(0)); if (m == -1) return Val::I(ra);
                if (ra.isConst()) return Val::I(Lin(ra.c & m));
                Lin x = ra; 
                if (m > 0 && ((m + 1) & m) == 0) { if (fits(s, x, 0, m)) return Val::I(x); if (!isNoise(x)) return Val::I(divmod(s, x, m + 1).second); return Val::I(Lin::sym(SY.fresh("?m", 0, m, false))); }
                i64 inv = ~m; if (inv > 0 && ((inv + 1) & inv) == 0) { auto dm = divmod(s, x, inv + 1); return Val::I(x - dm.second); }
                if (m > 0) return noiseR(0, m);
            }
        }
        if (ra.isConst() && rb.isConst()) return Val::I(Lin(ra.c & rb.c));
        if (fits(s, ra, 0, 1)) return noiseR(0, 1); if (fits(s, rb, 0, 1)) return noiseR(0, 1);
        if (entails(s, ra) && entails(s, rb)) { Val r = Val::I(lin(s, Val::U(), bits, false)); return r; }
        return Val::I(lin(s, Val::U(), bits, true)); }
    case Instruction::Or: {
        if (ra.isConst() && rb.isConst()) return Val::I(Lin(ra.c | rb.c));
        for (int k = 0; k < 2; ++k, std::swap(ra, rb)) if (rb.isConst()) { if (rb.c == 0) return Val::I(ra); if (rb.c == -1) return Val::I(Lin(-1)); if (rb.c == 1 && fits(s, ra, 0, 1)) return Val::I(Lin(1)); }
        if (fits(s, ra, 0, 1) && fits(s, rb, 0, 1)) return noiseR(0, 1);
        return Val::I(lin(s, Val::U(), bits, true)); }
    case Instruction::Xor: {
        if (ra.isConst() && rb.isConst()) return Val::I(Lin(ra.c ^ rb.c));
        for (int k = 0; k < 2; ++k, std::swap(ra, rb)) if (rb.isConst()) { if (rb.c == 0) return Val::I(ra); if (rb.c == -1) { Lin n = scale(ra, -1); n.c -= 1; return Val::I(n); } if (rb.c == 1 && fits(s, ra, 0, 1)) { Lin n = scale(ra, -1); n.c += 1; return Val::I(n); } }
        if (fits(s, ra, 0, 1) && fits(s, rb, 0, 1)) return noiseR(0, 1);
        return Val::I(lin(s, Val::U(), bits, true)); }
    default: return Val::I(lin(s, Val::U(), bits, true));
    }
}

// ================================================================ memory
// byte offset -> (row, byte offset within the row)
bool Engine::rowCol(int region, Lin const & off, Lin & row, Lin & col)
{
    Region const & R = regions[region]; row = Lin(); col = Lin();
    for (auto & m : off.t) {
        auto it = std::find(m.first.begin(), m.first.end(), R.strideSym);
        if (it == m.first.end()) { col.t.push_back(m); continue; }
        Mono rest = m.first; rest.erase(rest.begin() + (it - m.first.begin()));
        if (m.second % (i64)R.elem) return false;
        if (rest.empty()) row.c += m.second / (i64)R.elem; else row.t.push_back({rest, m.second / (i64)R.elem});
    }
    col.c = off.c; std::sort(row.t.begin(), row.t.end()); return true;
}
void Engine::accessElem(State & s0, int region, Lin const & off0, unsigned size, Instruction * I, bool store, Val const & v0, std::vector<std::pair<State, Val>> & out)
{
    // work list: states for which "is this the tracked element?" is not yet decided
    std::vector<std::tuple<State, Lin, Val>> wl; wl.emplace_back(s0, off0, v0);
    Region const R = regions[region];
    while (!wl.empty()) {
        auto [s, off, v] = std::move(wl.back()); wl.pop_back();
        // decompose
        Lin row(0), col(0); bool ok = true;
        if (R.kind == R_MAT) ok = rowCol(region, off, row, col); else col = off;
        if (ok) { auto dm = divmod(s, col, R.elem); if (dm.second.isConst() && dm.second.c == 0 && size == R.elem) col = dm.first; else ok = false; }
        if (!ok) {
            if (store) { undec("memory", I, "store to " + R.name + " could not be resolved (offset " + off.str() + ")"); if (R.tracked) s.flags["smashed:" + R.name] = 1; }
            Type * LT = I->getType(); Val rv = store ? Val::U() : LT->isIntegerTy() && !LT->isIntegerTy(1) ? Val::I(lin(s, Val::U(), LT->getIntegerBitWidth(), true)) : Val::U();
            out.emplace_back(std::move(s), rv); continue;
        }
        C->access(*this, s, region, row, col, store, I);
        bool sameRow = false;
        if (R.kind == R_MAT) {
            Lin d = row - R.trow; int c = decide(s, Val::Cond(B_EQ, d));
            if (c < 0 && R.tracked && !isNoise(d)) {
                Val cnd = Val::Cond(B_EQ, d); std::vector<State> o; 
                // remember off/v through substitution by parking them in the state
                State p = s; p.memo.push_back({{"@off", off}, Val::I(off)}); p.memo.push_back({{"@val", Lin(0)}, v});
                assume(p, cnd, true, o); assume(p, cnd, false, o);
                for (auto & q : o) { Val vv = q.memo.back().second; q.memo.pop_back(); Lin oo = q.memo.back().second.e; q.memo.pop_back(); wl.emplace_back(std::move(q), oo, vv); }
                continue;
            }
            sameRow = c == 1;
            if (R.tracked && !isNoise(d)) { if (c == 0) s.neq[R.name + ".row"] = d; else s.neq.erase(R.name + ".row"); }
            if (c != 1) { if (c < 0 && R.tracked && store) { undec("memory", I, "store to " + R.name + " at an unknown row"); }
                if (store) { C->storeOther(*this, s, region, row, col, v, I); out.emplace_back(std::move(s), Val::U()); } else C->loadOther(*this, s, region, row, col, false, I, out); continue; }
        }
        Lin d = col - R.tcol; int c = R.tracked ? decide(s, Val::Cond(B_EQ, d)) : 0;
        if (c < 0 && !isNoise(d)) {
            Val cnd = Val::Cond(B_EQ, d); std::vector<State> o;
            State p = s; p.memo.push_back({{"@off", off}, Val::I(off)}); p.memo.push_back({{"@val", Lin(0)}, v});
            assume(p, cnd, true, o); assume(p, cnd, false, o);
            for (auto & q : o) { Val vv = q.memo.back().second; q.memo.pop_back(); Lin oo = q.memo.back().second.e; q.memo.pop_back(); wl.emplace_back(std::move(q), oo, vv); }
            continue;
        }
        if (R.tracked && !isNoise(d)) { if (c == 0) { s.neq[R.name] = d; if (R.word) noteElem(s, col, true); else if (pivot >= 0 && R.kind == R_MAT) s.neq["elem"] = d; } else { s.neq.erase(R.name); } }
        if (c == 1) { if (store) { if (C->storeTracked(*this, s, region, v, I)) {} out.emplace_back(std::move(s), Val::U()); } else C->loadTracked(*this, s, region, I, out); }
        else {
            if (c < 0 && store && R.tracked) undec("memory", I, "store to " + R.name + " at an unknown position");
            if (store) { C->storeOther(*this, s, region, row, col, v, I); out.emplace_back(std::move(s), Val::U()); } else C->loadOther(*this, s, region, row, col, sameRow, I, out);
        }
    }
}

// ================================================================ instruction execution
void Engine::execInst(State & s, Instruction * I, std::vector<State> & next, std::vector<State> & again)
{
    auto set = [&](Val v) { if (!I->getType()->isVoidTy()) s.regs[I] = std::move(v); next.push_back(std::move(s)); };
    if (auto * B = dyn_cast<BinaryOperator>(I)) {
        bool forked = false; Val v = binop(s, B, eval(s, B->getOperand(0)), eval(s, B->getOperand(1)), again, forked);
        if (forked) return; return set(v);
    }
    if (auto * C = dyn_cast<ICmpInst>(I)) return set(icmp(s, C, eval(s, C->getOperand(0)), eval(s, C->getOperand(1))));
    if (isa<FCmpInst>(I)) return set(Val::Cond(B_NE, Lin::sym(SY.fresh("?f", 0, 1, true))));
    if (isa<UnaryOperator>(I)) return set(Val::F());
    if (auto * C = dyn_cast<CastInst>(I)) {
        Val a = eval(s, C->getOperand(0));
        if ((isa<ZExtInst>(C) || isa<SExtInst>(C)) && C->getSrcTy()->isIntegerTy(1) && relevant(*this, a) && decide(s, a) < 0 && !(a.op == B_NE && fits(s, a.e, 0, 1))) { forkOn(s, a, again); return; }
        return set(castOp(s, C, a));
    }
    if (isa<FreezeInst>(I)) return set(eval(s, I->getOperand(0)));
    if (auto * SI = dyn_cast<SelectInst>(I)) {
        Val c = eval(s, SI->getCondition()), a = eval(s, SI->getTrueValue()), b = eval(s, SI->getFalseValue());
        int d = decide(s, c); if (d >= 0) return set(d ? a : b);
        if (a.same(b)) return set(a);
        if (relevant(*this, c) || (c.k == V_BOOL && c.wreg)) { forkOn(s, c, again); return; }
        // noise condition
        if (SI->getType()->isIntegerTy(1)) {
            // select c, true, b / select c, a, false  (short-circuit connectives)
            if (relevant(*this, a) && decide(s, a) < 0) { forkOn(s, a, again); return; }
            if (relevant(*this, b) && decide(s, b) < 0) { forkOn(s, b, again); return; }
            int da = decide(s, a), db = decide(s, b); if (da >= 0 && da == db) return set(Val::B(da));
            if ((c.k == V_BOOL) && ((a.k == V_BOOL && a.wreg) || (b.k == V_BOOL && b.wreg))) {
                State s2 = s; s.regs[I] = a; s2.regs[I] = b; next.push_back(std::move(s)); next.push_back(std::move(s2)); return; }
            return set(Val::Cond(B_NE, Lin::sym(SY.fresh("?s", 0, 1, true))));
        }
        if (SI->getType()->isIntegerTy() && a.k == V_INT && b.k == V_INT) {
            // two numeric arms under an irrelevant condition: keep both when they are distinct relevant values
            if (a.e.isConst() && b.e.isConst()) { return set(Val::I(Lin::sym(SY.fresh("?s", std::min(a.e.c, b.e.c), std::max(a.e.c, b.e.c), true)))); }
            if (isNoise(a.e) || isNoise(b.e)) { return set(Val::I(lin(s, Val::U(), SI->getType()->getIntegerBitWidth(), true))); }
        }
        if (SI->getType()->isFloatingPointTy()) return set(Val::F());
        State s2 = s; s.regs[I] = a; s2.regs[I] = b; next.push_back(std::move(s)); next.push_back(std::move(s2)); return;
    }
    if (auto * G = dyn_cast<GetElementPtrInst>(I)) {
        Val p = eval(s, G->getPointerOperand());
        if (p.k != V_PTR) return set(Val::U());
        Lin off = p.e; Type * T = nullptr; bool bad = false;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
            Value * idx = gti.getOperand();
            if (StructType * ST = gti.getStructTypeOrNull()) { off.c += DL->getStructLayout(ST)->getElementOffset(cast_or_null<ConstantInt>(idx)->getZExtValue()); continue; }
            u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
            Val iv = eval(s, idx); if (iv.k != V_INT && iv.k != V_WORD && iv.k != V_BOOL) { bad = true; break; }
            Lin l = lin(s, iv, idx->getType()->getIntegerBitWidth(), true);
            off = off + scale(l, (i64)sz);
        }
        (void)T; if (bad) return set(Val::U());
        return set(Val::P(p.region, off));
    }
    if (auto * A = dyn_cast<AllocaInst>(I)) {
        auto & loc = allocaRegion; auto it = loc.find(A);
        if (it == loc.end() || it->second >= (int)regions.size() || regions[it->second].name != "local." + std::to_string((size_t)A)) { Region r; r.name = "local." + std::to_string((size_t)A); r.kind = R_OBJ; r.role = "local"; loc[A] = newRegion(r); it = loc.find(A); }
        int r = it->second; for (auto o = s.obj.begin(); o != s.obj.end();) { if (o->first.first == r) o = s.obj.erase(o); else ++o; }
        return set(Val::P(r, Lin(0)));
    }
    if (auto * L = dyn_cast<LoadInst>(I)) {
        Val p = eval(s, L->getPointerOperand()); Type * T = L->getType();
        auto unk = [&]() -> Val { if (T->isIntegerTy(1)) return Val::Cond(B_NE, Lin::sym(SY.fresh("?l", 0, 1, true))); if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) return Val::I(lin(s, Val::U(), T->getIntegerBitWidth(), true)); if (T->isFloatingPointTy()) return Val::F(); return Val::U(); };
        if (p.k != V_PTR || p.region < 0) return set(unk());
        Region const & R = regions[p.region];
        if (R.kind == R_OPAQUE) return set(unk());
        if (R.kind == R_OBJ) {
            if (!p.e.isConst()) return set(unk());
            auto k = std::make_pair(p.region, p.e.c); auto it = s.obj.find(k); if (it != s.obj.end()) { Val v = it->second; if (v.k == V_UNDEF) v = unk(); return set(v); }
            Val v = C->loadObj(*this, s, p.region, p.e.c, T); if (v.k == V_UNDEF) v = unk();
            s.obj[k] = v; return set(v);
        }
        unsigned sz = (unsigned)DL->getTypeStoreSize(T);
        std::vector<std::pair<State, Val>> o; accessElem(s, p.region, p.e, sz, L, false, Val::U(), o);
        for (auto & q : o) { q.first.regs[I] = q.second; next.push_back(std::move(q.first)); }
        return;
    }
    if (auto * St = dyn_cast<StoreInst>(I)) {
        Val p = eval(s, St->getPointerOperand()), v = eval(s, St->getValueOperand());
        Type * T = St->getValueOperand()->getType();
        if (p.k != V_PTR || p.region < 0) { undec("memory", I, "store through an unresolved pointer"); s.flags["wild"] = 1; return set(Val()); }
        Region const & R = regions[p.region];
        if (R.kind == R_OPAQUE) return set(Val());
        if (R.kind == R_OBJ) {
            if (R.role != "local" && R.readonly) C->access(*this, s, p.region, Lin(0), p.e, true, I);
            if (!p.e.isConst()) { if (R.role != "local") undec("memory", I, "object store at symbolic offset"); return set(Val()); }
            s.obj[{p.region, p.e.c}] = v; return set(Val());
        }
        unsigned sz = (unsigned)DL->getTypeStoreSize(T);
        if (T->isIntegerTy(1)) { int d = decide(s, v); v = d >= 0 ? Val::I(Lin(d)) : Val::I(lin(s, v, 8, false)); }
        std::vector<std::pair<State, Val>> o; accessElem(s, p.region, p.e, sz, St, true, v, o);
        for (auto & q : o) next.push_back(std::move(q.first));
        return;
    }
    if (auto * EV = dyn_cast<ExtractValueInst>(I)) {
        Val a = eval(s, EV->getAggregateOperand()); for (unsigned i : EV->indices()) { if (a.k == V_AGG && i < a.agg.size()) { Val t = a.agg[i]; a = t; } else { a = Val::U(); break; } }
        if (a.k == V_UNDEF && I->getType()->isIntegerTy(1)) a = Val::Cond(B_NE, Lin::sym(SY.fresh("?e", 0, 1, true)));
        return set(a);
    }
    if (auto * IV = dyn_cast<InsertValueInst>(I)) {
        Val a = eval(s, IV->getAggregateOperand());
        if (a.k != V_AGG) { a = Val(); a.k = V_AGG; unsigned n = 0; if (auto * ST = dyn_cast<StructType>(I->getType())) n = ST->getNumElements(); else n = I->getType()->getArrayNumElements(); a.agg.resize(n); }
        if (IV->getNumIndices() == 1) a.agg[IV->getIndices()[0]] = eval(s, IV->getInsertedValueOperand());
        return set(a);
    }
    if (auto * CB = dyn_cast<CallBase>(I)) {
        if (auto * II = dyn_cast<IntrinsicInst>(I)) {
            switch (II->getIntrinsicID()) {
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: return set(Val());
            case Intrinsic::assume: return set(Val());
            case Intrinsic::expect: case Intrinsic::expect_with_probability: return set(eval(s, II->getArgOperand(0)));
            case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
                auto id = II->getIntrinsicID(); bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::smax || id == Intrinsic::umax;
                unsigned bits = I->getType()->getIntegerBitWidth(); Lin a = lin(s, eval(s, II->getArgOperand(0)), bits, sg), b = lin(s, eval(s, II->getArgOperand(1)), bits, sg);
                Val c = Val::Cond(B_GE, a - b); int d = decide(s, c); if (d < 0) { if (relevant(*this, c)) { forkOn(s, c, again); return; } return set(Val::I(lin(s, Val::U(), bits, sg))); }
                return set(Val::I((d == 1) == mx ? a : b)); }
            case Intrinsic::memset: case Intrinsic::memcpy: case Intrinsic::memmove: {
                Val p = eval(s, II->getArgOperand(0)); Val q = eval(s, II->getArgOperand(1)); Val n = eval(s, II->getArgOperand(2));
                if (p.k == V_PTR && p.region >= 0 && regions[p.region].kind == R_OBJ && p.e.isConst() && n.k == V_INT && n.e.isConst()) {
                    i64 a = p.e.c, e = a + n.e.c; 
                    for (auto o = s.obj.begin(); o != s.obj.end();) { if (o->first.first == p.region && o->first.second >= a && o->first.second < e) o = s.obj.erase(o); else ++o; }
                    if (II->getIntrinsicID() != Intrinsic::memset && q.k == V_PTR && q.region >= 0 && regions[q.region].kind == R_OBJ && q.e.isConst()) {
                        std::vector<std::pair<std::pair<int, i64>, Val>> add; for (auto & o : s.obj) if (o.first.first == q.region && o.first.second >= q.e.c && o.first.second < q.e.c + n.e.c) add.push_back({{p.region, a + o.first.second - q.e.c}, o.second});
                        for (auto & x : add) s.obj[x.first] = x.second;
                    }
                    return set(Val());
                }
                Val ret; std::string nm = II->getIntrinsicID() == Intrinsic::memset ? "llvm.memset" : "llvm.memcpy";
                if (C->call(*this, s, *CB, CB->getCalledFunction(), nm, ret)) return set(ret);
                if (p.k == V_PTR && p.region >= 0 && (regions[p.region].kind == R_ARR || regions[p.region].kind == R_MAT)) { undec("memory", I, "block write to " + regions[p.region].name); s.flags["smashed:" + regions[p.region].name] = 1; }
                return set(Val()); }
            default: { Val ret; if (C->call(*this, s, *CB, CB->getCalledFunction(), CB->getCalledFunction()->getName().str(), ret)) return set(ret);
                Type * T = I->getType(); if (T->isIntegerTy() && !T->isIntegerTy(1)) return set(Val::I(lin(s, Val::U(), T->getIntegerBitWidth(), true))); if (T->isIntegerTy(1)) return set(Val::Cond(B_NE, Lin::sym(SY.fresh("?i", 0, 1, true)))); if (T->isFloatingPointTy()) return set(Val::F()); return set(Val::U()); }
            }
        }
        Val ret; Function * F = CB->getCalledFunction();
        if (!F) { Val fv = eval(s, CB->getCalledOperand()); if (fv.k == V_FN) F = fv.fn; }
        std::string nm = F ? demangleName(*F) : std::string("<indirect>");
        std::vector<State> fk; forks = &fk;
        bool done = C->call(*this, s, *CB, F, nm, ret); forks = nullptr;
        if (!fk.empty()) { for (auto & x : fk) again.push_back(std::move(x)); return; }
        if (!done) {
            for (auto & a : CB->args()) { Val v = eval(s, a.get()); if (v.k == V_PTR && v.region >= 0 && regions[v.region].tracked && !regions[v.region].readonly) { bool ro = CB->onlyReadsMemory() || CB->paramHasAttr(CB->getArgOperandNo(&a), Attribute::ReadOnly); if (!ro) { undec("memory", I, "tracked memory " + regions[v.region].name + " escapes to " + nm); s.flags["smashed:" + regions[v.region].name] = 1; } } }
            Type * T = I->getType(); if (T->isIntegerTy() && !T->isIntegerTy(1)) ret = Val::I(lin(s, Val::U(), T->getIntegerBitWidth(), true)); else if (T->isIntegerTy(1)) ret = Val::Cond(B_NE, Lin::sym(SY.fresh("?k", 0, 1, true))); else if (T->isFloatingPointTy()) ret = Val::F();
        }
        if (s.dead) return;
        return set(ret);
    }
    // anything else: unknown result
    Type * T = I->getType();
    if (T->isIntegerTy() && !T->isIntegerTy(1) && T->getIntegerBitWidth() <= 64) return set(Val::I(lin(s, Val::U(), T->getIntegerBitWidth(), true)));
    set(Val::U());
}

// ================================================================ control flow
void Engine::computeLive(Function & F)
{
    liveIn.clear();
    bool ch = true;
    std::vector<BasicBlock *> po; for (BasicBlock * B : post_order(&F)) po.push_back(B);
    while (ch) {
        ch = false;
        for (BasicBlock * B : po) {
            std::set<const Value *> live;
            for (BasicBlock * S : successors(B)) {
                for (auto * v : liveIn[S]) if (!(isa<PHINode>(v) && cast<PHINode>(v)->getParent() == S)) live.insert(v);
                for (PHINode & P : S->phis()) { Value * v = P.getIncomingValueForBlock(B); if (isa<Instruction>(v) || isa<Argument>(v)) live.insert(v); }
            }
            for (auto it = B->rbegin(); it != B->rend(); ++it) {
                if (isa<PHINode>(*it)) continue;
                live.erase(&*it);
                for (Value * o : it->operands()) if (isa<Instruction>(o) || isa<Argument>(o)) live.insert(o);
            }
            for (PHINode & P : B->phis()) live.insert(&P);
            if (live != liveIn[B]) { liveIn[B] = live; ch = true; }
        }
    }
}

std::string Engine::key(State & s, const BasicBlock * bb)
{
    std::string k;
    // loop counters that run over a small constant range are kept apart
    for (Loop * L = LI->getLoopFor(bb); L; L = L->getParentLoop()) {
        auto it = constPhi.find(L->getHeader()); if (it == constPhi.end()) continue;
        for (auto * P : it->second) { auto v = s.regs.find(P); if (v == s.regs.end() || v->second.k != V_INT) continue;
            if (pivot >= 0) { Lin d = v->second.e - Lin(pivot); Lin p = d, n = scale(d, -1); p.c -= 1; n.c -= 1; k += "p" + std::to_string((size_t)P % 1000003) + (entails(s, p) ? ">" : entails(s, n) ? (v->second.e.isConst() ? "<" + std::to_string(v->second.e.c) : std::string("<")) : entailsEq(s, d) ? "=" : "?"); }
            else if (v->second.e.isConst()) k += "p" + std::to_string((size_t)P % 100000) + "=" + std::to_string(v->second.e.c) + ";"; }
    }
    for (auto & a : s.atoms) k += a.first + "=" + std::to_string(a.second) + ",";
    for (auto & f : s.flags) k += f.first + ":" + std::to_string(f.second) + ",";
    k += C->keyExtra(*this, s);
    if (pivot >= 0 && s.flags.count("blk")) {
        // working on the tracked word: the tracked lane of live words correlates with the tracked contents
        Loop * L = LI->getLoopFor(bb); while (L && L->getParentLoop() && constPhi.count(L->getHeader())) L = L->getParentLoop();
        for (auto & p : s.regs) { auto * I = dyn_cast<Instruction>(p.first); if (!I || p.second.k != V_WORD || (L && !L->contains(I))) continue; u64 m = 1ull << pivot; if ((p.second.w.k0 | p.second.w.k1) & m) k += "w" + std::to_string((size_t)I % 1000003) + (p.second.w.k1 & m ? ":1" : ":0"); }
    }
    if (C->splitSmall(s)) {
        // at the tracked element: keep 0/1 flags computed earlier in this iteration apart (they correlate with the tracked contents)
        Loop * L = LI->getLoopFor(bb);
        for (auto & p : s.regs) { auto * I = dyn_cast<Instruction>(p.first); if (!I || (L && !L->contains(I)) || (L && I->getParent() == L->getHeader() && isa<PHINode>(I))) continue;
            if (p.second.k == V_INT && p.second.e.isConst() && p.second.e.c >= -1 && p.second.e.c <= 1) k += "c" + std::to_string((size_t)I % 1000003) + ":" + std::to_string(p.second.e.c);
            else if (p.second.isBoolConst()) k += "c" + std::to_string((size_t)I % 1000003) + (p.second.bc ? ":t" : ":f"); }
    }
    return k;
}

void Engine::enter(State s, BasicBlock * from, BasicBlock * to)
{
    // evaluate phis simultaneously
    std::vector<std::pair<PHINode *, Val>> pv;
    for (PHINode & P : to->phis()) { Val v = from ? eval(s, P.getIncomingValueForBlock(from)) : Val::U(); 
        if (v.k == V_UNDEF && P.getType()->isIntegerTy() && !P.getType()->isIntegerTy(1)) v = Val::I(lin(s, Val::U(), P.getType()->getIntegerBitWidth(), true));
        if (v.k == V_UNDEF && P.getType()->isIntegerTy(1)) v = Val::Cond(B_NE, Lin::sym(SY.fresh("?p", 0, 1, true)));
        pv.push_back({&P, v}); }
    for (auto & p : pv) s.regs[p.first] = p.second;
    // decide booleans eagerly, drop register references of word comparisons that die
    auto & live = liveIn[to];
    for (auto it = s.regs.begin(); it != s.regs.end();) { if (!live.count(it->first)) it = s.regs.erase(it); else ++it; }
    for (auto & p : s.regs) if (p.second.k == V_BOOL && p.second.op != B_CONST) {
        int d = decide(s, p.second); if (d >= 0) p.second = Val::B(d);
        else if (p.second.wreg && ((isa<Instruction>(p.second.wreg) && !s.regs.count(p.second.wreg)) || (p.second.wreg2 && isa<Instruction>(p.second.wreg2) && !s.regs.count(p.second.wreg2)))) { p.second.wreg = nullptr; p.second.wreg2 = nullptr; }
    }
    // small loop counters are kept on one side of the tracked lane
    if (pivot >= 0) { auto cp = constPhi.find(to); if (cp != constPhi.end()) for (auto * P : cp->second) { auto v = s.regs.find(P); if (v == s.regs.end() || v->second.k != V_INT || v->second.e.isConst()) continue;
        Lin d = v->second.e - Lin(pivot); Lin p = d, n = scale(d, -1); p.c -= 1; n.c -= 1; if (isNoise(d) || entails(s, p) || entails(s, n) || entailsEq(s, d)) continue;
        { State t = s; if (assumeGE(t, p) && !t.dead) enter2(std::move(t), from, to); } { State t = s; if (assumeGE(t, n) && !t.dead) enter2(std::move(t), from, to); } { State t = s; if (assumeEQ(t, d) && !t.dead) enter2(std::move(t), from, to); }
        return; } }
    enter2(std::move(s), from, to);
}
void Engine::enter2(State s, BasicBlock * from, BasicBlock * to)
{
    // back edge of the outermost loop?
    if (Loop * L = LI->getLoopFor(to)) if (L->getHeader() == to && from && L->contains(from)) { if (C->atBackEdge(*this, s, to, L->getLoopDepth())) return; }
    // prune facts over symbols that are no longer reachable
    {
        std::set<int> syms = keepSyms; 
        auto addv = [&](Val const & v, auto && self) -> void { if (v.k == V_INT || v.k == V_PTR || v.k == V_BOOL) v.e.symsOf(syms); for (auto & a : v.agg) self(a, self); };
        for (auto & p : s.regs) addv(p.second, addv); for (auto & p : s.obj) addv(p.second, addv); for (auto & p : s.cell) addv(p.second, addv); for (auto & p : s.memo) { p.first.second.symsOf(syms); addv(p.second, addv); }
        for (auto it = s.divmod.begin(); it != s.divmod.end();) { std::set<int> a; it->first.first.symsOf(a); bool ok = true; for (int x : a) if (!syms.count(x)) ok = false; if (!ok) it = s.divmod.erase(it); else { it->second.first.symsOf(syms); it->second.second.symsOf(syms); ++it; } }
        for (auto it = s.neq.begin(); it != s.neq.end();) { std::set<int> a; it->second.symsOf(a); bool ok = true; for (int x : a) if (!syms.count(x)) ok = false; if (!ok || it->second.isConst()) it = s.neq.erase(it); else ++it; }
        std::vector<Lin> nf; for (auto & f : s.facts) { std::set<int> a; f.symsOf(a); bool ok = true; for (int x : a) if (!syms.count(x)) ok = false; if (ok) nf.push_back(f); }
        s.facts = nf;
    }
    std::string k = key(s, to);
    auto id = std::make_pair((const BasicBlock *)to, k);
    Node & n = nodes[id];
    bool ch;
    if (!n.has) { n.st = std::move(s); n.has = true; n.st.prev = from; ch = true; ++nstates; }
    else ch = join(n, s, to);
    if (ch) {
        std::vector<int> pr; pr.push_back(rpo[to]);
        queue.insert({{pr, 0}, id});
    }
}

// joins `inc` into n.st; returns true when n.st changed
bool Engine::join(Node & n, State & inc, const BasicBlock * bb)
{
    ++njoins; ++n.visits;
    State & A = n.st; State B = std::move(inc);
    // rename this node's join symbols in the incoming state
    for (auto & p : n.joinSyms) {
        bool used = false; auto chk = [&](Val const & v) { if ((v.k == V_INT || v.k == V_PTR || v.k == V_BOOL) && v.e.uses(p.second)) used = true; };
        for (auto & r : B.regs) chk(r.second); for (auto & r : B.obj) chk(r.second); for (auto & r : B.cell) chk(r.second); for (auto & f : B.facts) if (f.uses(p.second)) used = true; for (auto & m : B.memo) { chk(m.second); if (m.first.second.uses(p.second)) used = true; } for (auto & d : B.divmod) if (d.first.first.uses(p.second)) used = true; for (auto & q : B.neq) if (q.second.uses(p.second)) used = true;
        if (used) { auto si = SY.v[p.second]; int x = SY.fresh(si.name + "'", si.noise); SY.v[x].hasLo = si.hasLo; SY.v[x].hasHi = si.hasHi; SY.v[x].lo = si.lo; SY.v[x].hi = si.hi; substitute(B, p.second, Lin::sym(x)); }
    }
    struct JV { int j; Lin a, b; bool isNew; };
    std::vector<JV> js; bool changed = false;
    auto intJoin = [&](Lin const & a, Lin const & b, std::string const & id, bool noisy) -> Lin {
        if (a == b) return a;
        int as; auto it = n.joinSyms.find(id);
        if (it != n.joinSyms.end() && a.isSym(as) && as == it->second && (SY.v[as].noise || ((!SY.v[as].hasLo || entails(B, b - Lin(SY.v[as].lo))) && (!SY.v[as].hasHi || entails(B, Lin(SY.v[as].hi) - b))))) { js.push_back({as, a, b, false}); return a; }
        // the value already follows from join symbols that exist on both sides
        auto old = [&](Lin f) { for (auto & q : js) if (!q.isNew) f = subst(f, q.j, q.b); return f; };
        if (old(a) == b) return a;
        // a combination of values joined earlier: b - old(a) == sum k * (q.b - old(q.a))
        std::set<int> mine; for (auto & q : js) mine.insert(q.j);
        std::function<bool(Lin const &, size_t, int, Lin &)> solve = [&](Lin const & dv, size_t from, int depth, Lin & acc) -> bool {
            if (dv.isConst() && dv.c == 0) return true;
            if (depth == 0) return false;
            for (size_t i = from; i < js.size(); ++i) if (js[i].isNew) {
                auto & q = js[i]; Lin da = q.b - old(q.a); std::vector<Lin> ks;
                if (da.isConst() && da.c != 0) { Lin k; for (auto & m : dv.t) if (m.second % da.c == 0) k.t.push_back({m.first, m.second / da.c}); if (dv.c % da.c == 0) { Lin kc(dv.c / da.c); if (!k.t.empty()) ks.push_back(k + kc); ks.push_back(kc); } ks.push_back(k); }
                else if (!da.t.empty()) for (auto & m : dv.t) if (m.second % da.t[0].second == 0) {
                    Mono d0 = da.t[0].first, rest; i64 c = m.second / da.t[0].second;
                    if (std::includes(m.first.begin(), m.first.end(), d0.begin(), d0.end())) { std::set_difference(m.first.begin(), m.first.end(), d0.begin(), d0.end(), std::back_inserter(rest)); if (rest.empty()) ks.push_back(Lin(c)); else if (rest.size() == 1) ks.push_back(scale(Lin::sym(rest[0]), c)); }
                }
                for (auto & k : ks) {
                    if (k.isConst() && k.c == 0) continue;
                    bool bad = false; for (int x : mine) if (k.uses(x)) bad = true; if (bad) continue;
                    Lin r = dv - mul(k, da); if (r.t.size() + (r.c != 0) >= dv.t.size() + (dv.c != 0)) continue;
                    Lin a2 = acc + mul(k, Lin::sym(q.j)) - mul(k, q.a);
                    if (solve(r, i + 1, depth - 1, a2)) { acc = a2; return true; }
                }
            }
            return false;
        };
        { Lin acc = a; if (solve(b - old(a), 0, 3, acc)) return acc; }
        if (getenv("VT_JOIN")) { fprintf(stderr, "NEWJ %s: %s | %s\n", id.c_str(), a.str().c_str(), b.str().c_str()); for (auto & q : js) fprintf(stderr, "    js %s new=%d %s | %s\n", SY.v[q.j].name.c_str(), q.isNew, q.a.str().c_str(), q.b.str().c_str()); }
        bool nz = noisy || isNoise(a) || isNoise(b);
        int j;
        if (it != n.joinSyms.end()) { j = SY.fresh(id, nz); } else j = SY.fresh(id, nz);
        n.joinSyms[id] = j;
        // static hull when both are bounded by their own symbols
        auto bound = [&](Lin const & l, i64 & lo, i64 & hi, bool & hl, bool & hh) { i128 L = l.c, H = l.c; hl = hh = true; for (auto & m : l.t) { if (m.first.size() != 1) { hl = hh = false; return; } auto & s = SY.v[m.first[0]]; auto addv = [&](i128 & acc, bool has, i64 v, bool & f) { if (has) acc += (i128)m.second * v; else f = false; }; if (m.second > 0) { addv(L, s.hasLo, s.lo, hl); addv(H, s.hasHi, s.hi, hh); } else { addv(L, s.hasHi, s.hi, hl); addv(H, s.hasLo, s.lo, hh); } } if (L < INT64_MIN / 4 || L > INT64_MAX / 4) hl = false; if (H < INT64_MIN / 4 || H > INT64_MAX / 4) hh = false; lo = (i64)L; hi = (i64)H; };
        if (!nz) { // width hull: both sides are provably in range
            for (i64 l : {0ll, -2147483648ll}) if (entails(A, a - Lin(l)) && entails(B, b - Lin(l))) { SY.v[j].hasLo = true; SY.v[j].lo = l; break; }
            if (SY.v[j].hasLo && entails(A, Lin(2147483647ll) - a) && entails(B, Lin(2147483647ll) - b)) { SY.v[j].hasHi = true; SY.v[j].hi = 2147483647ll; } }
        if (nz) { i64 l1, h1, l2, h2; bool a1, a2, b1, b2; bound(a, l1, h1, a1, a2); bound(b, l2, h2, b1, b2);
            i64 nl = std::min(l1, l2), nh = std::max(h1, h2);
            auto stdLo = [&](i64 v) -> i64 { for (i64 t : {0ll, -1ll, -128ll, -32768ll, -2147483648ll}) if (v >= t) return t; return -4294967296ll; };
            auto stdHi = [&](i64 v) -> i64 { for (i64 t : {0ll, 1ll, 127ll, 255ll, 32767ll, 65535ll, 2147483647ll}) if (v <= t) return t; return 4294967295ll; };
            if (a1 && b1) { SY.v[j].hasLo = true; SY.v[j].lo = stdLo(nl); } if (a2 && b2 && nh <= 4294967295ll) { SY.v[j].hasHi = true; SY.v[j].hi = stdHi(nh); } }
        js.push_back({j, a, b, true}); changed = true;
        return Lin::sym(j);
    };
    std::function<Val(Val const &, Val const &, std::string const &)> jv = [&](Val const & a, Val const & b, std::string const & id) -> Val {
        if (a.same(b)) return a;
        if (a.k == V_INT && b.k == V_INT) return Val::I(intJoin(a.e, b.e, id, false));
        if (a.k == V_PTR && b.k == V_PTR && a.region == b.region) {
            // matrix positions are joined as (row, column)
            Lin ra, ca, rb, cb;
            if (a.region >= 0 && regions[a.region].kind == R_MAT && rowCol(a.region, a.e, ra, ca) && rowCol(a.region, b.e, rb, cb)) {
                auto gj = [&](Lin const & x, Lin const & y, std::string const & i2) -> Lin {
                    if (x == y) return x;
                    i64 g = 0; for (auto & m : x.t) g = std::gcd(g, std::abs(m.second)); for (auto & m : y.t) g = std::gcd(g, std::abs(m.second));
                    if (g == 0) g = std::gcd<i64, i64>(g, std::abs(x.c - y.c));
                    i64 k = g ? ((x.c % g) + g) % g : 0;
                    if (g > 1 && ((y.c % g) + g) % g == k) { auto dv = [&](Lin l) { l.c = (l.c - k) / g; for (auto & m : l.t) m.second /= g; return l; }; Lin r = scale(intJoin(dv(x), dv(y), i2, false), g); r.c += k; return r; }
                    return intJoin(x, y, i2, false);
                };
                Lin r = gj(ra, rb, id + ".row"), c = gj(ca, cb, id + ".col");
                return Val::P(a.region, scale(mul(r, Lin::sym(regions[a.region].strideSym)), regions[a.region].elem) + c);
            }
            return Val::P(a.region, intJoin(a.e, b.e, id, false)); }
        if ((a.k == V_WORD || a.k == V_INT) && (b.k == V_WORD || b.k == V_INT)) {
            Word x = toWord(*this, A, a), y = toWord(*this, B, b), r; r.k0 = x.k0 & y.k0; r.k1 = x.k1 & y.k1; r.lo = std::min(std::max(x.lo, x.k1), std::max(y.lo, y.k1)); if (r.lo) r.lo = r.lo >= 1 ? 1 : 0; r.lo = std::max(r.lo, r.k1);
            if (x.tt && y.tt && x.tbl == y.tbl && x.idx == y.idx) { r.tt = true; r.tbl = x.tbl; r.idx = x.idx; }
            else if (x.hot && y.hot && x.idx == y.idx) { r.hot = true; r.idx = x.idx; }
            else { auto z = [&](Word const & w) { return w.k0 == ~0ull || (w.tt && (w.tbl & ttAllowed) == 0); }; if (z(x) && z(y)) { r.tt = false; r.k0 = ~0ull; r.k1 = 0; r.lo = 0; } }
            Val v = Val::W(r); if (!v.same(a)) changed = true; return v; }
        if (a.k == V_BOOL && b.k == V_BOOL) {
            // keep an unknown boolean stable
            int as; auto it = n.joinSyms.find(id); if (it != n.joinSyms.end() && a.op == B_NE && a.e.isSym(as) && as == it->second) return a;
            int j = SY.fresh(id, 0, 1, true); n.joinSyms[id] = j; changed = true; return Val::Cond(B_NE, Lin::sym(j)); }
        if (a.k == V_AGG && b.k == V_AGG && a.agg.size() == b.agg.size()) { Val r = a; for (size_t i = 0; i < a.agg.size(); ++i) r.agg[i] = jv(a.agg[i], b.agg[i], id + "." + std::to_string(i)); return r; }
        if (a.k != V_UNDEF) changed = true;
        return Val::U();
    };
    // registers
    {
        std::map<const Value *, Val> nr;
        auto complexity = [&](Val const & v) { if (v.k == V_PTR) return 2; if (v.k != V_INT) return 3; for (auto & m : v.e.t) if (m.first.size() > 1) return 2; int x; return v.e.isSym(x) || v.e.isConst() ? 0 : 1; };
        for (int pass = 0; pass < 4; ++pass) for (auto & p : A.regs) { auto it = B.regs.find(p.first); Val bv = it == B.regs.end() ? Val::U() : it->second; if (std::max(complexity(p.second), complexity(bv)) != pass) continue; std::string nm = p.first->hasName() ? p.first->getName().str() : "v"; nr[p.first] = jv(p.second, bv, "J." + nm + "." + std::to_string((size_t)p.first % 1000003)); }
        A.regs.swap(nr);
    }
    for (auto it = A.obj.begin(); it != A.obj.end();) {
        auto o = B.obj.find(it->first);
        if (o == B.obj.end()) {
            if (regions[it->first.first].role == "local") { it = A.obj.erase(it); changed = true; continue; }
            // lazily initialised cell of an input object: both sides would see the same initial value
            Val v = C->loadObj(*this, B, it->first.first, it->first.second, nullptr); if (v.k == V_UNDEF) { ++it; continue; } B.obj[it->first] = v; o = B.obj.find(it->first);
        }
        it->second = jv(it->second, o->second, "M." + std::to_string(it->first.first) + "." + std::to_string(it->first.second)); ++it;
    }
    for (auto & o : B.obj) if (!A.obj.count(o.first) && regions[o.first.first].role != "local") { Val v = C->loadObj(*this, A, o.first.first, o.first.second, nullptr); if (v.k != V_UNDEF && !v.same(o.second)) { A.obj[o.first] = jv(v, o.second, "M." + std::to_string(o.first.first) + "." + std::to_string(o.first.second)); changed = true; } }
    for (auto & p : A.cell) { auto it = B.cell.find(p.first); p.second = jv(p.second, it == B.cell.end() ? Val::U() : it->second, "C." + std::to_string(p.first)); }
    for (auto it = A.divmod.begin(); it != A.divmod.end();) { auto o = B.divmod.find(it->first); if (o == B.divmod.end() || o->second != it->second) { it = A.divmod.erase(it); } else ++it; }
    for (auto it = A.neq.begin(); it != A.neq.end();) { auto o = B.neq.find(it->first); if (o == B.neq.end()) { it = A.neq.erase(it); changed = true; continue; } 
        Lin fa = it->second, fb = o->second, ob = fa; for (auto & q : js) if (!q.isNew) ob = subst(ob, q.j, q.b); // same expression on both sides?
        if (fa == fb || ob == fb) { ++it; continue; }
        Lin v = fa; size_t nj = js.size(); v = intJoin(fa, fb, "N." + it->first, false); if (js.size() != nj) { js.resize(nj); if (js.size() < nj + 1) {} it = A.neq.erase(it); changed = true; } else { it->second = v; ++it; } }
    { decltype(A.memo) nm; for (auto & m : A.memo) for (auto & o : B.memo) if (m.first == o.first && m.second.same(o.second)) { nm.push_back(m); break; } if (nm.size() != A.memo.size()) changed = true; A.memo = nm; }

    // ---- facts. Candidates: facts of A, facts of B, templates for new join symbols; keep those both sides entail.
    std::vector<std::pair<int, std::pair<Lin, Lin>>> newJ; for (auto & q : js) newJ.push_back({q.j, {q.a, q.b}});
    auto toA = [&](Lin f) { for (auto & q : js) if (q.isNew) f = subst(f, q.j, q.a); return f; };
    auto toB = [&](Lin f) { for (auto & q : js) f = subst(f, q.j, q.b); return f; };
    std::vector<Lin> cand = A.facts; size_t na = cand.size();
    std::vector<Lin> kept; std::set<Lin> seen; bool lost = false;
    State A0; A0.facts = A.facts;
    auto consider = [&](Lin const & f, bool old) {
        if (f.isConst() || !seen.insert(f).second) return;
        if (isNoise(f) && f.t.size() > 1) { if (old) { changed = true; lost = true; } return; }
        if (!old) { bool nn = false; if (quickBounds(f, nn) && nn) return; for (auto & k : kept) if (k.t == f.t && k.c <= f.c) return; }
        bool ok = entails(B, toB(f));
        if (ok) { Lin fa = toA(f); if (!old || !(fa == f)) ok = entails(A0, fa); }
        if (ok && !old) { State K; K.facts = kept; if (K.facts.size() && entails(K, f)) return; }
        if (ok) kept.push_back(f); else if (old) { changed = true; lost = true; }
    };
    for (size_t i = 0; i < na; ++i) consider(cand[i], true);
    bool anyNew = false; for (auto & q : js) if (q.isNew && !SY.v[q.j].noise) anyNew = true;
    if (anyNew || lost) {
        cand.clear();
        for (auto & q : js) if (!SY.v[q.j].noise) {
            Lin J = Lin::sym(q.j);
            // unit relations with the sizes and the tracked position
            std::vector<Lin> tm = tmplLins; for (int k : tmplSyms) tm.push_back(Lin::sym(k));
            for (Lin const & k : tm) { Lin d = J - k, n = scale(d, -1); for (i64 o : {-1, 0, 1}) { Lin x = d; x.c += o; cand.push_back(x); x = n; x.c += o; cand.push_back(x); } }
            cand.push_back(J);
            if (pivot >= 0) { Lin x = J; x.c -= pivot + 1; cand.push_back(x); x = scale(J, -1); x.c += pivot - 1; cand.push_back(x); x = scale(J, -1); x.c += 63; cand.push_back(x); x.c += 1; cand.push_back(x); }
            int as, bs;
            if (q.isNew) {
                // facts re-expressed: replace a-side / b-side expressions by the join symbol
                if (q.a.isSym(as) && !keepSyms.count(as)) for (size_t i = 0; i < na; ++i) if (A0.facts[i].uses(as)) cand.push_back(subst(A0.facts[i], as, J));
                for (auto & t : q.b.t) if (t.first.size() == 1 && (t.second == 1 || t.second == -1) && !keepSyms.count(t.first[0])) { bs = t.first[0]; Lin rest = q.b - scale(Lin::sym(bs), t.second); Lin by = t.second == 1 ? J - rest : rest - J; for (auto & f : B.facts) if (f.uses(bs)) cand.push_back(subst(f, bs, by)); }
            }
            // relation with other integer registers
            for (auto & r : A.regs) if (r.second.k == V_INT && !r.second.e.isConst() && !isNoise(r.second.e) && !(r.second.e == J)) { Lin d = J - r.second.e; cand.push_back(d); cand.push_back(scale(d, -1)); Lin x = d; x.c -= 1; cand.push_back(x); x = scale(d, -1); x.c -= 1; cand.push_back(x); }
        }
        for (auto & f : B.facts) cand.push_back(f);
        for (auto & f : cand) consider(f, false);
    }
    A.facts = kept;
    A.prev = nullptr;
    return changed;
}

void Engine::execBlock(State s0, BasicBlock * bb)
{
    std::vector<std::pair<State, BasicBlock::iterator>> st; st.push_back({std::move(s0), bb->getFirstNonPHIOrDbg()->getIterator()});
    while (!st.empty()) {
        auto [s, it] = std::move(st.back()); st.pop_back();
        Instruction * I = &*it;
        if (++steps > maxSteps) { blown = true; return; }
        if (!I->isTerminator() || isa<InvokeInst>(I)) {
            std::vector<State> next, again; execInst(s, I, next, again);
            auto nx = std::next(it);
            if (isa<InvokeInst>(I)) { for (auto & n : next) if (!n.dead) enter(std::move(n), bb, cast<InvokeInst>(I)->getNormalDest()); for (auto & a : again) if (!a.dead) st.push_back({std::move(a), it}); continue; }
            for (auto & n : next) if (!n.dead) st.push_back({std::move(n), nx});
            for (auto & a : again) if (!a.dead) st.push_back({std::move(a), it});
            continue;
        }
        if (auto * Br = dyn_cast<BranchInst>(I)) {
            if (Br->isUnconditional()) { enter(std::move(s), bb, Br->getSuccessor(0)); continue; }
            Val c = eval(s, Br->getCondition()); int d = decide(s, c);
            if (d >= 0) { enter(std::move(s), bb, Br->getSuccessor(d ? 0 : 1)); continue; }
            for (int k = 0; k < 2; ++k) { std::vector<State> o; assume(s, c, k == 0, o); for (auto & x : o) { if (c.k == V_BOOL && isa<Instruction>(Br->getCondition())) x.regs[Br->getCondition()] = Val::B(k == 0); enter(std::move(x), bb, Br->getSuccessor(k)); } }
            continue;
        }
        if (auto * Sw = dyn_cast<SwitchInst>(I)) {
            Val v = eval(s, Sw->getCondition()); unsigned bits = Sw->getCondition()->getType()->getIntegerBitWidth(); Lin e = lin(s, v, bits, true);
            std::vector<State> rest; rest.push_back(s);
            for (auto & cs : Sw->cases()) { Lin d = e - Lin(cs.getCaseValue()->getSExtValue()); Val c = Val::Cond(B_EQ, d);
                std::vector<State> nr; for (auto & r : rest) { int k = decide(r, c); if (k == 1) { enter(r, bb, cs.getCaseSuccessor()); } else if (k == 0) nr.push_back(std::move(r)); else { std::vector<State> o; assume(r, c, true, o); for (auto & x : o) enter(std::move(x), bb, cs.getCaseSuccessor()); o.clear(); assume(r, c, false, o); for (auto & x : o) nr.push_back(std::move(x)); } } rest.swap(nr); }
            for (auto & r : rest) enter(std::move(r), bb, Sw->getDefaultDest());
            continue;
        }
        if (isa<ReturnInst>(I)) { C->atExit(*this, s, I); continue; }
        // unreachable / resume: nothing
    }
}

void Engine::run(Function & Fn)
{
    F = &Fn; M = Fn.getParent(); DL = &M->getDataLayout();
    nodes.clear(); queue.clear(); rpo.clear(); constPhi.clear(); steps = nstates = njoins = 0; blown = false;
    DominatorTree DT(Fn); LoopInfo L(DT); LI = &L;
    // loop-contiguous order
    {
        std::vector<BasicBlock *> post; std::set<BasicBlock *> seen;
        std::function<void(BasicBlock *)> dfs = [&](BasicBlock * B) {
            seen.insert(B); std::vector<BasicBlock *> sc(succ_begin(B), succ_end(B));
            std::stable_sort(sc.begin(), sc.end(), [&](BasicBlock * x, BasicBlock * y) { return L.getLoopDepth(x) < L.getLoopDepth(y); });
            for (auto * S : sc) if (!seen.count(S)) dfs(S);
            post.push_back(B);
        };
        dfs(&Fn.getEntryBlock()); int i = 0; for (auto it = post.rbegin(); it != post.rend(); ++it) rpo[*it] = i++;
    }
    computeLive(Fn);
    // induction variables that run from a constant by a constant to a small bound
    for (Loop * Lp : L.getLoopsInPreorder()) for (PHINode & P : Lp->getHeader()->phis()) {
        if (!P.getType()->isIntegerTy()) continue;
        bool cst = false, stp = false, other = false;
        for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) { Value * v = P.getIncomingValue(i); if (!Lp->contains(P.getIncomingBlock(i))) { if (isa<ConstantInt>(v)) cst = true; else other = true; } else if (auto * B = dyn_cast<BinaryOperator>(v)) { if ((B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) && B->getOperand(0) == &P && isa<ConstantInt>(B->getOperand(1))) stp = true; else other = true; } else other = true; }
        if (!cst || !stp || other) continue;
        // some comparison in the loop against a value provably <= 256
        bool small = false;
        std::set<const Value *> derived{&P}; std::vector<const Value *> wl{&P};
        while (!wl.empty()) { auto * v = wl.back(); wl.pop_back(); for (auto * U : v->users()) { if (isa<CastInst>(U) || (isa<BinaryOperator>(U) && isa<ConstantInt>(U->getOperand(1)) && cast<BinaryOperator>(U)->getOpcode() == Instruction::Add)) { if (derived.insert(U).second) wl.push_back(U); } if (auto * Cm = dyn_cast<ICmpInst>(U)) {
            Value * o = derived.count(Cm->getOperand(0)) ? Cm->getOperand(1) : Cm->getOperand(0);
            std::function<bool(Value *, int)> sm = [&](Value * x, int d) -> bool { if (auto * K = dyn_cast<ConstantInt>(x)) return K->getSExtValue() >= 0 && K->getSExtValue() <= 256; if (d == 0) return false; if (auto * Cc = dyn_cast<CastInst>(x)) return sm(Cc->getOperand(0), d - 1); if (auto * Bo = dyn_cast<BinaryOperator>(x)) { if (Bo->getOpcode() == Instruction::URem && isa<ConstantInt>(Bo->getOperand(1))) return sm(Bo->getOperand(1), d - 1); if (Bo->getOpcode() == Instruction::And && isa<ConstantInt>(Bo->getOperand(1))) return sm(Bo->getOperand(1), d - 1); } if (auto * Ph = dyn_cast<PHINode>(x)) { for (auto & iv : Ph->incoming_values()) if (!sm(iv, d - 1)) return false; return true; } if (auto * Se = dyn_cast<SelectInst>(x)) return sm(Se->getTrueValue(), d - 1) && sm(Se->getFalseValue(), d - 1); return false; };
            if (sm(o, 5)) small = true; } } }
        if (small) constPhi[Lp->getHeader()].insert(&P);
    }
    State s0; C->setup(*this, s0, Fn);
    enter(std::move(s0), nullptr, &Fn.getEntryBlock());
    while (!queue.empty() && !blown) {
        auto it = queue.begin(); auto id = it->second; queue.erase(it);
        Node & n = nodes[id]; State s = n.st;
        if (n.visits > 400) { blown = true; break; }
        if (getenv("VT_TRACE")) { Instruction * T = const_cast<BasicBlock *>(id.first)->getTerminator(); fprintf(stderr, "[%ld] bb%d @%s key=%s visits=%d facts=%zu regs=%zu\n", steps, rpo[const_cast<BasicBlock *>(id.first)], loc(T).c_str(), id.second.c_str(), n.visits, s.facts.size(), s.regs.size()); if (getenv("VT_TRACE")[0] == '2') { for (auto & f : s.facts) fprintf(stderr, "      %s >= 0\n", f.str().c_str()); for (auto & r : s.regs) fprintf(stderr, "      %s = %s\n", r.first->hasName() ? r.first->getName().str().c_str() : "%v", r.second.str().c_str()); } }
        execBlock(std::move(s), const_cast<BasicBlock *>(id.first));
    }
}
} // namespace vt
