// Abstract interpretation of the automata update kernels (train_*_automata).
#include "common.hpp"
#include <chrono>
using namespace vt;

struct Cfg { std::string entry; bool reg, bit; unsigned T; std::string sfx; int par; int cas; int q; int weighted; int err; int fb = 0, co = 0, x = 0, c1 = 0, c2 = 0, bst = 0; };

struct TrainClient : Client {
    Cfg c; Report & R;
    int fB, ft, fk, fF, fj, S, RB, b, e, r, N, mw, err, w0, f0, boost;
    Lin F, J, K, blocks;
    int rTA = -1, rPOL = -1, rW = -1, rFB = -1, rCO = -1, rX = -1, rM, rP, rWO, rXO, rPR, rCT, rLS;
    std::map<std::string, int> coinRegion;
    bool sawDec = false;
    std::set<std::string> coinUsed, coinOK, coinAll; bool coinInit = false;
    TrainClient(Cfg c_, Report & R_) : c(c_), R(R_) {}
    Lin L(int s) { return Lin::sym(s); }

    void setup(Engine & E, State & s, Function & Fn) override
    {
        i64 big = 1ll << 28;
        auto keep = [&](int x) { E.keepSyms.insert(x); return x; };
        b = keep(SY.fresh("begin", 0, big)); e = keep(SY.fresh("end", 1, big)); r = keep(SY.fresh("clause", 0, big));
        i64 tmax = c.T == 1 ? 127 : c.T == 2 ? 32767 : 2147483647ll;
        N = keep(SY.fresh("states", 1, tmax)); mw = keep(SY.fresh("max_weight", 1, 2147483647ll));
        f0 = keep(SY.fresh("counter", -tmax, tmax)); w0 = keep(SY.fresh("weight", 0, 2147483646ll)); boost = keep(SY.fresh("boost", 0, 1));
        err = keep(c.err < 0 ? SY.fresh("err", -2147483647ll, -1) : c.err > 0 ? SY.fresh("err", 1, 2147483647ll) : SY.fresh("err", 0, 0));
        s.facts.push_back(L(r) - L(b)); { Lin x = L(e) - L(r); x.c -= 1; s.facts.push_back(x); }
        s.facts.push_back(L(f0) + L(N)); { Lin x = L(N) - L(f0); x.c -= 1; s.facts.push_back(x); }
        { Lin x = L(mw) - L(w0); x.c -= 1; s.facts.push_back(x); } // stored weight <= max_weight-1
        S = SY.fresh("stride", 1, (1ll << 29)); RB = SY.fresh("row_blocks", 1, big);
        if (c.bit) { E.pivot = c.q;
            fk = keep(SY.fresh("block", 0, big)); fB = c.cas == 2 ? fk : keep(SY.fresh("full_blocks", 1, big));
            if (c.cas == 0) { F = scale(L(fB), 64); blocks = L(fB); }
            else { ft = keep(SY.fresh("tail", c.cas == 2 ? c.q + 1 : 1, 63)); F = scale(L(fB), 64) + L(ft); blocks = L(fB); blocks.c += 1; }
            if (c.cas != 2) { Lin x = L(fB) - L(fk); x.c -= 1; s.facts.push_back(x); }
            K = L(fk); J = scale(K, 64); J.c += c.q; E.pivotPos = J;
        } else {
            fF = keep(SY.fresh("features", 1, big)); fj = keep(SY.fresh("feature", 0, big)); F = L(fF); J = L(fj);
            Lin x = F - J; x.c -= 1; s.facts.push_back(x);
        }
        s.facts.push_back(L(S) - F);
        for (int x : {b, e, r}) E.tmplSyms.insert(x); if (c.bit) { E.tmplSyms.insert(fk); E.tmplSyms.insert(fB); E.tmplLins = {J, F}; } else { E.tmplSyms.insert(fF); E.tmplSyms.insert(fj); }
        if (c.bit) s.facts.push_back(L(RB) - blocks);
        auto reg = [&](std::string n, RK k, std::string role, unsigned elem) { Region x; x.name = n; x.kind = k; x.role = role; x.elem = elem; return E.newRegion(x); };
        rM = reg("ta_state matrix object", R_OBJ, "input", 1); rP = reg("polarity matrix object", R_OBJ, "input", 1); rWO = reg("weights object", R_OBJ, "input", 1); rXO = reg("input vector object", R_OBJ, "input", 1);
        for (int x : {rM, rP, rWO, rXO}) E.regions[x].readonly = true;
        rPR = reg("prng", R_OPAQUE, "", 1); rCT = reg("coin tosser", R_OPAQUE, "", 1); rLS = reg("loss", R_OPAQUE, "", 1);
        rTA = reg("automata counters", R_MAT, "ta", c.T); E.regions[rTA].strideSym = S; E.regions[rTA].tracked = true; E.regions[rTA].trow = scale(L(r), 2) + Lin(c.par); E.regions[rTA].tcol = J;
        rW = reg("clause weights", R_ARR, "w", 4); E.regions[rW].tracked = true; E.regions[rW].tcol = L(r);
        rCO = reg("clause_output", R_ARR, "co", 1); E.regions[rCO].tracked = true; E.regions[rCO].tcol = L(r); E.regions[rCO].readonly = true;
        rFB = reg("feedback", R_ARR, "fb", 1); E.regions[rFB].tracked = true; E.regions[rFB].tcol = L(r); E.regions[rFB].readonly = true;
        rX = reg("features", R_ARR, "x", c.bit ? 8 : 1); E.regions[rX].tracked = true; E.regions[rX].tcol = c.bit ? K : J; E.regions[rX].word = c.bit; E.regions[rX].readonly = true;
        Module & M = *E.M;
        auto put = [&](int reg, u64 off, Val v) { s.obj[{reg, (i64)off}] = v; };
        auto vec = [&](int reg, u64 off, int target, Lin bytes) { put(reg, off, Val::P(target, Lin(0))); put(reg, off + 8, Val::P(target, bytes)); put(reg, off + 16, Val::P(target, bytes)); };
        std::string nm = "nm_" + c.sfx;
        int rows = keep(SY.fresh("rows", 2, 2 * big)); s.facts.push_back(L(rows) - scale(L(e), 2));
        put(rM, offOf(M, nm + "_rows"), Val::I(L(rows))); put(rM, offOf(M, nm + "_cols"), Val::I(F)); vec(rM, offOf(M, nm + "_v"), rTA, scale(mul(L(S), L(rows)), c.T));
        if (c.bit) {
            rPOL = reg("include mask", R_MAT, "pol", 8); E.regions[rPOL].strideSym = RB; E.regions[rPOL].tracked = true; E.regions[rPOL].word = true; E.regions[rPOL].trow = scale(L(r), 2) + Lin(c.par); E.regions[rPOL].tcol = K;
            put(rP, offOf(M, "bm_rows"), Val::I(L(rows))); put(rP, offOf(M, "bm_cols"), Val::I(F)); put(rP, offOf(M, "bm_blocks"), Val::I(L(RB))); vec(rP, offOf(M, "bm_v"), rPOL, scale(mul(L(RB), L(rows)), 8));
            put(rXO, offOf(M, "bv_len"), Val::I(F)); vec(rXO, offOf(M, "bv_v"), rX, scale(blocks, 8));
        } else vec(rXO, 0, rX, F);
        int nw = -1; if (c.weighted) { nw = keep(SY.fresh("nweights", 1, big)); s.facts.push_back(L(nw) - L(e)); }
        vec(rWO, 0, rW, c.weighted ? scale(L(nw), 4) : Lin(0));
        s.cell[rTA] = Val::I(L(f0)); if (c.weighted) s.cell[rW] = Val::I(L(w0));
        // arguments
        std::vector<Val> a;
        a.push_back(Val::P(rM, Lin(0))); a.push_back(Val::P(rP, Lin(0))); a.push_back(Val::P(rWO, Lin(0))); a.push_back(Val::I(L(b))); a.push_back(Val::I(L(e)));
        if (c.reg) a.push_back(Val::I(L(err))); else a.push_back(Val::P(rFB, Lin(0)));
        a.push_back(Val::P(rCO, Lin(0))); a.push_back(Val::I(L(N))); a.push_back(Val::P(rXO, Lin(0))); a.push_back(Val::I(L(mw))); a.push_back(Val::B(c.bst));
        a.push_back(Val::P(rPR, Lin(0))); a.push_back(Val::P(rCT, Lin(0)));
        if (c.reg) { a.push_back(Val::P(rLS, Lin(0))); a.push_back(Val::Cond(B_NE, L(SY.fresh("box_muller", 0, 1, true)))); a.push_back(Val::I(L(SY.fresh("threshold", 1, 2147483647ll, true)))); }
        unsigned i = 0; for (auto & A : Fn.args()) { if (i < a.size()) s.regs[&A] = a[i]; ++i; }
        if (i != a.size()) { fprintf(stderr, "entry signature mismatch\n"); exit(3); }
    }

    Val laneWord(int bit) { Word w; if (bit) { w.k1 = 1ull << c.q; w.lo = w.k1; } else w.k0 = 1ull << c.q; return Val::W(w); }
    Val noise(Engine & E, Instruction * I, i64 lo = 0, i64 hi = 0) { Type * T = I->getType(); if (T->isIntegerTy(64)) return Val::W(Word()); unsigned bw = T->isIntegerTy() ? T->getIntegerBitWidth() : 32; if (hi <= lo) { lo = -(1ll << (bw - 1)); hi = (1ll << (bw - 1)) - 1; } return Val::I(L(SY.fresh("?o", lo, hi, true))); }

    void loadTracked(Engine & E, State & s, int reg, Instruction * I, std::vector<std::pair<State, Val>> & out) override
    {
        std::string role = E.regions[reg].role;
        if (role == "ta" || role == "x" || role == "coin" || role == "pol") s.flags["here"] = 1;
        if (E.regions[reg].word) s.flags["blk"] = 1;
        if (role == "ta") { s.flags["row"] = 1; s.flags["at"] = 1; s.flags["elem"] = 1; out.emplace_back(s, s.cell[reg]); return; }
        if (role == "w") { if (!c.weighted) { out.emplace_back(s, noise(E, I)); return; } out.emplace_back(s, s.cell[reg]); return; }
        if (role == "co") { s.flags.erase("below"); s.flags.erase("above"); s.flags["row"] = 1; s.flags["at"] = 1; out.emplace_back(s, Val::I(Lin(c.co))); return; }
        if (role == "fb") { s.flags["row"] = 1; s.flags["at"] = 1; out.emplace_back(s, Val::I(Lin(c.fb))); return; }
        if (role == "x") { out.emplace_back(s, c.bit ? laneWord(c.x) : Val::I(Lin(c.x))); return; }
        if (role == "coin") { bool first = E.regions[reg].name == "tosses1"; coinSeen.insert(E.regions[reg].name); out.emplace_back(s, Val::I(Lin(first ? c.c1 : c.c2))); return; }
        if (role == "pol") { readMirror(E, s, out); return; }
        out.emplace_back(s, noise(E, I));
    }
    void readMirror(Engine & E, State & s, std::vector<std::pair<State, Val>> & out)
    {
        s.flags["elem"] = 1; auto it = s.cell.find(rPOL); if (it != s.cell.end()) { out.emplace_back(s, it->second); return; }
        for (int bit : {0, 1}) { State t = s; Lin g = L(f0); if (!bit) { g = scale(g, -1); g.c -= 1; } if (!E.assumeGE(t, g) || t.dead) continue; t.cell[rPOL] = laneWord(bit); Val v = t.cell[rPOL]; out.emplace_back(std::move(t), v); }
    }
    bool splitSmall(State & s) override { return s.flags.count("here"); }
    void loadOther(Engine & E, State & s, int reg, Lin const &, Lin const & col, bool, Instruction * I, std::vector<std::pair<State, Val>> & out) override
    {
        std::string role = E.regions[reg].role;
        if ((role == "ta" || role == "x" || role == "coin" || role == "pol") && s.flags.count("here")) { Lin d = col - E.regions[reg].tcol; if (E.decide(s, Val::Cond(B_EQ, d)) == 0) s.flags.erase("here"); }
        if (E.regions[reg].word) { Lin d = col - E.regions[reg].tcol; if (E.decide(s, Val::Cond(B_EQ, d)) == 0) s.flags.erase("blk"); }
        if (role == "co" || role == "fb") { s.flags.erase("at"); s.flags.erase("blk"); s.flags.erase("here"); // now working on another clause
            if (c.reg) { Lin d = E.regions[reg].tcol - col; d.c -= 1; Lin u = col - E.regions[reg].tcol; u.c -= 1; s.flags.erase("below"); s.flags.erase("above"); if (E.entails(s, d)) s.flags["below"] = 1; else if (E.entails(s, u)) s.flags["above"] = 1; } }
        if (role == "co" || role == "coin" || (role == "x" && !c.bit)) { out.emplace_back(s, noise(E, I, 0, 1)); return; }
        if (role == "fb") { out.emplace_back(s, noise(E, I, -1, 1)); return; }
        out.emplace_back(s, noise(E, I));
    }
    bool storeTracked(Engine & E, State & s, int reg, Val const & v, Instruction * I) override
    {
        std::string role = E.regions[reg].role;
        if (role == "pol") {
            if (!s.cell.count(rPOL)) { // overwritten without being read: the initial bit is not needed
            }
            Word w; if (v.k == V_WORD) w = v.w; else if (v.k == V_INT && v.e.isConst()) { w.k1 = (u64)v.e.c; w.k0 = ~w.k1; }
            u64 m = 1ull << c.q; Word o; o.k0 = w.k0 & m; o.k1 = w.k1 & m; o.lo = o.k1; s.cell[rPOL] = Val::W(o);
            if (!o.k0 && !o.k1) { E.undec("C03", I, "mirror bit unknown after store"); }
            return true;
        }
        if (role == "co" || role == "fb" || role == "x" || role == "coin") { R.bad("C08", E.loc(I), "write to the read-only input `" + E.regions[reg].name + "`"); return true; }
        if (role == "w") { if (!c.weighted) { R.bad("C04", E.loc(I), "weight written although the model is unweighted"); return true; } s.cell[reg] = Val::I(E.lin(s, v, 32, false)); return true; }
        s.cell[reg] = v.k == V_INT ? v : Val::I(E.lin(s, v, c.T * 8, true));
        return true;
    }
    void storeOther(Engine & E, State & s, int reg, Lin const & row, Lin const & col, Val const & v, Instruction * I) override
    {
        std::string role = E.regions[reg].role;
        if (role == "co" || role == "fb" || role == "x" || role == "coin") R.bad("C08", E.loc(I), "write to the read-only input `" + E.regions[reg].name + "`");
    }
    void bound(Engine & E, State & s, std::string what, Lin const & idx, Lin const & lo, Lin const & hi, Instruction * I)
    {
        Lin low = idx - lo, up = hi - idx; up.c -= 1;
        if (E.entails(s, low)) R.ok("C08");
        else { Lin n = scale(low, -1); n.c -= 1; if (E.entails(s, n)) R.bad("C08", E.loc(I), what + " index " + idx.str() + " is below " + lo.str()); else { int k = tight(E, s, low); if (k > 0) R.bad("C08", E.loc(I), what + " index can be " + std::to_string(k) + " below " + lo.str()); else R.und("C08", E.loc(I), what + " index " + idx.str() + " not bounded below by " + lo.str()); } }
        if (E.entails(s, up)) R.ok("C08");
        else { Lin n = scale(up, -1); n.c -= 1; if (E.entails(s, n)) R.bad("C08", E.loc(I), what + " index " + idx.str() + " is not below " + hi.str()); else { int k = tight(E, s, up); if (k > 0) R.bad("C08", E.loc(I), what + " index can reach " + hi.str() + (k > 1 ? "+" + std::to_string(k - 1) : "")); else R.und("C08", E.loc(I), what + " index " + idx.str() + " not bounded above by " + hi.str()); } }
    }
    // smallest k in 1..64 with  e + k >= 0  provable and  e = -k  not refutable
    int tight(Engine & E, State & s, Lin const & e) { if (E.isNoise(e)) return 0; for (int k : {1, 2, 3, 4, 8, 15, 16, 31, 32, 63, 64, 127, 128}) { Lin x = e; x.c += k; if (E.entails(s, x)) { State t = s; Lin y = e; y.c += k; if (E.assumeEQ(t, y) && !t.dead) return k; return 0; } } return 0; }
    void access(Engine & E, State & s, int reg, Lin const & row, Lin const & col, bool store, Instruction * I) override
    {
        std::string role = E.regions[reg].role, nm = std::string(store ? "write to " : "read of ") + E.regions[reg].name;
        if (E.regions[reg].kind == R_OBJ) { R.bad("C08", E.loc(I), "write to " + E.regions[reg].name); return; }
        if (role == "ta" || role == "pol") bound(E, s, nm + ": row", row, scale(L(b), 2), scale(L(e), 2), I);
        if (role == "ta") bound(E, s, nm + ": column", col, Lin(0), F, I);
        if (role == "pol" || (role == "x" && c.bit)) bound(E, s, nm + ": block", col, Lin(0), blocks, I);
        if (role == "x" && !c.bit) bound(E, s, nm, col, Lin(0), F, I);
        if (role == "coin") bound(E, s, nm, col, Lin(0), F, I);
        if (role == "w" && !c.weighted) { R.bad("C08", E.loc(I), nm + " although the model is unweighted"); return; }
        if (role == "w" || role == "co" || role == "fb") bound(E, s, nm, col, L(b), L(e), I);
    }
    bool call(Engine & E, State & s, CallBase & CB, Function * Fn, std::string const & name, Val & ret) override
    {
        std::string sn = shortName(name);
        auto has = [&](char const * k) { return sn.find(k) != std::string::npos; };
        if (name.find("::row_items() const") != std::string::npos) { ret = Val::I(L(S)); return true; }
        if (has("::tosses")) {
            std::string which = sn.substr(sn.rfind("::") + 2);
            if (!coinRegion.count(which)) { Region x; x.name = which; x.kind = R_ARR; x.role = "coin"; x.elem = 1; x.tracked = true; x.readonly = true; x.tcol = J; coinRegion[which] = E.newRegion(x); }
            ret = Val::P(coinRegion[which], Lin(0)); return true;
        }
        if (c.bit && (has("basic_bit_vector") || has("bit_view"))) {
            std::string m = sn.substr(sn.rfind("::") + 2); bool view = has("bit_view");
            if (m == "operator[]" || m == "test" || m == "flip" || m == "set" || m == "clear" || m == "assign") return bitAccess(E, s, CB, m, view, ret);
        }
        if (has("RNG::")) { if (CB.getType()->isIntegerTy()) { unsigned bw = CB.getType()->getIntegerBitWidth(); ret = Val::I(L(SY.fresh("?rng", 0, bw >= 63 ? INT64_MAX : (1ll << bw) - 1, true))); return true; } }
        return false;
    }
    // single-bit accessor of a bit vector or of a bit matrix row
    bool bitAccess(Engine & E, State & s, CallBase & CB, std::string const & m, bool view, Val & ret)
    {
        bool rd = m == "operator[]" || m == "test"; Val self = E.arg(s, CB, 0); Lin idx = E.lin(s, E.arg(s, CB, 1), 64, false);
        auto opaque = [&](bool pol) { if (rd) ret = Val::I(L(SY.fresh("?bit", 0, 1, true))); if (!rd && pol) { E.undec("memory", &CB, "bit store through an unresolved view"); s.flags["smashed:include mask"] = 1; } return true; };
        if (self.k != V_PTR || self.region < 0) return opaque(true);
        int reg = -1; Lin row(0), col(0);
        if (view) {
            auto it = s.obj.find({self.region, self.e.isConst() ? self.e.c + (i64)offOf(*E.M, "view_p") : -1});
            if (it == s.obj.end() || it->second.k != V_PTR || it->second.region < 0) return opaque(true);
            reg = it->second.region; if (E.regions[reg].role != "pol") return opaque(false);
            if (!E.rowCol(reg, it->second.e, row, col) || !(col == Lin(0))) return opaque(true);
        } else { if (self.region != rXO) return opaque(false); reg = rX; }
        bool pol = reg == rPOL;
        if (pol) bound(E, s, std::string(rd ? "read of " : "write to ") + E.regions[reg].name + ": row", row, scale(L(b), 2), scale(L(e), 2), &CB);
        bound(E, s, std::string(rd ? "read of " : "write to ") + E.regions[reg].name + ": bit", idx, Lin(0), F, &CB);
        if (!pol && !rd) { R.bad("C08", E.loc(&CB), "write to the read-only input `" + E.regions[reg].name + "`"); return true; }
        if (pol) { Lin d = row - E.regions[reg].trow; if (E.clientFork(s, d, "include mask.row")) return true; int k = E.decide(s, Val::Cond(B_EQ, d)); if (k == 0) { if (rd) ret = Val::I(L(SY.fresh("?bit", 0, 1, true))); return true; } if (k < 0) return opaque(true); }
        { Lin d = idx - J; if (E.clientFork(s, d, "elem")) return true; int k = E.decide(s, Val::Cond(B_EQ, d));
          if (k == 0) { s.flags.erase("here"); if (rd) ret = Val::I(L(SY.fresh("?bit", 0, 1, true))); return true; } if (k < 0) return opaque(pol); }
        s.flags["here"] = 1;
        if (!pol) { ret = Val::I(Lin(c.x)); return true; }
        s.flags["row"] = 1; s.flags["elem"] = 1;
        if (m == "set" || m == "clear") { s.cell[rPOL] = laneWord(m == "set"); return true; }
        if (m == "assign") { Val v = E.arg(s, CB, 2); int k = v.k == V_BOOL ? E.decide(s, v) : v.k == V_INT && v.e.isConst() ? (v.e.c & 1) : -1; if (k < 0) return opaque(true); s.cell[rPOL] = laneWord(k); return true; }
        auto it = s.cell.find(rPOL);
        if (it == s.cell.end()) { for (int bit : {0, 1}) { State t = s; Lin g = L(f0); if (!bit) { g = scale(g, -1); g.c -= 1; } if (!E.assumeGE(t, g) || t.dead) continue; t.cell[rPOL] = laneWord(bit); E.forks->push_back(std::move(t)); } if (E.forks->empty()) s.dead = true; return true; }
        int bit = (it->second.w.k1 >> c.q) & 1, zero = (it->second.w.k0 >> c.q) & 1; if (!bit && !zero) return opaque(true);
        if (rd) ret = Val::I(Lin(bit)); else s.cell[rPOL] = laneWord(!bit);
        return true;
    }
    // what the counter must become: list of (guard >= 0, expected)
    using Case = std::pair<std::vector<Lin>, Lin>;
    std::vector<Case> incSat() { Lin g = L(N) - L(f0); g.c -= 2; Lin h = L(f0) - L(N); h.c += 1; Lin up = L(f0); up.c += 1; return {{{g}, up}, {{h}, L(f0)}}; }
    std::vector<Case> decSat() { Lin g = L(f0) + L(N); g.c -= 1; Lin h = scale(L(f0) + L(N), -1); Lin d = L(f0); d.c -= 1; return {{{g}, d}, {{h}, L(f0)}}; }
    std::vector<Case> same() { return {{{}, L(f0)}}; }
    std::vector<Case> expected(int fb, int co, int x, int coin, int bst)
    {
        if (fb == 1 && co == 0) return coin ? decSat() : same();
        if (fb == 1 && co == 1) { bool inc = c.par == 0 ? x == 1 : x == 0; if (inc) return (bst || !coin) ? incSat() : same(); return coin ? decSat() : same(); }
        if (fb == -1 && co == 1) { bool fals = c.par == 0 ? x == 0 : x == 1; if (!fals) return same(); Lin g = L(f0); Lin n = scale(g, -1); n.c -= 1; Lin up = L(f0); up.c += 1; return {{{n}, up}, {{g}, L(f0)}}; }
        return same();
    }
    std::string stateDesc(State &) { return cfgDesc(); }
    std::string cfgDesc() { return "feedback=" + std::to_string(c.fb) + " clause_output=" + std::to_string(c.co) + " x=" + std::to_string(c.x) + " coin1=" + std::to_string(c.c1) + " coin2=" + std::to_string(c.c2) + " boost=" + std::to_string(c.bst); }
    void cmp(Engine & E, State s, std::string prop, std::string what, Lin const & got, Lin const & want, std::vector<Lin> const & guard, std::string where, std::string desc)
    {
        for (auto & g : guard) if (!E.assumeGE(s, g) || s.dead) return;
        Lin d = got - want; Lin p = d; p.c -= 1; Lin n = scale(d, -1); n.c -= 1;
        if (d.isConst() ? d.c == 0 : (E.entailsEq(s, d))) { R.ok(prop); return; }
        if ((d.isConst() && d.c != 0) || E.entails(s, p) || E.entails(s, n)) { R.bad(prop, where, what + " becomes " + got.str() + " but must become " + want.str() + " [" + desc + "]"); return; }
        R.und(prop, where, what + ": " + got.str() + " vs required " + want.str() + " [" + desc + "]");
    }
    void checkRow(Engine & E, State & s, std::string where, bool visited)
    {
        if (s.flags.count("wild")) { R.und("C02", where, "store through an unresolved pointer"); return; }
        Lin got = s.cell[rTA].k == V_INT ? s.cell[rTA].e : L(SY.fresh("?cell", true));
        // C01 : range
        { Lin lo = got + L(N), hi = L(N) - got; hi.c -= 1; for (int k = 0; k < 2; ++k) { Lin x = k ? hi : lo; std::string w = k ? "exceed number_of_states-1" : "drop below -number_of_states"; if (E.entails(s, x)) R.ok("C01"); else { State t = s; Lin n = scale(x, -1); n.c -= 1; bool feas = E.assumeGE(t, n) && !t.dead; int z = feas ? tight(E, s, x) : 0; if (feas && (z > 0) && exactDelta(got)) R.bad("C01", where, std::string(c.par ? "negated" : "positive") + "-literal counter can " + w + " [" + stateDesc(s) + "final " + got.str() + "]"); else if (feas) R.und("C01", where, "counter " + got.str() + " may " + w); else R.ok("C01"); } } }
        if (!visited) { cmp(E, s, "C02", "counter of a clause that got no feedback", got, L(f0), {}, where, stateDesc(s)); if (c.weighted) cmp(E, s, "C04", "weight of a clause that got no feedback", s.cell[rW].e, L(w0), {}, where, stateDesc(s)); mirror(E, s, got, where); return; }
        std::string lit = c.par ? "negated-literal counter" : "positive-literal counter", d = cfgDesc();
        if (c.fb == 1 && c.co == 0 && c.bit) { // sparse Type Ib: any number of saturating decrements
            Lin up = L(f0) - got; if (E.entails(s, up)) R.ok("C02"); else { State t = s; Lin n = scale(up, -1); n.c -= 1; if (E.assumeGE(t, n) && !t.dead && tight(E, s, up) > 0) R.bad("C02", where, lit + " can grow under Type Ib feedback [" + d + "]"); else R.und("C02", where, lit + " " + got.str() + " vs " + up.str()); }
            if (!(got == L(f0))) sawDec = true;
        } else {
            // the literal listens to exactly one of the two coin vectors; both hypotheses are kept until all configurations were seen
            for (int hyp : {0, 1}) for (auto & cs : expected(c.fb, c.co, c.x, hyp ? c.c2 : c.c1, c.bst)) cmp(E, s, hyp ? "H2" : "H1", lit, got, cs.second, cs.first, where, d);
        }
        if (c.weighted) {
            Lin g = s.cell[rW].k == V_INT ? s.cell[rW].e : L(SY.fresh("?w", true)); std::string d = "fb=" + std::to_string(c.fb) + " co=" + std::to_string(c.co);
            if (c.fb == 1 && c.co == 1) { Lin c1 = L(mw) - L(w0); c1.c -= 2; Lin c2 = L(w0) - L(mw); c2.c += 1; Lin up = L(w0); up.c += 1; cmp(E, s, "C04", "stored weight", g, up, {c1}, where, d + " below maximum"); cmp(E, s, "C04", "stored weight", g, L(w0), {c2}, where, d + " at maximum"); }
            else if (c.fb == -1 && c.co == 1) { Lin c1 = L(w0); c1.c -= 1; Lin dn = L(w0); dn.c -= 1; cmp(E, s, "C04", "stored weight", g, dn, {c1}, where, d + " above minimum"); cmp(E, s, "C04", "stored weight", g, L(w0), {scale(L(w0), -1)}, where, d + " at minimum"); }
            else cmp(E, s, "C04", "stored weight", g, L(w0), {}, where, d);
        }
        mirror(E, s, got, where);
    }
    std::set<std::string> coinSeen;
    void mirror(Engine & E, State & s, Lin const & got, std::string where)
    {
        if (!c.bit) return;
        auto it = s.cell.find(rPOL); std::vector<std::pair<State, int>> alts;
        if (it == s.cell.end()) { std::vector<std::pair<State, Val>> o; readMirror(E, s, o); for (auto & q : o) alts.push_back({q.first, q.second.w.k1 ? 1 : 0}); }
        else { Word w = it->second.w; if (w.k1 & (1ull << c.q)) alts.push_back({s, 1}); else if (w.k0 & (1ull << c.q)) alts.push_back({s, 0}); else { R.und("C03", where, "mask bit unknown"); return; } }
        for (auto & a : alts) {
            Lin need = got; if (!a.second) { need = scale(got, -1); need.c -= 1; }
            if (E.entails(a.first, need)) { R.ok("C03"); continue; }
            Lin n = scale(need, -1); n.c -= 1; State t = a.first; bool feas = E.assumeGE(t, n) && !t.dead;
            if (!feas) { R.ok("C03"); continue; }
            if (E.isNoise(got)) { R.und("C03", where, "counter " + got.str()); continue; }
            if (E.entails(a.first, n)) R.bad("C03", where, std::string("include mask bit is ") + (a.second ? "1 while the counter can be negative" : "0 while the counter can be >= 0") + " [" + stateDesc(s) + "final " + got.str() + "]");
            else if (exactDelta(got)) R.bad("C03", where, std::string("include mask bit is ") + (a.second ? "1" : "0") + " while the counter is " + got.str() + " [" + stateDesc(s) + "]");
            else R.und("C03", where, "mask bit " + std::to_string(a.second) + " vs counter " + got.str());
        }
    }
    bool exactDelta(Lin const & g) { Lin d = g - L(f0); return d.isConst(); }
    void atExit(Engine & E, State & s, Instruction * I) override
    {
        if (getenv("VT_DBG")) { fprintf(stderr, "EXIT %s ta=%s w=%s flags:", stateDesc(s).c_str(), s.cell[rTA].str().c_str(), s.cell.count(rW) ? s.cell[rW].str().c_str() : "-"); for (auto & f : s.flags) fprintf(stderr, " %s", f.first.c_str()); fprintf(stderr, "\n"); for (auto & f : s.facts) fprintf(stderr, "    %s>=0\n", f.str().c_str()); }
        if (smashed(E, s, I)) return;
        if (c.reg) checkRow(E, s, E.loc(I), s.flags.count("row")); else checkRow(E, s, E.loc(I), true);
    }
    bool smashed(Engine & E, State & s, Instruction * I) { for (auto & f : s.flags) if (f.first.compare(0, 8, "smashed:") == 0) { for (auto p : {"C01", "C02", "C03", "C04"}) R.und(p, I ? E.loc(I) : "", f.first); return true; } return false; }
    bool atBackEdge(Engine & E, State & s, BasicBlock * header, unsigned depth) override
    {
        if (!c.reg || depth != 1) return false;
        if (smashed(E, s, header->getTerminator())) return true;
        checkRow(E, s, E.loc(header->getTerminator()), s.flags.count("row"));
        // next update starts from an arbitrary admissible row again
        for (auto f : {"row", "elem", "at", "here", "below", "above", "blk", "lane"}) s.flags.erase(f); s.cell[rTA] = Val::I(L(f0)); if (c.weighted) s.cell[rW] = Val::I(L(w0)); s.cell.erase(rPOL);
        return false;
    }
    std::string keyExtra(Engine & E, State & s) override
    {
        std::string k; Lin d = s.cell[rTA].e - L(f0); k += s.cell[rTA].k == V_INT && d.isConst() && d.c >= -1 && d.c <= 1 ? "d" + std::to_string(d.c) : std::string("dx");
        if (c.weighted) { Lin w = s.cell[rW].e - L(w0); k += s.cell[rW].k == V_INT && w.isConst() ? "w" + std::to_string(w.c) : std::string("wx"); }
        auto it = s.cell.find(rPOL); if (rPOL >= 0) { if (it == s.cell.end()) k += "m-"; else k += it->second.w.k1 ? "m1" : it->second.w.k0 ? "m0" : "mx"; }
        // temporaries that hold (a function of) the tracked counter or weight
        for (auto & q : s.regs) if (q.second.k == V_INT && !q.second.e.isConst()) { for (int y : {f0, w0}) if (q.second.e.uses(y)) { Lin d2 = q.second.e - L(y); k += "t" + std::to_string((size_t)q.first % 1000003) + (d2.isConst() ? ":" + std::to_string(d2.c) : ":" + q.second.e.str()); } }
        return k;
    }
    void finish(Engine & E)
    {
        if (E.blown) for (auto p : {"C01", "C02", "C03", "C04", "C08"}) R.und(p, "", "analysis budget exhausted");
    }
};

int main(int argc, char ** argv)
{
    if (argc < 3) { fprintf(stderr, "usage: vttrain prep in.ll out.bc | vttrain run in.bc entry par case q weighted err\n"); return 3; }
    LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(argv[2], Err, Ctx);
    if (!M) { Err.print("vttrain", errs()); return 3; }
    if (std::string(argv[1]) == "prep") {
        std::vector<std::string> roots; for (auto & F : *M) if (F.getName().starts_with("vt_")) roots.push_back(F.getName().str());
        prepare(*M, roots, keepOutDefault);
        std::error_code ec; raw_fd_ostream os(argv[3], ec); if (ec) return 3; M->print(os, nullptr); return 0;
    }
    Cfg c; c.entry = argv[3]; c.par = atoi(argv[4]); c.cas = atoi(argv[5]); c.q = atoi(argv[6]); c.weighted = atoi(argv[7]); c.err = atoi(argv[8]);
    c.reg = c.entry.find("vt_reg") == 0; c.bit = c.entry.find("_bit_") != std::string::npos; c.sfx = c.entry.substr(c.entry.rfind('_') + 1); c.T = c.sfx == "i8" ? 1 : c.sfx == "i16" ? 2 : 4;
    Function * F = M->getFunction(c.entry); if (!F || F->isDeclaration()) { fprintf(stderr, "entry %s not found\n", c.entry.c_str()); return 3; }
    auto t0 = std::chrono::steady_clock::now();
    Report R; long steps = 0, ns = 0, nj = 0; bool blown = false, sawDec = false, anySparse = false; int runs = 0;
    int shard = 0, nshard = 1, seq = 0; if (argc > 10) { shard = atoi(argv[9]); nshard = atoi(argv[10]); }
    std::vector<std::pair<int, int>> fc;
    if (c.reg) { int f = c.err < 0 ? 1 : c.err > 0 ? -1 : 0; fc = {{f, 0}, {f, 1}}; } else fc = {{1, 0}, {1, 1}, {-1, 0}, {-1, 1}, {0, 0}, {0, 1}};
    Engine E;
    for (auto & p : fc) for (int x : {0, 1}) for (int c1 : {0, 1}) for (int c2 : {0, 1}) for (int bst : {0, 1}) {
        // configurations that differ only in inputs the update may not look at are still enumerated for the positive feedback rows
        if (p.first != 1 && (c1 != c2)) continue;
        Cfg k = c; k.fb = p.first; k.co = p.second; k.x = x; k.c1 = c1; k.c2 = c2; k.bst = bst;
        if (nshard > 1 && (seq++ % nshard) != shard) continue;
        if (getenv("VT_ONLY")) { char buf[64]; snprintf(buf, 64, "%d,%d,%d,%d,%d,%d", k.fb, k.co, k.x, k.c1, k.c2, k.bst); if (std::string(buf) != getenv("VT_ONLY")) continue; }
        SY = Syms(); E = Engine(); E.M = M.get(); TrainClient C(k, R); E.C = &C; E.run(*F); C.finish(E); ++runs;
        for (auto & u : E.undecided) R.und(u.kind == "memory" ? "C08" : u.kind, u.where, u.msg);
        steps += E.steps; ns += E.nstates; nj += E.njoins; blown |= E.blown;
        if (k.bit && k.fb == 1 && k.co == 0) { anySparse = true; sawDec |= C.sawDec; }
    }
    // both coin hypotheses are reported; the driver keeps the better one over all shards
    E.steps = steps; E.nstates = ns; E.njoins = nj; E.blown = blown; 
    std::string id = c.entry + " par=" + argv[4] + " case=" + argv[5] + " q=" + argv[6] + " weighted=" + argv[7] + " err=" + argv[8] + " runs=" + std::to_string(runs) + " sparse=" + std::to_string(anySparse) + " sawDec=" + std::to_string(sawDec);
    R.print(id, E, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    return 0;
}
