#pragma once
#include "engine.hpp"
#include "llvm/Bitcode/BitcodeWriter.h"
namespace vt {
// JSON helpers for the result lines printed by the analysers
inline std::string jq(std::string const & s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
struct Tally {
    long decided = 0; std::map<std::string, std::set<std::string>> bad, und; // message -> where
    void ok() { ++decided; }
};
struct Report {
    std::map<std::string, Tally> t;
    std::string extra;
    void ok(std::string const & p) { t[p].ok(); }
    void bad(std::string const & p, std::string const & w, std::string const & m) { t[p].bad[w].insert(m); }
    void und(std::string const & p, std::string const & w, std::string const & m) { t[p].und[w].insert(m); }
    void print(std::string const & id, Engine & E, double secs) {
        std::string o = "{\"run\":" + jq(id) + ",\"steps\":" + std::to_string(E.steps) + ",\"states\":" + std::to_string(E.nstates) + ",\"joins\":" + std::to_string(E.njoins) + ",\"blown\":" + (E.blown ? "true" : "false") + ",\"secs\":" + std::to_string(secs) + ",\"props\":{";
        bool f = true;
        for (auto & p : t) {
            if (!f) o += ","; f = false;
            o += jq(p.first) + ":{\"decided\":" + std::to_string(p.second.decided) + ",\"violations\":[";
            bool g = true; for (auto & b : p.second.bad) for (auto & m : b.second) { if (!g) o += ","; g = false; o += "[" + jq(b.first) + "," + jq(m) + "]"; }
            o += "],\"undecided\":["; g = true; int n = 0; for (auto & b : p.second.und) for (auto & m : b.second) { if (n++ > 12) break; if (!g) o += ","; g = false; o += "[" + jq(b.first) + "," + jq(m) + "]"; }
            o += "],\"n_undecided\":" + std::to_string([&] { long k = 0; for (auto & b : p.second.und) k += b.second.size(); return k; }()) + "}";
        }
        o += "}}"; puts(o.c_str()); fflush(stdout);
    }
};
inline u64 constGlobal(Module & M, std::string const & n, bool & ok) { ok = false; auto * G = M.getNamedGlobal(n); if (!G || !G->hasInitializer()) return 0; if (auto * C = dyn_cast<ConstantInt>(G->getInitializer())) { ok = true; return C->getZExtValue(); } return 0; }
inline u64 offOf(Module & M, std::string const & n) { bool ok; u64 v = constGlobal(M, "vo_" + n, ok); if (!ok) { fprintf(stderr, "missing layout constant vo_%s\n", n.c_str()); exit(3); } return v; }
inline bool keepOutDefault(std::string const & d)
{
    std::string s = shortName(d);
    auto has = [&](char const * k) { return d.find(k) != std::string::npos; };
    if (has("::row_items() const")) return true;
    auto meth = [&](char const * cls) { size_t p = s.find(cls); if (p == std::string::npos) return false; size_t e = p + strlen(cls); return s.compare(e, 2, "::") == 0; };
    for (auto c : {"IRNG", "FRNG", "PRNG", "CoinTosser", "CoinTosserExact", "CoinTosserBitwise", "BoxMullerApprox", "BoxMuller"}) if (meth(c)) return true;
    // single-bit accessors: modelled as accesses to exactly the addressed bit (property C23 decides that they are)
    auto bitop = [&](char const * cls) { if (s.find(cls) == std::string::npos) return false; for (auto m : {"::operator[]", "::test", "::flip", "::set", "::clear", "::assign"}) { size_t l = strlen(m); if (s.size() >= l && s.compare(s.size() - l, l, m) == 0) return true; } return false; };
    if (bitop("basic_bit_vector::") || bitop("basic_bit_vector") || bitop("basic_bit_matrix::bit_view")) return true;
    if (s.find("::binomial") != std::string::npos || s == "binomial") return true;
    return false;
}
}
