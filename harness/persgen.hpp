// persgen.hpp - options and helpers shared by the persistence checks
#pragma once
#include "complexgen.hpp"
namespace orc {
inline const char* alg3(int a) { static const char* al[] = {"standard", "extra", "divide_conquer"}; return al[a]; }
inline std::string optName19(int o) { static const char* ob[] = {"", "+basis", "+clearing", "+clearing+basis", "+compression", "+compression+basis"}; return o == 18 ? "default" : std::string(alg3(o / 6)) + ob[o % 6]; }
inline bool optBasis(int o) { return o == 18 || o % 6 == 1 || o % 6 == 3; }
inline int pickBasisOpt(pbt::Src& s) { int q = (int)s.draw(6); return q == 6 ? 18 : (q / 2) * 6 + (q % 2 ? 3 : 1); }
// f(flags...) with the flags of option o
template <class A, class Fn> auto withFlagsA(A a, int o, Fn f) { switch (o) { case 0: return f(a); case 1: return f(a, bats::compute_basis_flag()); case 2: return f(a, bats::clearing_flag()); case 3: return f(a, bats::clearing_flag(), bats::compute_basis_flag()); case 4: return f(a, bats::compression_flag()); default: return f(a, bats::compression_flag(), bats::compute_basis_flag()); } }
template <class Fn> auto withFlags(int o, Fn f) { if (o == 18) return f(); switch (o / 6) { case 0: return withFlagsA(bats::standard_reduction_flag(), o % 6, f); case 1: return withFlagsA(bats::extra_reduction_flag(), o % 6, f); default: return withFlagsA(bats::divide_conquer_flag(), o % 6, f); } }
typedef std::tuple<size_t, size_t, size_t> Pr;   // dim, birth index, death index (NO_IND: none)
inline std::set<Pr> refPairs(const std::vector<Bar>& v) { std::set<Pr> r; for (auto& b : v) r.insert(Pr(b.dim, b.bi, b.inf ? bats::NO_IND : b.di)); return r; }
inline std::string showPairs(const std::set<Pr>& a) { std::ostringstream o; for (auto& p : a) { o << std::get<0>(p) << ":" << std::get<1>(p) << "-"; if (std::get<2>(p) == bats::NO_IND) o << "* "; else o << std::get<2>(p) << " "; } return o.str(); }
// every pair of R with its values checked; returns the pairing (indices in original order)
template <class RF> std::set<Pr> pairsOf(const RF& R, const Vals& vals, const std::string& w) {
    std::set<Pr> got; for (size_t k = 0; k <= R.maxdim(); ++k) for (auto& p : R.persistence_pairs(k)) {
        CHECKM(p.dim == k && p.birth_ind < vals[k].size(), w << ": bad pair in dimension " << k); CHECKM(p.birth == vals[k][p.birth_ind], w << ": birth " << p.birth << " of cell " << p.birth_ind << " with value " << vals[k][p.birth_ind]);
        if (p.death_ind == bats::NO_IND) CHECKM(std::isinf(p.death) && p.death > 0, w << ": essential pair with finite death"); else CHECKM(k + 1 < vals.size() && p.death_ind < vals[k + 1].size() && p.death == vals[k + 1][p.death_ind], w << ": death value of " << p.str());
        CHECKM(got.insert(Pr(k, p.birth_ind, p.death_ind)).second, w << ": pair listed twice"); }
    return got;
}
inline bool hasFinite(const BarList& b, size_t mind = 1) { for (auto& t : b) if (std::get<0>(t) >= mind && std::isfinite(std::get<2>(t))) return true; return false; }
} // namespace orc
