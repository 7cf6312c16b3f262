// C20 Persistent representatives
// split: field
#include "oracle.hpp"
#include "persgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>;
template <int P> bool inSpan(const DM<P>& B, const DV<P>& v) { return B.n ? B.inspan(v) : DM<P>(colvec<P>(v)).zero(); }
template <int P, class R> void checkReps(const R& r, const Cx<P>& x, const Vals& vals, const std::string& w, bool& nt) {
    auto in = [&](size_t k, double t, bool strict) { std::vector<size_t> q; if (k < vals.size()) for (size_t i = 0; i < vals[k].size(); ++i) if (strict ? vals[k][i] < t : vals[k][i] <= t) q.push_back(i); return q; };
    std::set<double> vs; for (auto& v : vals) vs.insert(v.begin(), v.end());
    for (size_t k = 0; k <= r.maxdim(); ++k) { auto ps = r.persistence_pairs(k), pp = r.persistence_pairs(k, true); std::vector<DV<P>> reps; auto perm = bats::filtration_sortperm(vals[k]);
        for (size_t i = 0; i < ps.size(); ++i) { auto& p = ps[i]; auto v = vecOf<P>(r.representative(p), x.dim(k), "representative"); reps.push_back(v); auto u = vecOf<P>(r.representative(pp[i], true), x.dim(k), "permuted representative"); for (size_t j = 0; j < u.size(); ++j) CHECKM(u[j] == v[perm[j]], w << ": permuted representative of " << p.str());
            CHECKM(!v[p.birth_ind].zero(), w << ": representative of " << p.str() << " misses the birth cell"); for (size_t j = 0; j < v.size(); ++j) if (!v[j].zero()) CHECKM(vals[k][j] <= p.birth, w << ": representative of " << p.str() << " uses cell " << j << " with value " << vals[k][j]);
            if (k) CHECKM((x.d[k] * colvec<P>(v)).zero(), w << ": representative of " << p.str() << " in degree " << k << " is not a cycle");
            if (k < x.d.size()) { auto B = k + 1 < x.d.size() ? x.d[k + 1] : DM<P>(x.dim(k), 0); if (p.death_ind == bats::NO_IND) CHECKM(!inSpan<P>(B, v), w << ": representative of the essential pair " << p.str() << " is a boundary"); else if (p.death > p.birth) { CHECKM(!inSpan<P>(B.cols(in(k + 1, p.death, true)), v), w << ": representative of " << p.str() << " is a boundary before its death"); if (k) nt = true; } } }
        for (double t : vs) { auto B = k + 1 < x.d.size() ? x.d[k + 1].cols(in(k + 1, t, false)) : DM<P>(x.dim(k), 0); DM<P> H(x.dim(k), 0); for (size_t i = 0; i < ps.size(); ++i) if (ps[i].birth <= t && ps[i].death > t) H.addcol(reps[i]); auto c = in(k, t, false); long z = k ? (long)c.size() - (c.empty() ? 0 : (long)x.d[k].cols(c).rank()) : (long)c.size(); long beta = z - (long)B.rank(); CHECKM((long)H.n == beta && (long)B.hcat(H).rank() == (long)B.rank() + beta, w << ": representatives alive at " << t << " in degree " << k << " are not a basis of the sublevel homology"); }
    }
}
PROP(representatives, "filtrations of every complex type over F2, F3, F5, Q with every option keeping a basis, before and after sparsifying the basis and removing extra cycles: support, cycle condition, birth cell, non-boundary before death, basis of every sublevel homology; non-trivial: a finite bar of positive length above degree 0", 15000, 250000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto vals = genVals(s, facesOf(X)); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto x = cxOf<P>(CH<P>(X)); int o = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) { return bats::Reduce(F, orc::F<P>(), a...); }); bool nt = false; checkReps<P>(R, x, vals, optName19(o), nt); int q = s.draw(3); if (q == 1) { R.sparsify_basis(); checkReps<P>(R, x, vals, optName19(o) + " sparsified", nt); } if (q == 2) { R.remove_extra_cycles(); checkReps<P>(R, x, vals, optName19(o) + " extra cycles removed", nt); } s.nontrivial(nt); }, 6); });
}
PROP(death, "at its death value the representative of a finite pair becomes homologous to a combination of representatives of older pairs that live on; non-trivial: as above", 10000, 150000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto vals = genVals(s, facesOf(X)); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto x = cxOf<P>(CH<P>(X)); int o = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) { return bats::Reduce(F, orc::F<P>(), a...); }); bool nt = false;
        for (size_t k = 0; k + 1 < vals.size(); ++k) { auto ps = R.persistence_pairs(k); for (auto& p : ps) if (p.death_ind != bats::NO_IND) { auto v = vecOf<P>(R.representative(p), x.dim(k), "representative"); std::vector<size_t> c; for (size_t i = 0; i < vals[k + 1].size(); ++i) if (vals[k + 1][i] <= p.death) c.push_back(i); DM<P> S = x.d[k + 1].cols(c); for (auto& q : ps) if (std::make_pair(q.birth, q.birth_ind) < std::make_pair(p.birth, p.birth_ind) && (q.death_ind == bats::NO_IND || std::make_pair(q.death, q.death_ind) > std::make_pair(p.death, p.death_ind))) S.addcol(vecOf<P>(R.representative(q), x.dim(k), "representative")); CHECKM(inSpan<P>(S, v), optName19(o) << ": representative of " << p.str() << " survives its death"); if (k && p.death > p.birth) nt = true; } } s.nontrivial(nt); }, 6); });
}
PBT_MAIN("C20")
