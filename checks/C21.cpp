// C21 Updating filtration values
// split: field
#include "oracle.hpp"
#include "persgen.hpp"
#include <chain/filtered_cochain_complex.hpp>
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using FC = bats::FilteredChainComplex<double, M<P>>; template <int P> using RF = bats::ReducedFilteredChainComplex<double, M<P>>;
template <int P> using FD = bats::FilteredDGVectorSpace<double, M<P>>; template <int P> using RFD = bats::ReducedFilteredDGVectorSpace<double, M<P>>;
// new values: fresh, a perturbation of the old, or the old ones again
static Vals nextVals(Src& s, const Faces& f, const Vals& old) {
    int m = s.draw(5); if (m <= 2) return genVals(s, f); if (m == 3) return old;
    Vals v = old; for (int i = 0, t = 1 + s.draw(2); i < t; ++i) { size_t k = s.draw(v.size() - 1); if (v[k].empty()) continue; size_t j = s.draw(v[k].size() - 1); v[k][j] += (double)s.range(-3, 3); } for (size_t k = 1; k < v.size(); ++k) for (size_t j = 0; j < v[k].size(); ++j) for (auto i : f[k][j]) v[k][j] = std::max(v[k][j], v[k - 1][i]); return v;
}
static bool permuted(const Vals& a, const Vals& b) { int c = 0; for (size_t k = 0; k < a.size(); ++k) if (bats::filtration_sortperm(a[k]) != bats::filtration_sortperm(b[k])) ++c; return c > 0; }
template <int P> void checkRDU(const M<P>& D, const M<P>& R, const M<P>& U, const std::string& w) {
    auto d = matOf<P>(D, "D"), r = matOf<P>(R, "R"), u = matOf<P>(U, "U"); CHECKM(u.m == u.n && u.n == d.n && r.m == d.m && r.n == d.n, w << ": shapes"); if (!d.n) return; if (d.m) CHECKM(d * u == r, w << ": R is not D*U\nD=" << d << "\nU=" << u << "\nR=" << r);
    for (size_t j = 0; j < u.n; ++j) { CHECKM(!u(j, j).zero(), w << ": U has a zero on the diagonal"); for (size_t i = j + 1; i < u.m; ++i) CHECKM(u(i, j).zero(), w << ": U is not upper triangular"); } std::set<size_t> piv; for (size_t j = 0; j < r.n; ++j) for (size_t i = r.m; i-- > 0;) if (!r(i, j).zero()) { CHECKM(piv.insert(i).second, w << ": R is not reduced"); break; }
}
PROP(homology, "filtered complexes of every type over F2, F3, F5, Q reduced with any option keeping a basis, then 1 to 4 updates of the filtration values (new, perturbed, repeated): after each the pairing is that of an independent reduction, R = D*U with the freshly ordered boundary, homology dimensions unchanged; the filtered chain complex updated in the same way equals a fresh one; non-trivial: an update that permutes cells and a finite bar above degree 0", 12000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto f = facesOf(X); auto vals = genVals(s, f); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto x = cxOf<P>(CH<P>(X)); FC<P> C(F); bats::FilteredCochainComplex<double, M<P>> K(F); int o = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) { return RF<P>(C, a...); }); int steps = 1 + s.draw(3); bool nt = false; for (int t = 0; t < steps; ++t) { auto old = vals; vals = nextVals(s, f, old); s.note << " -> " << showVals(vals); R.update_filtration(vals); C.update_filtration(vals); K.update_filtration(vals); auto F2 = bats::Filtration(X, vals); FC<P> C2(F2); auto ref = refBars<P>(x, vals); auto got = pairsOf(R, vals, "updated"), want = refPairs(ref); CHECKM(got == want, optName19(o) << " step " << t << "\n  got  " << showPairs(got) << "\n  want " << showPairs(want)); CHECK(R.val == vals && C.val == vals && C.perm == C2.perm && R.perm == C2.perm);
            for (size_t k = 0; k <= X.maxdim(); ++k) { CHECKM((long)R.hdim(k) == x.betti(k), "homology dimension after update"); checkRDU<P>(C2.C.boundary[k], R.RC.R[k], R.RC.U[k], "step " + std::to_string(t) + " degree " + std::to_string(k)); CHECKM(matOf<P>(C.C.boundary[k], "boundary") == matOf<P>(C2.C.boundary[k], "boundary"), "filtered chain complex after update differs from a fresh one in degree " << k); if (k) CHECKM(matOf<P>(K.C.coboundary[k], "coboundary") == matOf<P>(C2.C.boundary[k], "boundary").T(), "filtered cochain complex after update"); }
            if (permuted(old, vals) && hasFinite(canon(ref))) nt = true; if (s.coin(1, 4)) { R.sparsify_basis(); s.note << " sparsify"; } } s.nontrivial(nt); }); });
}
PROP(permuted_bases, "reduced chain complexes of every type with any option keeping a basis, then 1 to 3 reorderings of the cells of every dimension by any permutation (all at once, or permuting the matrices and updating the factorisation one dimension at a time by either method): R = D*U with the reordered boundary, R reduced, U triangular, homology dimensions as before; non-trivial: a permutation other than the identity in a dimension above 0", 6000, 100000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { CH<P> C(X); auto x = cxOf<P>(C); int o = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) { return bats::ReducedChainComplex<M<P>>(C, a...); }); int steps = 1 + s.draw(2); bool nt = false;
        for (int t = 0; t < steps; ++t) { std::vector<std::vector<size_t>> perm; for (size_t k = 0; k <= X.maxdim(); ++k) { perm.push_back(s.perm(X.ncells(k))); if (k && !std::is_sorted(perm[k].begin(), perm[k].end())) nt = true; } int how = s.draw(3); s.note << " how=" << how; for (auto& q : perm) s.note << pbt::show(q);
            C.ipermute_basis(perm); if (how == 0) R.permute_basis(perm); else if (how == 1) R.permute_basis(perm, bats::standard_reduction_flag()); else { for (size_t k = 0; k < perm.size(); ++k) R.permute_matrices(k, perm[k]); auto ord = s.perm(perm.size()); for (auto k : ord) if (how == 2) R.update_reduction(k); else R.update_reduction2(k, bats::extra_reduction_flag()); std::vector<std::vector<size_t>> id; for (auto& q : perm) { id.emplace_back(q.size()); std::iota(id.back().begin(), id.back().end(), 0); } if (s.coin()) R.permute_basis(id); else { for (size_t k = 0; k < perm.size(); ++k) checkRDU<P>(C.boundary[k], R.R[k], R.U[k], "before refresh, degree " + std::to_string(k)); R.permute_basis(id); } }
            for (size_t k = 0; k <= X.maxdim(); ++k) { checkRDU<P>(C.boundary[k], R.R[k], R.U[k], "step " + std::to_string(t) + " degree " + std::to_string(k)); CHECKM((long)R.hdim(k) == x.betti(k), "homology dimension in degree " << k << " is " << R.hdim(k)); } } s.nontrivial(nt); }); });
}
PROP(graded, "the same for filtered differential graded spaces of degree -1 and +1, augmented or not; non-trivial: as above", 12000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { int deg = s.coin() ? 1 : -1; bool aug = s.coin(1, 3); s.note << "degree " << deg << (aug ? " augmented " : " "); auto f = facesOf(X); auto vals = genVals(s, f); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto x = cxOf<P>(CH<P>(X)); FD<P> C(F, deg, aug); int o = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) -> RFD<P> { if constexpr (std::is_constructible_v<bats::ReducedDGVectorSpace<M<P>>, bats::DGVectorSpace<M<P>>, decltype(a)...>) return RFD<P>(C, a...); else return RFD<P>(C); }); int steps = 1 + s.draw(3); bool nt = false;
        for (int t = 0; t < steps; ++t) { auto old = vals; vals = nextVals(s, f, old); s.note << " -> " << showVals(vals); R.update_filtration(vals); C.update_filtration(vals); auto F2 = bats::Filtration(X, vals); FD<P> C2(F2, deg, aug); auto ref = refBars<P>(x, vals); auto want = refPairs(ref), got = pairsOf(R, vals, "updated"); if (aug) { auto w = want; for (auto& p : got) w.erase(p); CHECKM(got.size() + 1 == want.size() && w.size() == 1 && std::get<0>(*w.begin()) == 0 && std::get<2>(*w.begin()) == bats::NO_IND, "augmented pairs " << showPairs(got) << " vs " << showPairs(want)); } else CHECKM(got == want, optName19(o) << " step " << t << "\n  got  " << showPairs(got) << "\n  want " << showPairs(want)); CHECK(C.perm == C2.perm && R.perm == C2.perm && C.val == vals && R.val == vals);
            for (size_t q = 0; q < C2.C.differential.size(); ++q) { CHECKM(matOf<P>(C.C.differential[q], "d") == matOf<P>(C2.C.differential[q], "d"), "updated differential " << q << " differs from a fresh one"); checkRDU<P>(C2.C.differential[q], R.RC.R[q], R.RC.U[q], "step " + std::to_string(t) + " differential " + std::to_string(q)); } for (size_t k = 0; k <= X.maxdim(); ++k) CHECKM((long)R.hdim(k) == x.betti(k) - (aug && k == 0 ? 1 : 0), "dimension after update");
            if (permuted(old, vals) && hasFinite(canon(ref))) nt = true; } s.nontrivial(nt); }); });
}
PROP(explicit_spaces, "differential graded spaces given by explicit matrices with a non-trivial map at the augmentation end: filtering by values and updating them permutes every differential (equal to a fresh filtered space, R = D*U, squares to zero); non-trivial: non-zero augmentation and two differentials and a permuting update", 5000, 50000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t md = s.range(0, 2); std::vector<DM<P>> d; std::vector<size_t> n; for (size_t k = 0; k <= md; ++k) n.push_back(qcap<P>(s.sized(1, 5), 4)); d.push_back(genMat<P>(s, s.range(0, 2), n[0])); for (size_t k = 1; k <= md; ++k) { auto N = d[k - 1].null(); if (!d[k - 1].m) N = DM<P>::eye(n[0]); d.push_back(N.n ? N * genMat<P>(s, N.n, n[k]) : DM<P>(n[k - 1], n[k])); } int deg = s.coin() ? 1 : -1; for (auto& q : d) s.note << q; Faces f(md + 1); for (size_t k = 0; k <= md; ++k) { f[k].resize(n[k]); if (k) for (size_t j = 0; j < n[k]; ++j) for (size_t i = 0; i < n[k - 1]; ++i) if (!d[k](i, j).zero()) f[k][j].push_back(i); }
        std::vector<M<P>> diff; for (auto& q : d) diff.push_back(deg == -1 ? toMat<P>(q) : toMat<P>(q.T())); diff.push_back(deg == -1 ? toMat<P>(DM<P>(n[md], 0)) : toMat<P>(DM<P>(0, n[md]))); auto vals = genVals(s, f); auto fresh = [&](const Vals& v) { FD<P> r(diff, v, deg); std::vector<std::vector<size_t>> p; for (auto& q : v) { p.push_back(bats::filtration_sortperm(q)); if (deg == 1) std::reverse(p.back().begin(), p.back().end()); } CHECK(r.perm == p);
            for (size_t q = 0; q <= md; ++q) { auto e = matOf<P>(r.C.differential[q], "d"); if (deg == 1) e = e.T(); DM<P> g = d[q].cols(p[q]); if (q) g = g.rows(p[q - 1]); CHECKM(e == g, "filtered differential " << q << " is not the reordered one: " << e << " expected " << g); } return r; };
        FD<P> C = fresh(vals); RFD<P> R(C); bool nt = false; for (int t = 0, st = 1 + s.draw(2); t < st; ++t) { auto old = vals; vals = nextVals(s, f, old); s.note << showVals(vals); C.update_filtration(vals); R.update_filtration(vals); FD<P> C2 = fresh(vals); for (size_t q = 0; q <= md + 1; ++q) { CHECKM(matOf<P>(C.C.differential[q], "d") == matOf<P>(C2.C.differential[q], "d"), "updated differential " << q); checkRDU<P>(C2.C.differential[q], R.RC.R[q], R.RC.U[q], "differential " + std::to_string(q)); } for (size_t q = 0; q <= md; ++q) { long e = (long)n[q] - (long)d[q].rank() - (q < md ? (long)d[q + 1].rank() : 0); CHECKM((long)R.hdim(q) == e, "dimension in degree " << q << " is " << R.hdim(q) << " expected " << e); } if (permuted(old, vals) && !d[0].zero() && md && !d[1].zero()) nt = true; } s.nontrivial(nt); });
}
static std::vector<Spx> cellsAt(const bats::SimplicialComplex& X, size_t k) { std::vector<Spx> r; for (auto& q : X.get_simplices(k)) r.emplace_back(q.begin(), q.end()); return r; }
// the library's own comparison of two reduced filtered complexes
PROP(comparison, "test_reduce_result on two reduced filtered simplicial complexes over F2, F3, F5, Q: the same complex with values compared with an update of it, or two complexes differing in any dimension: equal exactly when they have the same dimension, the same bars in every dimension and the same ordered boundary matrices; non-trivial: they agree below the top dimension and differ in it, or are equal with a 2-cell", 6000, 100000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto gen = [&] { size_t n = s.sized(2, 6); return linearExtension(s, genComplex(s, n, 3, 5)); }; auto v = gen(); auto w = v; int how = s.draw(4); if (how == 0) w = gen(); else if (how <= 2) { size_t i = s.draw(w.size() - 1), big = 0; if (how == 2) { for (size_t j = 0; j < w.size(); ++j) if (w[j].size() > w[big].size()) big = j; i = big; } Spx q = w[i]; w.erase(std::remove_if(w.begin(), w.end(), [&](const Spx& r) { return std::includes(r.begin(), r.end(), q.begin(), q.end()); }), w.end()); if (w.empty()) w = v; }
        s.note << showTops(v) << " / " << showTops(w); auto X = buildSC(v), Y = buildSC(w); auto fx = facesOf(X), fy = facesOf(Y); auto va = genVals(s, fx); Vals vb; if (how >= 3) vb = nextVals(s, fx, va); else { std::map<Spx, double> m; for (size_t k = 0; k <= X.maxdim(); ++k) { auto c = cellsAt(X, k); for (size_t i = 0; i < c.size(); ++i) m[c[i]] = va[k][i]; } if (how == 0) vb = genVals(s, fy); else { vb.resize(Y.maxdim() + 1); for (size_t k = 0; k < vb.size(); ++k) for (auto& c : cellsAt(Y, k)) vb[k].push_back(m.at(c)); } }
        s.note << showVals(va) << " / " << showVals(vb); auto F = bats::Filtration(X, va), G = bats::Filtration(Y, vb); FC<P> A(F), B(G); auto bars = [](const std::vector<Bar>& l, size_t k) { std::vector<std::pair<double, double>> r; for (auto& b : l) if (b.dim == k) r.emplace_back(b.b, b.inf ? 1e300 : b.d); std::sort(r.begin(), r.end()); return r; }; auto ra = refBars<P>(cxOf<P>(CH<P>(X)), va), rb = refBars<P>(cxOf<P>(CH<P>(Y)), vb); bool low = true, same = X.maxdim() == Y.maxdim(); if (same) for (size_t k = 0; k <= X.maxdim(); ++k) { bool e = bars(ra, k) == bars(rb, k) && matOf<P>(A.C.boundary[k], "A") == matOf<P>(B.C.boundary[k], "B"); if (!e) same = false; if (!e && k < X.maxdim()) low = false; }
        int o = pickBasisOpt(s), o2 = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) { return RF<P>(A, a...); }); auto S = withFlags(o2, [&](auto... a) { return how >= 3 ? RF<P>(A, a...) : RF<P>(B, a...); }); if (how >= 3) S.update_filtration(vb); bool g = bats::test_reduce_result(R, S), h = bats::test_reduce_result(S, R); CHECKM(g == same && h == same, "comparison says " << g << " / " << h << ", expected " << same); if (X.maxdim() == Y.maxdim() && !same && low) { s.label("differ only at the top"); s.nontrivial(true); } else s.nontrivial(same && X.maxdim() >= 2); });
}
PBT_MAIN("C21")
