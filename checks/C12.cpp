// C12 boundary operators of every complex type and of derived chain complexes
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> LC; typedef bats::CubicalComplex CC; typedef bats::CellComplex CW;
template <int P> using CH = bats::ChainComplex<M<P>>;
template <int P> DM<P> fromLib(const M<P>& A, const char* w) { return matOf<P>(A, w); }
// equality up to one sign for the whole matrix
template <int P> void sameUpToSign(const DM<P>& g, const DM<P>& e, const char* w) { CHECKM(g == e || g == e.scaled(Z<P>(-1)), w << ": got " << g << " expected " << e << " up to sign"); }
template <int P> void squareZero(const std::vector<DM<P>>& d, const char* w) { for (size_t k = 1; k + 1 < d.size(); ++k) CHECKM((d[k] * d[k + 1]).zero(), w << ": boundary " << k << " after boundary " << k + 1 << " is not zero"); }
template <int P> std::vector<DM<P>> all(const CH<P>& C, const char* w) { std::vector<DM<P>> r; for (size_t k = 0; k <= C.maxdim(); ++k) r.push_back(fromLib<P>(C.boundary[k], w)); return r; }
template <int P> void shapes(const CH<P>& C, const std::vector<size_t>& n, const char* w) { CHECKM(C.maxdim() + 1 == n.size(), w << ": maxdim " << C.maxdim()); size_t t = 0; for (size_t k = 0; k < n.size(); ++k) { t += n[k]; CHECKM(C.dim(k) == n[k], w << ": dim(" << k << ")=" << C.dim(k) << " expected " << n[k]); CHECKM(C.boundary[k].ncol() == n[k] && (k ? C.boundary[k].nrow() == n[k - 1] : true), w << ": shape of boundary " << k); } CHECKM(C.dim() == t, w << ": total dim"); CHECKM(C.is_valid_complex(), w << ": is_valid_complex() is false"); for (auto it = C[0].cols().begin(); it != C[0].cols().end(); ++it) CHECKM(it->nnz() == 0, w << ": boundary[0] must be zero"); }
static std::string sh(const std::vector<Spx>& v) { std::ostringstream o; for (auto& x : v) if (x.size() > 1 || v.size() < 4) o << pbt::show(x); return o.str(); }
static std::vector<Spx> genC(Src& s, size_t n, size_t maxd, size_t tops) { return linearExtension(s, genComplex(s, n, maxd, tops)); }
static std::vector<size_t> counts(const Cells& c, size_t md) { std::vector<size_t> n(md + 1, 0); for (size_t k = 0; k < c.size(); ++k) n[k] = c[k].size(); return n; }
PROP(simplicial, "simplicial and light complexes in random cell orders over F2, F3, F5 and Q: boundary matrices vs alternating faces up to a sign per dimension, consecutive boundaries compose to zero, is_valid_complex; non-trivial: a 2-simplex", 60000, 800000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.sized(1, 7); bool high = s.coin(1, 8); auto v = genC(s, n, high ? 6 : 4, high ? 2 : 5); auto c = cellsOf(v); bool light = s.coin(); s.note << (light ? "light " : "trie ") << sh(v); CH<P> C; size_t md = c.size() - 1; std::vector<CSCMatrix<int, size_t>> csc;
        if (light) { md += s.draw(1); LC x(n, md); for (auto& q : v) x.add(q); C = bats::Chain(x, F<P>()); for (size_t k = 1; k <= md; ++k) csc.push_back(x.boundary_csc(k)); } else { SC x; for (auto q : v) x.add(q); C = bats::Chain(x, F<P>()); for (size_t k = 1; k <= md; ++k) csc.push_back(x.boundary_csc(k)); }
        shapes<P>(C, counts(c, md), "chain complex"); auto d = all<P>(C, "boundary"); for (size_t k = 1; k <= md; ++k) { DM<P> e = k < c.size() ? simplicialBoundary<P>(c, k) : DM<P>(c[k - 1].size(), 0); sameUpToSign<P>(d[k], e, "simplicial boundary"); // integers
            auto& A = csc[k - 1]; CHECK(A.nrow() == e.m && A.ncol() == e.n); if (k < c.size()) { auto e0 = simplicialBoundary<0>(c, k); bool p = true, m = true; for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) { long x = A.getval(i, j), y = (long)e0(i, j).n; p = p && x == y; m = m && x == -y; } CHECKM(p || m, "integer boundary " << k); } }
        squareZero<P>(d, "simplicial"); s.nontrivial(c.size() > 2); });
}
typedef std::vector<size_t> Cube; static std::vector<std::pair<Cube, int>> cubeFaces(const Cube& c) { std::vector<std::pair<Cube, int>> r; int sg = 1; for (size_t i = 0; i < c.size(); i += 2) if (c[i] != c[i + 1]) { Cube f = c; f[i] = c[i + 1]; r.push_back({f, sg}); f = c; f[i + 1] = c[i]; r.push_back({f, -sg}); sg = -sg; } return r; }
PROP(cubical, "cubical complexes of ambient dimension 1-4 in random insertion order (added recursively, or one at a time, or taken as a skeleton) over F2, F3, F5 and Q: boundary matrices vs signed cube faces up to a sign per dimension, consecutive boundaries compose to zero; non-trivial: a 2-cube", 30000, 400000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t D = s.coin(1, 40) ? 5 : s.range(1, 4); CC x(D); long t = D > 4 ? 1 : s.sized(1, 5); for (long i = 0; i < t; ++i) { Cube v; for (size_t j = 0; j < D; ++j) { size_t a = s.range(0, 2), l = s.coin(2, 3); v.push_back(a); v.push_back(a + l); } s.note << pbt::show(v); x.add_recursive(v); }
        if (s.coin()) { CC y(D); for (size_t d = 0; d <= D; ++d) { auto q = x.get_cubes(d); for (auto i : s.perm(q.size())) y.add(q[i]); } x = y; s.note << " one by one"; } else if (s.coin(1, 4)) x = x.skeleton(s.range(0, D));
        auto C = bats::Chain(x, F<P>()); std::vector<size_t> n; for (size_t k = 0; k <= D; ++k) n.push_back(x.ncells(k)); shapes<P>(C, n, "cubical chain complex"); auto d = all<P>(C, "boundary");
        for (size_t k = 1; k <= D; ++k) { DM<P> e(n[k - 1], n[k]); for (size_t j = 0; j < n[k]; ++j) for (auto& [f, sg] : cubeFaces(x.get_cube(k, j))) { size_t i = x.find_idx(f); CHECK(i < n[k - 1]); e(i, j) = e(i, j) + Z<P>(sg); } sameUpToSign<P>(d[k], e, "cubical boundary"); }
        squareZero<P>(d, "cubical"); s.nontrivial(n.size() > 2 && n[2] > 0); });
}
PROP(cells, "cell complexes: simplicial cells re-oriented with boundaries listed in random order, plus cells attached along integer multiples of cycles: the boundary matrices are exactly the given incidence numbers in the field; non-trivial: a cell with an incidence number other than +-1", 40000, 500000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 6); auto v = genComplex(s, n, 3, 4); byDim(v); auto c = cellsOf(v); CW x; bool multi = false; std::vector<DM<0>> E; std::vector<std::vector<int>> ori(c.size() + 2);
        if (s.coin()) x.add_vertices(n); else for (size_t i = 0; i < n; ++i) CHECKEQ(x.add_vertex(), i); E.push_back(DM<0>(1, n)); for (size_t k = 0; k < c.size(); ++k) for (size_t i = 0; i < c[k].size(); ++i) ori[k].push_back(k == 0 ? 1 : s.coin() ? 1 : -1);
        for (size_t k = 1; k < c.size(); ++k) { DM<0> e = simplicialBoundary<0>(c, k); for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) e(i, j) = e(i, j) * Z<0>(ori[k - 1][i] * ori[k][j]);
            if (s.coin() && e.m) { // attach an extra cell along a multiple of a cycle one dimension below
                DM<0> lower = E[k - 1]; DM<0> N = lower.null(); if (N.n) { auto z = N.col(s.range(0, N.n - 1)); long mult = s.range(-4, 4); bool integral = true; for (auto& q : z) if (q.d != 1) integral = false; if (integral) { for (auto& q : z) q = q * Z<0>(mult); e.addcol(z); } } }
            E.push_back(e); if (k + 1 < c.size() && e.n > c[k].size()) { /* extra cells have no cofaces */ }
            for (size_t j = 0; j < e.n; ++j) { std::vector<size_t> b; std::vector<int> co; auto p = s.perm(e.m); for (auto i : p) if (!e(i, j).zero()) { b.push_back(i); co.push_back((int)e(i, j).n); if (co.back() != 1 && co.back() != -1) multi = true; } CHECKEQ(x.add(b, co, k), j); }
            if (k + 1 < c.size()) { // pad the next boundary with zero rows for extra cells
                size_t extra = e.n - c[k].size(); for (size_t q = 0; q < extra; ++q) { ori[k].push_back(1); c[k].push_back(Spx(k + 1, 1000 + q)); } } s.note << E.back(); }
        auto C = bats::Chain(x, F<P>()); std::vector<size_t> nn; for (auto& e : E) nn.push_back(e.n); shapes<P>(C, nn, "cell chain complex"); auto d = all<P>(C, "boundary");
        for (size_t k = 1; k < E.size(); ++k) { DM<P> e(E[k].m, E[k].n); for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) e(i, j) = Z<P>((long)E[k](i, j).n); CHECKM(d[k] == e, "cell boundary " << k << ": " << d[k] << " expected " << e); auto I = x.boundary(k); for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) CHECKEQ(I(i, j), (int)E[k](i, j).n); }
        squareZero<P>(d, "cells"); s.nontrivial(multi); });
}
template <int P> std::vector<DM<P>> permuted(const std::vector<DM<P>>& d, size_t k, const std::vector<size_t>& newpos) { // old index i of dimension k moves to newpos[i]
    auto r = d; std::vector<size_t> inv(newpos.size()); for (size_t i = 0; i < newpos.size(); ++i) inv[newpos[i]] = i; r[k] = r[k].cols(inv); if (k + 1 < r.size()) r[k + 1] = r[k + 1].rows(inv); return r;
}
template <int P> void eqAll(const CH<P>& C, const std::vector<DM<P>>& e, const char* w) { auto g = all<P>(C, w); CHECKM(g.size() == e.size(), w << ": number of boundaries"); for (size_t k = 1; k < e.size(); ++k) CHECKM(g[k] == e[k], w << ": boundary " << k << " is " << g[k] << " expected " << e[k]); for (size_t k = 0; k < e.size(); ++k) CHECKM(C.dim(k) == e[k].n, w << ": dim " << k); squareZero<P>(g, w); CHECKM(C.is_valid_complex(), w << ": is_valid_complex"); }
PROP(derived, "relative complexes (two constructors), subcomplexes, quotients by index lists, basis permutations and their inverses (one dimension and all), on random complexes with random subcomplexes over every field; matrices vs dense row and column selection; non-trivial: a proper non-empty subcomplex with an edge and a 2-simplex in the complex", 60000, 700000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.sized(1, 6); auto v = genC(s, n, 3, 5); s.note << sh(v); auto c = cellsOf(v); size_t md = c.size() - 1; SC x; for (auto q : v) x.add(q); CH<P> C(x); auto d = all<P>(C, "boundary"); squareZero<P>(d, "base"); CHECK(C.is_valid_complex());
        // random subcomplex
        std::set<Spx> A; long t = s.sized(0, 3); for (long i = 0; i < t; ++i) { auto q = closure({s.pick(v)}); A.insert(q.begin(), q.end()); } std::vector<Spx> av(A.begin(), A.end()); av = linearExtension(s, av); SC a; for (auto q : av) a.add(q); s.note << " A=" << sh(av);
        std::vector<std::vector<size_t>> in(md + 1), out(md + 1); for (size_t k = 0; k <= md; ++k) for (size_t i = 0; i < c[k].size(); ++i) (A.count(c[k][i]) ? in : out)[k].push_back(i);
        auto sel = [&](const std::vector<std::vector<size_t>>& ix) { std::vector<DM<P>> r; for (size_t k = 0; k <= md; ++k) r.push_back(k ? d[k].sub(ix[k - 1], ix[k]) : DM<P>(1, ix[0].size())); return r; };
        CH<P> R(x, a); eqAll<P>(R, sel(out), "relative complex"); auto R2 = bats::Chain(x, a, F<P>()); eqAll<P>(R2, sel(out), "Chain(X,A)");
        auto shuf = in; for (auto& q : shuf) { auto p = s.perm(q.size()); auto q0 = q; for (size_t i = 0; i < q.size(); ++i) q[i] = q0[p[i]]; } auto sh1 = shuf, sh2 = shuf;
        auto R3 = C.relative_complex(sh1); eqAll<P>(R3, sel(out), "relative_complex(indices)"); auto S = C.subcomplex(sh2); eqAll<P>(S, sel(in), "subcomplex");
        { auto S2 = C.subcomplex(shuf); CH<P> SA(a); auto g = S2; for (size_t k = 0; k <= a.maxdim(); ++k) CHECKEQ(SA.dim(k), S2.dim(k)); }
        // permutations
        auto cur = d; CH<P> Q = C; long m = s.sized(1, 4); for (long i = 0; i < m; ++i) { int op = s.draw(3); s.note << " perm" << op; if (op <= 1) { size_t k = s.range(0, md); auto p = s.perm(c[k].size()); s.note << k << pbt::show(p); if (op == 0) { Q.permute_basis(k, p); cur = permuted<P>(cur, k, p); } else { Q.ipermute_basis(k, p); std::vector<size_t> ip(p.size()); for (size_t j = 0; j < p.size(); ++j) ip[p[j]] = j; cur = permuted<P>(cur, k, ip); } }
            else { std::vector<std::vector<size_t>> ps; for (size_t k = 0; k <= md; ++k) ps.push_back(s.perm(c[k].size())); if (op == 2) Q.permute_basis(ps); else Q.ipermute_basis(ps); for (size_t k = 0; k <= md; ++k) { std::vector<size_t> ip(ps[k].size()); for (size_t j = 0; j < ps[k].size(); ++j) ip[ps[k][j]] = j; cur = permuted<P>(cur, k, op == 2 ? ps[k] : ip); } }
            eqAll<P>(Q, cur, "permuted basis"); }
        eqAll<P>(C, d, "original unchanged"); s.nontrivial(in[0].size() && out.size() && md >= 2 && md && in[1].size() && A.size() < v.size()); });
}
PROP(tensor, "tensor products of chain complexes of two random complexes, full and truncated at each dimension, over every field: dimensions are the Kuenneth sums, boundaries vs the Leibniz rule up to basis order within blocks, squares zero; non-trivial: both factors have an edge", 20000, 250000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto mk = [&](SC& x) { size_t n = s.sized(1, 4); auto v = genC(s, n, 2, 3); s.note << sh(v) << " (x) "; for (auto q : v) x.add(q); }; SC x, y; mk(x); mk(y); CH<P> A(x), B(y); auto a = all<P>(A, "A"), b = all<P>(B, "B"); bool full = s.coin(); size_t dm = A.maxdim() + B.maxdim(); if (!full) dm = s.range(0, dm + 1); s.note << " dmax=" << dm;
        CH<P> C = full ? tensor_product(A, B) : tensor_product(A, B, dm); CHECKEQ(C.maxdim(), dm);
        std::vector<std::map<size_t, size_t>> off(dm + 1); std::vector<size_t> nn(dm + 1, 0); for (size_t n = 0; n <= dm; ++n) for (size_t i = 0; i <= n; ++i) { size_t j = n - i; if (i > A.maxdim() || j > B.maxdim()) continue; off[n][i] = nn[n]; nn[n] += A.dim(i) * B.dim(j); }
        std::vector<DM<P>> e; for (size_t n = 0; n <= dm; ++n) { if (!n) { e.push_back(DM<P>(1, nn[0])); continue; } DM<P> r(nn[n - 1], nn[n]); for (size_t i = 0; i <= n; ++i) { size_t j = n - i; if (i > A.maxdim() || j > B.maxdim()) continue; for (size_t p = 0; p < A.dim(i); ++p) for (size_t q = 0; q < B.dim(j); ++q) { size_t col = off[n][i] + p * B.dim(j) + q; if (i) for (size_t t = 0; t < A.dim(i - 1); ++t) r(off[n - 1][i - 1] + t * B.dim(j) + q, col) = r(off[n - 1][i - 1] + t * B.dim(j) + q, col) + a[i](t, p); if (j) for (size_t t = 0; t < B.dim(j - 1); ++t) r(off[n - 1][i] + p * B.dim(j - 1) + t, col) = r(off[n - 1][i] + p * B.dim(j - 1) + t, col) + b[j](t, q) * Z<P>(i & 1 ? -1 : 1); } } e.push_back(r); }
        shapes<P>(C, nn, "tensor product"); eqAll<P>(C, e, "tensor product"); s.nontrivial(A.maxdim() && B.maxdim()); });
}
PROP(filtered, "filtered chain complexes and filtered differential graded spaces (both degrees) over random filtration values: columns appear in value order, boundaries are the re-indexed original ones and compose to zero; non-trivial: values not already sorted in some dimension", 40000, 400000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.sized(1, 6); auto v = genC(s, n, 3, 4); s.note << sh(v); auto c = cellsOf(v); size_t md = c.size() - 1; SC x; for (auto q : v) x.add(q); CH<P> C(x); auto d = all<P>(C, "boundary");
        std::vector<std::vector<double>> val(md + 1); std::map<Spx, double> vm; bool uns = false; for (size_t k = 0; k <= md; ++k) for (auto& q : c[k]) { double m = s.range(0, 6); if (q.size() > 1) for (size_t t = 0; t < q.size(); ++t) { Spx f = q; f.erase(f.begin() + t); m = std::max(m, vm[f]); } vm[q] = m; val[k].push_back(m); } for (auto& q : val) if (!std::is_sorted(q.begin(), q.end())) uns = true; s.note << pbt::show(val[0]);
        bats::Filtration<double, SC> f(x, val); auto G = bats::Chain(f, F<P>()); CHECK(G.val == val);
        auto chk = [&](const std::vector<std::vector<size_t>>& pm, bool rev, const char* w) { CHECKM(pm.size() == md + 1, w); for (size_t k = 0; k <= md; ++k) { std::vector<bool> seen(c[k].size(), false); CHECKM(pm[k].size() == c[k].size(), w << ": perm size"); for (size_t i = 0; i < pm[k].size(); ++i) { CHECKM(pm[k][i] < seen.size() && !seen[pm[k][i]], w << ": not a permutation"); seen[pm[k][i]] = true; if (i) { double p = val[k][pm[k][i - 1]], q = val[k][pm[k][i]]; CHECKM(rev ? p >= q : p <= q, w << ": order of values"); } } } };
        chk(G.perm, false, "filtered chain complex"); std::vector<DM<P>> e; for (size_t k = 0; k <= md; ++k) e.push_back(k ? d[k].sub(G.perm[k - 1], G.perm[k]) : DM<P>(1, c[0].size())); eqAll<P>(G.C, e, "filtered chain complex");
        for (int deg : {-1, 1}) { bats::FilteredDGVectorSpace<double, M<P>> H(f, deg); chk(H.perm, deg == 1, "filtered graded space"); for (size_t k = 1; k <= md; ++k) { auto g = fromLib<P>(H.C.differential[k], "differential"); auto ex = deg == -1 ? d[k].sub(H.perm[k - 1], H.perm[k]) : d[k].sub(H.perm[k - 1], H.perm[k]).T(); CHECKM(g == ex, "filtered differential degree " << deg << " dim " << k << ": " << g << " expected " << ex); } }
        s.nontrivial(uns); });
}
PROP(graded, "differential graded spaces of degree -1 and +1, plain and augmented, from simplicial, light and cubical complexes: differentials are the boundaries (transposed for degree +1), augmentation is all ones, every composite is zero, is_differential agrees; non-trivial: a 2-cell", 40000, 400000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; int kind = s.draw(2); auto go = [&](auto& x, size_t md) { typedef std::decay_t<decltype(x)> X; (void)sizeof(X); CH<P> C(x); auto d = all<P>(C, "boundary"); bool aug = s.coin(); int deg = s.coin() ? 1 : -1; s.note << " deg=" << deg << " aug=" << aug; bats::DGVectorSpace<M<P>> G(x, deg, aug); CHECKEQ((size_t)G.maxdim(), md); CHECKEQ(G.differential.size(), md + 2); CHECKEQ(G.degree, deg);
            std::vector<DM<P>> g; for (auto& m : G.differential) g.push_back(fromLib<P>(m, "differential")); size_t n0 = x.ncells(0); DM<P> a0(aug ? 1 : 0, n0); for (auto& r : a0.a) for (auto& q : r) q = Z<P>(1);
            if (deg == -1) { CHECKM(g[0] == a0, "augmentation " << g[0]); CHECK(g[md + 1].m == x.ncells(md) && g[md + 1].n == 0); } else { CHECKM(g[0] == a0.T(), "coaugmentation " << g[0]); CHECK(g[md + 1].n == x.ncells(md) && g[md + 1].m == 0); }
            for (size_t k = 1; k <= md; ++k) CHECKM(g[k] == (deg == -1 ? d[k] : d[k].T()), "differential " << k);
            for (size_t k = 0; k <= md; ++k) { CHECKM((deg == -1 ? g[k] * g[k + 1] : g[k + 1] * g[k]).zero(), "differentials " << k << " and " << k + 1 << " do not compose to zero"); if (deg == -1) CHECK(G.is_differential(k + 1)); else CHECK(G.is_differential(k)); CHECKEQ(G.dim(k), x.ncells(k)); }
            s.nontrivial(md >= 2 && x.ncells(2) > 0); };
        if (kind == 2) { size_t D = s.range(1, 3); CC x(D); long t = s.sized(1, 4); for (long i = 0; i < t; ++i) { Cube v; for (size_t j = 0; j < D; ++j) { size_t a = s.range(0, 2), l = s.coin(2, 3); v.push_back(a); v.push_back(a + l); } s.note << pbt::show(v); x.add_recursive(v); } go(x, D); }
        else { size_t n = s.sized(1, 6); auto v = genC(s, n, 3, 4); s.note << sh(v); auto c = cellsOf(v); if (kind == 0) { SC x; for (auto q : v) x.add(q); go(x, c.size() - 1); } else { LC x(n, c.size() - 1); for (auto& q : v) x.add(q); go(x, c.size() - 1); } } });
}
PROP(validity, "boundary and differential matrices of random complexes with up to two entries changed in any dimension, over every field: is_valid_complex and is_differential report exactly whether consecutive dense matrices compose to zero; non-trivial: a complex of dimension 2 or more made invalid", 40000, 400000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.sized(1, 6); auto v = genC(s, n, 3, 4); s.note << sh(v); SC x; for (auto q : v) x.add(q); CH<P> C(x); auto d = all<P>(C, "boundary"); long t = s.draw(2); for (long i = 0; i < t; ++i) { size_t k = s.draw(d.size() - 1); if (!d[k].m || !d[k].n) continue; size_t a = s.draw(d[k].m - 1), b = s.draw(d[k].n - 1); d[k](a, b) = d[k](a, b) + genZ<P>(s); s.note << " d" << k << "(" << a << "," << b << ")"; }
        std::vector<M<P>> B; for (auto& m : d) B.push_back(toMat<P>(m)); bool ok = true; for (size_t k = 0; k + 1 < d.size(); ++k) ok &= (d[k] * d[k + 1]).zero(); CHECKM(CH<P>(B).is_valid_complex() == ok, "is_valid_complex, expected " << ok);
        bats::DGVectorSpace<M<P>> G(x, -1, true), H(x, 1, true); for (size_t k = 1; k < d.size(); ++k) { G.differential[k] = B[k]; H.differential[k] = toMat<P>(d[k].T()); } DM<P> one(1, x.ncells(0)); for (auto& r : one.a) for (auto& q : r) q = Z<P>(1); for (size_t k = 1; k < d.size(); ++k) { auto& lo = k > 1 ? d[k - 1] : one; bool z = (lo * d[k]).zero(); CHECKM(G.is_differential(k) == z && H.is_differential(k - 1) == z, "is_differential in degree " << k << ", expected " << z); }
        s.nontrivial(!ok && d.size() > 2); });
}
PBT_MAIN("C12")
