// complexgen.hpp - random chain complexes of many origins
#pragma once
#include "oracle.hpp"
namespace orc {
// random chain complex with d*d=0 given by matrices (not necessarily from a space)
template <int P> bats::ChainComplex<M<P>> genMatrixChain(pbt::Src& s) {
    size_t md = s.range(0, 3); bool big = P && s.coin(1, 50); std::vector<DM<P>> d; std::vector<size_t> n; for (size_t k = 0; k <= md; ++k) n.push_back(big ? (size_t)s.range(8, 30) : qcap<P>(s.sized(k == 0 ? 1 : 0, 6), 4));
    d.push_back(DM<P>(1, n[0]));
    for (size_t k = 1; k <= md; ++k) { DM<P> N = d[k - 1].null(); if (k == 1) N = DM<P>::eye(n[0]); d.push_back(N.n ? N * genMat<P>(s, N.n, n[k]) : DM<P>(n[k - 1], n[k])); }
    std::vector<M<P>> b; for (auto& x : d) { s.note << x; b.push_back(toMat<P>(x)); }
    return bats::ChainComplex<M<P>>(b);
}
inline std::string showTops(const std::vector<Spx>& v) { std::ostringstream o; for (auto& x : v) if (x.size() > 1 || v.size() < 4) o << pbt::show(x); return o.str(); }
inline bats::SimplicialComplex buildSC(const std::vector<Spx>& v) { bats::SimplicialComplex x; for (auto q : v) x.add(q); return x; }
inline bats::CubicalComplex genCubical(pbt::Src& s, size_t D, long tops, long side) {
    bats::CubicalComplex x(D); long t = s.sized(1, tops);
    for (long i = 0; i < t; ++i) { std::vector<size_t> v; for (size_t j = 0; j < D; ++j) { size_t a = s.range(0, side), l = s.coin(2, 3); v.push_back(a); v.push_back(a + l); } s.note << pbt::show(v); x.add_recursive(v); }
    if (s.coin()) return x;
    bats::CubicalComplex y(D); // the same cubes added one at a time, faces first, in any order within a dimension
    for (size_t d = 0; d <= D; ++d) { auto c = x.get_cubes(d); for (auto i : s.perm(c.size())) y.add(c[i]); }
    return y;
}
// cell complex: circle wedge with 2-cells attached by multiples, and 3-cells on integer cycles
inline bats::CellComplex genCell(pbt::Src& s) {
    bats::CellComplex x; size_t n = s.range(1, 4); x.add_vertices(n); size_t ne = s.range(0, 5); std::vector<std::pair<size_t, size_t>> ed;
    for (size_t i = 0; i < ne; ++i) { size_t a = s.range(0, n - 1), b = s.range(0, n - 1); ed.push_back({a, b}); if (a == b) x.add({}, {}, 1); else x.add({a, b}, {-1, 1}, 1); s.note << "e" << a << b; }
    DM<0> d1(n, ne); for (size_t i = 0; i < ne; ++i) if (ed[i].first != ed[i].second) { d1(ed[i].first, i) = Z<0>(-1); d1(ed[i].second, i) = Z<0>(1); }
    if (ne) { DM<0> N = d1.null(); size_t nf = N.n ? s.range(0, 3) : 0; for (size_t f = 0; f < nf; ++f) { std::vector<long> c(ne, 0); bool ok = true; for (size_t q = 0; q < N.n; ++q) { long m = s.coin() ? s.range(-3, 3) : 0; for (size_t i = 0; i < ne; ++i) { auto z = N(i, q); if (z.d != 1) ok = false; c[i] += m * (long)z.n; } } if (!ok) continue; std::vector<size_t> b; std::vector<int> co; auto p = s.perm(ne); for (auto i : p) if (c[i]) { b.push_back(i); co.push_back((int)c[i]); } x.add(b, co, 2); s.note << " f" << pbt::show(c); } }
    return x;
}
inline size_t mdOf(const std::vector<Spx>& v) { size_t m = 0; for (auto& q : v) m = std::max(m, q.size() - 1); return m; }
template <int P> bats::ChainComplex<M<P>> genChain(pbt::Src& s, size_t maxn = 6) {
    typedef bats::ChainComplex<M<P>> C; int kind = s.draw(7); s.note << "kind" << kind << " ";
    switch (kind) {
        case 0: case 1: { size_t n = someN(s, maxn); auto v = linearExtension(s, genComplex(s, n, 3, 5)); s.note << showTops(v); return C(buildSC(v)); }
        case 2: { size_t n = someN(s, maxn); auto v = linearExtension(s, genComplex(s, n, 3, 5)); s.note << showTops(v); bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> x(n, mdOf(v) + s.draw(1)); for (auto& q : v) x.add(q); return C(x); }
        case 3: { size_t D = s.coin(1, 12) ? 4 : s.range(1, 3); return C(genCubical(s, D, D > 3 ? 2 : 4, D > 3 ? 1 : 2)); }
        case 4: return C(genCell(s));
        case 5: { size_t n = someN(s, maxn); auto v = linearExtension(s, genComplex(s, n, 3, 5)); std::set<Spx> A; long t = s.sized(0, 3); for (long i = 0; i < t; ++i) { auto q = closure({s.pick(v)}); A.insert(q.begin(), q.end()); } std::vector<Spx> av(A.begin(), A.end()); byDim(av); s.note << showTops(v) << " rel " << showTops(av); return C(buildSC(v), buildSC(av)); }
        case 6: { auto mk = [&] { size_t n = s.sized(1, 3); auto v = linearExtension(s, genComplex(s, n, 2, 2)); s.note << showTops(v) << "x"; return buildSC(v); }; auto a = mk(), b = mk(); return tensor_product(C(a), C(b)); }
        default: return genMatrixChain<P>(s);
    }
}
// dense chain complex and ranks of maps on homology
template <int P> struct Cx {
    std::vector<DM<P>> d;
    size_t dim(size_t k) const { return k < d.size() ? d[k].n : 0; }
    DM<P> Z(size_t k) const { return k < d.size() ? (k == 0 ? DM<P>::eye(d[0].n) : d[k].null()) : DM<P>(0, 0); }
    DM<P> B(size_t k) const { return k + 1 < d.size() ? d[k + 1] : DM<P>(dim(k), 0); }
    long betti(size_t k) const { return k < d.size() ? (long)d[k].n - (k ? (long)d[k].rank() : 0) - (long)B(k).rank() : 0; }
};
template <int P> long hrank(const Cx<P>& X, const Cx<P>& Y, const DM<P>& f, size_t k) { auto z = X.Z(k); if (!z.n || !Y.dim(k)) return 0; return (long)(f * z).hcat(Y.B(k)).rank() - (long)Y.B(k).rank(); }
template <int P> Cx<P> cxOf(const std::vector<Spx>& v, std::vector<std::vector<Spx>>* cells = nullptr) { auto c = cellsOf(v); Cx<P> r; for (size_t k = 0; k < c.size(); ++k) r.d.push_back(k ? simplicialBoundary<P>(c, k) : DM<P>(1, c[0].size())); if (cells) *cells = c; return r; }
template <int P> Cx<P> cxOf(const bats::ChainComplex<M<P>>& C) { Cx<P> r; for (size_t k = 0; k <= C.maxdim(); ++k) r.d.push_back(matOf<P>(C.boundary[k], "boundary")); return r; }
template <int P> bats::ReducedChainComplex<M<P>> redOpt(const bats::ChainComplex<M<P>>& C, int o) {
    typedef bats::ReducedChainComplex<M<P>> RC; bats::compute_basis_flag b; bats::clearing_flag c;
    switch (o) { case 0: return RC(C); case 1: return RC(C, bats::standard_reduction_flag(), b); case 2: return RC(C, bats::extra_reduction_flag(), b); case 3: return RC(C, bats::divide_conquer_flag(), b); case 4: return RC(C, bats::standard_reduction_flag(), c, b); case 5: return RC(C, bats::extra_reduction_flag(), c, b); default: return RC(C, bats::divide_conquer_flag(), c, b); }
}
inline const char* redName(int o) { static const char* n[] = {"default", "standard", "extra", "divide_conquer", "standard+clearing", "extra+clearing", "divide_conquer+clearing"}; return n[o]; }
inline Spx imageOf(const Spx& q, const std::vector<size_t>& f) { std::set<size_t> r; for (auto x : q) r.insert(f[x]); return Spx(r.begin(), r.end()); }
typedef bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> LightC;
inline LightC buildLC(const std::vector<Spx>& v, size_t n, size_t md) { LightC x(n, md); for (auto& q : v) x.add(q); return x; }
// simplicial source, target and vertex map (the target may have extra cells)
struct SMap { std::vector<Spx> x, y; std::vector<size_t> f; size_t n, m; };
inline SMap genSMap(pbt::Src& s, size_t maxn = 6, const std::vector<Spx>* src = nullptr, size_t srcn = 0) {
    SMap r; r.n = src ? srcn : s.sized(1, maxn); r.m = s.sized(1, maxn); r.x = src ? *src : linearExtension(s, genComplex(s, r.n, 3, 4)); int kind = s.draw(3); if (kind == 0) r.m = r.n; if (kind == 1) r.m = std::max(r.m, r.n);
    r.f.resize(r.n); if (kind == 0) r.f = s.perm(r.n); else for (size_t i = 0; i < r.n; ++i) r.f[i] = kind == 1 ? i : s.range(0, r.m - 1);
    std::set<Spx> ys; for (auto& q : r.x) { auto c = closure({imageOf(q, r.f)}); ys.insert(c.begin(), c.end()); } if (s.coin(2, 3)) for (auto& q : genComplex(s, r.m, 3, 2)) ys.insert(q); for (size_t i = 0; i < r.m; ++i) ys.insert({i});
    std::vector<Spx> y0(ys.begin(), ys.end()); byDim(y0); r.y = linearExtension(s, y0); return r;
}
// any complex type: fn(X) with a space built in random insertion order
template <class Fn> void withComplex(pbt::Src& s, Fn fn, size_t maxn = 6, bool cells = true) {
    int kind = s.draw(cells ? 6 : 5);
    if (kind <= 2) { size_t n = someN(s, maxn); auto v = linearExtension(s, genComplex(s, n, 3, 5)); s.note << showTops(v); fn(buildSC(v)); }
    else if (kind <= 4) { size_t n = someN(s, maxn); auto v = linearExtension(s, genComplex(s, n, 3, 5)); s.note << "light" << showTops(v); fn(buildLC(v, n, mdOf(v) + (s.coin(1, 4) ? 1 : 0))); }
    else if (kind == 5) { size_t D = s.coin(1, 12) ? 4 : s.range(1, 3); s.note << "cube"; fn(genCubical(s, D, D > 3 ? 2 : 4, D > 3 ? 1 : 2)); }
    else fn(genCell(s));
}
// support of the boundary of every cell (faces with non-zero coefficient), any complex type
template <class X> std::vector<std::vector<std::vector<size_t>>> facesOf(const X& x) {
    std::vector<std::vector<std::vector<size_t>>> r(x.maxdim() + 1); bats::ChainComplex<M<0>> C(x);
    for (size_t k = 0; k <= x.maxdim(); ++k) { r[k].resize(x.ncells(k)); if (k) for (size_t j = 0; j < x.ncells(k); ++j) for (auto it = C.boundary[k][j].nzbegin(); it != C.boundary[k][j].nzend(); ++it) r[k][j].push_back(it->ind); }
    return r;
}
typedef std::vector<std::vector<double>> Vals;
typedef std::vector<std::vector<std::vector<size_t>>> Faces;
// monotone values (every cell at least its faces), negative values and ties included
inline Vals genVals(pbt::Src& s, const Faces& f) {
    Vals v(f.size()); int mode = s.draw(4); long span = s.range(1, 6); double sc = s.coin() ? 1.0 : 0.25, off = s.coin(1, 3) ? -3.0 : s.coin(1, 8) ? 1073741824.0 : 0.0; // the last: values a single-precision number cannot hold
    for (size_t k = 0; k < f.size(); ++k) for (size_t j = 0; j < f[k].size(); ++j) {
        double b = off; for (auto i : f[k][j]) b = std::max(b, v[k - 1][i]);
        double q;
        if (f[k][j].empty()) q = mode == 0 ? off : off + sc * (double)s.draw(span * 2); else if (mode == 1) q = b; else if (mode == 2) q = std::max(b, off + sc * (double)s.draw(span * 2)); else q = b + sc * (double)s.draw(span) * (s.coin() ? 1 : 0);
        v[k].push_back(q);
    }
    return v;
}
inline std::string showVals(const Vals& v) { std::ostringstream o; for (auto& x : v) o << pbt::show(x); return o.str(); }
// canonical bars of a list of library pairs (zero length removed), and of the textbook reduction
template <class L> BarList libBars(const L& pairs) { BarList r; for (auto& p : pairs) { double d = p.death_ind == bats::NO_IND ? std::numeric_limits<double>::infinity() : (double)p.death; if ((double)p.birth != d) r.emplace_back(p.dim, (double)p.birth, d); } std::sort(r.begin(), r.end()); return r; }
// total order of all cells: by value, then dimension, then index; returns textbook bars with bi/di indices inside dimension
template <int P> std::vector<Bar> refBars(const Cx<P>& X, const Vals& v) {
    std::vector<std::tuple<double, size_t, size_t>> ord; for (size_t k = 0; k < X.d.size(); ++k) for (size_t j = 0; j < X.dim(k); ++j) ord.emplace_back(v[k][j], k, j); std::sort(ord.begin(), ord.end());
    std::vector<std::vector<size_t>> pos(X.d.size()); for (size_t k = 0; k < X.d.size(); ++k) pos[k].resize(X.dim(k)); for (size_t t = 0; t < ord.size(); ++t) pos[std::get<1>(ord[t])][std::get<2>(ord[t])] = t;
    std::vector<std::map<size_t, Z<P>>> b(ord.size()); std::vector<size_t> dm; std::vector<double> val; for (size_t t = 0; t < ord.size(); ++t) { size_t k = std::get<1>(ord[t]), j = std::get<2>(ord[t]); dm.push_back(k); val.push_back(std::get<0>(ord[t])); if (k) for (size_t i = 0; i < X.d[k].m; ++i) if (!X.d[k](i, j).zero()) b[t][pos[k - 1][i]] = X.d[k](i, j); }
    auto r = textbook<P>(b, dm, val); for (auto& q : r) { q.bi = std::get<2>(ord[q.bi]); if (!q.inf) q.di = std::get<2>(ord[q.di]); } return r;
}
// homology of subcomplexes of one complex (cells given by masks) and the maps induced by inclusions, dense and independent of the library
typedef std::vector<std::vector<char>> Mask;
template <int P> struct HomBasis { DM<P> B, H; };
inline std::vector<size_t> maskIdx(const Mask& m, size_t k) { std::vector<size_t> r; if (k < m.size()) for (size_t i = 0; i < m[k].size(); ++i) if (m[k][i]) r.push_back(i); return r; }
template <int P> HomBasis<P> homOfMask(const Cx<P>& X, const Mask& m, size_t k) {
    auto ck = maskIdx(m, k); DM<P> N = k ? X.d[k].cols(ck).null() : DM<P>::eye(ck.size()); DM<P> Zc(X.dim(k), N.n); for (size_t i = 0; i < ck.size(); ++i) for (size_t j = 0; j < N.n; ++j) Zc(ck[i], j) = N(i, j);
    DM<P> B = k + 1 < X.d.size() ? X.d[k + 1].cols(maskIdx(m, k + 1)) : DM<P>(X.dim(k), 0); DM<P> t = B; auto p = t.rref(); B = B.cols(p); DM<P> u = B.hcat(Zc); auto q = u.rref(); std::vector<size_t> h; for (auto c : q) if (c >= B.n) h.push_back(c - B.n); return {B, Zc.cols(h)};
}
template <int P> DM<P> homCoords(const HomBasis<P>& b, const DM<P>& Y) { DM<P> u = b.B.hcat(b.H).hcat(Y); auto q = u.rref(); size_t nb = b.B.n, nh = b.H.n; for (auto c : q) if (c >= nb + nh) PBT_FAIL("oracle: not a cycle of the target"); DM<P> r(nh, Y.n); for (size_t i = 0; i < nh; ++i) for (size_t j = 0; j < Y.n; ++j) r(i, j) = u(nb + i, nb + nh + j); return r; }
template <int P> std::map<std::pair<size_t, size_t>, long> subcomplexBars(const Cx<P>& X, const std::vector<Mask>& ms, const std::vector<bool>& grows, size_t k) {
    std::vector<HomBasis<P>> h; std::vector<size_t> dim; std::vector<DM<P>> f; for (auto& m : ms) { h.push_back(homOfMask(X, m, k)); dim.push_back(h.back().H.n); } for (size_t i = 0; i + 1 < ms.size(); ++i) f.push_back(grows[i] ? homCoords(h[i + 1], h[i].H) : homCoords(h[i], h[i + 1].H)); return quiverBars<P>(dim, f, grows);
}
} // namespace orc
