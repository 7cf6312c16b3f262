// C30 Grid, level-set and image constructions produce the right complexes
#include "geomgen.hpp"
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::CubicalComplex CC; typedef std::vector<size_t> Cube_;
typedef bats::zigzag::ZigzagFiltration<CC, double> ZC;
template <class X> auto nameOf() { return std::is_same<X, SC>::value ? "trie" : "hash"; }
template <class Fn> void withCpx(Src& s, Fn fn) { if (s.coin()) { s.note << " trie"; fn((SC*)nullptr); } else { s.note << " hash"; fn((LightC*)nullptr); } }
// simplices of the monotone chains p0 <= p1 <= ... of grid points inside a unit cube; cube = spanned by the end points must be accepted
typedef std::vector<size_t> Pt;
static std::set<Spx> chainsOf(const std::vector<Pt>& pts, std::function<size_t(const Pt&)> idx, std::function<bool(const Pt&, const Pt&)> ok) {
    std::set<Spx> r; std::function<void(std::vector<Pt>)> go = [&](std::vector<Pt> c) { Spx q; for (auto& p : c) q.push_back(idx(p)); std::sort(q.begin(), q.end()); CHECK(r.insert(q).second); for (auto& p : pts) { if (p == c.back()) continue; bool good = true; for (size_t i = 0; i < p.size(); ++i) good &= p[i] >= c.back()[i] && p[i] <= c[0][i] + 1; if (!good || !ok(c[0], p)) continue; auto t = c; t.push_back(p); go(t); } };
    for (auto& p : pts) if (ok(p, p)) go({p}); return r;
}
static std::set<Cube_> cubesOf(const std::vector<std::pair<size_t, size_t>>& rg) { // all unit cubes with corners in the box of ranges [a,b)
    std::set<Cube_> r{{}}; for (auto& g : rg) { std::set<Cube_> t; for (auto& c : r) for (size_t a = g.first; a < g.second; ++a) for (size_t l = 0; l < 2 && a + l < g.second; ++l) { auto q = c; q.push_back(a); q.push_back(a + l); t.insert(q); } r = t; } return r;
}
static std::vector<Pt> pointsOf(const std::vector<std::pair<size_t, size_t>>& rg) { std::vector<Pt> r{{}}; for (auto& g : rg) { std::vector<Pt> t; for (auto& c : r) for (size_t a = g.first; a < g.second; ++a) { auto q = c; q.push_back(a); t.push_back(q); } r = t; } return r; }
static std::set<Cube_> cubeSet(const CC& X) { std::set<Cube_> r; for (size_t k = 0; k <= X.maxdim(); ++k) for (size_t i = 0; i < X.ncells(k); ++i) { auto c = X.get_cube(k, i); Cube_ q(c.begin(), c.end()); size_t d = 0; for (size_t j = 0; j < q.size(); j += 2) d += q[j + 1] - q[j]; CHECKM(d == k, "cube " << pbt::show(q) << " in dimension " << k); CHECKM(r.insert(q).second, "cube " << pbt::show(q) << " twice"); CHECK(X.find_idx(q) == i); } return r; }
template <class T> void sameSets(const std::set<T>& g, const std::set<T>& w, const char* n) { for (auto& q : g) CHECKM(w.count(q), n << ": unexpected cell " << pbt::show(q)); for (auto& q : w) CHECKM(g.count(q), n << ": missing cell " << pbt::show(q)); }
template <int P, class X> std::vector<long> bettis(const X& x) { auto c = cxOf<P>(bats::ChainComplex<M<P>>(x)); std::vector<long> b; for (size_t k = 0; k <= x.maxdim(); ++k) b.push_back(c.betti(k)); return b; }
template <int P, class X> std::vector<long> libBettis(const X& x) { bats::ChainComplex<M<P>> C(x); bats::ReducedChainComplex<M<P>> R(C); std::vector<long> b; for (size_t k = 0; k <= x.maxdim(); ++k) b.push_back(R.hdim(k)); return b; }
template <int P, class X> void acyclic(const X& x, const char* w) { if (x.ncells(0) > 30) return; auto b = libBettis<P>(x); for (size_t k = 0; k < b.size(); ++k) CHECKM(b[k] == (k == 0), w << ": Betti number " << k << " of a grid is " << b[k]); }
PROP(grids, "2- and 3-dimensional grids with 2 to 6 points along each axis (unequal sizes), trie and hash complexes: exactly the monotone chains of the Freudenthal triangulation, exactly the cubes of the cubical grid, Betti numbers of a point; non-trivial: all side lengths different", 1500, 15000) {
    bool three = s.coin(); size_t a = bigN(s, 2, three ? 4 : 7, three ? 9 : 20, 40), b = bigN(s, 2, three ? 5 : 7, three ? 9 : 20, 40), c = bigN(s, 2, 4, 9, 40); s.note << a << "x" << b; if (three) s.note << "x" << c; std::vector<std::pair<size_t, size_t>> rg{{0, a}, {0, b}}; if (three) rg.push_back({0, c}); auto pts = pointsOf(rg); auto all = [](const Pt&, const Pt&) { return true; };
    auto want = chainsOf(pts, [&](const Pt& p) { return three ? (p[0] * b + p[1]) * c + p[2] : p[0] * b + p[1]; }, all);
    withCpx(s, [&](auto* t) { typedef typename std::remove_pointer<decltype(t)>::type X; auto x = three ? bats::Freudenthal<X>(a, b, c) : bats::Freudenthal<X>(a, b); CHECK(x.maxdim() == (three ? 3u : 2u)); sameSets(cellSet(x, "Freudenthal"), want, "Freudenthal"); acyclic<3>(x, "Freudenthal"); });
    auto q = three ? bats::Cube(a, b, c) : bats::Cube(a, b); sameSets(cubeSet(q), cubesOf(rg), "Cube"); acyclic<3>(q, "Cube"); if (three && a == b && b == c) sameSets(cubeSet(bats::CubicalComplex::generate_cube(a)), cubesOf(rg), "generate_cube"); else if (!three && s.coin(1, 4)) { size_t m = s.range(2, 4); sameSets(cubeSet(bats::CubicalComplex::generate_cube(m)), cubesOf({{0, m}, {0, m}, {0, m}}), "generate_cube"); } CHECK(pbt::throws([] { bats::CubicalComplex::generate_cube(1); })); s.nontrivial(a != b && (!three || (a != c && b != c)));
}
PROP(subgrids, "boxes inside 3-dimensional grids, also flat in one direction, anywhere in the grid: exactly the simplices of the grid's triangulation (with its vertex numbers) and the cubes inside the box, Betti numbers of a point; non-trivial: a flat box away from the origin", 3000, 30000) {
    size_t n[3]; std::vector<std::pair<size_t, size_t>> rg; size_t flat = s.draw(4); for (size_t i = 0; i < 3; ++i) { bool big = s.coin(1, 60); n[i] = big ? s.range(6, 14) : s.range(2, 5); size_t lo = s.range(0, flat == i ? n[i] - 1 : n[i] - 2), hi = flat == i ? lo + 1 : s.range(lo + 2, std::min(n[i], lo + (big ? 9 : 4))); rg.push_back({lo, hi}); s.note << n[i] << "[" << lo << "," << hi << ")"; }
    auto want = chainsOf(pointsOf(rg), [&](const Pt& p) { return (p[0] * n[1] + p[1]) * n[2] + p[2]; }, [](const Pt&, const Pt&) { return true; });
    withCpx(s, [&](auto* t) { typedef typename std::remove_pointer<decltype(t)>::type X; auto x = bats::Freudenthal<X>(n[0], n[1], n[2], rg[0].first, rg[0].second, rg[1].first, rg[1].second, rg[2].first, rg[2].second); sameSets(cellSet(x, "Freudenthal of a box"), want, "Freudenthal of a box"); acyclic<2>(x, "Freudenthal of a box");
        if (s.coin(1, 3)) { auto big = cellSet(bats::Freudenthal<X>(n[0], n[1], n[2]), "whole grid"); for (auto& q : want) CHECKM(big.count(q), "box simplex " << pbt::show(q) << " is not in the whole grid"); } });
    auto q = bats::Cube(n[0], n[1], n[2], rg[0].first, rg[0].second, rg[1].first, rg[1].second, rg[2].first, rg[2].second); sameSets(cubeSet(q), cubesOf(rg), "Cube of a box"); acyclic<2>(q, "Cube of a box"); s.nontrivial(flat < 3 && rg[flat].first > 0);
}
PROP(triangulated_cubical, "Freudenthal triangulation of arbitrary 3-dimensional cubical complexes (cubes of mixed dimension, gaps): exactly the monotone chains whose spanned cube is present, and the same Betti numbers over F2 and F3; a 2-dimensional complex is refused; non-trivial: cubes of at least two top dimensions or homology beyond one component", 3000, 30000) {
    auto X = genCubical(s, 3, 6, 2); size_t n[3]; for (auto& x : n) x = s.range(4, 5); s.note << " grid " << n[0] << "," << n[1] << "," << n[2]; auto cs = cubeSet(X); std::vector<Pt> pts = pointsOf({{0, 4}, {0, 4}, {0, 4}});
    auto want = chainsOf(pts, [&](const Pt& p) { return (p[0] * n[1] + p[1]) * n[2] + p[2]; }, [&](const Pt& a, const Pt& b) { Cube_ q; for (size_t i = 0; i < 3; ++i) { q.push_back(a[i]); q.push_back(b[i]); } return cs.count(q) > 0; });
    auto b2 = bettis<2>(X), b3 = bettis<3>(X); withCpx(s, [&](auto* t) { typedef typename std::remove_pointer<decltype(t)>::type Y; auto F = bats::Freudenthal<Y>(X, n[0], n[1], n[2]); sameSets(cellSet(F, "triangulation"), want, "triangulation"); CHECKM(libBettis<2>(F) == b2 && libBettis<3>(F) == b3, "Betti numbers of the triangulation differ from those of the cubical complex"); CHECK(pbt::throws([&] { bats::Freudenthal<Y>(CC(2), 3, 3, 3); })); });
    s.nontrivial(b2[0] > 1 || b2[1] || b2[2] || (X.ncells(3) && 12 * X.ncells(3) > X.ncells(1) * 3));
}
struct Img { size_t n[3]; std::vector<std::vector<std::vector<double>>> v; };
static Img genImg(Src& s, size_t side) { Img g; for (auto& x : g.n) x = s.range(1, side); long sp = s.range(0, 6); double sc = s.coin() ? 1 : 0.25, off = s.coin(1, 6) ? 1073741824.0 : s.coin(1, 3) ? -sp * sc : s.coin(1, 3) ? -2 * sp * sc - 1 : 0; g.v.resize(g.n[0]); for (auto& a : g.v) { a.resize(g.n[1]); for (auto& b : a) { b.resize(g.n[2]); for (auto& c : b) c = off + sc * (double)s.range(0, 2 * sp); } } s.note << pbt::show(g.n[0]) << "x" << g.n[1] << "x" << g.n[2] << ":"; for (auto& a : g.v) for (auto& b : a) s.note << pbt::show(b); return g; }
static std::map<Cube_, std::pair<double, double>> toplexOf(const Img& g) { std::map<Cube_, std::pair<double, double>> m; for (size_t i = 0; i < g.n[0]; ++i) for (size_t j = 0; j < g.n[1]; ++j) for (size_t k = 0; k < g.n[2]; ++k) { double v = g.v[i][j][k]; for (auto& c : cubesOf({{i, i + 2}, {j, j + 2}, {k, k + 2}})) { auto it = m.emplace(c, std::make_pair(v, v)).first; it->second.first = std::min(it->second.first, v); it->second.second = std::max(it->second.second, v); } } return m; }
PROP(toplex, "images of 1 to 3 voxels along each axis with ties, all-negative and mixed values, double and int: every cube of the voxel grid once, with the smallest and largest value over the voxels containing it; non-trivial: an edge whose interval is longer than that of some voxel face containing it", 8000, 80000) {
    auto g = genImg(s, 3); auto m = toplexOf(g); auto chk = [&](const auto& X, double sc) { auto& cx = X.complex(); CHECK(cx.maxdim() == 3); std::set<Cube_> want; for (auto& p : m) want.insert(p.first); sameSets(cubeSet(cx), want, "toplex"); for (size_t k = 0; k <= 3; ++k) { CHECK(X.ncells(k) == cx.ncells(k)); for (size_t i = 0; i < cx.ncells(k); ++i) { auto c = cx.get_cube(k, i); Cube_ q(c.begin(), c.end()); auto& iv = X.vals(k)[i]; CHECKM(iv.size() == 1, "cube " << pbt::show(q) << " has " << iv.size() << " intervals"); auto w = m.at(q); CHECKM(iv[0].first * sc == w.first && iv[0].second * sc == w.second, "cube " << pbt::show(q) << " is present on [" << iv[0].first * sc << "," << iv[0].second * sc << "], expected [" << w.first << "," << w.second << "]"); } } };
    if (s.coin() || g.v[0][0][0] > 1e6) chk(bats::zigzag_toplex(g.v), 1); else { std::vector<std::vector<std::vector<int>>> v; for (auto& a : g.v) { v.emplace_back(); for (auto& b : a) { v.back().emplace_back(); for (auto c : b) v.back().back().push_back((int)(4 * c)); } } chk(bats::zigzag_toplex(v), 0.25); }
    bool nt = false; for (auto& p : m) { size_t d = 0; for (size_t j = 0; j < 6; j += 2) d += p.first[j + 1] - p.first[j]; if (d == 1 && p.second.first < p.second.second) nt = true; } s.nontrivial(nt);
}
typedef std::map<std::pair<size_t, size_t>, long> BarCount;
// windows [s,s+eps] and [s,s+2eps] alternate; checks nodes, directions, maps and barcodes
template <int P, class X> void levelZigzag(Src& s, const bats::zigzag::ZigzagFiltration<X, double>& F, double lo, double hi, double sc, bool& nt) {
    double eps = sc * (double)s.range(1, 3), t0 = lo + sc * (double)s.range(-1, 1), t1 = t0 + eps + sc * (double)s.range(0, s.coin(1, 60) ? 60l : std::min(12l, std::max(1l, (long)((hi - lo) / sc)))); if (s.coin(1, 8)) t1 = t0; s.note << " eps " << eps << " from " << t0 << " to " << t1; auto D = bats::zigzag_levelsets(F, eps, t0, t1);
    std::vector<std::pair<double, double>> w{{t0, t0 + eps}}; for (double a = t0; a + eps < t1; a += eps) { w.push_back({a, a + 2 * eps}); w.push_back({a + eps, a + 2 * eps}); } CHECKM(D.nnode() == w.size() && D.nedge() + 1 == w.size(), "number of nodes " << D.nnode() << " expected " << w.size()); auto& X0 = F.complex();
    std::vector<std::set<Cube_>> cells; for (size_t i = 0; i < w.size(); ++i) { std::set<Cube_> want, got; for (size_t k = 0; k <= X0.maxdim(); ++k) for (size_t j = 0; j < X0.ncells(k); ++j) { bool in = false; for (auto& p : F.vals(k)[j]) in |= p.first <= w[i].second && p.second >= w[i].first; if (in) { auto c = X0.get_cell(k, j); want.insert(Cube_(c.begin(), c.end())); } } auto& Y = D.node_data(i); for (size_t k = 0; k <= Y.maxdim(); ++k) for (size_t j = 0; j < Y.ncells(k); ++j) { auto c = Y.get_cell(k, j); CHECK(got.insert(Cube_(c.begin(), c.end())).second); } sameSets(got, want, "level set"); cells.push_back(want); }
    size_t md = X0.maxdim(); std::vector<Cx<P>> cx; for (size_t i = 0; i < w.size(); ++i) cx.push_back(cxOf<P>(bats::ChainComplex<M<P>>(D.node_data(i)))); std::vector<std::vector<DM<P>>> maps(w.size() - 1); std::vector<bool> dir;
    for (size_t i = 0; i + 1 < w.size(); ++i) { size_t a = i % 2 ? i + 1 : i, b = i % 2 ? i : i + 1; CHECKM(D.edge_source(i) == a && D.edge_target(i) == b, "ends of edge " << i); dir.push_back(b == i + 1); auto &A = D.node_data(a), &B = D.node_data(b); nt |= cells[a] != cells[b] && !cells[a].empty();
        for (size_t k = 0; k <= md; ++k) { DM<P> r(B.ncells(k), A.ncells(k)); for (size_t j = 0; j < A.ncells(k); ++j) { auto c = A.get_cell(k, j); size_t q = B.find_idx(c); CHECK(q != bats::NO_IND); r(q, j) = Z<P>(1); auto& col = D.edge_data(i)[k][j]; CHECKM(col.nnz() == 1 && col.nzbegin()->ind == q && col.nzbegin()->val == 1, "edge " << i << " does not include cell " << pbt::show(Cube_(c.begin(), c.end()))); } CHECK(D.edge_data(i)[k].ncol() == A.ncells(k)); if (A.ncells(k)) CHECK(D.edge_data(i)[k].nrow() == B.ncells(k)); maps[i].push_back(r); } }
    if (w.size() > 12) return; auto C = bats::Chain(D, orc::F<P>()); for (size_t k = 0; k < std::min<size_t>(md, 2); ++k) { std::vector<size_t> dim; std::vector<DM<P>> f; std::vector<HomBasis<P>> h; for (auto& x : cx) { Mask m; for (size_t q = 0; q < x.d.size(); ++q) m.push_back(std::vector<char>(x.dim(q), 1)); h.push_back(homOfMask(x, m, k)); dim.push_back(h.back().H.n); } for (size_t i = 0; i + 1 < w.size(); ++i) { size_t a = i % 2 ? i + 1 : i, b = i % 2 ? i : i + 1; f.push_back(homCoords(h[b], maps[i][k] * h[a].H)); }
        if (w.size() == 1) continue; BarCount got, want; for (auto& p : bats::barcode(bats::Hom(C, k), k)) ++got[{(size_t)p.birth, (size_t)p.death}]; for (auto& p : quiverBars<P>(dim, f, dir)) if (p.second) want[p.first] = p.second; CHECKM(got == want, "bars of the level set zigzag in degree " << k); }
}
PROP(image_levelsets, "level set zigzags of small images for windows aligned or not with the values: every node is the level set of its window, every edge the inclusion in the stated direction, and the barcode is that of the sequence; non-trivial: a proper inclusion of a non-empty level set", 800, 8000) {
    auto g = genImg(s, 2); double lo = 1e300, hi = -1e300; for (auto& a : g.v) for (auto& b : a) for (auto c : b) { lo = std::min(lo, c); hi = std::max(hi, c); } bool nt = false; auto F = bats::zigzag_toplex(g.v); levelZigzag<2>(s, F, lo, hi, s.coin() ? 0.5 : 0.25, nt); s.nontrivial(nt);
}
PROP(function_levelsets, "level set zigzags of thickened functions on random trie and hash complexes: as above, over F3; non-trivial: a proper inclusion of a non-empty level set", 2000, 20000) {
    size_t n = someN(s, 6); auto v = linearExtension(s, genComplex(s, n, 2, 5)); s.note << showTops(v); std::vector<double> f0; double off = s.coin(1, 6) ? 1073741824.0 : 0; for (size_t i = 0; i < n; ++i) f0.push_back((double)s.range(-6, 6) / 2 + off); s.note << " f" << pbt::show(f0); double eps = s.range(12, 14) / 2.0; bool nt = false; s.note << " thick " << eps;
    if (s.coin()) levelZigzag<3>(s, bats::zigzag::extend_zigzag_filtration(f0, buildSC(v), eps), off - 6, off + 6, 0.5, nt); else levelZigzag<3>(s, bats::zigzag::extend_zigzag_filtration(f0, buildLC(v, n, 2), eps), off - 6, off + 6, 0.5, nt); s.nontrivial(nt);
}
PROP(subdivided_triangles, "iterated triangle subdivision with 1 to 5 levels over a field: every node is a complex (boundary of a boundary is zero) with one component and 3^i loops, every edge is a chain map, injective on loops; non-trivial: at least three levels", 60, 400) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t k = s.range(1, 4); s.note << " levels " << k; auto D = bats::serpinski_diagram(k); CHECK(D.nnode() == k && D.nedge() == k - 1); std::vector<Cx<P>> cx; long p3 = 1;
        for (size_t i = 0; i < k; ++i) { auto& X = D.node_data(i); auto c = cxOf<P>(bats::ChainComplex<M<P>>(X)); for (size_t d = 2; d < c.d.size(); ++d) { auto z = c.d[d - 1] * c.d[d]; CHECKM(z == DM<P>(z.m, z.n), "boundary of a boundary is not zero at level " << i << " in dimension " << d); } CHECKM(c.betti(0) == 1 && c.betti(1) == p3 && c.betti(2) == 0, "Betti numbers at level " << i << " are " << c.betti(0) << "," << c.betti(1) << "," << c.betti(2) << " expected 1," << p3 << ",0"); p3 *= 3; cx.push_back(c); }
        for (size_t i = 0; i + 1 < k; ++i) { CHECK(D.edge_source(i) == i && D.edge_target(i) == i + 1); bats::ChainMap<M<P>> f(D.edge_data(i)); std::vector<DM<P>> m; for (size_t d = 0; d <= 2; ++d) { if (d < cx[i].d.size() && cx[i].dim(d)) { m.push_back(matOf<P>(f[d], "edge")); CHECK(m[d].n == cx[i].dim(d) && m[d].m == cx[i + 1].dim(d)); } else m.push_back(DM<P>(cx[i + 1].dim(d), 0)); } CHECKM(m[0] * cx[i].d[1] == cx[i + 1].d[1] * m[1], "edge " << i << " does not commute with the boundary of edges"); if (m[2].n) CHECKM(m[1] * cx[i].d[2] == cx[i + 1].d[2] * m[2], "edge " << i << " does not commute with the boundary of triangles"); CHECKM(m[0].rank() == m[0].n && m[1].rank() == m[1].n, "edge " << i << " is not injective"); } s.nontrivial(k >= 3); });
}
PBT_MAIN("C30")
