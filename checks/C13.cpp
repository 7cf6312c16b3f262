// C13 simplicial, cubical and cellular maps and their chain maps
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> LC; typedef bats::CubicalComplex CC;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using CM = bats::ChainMap<M<P>>;
static std::string sh(const std::vector<Spx>& v) { std::ostringstream o; for (auto& x : v) if (x.size() > 1 || v.size() < 4) o << pbt::show(x); return o.str(); }
static void buildTo(SC& x, const std::vector<Spx>& v, size_t, size_t) { for (auto q : v) x.add(q); }
static void buildTo(LC& x, const std::vector<Spx>& v, size_t n, size_t d) { x = LC(n, d); for (auto& q : v) x.add(q); }
static size_t maxd(const std::vector<Spx>& v) { size_t d = 0; for (auto& q : v) d = std::max(d, q.size() - 1); return d; }
static int sortSign(Spx& s) { int sg = 1; for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) { if (s[i] == s[j]) sg = 0; if (s[i] > s[j]) sg = -sg; } std::sort(s.begin(), s.end()); return sg; }
static Spx image(const Spx& q, const std::vector<size_t>& f) { std::set<size_t> r; for (auto x : q) r.insert(f[x]); return Spx(r.begin(), r.end()); }
template <int P, class X> std::vector<DM<P>> expected(const X& x, const X& y, const std::vector<size_t>& f) { std::vector<DM<P>> r; for (size_t k = 0; k <= (size_t)x.maxdim(); ++k) { DM<P> e(y.ncells(k), x.ncells(k)); for (size_t j = 0; j < e.n; ++j) { Spx q = x.get_simplex(k, j); for (auto& v : q) v = f[v]; int sg = sortSign(q); if (sg) { size_t i = y.find_idx(q); CHECK(i < e.m); e(i, j) = Z<P>(sg); } } r.push_back(e); } return r; }
template <int P> void eq(const CM<P>& F, const std::vector<DM<P>>& e, const char* w) { CHECKM(F.maxdim() + 1 == e.size(), w << ": " << F.maxdim() + 1 << " dimensions"); for (size_t k = 0; k < e.size(); ++k) { auto g = matOf<P>(F[k], w); CHECKM(g == e[k], w << ": dimension " << k << " is " << g << " expected " << e[k]); } }
template <int P> void commutes(const CM<P>& F, const CH<P>& C, const CH<P>& D, const char* w) { for (size_t k = 1; k <= C.maxdim(); ++k) { auto l = matOf<P>(F[k - 1], w) * matOf<P>(C.boundary[k], w); DM<P> r(l.m, l.n); if (k <= D.maxdim()) r = matOf<P>(D.boundary[k], w) * matOf<P>(F[k], w); CHECKM(l == r, w << ": does not commute with the boundary in dimension " << k << ": " << l << " vs " << r); } }
template <int P, class X> void simplicialBody(Src& s) {
    size_t n = someN(s, 6), m = s.sized(1, 6), l = s.sized(1, 5); auto v = linearExtension(s, genComplex(s, n, 3, 4)); bool perm = s.coin(1, 3); if (perm) m = n;
    std::vector<size_t> f(n), g(m); if (perm) f = s.perm(n); else for (auto& q : f) q = s.range(0, m - 1); for (auto& q : g) q = s.range(0, l - 1);
    std::set<Spx> ys; for (auto& q : v) { auto c = closure({image(q, f)}); ys.insert(c.begin(), c.end()); } for (auto& q : genComplex(s, m, 2, 2)) ys.insert(q); auto y = linearExtension(s, std::vector<Spx>(ys.begin(), ys.end())); std::set<Spx> zs; for (auto& q : y) { auto c = closure({image(q, g)}); zs.insert(c.begin(), c.end()); } for (size_t i = 0; i < l; ++i) zs.insert({i}); auto z = linearExtension(s, std::vector<Spx>(zs.begin(), zs.end()));
    s.note << "X=" << sh(v) << " Y=" << sh(y) << " f=" << pbt::show(f) << " g=" << pbt::show(g); X A, B, C; buildTo(A, v, n, maxd(v)); buildTo(B, y, m, maxd(y)); buildTo(C, z, l, maxd(z));
    bats::CellularMap F = bats::SimplicialMap(A, B, f), G = bats::SimplicialMap(B, C, g); CHECKEQ(F.maxdim(), maxd(v)); std::vector<size_t> h; for (auto q : f) h.push_back(g[q]); bats::CellularMap H = bats::SimplicialMap(A, C, h); auto cA = bats::Chain(A, orc::F<P>()), cB = bats::Chain(B, orc::F<P>()), cC = bats::Chain(C, orc::F<P>());
    CM<P> cf = bats::Chain(F, orc::F<P>()), cg = bats::Chain(G, orc::F<P>()), ch(H); auto ef = expected<P, X>(A, B, f), eg = expected<P, X>(B, C, g); eq<P>(cf, ef, "simplicial map"); eq<P>(cg, eg, "second simplicial map"); commutes<P>(cf, cA, cB, "simplicial map"); commutes<P>(cg, cB, cC, "second map"); commutes<P>(ch, cA, cC, "composite");
    for (size_t k = 0; k <= maxd(v); ++k) { DM<P> p(C.ncells(k), A.ncells(k)); if (k <= cg.maxdim()) p = matOf<P>(cg[k]) * matOf<P>(cf[k]); auto q = matOf<P>(ch[k]); CHECKM(p == q, "composite in dimension " << k << ": " << q << " product " << p); if (k <= cg.maxdim()) CHECK(matOf<P>(cg[k] * cf[k]) == q); }
    { auto I = bats::CellularMap::identity(A); CM<P> ci(I); std::vector<DM<P>> e; for (size_t k = 0; k <= maxd(v); ++k) e.push_back(DM<P>::eye(A.ncells(k))); eq<P>(ci, e, "identity"); auto J = bats::SimplicialMap(A, A); eq<P>(CM<P>(J), e, "inclusion into itself"); }
    // inclusion of the image complex into a larger complex with its own cell order
    { std::set<Spx> us(y.begin(), y.end()); for (auto& q : genComplex(s, m, 3, 2)) us.insert(q); auto u = linearExtension(s, std::vector<Spx>(us.begin(), us.end())); X U; buildTo(U, u, m, maxd(u)); bats::CellularMap inc = s.coin() ? bats::SimplicialMap(B, U) : bats::CellularMap(B, U); std::vector<size_t> id(m); for (size_t i = 0; i < m; ++i) id[i] = i; CM<P> ci(inc); eq<P>(ci, expected<P, X>(B, U, id), "inclusion"); commutes<P>(ci, cB, bats::Chain(U, orc::F<P>()), "inclusion"); }
    // a target missing a needed simplex
    { std::vector<Spx> im; for (auto& q : v) { auto t = image(q, f); if (t.size() == q.size()) im.push_back(t); } if (im.size()) { auto bad = s.pick(im); std::vector<Spx> y2; for (auto& q : y) if (!std::includes(q.begin(), q.end(), bad.begin(), bad.end())) y2.push_back(q); s.note << " missing " << pbt::show(bad); X B2; buildTo(B2, y2, m, y2.empty() ? 0 : maxd(y2)); CHECKM(pbt::throws([&] { bats::SimplicialMap(A, B2, f); }), "map into a complex without " << pbt::show(bad) << " accepted"); CHECKM(pbt::throws([&] { bats::CellularMap(B, B2); }), "inclusion into a smaller complex accepted"); } }
    bool neg = false, deg = false; for (size_t k = 1; k < ef.size(); ++k) for (size_t j = 0; j < ef[k].n; ++j) { auto c = ef[k].col(j); bool nz = false; for (auto& q : c) { if (!q.zero()) nz = true; if (q == Z<P>(-1)) neg = true; } if (!nz) deg = true; } if (neg) s.label("orientation reversed"); if (deg) s.label("degenerate image"); s.nontrivial(neg && deg);
}
PROP(simplicial, "simplicial maps between generated complexes (trie and light, arbitrary vertex maps including permutations and collapses onto lower dimension) over F2, F3, F5, Q: matrices vs oriented images, commute with boundaries, composites, identities, inclusions, error on a missing target; non-trivial: an orientation-reversing and a degenerate image (over F2 every image counts as reversed)", 40000, 500000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; if (s.coin(2, 3)) simplicialBody<P, SC>(s); else simplicialBody<P, LC>(s); });
}
PROP(relative, "relative chain maps of pairs (X,A) to (Y,B) with f(A) inside B, and relative_map by index lists: matrices are the quotient selections and commute with the relative boundaries; non-trivial: A and B proper and non-empty", 30000, 300000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 6), m = s.sized(1, 6); auto v = linearExtension(s, genComplex(s, n, 3, 4)); std::vector<size_t> f(n); for (auto& q : f) q = s.range(0, m - 1); std::set<Spx> ys, bs; for (auto& q : v) { auto c = closure({image(q, f)}); ys.insert(c.begin(), c.end()); } for (auto& q : genComplex(s, m, 2, 2)) ys.insert(q); auto y = linearExtension(s, std::vector<Spx>(ys.begin(), ys.end()));
        std::set<Spx> as; long t = s.sized(0, 3); for (long i = 0; i < t; ++i) { auto c = closure({s.pick(v)}); as.insert(c.begin(), c.end()); } for (auto& q : as) { auto c = closure({image(q, f)}); bs.insert(c.begin(), c.end()); } if (s.coin()) { auto c = closure({s.pick(y)}); bs.insert(c.begin(), c.end()); } auto a = linearExtension(s, std::vector<Spx>(as.begin(), as.end())), b = linearExtension(s, std::vector<Spx>(bs.begin(), bs.end()));
        s.note << "X=" << sh(v) << " A=" << sh(a) << " Y=" << sh(y) << " B=" << sh(b) << " f=" << pbt::show(f); SC X, A, Y, B; buildTo(X, v, 0, 0); buildTo(A, a, 0, 0); buildTo(Y, y, 0, 0); buildTo(B, b, 0, 0); auto F = bats::SimplicialMap(X, Y, f); auto full = expected<P, SC>(X, Y, f); CM<P> R(F, X, A, Y, B); CH<P> CX(X, A), CY(Y, B); std::vector<DM<P>> e; std::vector<std::vector<size_t>> ix, iy;
        for (size_t k = 0; k < full.size(); ++k) { std::vector<size_t> r, c, ri, ci; for (size_t i = 0; i < Y.ncells(k); ++i) (bs.count(Y.get_simplex(k, i)) ? ri : r).push_back(i); for (size_t i = 0; i < X.ncells(k); ++i) (as.count(X.get_simplex(k, i)) ? ci : c).push_back(i); e.push_back(full[k].sub(r, c)); ix.push_back(ci); iy.push_back(ri); }
        eq<P>(R, e, "relative chain map"); commutes<P>(R, CX, CY, "relative chain map"); for (auto* q : {&ix, &iy}) for (auto& w : *q) { auto p = s.perm(w.size()); auto w0 = w; for (size_t i = 0; i < w.size(); ++i) w[i] = w0[p[i]]; } CM<P> R2 = CM<P>(F).relative_map(iy, ix); eq<P>(R2, e, "relative_map"); s.nontrivial(as.size() && as.size() < v.size() && bs.size() < ys.size()); });
}
typedef std::vector<size_t> Cube;
PROP(cubical, "inclusions of cubical complexes: each cube goes to itself, commutes with boundaries over every field, missing cube raises; non-trivial: a 2-cube in the source and a strictly larger target", 20000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t D = s.range(1, 3); std::vector<Cube> t1, t2; auto gc = [&] { Cube v; for (size_t j = 0; j < D; ++j) { size_t a = s.range(0, 2), l = s.coin(2, 3); v.push_back(a); v.push_back(a + l); } s.note << pbt::show(v); return v; }; long a = s.sized(1, 3), b = s.sized(0, 3); for (long i = 0; i < a; ++i) t1.push_back(gc()); s.note << " | "; for (long i = 0; i < b; ++i) t2.push_back(gc()); CC X(D), Y(D); for (auto& c : t1) X.add_recursive(c); std::vector<Cube> both = t2; both.insert(both.end(), t1.begin(), t1.end()); auto p = s.perm(both.size()); for (auto i : p) Y.add_recursive(both[i]);
        auto F = s.coin() ? bats::CubicalMap(X, Y) : bats::CellularMap(X, Y); CM<P> f = bats::Chain(F, orc::F<P>()); std::vector<DM<P>> e; for (size_t k = 0; k <= D; ++k) { DM<P> m(Y.ncells(k), X.ncells(k)); for (size_t j = 0; j < m.n; ++j) m(Y.find_idx(X.get_cube(k, j)), j) = Z<P>(1); e.push_back(m); } eq<P>(f, e, "cubical inclusion"); commutes<P>(f, bats::Chain(X, orc::F<P>()), bats::Chain(Y, orc::F<P>()), "cubical inclusion"); CM<P> id(bats::CellularMap::identity(X)); for (size_t k = 0; k <= D; ++k) CHECK(matOf<P>(id[k]) == DM<P>::eye(X.ncells(k)));
        if (Y.ncells() > X.ncells()) CHECKM(pbt::throws([&] { bats::CubicalMap(Y, X); }), "cubical inclusion into a smaller complex accepted"); s.nontrivial(D >= 2 && X.ncells(2) && Y.ncells() > X.ncells()); });
}
PROP(cellular, "cellular maps filled by hand (any order of dimensions, growing on demand): wrap a k*n cycle around an n cycle; the chain map over each field holds the given entries and commutes with boundaries; non-trivial: degree at least 2", 20000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = bigN(s, 2, 5, 12), deg = bigN(s, 1, 4, 9); bool back = s.coin(); size_t N = n * deg; s.note << "n=" << n << " degree=" << deg << " back=" << back; auto cyc = [&](size_t m) { bats::CellComplex x(1); x.add_vertices(m); for (size_t i = 0; i < m; ++i) x.add({i, (i + 1) % m}, {-1, 1}, 1); return x; }; auto X = cyc(N), Y = cyc(n);
        typedef ColumnMatrix<SparseVector<int, size_t>> IM; std::vector<SparseVector<int, size_t>> c0, c1; auto vtx = [&](size_t i) { return back ? (n - i % n) % n : i % n; }; for (size_t i = 0; i < N; ++i) { c0.push_back(SparseVector<int, size_t>({vtx(i)}, {1})); size_t e = back ? vtx(i + 1) : vtx(i); c1.push_back(SparseVector<int, size_t>({e}, {back ? -1 : 1})); } bats::CellularMap f = s.coin() ? bats::CellularMap(1) : bats::CellularMap(); bool rev = s.coin(); if (rev) { f[1] = IM(n, N, c1); f[0] = IM(n, N, c0); } else { f[0] = IM(n, N, c0); f[1] = IM(n, N, c1); }
        CHECKEQ(f.maxdim(), (size_t)1); CM<P> F = bats::Chain(f, orc::F<P>()); std::vector<DM<P>> e{DM<P>(n, N), DM<P>(n, N)}; for (size_t i = 0; i < N; ++i) { e[0](vtx(i), i) = Z<P>(1); e[1](back ? vtx(i + 1) : vtx(i), i) = Z<P>(back ? -1 : 1); } eq<P>(F, e, "cellular map"); commutes<P>(F, bats::Chain(X, orc::F<P>()), bats::Chain(Y, orc::F<P>()), "cellular map"); s.nontrivial(deg >= 2); });
}
PBT_MAIN("C13")
