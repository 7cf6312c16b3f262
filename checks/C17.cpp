// C17 Induced maps on homology
// split: field
#include "oracle.hpp"
#include "complexgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using RC = bats::ReducedChainComplex<M<P>>; template <int P> using CM = bats::ChainMap<M<P>>;
template <int P> RC<P> red(Src& s, const CH<P>& C) { int o = s.draw(6); RC<P> R = redOpt<P>(C, o); s.note << " " << redName(o); int q = s.draw(5); if (q == 4) { R.sparsify_basis(); s.note << "/sparsify"; } if (q == 5) { R.remove_extra_cycles(); s.note << "/remove_cycles"; } return R; }
template <int P> DM<P> repsOf(const RC<P>& R, size_t k) { DM<P> H(R.dim(k), 0); for (size_t j = 0; j < R.hdim(k); ++j) H.addcol(vecOf<P>(R.get_preferred_representative(j, k), R.dim(k), "representative")); return H; }
// checks F_* against the classes of images of representatives; returns the matrix
template <int P> DM<P> checkMap(Src& s, const CM<P>& F, const RC<P>& R, const RC<P>& S, const Cx<P>& X, const Cx<P>& Y, size_t k, const char* w) {
    auto m = matOf<P>(bats::induced_map(F, R, S, k), w); CHECKM((long)m.m == Y.betti(k) && (long)m.n == X.betti(k), w << ": shape of the induced map in degree " << k << " is " << m.m << "x" << m.n << ", Betti numbers " << Y.betti(k) << " and " << X.betti(k));
    if (!X.dim(k) || !Y.dim(k)) return m; auto f = matOf<P>(F[k], "chain map"); DM<P> hx = repsOf<P>(R, k), hy = repsOf<P>(S, k), e = f * hx; if (m.m && m.n) e = e - hy * m; auto B = Y.B(k); for (size_t j = 0; j < e.n; ++j) CHECKM(B.n ? B.inspan(e.col(j)) : DM<P>(colvec<P>(e.col(j))).zero(), w << ": column " << j << " of the induced map in degree " << k << " is not the class of the image\nmatrix " << m);
    CHECKM((long)m.rank() == hrank<P>(X, Y, f, k), w << ": rank of the induced map in degree " << k << " is " << m.rank() << " expected " << hrank<P>(X, Y, f, k));
    // a random cycle: coordinates of its class map by m
    auto Zx = X.Z(k); if (Zx.n && m.n && m.m) { DM<P> c = Zx * genMat<P>(s, Zx.n, 1), fc = f * c; auto coord = [&](const RC<P>& Q, const DM<P>& z) { auto y = Q.to_hom_basis(toVec<P>(z.col(0)), k); Q.find_preferred_representative(y, k); auto d = vecOf<P>(y, Q.dim(k), "coordinates"); DM<P> r(Q.hdim(k), 1); for (size_t i = 0; i < Q.hdim(k); ++i) r(i, 0) = d[Q.I[k][i]]; return r; }; CHECKM(coord(S, fc) == m * coord(R, c), w << ": coordinates of the image of a cycle in degree " << k); }
    return m;
}
PROP(simplicial, "random simplicial maps X->Y->Z (permutations, inclusions, collapses; both complex types) over F2, F3, F5, Q with independently chosen reduction options and basis post-processing: induced maps send classes to classes of images, have the dense rank, compose, and identities are identities; non-trivial: a non-zero induced map above degree 0, or a singular non-zero one", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto a = genSMap(s); auto b = genSMap(s, 5, &a.y, a.m); s.note << showTops(a.x) << " -> " << showTops(a.y) << " -> " << showTops(b.y) << " f=" << pbt::show(a.f) << " g=" << pbt::show(b.f); bool nt = false;
        auto go = [&](auto X, auto Y, auto Z) { auto f = bats::SimplicialMap(X, Y, a.f), g = bats::SimplicialMap(Y, Z, b.f); std::vector<size_t> hf; for (auto q : a.f) hf.push_back(b.f[q]); auto h = bats::SimplicialMap(X, Z, hf); CM<P> F(f), G(g), H(h); CH<P> cx(X), cy(Y), cz(Z); auto rx = red<P>(s, cx), ry = red<P>(s, cy), rz = red<P>(s, cz), rx2 = red<P>(s, cx); auto X0 = cxOf<P>(cx), Y0 = cxOf<P>(cy), Z0 = cxOf<P>(cz);
            for (size_t k = 0; k <= cx.maxdim(); ++k) { if (k > cy.maxdim()) break; auto m = checkMap<P>(s, F, rx, ry, X0, Y0, k, "f"); if (k && !m.zero()) nt = true; if (!m.zero() && ((size_t)m.rank() < m.n || (size_t)m.rank() < m.m)) nt = true; if (k > cz.maxdim()) continue; auto q = checkMap<P>(s, G, ry, rz, Y0, Z0, k, "g"), t = checkMap<P>(s, H, rx, rz, X0, Z0, k, "g*f"); if (m.m) CHECKM(q * m == t, "composite of induced maps in degree " << k << ": " << q * m << " vs " << t); else CHECK(t.zero()); }
            auto I = bats::SimplicialMap(X, X); CM<P> id(I); for (size_t k = 0; k <= cx.maxdim(); ++k) { auto m = checkMap<P>(s, id, rx, rx, X0, X0, k, "identity"); CHECKM(m == DM<P>::eye(m.n), "identity induces " << m << " in degree " << k); auto u = checkMap<P>(s, id, rx, rx2, X0, X0, k, "identity between reductions"), v = checkMap<P>(s, id, rx2, rx, X0, X0, k, "identity between reductions"); if (u.n) CHECKM(v * u == DM<P>::eye(u.n), "change of homology basis in degree " << k); } };
        if (s.coin(2, 3)) go(buildSC(a.x), buildSC(a.y), buildSC(b.y)); else go(buildLC(a.x, a.n, mdOf(a.x)), buildLC(a.y, a.m, mdOf(a.y)), buildLC(b.y, b.m, mdOf(b.y))); s.nontrivial(nt); });
}
PROP(algebraic, "chain maps c*id + (dh + hd) for random h on the 8 kinds of chain complexes, over every field and option: multiplication by c on homology whatever h; non-trivial: c non-zero, not one (or h non-zero over F2), homology above degree 0", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; CH<P> C = genChain<P>(s); auto X = cxOf<P>(C); auto c = s.coin() ? genZ<P>(s) : Z<P>(1); size_t md = C.maxdim(); std::vector<DM<P>> h, f; for (size_t k = 0; k < md; ++k) h.push_back(X.dim(k) && X.dim(k + 1) ? genMat<P>(s, X.dim(k + 1), X.dim(k)) : DM<P>(X.dim(k + 1), X.dim(k))); bool hn = false; std::vector<M<P>> fm;
        for (size_t k = 0; k <= md; ++k) { DM<P> m = DM<P>::eye(X.dim(k)).scaled(c); if (k < md) m = m + X.d[k + 1] * h[k]; if (k) m = m + h[k - 1] * X.d[k]; if (!(m == DM<P>::eye(X.dim(k)).scaled(c))) hn = true; f.push_back(m); fm.push_back(toMat<P>(m)); s.note << " h"; }
        CM<P> F(fm); auto R = red<P>(s, C), S = red<P>(s, C); bool pos = false; for (size_t k = 0; k <= md; ++k) { auto m = checkMap<P>(s, F, R, S, X, X, k, "scalar + homotopy"); auto m2 = checkMap<P>(s, F, R, R, X, X, k, "scalar + homotopy"); CHECKM(m2 == DM<P>::eye(m2.n).scaled(c), "c*id + homotopy induces " << m2 << " in degree " << k << ", c=" << c); if (k && m.n) pos = true; } s.nontrivial(pos && hn && !c.zero()); });
}
PROP(cubical_and_cell, "inclusions of cubical complexes and degree-d maps between circles given as cellular maps: classes of images, ranks, and multiplication by the degree; non-trivial: inclusion with non-zero map above degree 0, or degree at least 2", 8000, 80000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; if (s.coin(3, 4)) { size_t D = s.range(1, 3); bats::CubicalComplex X(D), Y(D); long t = s.sized(1, 6), u = s.sized(0, 3); for (long i = 0; i < t + u; ++i) { std::vector<size_t> v; bool big = s.coin(2, 3); for (size_t j = 0; j < D; ++j) { size_t a = s.range(0, 2), l = big ? s.coin(2, 3) : s.coin(1, 3); v.push_back(a); v.push_back(a + l); } s.note << pbt::show(v) << (i < t ? "" : "*"); auto w = v; if (i < t) X.add_recursive(v); Y.add_recursive(w); }
            auto f = bats::CubicalMap(X, Y); CM<P> F(f); CH<P> a(X), b(Y); auto R = red<P>(s, a), S = red<P>(s, b); auto x = cxOf<P>(a), y = cxOf<P>(b); bool nt = false; for (size_t k = 0; k <= D; ++k) { auto m = checkMap<P>(s, F, R, S, x, y, k, "cubical inclusion"); if (k && !m.zero()) nt = true; } s.nontrivial(nt); }
        else { size_t n = s.range(2, 4), deg = s.range(1, 4), N = n * deg; bool back = s.coin(); auto cyc = [&](size_t m) { bats::CellComplex x(1); x.add_vertices(m); for (size_t i = 0; i < m; ++i) x.add({i, (i + 1) % m}, {-1, 1}, 1); return x; }; auto X = cyc(N), Y = cyc(n); s.note << "degree " << deg << back; std::vector<M<P>> fm; DM<P> f0(n, N), f1(n, N); auto vtx = [&](size_t i) { return back ? (n - i % n) % n : i % n; }; for (size_t i = 0; i < N; ++i) { f0(vtx(i), i) = Z<P>(1); f1(back ? vtx(i + 1) : vtx(i), i) = Z<P>(back ? -1 : 1); } fm.push_back(toMat<P>(f0)); fm.push_back(toMat<P>(f1)); CM<P> F(fm); CH<P> a(X), b(Y); auto R = red<P>(s, a), S = red<P>(s, b); auto x = cxOf<P>(a), y = cxOf<P>(b); checkMap<P>(s, F, R, S, x, y, 0, "circle map"); auto m = checkMap<P>(s, F, R, S, x, y, 1, "circle map"); 
            // fundamental cycles: sum of all edges
            auto hx = repsOf<P>(R, 1), hy = repsOf<P>(S, 1); CHECKM(hx.n == 1 && hy.n == 1, "circle has one class"); CHECKM(m(0, 0) * hy(0, 0) == Z<P>(back ? -(long)deg : (long)deg) * hx(0, 0), "degree of the circle map: " << m(0, 0)); s.nontrivial(deg >= 2); } });
}
PROP(mismatch, "an induced map asked for with complexes of the wrong sizes raises an error; non-trivial: always", 300, 3000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto a = genSMap(s, 5); auto X = buildSC(a.x), Y = buildSC(a.y); auto f = bats::SimplicialMap(X, Y, a.f); CM<P> F(f); auto R = red<P>(s, CH<P>(X)), S = red<P>(s, CH<P>(Y)); for (size_t k = 0; k <= std::min<size_t>(X.maxdim(), Y.maxdim()); ++k) if (X.ncells(k) != Y.ncells(k)) { CHECKM(pbt::throws([&] { bats::induced_map(F, S, S, k); }), "wrong source accepted"); CHECKM(pbt::throws([&] { bats::induced_map(F, R, R, k); }), "wrong target accepted"); s.nontrivial(true); } });
}
PBT_MAIN("C17")
