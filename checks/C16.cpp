// C16 Relative, product and Mayer-Vietoris homology
// split: field
#include "oracle.hpp"
#include "complexgen.hpp"
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> LC;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using RC = bats::ReducedChainComplex<M<P>>;
template <int P> std::vector<DM<P>> dense(const CH<P>& C) { std::vector<DM<P>> d; for (size_t k = 0; k <= C.maxdim(); ++k) d.push_back(matOf<P>(C.boundary[k], "boundary")); return d; }
template <int P> DM<P> inclusion(const std::vector<Spx>& a, const std::vector<Spx>& x) { DM<P> r(x.size(), a.size()); for (size_t j = 0; j < a.size(); ++j) for (size_t i = 0; i < x.size(); ++i) if (a[j] == x[i]) r(i, j) = Z<P>(1); return r; }
template <int P, class R> long lrank(const R& m) { return matOf<P>(m, "induced map").rank(); }
template <int P> RC<P> red(Src& s, const CH<P>& C) { bats::compute_basis_flag b; bats::clearing_flag c; switch (s.draw(5)) { case 0: return RC<P>(C); case 1: return RC<P>(C, bats::standard_reduction_flag(), b); case 2: return RC<P>(C, bats::extra_reduction_flag(), b); case 3: return RC<P>(C, bats::standard_reduction_flag(), c, b); case 4: return RC<P>(C, bats::extra_reduction_flag(), c, b); default: return RC<P>(C, bats::divide_conquer_flag(), b); } }
static std::vector<Spx> subcomplexOf(Src& s, const std::vector<Spx>& v) { std::set<Spx> A; long t = s.sized(0, 4); for (long i = 0; i < t; ++i) { auto q = closure({s.pick(v)}); A.insert(q.begin(), q.end()); } std::vector<Spx> a(A.begin(), A.end()); byDim(a); return a; }
template <class T> T build(const std::vector<Spx>& v, size_t n, size_t md);
template <> SC build<SC>(const std::vector<Spx>& v, size_t, size_t) { SC x; for (auto q : v) x.add(q); return x; }
template <> LC build<LC>(const std::vector<Spx>& v, size_t n, size_t md) { LC x(n, md); for (auto q : v) x.add(q); return x; }
template <int P> void comm(const bats::ChainMap<M<P>>& F, const CH<P>& C, const CH<P>& D, size_t md, const char* w) { for (size_t k = 0; k <= md; ++k) { auto f = matOf<P>(F[k], "map"); size_t dn = k <= D.maxdim() ? D.dim(k) : 0; CHECKM(f.m == dn && f.n == C.dim(k), w << ": map shape in degree " << k << " " << f.m << "x" << f.n << " expected " << dn << "x" << C.dim(k)); if (k && k <= D.maxdim()) { auto a = matOf<P>(D.boundary[k], "target boundary") * f, b = matOf<P>(F[k - 1], "map") * matOf<P>(C.boundary[k], "source boundary"); CHECKM(a == b, w << ": d F != F d in degree " << k << "\ndF=" << a << "Fd=" << b); } } }
PROP(pairs, "pairs (X, A) of random complexes on up to 6 vertices, all fields: relative Betti numbers and the ranks of A->X->(X,A) satisfy exactness of the long exact sequence in each degree, against ranks of dense quotient complexes; non-trivial: A proper and non-empty with non-zero relative homology", 20000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 6); auto v = linearExtension(s, genComplex(s, n, 3, 5)); auto a = linearExtension(s, subcomplexOf(s, v)); s.note << showTops(v) << " rel " << showTops(a);
        std::vector<std::vector<Spx>> cx, ca; auto X = cxOf<P>(v, &cx); Cx<P> A; if (a.size()) A = cxOf<P>(a, &ca);
        auto x = build<SC>(v, n, 0); auto xa = build<SC>(a, n, 0); CH<P> C(x, xa); auto R = red<P>(s, C); auto D = dense<P>(C); for (size_t k = 1; k < D.size(); ++k) CHECKM((D[k - 1] * D[k]).zero(), "relative boundary does not square to zero");
        long chi = 0; auto rX = red<P>(s, CH<P>(x)); bool pos = false; std::vector<long> ia(X.d.size() + 2, 0), bx(X.d.size() + 2, 0), ba(X.d.size() + 2, 0);
        for (size_t k = 0; k < X.d.size(); ++k) { bx[k] = X.betti(k); ba[k] = A.betti(k); DM<P> inc = k < ca.size() ? inclusion<P>(ca[k], cx[k]) : DM<P>(cx[k].size(), 0); ia[k] = hrank<P>(A, X, inc, k); }
        for (size_t k = 0; k < X.d.size(); ++k) { long e = (bx[k] - ia[k]) + (k ? ba[k - 1] - ia[k - 1] : 0); CHECKM((long)R.hdim(k) == e, "relative betti_" << k << " = " << R.hdim(k) << ", exact sequence gives " << e); CHECKM((long)rX.hdim(k) == bx[k], "betti of X"); chi += (k & 1 ? -1 : 1) * (bx[k] - ba[k] - (long)R.hdim(k)); if (e) pos = true;
            // quotient map X -> (X, A)
            std::vector<size_t> out; for (size_t i = 0; i < cx[k].size(); ++i) if (std::find(a.begin(), a.end(), cx[k][i]) == a.end()) out.push_back(i); CHECKM(C.dim(k) == out.size(), "relative dimension"); DM<P> q(out.size(), cx[k].size()); for (size_t i = 0; i < out.size(); ++i) q(i, out[i]) = Z<P>(1); Cx<P> XA; XA.d = D; CHECKM(hrank<P>(X, XA, q, k) == bx[k] - ia[k], "rank of H_k(X) -> H_k(X,A) in degree " << k); }
        CHECKM(chi == 0, "Euler characteristics do not add up");
        // the inclusion and the quotient through the library's own chain maps
        if (a.size()) { auto f = bats::SimplicialMap(xa, x); bats::ChainMap<M<P>> F(f); auto rA = red<P>(s, CH<P>(xa)); for (size_t k = 0; k <= xa.maxdim(); ++k) CHECKM(lrank<P>(bats::induced_map(F, rA, rX, k)) == ia[k], "rank of the induced inclusion in degree " << k); }
        s.nontrivial(pos && a.size() && a.size() < v.size()); });
}
PROP(kunneth, "tensor products of two chain complexes of 8 kinds (full and truncated) and triangulated products of two random complexes (both complex types): Betti numbers are the convolution of the factors' (below the truncation degree); non-trivial: both factors have homology above degree 0 or several components", 12000, 120000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto conv = [&](const Cx<P>& a, const Cx<P>& b, size_t k) { long r = 0; for (size_t i = 0; i <= k; ++i) r += a.betti(i) * b.betti(k - i); return r; }; auto rich = [&](const Cx<P>& a) { long t = 0; for (size_t i = 0; i < a.d.size(); ++i) t += a.betti(i); return t > 1; };
        if (s.coin()) { CH<P> A = genChain<P>(s, 4), B = genChain<P>(s, 4); Cx<P> a, b; a.d = dense<P>(A); b.d = dense<P>(B); size_t full = A.maxdim() + B.maxdim(), t = s.coin(2, 3) ? full : s.range(0, full); size_t cells = A.dim() * B.dim(); if (cells > 400) throw pbt::Discard{}; CH<P> C = t == full && s.coin() ? tensor_product(A, B) : tensor_product(A, B, t); RC<P> R = red<P>(s, C); for (size_t k = 0; k < t || (k == t && t == full); ++k) CHECKM((long)R.hdim(k) == conv(a, b, k), "tensor product betti_" << k << " = " << R.hdim(k) << ", Kunneth " << conv(a, b, k)); s.nontrivial(rich(a) && rich(b)); }
        else { size_t n1 = bigN(s, 1, 4, 6), n2 = bigN(s, 1, 4, 6); auto v = linearExtension(s, genComplex(s, n1, 2, 3)), w = linearExtension(s, genComplex(s, n2, 2, 3)); s.note << showTops(v) << "x" << showTops(w); auto a = cxOf<P>(v), b = cxOf<P>(w); size_t full = mdOf(v) + mdOf(w);
            auto go = [&](auto x, auto y) { auto xy = bats::TriangulatedProduct(x, y, full, n1); CHECKEQ(xy.ncells(0), v.size() ? x.ncells(0) * y.ncells(0) : 0); RC<P> R = red<P>(s, CH<P>(xy)); for (size_t k = 0; k <= R.maxdim(); ++k) CHECKM((long)R.hdim(k) == conv(a, b, k), "triangulated product betti_" << k << " = " << R.hdim(k) << ", Kunneth " << conv(a, b, k)); };
            go(build<SC>(v, n1, mdOf(v)), build<SC>(w, n2, mdOf(w))); s.nontrivial(rich(a) && rich(b)); } });
}
template <int P, class T> bool ez(Src& s, size_t n1, const std::vector<Spx>& v, size_t n2, const std::vector<Spx>& w) {
    T x = build<T>(v, n1, mdOf(v)), y = build<T>(w, n2, mdOf(w)); size_t full = mdOf(v) + mdOf(w), t = s.coin(2, 3) ? full : s.range(0, full); s.note << " maxdim " << t; auto [C, F, XY] = bats::EilenbergZilber(x, y, t, orc::F<P>()); CH<P> D(XY); auto d = dense<P>(C); for (size_t k = 1; k < d.size(); ++k) CHECKM((d[k - 1] * d[k]).zero(), "tensor boundary does not square to zero in degree " << k);
    CHECKEQ(C.maxdim(), t); CHECKEQ(F.maxdim(), t); comm<P>(F, C, D, t, "Eilenberg-Zilber"); CHECKEQ(XY.ncells(0), x.ncells(0) * y.ncells(0));
    RC<P> R = red<P>(s, C), S = red<P>(s, D); auto a = cxOf<P>(v), b = cxOf<P>(w);
    for (size_t k = 0; k <= t && k <= D.maxdim(); ++k) { if (k == t && t < full) break; long e = 0; for (size_t i = 0; i <= k; ++i) e += a.betti(i) * b.betti(k - i); CHECKM((long)R.hdim(k) == e && (long)S.hdim(k) == e, "Eilenberg-Zilber betti_" << k); auto m = bats::induced_map(F, R, S, k); CHECKM(lrank<P>(m) == e, "Eilenberg-Zilber map is not an isomorphism on H_" << k << ": rank " << lrank<P>(m) << " of " << e); }
    // cross products of homology classes
    RC<P> rx = red<P>(s, CH<P>(x)), ry = red<P>(s, CH<P>(y)); bool big = false;
    for (size_t k = 0; k <= t; ++k) { DM<P> all(R.hdim(k), 0); for (size_t i = 0; i <= k; ++i) if (i <= rx.maxdim() && k - i <= ry.maxdim()) { auto m = matOf<P>(bats::kron_homology(i, rx, k - i, ry, R), "kron_homology"); CHECKM(m.m == R.hdim(k) && m.n == rx.hdim(i) * ry.hdim(k - i), "kron_homology shape"); 
            for (size_t p = 0; p < rx.hdim(i); ++p) for (size_t q = 0; q < ry.hdim(k - i); ++q) { auto c = vecOf<P>(kron_chains(rx.get_preferred_representative(p, i), i, rx, ry.get_preferred_representative(q, k - i), k - i, ry), C.dim(k), "kron_chains"); CHECKM((d[k] * colvec<P>(c)).zero(), "product of cycles is not a cycle"); DM<P> z = colvec<P>(c); for (size_t h = 0; h < m.m; ++h) { auto r = vecOf<P>(R.get_preferred_representative(h, k), C.dim(k), "rep"); for (size_t g = 0; g < z.m; ++g) z(g, 0) = z(g, 0) - m(h, p * ry.hdim(k - i) + q) * r[g]; } CHECKM((k < t ? d[k + 1] : DM<P>(C.dim(k), 0)).inspan(z.col(0)), "kron_homology column is not the class of the product of representatives, degrees " << i << "+" << k - i); }
            all = all.hcat(m); if (i && k > i) big = big || m.n > 0; }
        if (k < t || t == full) CHECKM(all.m == all.n && (size_t)all.rank() == all.m, "cross products are not a basis of H_" << k << " of the product: " << all); }
    return big;
}
PROP(eilenberg_zilber, "products of two random complexes (both complex types, all truncations), over every field: the Eilenberg-Zilber map commutes with boundaries, is an isomorphism on homology, and kron_homology gives the class of the product of representatives, forming a basis; non-trivial: a cross product of two positive-degree classes, or different vertex counts with a positive-dimensional factor", 6000, 60000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n1 = bigN(s, 1, 4, 6), n2 = bigN(s, 1, 4, 6); auto v = linearExtension(s, genComplex(s, n1, 2, 4)), w = linearExtension(s, genComplex(s, n2, 2, 4)); s.note << showTops(v) << "x" << showTops(w); bool b = s.coin() ? ez<P, SC>(s, n1, v, n2, w) : ez<P, LC>(s, n1, v, n2, w); s.nontrivial(b || (n1 != n2 && mdOf(v) && mdOf(w))); });
}
PROP(relative_ez, "relative Eilenberg-Zilber maps of pairs (X,A)x(Y,B): relative boundaries square to zero, the map commutes with them, and both sides have the Kunneth Betti numbers of the pairs; non-trivial: both subcomplexes non-empty and both quotients with homology", 4000, 40000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n1 = bigN(s, 1, 4, 6), n2 = bigN(s, 1, 4, 6); auto v = linearExtension(s, genComplex(s, n1, 2, 4)), w = linearExtension(s, genComplex(s, n2, 2, 4)); auto a = linearExtension(s, subcomplexOf(s, v)), b = linearExtension(s, subcomplexOf(s, w)); s.note << showTops(v) << " rel " << showTops(a) << " x " << showTops(w) << " rel " << showTops(b); size_t full = mdOf(v) + mdOf(w);
        SC X = build<SC>(v, n1, 0), Y = build<SC>(w, n2, 0), A = build<SC>(a, n1, 0), B = build<SC>(b, n2, 0); auto [C, F, D] = bats::EilenbergZilber(X, A, Y, B, full, orc::F<P>()); auto dc = dense<P>(C), dd = dense<P>(D); for (auto* d : {&dc, &dd}) for (size_t k = 1; k < d->size(); ++k) CHECKM(((*d)[k - 1] * (*d)[k]).zero(), "relative product boundary does not square to zero"); comm<P>(F, C, D, full, "relative Eilenberg-Zilber");
        Cx<P> xa, yb; xa.d = dense<P>(CH<P>(X, A)); yb.d = dense<P>(CH<P>(Y, B)); RC<P> R = red<P>(s, C), S = red<P>(s, D); bool any = false; for (size_t k = 0; k <= full; ++k) { long e = 0; for (size_t i = 0; i <= k; ++i) e += xa.betti(i) * yb.betti(k - i); CHECKM((long)R.hdim(k) == e, "relative tensor betti_" << k << " = " << R.hdim(k) << " Kunneth " << e); if (k > D.maxdim()) { CHECKM(e == 0, "missing degree"); continue; } CHECKM((long)S.hdim(k) == e, "relative product betti_" << k << " = " << S.hdim(k) << " Kunneth " << e); CHECKM(lrank<P>(bats::induced_map(F, R, S, k)) == e, "relative Eilenberg-Zilber not an isomorphism on H_" << k); if (e) any = true; }
        s.nontrivial(any && a.size() && b.size()); });
}
PROP(mayer_vietoris, "X = A u B, Y = A n B for random A, B: the Mayer-Vietoris boundary has the stated columns, sends cycles to cycles and boundaries to boundaries, and the ranks of H(Y)->H(A)+H(B)->H(X)->H(Y) are exact; non-trivial: non-zero connecting map", 12000, 120000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 6); auto v = genComplex(s, n, 3, 6); auto av = linearExtension(s, subcomplexOf(s, v)); if (av.empty()) throw pbt::Discard{}; std::set<Spx> as(av.begin(), av.end()), bs; { std::vector<Spx> t; for (auto& q : v) if (!as.count(q) || s.coin(1, 4)) t.push_back(q); for (auto& q : t) { auto c = closure({q}); bs.insert(c.begin(), c.end()); } } if (bs.empty()) throw pbt::Discard{};
        std::vector<Spx> b0(bs.begin(), bs.end()), y0; byDim(b0); auto bv = linearExtension(s, b0); std::set<Spx> xs = as; xs.insert(bs.begin(), bs.end()); std::vector<Spx> x0(xs.begin(), xs.end()); byDim(x0); auto xv = linearExtension(s, x0); for (auto& q : xs) if (as.count(q) && bs.count(q)) y0.push_back(q); byDim(y0); auto yv = linearExtension(s, y0); s.note << "A " << showTops(av) << " B " << showTops(bv);
        SC x = build<SC>(xv, n, 0), y = build<SC>(yv, n, 0), a = build<SC>(av, n, 0), b = build<SC>(bv, n, 0); std::vector<std::vector<Spx>> cx, cy, ca, cb; auto X = cxOf<P>(xv, &cx), A = cxOf<P>(av, &ca), B = cxOf<P>(bv, &cb); Cx<P> Y; if (yv.size()) Y = cxOf<P>(yv, &cy);
        CH<P> CX(x); bool nt = false;
        for (size_t k = 0; k + 1 < X.d.size() || k == 0; ++k) { if (k + 1 >= X.d.size()) break; auto mv = bats::mayer_vietoris_boundary(a, x, y, k); size_t m = k < cy.size() ? cy[k].size() : 0; CHECKEQ(mv.nrow(), m); CHECKEQ(mv.ncol(), cx[k + 1].size()); auto dX = matOf<P>(CX.boundary[k + 1], "boundary"); DM<P> d(m, mv.ncol());
            for (size_t j = 0; j < mv.ncol(); ++j) { long last = -1; std::map<size_t, int> col; for (auto it = mv[j].nzbegin(); it != mv[j].nzend(); ++it) { CHECKM((long)it->ind > last, "Mayer-Vietoris column " << j << " of degree " << k << " is not sorted"); last = it->ind; CHECKM(it->ind < m, "row out of range"); d(it->ind, j) = Z<P>(it->val); } }
            DM<P> r(m, cx[k].size()); for (size_t i = 0; i < m; ++i) for (size_t q = 0; q < cx[k].size(); ++q) if (cx[k][q] == cy[k][i]) r(i, q) = Z<P>(1); DM<P> e = m ? r * dX : DM<P>(0, mv.ncol()); for (size_t j = 0; j < mv.ncol(); ++j) if (!as.count(cx[k + 1][j])) for (size_t i = 0; i < m; ++i) e(i, j) = Z<P>(0); bool same = d == e, neg = d == e.scaled(Z<P>(-1)); CHECKM(same || neg, "Mayer-Vietoris boundary in degree " << k << "\n" << d << "expected up to sign\n" << e);
            if (!m) continue; auto z = X.Z(k + 1); long rk = 0; if (z.n) { CHECKM(k == 0 || (Y.d[k] * (d * z)).zero(), "connecting map does not give cycles"); rk = (long)(d * z).hcat(Y.B(k)).rank() - (long)Y.B(k).rank(); if (X.B(k + 1).n) CHECKM((long)(d * X.B(k + 1)).hcat(Y.B(k)).rank() == (long)Y.B(k).rank(), "connecting map does not kill boundaries"); }
            // exactness at H_k(Y): image of the connecting map is the kernel of H_k(Y) -> H_k(A)+H_k(B)
            DM<P> yz = Y.Z(k); long ker = Y.betti(k); { DM<P> ia = k < ca.size() ? inclusion<P>(cy[k], ca[k]) : DM<P>(0, m), ib = k < cb.size() ? inclusion<P>(cy[k], cb[k]) : DM<P>(0, m); DM<P> st = (ia * yz).vcat(ib * yz); DM<P> bd(st.m, 0); auto BA = A.B(k), BB = B.B(k); DM<P> top = DM<P>(ia.m, BA.n + BB.n), bot = DM<P>(ib.m, BA.n + BB.n); for (size_t i = 0; i < ia.m; ++i) for (size_t j = 0; j < BA.n; ++j) top(i, j) = BA(i, j); for (size_t i = 0; i < ib.m; ++i) for (size_t j = 0; j < BB.n; ++j) bot(i, BA.n + j) = BB(i, j); DM<P> bb = top.vcat(bot); ker -= (long)st.hcat(bb).rank() - (long)bb.rank(); }
            CHECKM(rk == ker, "Mayer-Vietoris not exact at H_" << k << "(Y): connecting rank " << rk << " kernel " << ker); if (rk && k) nt = true; if (rk) nt = true; }
        s.nontrivial(nt); });
}
PBT_MAIN("C16")
