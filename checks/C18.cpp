// C18 Differential graded spaces and cohomology
// split: field
#include "oracle.hpp"
#include "complexgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using DG = bats::DGVectorSpace<M<P>>; template <int P> using RDG = bats::ReducedDGVectorSpace<M<P>>; template <int P> using CC = bats::CochainComplex<M<P>>; template <int P> using RCC = bats::ReducedCochainComplex<M<P>>;
static const char* optName(int o) { static const char* a[] = {"standard", "extra", "divide_conquer"}; static const char* b[] = {"", "+basis", "+clearing", "+clearing+basis", "+compression"}; static char t[64]; if (o == 15) return "default"; snprintf(t, 64, "%s%s", a[o % 3], b[o / 3]); return t; }
template <class R, class C, class A> R optAlg(const C& c, A a, int o) { switch (o) { case 0: return R(c, a); case 1: return R(c, a, bats::compute_basis_flag()); case 2: return R(c, a, bats::clearing_flag()); case 3: return R(c, a, bats::clearing_flag(), bats::compute_basis_flag()); default: return R(c, a, bats::compression_flag()); } }
template <class R, class C> R dgOpt(const C& c, int o) { if (o == 15) return R(c); int a = o % 3, q = o / 3; if (a == 0) return optAlg<R>(c, bats::standard_reduction_flag(), q); if (a == 1) return optAlg<R>(c, bats::extra_reduction_flag(), q); return optAlg<R>(c, bats::divide_conquer_flag(), q); }
static bool hasBasis(int o) { return o == 15 || o / 3 == 1 || o / 3 == 3; }
static int basisOpt(Src& s) { int q = s.draw(6); return q == 6 ? 15 : (q < 3 ? 3 + q : 9 + q - 3); }
template <class R, class C, class A> R cohAlg(const C& c, A a, int o) { switch (o) { case 0: return R(c, a); case 1: return R(c, a, bats::compute_basis_flag()); case 2: return R(c, a, bats::clearing_flag()); default: return R(c, a, bats::compression_flag()); } }
template <class R, class C> R cohOpt(const C& c, int o) { if (o == 12) return R(c); int a = o % 3, q = o / 3; if (a == 0) return cohAlg<R>(c, bats::standard_reduction_flag(), q); if (a == 1) return cohAlg<R>(c, bats::extra_reduction_flag(), q); return cohAlg<R>(c, bats::divide_conquer_flag(), q); }
// degree-generic dense data: Z = kernel of the differential out of k, B = image of the differential into k
template <int P> struct Deg { const Cx<P>* X; int deg; DM<P> Z(size_t k) const { return deg == -1 ? X->Z(k) : (k + 1 < X->d.size() ? X->d[k + 1].T().null() : DM<P>::eye(X->dim(k))); } DM<P> B(size_t k) const { return deg == -1 ? X->B(k) : (k ? X->d[k].T() : DM<P>(X->dim(k), 0)); } };
template <int P> bool inImage(const DM<P>& B, const DV<P>& v) { return B.n ? B.inspan(v) : DM<P>(colvec<P>(v)).zero(); }
// representatives are (co)cycles independent modulo (co)boundaries, preferred representatives depend on the class only
template <int P, class R> void checkReps(Src& s, const R& r, const Deg<P>& D, size_t k, long betti, const char* w) {
    DM<P> H(D.X->dim(k), 0); if (!D.X->dim(k)) return; auto Z = D.Z(k), B = D.B(k);
    for (long j = 0; j < betti; ++j) { auto v = vecOf<P>(r.get_preferred_representative(j, k), D.X->dim(k), "representative"); CHECKM(inImage<P>(Z, v), w << ": representative " << j << " in degree " << k << " is not a cycle"); H.addcol(v); }
    CHECKM((long)B.hcat(H).rank() == (long)B.rank() + betti, w << ": representatives in degree " << k << " are dependent modulo the image");
    if (Z.n) { DM<P> c = Z * genMat<P>(s, Z.n, 1); auto x = r.chain_preferred_representative(toVec<P>(c.col(0)), k); auto xv = vecOf<P>(x, D.X->dim(k), "preferred"); DV<P> df; for (size_t i = 0; i < xv.size(); ++i) df.push_back(xv[i] - c(i, 0)); CHECKM(inImage<P>(B, df), w << ": preferred representative in degree " << k << " is not in the class"); CHECKM(inImage<P>(H, xv), w << ": preferred representative is not a combination of the basis");
        if (B.n) { auto c2 = c + B * genMat<P>(s, B.n, 1); auto y = vecOf<P>(r.chain_preferred_representative(toVec<P>(c2.col(0)), k), D.X->dim(k), "preferred"); CHECKM(y == xv, w << ": preferred representative in degree " << k << " depends on the cycle"); }
        auto u = r.to_hom_basis(toVec<P>(c.col(0)), k); CHECKM(vecOf<P>(r.from_hom_basis(u, k), D.X->dim(k), "from_hom_basis") == c.col(0), w << ": to/from homology basis"); }
}
PROP(dimensions, "complexes of every type over F2, F3, F5, Q: DG spaces of degree -1 and +1 (augmented or not, every option) and cochain complexes (every option) have the dimensions given by dense ranks, and those keeping a basis have valid (co)cycle representatives; non-trivial: homology in two degrees or above degree 0", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { CH<P> C(X); auto x = cxOf<P>(C); size_t md = X.maxdim(); bool nt = false;
        for (int deg : {-1, 1}) for (int aug : {0, 1}) { DG<P> V(X, deg, aug); CHECKM((long)V.maxdim() == (long)md, "maxdim of the DG space"); for (size_t k = 0; k <= md; ++k) CHECKM(V.dim(k) == x.dim(k), "dimension of the DG space in degree " << k); int o = s.draw(15); auto R = dgOpt<RDG<P>>(V, o); CHECKM((long)R.maxdim() == (long)md, "maxdim of the reduced DG space"); for (size_t k = 0; k <= md; ++k) { long b = x.betti(k) - (aug && k == 0 ? 1 : 0); if (k && b) nt = true; CHECKM((long)R.hdim(k) == b && (long)R.betti(k) == b && R.dim(k) == x.dim(k), "degree " << deg << (aug ? " augmented " : " ") << optName(o) << ": dimension " << R.hdim(k) << " in degree " << k << " expected " << b);
                if (hasBasis(o)) { Deg<P> D{&x, deg}; if (!aug) checkReps<P>(s, R, D, k, b, optName(o)); } } }
        CC<P> K(X); for (size_t k = 0; k <= md; ++k) { CHECKM(K.dim[k] == x.dim(k), "cochain dimension"); if (k) CHECKM(matOf<P>(K.coboundary[k], "coboundary") == x.d[k].T(), "coboundary " << k << " is not the transpose of the boundary"); }
        int o = s.draw(12); auto R = cohOpt<RCC<P>>(K, o); for (size_t k = 0; k <= md; ++k) { CHECKM((long)R.hdim(k) == x.betti(k), "cochain " << (o == 12 ? "default" : o / 3 == 3 ? "compression" : optName(o)) << ": dimension " << R.hdim(k) << " in degree " << k << " expected " << x.betti(k)); if (o == 12 || o / 3 == 1) { Deg<P> D{&x, 1}; checkReps<P>(s, R, D, k, x.betti(k), "cochain"); } }
        s.nontrivial(nt); }); });
}
PROP(permuted_cochains, "random permutations of the cells of cochain complexes: the permuted cochain complex is the transpose of the permuted chain complex, permuting back restores it and its cohomology is unchanged; non-trivial: a non-identity permutation in two degrees", 5000, 50000) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { CH<P> C(X); CC<P> K(X), K0(X); auto x = cxOf<P>(C); std::vector<std::vector<size_t>> p; int nid = 0; for (size_t k = 0; k <= X.maxdim(); ++k) { p.push_back(s.perm(X.ncells(k))); if (!std::is_sorted(p.back().begin(), p.back().end())) ++nid; } s.note << pbt::show(p); bool inv = s.coin(); if (inv) { C.ipermute_basis(p); K.ipermute_basis(p); } else { C.permute_basis(p); K.permute_basis(p); }
        for (size_t k = 1; k <= X.maxdim(); ++k) CHECKM(matOf<P>(K.coboundary[k], "coboundary") == matOf<P>(C.boundary[k], "boundary").T(), "permuted coboundary " << k); RCC<P> R(K); for (size_t k = 0; k <= X.maxdim(); ++k) CHECKM((long)R.hdim(k) == x.betti(k), "cohomology after permutation"); if (inv) K.permute_basis(p); else K.ipermute_basis(p); for (size_t k = 1; k <= X.maxdim(); ++k) CHECKM(matOf<P>(K.coboundary[k], "coboundary") == x.d[k].T(), "permuting back"); s.nontrivial(nid > 1); }); });
}
PROP(persistence, "filtrations of every complex type: pairs from filtered DG spaces of degree -1 and +1 (augmented or not, every option) agree with each other cell for cell and with an independent reduction; augmentation removes only the essential class of the first vertex; non-trivial: a bar of positive finite length above degree 0", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto vals = genVals(s, facesOf(X)); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto x = cxOf<P>(CH<P>(X)); auto ref = refBars<P>(x, vals); BarList want = canon(ref); bool nt = false; for (auto& b : want) if (std::get<0>(b) > 0 && std::isfinite(std::get<2>(b))) nt = true;
        typedef std::tuple<size_t, size_t, size_t> T3; std::set<T3> base; double mn = *std::min_element(vals[0].begin(), vals[0].end());
        for (int deg : {-1, 1}) for (int aug : {0, 1}) { bats::FilteredDGVectorSpace<double, M<P>> V(F, deg, aug); int o = s.draw(15); auto R = dgOpt<bats::ReducedFilteredDGVectorSpace<double, M<P>>>(V, o); std::set<T3> got; BarList g; for (size_t k = 0; k <= X.maxdim(); ++k) { auto ps = R.persistence_pairs(k); long inf = 0; for (auto& p : ps) { CHECKM(got.insert(T3(p.dim, p.birth_ind, p.death_ind)).second, "pair reported twice"); CHECKM(p.dim == k && p.birth == vals[k][p.birth_ind], "birth value of " << p.str()); if (p.death_ind != bats::NO_IND) CHECKM(p.death == vals[k + 1][p.death_ind], "death value of " << p.str()); else ++inf; } CHECKM(inf == (long)R.hdim(k), "infinite pairs " << inf << " and homology dimension " << R.hdim(k)); auto l = libBars(ps); g.insert(g.end(), l.begin(), l.end());
                auto [bd, ix] = R.persistence_pairs_vec(k); CHECK(bd.size() == 2 * ps.size() && ix.size() == bd.size()); for (size_t i = 0; i < ps.size(); ++i) CHECKM(bd[2 * i] == ps[i].birth && ix[2 * i] == ps[i].birth_ind && ix[2 * i + 1] == ps[i].death_ind && (ps[i].death_ind == bats::NO_IND || bd[2 * i + 1] == ps[i].death), "persistence_pairs_vec"); }
            auto w = want; if (aug) { auto it = std::find(w.begin(), w.end(), std::make_tuple(size_t(0), mn, std::numeric_limits<double>::infinity())); CHECK(it != w.end()); w.erase(it); } std::sort(g.begin(), g.end()); CHECKM(g == w, "degree " << deg << (aug ? " augmented " : " ") << optName(o) << "\n  got  " << orc::show(g) << "\n  want " << orc::show(w));
            if (base.empty() && deg == -1 && !aug) base = got; else if (!aug) CHECKM(got == base, "pairs of degree +1 differ from those of degree -1 (" << optName(o) << ")"); else CHECKM(std::includes(base.begin(), base.end(), got.begin(), got.end()) && got.size() + 1 == base.size(), "augmented pairs are not the pairs minus one"); }
        s.nontrivial(nt); }); });
}
PROP(induced, "random simplicial maps: induced maps of DG spaces of degree -1, +1 and of cochain complexes send classes to classes of (co)images and have the rank of the induced homology map; non-trivial: a non-zero map above degree 0 or a singular non-zero one", 12000, 150000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto a = genSMap(s); s.note << showTops(a.x) << " -> " << showTops(a.y) << pbt::show(a.f); bool nt = false;
        auto go = [&](auto X, auto Y) { auto f = bats::SimplicialMap(X, Y, a.f); CH<P> cx(X), cy(Y); auto x = cxOf<P>(cx), y = cxOf<P>(cy); bats::ChainMap<M<P>> F(f); size_t top = std::min(cx.maxdim(), cy.maxdim());
            int o1 = basisOpt(s), o2 = basisOpt(s); auto check = [&](auto& RS, auto& RT, const Deg<P>& S, const Deg<P>& T, const DM<P>& m, const DM<P>& fk, size_t k, const char* w) { CHECKM((long)m.n == S.X->betti(k) && (long)m.m == T.X->betti(k), w << ": shape in degree " << k << ": " << m.m << "x" << m.n); DM<P> hs(S.X->dim(k), 0), ht(T.X->dim(k), 0); for (size_t j = 0; j < m.n; ++j) hs.addcol(vecOf<P>(RS.get_preferred_representative(j, k), S.X->dim(k), "rep")); for (size_t j = 0; j < m.m; ++j) ht.addcol(vecOf<P>(RT.get_preferred_representative(j, k), T.X->dim(k), "rep")); if (m.n) { DM<P> e = fk * hs; if (m.m) e = e - ht * m; auto B = T.B(k); for (size_t j = 0; j < e.n; ++j) CHECKM(inImage<P>(B, e.col(j)), w << ": column " << j << " in degree " << k << " is not the class of the image\n" << m); } };
            bats::DGLinearMap<M<P>> fm(f, -1), fp(f, 1); RDG<P> ax = dgOpt<RDG<P>>(DG<P>(X, -1), o1), ay = dgOpt<RDG<P>>(DG<P>(Y, -1), o2), bx = dgOpt<RDG<P>>(DG<P>(X, 1), o2), by = dgOpt<RDG<P>>(DG<P>(Y, 1), o1); CC<P> kx(X), ky(Y); auto qx = cohOpt<RCC<P>>(kx, s.coin() ? 12 : 3 + (int)s.draw(2)); RCC<P> qy(ky);
            for (size_t k = 0; k <= top; ++k) { if (!x.dim(k) || !y.dim(k)) break; auto fk = matOf<P>(F[k], "chain map"); long r = hrank<P>(x, y, fk, k); Deg<P> hX{&x, -1}, hY{&y, -1}, cX{&x, 1}, cY{&y, 1}; auto m1 = matOf<P>(induced_map(fm, ax, ay, k), "induced -1"), m2 = matOf<P>(induced_map(fp, by, bx, k), "induced +1"), m3 = matOf<P>(induced_map(F, qx, qy, k), "induced cochain"); check(ax, ay, hX, hY, m1, fk, k, "degree -1"); check(by, bx, cY, cX, m2, fk.T(), k, "degree +1"); check(qy, qx, cY, cX, m3, fk.T(), k, "cochains"); CHECKM((long)m1.rank() == r && (long)m2.rank() == r && (long)m3.rank() == r, "ranks in degree " << k << ": " << m1.rank() << "," << m2.rank() << "," << m3.rank() << " expected " << r); if (r && (k || (size_t)r < m1.n || (size_t)r < m1.m)) nt = true; } };
        if (s.coin(2, 3)) go(buildSC(a.x), buildSC(a.y)); else go(buildLC(a.x, a.n, mdOf(a.x)), buildLC(a.y, a.m, mdOf(a.y))); s.nontrivial(nt); });
}
PROP(diagrams, "zigzag diagrams of subcomplexes of one complex with inclusions in random directions: barcodes from DG spaces of degree -1, of degree +1 and from chain complexes agree with the independent interval decomposition; non-trivial: three or more nodes and a bar that is neither a single node nor everything", 6000, 60000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.sized(1, 5); size_t md = s.range(1, 2); long len = s.sized(2, 7); std::vector<LightC> X; std::vector<Cx<P>> cx; std::vector<bool> dir; std::vector<std::set<Spx>> S;
        auto norm = [&](std::set<Spx> q) { q.insert({0}); std::set<Spx> r; for (auto& z : q) { auto c = closure({z}); r.insert(c.begin(), c.end()); } for (auto it = r.begin(); it != r.end();) if (it->size() > md + 1) it = r.erase(it); else ++it; return r; };
        for (long i = 0; i < len; ++i) { std::set<Spx> q; if (i == 0) { auto c = genComplex(s, n, md, 3); q.insert(c.begin(), c.end()); } else { bool fw = s.coin(); dir.push_back(fw); q = S.back(); if (fw) { auto c = genComplex(s, n, md, 2); q.insert(c.begin(), c.end()); } else { std::vector<Spx> all(q.begin(), q.end()); std::set<Spx> r; for (auto& z : all) if (s.coin(2, 3)) r.insert(z); std::set<Spx> keep; for (auto& z : all) { auto c = closure({z}); bool ok = true; for (auto& w : c) if (!r.count(w)) ok = false; if (ok) keep.insert(z); } q = keep; } } q = norm(q); if (i && !dir.back()) { std::set<Spx> t; for (auto& z : q) if (S.back().count(z)) t.insert(z); q = t; } S.push_back(q); std::vector<Spx> v(q.begin(), q.end()); byDim(v); v = linearExtension(s, v); s.note << (i ? (dir.back() ? " -> " : " <- ") : "") << pbt::show(v); X.push_back(buildLC(v, n, md)); }
        bats::Diagram<LightC, bats::CellularMap> D(len, len - 1); for (long i = 0; i < len; ++i) { D.set_node(i, X[i]); CH<P> c(X[i]); cx.push_back(cxOf<P>(c)); while (cx.back().d.size() < md + 1) cx.back().d.push_back(DM<P>(cx.back().d.back().n, 0)); } for (long i = 0; i + 1 < len; ++i) { size_t a = dir[i] ? i : i + 1, b = dir[i] ? i + 1 : i; D.set_edge(i, a, b, bats::SimplicialMap(X[a], X[b])); }
        auto E1 = bats::DGLinearFunctor<M<P>>(D, -1), E2 = bats::DGLinearFunctor<M<P>>(D, 1); bool nt = false;
        for (size_t k = 0; k <= md; ++k) {   // oracle: homology as quotient, maps from dense linear algebra
            std::vector<size_t> hd; std::vector<DM<P>> Hb, maps; for (long i = 0; i < len; ++i) { auto B = cx[i].B(k), Zk = cx[i].Z(k); DM<P> t = B.n ? B.hcat(Zk) : Zk; std::vector<size_t> ix; DM<P> u = t; for (auto p : u.rref()) if (p >= B.n) ix.push_back(p); Hb.push_back(t.cols(ix)); hd.push_back(ix.size()); CHECK((long)ix.size() == cx[i].betti(k)); }
            for (long i = 0; i + 1 < len; ++i) { size_t a = dir[i] ? i : i + 1, b = dir[i] ? i + 1 : i; DM<P> m(hd[b], hd[a]); if (hd[a] && hd[b]) { bats::ChainMap<M<P>> F(D.edge_data(i)); auto im = matOf<P>(F[k], "F") * Hb[a]; auto B = cx[b].B(k); DM<P> t = (B.n ? B.hcat(Hb[b]) : Hb[b]); for (size_t j = 0; j < im.n; ++j) { DM<P> q = t.hcat(colvec<P>(im.col(j))); DM<P> N = q.null(); DV<P> sol; for (size_t z = 0; z < N.n; ++z) if (!N(t.n, z).zero()) { for (size_t r = 0; r < t.n; ++r) sol.push_back(Z<P>(0) - N(r, z) / N(t.n, z)); break; } CHECK(sol.size() == t.n); for (size_t r = 0; r < hd[b]; ++r) m(r, j) = sol[B.n + r]; } } maps.push_back(m); }
            auto want = quiverBars<P>(hd, maps, dir); auto get = [&](auto ps) { std::map<std::pair<size_t, size_t>, long> r; for (auto& p : ps) ++r[{(size_t)p.birth, (size_t)p.death}]; return r; }; for (auto it = want.begin(); it != want.end();) if (!it->second) it = want.erase(it); else { size_t l = it->first.second - it->first.first + 1; if (l > 1 && (long)l < len) nt = true; ++it; }
            auto g1 = get(barcode(bats::Hom(E1, k), k)), g2 = get(barcode(bats::Hom(E2, k), k)), g3 = get(barcode(bats::Hom(bats::ChainFunctor<M<P>>(D), k), k)); auto sh = [](const std::map<std::pair<size_t, size_t>, long>& m) { std::ostringstream o; for (auto& q : m) o << "[" << q.first.first << "," << q.first.second << "]x" << q.second << " "; return o.str(); }; CHECKM(g1 == want && g2 == want && g3 == want, "degree " << k << ": -1 " << sh(g1) << " +1 " << sh(g2) << " chain " << sh(g3) << " expected " << sh(want));
            for (bool td : {true, false}) if (td || k < md) { auto all = barcode(bats::Hom(td ? E1 : E2, td)); std::vector<bats::PersistencePair<size_t>> b; for (auto& p : all) if (p.dim == k) b.push_back(p); auto g = get(b); CHECKM(g == want, "all degrees at once, degree " << k << ": " << sh(g) << " expected " << sh(want)); } }
        s.nontrivial(nt && len >= 3); });
}
PBT_MAIN("C18")
