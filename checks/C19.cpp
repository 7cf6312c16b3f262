// C19 Persistence barcodes against an independent computation
// split: field
#include "oracle.hpp"
#include "persgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using FC = bats::FilteredChainComplex<double, M<P>>; template <int P> using RF = bats::ReducedFilteredChainComplex<double, M<P>>;
template <int P, class R> void checkOne(const R& r, const std::set<Pr>& want, const Vals& vals, const std::string& w) {
    auto got = pairsOf(r, vals, w); CHECKM(got == want, w << ": pairing\n  got  " << showPairs(got) << "\n  want " << showPairs(want));
    std::vector<std::vector<int>> seen; for (auto& v : vals) seen.emplace_back(v.size(), 0); for (auto& p : got) { ++seen[std::get<0>(p)][std::get<1>(p)]; if (std::get<2>(p) != bats::NO_IND) ++seen[std::get<0>(p) + 1][std::get<2>(p)]; } for (auto& v : seen) for (int c : v) CHECKM(c == 1, w << ": a cell occurs in " << c << " pairs");
    for (size_t k = 0; k < vals.size(); ++k) { auto a = r.persistence_pairs(k), b = r.persistence_pairs(k, true); CHECK(a.size() == b.size()); auto perm = bats::filtration_sortperm(vals[k]); std::vector<size_t> perm1; if (k + 1 < vals.size()) perm1 = bats::filtration_sortperm(vals[k + 1]); long inf = 0; for (size_t i = 0; i < a.size(); ++i) { CHECKM(a[i].get_dim() == k && a[i].get_birth_ind() == a[i].birth_ind && a[i].get_death_ind() == a[i].death_ind && a[i].get_birth() == a[i].birth && a[i].get_death() == a[i].death && a[i].length() == a[i].death - a[i].birth && (a[i].mid() == (a[i].birth + a[i].death) / 2 || (std::isinf(a[i].death) && std::isinf(a[i].mid()))) && !(a[i] != b[i]), w << ": accessors of a pair"); CHECKM(a[i] == b[i] && perm[b[i].birth_ind] == a[i].birth_ind && (a[i].death_ind == bats::NO_IND ? b[i].death_ind == bats::NO_IND : perm1[b[i].death_ind] == a[i].death_ind), w << ": permuted indices of " << a[i].str()); inf += a[i].death_ind == bats::NO_IND; } CHECKM((long)r.hdim(k) == inf, w << ": essential classes and homology dimension");
        { std::vector<double> v0, v1; for (auto i : perm) v0.push_back(vals[k][i]); for (auto i : perm1) v1.push_back(vals[k + 1][i]); auto e = bats::extract_pairs(r.RC.R[k], k + 1 < vals.size() ? r.RC.p2c[k + 1] : std::vector<size_t>(vals[k].size(), bats::NO_IND), v0, v1, k); CHECKM(e == b, w << ": extract_pairs differs from the permuted pairs in degree " << k); }
        for (bool pm : {false, true}) { auto [bd, ix] = r.persistence_pairs_vec(k, pm); auto& q = pm ? b : a; CHECK(bd.size() == 2 * q.size() && ix.size() == bd.size()); for (size_t i = 0; i < q.size(); ++i) CHECKM(bd[2 * i] == q[i].birth && bd[2 * i + 1] == q[i].death && ix[2 * i] == q[i].birth_ind && ix[2 * i + 1] == q[i].death_ind, w << ": persistence_pairs_vec"); } CHECKM(bats::barcode_equality(a, b), "barcode_equality of equal barcodes"); if (!a.empty()) { auto c = a; c.back().birth -= 1; CHECKM(!bats::barcode_equality(a, c) && !bats::barcode_equality(c, a), "barcode_equality of different barcodes"); c = a; c.pop_back(); CHECK(!bats::barcode_equality(a, c)); } }
}
PROP(all_options, "filtrations (ties, negative values, any cell order) of simplicial, light, cubical and cell complexes over F2, F3, F5, Q: pairing, values and barcode of all 19 algorithm/option choices equal an independent reduction cell for cell; non-trivial: a finite bar of positive length above degree 0", 15000, 250000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto vals = genVals(s, facesOf(X)); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto ref = refBars<P>(cxOf<P>(CH<P>(X)), vals); auto want = refPairs(ref); FC<P> C(F); for (int o = 0; o < 19; ++o) { auto R = withFlags(o, [&](auto... a) { return RF<P>(C, a...); }); checkOne<P>(R, want, vals, optName19(o)); } auto R2 = bats::Reduce(F, orc::F<P>()); checkOne<P>(R2, want, vals, "Reduce(F)"); auto R3 = bats::Reduce(C); checkOne<P>(R3, want, vals, "Reduce(C)"); s.nontrivial(hasFinite(canon(ref))); }); });
}
PROP(rank_invariant, "for every pair of values a <= b the number of bars alive over [a, b] equals the rank of the map of sublevel homology computed by dense linear algebra; non-trivial: as above", 8000, 100000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto vals = genVals(s, facesOf(X)); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto x = cxOf<P>(CH<P>(X)); int o = s.draw(18); auto R = withFlags(o, [&](auto... a) { return bats::Reduce(F, orc::F<P>(), a...); }); std::set<double> vs; for (auto& v : vals) vs.insert(v.begin(), v.end()); bool nt = false;
        auto in = [&](size_t k, double t) { std::vector<size_t> r; if (k < vals.size()) for (size_t i = 0; i < vals[k].size(); ++i) if (vals[k][i] <= t) r.push_back(i); return r; };
        for (size_t k = 0; k < vals.size(); ++k) { auto ps = R.persistence_pairs(k); for (auto& p : ps) if (k && std::isfinite(p.death) && p.death > p.birth) nt = true; for (double a : vs) { auto ca = in(k, a); DM<P> Za; if (k == 0) Za = DM<P>::eye(x.dim(0)).cols(ca); else { auto N = ca.empty() ? DM<P>(0, 0) : x.d[k].cols(ca).null(); Za = DM<P>(x.dim(k), N.n); for (size_t j = 0; j < N.n; ++j) for (size_t i = 0; i < ca.size(); ++i) Za(ca[i], j) = N(i, j); }
                for (double b : vs) if (b >= a) { auto cb = in(k + 1, b); DM<P> Bb = k + 1 < x.d.size() ? x.d[k + 1].cols(cb) : DM<P>(x.dim(k), 0); long rk = (long)Bb.hcat(Za).rank() - (long)Bb.rank(), cnt = 0; for (auto& p : ps) if (p.birth <= a && p.death > b) ++cnt; CHECKM(cnt == rk, optName19(o) << ": " << cnt << " bars over [" << a << "," << b << "] in degree " << k << ", rank of the map " << rk); } } }
        s.nontrivial(nt); }, 5); });
}
template <class T> void history(Src& s) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 6); auto v = linearExtension(s, genComplex(s, n, 3, 5)); bats::Filtration<T, bats::SimplicialComplex> F; std::map<Spx, T> val; std::map<Spx, std::pair<size_t, size_t>> id; std::vector<size_t> cnt(5, 0); T t = (T)s.range(-3, 3); bool rec = s.coin(1, 3); s.note << (rec ? "recursive " : "");
        auto put = [&](const Spx& q) { for (auto& w : [&] { auto c = closure({q}); std::vector<Spx> r(c.begin(), c.end()); byDim(r); return r; }()) if (!val.count(w)) { val[w] = t; id[w] = {w.size() - 1, 0}; } };
        for (auto& q : v) { if (rec && !s.coin(1, 2)) continue; if (rec) { t += (T)s.draw(2); put(q); auto z = q; s.note << t << pbt::show(q); F.add_recursive(t, z); } else { T m = t; bool any = false; for (auto& w : closure({q})) if (w != q) { m = any ? std::max(m, val[w]) : val[w]; any = true; } T u = any ? m + (T)s.draw(3) * (T)(s.coin() ? 1 : 0) : (T)s.range(-4, 4); val[q] = u; id[q] = {q.size() - 1, 0}; auto z = q; std::vector<size_t> zp; for (auto i : s.perm(z.size())) zp.push_back(z[i]); s.note << u << pbt::show(zp); F.add(u, zp); } }
        if (val.empty()) return; Vals vals(F.maxdim() + 1); const auto& X = F.complex(); std::vector<std::vector<Spx>> cells(F.maxdim() + 1); for (size_t k = 0; k <= F.maxdim(); ++k) { CHECK(F.ncells(k) == X.ncells(k)); for (size_t i = 0; i < X.ncells(k); ++i) { auto sx = X.get_simplex(k, i); Spx q(sx.begin(), sx.end()); std::sort(q.begin(), q.end()); cells[k].push_back(q); CHECKM(val.count(q), "unexpected simplex " << pbt::show(q)); CHECKM(F.vals()[k][i] == val[q], "value of " << pbt::show(q) << " is " << F.vals()[k][i] << " expected " << val[q]); vals[k].push_back((double)val[q]); } }
        size_t tot = 0; for (auto& c : cells) tot += c.size(); CHECKM(tot == val.size(), "number of cells"); Cx<P> x; for (size_t k = 0; k < cells.size(); ++k) x.d.push_back(k ? simplicialBoundary<P>(cells, k) : DM<P>(1, cells[0].size())); auto ref = refBars<P>(x, vals); auto R = bats::Reduce(F, orc::F<P>()); auto got = pairsOf(R, vals, "history"); CHECKM(got == refPairs(ref), "history: pairing\n  got  " << showPairs(got) << "\n  want " << showPairs(refPairs(ref))); BarList g; for (size_t k = 0; k <= R.maxdim(); ++k) { auto l = libBars(R.persistence_pairs(k)); g.insert(g.end(), l.begin(), l.end()); } std::sort(g.begin(), g.end()); CHECKM(g == canon(ref), "barcode " << orc::show(g) << " expected " << orc::show(canon(ref))); s.nontrivial(hasFinite(g)); });
}
PROP(histories, "filtrations built cell by cell (vertices of a simplex in any order, values not sorted) or recursively, in double and float: cells, values, pairing and barcode; non-trivial: as above", 15000, 200000) { if (s.coin()) history<double>(s); else history<float>(s); }
PROP(invariance, "the same filtration with its cells inserted in another order, on the other complex type, with values shifted and scaled, has the correspondingly changed barcode; non-trivial: as above", 8000, 100000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 6); auto v = genComplex(s, n, 3, 5); std::map<Spx, double> val; for (auto& q : v) { double m = -2; for (auto& w : closure({q})) if (w != q) m = std::max(m, val[w]); val[q] = m + (double)s.draw(4) * (s.coin() ? 1 : 0); } auto a = linearExtension(s, v), b = linearExtension(s, v); s.note << showTops(a) << showTops(b); double sc = (double)s.range(1, 3), sh = (double)s.range(-5, 5);
        auto bars = [&](auto X, const std::vector<Spx>& ord, double c, double d) { Vals vv(X.maxdim() + 1); for (auto& q : ord) vv[q.size() - 1].push_back(0); for (auto& q : ord) vv[q.size() - 1][X.find_idx(q)] = val[q] * c + d; auto F = bats::Filtration(X, vv); int o = s.draw(18); auto R = withFlags(o, [&](auto... f) { return bats::Reduce(F, orc::F<P>(), f...); }); BarList g; for (size_t k = 0; k <= R.maxdim(); ++k) { auto l = libBars(R.persistence_pairs(k)); g.insert(g.end(), l.begin(), l.end()); } std::sort(g.begin(), g.end()); return g; };
        auto g0 = bars(buildSC(a), a, 1, 0), g1 = bars(buildSC(b), b, sc, sh), g2 = bars(buildLC(b, n, mdOf(b)), b, sc, sh); for (auto& t : g0) { std::get<1>(t) = std::get<1>(t) * sc + sh; std::get<2>(t) = std::get<2>(t) * sc + sh; } std::sort(g0.begin(), g0.end()); CHECKM(g0 == g1, "reordered: " << orc::show(g0) << " vs " << orc::show(g1)); CHECKM(g0 == g2, "light complex: " << orc::show(g0) << " vs " << orc::show(g2)); s.nontrivial(hasFinite(g0)); });
}
PROP(large, "filtered 2-skeleta with a few hundred to over a thousand triangles (beyond the block sizes of divide-and-conquer), every option; non-trivial: at least 300 triangles", 40, 1500) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.range(9, 17); unsigned num = s.range(1, 4), span = s.range(1, 40); bats::SimplicialComplex x; for (size_t i = 0; i < n; ++i) x.add({i}); std::vector<Spx> t; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) if (s.coin(num, 4)) t.push_back({i, j, k}); auto p = s.perm(t.size()); for (auto i : p) x.add_recursive(t[i]); if (t.empty()) throw pbt::Discard{}; s.note << "n=" << n << " triangles=" << t.size(); Vals vals(x.maxdim() + 1); for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) { double m = 0; auto sx = x.get_simplex(k, i); Spx q(sx.begin(), sx.end()); if (k) for (auto& w : closure({q})) if (w.size() == k) m = std::max(m, vals[k - 1][x.find_idx(w)]); vals[k].push_back(m + (double)s.draw(span)); }
        auto F = bats::Filtration(x, vals); std::vector<std::vector<Spx>> cells(x.maxdim() + 1); for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) { auto sx = x.get_simplex(k, i); cells[k].push_back(Spx(sx.begin(), sx.end())); }
        // sparse reference
        std::vector<std::tuple<double, size_t, size_t>> ord; for (size_t k = 0; k < vals.size(); ++k) for (size_t j = 0; j < vals[k].size(); ++j) ord.emplace_back(vals[k][j], k, j); std::sort(ord.begin(), ord.end()); std::map<Spx, size_t> pos; std::vector<std::map<size_t, Z<P>>> b(ord.size()); std::vector<size_t> dm; std::vector<double> vv; for (size_t q = 0; q < ord.size(); ++q) { auto& c = cells[std::get<1>(ord[q])][std::get<2>(ord[q])]; pos[c] = q; dm.push_back(c.size() - 1); vv.push_back(std::get<0>(ord[q])); if (c.size() > 1) for (size_t i = 0; i < c.size(); ++i) { Spx f = c; f.erase(f.begin() + i); b[q][pos[f]] = Z<P>(i & 1 ? -1 : 1); } } auto ref = textbook<P>(b, dm, vv); for (auto& q : ref) { q.bi = std::get<2>(ord[q.bi]); if (!q.inf) q.di = std::get<2>(ord[q.di]); } auto want = refPairs(ref);
        FC<P> C(F); for (int o = 0; o < 19; ++o) { auto R = withFlags(o, [&](auto... a) { return RF<P>(C, a...); }); auto got = pairsOf(R, vals, optName19(o)); CHECKM(got == want, optName19(o) << ": pairing differs on a large filtration"); } s.nontrivial(t.size() >= 300); });
}
PBT_MAIN("C19")
