// C14 Betti numbers under every reduction option against the rank formula
// split: field
#include "oracle.hpp"
#include "complexgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using RC = bats::ReducedChainComplex<M<P>>;
// number of options: algorithm (3) x {plain, basis, clearing, clearing+basis, compression, compression+basis} + default constructor
template <int P, class Alg> RC<P> withAlg(const CH<P>& C, Alg a, int o) {
    switch (o) { case 0: return RC<P>(C, a); case 1: return RC<P>(C, a, bats::compute_basis_flag()); case 2: return RC<P>(C, a, bats::clearing_flag()); case 3: return RC<P>(C, a, bats::clearing_flag(), bats::compute_basis_flag()); case 4: return RC<P>(C, a, bats::compression_flag()); default: return RC<P>(C, a, bats::compression_flag(), bats::compute_basis_flag()); }
}
template <int P> RC<P> reduceWith(const CH<P>& C, int opt) { if (opt == 18) return RC<P>(C); if (opt == 19) return bats::Reduce(C); switch (opt / 6) { case 0: return withAlg<P>(C, bats::standard_reduction_flag(), opt % 6); case 1: return withAlg<P>(C, bats::extra_reduction_flag(), opt % 6); default: return withAlg<P>(C, bats::divide_conquer_flag(), opt % 6); } }
static const char* optName(int o) { static std::string n[20]; static const char* al[] = {"standard", "extra", "divide_conquer"}; static const char* ob[] = {"", "+basis", "+clearing", "+clearing+basis", "+compression", "+compression+basis"}; if (o >= 18) return o == 18 ? "default" : "Reduce(C)"; n[o] = std::string(al[o / 6]) + ob[o % 6]; return n[o].c_str(); }
template <int P> std::vector<long> rankBetti(const CH<P>& C) { std::vector<DM<P>> d; std::vector<size_t> n; for (size_t k = 0; k <= C.maxdim(); ++k) { d.push_back(matOf<P>(C.boundary[k], "boundary")); n.push_back(C.dim(k)); } return bettiOf<P>(d, n); }
template <int P> void checkAll(const CH<P>& C, const std::vector<long>& e, const char* w) {
    for (int o = 0; o < 20; ++o) { RC<P> R = reduceWith<P>(C, o); CHECKM(R.maxdim() == C.maxdim(), w << " " << optName(o) << ": maxdim"); long chi = 0, chi2 = 0;
        for (size_t k = 0; k <= C.maxdim(); ++k) { CHECKM((long)R.hdim(k) == e[k] && R.betti(k) == R.hdim(k), w << " " << optName(o) << ": betti_" << k << " = " << R.hdim(k) << " rank formula " << e[k]); CHECKM(R.dim(k) == C.dim(k), w << " " << optName(o) << ": dim " << k); chi += (k & 1 ? -1 : 1) * (long)R.hdim(k); chi2 += (k & 1 ? -1 : 1) * (long)C.dim(k); }
        CHECKM(chi == chi2, w << " " << optName(o) << ": Euler characteristic"); }
}
PROP(all_options, "chain complexes from simplicial, light, cubical, cell (with multiple attachings), relative pairs, tensor products and random matrices, random cell orders, over F2, F3, F5, Q: all 20 algorithm/option choices vs cells minus ranks; non-trivial: some positive Betti number above degree 0 or a boundary of rank >= 2 in two degrees", 20000, 300000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; CH<P> C = genChain<P>(s); auto e = rankBetti<P>(C); checkAll<P>(C, e, "chain complex"); bool pos = false; for (size_t k = 1; k < e.size(); ++k) if (e[k] > 0) pos = true; s.nontrivial(pos); });
}
PROP(spaces, "cones, suspensions, spheres, disjoint unions, products with an interval and cell-order shuffles of random complexes, via Reduce(complex, field, options): Betti numbers as topology says relative to the oracle value of the base; non-trivial: base with homology above degree 0", 8000, 100000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = someN(s, 5); auto v = genComplex(s, n, 2, 4); auto cl = [&](const std::vector<Spx>& q) { bats::SimplicialComplex x; for (auto t : linearExtension(s, q)) x.add(t); return x; };
        auto base = cl(v); CH<P> cb(base); auto b = rankBetti<P>(cb); auto B = [&](size_t k) { return k < b.size() ? b[k] : 0L; }; int kind = s.draw(5); s.note << "kind" << kind << " "; for (auto& q : v) if (q.size() > 1) s.note << pbt::show(q); std::vector<Spx> w; std::vector<long> e;
        auto cone = [&](size_t apex, std::vector<Spx> q) { std::vector<Spx> r = q; r.push_back({apex}); for (auto t : q) { t.push_back(apex); std::sort(t.begin(), t.end()); r.push_back(t); } return r; };
        if (kind == 0) { w = cone(n, v); e.assign(b.size() + 1, 0); e[0] = 1; }
        else if (kind == 1) { std::set<Spx> u; for (auto& q : cone(n, v)) u.insert(q); for (auto& q : cone(n + 1, v)) u.insert(q); w.assign(u.begin(), u.end()); e.assign(b.size() + 1, 0); e[0] = 1; for (size_t k = 0; k < b.size(); ++k) e[k + 1] = k == 0 ? b[0] - 1 : b[k]; }
        else if (kind == 2) { auto v2 = genComplex(s, s.sized(1, 4), 2, 3); auto x2 = cl(v2); CH<P> c2(x2); auto b2 = rankBetti<P>(c2); w = v; for (auto t : v2) { for (auto& q : t) q += n; w.push_back(t); } e.assign(std::max(b.size(), b2.size()), 0); for (size_t k = 0; k < b.size(); ++k) e[k] += b[k]; for (size_t k = 0; k < b2.size(); ++k) e[k] += b2[k]; }
        else if (kind == 3) { size_t d = s.range(1, 4); Spx top; for (size_t i = 0; i <= d + 1; ++i) top.push_back(i); for (auto& q : closure({top})) if (q.size() < top.size()) w.push_back(q); e.assign(d + 1, 0); e[0] += 1; e[d] += 1; }
        else if (kind == 4) { w = v; e = b; }
        else { bats::SimplicialComplex I; I.add_recursive({0, 1}); auto pr = bats::TriangulatedProduct(base, I, base.maxdim() + 1, n); w = pr.get_simplices(); e = b; e.push_back(0); }
        auto x = cl(w); size_t md = x.maxdim(); e.resize(md + 1, 0); auto chk = [&](auto R, const char* nm) { CHECKEQ(R.maxdim(), md); for (size_t k = 0; k <= md; ++k) CHECKM((long)R.hdim(k) == e[k], nm << ": betti_" << k << " = " << R.hdim(k) << " expected " << e[k]); };
        chk(bats::Reduce(x, orc::F<P>()), "Reduce"); chk(bats::Reduce(x, orc::F<P>(), bats::extra_reduction_flag(), bats::clearing_flag()), "extra+clearing"); chk(bats::Reduce(x, orc::F<P>(), bats::standard_reduction_flag(), bats::compression_flag()), "compression"); chk(bats::Reduce(x, orc::F<P>(), bats::divide_conquer_flag()), "divide_conquer"); (void)B; bool pos = false; for (size_t k = 1; k < b.size(); ++k) if (b[k] > 0) pos = true; s.nontrivial(pos || kind == 3); });
}
PROP(large, "2-skeleta with a few hundred to over a thousand triangles (beyond the block sizes of the divide-and-conquer reductions), all options, over F2, F3, F5 vs the rank formula; non-trivial: at least 300 columns in one boundary", 60, 1500) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.range(9, 17); unsigned num = s.range(1, 4); bats::SimplicialComplex x; for (size_t i = 0; i < n; ++i) x.add({i}); std::vector<Spx> t; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) if (s.coin(num, 4)) t.push_back({i, j, k}); auto p = s.perm(t.size()); for (auto i : p) x.add_recursive(t[i]); s.note << "n=" << n << " triangles=" << t.size(); CH<P> C(x); auto e = rankBetti<P>(C); checkAll<P>(C, e, "large"); s.nontrivial(t.size() >= 300); });
}
PBT_MAIN("C14")
