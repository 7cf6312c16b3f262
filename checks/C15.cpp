// C15 Reduced complexes certify themselves
// split: field
#include "oracle.hpp"
#include "complexgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using RC = bats::ReducedChainComplex<M<P>>;
template <int P> std::vector<DM<P>> dense(const CH<P>& C) { std::vector<DM<P>> d; for (size_t k = 0; k <= C.maxdim(); ++k) d.push_back(matOf<P>(C.boundary[k], "boundary")); return d; }
static const char* optn[] = {"default", "standard", "extra", "divide_conquer", "standard+clearing", "extra+clearing", "divide_conquer+clearing"};
template <int P> RC<P> reduceBasis(const CH<P>& C, int o) {
    bats::compute_basis_flag b; bats::clearing_flag c;
    switch (o) { case 0: return RC<P>(C); case 1: return RC<P>(C, bats::standard_reduction_flag(), b); case 2: return RC<P>(C, bats::extra_reduction_flag(), b); case 3: return RC<P>(C, bats::divide_conquer_flag(), b); case 4: return RC<P>(C, bats::standard_reduction_flag(), c, b); case 5: return RC<P>(C, bats::extra_reduction_flag(), c, b); default: return RC<P>(C, bats::divide_conquer_flag(), c, b); }
}
// the decomposition D_k U_k = R_k, its shape, the pivot tables and the homology indices
template <int P> void valid(const std::vector<DM<P>>& D, const RC<P>& R, const std::string& w) {
    CHECKM(R.U.size() == D.size() && R.R.size() == D.size() && R.I.size() == D.size(), w << ": number of dimensions");
    std::vector<std::vector<long>> piv(D.size());
    for (size_t k = 0; k < D.size(); ++k) {
        auto u = matOf<P>(R.U[k], "U"), r = matOf<P>(R.R[k], "R"); size_t n = D[k].n;
        CHECKM(u.m == n && u.n == n && r.m == D[k].m && r.n == n, w << ": shapes in degree " << k); CHECKM(D[k] * u == r, w << ": D*U != R in degree " << k << "\nD=" << D[k] << "U=" << u << "R=" << r);
        for (size_t j = 0; j < n; ++j) { CHECKM(!u(j, j).zero(), w << ": U singular in degree " << k << " column " << j << " U=" << u); for (size_t i = j + 1; i < n; ++i) CHECKM(u(i, j).zero(), w << ": U not upper triangular in degree " << k << " U=" << u); }
        piv[k].assign(D[k].m, -1); for (size_t j = 0; j < n; ++j) { long p = -1; for (size_t i = 0; i < r.m; ++i) if (!r(i, j).zero()) p = i; if (p >= 0) { CHECKM(piv[k][p] < 0, w << ": two columns of R share pivot " << p << " in degree " << k << " R=" << r); piv[k][p] = j; } }
        CHECKM(R.p2c[k].size() == D[k].m, w << ": pivot table size in degree " << k); for (size_t i = 0; i < D[k].m; ++i) CHECKM((piv[k][i] < 0) == (R.p2c[k][i] == bats::NO_IND) && (piv[k][i] < 0 || (size_t)piv[k][i] == R.p2c[k][i]), w << ": pivot table entry " << i << " in degree " << k << " is " << R.p2c[k][i] << " expected " << piv[k][i]);
    }
    for (size_t k = 0; k < D.size(); ++k) { std::vector<size_t> e; auto r = matOf<P>(R.R[k], "R"); for (size_t j = 0; j < r.n; ++j) { bool z = true; for (size_t i = 0; i < r.m; ++i) if (!r(i, j).zero()) z = false; if (z && (k + 1 >= D.size() || piv[k + 1][j] < 0)) e.push_back(j); } CHECKM(e == R.I[k], w << ": homology indices in degree " << k << " " << pbt::show(R.I[k]) << " expected " << pbt::show(e)); }
}
template <int P> DM<P> imageOf(const std::vector<DM<P>>& D, size_t k) { return k + 1 < D.size() ? D[k + 1] : DM<P>(D[k].n, 0); }
template <int P> DM<P> reps(const RC<P>& R, size_t k, size_t n) { DM<P> H(n, 0); for (size_t j = 0; j < R.hdim(k); ++j) H.addcol(vecOf<P>(R.get_preferred_representative(j, k), n, "representative")); return H; }
// representatives and the preferred-representative map
template <int P> bool certify(Src& s, const std::vector<DM<P>>& D, const RC<P>& R, const std::string& w) {
    bool big = false;
    for (size_t k = 0; k < D.size(); ++k) {
        size_t n = D[k].n; if (!n) { CHECKEQ(R.hdim(k), 0u); continue; } auto B = imageOf<P>(D, k); auto H = reps<P>(R, k, n); long b = (long)n - D[k].rank() - B.rank();
        CHECKM((long)H.n == b, w << ": " << H.n << " representatives in degree " << k << ", rank formula " << b); CHECKM((D[k] * H).zero(), w << ": representative in degree " << k << " is not a cycle"); CHECKM((long)H.hcat(B).rank() == b + (long)B.rank(), w << ": representatives in degree " << k << " dependent modulo boundaries");
        DM<P> v = genMat<P>(s, n, 1); auto vl = toVec<P>(v.col(0)); auto y = R.to_hom_basis(vl, k); CHECKM(vecOf<P>(vl, n, "v") == v.col(0), w << ": to_hom_basis changed its input"); CHECKM(vecOf<P>(R.from_hom_basis(y, k), n, "from_hom(to_hom)") == v.col(0), w << ": from_hom_basis(to_hom_basis(v)) != v in degree " << k); CHECKM(matOf<P>(R.U[k], "U") * colvec<P>(vecOf<P>(y, n, "to_hom")) == v, w << ": U*to_hom_basis(v) != v"); CHECKM(vecOf<P>(R.to_hom_basis(R.from_hom_basis(vl, k), k), n, "to_hom(from_hom)") == v.col(0), w << ": to_hom_basis(from_hom_basis(v)) != v");
        auto N = D[k].null(); if (!N.n) continue; DM<P> c = N * genMat<P>(s, N.n, 1); if (b) for (long i = 0; i < b; ++i) if (s.coin()) { for (size_t q = 0; q < n; ++q) c(q, 0) = c(q, 0) + H(q, i); }
        DM<P> c2 = B.n ? c + B * genMat<P>(s, B.n, 1) : c; auto r1 = vecOf<P>(R.chain_preferred_representative(toVec<P>(c.col(0)), k), n, "preferred"), r2 = vecOf<P>(R.chain_preferred_representative(toVec<P>(c2.col(0)), k), n, "preferred");
        CHECKM(B.inspan(DV<P>((c - colvec<P>(r1)).col(0))), w << ": preferred representative not homologous to the cycle in degree " << k << "\ncycle " << c << "rep " << colvec<P>(r1)); CHECKM(r1 == r2, w << ": preferred representatives of homologous cycles differ in degree " << k); CHECKM(H.n ? H.inspan(r1) : colvec<P>(r1).zero(), w << ": preferred representative outside the span of the basis representatives in degree " << k);
        if (b && B.rank() > 0 && !colvec<P>(r1).zero() && !(c == colvec<P>(r1))) big = true;
        // representative of the zero class, and of each basis representative itself
        for (size_t j = 0; j < H.n; ++j) CHECKM(vecOf<P>(R.chain_preferred_representative(R.get_preferred_representative(j, k), k), n, "preferred") == H.col(j), w << ": basis representative is not its own preferred representative in degree " << k);
    }
    return big;
}
PROP(decomposition, "the 8 kinds of chain complexes over F2, F3, F5, Q, all 7 basis-computing options: D*U=R, U upper triangular invertible, R reduced, pivot tables and homology indices exact; representatives independent cycles modulo boundaries; to/from_hom_basis inverse; preferred representative homologous, class-only, in the span; non-trivial: a cycle replaced by a different nonzero preferred representative", 20000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; CH<P> C = genChain<P>(s); auto D = dense<P>(C); bool nt = false; int deep = s.draw(6); for (int o = 0; o < 7; ++o) { RC<P> R = reduceBasis<P>(C, o); valid<P>(D, R, optn[o]); if (o == deep) nt = certify<P>(s, D, R, optn[o]); } s.nontrivial(nt); });
}
template <int P> void postop(RC<P>& R, int op) {
    if (op == 0) { auto U0 = R.U, R0 = R.R; R.sparsify_basis(); for (size_t k = 0; k < R.U.size(); ++k) for (size_t j = 0; j < R.U[k].ncol(); ++j) CHECKM(R.U[k][j].nnz() + R.R[k][j].nnz() <= U0[k][j].nnz() + R0[k][j].nnz(), "sparsify_basis added non-zeros to column " << j << " in degree " << k); }
    else if (op == 1) { R.remove_extra_cycles(); for (size_t k = 0; k < R.U.size(); ++k) for (size_t j = 0; j < R.U[k].ncol(); ++j) for (auto it = R.U[k][j].nzbegin(); it != R.U[k][j].nzend(); ++it) CHECKM(it->ind == j || R.R[k][it->ind].nnz(), "remove_extra_cycles left cycle " << it->ind << " in basis column " << j << " of degree " << k); }
}
PROP(sparsified, "sparsify_basis and remove_extra_cycles in random order and repetition on reduced complexes of every option keep D*U=R, U upper triangular, R reduced with the same pivots, and all representative properties; non-trivial: the basis or the reduced matrix changed", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; CH<P> C = genChain<P>(s, 7); auto D = dense<P>(C); int o = s.draw(6); RC<P> R = reduceBasis<P>(C, o); RC<P> R0 = R; std::string w = optn[o]; long m = s.sized(1, 3); bool ch = false; size_t nnz0 = 0; for (size_t k = 0; k < D.size(); ++k) nnz0 += R.U[k].nnz() + R.R[k].nnz();
        for (long i = 0; i < m; ++i) { int op = s.draw(1); w += op ? " remove_extra_cycles" : " sparsify_basis"; postop<P>(R, op); s.note << w; valid<P>(D, R, w); }
        for (size_t k = 0; k < D.size(); ++k) { CHECKM(R.p2c[k] == R0.p2c[k] && R.I[k] == R0.I[k], w << ": pivots changed in degree " << k); if (!(matOf<P>(R.U[k], "U") == matOf<P>(R0.U[k], "U")) || !(matOf<P>(R.R[k], "R") == matOf<P>(R0.R[k], "R"))) ch = true; }
        certify<P>(s, D, R, w); s.nontrivial(ch); });
}
PROP(permuted, "histories of permute_basis (random permutations, all update algorithms, interleaved with sparsify_basis/remove_extra_cycles) leave a valid decomposition and representatives of the equally permuted complex; non-trivial: two or more permutations of a complex with a rank>=2 boundary", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; CH<P> C = genChain<P>(s); int o = s.draw(6); RC<P> R = reduceBasis<P>(C, o); std::string w = optn[o]; long m = s.sized(1, 4); int np = 0; size_t mr = 0;
        for (long i = 0; i < m; ++i) { int op = s.draw(5); if (op <= 1) { w += op ? " remove_extra_cycles" : " sparsify_basis"; postop<P>(R, op); }
            else { std::vector<std::vector<size_t>> ps; for (size_t k = 0; k <= C.maxdim(); ++k) ps.push_back(s.perm(C.dim(k))); std::ostringstream o2; for (auto& p : ps) o2 << pbt::show(p); w += " permute" + std::to_string(op) + o2.str(); C.ipermute_basis(ps); switch (op) { case 2: R.permute_basis(ps); break; case 3: R.permute_basis(ps, bats::standard_reduction_flag()); break; case 4: R.permute_basis(ps, bats::extra_reduction_flag()); break; default: R.permute_basis(ps, bats::divide_conquer_flag()); } ++np; }
            auto D = dense<P>(C); for (auto& x : D) mr = std::max(mr, (size_t)x.rank()); valid<P>(D, R, w); }
        s.note << w; certify<P>(s, dense<P>(C), R, w); s.nontrivial(np >= 2 && mr >= 2); });
}
PROP(larger, "2-skeleta with up to several hundred triangles: decomposition certified column by column after every option and after sparsification, over F2, F3, F5; non-trivial: at least 100 triangles", 60, 1500) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t n = s.range(7, 13); bats::SimplicialComplex x; for (size_t i = 0; i < n; ++i) x.add({i}); std::vector<Spx> t; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) if (s.coin(2, 3)) t.push_back({i, j, k}); auto p = s.perm(t.size()); for (auto i : p) x.add_recursive(t[i]); s.note << "n=" << n << " triangles=" << t.size(); CH<P> C(x); auto D = dense<P>(C); int o = s.draw(6); RC<P> R = reduceBasis<P>(C, o); std::string w = optn[o]; valid<P>(D, R, w); int op = s.draw(2); if (op < 2) { postop<P>(R, op); w += op ? " remove_extra_cycles" : " sparsify_basis"; valid<P>(D, R, w); } certify<P>(s, D, R, w); s.nontrivial(t.size() >= 100); });
}
PBT_MAIN("C15")
