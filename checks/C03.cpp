// C03 sparse matrix algebra against dense algebra
// split: field
#include <memory>
#include "oracle.hpp"
using pbt::Src; using namespace orc;

template <int P> struct Gen {
    Src& s; bool big = P && s.coin(1, 400); size_t dim() { return big ? s.range(1, 40) : s.coin(1, 12) ? 0 : s.sized(1, 9); }
};
template <int P> DM<P> genStruct(Src& s, size_t m, size_t n) {   // matrices likely to satisfy a structure predicate
    switch (s.draw(7)) {
        case 0: return genMatR<P>(s, m, n);
        case 1: { DM<P> d = genMat<P>(s, m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (i > j) d(i, j) = Z<P>(); return d; }
        case 2: { DM<P> d = genMat<P>(s, m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (i < j) d(i, j) = Z<P>(); return d; }
        case 3: { DM<P> d(m, n); auto p = s.perm(m), q = s.perm(n); size_t r = s.range(0, std::min(m, n)); for (size_t k = 0; k < r; ++k) d(p[k], q[k]) = Z<P>(1); return d; }
        case 4: case 5: { // echelon of some orientation: r pivots increasing in both
            DM<P> d(m, n); auto rr = s.subset(m), cc = s.subset(n); size_t r = std::min(rr.size(), cc.size()); int o = s.draw(3);
            for (size_t k = 0; k < r; ++k) {
                if (o == 0) d(rr[k], k) = genZ<P>(s, true); else if (o == 1) d(k, cc[k]) = genZ<P>(s, true);
                else if (o == 2) d(m - 1 - k, cc[cc.size() - 1 - k]) = genZ<P>(s, true); else d(rr[rr.size() - 1 - k], n - 1 - k) = genZ<P>(s, true); }
            if (s.coin(1, 4) && m && n) d(s.range(0, m - 1), s.range(0, n - 1)) = genZ<P>(s, true);
            return d; }
        case 6: { DM<P> d = genTri<P>(s, std::max(m, n), true); std::vector<size_t> r, c; for (size_t i = 0; i < m; ++i) r.push_back(i); for (size_t i = 0; i < n; ++i) c.push_back(i); d = d.sub(r, c);
            if (s.coin(1, 3) && std::min(m, n)) { size_t k = s.range(0, std::min(m, n) - 1); d(k, k) = Z<P>(); } return d; }
        default: { DM<P> d = DM<P>::eye(std::max(m, n)); std::vector<size_t> r, c; for (size_t i = 0; i < m; ++i) r.push_back(i); for (size_t i = 0; i < n; ++i) c.push_back(i); return d.sub(r, c); }
    }
}
// one nonzero per pivot, in the first r columns, rows strictly increasing
template <int P> bool isEL(const DM<P>& d) {
    long last = -1; bool ended = false;
    for (size_t j = 0; j < d.n; ++j) {
        size_t c = 0, at = 0; for (size_t i = 0; i < d.m; ++i) if (!d(i, j).zero()) { ++c; at = i; }
        if (c == 0) { ended = true; continue; }
        if (ended || c > 1 || (long)at <= last) return false;
        last = at;
    }
    return true;
}
template <int P> DM<P> Jc(const DM<P>& d) { DM<P> r(d.m, d.n); for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) r(d.m - 1 - i, d.n - 1 - j) = d(i, j); return r; }

PROP(algebra, "matrices of shapes 0-9 over F2/F3/F5/Q; products, sums, differences, scalings, transposes, J, Kronecker, direct sum vs dense; non-trivial: both operands have a nonzero entry", 300000, 4000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; typedef Z<P> z; typedef F<P> f;
        bool big = P && s.coin(1, 400); auto dim = [&] { return big ? (size_t)s.range(1, 40) : s.coin(1, 12) ? (size_t)0 : (size_t)s.sized(1, 9); };
        size_t m = dim(), k = dim(), n = dim();
        DM<P> a = genMatR<P>(s, m, k), b = genMatR<P>(s, k, n), c = genMatR<P>(s, m, k);
        if (s.coin(1, 4)) c = a.scaled(genZ<P>(s, true));
        s.note << "A=" << a << " B=" << b << " C=" << c;
        M<P> A = toMat<P>(a), B = toMat<P>(b), C = toMat<P>(c);
        CHECKM(matOf<P>(A * B, "A*B") == a * b, "product");
        CHECKM(matOf<P>(A + C, "A+C") == a + c, "sum");
        CHECKM(matOf<P>(A - C, "A-C") == a - c, "difference: got " << matOf<P>(A - C) << " expected " << a - c);
        { M<P> X = A; X += C; CHECKM(matOf<P>(X, "+=") == a + c, "+="); }
        { M<P> X = A; X += X; CHECKM(matOf<P>(X, "A+=A") == a + a, "A+=A"); CHECKM(matOf<P>(A + A, "A+A") == a + a && matOf<P>(A - A, "A-A").zero(), "A+A, A-A"); if (m == k) CHECKM(matOf<P>(A * A, "A*A") == a * a, "A*A"); }
        if (m && k) { DM<P> e = a; size_t i = s.range(0, m - 1), j = s.range(0, k - 1); e(i, j) = e(i, j) + Z<P>(1); M<P> X = toMat<P>(e); CHECKM(!(A == X) && !(X == A), "equality of matrices that differ in one entry"); }
        z q = genZ<P>(s); CHECKM(matOf<P>(A * lib<P>(q), "A*q") == a.scaled(q), "scalar product by " << q);
        DV<P> x = genVec<P>(s, k), y = genVec<P>(s, m); V<P> X = toVec<P>(x), Y = toVec<P>(y);
        DM<P> ax = a * colvec<P>(x), ya = colvec<P>(y).T() * a;
        CHECKM(vecOf<P>(A * X, m, "A*x") == ax.col(0), "matrix-vector product"); CHECKM(vecOf<P>(A.gemv(X), m, "gemv") == ax.col(0), "gemv");
        { typename M<P>::tmp_type tmp; CHECKM(vecOf<P>(A.gemv(X, tmp), m, "gemv") == ax.col(0), "gemv with temporary"); }
        CHECKM(vecOf<P>(Y * A, k, "y*A") == ya.T().col(0), "vector-transpose product");
        CHECKM(matOf<P>(A.T(), "T") == a.T(), "T"); CHECKM(matOf<P>(A.transpose(), "T") == a.T(), "transpose");
        CHECK(A.T().T() == A); CHECKM((A == C) == (a == c), "equality"); { M<P> taller(m + 1, k), wider(m, k + 1); for (size_t j = 0; j < k; ++j) taller[j] = wider[j] = A[j]; CHECKM(!(A == taller) && !(taller == A) && !(A == wider) && !(wider == A), "equality of matrices of different shapes"); }
        std::vector<size_t> rm, rk; for (size_t i = m; i-- > 0;) rm.push_back(i); for (size_t i = k; i-- > 0;) rk.push_back(i);
        CHECKM(matOf<P>(A.J_left(), "J_left") == a.rows(rm), "J_left"); CHECKM(matOf<P>(A.J_right(), "J_right") == a.cols(rk), "J_right");
        CHECKM(matOf<P>(A.J_conjugation(), "J_conj") == a.rows(rm).cols(rk), "J_conjugation");
        { DM<P> e(m + k, k + n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) e(i, j) = a(i, j); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) e(m + i, k + j) = b(i, j);
          CHECKM(matOf<P>(direct_sum(A, B), "direct sum") == e, "direct sum"); }
        if (m * k * k * n <= 400) { DM<P> e(m * k, k * n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) for (size_t u = 0; u < k; ++u) for (size_t v = 0; v < n; ++v) e(i * k + u, j * n + v) = a(i, j) * b(u, v);
          CHECKM(matOf<P>(tensor_product(A, B), "kron") == e, "tensor product"); }
        CHECK(matOf<P>(M<P>::identity(k)) == DM<P>::eye(k));
        if (m && k) { z w = genZ<P>(s, true); DM<P> e(m, k); for (auto& r : e.a) for (auto& t : r) t = w; CHECKM(matOf<P>(M<P>(m, k, lib<P>(w))) == e, "constant matrix"); }
        { std::vector<f> co; DM<P> e = a; for (size_t i = 0; i < m; ++i) { z w = genZ<P>(s, true); co.push_back(lib<P>(w)); for (size_t j = 0; j < k; ++j) e(i, j) = e(i, j) * w; } M<P> X2 = A; X2.row_scale(co); CHECKM(matOf<P>(X2, "row_scale") == e, "row_scale"); }
        { std::vector<f> co; DM<P> e = a; for (size_t j = 0; j < k; ++j) { z w = genZ<P>(s, true); co.push_back(lib<P>(w)); for (size_t i = 0; i < m; ++i) e(i, j) = e(i, j) / w; } M<P> X2 = A; X2.col_inv_scale(co); CHECKM(matOf<P>(X2, "col_inv_scale") == e, "col_inv_scale"); }
        if (k >= 2) { size_t i = s.range(0, k - 1), j = s.range(0, k - 2); if (j >= i) ++j; z p = genZ<P>(s), q2 = genZ<P>(s), r = genZ<P>(s), t = genZ<P>(s);
            s.note << " mix_cols " << i << "," << j << " " << p << q2 << r << t;
            DM<P> e = a; for (size_t u = 0; u < m; ++u) { e(u, i) = p * a(u, i) + r * a(u, j); e(u, j) = q2 * a(u, i) + t * a(u, j); }
            M<P> X2 = A; X2.mix_cols(i, j, lib<P>(p), lib<P>(q2), lib<P>(r), lib<P>(t)); CHECKM(matOf<P>(X2, "mix_cols") == e, "mix_cols"); }
        if (m >= 2) { size_t i = s.range(0, m - 1), j = s.range(0, m - 2); if (j >= i) ++j; z p = genZ<P>(s), q2 = genZ<P>(s), r = genZ<P>(s), t = genZ<P>(s);
            s.note << " mix_rows " << i << "," << j << " " << p << q2 << r << t;
            DM<P> e = a; for (size_t u = 0; u < k; ++u) { e(i, u) = p * a(i, u) + q2 * a(j, u); e(j, u) = r * a(i, u) + t * a(j, u); }
            M<P> X2 = A; X2.mix_rows(i, j, lib<P>(p), lib<P>(q2), lib<P>(r), lib<P>(t)); CHECKM(matOf<P>(X2, "mix_rows") == e, "mix_rows"); }
        // operands untouched by all of the above
        CHECK(matOf<P>(A) == a); CHECK(matOf<P>(B) == b); CHECK(matOf<P>(C) == c);
        s.nontrivial(!a.zero() && !b.zero()); });
}
PROP(predicates, "matrices biased to each structure (triangular, pivot, echelon, reduced, identity-like), shapes 0-7; predicates vs dense definitions; non-trivial: at least one nonzero", 400000, 6000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        auto dim = [&] { return s.coin(1, 16) ? (size_t)0 : s.coin(1, 100) ? (size_t)s.range(8, 40) : (size_t)s.sized(1, 7); };
        size_t m = dim(), n = s.coin(1, 3) ? m : dim(); DM<P> a = genStruct<P>(s, m, n); if (m && n && s.coin(1, 8)) a(s.range(0, m - 1), s.range(0, n - 1)) = genZ<P>(s); M<P> A = toMat<P>(a); s.note << a;
        bool up = true, lo = true, piv = true; size_t nnz = 0; std::vector<size_t> rc(m, 0), cc(n, 0);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (!a(i, j).zero()) { ++nnz; if (i > j) up = false; if (i < j) lo = false; if (++rc[i] > 1 || ++cc[j] > 1) piv = false; }
        CHECKEQ(A.is_upper(), up); CHECKEQ(A.is_lower(), lo); CHECKEQ(A.is_pivot_matrix(), piv); CHECKEQ(A.nnz(), nnz); CHECKEQ(A.is_zero(), nnz == 0);
        if (m == n) { bool ui = up; for (size_t i = 0; i < n; ++i) if (a(i, i).zero()) ui = false; CHECKEQ(A.is_upper_invert(), ui); if (ui) s.label("upper-invertible"); }
        std::set<size_t> lows; bool red = true; for (size_t j = 0; j < n; ++j) { long l = -1; for (size_t i = 0; i < m; ++i) if (!a(i, j).zero()) l = i; if (l >= 0 && !lows.insert(l).second) red = false; }
        CHECKEQ(A.is_reduced(), red);
        bool el = isEL<P>(a), eu = isEL<P>(a.T()), elh = isEL<P>(Jc<P>(a).T()), euh = isEL<P>(Jc<P>(a));
        CHECKEQ(A.is_EL(), el); CHECKEQ(A.is_EU(), eu); CHECKEQ(A.is_ELhat(), elh); CHECKEQ(A.is_EUhat(), euh);
        if (nnz) { if (up) s.label("upper"); if (lo) s.label("lower"); if (piv) s.label("pivot"); if (red) s.label("reduced"); if (el) s.label("EL"); if (eu) s.label("EU"); if (elh) s.label("ELhat"); if (euh) s.label("EUhat"); if (!(up || lo || piv || red)) s.label("none"); }
        // entry access and dense dump
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { CHECK(unlib<P>(A(i, j)) == a(i, j)); CHECK(unlib<P>(A.getval(i, j)) == a(i, j)); }
        if (m * n) { std::unique_ptr<F<P>[]> dd(A.dump_dense()); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECK(unlib<P>(dd[i + j * m]) == a(i, j)); } auto rows = A.to_row_array(); CHECKEQ(rows.size(), m); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECK(unlib<P>(rows[i][j]) == a(i, j));
        s.nontrivial(nnz > 0); });
}
PBT_MAIN("C03")
