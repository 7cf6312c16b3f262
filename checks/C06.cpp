// C06 factorizations
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;
template <int P> bool lower(const DM<P>& d) { for (size_t i = 0; i < d.m; ++i) for (size_t j = i + 1; j < d.n; ++j) if (!d(i, j).zero()) return false; return true; }
template <int P> bool fulldiag(const DM<P>& d) { if (d.m != d.n) return false; for (size_t i = 0; i < d.m; ++i) if (d(i, i).zero()) return false; return true; }
template <int P> bool isperm(const DM<P>& d) { if (d.m != d.n) return false; for (size_t i = 0; i < d.m; ++i) { size_t c = 0, r = 0; for (size_t j = 0; j < d.n; ++j) { if (!d(i, j).zero()) { ++r; if (d(i, j) != Z<P>(1)) return false; } if (!d(j, i).zero()) ++c; } if (c != 1 || r != 1) return false; } return true; }
template <int P> size_t pivots(const DM<P>& d) { // number of pivots, or -1 when not a pivot matrix
    std::vector<size_t> r(d.m), c(d.n); size_t k = 0; for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) if (!d(i, j).zero()) { ++k; if (++r[i] > 1 || ++c[j] > 1) return -1; } return k; }
template <int P> bool isEL(const DM<P>& d) { long last = -1; bool ended = false;
    for (size_t j = 0; j < d.n; ++j) { size_t c = 0, at = 0; for (size_t i = 0; i < d.m; ++i) if (!d(i, j).zero()) { ++c; at = i; } if (!c) { ended = true; continue; } if (ended || c > 1 || (long)at <= last) return false; last = at; } return true; }
template <int P> DM<P> Jc(const DM<P>& d) { DM<P> r(d.m, d.n); for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) r(d.m - 1 - i, d.n - 1 - j) = d(i, j); return r; }
// type: 0 EL, 1 EU, 2 EUhat, 3 ELhat
template <int P> bool echelon(const DM<P>& d, int type) { return type == 0 ? isEL<P>(d) : type == 1 ? isEL<P>(d.T()) : type == 2 ? isEL<P>(Jc<P>(d)) : isEL<P>(Jc<P>(d).T()); }
template <int P> void shapes(const SparseFact<V<P>>& F, size_t m, size_t n, const char* w, DM<P>& l, DM<P>& e, DM<P>& u) {
    l = matOf<P>(F.L, w); e = matOf<P>(F.E, w); u = matOf<P>(F.U, w);
    CHECKM(lower<P>(l) && fulldiag<P>(l), w << ": L invertible lower triangular, L=" << l);
    CHECKM(lower<P>(u.T()) && fulldiag<P>(u), w << ": U invertible upper triangular, U=" << u);
    CHECKM(e.m == m && e.n == n, w << ": E has the shape of A");
}
PROP(factor, "matrices of every shape 0-10 x 0-10, random, low rank, with zero/duplicate rows and columns, over F2/F3/F5/Q; all six factorizations: product, triangularity, permutation, echelon type, number of pivots = rank; non-trivial: rank at least 1 and below full", 200000, 3000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        bool big = P && s.coin(1, 300); auto dim = [&] { return big ? (size_t)s.range(8, 36) : qcap<P>(s.coin(1, 20) ? 0 : s.sized(1, 10)); }; size_t m = dim(), n = dim(); DM<P> a = genMatR<P>(s, m, n);
        if (s.coin(1, 4) && n > 1) { size_t i = s.range(0, n - 1), j = s.range(0, n - 1); for (auto& r : a.a) r[i] = r[j]; }
        if (s.coin(1, 4) && m > 1) { size_t i = s.range(0, m - 1), j = s.range(0, m - 1); a.a[i] = a.a[j]; }
        s.note << a; M<P> A = toMat<P>(a); size_t r = a.rank(); DM<P> l, e, u; int which = s.draw(5); bool inpl = s.coin(1, 3);
        s.note << " which=" << which << " inplace=" << inpl; SparseFact<V<P>> F;
        auto init = [&] { F.L = M<P>::identity(m); F.E = A; F.U = M<P>::identity(n); F.P = M<P>::identity(n); };
        static const char* nm[] = {"LEUP", "PLEU", "UELP", "PUEL", "LQU", "UQL"}; const char* w = nm[which];
        switch (which) {
            case 0: if (inpl) { init(); LEUP_inplace(F); } else F = LEUP(A); break;
            case 1: if (inpl && m == n) { init(); PLEU_inplace(F); } else F = PLEU(A); break;
            case 2: if (inpl) { init(); UELP_inplace(F); } else F = UELP(A); break;
            case 3: if (inpl && m == n) { init(); PUEL_inplace(F); } else F = PUEL(A); break;
            case 4: if (inpl) { init(); LQU_inplace(F); } else F = LQU(A); break;
            default: F = UQL(A);
        }
        shapes<P>(F, m, n, w, l, e, u);
        if (which < 4) { DM<P> p = matOf<P>(F.P, w); CHECKM(isperm<P>(p), w << ": P is a permutation: " << p);
            DM<P> prod = which == 0 ? l * e * u * p : which == 1 ? p * l * e * u : which == 2 ? u * e * l * p : p * u * e * l;
            CHECKM(prod == a, w << ": product is " << prod << " L=" << l << " E=" << e << " U=" << u << " P=" << p);
            CHECKM(echelon<P>(e, which == 0 ? 0 : which == 1 ? 1 : which == 2 ? 2 : 3), w << ": echelon type of E=" << e);
            M<P> pr = which == 0 ? F.LEUP_prod() : which == 1 ? F.PLEU_prod() : which == 2 ? F.UELP_prod() : F.PUEL_prod(); CHECKM(matOf<P>(pr) == a, w << "_prod"); }
        else { DM<P> prod = which == 4 ? l * e * u : u * e * l; CHECKM(prod == a, w << ": product is " << prod << " L=" << l << " E=" << e << " U=" << u);
            M<P> pr = which == 4 ? F.LQU_prod() : F.UQL_prod(); CHECKM(matOf<P>(pr) == a, w << "_prod"); }
        CHECKM(pivots<P>(e) == r, w << ": pivots of E=" << e << " rank=" << r);
        CHECKM(matOf<P>(A) == a, "input unchanged"); s.label(w); s.nontrivial(r >= 1 && r < std::max(m, n)); });
}
PROP(cu, "CU factorization of random matrices: C = A*U with U invertible upper triangular, first nonzeros of the columns of C distinct, unit pivots and zeros to the right of each pivot; non-trivial: rank at least 2", 150000, 2000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        size_t m = qcap<P>(sizeN<P>(s, 1, 10)), n = qcap<P>(sizeN<P>(s, 1, 10)); DM<P> a = genMatR<P>(s, m, n); s.note << a; M<P> C = toMat<P>(a), U = M<P>::identity(n); CU_inplace(C, U);
        DM<P> c = matOf<P>(C, "C"), u = matOf<P>(U, "U"); CHECKM(lower<P>(u.T()) && fulldiag<P>(u), "U"); CHECKM(a * u == c, "A*U=C, C=" << c << " U=" << u);
        std::set<size_t> seen; for (size_t j = 0; j < n; ++j) { size_t i = 0; bool f = false; for (; i < m; ++i) if (!c(i, j).zero()) { bool taken = seen.count(i); CHECKM(!taken, "entry right of a pivot at " << i << "," << j); if (!f) { f = true; CHECKM(c(i, j) == Z<P>(1), "pivot is one"); seen.insert(i); break; } } 
            if (f) for (size_t t = i + 1; t < m; ++t) if (!c(t, j).zero()) for (size_t q : seen) if (q == t) CHECKM(false, "entry right of an earlier pivot"); }
        CHECKEQ(seen.size(), a.rank()); s.nontrivial(seen.size() >= 2); });
}
PROP(commute, "echelon matrices of each type (random pivots, or taken from a factorization) with triangular matrices; exchange identity and triangularity; non-trivial: at least one pivot and an off-diagonal entry", 300000, 4000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        size_t m = sizeN<P>(s, 1, 9), n = sizeN<P>(s, 1, 9); int type = s.draw(3); DM<P> e(m, n);
        { size_t mm = m, nn = n; if (type == 1 || type == 3) std::swap(mm, nn); DM<P> b(mm, nn); auto rr = s.subset(mm); size_t r = std::min(rr.size(), nn); for (size_t k = 0; k < r; ++k) b(rr[k], k) = s.coin() ? Z<P>(1) : genZ<P>(s, true);
          e = type == 0 ? b : type == 1 ? b.T() : type == 2 ? Jc<P>(b) : Jc<P>(b.T()); }
        CHECKM(echelon<P>(e, type), "generator"); M<P> E = toMat<P>(e); DM<P> t, x; M<P> T, X;
        auto tri = [&](size_t k, bool up) { DM<P> d = genTri<P>(s, k, up); if (s.coin(1, 8) && k) { size_t i = s.range(0, k - 1); d(i, i) = Z<P>(); } return d; };
        switch (type) {
            case 0: t = tri(n, false); T = toMat<P>(t); s.note << "EL_L E=" << e << " L=" << t; X = EL_L_commute(E, T); x = matOf<P>(X, "Ltilde"); CHECKM(lower<P>(x), "lower"); CHECKM(x * e == e * t, "Ltilde*EL = EL*L, Ltilde=" << x); break;
            case 1: t = tri(m, true); T = toMat<P>(t); s.note << "U_EU U=" << t << " E=" << e; X = U_EU_commute(T, E); x = matOf<P>(X, "Utilde"); CHECKM(lower<P>(x.T()), "upper"); CHECKM(t * e == e * x, "U*EU = EU*Utilde, Utilde=" << x); break;
            case 2: t = tri(n, true); T = toMat<P>(t); s.note << "EU_U E=" << e << " U=" << t; X = EU_U_commute(E, T); x = matOf<P>(X, "Utilde"); CHECKM(lower<P>(x.T()), "upper"); CHECKM(e * t == x * e, "EUhat*U = Utilde*EUhat, Utilde=" << x); break;
            default: t = tri(m, false); T = toMat<P>(t); s.note << "L_EL L=" << t << " E=" << e; X = L_EL_commute(T, E); x = matOf<P>(X, "Ltilde"); CHECKM(lower<P>(x), "lower"); CHECKM(t * e == e * x, "L*ELhat = ELhat*Ltilde, Ltilde=" << x);
        }
        bool off = false; for (size_t i = 0; i < t.m; ++i) for (size_t j = 0; j < t.n; ++j) if (i != j && !t(i, j).zero()) off = true; s.nontrivial(!e.zero() && off); });
}
PBT_MAIN("C06")
