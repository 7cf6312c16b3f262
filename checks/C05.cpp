// C05 triangular solves and inverses
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;
PROP(solves, "invertible triangular matrices (dense to sparse, unit and non-unit diagonal) of size 0-10 over F2/F3/F5/Q with vector and matrix right-hand sides; A*X compared with the right-hand side exactly; non-trivial: some off-diagonal entry and some nonzero right-hand side", 500000, 8000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        size_t n = qcap<P>(s.coin(1, 20) ? 0 : sizeN<P>(s, 1, 10), 7), k = s.range(0, 5);
        bool up = s.coin(); DM<P> u = genTri<P>(s, n, up), b = genMat<P>(s, n, k); DV<P> y = genVec<P>(s, n);
        s.note << (up ? "U=" : "L=") << u << " B=" << b << " y=" << pbt::show(y);
        M<P> U = toMat<P>(u), B = toMat<P>(b); V<P> Y = toVec<P>(y);
        V<P> x = up ? u_solve(U, Y) : l_solve(U, Y);
        CHECKM(u * colvec<P>(vecOf<P>(x, n, "solution")) == colvec<P>(y), "vector solve: A*x differs from y, x=" << pbt::show(vecOf<P>(x, n)));
        M<P> X = up ? u_solve(U, B) : l_solve(U, B);
        CHECKEQ(X.nrow(), n); CHECKEQ(X.ncol(), k);
        CHECKM(u * matOf<P>(X, "solution") == b, "matrix solve: A*X differs from B");
        M<P> I = up ? u_inv(U) : l_inv(U); DM<P> di = matOf<P>(I, "inverse"); DM<P> e = DM<P>::eye(n);
        CHECKM(u * di == e && di * u == e, "triangular inverse: " << di);
        CHECKM(up ? I.is_upper() : I.is_lower(), "inverse of a triangular matrix is triangular");
        CHECKM(matOf<P>(U) == u && matOf<P>(B) == b && vecOf<P>(Y, n) == y, "inputs unchanged");
        bool off = false; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && !u(i, j).zero()) off = true;
        s.nontrivial(off && !b.zero()); });
}
PROP(inverse, "random invertible matrices (permuted products of triangular factors, permutations, diagonals) of size 0-8 over F2/F3/F5/Q; inv(A) against the identity from both sides; non-trivial: not triangular", 300000, 5000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        size_t n = qcap<P>(s.coin(1, 20) ? 0 : sizeN<P>(s, 1, 8)); DM<P> a(n, n);
        switch (s.draw(3)) { case 0: { auto p = s.perm(n); for (size_t i = 0; i < n; ++i) a(i, p[i]) = genZ<P>(s, true); break; } default: a = genInv<P>(s, n); }
        if (s.coin()) a = a.T();
        s.note << a; M<P> A = toMat<P>(a), I = inv(A); DM<P> di = matOf<P>(I, "inverse"), e = DM<P>::eye(n);
        CHECKM(a * di == e, "A*inv(A) != I: " << di); CHECKM(di * a == e, "inv(A)*A != I: " << di); CHECKM(matOf<P>(A) == a, "input unchanged");
        CHECKM(di == a.inverse(), "inverse differs from Gauss-Jordan");
        s.nontrivial(!A.is_upper() && !A.is_lower()); });
}
PROP(roundtrip, "A = T*X for known X: the solve returns X itself; solve after multiply and multiply after solve are both identities, upper and lower; non-trivial: X has two nonzero entries", 300000, 4000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value;
        size_t n = sizeN<P>(s, 1, 12), k = s.range(1, 4); bool up = s.coin(); DM<P> u = genTri<P>(s, n, up), x = genMat<P>(s, n, k); s.note << (up ? "U=" : "L=") << u << " X=" << x;
        M<P> U = toMat<P>(u), B = toMat<P>(u * x); M<P> X = up ? u_solve(U, B) : l_solve(U, B); CHECKM(matOf<P>(X) == x, "solve(T, T*X) = " << matOf<P>(X));
        CHECKM(matOf<P>(U * X) == u * x, "T*solve"); size_t nz = X.nnz(); s.nontrivial(nz >= 2); });
}
PBT_MAIN("C05")
