// C38 rational canonical form
#include "oracle.hpp"
using pbt::Src; using namespace orc;
template <int P> using Poly = std::vector<Z<P>>; // coefficients, no trailing zeros
template <int P> Poly<P> rem(Poly<P> a, const Poly<P>& b) { while (a.size() >= b.size() && !a.empty()) { Z<P> k = a.back() * b.back().inv(); size_t d = a.size() - b.size(); for (size_t i = 0; i < b.size(); ++i) a[i + d] = a[i + d] - k * b[i]; while (!a.empty() && a.back().zero()) a.pop_back(); } return a; }
template <int P> DM<P> companion(const Poly<P>& p) { size_t d = p.size() - 1; DM<P> r(d, d); for (size_t i = 0; i + 1 < d; ++i) r(i + 1, i) = Z<P>(1); for (size_t i = 0; i < d; ++i) r(i, d - 1) = -(p[i] * p[d].inv()); return r; }
template <int P> DM<P> blocks(const std::vector<Poly<P>>& ps) { size_t n = 0; for (auto& p : ps) n += p.size() - 1; DM<P> r(n, n); size_t o = 0; for (auto& p : ps) { DM<P> c = companion<P>(p); for (size_t i = 0; i < c.m; ++i) for (size_t j = 0; j < c.n; ++j) r(o + i, o + j) = c(i, j); o += c.n; } return r; }
template <int P> DM<P> genOp(Src& s, size_t n, bool& planted) { // a linear operator; half of the time with planted invariant factors in a random basis
    planted = false; if (s.coin()) return genMat<P>(s, n, n); planted = true;
    std::vector<Poly<P>> ps; size_t left = n; while (left) { size_t d = s.range(1, left); Poly<P> p; for (size_t i = 0; i < d; ++i) p.push_back(genZ<P>(s)); p.push_back(Z<P>(1)); size_t times = s.range(1, left / d); for (size_t i = 0; i < times; ++i) { ps.push_back(p); left -= d; } }
    DM<P> c = blocks<P>(ps), x = genInv<P>(s, n); return s.coin() ? x * c * x.inverse() : c;
}
template <int P> void rcf(Src& s, size_t maxn) {
    size_t n = P ? bigN(s, 1, maxn, maxn + 4) : s.range(1, maxn); bool planted; DM<P> a = genOp<P>(s, n, planted); s.note << "F" << P << " " << a; M<P> Al = toMat<P>(a);
    auto pA = characteristic_matrix(Al); auto [R, S] = smith_rows(pA); auto B = generating_basis(R, Al); auto X = RCF_basis(S, Al, B);
    std::vector<Poly<P>> f; DM<P> b = matOf<P>(B, "generating basis"); CHECKM(b.m == n && b.n == n, "shape of the generating basis");
    for (size_t j = 0; j < n; ++j) { Poly<P> p; auto q = S(j, j); for (size_t i = 0; i < q.size(); ++i) p.push_back(unlib<P>(q[i])); CHECKM(!p.empty(), "zero invariant factor"); f.push_back(p);
        // the generator is annihilated by its invariant factor (and zero for a unit)
        DM<P> v = b.cols({j}), acc(n, 1); for (size_t i = p.size(); i-- > 0;) acc = a * acc + v.scaled(p[i]); CHECKM(acc.zero(), "invariant factor " << j << " annihilates its generator " << v); }
    std::vector<Poly<P>> nt; for (size_t j = 0; j < n; ++j) { if (j) CHECKM(rem<P>(f[j], f[j - 1]).empty(), "invariant factors divide each other"); if (f[j].size() > 1) nt.push_back(f[j]); else CHECKM(b.cols({j}).zero(), "generator " << j << " of a trivial factor is zero"); }
    DM<P> x = matOf<P>(X, "RCF basis"); CHECKM(x.m == n && x.n == n, "the basis has as many vectors as dimensions: " << x.m << "x" << x.n); CHECKM(X.cols().size() == n, "the basis has " << X.cols().size() << " columns");
    DM<P> c = blocks<P>(nt); CHECKM(c.n == n, "degrees of the invariant factors add up to " << c.n); CHECKM(x.rank() == n, "the basis is independent: " << x); CHECKM(a * x == x * c, "A*X = X*C: X=" << x << " C=" << c);
    // the library's own inverse brings A to the same form
    auto Xi = inv(X); CHECKM(matOf<P>(Xi * Al * X, "canonical form") == c, "inv(X)*A*X"); s.label(nt.size() > 1 ? "several factors" : "cyclic"); s.nontrivial(nt.size() >= 2 && nt.back().size() >= 3);
}
PROP(canonical_form, "linear operators on up to 6 dimensions over F2, F3, F5 (random, or with planted repeated and different invariant factors in a random basis), up to 3 over the rationals: the invariant factors divide each other and annihilate their generators, and the basis brings the operator to the block diagonal of their companion matrices; non-trivial: at least two invariant factors, one of degree 2", 100000, 3000000) {
    switch (s.draw(6)) { case 0: case 1: rcf<2>(s, 6); break; case 2: case 3: rcf<3>(s, 6); break; case 4: case 5: rcf<5>(s, 5); break; default: rcf<0>(s, 2); }
}
PBT_MAIN("C38")
