// C07 Smith normal form, extended Euclid, polynomials
#include "oracle.hpp"
using pbt::Src; using namespace orc;

// reference polynomials: coefficient vectors without trailing zeros
template <int P> struct Po { std::vector<Z<P>> c; Po() {} Po(long k) { if (!Z<P>(k).zero()) c.push_back(Z<P>(k)); } Po(std::vector<Z<P>> v) : c(v) { trim(); }
    void trim() { while (!c.empty() && c.back().zero()) c.pop_back(); } bool zero() const { return c.empty(); }
    Po operator+(const Po& o) const { Po r; r.c.resize(std::max(c.size(), o.c.size())); for (size_t i = 0; i < c.size(); ++i) r.c[i] = r.c[i] + c[i]; for (size_t i = 0; i < o.c.size(); ++i) r.c[i] = r.c[i] + o.c[i]; r.trim(); return r; }
    Po operator-() const { Po r = *this; for (auto& x : r.c) x = -x; return r; } Po operator-(const Po& o) const { return *this + (-o); }
    Po operator*(const Po& o) const { if (zero() || o.zero()) return Po(); Po r; r.c.resize(c.size() + o.c.size() - 1); for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < o.c.size(); ++j) r.c[i + j] = r.c[i + j] + c[i] * o.c[j]; r.trim(); return r; }
    bool operator==(const Po& o) const { return c == o.c; } bool operator!=(const Po& o) const { return !(c == o.c); }
    Po rem(const Po& o, Po* q = nullptr) const { Po r = *this, qq; qq.c.resize(c.size() + 1); while (r.c.size() >= o.c.size() && !r.zero()) { Z<P> k = r.c.back() / o.c.back(); size_t d = r.c.size() - o.c.size(); qq.c[d] = k; for (size_t i = 0; i < o.c.size(); ++i) r.c[i + d] = r.c[i + d] - k * o.c[i]; r.trim(); } qq.trim(); if (q) *q = qq; return r; }
    Po norm() const { Po r = *this; if (!zero()) { Z<P> k = c.back(); for (auto& x : r.c) x = x / k; } return r; }      // associate representative
    bool unit() const { return c.size() == 1; }
    friend std::ostream& operator<<(std::ostream& o, const Po& p) { o << "("; for (size_t i = 0; i < p.c.size(); ++i) o << (i ? "," : "") << p.c[i]; return o << ")"; } };
struct In { i128 v; In(long x = 0) : v(x) {} static In of(i128 x) { In r; r.v = x; return r; } bool zero() const { return v == 0; } In operator+(In o) const { return of(v + o.v); } In operator-(In o) const { return of(v - o.v); } In operator-() const { return of(-v); } In operator*(In o) const { return of(v * o.v); }
    bool operator==(In o) const { return v == o.v; } bool operator!=(In o) const { return v != o.v; } In rem(In o, In* q = nullptr) const { if (q) *q = of(v / o.v); return of(v % o.v); } In norm() const { return of(v < 0 ? -v : v); } bool unit() const { return v == 1 || v == -1; }
    friend std::ostream& operator<<(std::ostream& o, const In& p) { return o << (long)p.v; } };
template <class E> E gcdE(E a, E b) { while (!b.zero()) { E t = a.rem(b); a = b; b = t; } return a.norm(); }
template <class E> using Mx = std::vector<std::vector<E>>;
template <class E> E det(const Mx<E>& a) { size_t n = a.size(); if (!n) return E(1); if (n == 1) return a[0][0]; E r(0); for (size_t j = 0; j < n; ++j) if (!a[0][j].zero()) { Mx<E> b; for (size_t i = 1; i < n; ++i) { std::vector<E> row; for (size_t k = 0; k < n; ++k) if (k != j) row.push_back(a[i][k]); b.push_back(row); } E t = a[0][j] * det(b); r = (j & 1) ? r - t : r + t; } return r; }
template <class E> Mx<E> mul(const Mx<E>& a, const Mx<E>& b, size_t n) { size_t m = a.size(), k = b.size(); Mx<E> r(m, std::vector<E>(n)); for (size_t i = 0; i < m; ++i) for (size_t t = 0; t < k; ++t) if (!a[i][t].zero()) for (size_t j = 0; j < n; ++j) r[i][j] = r[i][j] + a[i][t] * b[t][j]; return r; }
template <class E> E minorsGcd(const Mx<E>& a, size_t m, size_t n, size_t k) { E g(0); for (unsigned r = 0; r < (1u << m); ++r) if ((size_t)__builtin_popcount(r) == k) for (unsigned c = 0; c < (1u << n); ++c) if ((size_t)__builtin_popcount(c) == k) { Mx<E> b; for (size_t i = 0; i < m; ++i) if (r >> i & 1) { std::vector<E> row; for (size_t j = 0; j < n; ++j) if (c >> j & 1) row.push_back(a[i][j]); b.push_back(row); } g = gcdE<E>(g, det(b)); } return g; }
template <class E> std::string sh(const Mx<E>& a) { std::ostringstream o; o << "["; for (auto& r : a) { for (auto& x : r) o << x << " "; o << ";"; } o << "]"; return o.str(); }
// library elements
template <class L> struct Ring;
template <class I> struct RingI { typedef In E; static I to(const In& x) { return (I)x.v; } static In from(const I& x) { return In((long)x); } };
template <> struct Ring<int> : RingI<int> {}; template <> struct Ring<long> : RingI<long> {};
template <int P> struct RingP { typedef Po<P> E; typedef UnivariatePolynomial<F<P>> L; static L to(const E& x) { std::vector<F<P>> v; for (auto& z : x.c) v.push_back(lib<P>(z)); return L(v); }
    static E from(const L& x) { E r; for (size_t i = 0; i < x.size(); ++i) r.c.push_back(unlib<P>(x[i])); CHECKM(r.c.empty() || !r.c.back().zero(), "polynomial keeps a zero leading coefficient"); return r; } };
template <> struct Ring<UnivariatePolynomial<F<2>>> : RingP<2> {}; template <> struct Ring<UnivariatePolynomial<F<3>>> : RingP<3> {}; template <> struct Ring<UnivariatePolynomial<F<5>>> : RingP<5> {}; template <> struct Ring<UnivariatePolynomial<F<0>>> : RingP<0> {};
template <class L> using LM = ColumnMatrix<SparseVector<L>>;
template <class L> LM<L> toL(const Mx<typename Ring<L>::E>& a, size_t m, size_t n) { std::vector<SparseVector<L>> cs; for (size_t j = 0; j < n; ++j) { SparseVector<L> v; for (size_t i = 0; i < m; ++i) if (!a[i][j].zero()) v.emplace_back(i, Ring<L>::to(a[i][j])); cs.push_back(v); } return LM<L>(m, n, cs); }
template <class L> Mx<typename Ring<L>::E> fromL(const LM<L>& A, size_t m, size_t n, const char* w) { typedef typename Ring<L>::E E; CHECKM(A.nrow() == m && A.ncol() == n, w << ": shape"); Mx<E> r(m, std::vector<E>(n)); for (size_t j = 0; j < n; ++j) { long last = -1; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { CHECKM((long)it->ind > last && it->ind < m, w << ": indices"); last = it->ind; r[it->ind][j] = Ring<L>::from(it->val); } } return r; }

// a diagonal matrix with non-zero entries and permuted rows and columns: invariant factors by exchanging pairs for gcd and lcm; R*S*C=A and |det S| = |det A| make R and C unimodular
template <class L> void diagonal(Src& s, std::vector<typename Ring<L>::E> d) {
    typedef typename Ring<L>::E E; size_t n = d.size(); auto p = s.perm(n); if (s.coin()) for (size_t i = 0; i < n; ++i) p[i] = i; Mx<E> a(n, std::vector<E>(n)); for (size_t i = 0; i < n; ++i) a[p[i]][i] = d[i]; s.note << sh(a);
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { E g = gcdE(d[i], d[j]), q; (d[i] * d[j]).rem(g, &q); d[i] = g; d[j] = q; } bool non = false; for (auto& x : d) { x = x.norm(); non |= !x.unit(); }
    LM<L> A = toL<L>(a, n, n); Mx<E> S; if (s.coin()) { smith_normal_form(A); S = fromL<L>(A, n, n, "S"); } else { auto F = smith_factorization(A); S = fromL<L>(F.S, n, n, "S"); CHECKM(mul(mul(fromL<L>(F.R, n, n, "R"), S, n), fromL<L>(F.C, n, n, "C"), n) == a, "R*S*C differs from A"); }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) CHECKM(i == j ? S[i][i].norm() == d[i] : S[i][j].zero(), "S = " << sh(S) << " expected diagonal entry " << d[i]); s.label("diagonal"); s.nontrivial(n >= 2 && non);
}
template <class L> void smith(Src& s, const Mx<typename Ring<L>::E>& a, size_t m, size_t n) {
    typedef typename Ring<L>::E E; s.note << sh(a); int which = s.draw(2); s.note << " which=" << which;
    std::vector<E> inv; E prev(1); size_t rk = 0; for (size_t k = 1; k <= std::min(m, n); ++k) { E g = minorsGcd<E>(a, m, n, k); if (g.zero()) break; ++rk; E q; g.rem(prev, &q); inv.push_back(q.norm()); prev = g; }
    LM<L> A = toL<L>(a, m, n); Mx<E> R, S, C;
    if (which == 0) { smith_normal_form(A); S = fromL<L>(A, m, n, "S"); }
    else if (which == 1) { auto F = smith_factorization(A); R = fromL<L>(F.R, m, m, "R"); S = fromL<L>(F.S, m, n, "S"); C = fromL<L>(F.C, n, n, "C");
        CHECKM(mul(mul(R, S, n), C, n) == a, "R*S*C differs from A: R=" << sh(R) << " S=" << sh(S) << " C=" << sh(C)); CHECKM(fromL<L>(F.prod(), m, n, "prod") == a, "prod()");
        CHECKM(det(R).unit(), "det R = " << det(R)); CHECKM(det(C).unit(), "det C = " << det(C)); CHECKM(fromL<L>(A, m, n, "A") == a, "input unchanged"); }
    else { auto [r, t] = smith_rows(A); R = fromL<L>(r, m, m, "R"); S = fromL<L>(t, m, n, "S"); CHECKM(det(R).unit(), "det R = " << det(R)); }
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (i != j) CHECKM(S[i][j].zero(), "S is diagonal: S=" << sh(S));
    for (size_t i = 0; i < std::min(m, n); ++i) { E e = i < rk ? inv[i] : E(0); CHECKM(S[i][i].norm() == e, "diagonal entry " << i << " is " << S[i][i] << " expected " << e << " up to a unit; S=" << sh(S)); }
    if (which == 2) { // R^{-1} A = S C with C extendable to an invertible matrix
        E d = det(R); Mx<E> Ri(m, std::vector<E>(m)); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { Mx<E> b; for (size_t u = 0; u < m; ++u) if (u != j) { std::vector<E> row; for (size_t v = 0; v < m; ++v) if (v != i) row.push_back(R[u][v]); b.push_back(row); } E c = det(b); if ((i + j) & 1) c = -c; E q; c.rem(d, &q); Ri[i][j] = q; }
        Mx<E> B = mul(Ri, a, n), Ct(rk, std::vector<E>(n)); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (i >= rk) CHECKM(B[i][j].zero(), "rows beyond the rank"); else { E q; CHECKM(B[i][j].rem(S[i][i], &q).zero(), "row divisible"); Ct[i][j] = q; }
        if (rk) CHECKM(minorsGcd<E>(Ct, rk, n, rk).unit(), "R^{-1}A = S*C for an invertible C"); }
    bool nonunit = false; for (auto& x : inv) if (!x.unit()) nonunit = true; if (nonunit) s.label("non-unit invariant"); s.nontrivial(rk >= 2 && nonunit);
}
PROP(smith_int, "integer matrices up to 4x4 with small entries (random, low rank, prescribed divisors); invariant factors against gcds of minors; R*S*C=A and unimodularity, in-place and rows variants; non-trivial: rank at least 2 and a non-unit invariant factor", 60000, 1500000) {
    if (s.coin(1, 25)) { size_t n = s.range(2, 16); std::vector<In> d; long b = s.pick(std::vector<long>{1, 2, 3, 4, 6}); for (size_t i = 0; i < n; ++i) d.push_back(In(s.coin(2, 3) ? b : s.pick(std::vector<long>{1, 2, 3, 4, 6, 12}))); return diagonal<long>(s, d); }
    size_t m = s.sized(1, 4), n = s.sized(1, 4); bool big = s.coin(1, 60); if (big) { m = s.range(3, 7); n = s.range(3, 7); } Mx<In> a(m, std::vector<In>(n)); long mag = big ? s.range(1, 2) : s.sized(1, 9); unsigned dens = big ? 1 : s.draw(3) + 1;
    auto ent = [&] { return s.coin(dens, 4) ? s.range(-mag, mag) : 0; };
    if (!big && s.coin(1, 3)) { size_t k = s.range(1, (long)std::min(m, n)); Mx<In> x(m, std::vector<In>(k)), y(k, std::vector<In>(n)); for (auto& r : x) for (auto& v : r) v = In(s.range(-2, 2)); for (auto& r : y) for (auto& v : r) v = In(s.range(-3, 3)); for (auto& r : y) { In f(s.range(1, 6)); for (auto& v : r) v = v * f; } a = mul(x, y, n); }
    else for (auto& r : a) for (auto& v : r) v = In(ent());
    bool sm = m <= 2 || n <= 2; if (m <= 3 && n <= 3 && !sm) { sm = true; for (auto& r : a) for (auto& v : r) sm = sm && v.v >= -4 && v.v <= 4; } if (!big && m <= 3 && n <= 3 && sm && s.coin()) smith<int>(s, a, m, n); else smith<long>(s, a, m, n);
}
template <int P> Po<P> genPo(Src& s, int d) { Po<P> p; int k = s.range(-1, d); for (int i = 0; i <= k; ++i) p.c.push_back(genZ<P>(s)); p.trim(); return p; }
PROP(smith_poly, "polynomial matrices up to 3x3 of degree at most 2 over F2/F3/F5, and up to 2x2 over Q, and characteristic matrices; same checks; non-trivial: rank at least 2 and a non-unit invariant factor", 40000, 1000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; typedef UnivariatePolynomial<F<P>> L; size_t mx = P == 0 ? 2 : 3;
        if (P != 0 && s.coin(1, 4)) { size_t n = s.sized(1, 3); DM<P> a = genMat<P>(s, n, n); s.note << "char " << a; auto X = characteristic_matrix(toMat<P>(a)); auto x = fromL<L>(X, n, n, "characteristic matrix");
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { Po<P> e(std::vector<Z<P>>{-a(i, j), Z<P>(i == j ? 1 : 0)}); CHECKM(x[i][j] == e, "characteristic matrix entry " << i << "," << j << " is " << x[i][j]); } smith<L>(s, x, n, n); return; }
        if (P != 0 && s.coin(1, 25)) { size_t n = s.range(2, 8); std::vector<Po<P>> d; std::vector<Po<P>> b{Po<P>(std::vector<Z<P>>{Z<P>(0), Z<P>(1)}), Po<P>(std::vector<Z<P>>{Z<P>(1), Z<P>(1)}), genPo<P>(s, 1)}; for (size_t i = 0; i < n; ++i) { Po<P> q(1); for (auto& x : b) if (s.coin(1, 3) && !x.zero()) q = q * x; d.push_back(q); } return diagonal<L>(s, d); }
        size_t m = s.sized(1, mx), n = s.sized(1, mx); Mx<Po<P>> a(m, std::vector<Po<P>>(n)); int d = P == 0 ? 1 : 2; for (auto& r : a) for (auto& v : r) if (s.coin(2, 3)) v = genPo<P>(s, d); smith<L>(s, a, m, n); });
}
template <class L> void euclid(Src& s, const typename Ring<L>::E& a, const typename Ring<L>::E& b) { typedef typename Ring<L>::E E; s.note << a << " , " << b;
    auto [x, y, g, w, z] = extended_euclidean(Ring<L>::to(a), Ring<L>::to(b)); E X = Ring<L>::from(x), Y = Ring<L>::from(y), G = Ring<L>::from(g), W = Ring<L>::from(w), ZZ = Ring<L>::from(z);
    CHECKM(G.norm() == gcdE<E>(a, b), "gcd is " << G); CHECKM(a * X + b * Y == G, "Bezout x=" << X << " y=" << Y << " g=" << G); if (!G.zero()) { CHECKM(W * G == a && ZZ * G == b, "quotients w=" << W << " z=" << ZZ << " g=" << G); } s.nontrivial(!a.zero() && !b.zero() && !G.unit()); }
PROP(euclid_int, "integer pairs (zero, negative, equal, multiples, random to a million); Bezout identity, gcd, quotients; non-trivial: both non-zero with a common factor", 300000, 3000000) {
    long f = s.coin() ? s.range(1, 50) : 1; long a = s.anyint(20000) * f, b = s.coin(1, 8) ? a * s.range(-3, 3) : s.anyint(20000) * f; if (s.coin()) euclid<int>(s, In(a), In(b)); else euclid<long>(s, In(a), In(b)); }
PROP(polynomials, "pairs of polynomials of degree below 7 over F2/F3/F5 (below 4 over Q); + - * negation, compound forms, division with remainder, gcd, extended Euclid, evaluation at values and at matrices, companion and characteristic matrix; non-trivial: both of positive degree", 200000, 3000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; typedef UnivariatePolynomial<F<P>> L; typedef Ring<L> R; int d = P == 0 ? 3 : s.coin(1, 60) ? 30 : 6; auto a = genPo<P>(s, d), b = genPo<P>(s, d);
        if (s.coin(1, 3)) { auto g = genPo<P>(s, 2); a = a * g; b = b * g; } if (s.coin(1, 8)) b = a; if (s.coin(1, 8)) b = -a;
        s.note << a << " ; " << b; L A = R::to(a), B = R::to(b);
        CHECKM(R::from(A + B) == a + b, "+"); CHECKM(R::from(A - B) == a - b, "-"); CHECKM(R::from(A * B) == a * b, "*"); CHECKM(R::from(-A) == -a, "neg");
        { L t = A; t += B; CHECKM(R::from(t) == a + b, "+="); t = A; t -= B; CHECKM(R::from(t) == a - b, "-="); t = A; t += t; CHECKM(R::from(t) == a + a, "p += p"); t = A; t -= t; CHECKM(R::from(t) == Po<P>() && t.is_zero(), "p -= p"); CHECK(R::from(A * A) == a * a && R::from(A - A) == Po<P>()); if (!a.c.empty()) { Po<P> e = a; size_t i = s.range(0, e.c.size() - 1); e.c[i] = e.c[i] + Z<P>(1); if (!e.c.back().zero()) CHECKM(!(A == R::to(e)) && A != R::to(e), "equality of polynomials that differ in one coefficient"); } }
        CHECKM((A == B) == (a == b) && (A != B) == (a != b), "=="); CHECKM((A == 0) == a.zero() && (A != 0) == !a.zero(), "== 0"); CHECKM((A == 1) == (a == Po<P>(1)), "== 1"); CHECKEQ(A.is_zero(), a.zero()); if (!a.zero()) { CHECKEQ(A.degree(), a.c.size() - 1); CHECK(unlib<P>(A.leading_coeff()) == a.c.back()); }
        CHECK(R::from(L::identity()) == Po<P>(1)); CHECK(R::from(L::zero()) == Po<P>()); { size_t k = s.range(0, 5); Po<P> m; m.c.resize(k + 1); m.c[k] = genZ<P>(s, true); CHECK(R::from(L::monomial(k, lib<P>(m.c[k]))) == m); }
        if (!b.zero()) { Po<P> q, r = a.rem(b, &q); auto [ql, rl] = A.divrem(B); CHECKM(R::from(ql) == q && R::from(rl) == r, "divrem: q=" << R::from(ql) << " r=" << R::from(rl)); CHECK(R::from(A / B) == q); CHECK(R::from(A.remainder(B)) == r); }
        if (P != 0) { CHECKM(R::from(A.gcd(B)).norm() == gcdE<Po<P>>(a, b), "gcd"); euclid<L>(s, a, b); }
        Z<P> x = genZ<P>(s), v(0), p(1); for (auto& c : a.c) { v = v + c * p; p = p * x; } CHECKM(unlib<P>(A(lib<P>(x))) == v, "evaluation at " << x);
        { size_t n = s.range(1, 3); DM<P> mt = genMat<P>(s, n, n); DV<P> vec = genVec<P>(s, n); DM<P> acc(n, 1), pw = colvec<P>(vec); for (auto& c : a.c) { acc = acc + pw.scaled(c); pw = mt * pw; } CHECKM(vecOf<P>(A(toMat<P>(mt), toVec<P>(vec)), n, "p(A)v") == acc.col(0), "evaluation at a matrix"); }
        if (!a.c.empty()) CHECKM(A.is_monic() == (a.c.back() == Z<P>(1)), "is_monic");
        if (a.c.size() >= 2) { Po<P> mo = a.norm(); size_t n = mo.c.size() - 1; auto C = R::to(mo).companion_matrix(); DM<P> c = matOf<P>(C, "companion", false); CHECKEQ(c.m, n); CHECKEQ(c.n, n);
            DM<P> acc(n, n), pw = DM<P>::eye(n); for (auto& k : mo.c) { acc = acc + pw.scaled(k); pw = pw * c; } CHECKM(acc.zero(), "p(companion(p)) = 0, companion=" << c);
            if (P != 0 && n <= 5) { auto X = fromL<L>(characteristic_matrix(C), n, n, "char"); CHECKM(det(X) == mo, "det(xI - companion(p)) = " << det(X)); }
            if (a.c.back() != Z<P>(1)) { L AA = A; CHECKM(pbt::throws([&] { AA.companion_matrix(); }), "companion of a non-monic polynomial raises"); } }
        s.nontrivial(a.c.size() > 1 && b.c.size() > 1); });
}
PBT_MAIN("C07")
