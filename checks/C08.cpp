// C08 compressed-column matrices against dense integer matrices
#include "oracle.hpp"
using pbt::Src; using namespace orc;
typedef std::vector<std::vector<long>> DI;
template <class T> struct Conv { static T to(long x) { return T(x); } static long from(const T& x) { return (long)x; } };
template <> struct Conv<F<3>> { static F<3> to(long x) { return F<3>((int)x); } static long from(const F<3>& x) { return x.to_int(); } };
template <class T> long red(long x) { return x; }
struct Mat { size_t m, n; DI a; Mat(size_t m, size_t n) : m(m), n(n), a(m, std::vector<long>(n, 0)) {} };
static std::string sh(const Mat& a) { std::ostringstream o; o << a.m << "x" << a.n << "["; for (auto& r : a.a) { for (auto x : r) o << x << " "; o << ";"; } o << "]"; return o.str(); }
template <class T, class TI> CSCMatrix<T, TI> build(Src& s, const Mat& d, bool shuffle) {
    std::vector<TI> cp{0}, ri; std::vector<T> v;
    for (size_t j = 0; j < d.n; ++j) { std::vector<size_t> rows; for (size_t i = 0; i < d.m; ++i) if (d.a[i][j]) rows.push_back(i); if (shuffle) { auto p = s.perm(rows.size()); auto r2 = rows; for (size_t i = 0; i < p.size(); ++i) rows[i] = r2[p[i]]; } for (auto i : rows) { ri.push_back(i); v.push_back(Conv<T>::to(d.a[i][j])); } cp.push_back(ri.size()); }
    return CSCMatrix<T, TI>(d.m, d.n, cp, ri, v);
}
template <class T, class TI> void agree(const CSCMatrix<T, TI>& A, const Mat& e, const char* w, bool sorted, int P) {
    CHECKM(A.nrow() == e.m && A.ncol() == e.n, w << ": shape " << A.nrow() << "x" << A.ncol());
    auto& cp = A.get_colptr(); auto& ri = A.get_rowind(); auto& v = A.get_val(); CHECKM(cp.size() == e.n + 1 && cp[0] == 0 && cp[e.n] == ri.size() && ri.size() == v.size(), w << ": array sizes");
    Mat g(e.m, e.n);
    for (size_t j = 0; j < e.n; ++j) { std::set<size_t> seen; CHECKM(cp[j] <= cp[j + 1], w << ": column pointers decrease"); for (size_t k = cp[j]; k < cp[j + 1]; ++k) { CHECKM(ri[k] < e.m, w << ": row index " << ri[k]); CHECKM(seen.insert(ri[k]).second, w << ": row stored twice in column " << j); if (sorted && k > cp[j]) CHECKM(ri[k - 1] < ri[k], w << ": rows sorted"); g.a[ri[k]][j] = Conv<T>::from(v[k]); } }
    auto md = [&](long x) { return P ? ((x % P) + P) % P : x; };
    for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) { CHECKM(g.a[i][j] == md(e.a[i][j]), w << ": got " << sh(g) << " expected " << sh(e)); CHECKM(Conv<T>::from(A.getval(i, j)) == md(e.a[i][j]), w << ": getval(" << i << "," << j << ")"); }
}
static Mat gen(Src& s, size_t m, size_t n, long mag) { Mat a(m, n); unsigned dens = s.draw(4); for (auto& r : a.a) for (auto& x : r) if (s.coin(dens, 5)) x = s.range(-mag, mag); for (size_t j = 0; j < n; ++j) if (s.coin(1, 6)) for (auto& r : a.a) r[j] = 0; return a; }
template <class T, class TI, int P> void body(Src& s) {
    auto dim = [&] { return s.coin(1, 14) ? (size_t)0 : (size_t)s.sized(1, 7); }; size_t m = dim(), k = dim(), n = dim(); if (s.coin(1, 150)) for (auto* x : {&m, &k, &n}) *x = s.range(4, 30); long mag = s.sized(1, 5);
    Mat a = gen(s, m, k, mag), b = gen(s, k, n, mag), c = gen(s, m, k, mag); if (s.coin(1, 3)) { c = a; long f = s.range(-2, 2); for (auto& r : c.a) for (auto& x : r) x *= f; } bool shf = s.coin();
    if (P) for (auto* q : {&a, &b, &c}) for (auto& r : q->a) for (auto& x : r) x = ((x % (P ? P : 1)) + P) % (P ? P : 1);
    s.note << "A=" << sh(a) << " B=" << sh(b) << " C=" << sh(c) << " shuffled=" << shf;
    auto A = build<T, TI>(s, a, shf), B = build<T, TI>(s, b, shf), C = build<T, TI>(s, c, shf); agree(A, a, "constructed", true, P); agree(B, b, "constructed", true, P);
    { Mat e(m, n); for (size_t i = 0; i < m; ++i) for (size_t t = 0; t < k; ++t) for (size_t j = 0; j < n; ++j) e.a[i][j] += a.a[i][t] * b.a[t][j]; agree(A * B, e, "A*B", true, P); CSCMatrix<T, TI> X = B; gemm(A, B, X); agree(X, e, "gemm", true, P);
      long al = s.range(-3, 3), be = s.range(-3, 3); // chained use of results: alpha*(A*B) + A*B
      CSCMatrix<T, TI> Y; sum(Conv<T>::to(al), X, X, Y); Mat e2 = e; for (auto& r : e2.a) for (auto& x : r) x *= al + 1; agree(Y, e2, "alpha*X+X", true, P); (void)be; }
    { Mat e = a; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) e.a[i][j] += c.a[i][j]; CSCMatrix<T, TI> X; sum(A, C, X); agree(X, e, "A+C", true, P); }
    { long al = s.range(-3, 3); Mat e = c; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) e.a[i][j] += al * a.a[i][j]; CSCMatrix<T, TI> X = A; sum(Conv<T>::to(al), A, C, X); s.note << " alpha=" << al; agree(X, e, "alpha*A+C", true, P); }
    { auto r = s.subset(m), q = s.subset(k); bool pm = s.coin(); if (pm) { auto p1 = s.perm(r.size()), p2 = s.perm(q.size()); auto r0 = r, q0 = q; for (size_t i = 0; i < r.size(); ++i) r[i] = r0[p1[i]]; for (size_t i = 0; i < q.size(); ++i) q[i] = q0[p2[i]]; }
      Mat e(r.size(), q.size()); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < q.size(); ++j) e.a[i][j] = a.a[r[i]][q[j]]; s.note << " sub " << pbt::show(r) << pbt::show(q); agree(A.submatrix(r, q), e, "submatrix", !pm, P); }
    { // rows through an index map (NO_IND drops a row), columns from a list with repetitions and any order; one target and several targets with disjoint rows
      std::vector<size_t> q(s.range(0, (long)k)); if (k) for (auto& x : q) x = s.draw(k - 1); else q.clear(); size_t nb = s.range(1, 3); std::vector<std::vector<size_t>> pr(nb, std::vector<size_t>(m, bats::NO_IND)); std::vector<std::vector<size_t>> rows(nb);
      auto pm = s.perm(m); bool shuffled = s.coin(); for (size_t i = 0; i < m; ++i) { size_t r = shuffled ? pm[i] : i, w = s.draw(nb); if (w < nb) { pr[w][r] = rows[w].size(); rows[w].push_back(r); } }
      auto sel = [&](size_t w) { Mat e(rows[w].size(), q.size()); for (size_t i = 0; i < rows[w].size(); ++i) for (size_t j = 0; j < q.size(); ++j) e.a[i][j] = a.a[rows[w][i]][q[j]]; return e; };
      s.note << " select " << pbt::show(q); for (auto& r : rows) s.note << pbt::show(r);
      std::vector<CSCMatrix<T, TI>> X(nb, s.coin() ? B : CSCMatrix<T, TI>());
      if (nb == 1) { block_select(A, q, pr[0], rows[0].size(), X[0]); agree(X[0], sel(0), "block_select", !shuffled, P); }
      else { if (nb == 2) block_select(A, q, {&pr[0], &pr[1]}, {rows[0].size(), rows[1].size()}, {&X[0], &X[1]}); else block_select(A, q, {&pr[0], &pr[1], &pr[2]}, {rows[0].size(), rows[1].size(), rows[2].size()}, {&X[0], &X[1], &X[2]}); for (size_t w = 0; w < nb; ++w) agree(X[w], sel(w), "block_select of several blocks", true, P); } }
    { // number of rows not given: as many as the entries need
      CSCMatrix<T, TI> X(A.get_colptr(), A.get_rowind(), A.get_val()); Mat e(0, k); for (auto r : A.get_rowind()) e.m = std::max(e.m, (size_t)r + 1); e.a.assign(a.a.begin(), a.a.begin() + e.m); agree(X, e, "constructed without row number", true, P); }
    agree(A, a, "A unchanged", true, P); agree(C, c, "C unchanged", true, P);
    size_t nz = 0, empty = 0; for (size_t j = 0; j < k; ++j) { size_t t = 0; for (size_t i = 0; i < m; ++i) if (a.a[i][j]) ++t; nz += t; if (!t) ++empty; } if (empty) s.label("empty columns"); s.nontrivial(nz >= 2);
}
PROP(algebra, "integer (int, long) and F3 matrices of shapes 0-7 with empty columns, shuffled row order on construction; entries, sums with coefficients, products, submatrices vs dense; non-trivial: at least two stored entries", 300000, 4000000) {
    switch (s.draw(2)) { case 0: body<int, size_t, 0>(s); break; case 1: body<long, size_t, 0>(s); break; default: body<ModP<int, 3>, size_t, 3>(s); }
}
PROP(convert, "integer compressed matrices converted to column-sparse matrices over F2/F3/F5/Q and over the integers; entries reduced into the field; non-trivial: at least two stored entries", 300000, 4000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t m = s.sized(0, 7), n = s.sized(0, 7); if (s.coin(1, 150)) { m = s.range(5, 40); n = s.range(5, 40); } Mat a = gen(s, m, n, s.coin() ? 1 : 6); s.note << sh(a); auto A = build<int, size_t>(s, a, s.coin());
        M<P> B(A); CHECKEQ(B.nrow(), m); CHECKEQ(B.ncol(), n); auto d = matOf<P>(B, "converted", false); size_t nz = 0; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { CHECKM(d(i, j) == Z<P>(a.a[i][j]), "entry " << i << "," << j << " is " << d(i, j)); nz += a.a[i][j] != 0; }
        ColumnMatrix<SparseVector<int, size_t>> I(A); M<P> B2(I); auto d2 = matOf<P>(B2, "converted", false); CHECK(d2 == d); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECKEQ(I(i, j), (int)a.a[i][j]); s.nontrivial(nz >= 2); });
}
PBT_MAIN("C08")
