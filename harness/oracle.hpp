// oracle.hpp - independent reference computations (dense linear algebra, set models, persistence, quivers)
#pragma once
#include "pbt.hpp"
#include <bats.hpp>
#include <map>
#include <set>

namespace orc {
typedef __int128 i128;
inline i128 igcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
struct Overflow {};

// exact scalars: Z<P> integers mod P, Z<0> fractions
template <int P> struct Z {
    long v = 0;
    Z() {}
    Z(long x) : v(((x % P) + P) % P) {}
    Z operator+(Z o) const { return Z(v + o.v); }
    Z operator-(Z o) const { return Z(v - o.v); }
    Z operator-() const { return Z(-v); }
    Z operator*(Z o) const { return Z(v * o.v); }
    Z inv() const { long r = 1, b = v, e = P - 2; while (e > 0) { if (e & 1) r = r * b % P; b = b * b % P; e >>= 1; } return Z(r); }
    Z operator/(Z o) const { return *this * o.inv(); }
    bool operator==(Z o) const { return v == o.v; }
    bool operator!=(Z o) const { return v != o.v; }
    bool zero() const { return v == 0; }
    friend std::ostream& operator<<(std::ostream& o, const Z& z) { return o << z.v; }
};
template <> struct Z<0> {
    i128 n = 0, d = 1;
    Z() {}
    Z(long x) : n(x) {}
    Z(i128 a, i128 b) : n(a), d(b) { i128 g = igcd(n, d); if (g > 1) { n /= g; d /= g; } if (d < 0) { n = -n; d = -d; }
        const i128 L = ((i128)1) << 62; if (n > L || n < -L || d > L) throw pbt::Discard{}; }
    Z operator+(Z o) const { return Z(n * o.d + o.n * d, d * o.d); }
    Z operator-(Z o) const { return Z(n * o.d - o.n * d, d * o.d); }
    Z operator-() const { return Z(-n, d); }
    Z operator*(Z o) const { return Z(n * o.n, d * o.d); }
    Z inv() const { return Z(d, n); }
    Z operator/(Z o) const { return Z(n * o.d, d * o.n); }
    bool operator==(Z o) const { return n == o.n && d == o.d; }
    bool operator!=(Z o) const { return !(*this == o); }
    bool zero() const { return n == 0; }
    friend std::ostream& operator<<(std::ostream& o, const Z& z) { o << (long)z.n; if (z.d != 1) o << "/" << (long)z.d; return o; }
};

template <int P> struct LibF { using T = ModP<int, P>; };
template <> struct LibF<0> { using T = Rational<long>; };
template <int P> using F = typename LibF<P>::T;
template <int P> using V = SparseVector<F<P>>;
template <int P> using M = ColumnMatrix<V<P>>;

template <int P> F<P> lib(const Z<P>& z) { if constexpr (P == 0) return F<0>((long)z.n, (long)z.d); else return F<P>((int)z.v); }
template <int P> Z<P> unlib(const F<P>& x) {
    if constexpr (P == 0) { std::ostringstream o; o << x; std::string t = o.str(); size_t k = t.find('/');
        return Z<0>((i128)std::stol(t.substr(0, k)), (i128)std::stol(t.substr(k + 1))); }
    else return Z<P>(x.to_int());
}
// PBT_FIELDS (set by run.py) restricts a translation unit to some fields: 0 all, 1 F2, 2 F3, 3 F5 and Q (F5 where the field is finite)
#ifndef PBT_FIELDS
#define PBT_FIELDS 0
#endif
template <class Fn> void withField(pbt::Src& s, Fn f) {
    size_t q = s.draw(3); constexpr int w = PBT_FIELDS; if (w == 1) q = 0; if (w == 2) q = 1; if (w == 3) q = 2 + q % 2;
    if constexpr (w == 0 || w == 1) if (q == 0) { s.note << "F2 "; return f(std::integral_constant<int, 2>{}); }
    if constexpr (w == 0 || w == 2) if (q == 1) { s.note << "F3 "; return f(std::integral_constant<int, 3>{}); }
    if constexpr (w == 0 || w == 3) { if (q == 2) { s.note << "F5 "; return f(std::integral_constant<int, 5>{}); } s.note << "Q "; f(std::integral_constant<int, 0>{}); }
}
template <class Fn> void withFiniteField(pbt::Src& s, Fn f) {
    size_t q = s.draw(2); constexpr int w = PBT_FIELDS; if (w) q = w - 1;
    if constexpr (w == 0 || w == 1) if (q == 0) { s.note << "F2 "; return f(std::integral_constant<int, 2>{}); }
    if constexpr (w == 0 || w == 2) if (q == 1) { s.note << "F3 "; return f(std::integral_constant<int, 3>{}); }
    if constexpr (w == 0 || w == 3) { s.note << "F5 "; f(std::integral_constant<int, 5>{}); }
}

// ---------- dense ----------
template <int P> struct DM {
    size_t m = 0, n = 0;
    std::vector<std::vector<Z<P>>> a;        // rows
    DM() {}
    DM(size_t m, size_t n) : m(m), n(n), a(m, std::vector<Z<P>>(n)) {}
    Z<P>& operator()(size_t i, size_t j) { return a[i][j]; }
    const Z<P>& operator()(size_t i, size_t j) const { return a[i][j]; }
    static DM eye(size_t n) { DM r(n, n); for (size_t i = 0; i < n; ++i) r(i, i) = Z<P>(1); return r; }
    DM operator*(const DM& o) const {
        if (n != o.m) PBT_FAIL("oracle: dimension mismatch " << m << "x" << n << " * " << o.m << "x" << o.n);
        DM r(m, o.n);
        for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < n; ++k) if (!a[i][k].zero())
            for (size_t j = 0; j < o.n; ++j) if (!o(k, j).zero()) r(i, j) = r(i, j) + a[i][k] * o(k, j);
        return r;
    }
    DM operator+(const DM& o) const { DM r = *this; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r(i, j) = r(i, j) + o(i, j); return r; }
    DM operator-(const DM& o) const { DM r = *this; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r(i, j) = r(i, j) - o(i, j); return r; }
    DM scaled(Z<P> c) const { DM r = *this; for (auto& x : r.a) for (auto& y : x) y = y * c; return r; }
    DM T() const { DM r(n, m); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r(j, i) = a[i][j]; return r; }
    bool operator==(const DM& o) const { return m == o.m && n == o.n && a == o.a; }
    bool operator!=(const DM& o) const { return !(*this == o); }
    bool zero() const { for (auto& x : a) for (auto& y : x) if (!y.zero()) return false; return true; }
    std::vector<Z<P>> col(size_t j) const { std::vector<Z<P>> v(m); for (size_t i = 0; i < m; ++i) v[i] = a[i][j]; return v; }
    DM cols(const std::vector<size_t>& c) const { DM r(m, c.size()); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < c.size(); ++j) r(i, j) = a[i][c[j]]; return r; }
    DM rows(const std::vector<size_t>& c) const { DM r(c.size(), n); for (size_t i = 0; i < c.size(); ++i) r.a[i] = a[c[i]]; return r; }
    DM sub(const std::vector<size_t>& r, const std::vector<size_t>& c) const { return rows(r).cols(c); }
    void addcol(const std::vector<Z<P>>& v) { for (size_t i = 0; i < m; ++i) a[i].push_back(v[i]); ++n; }
    DM hcat(const DM& o) const { DM r = *this; r.n = n + o.n; for (size_t i = 0; i < m; ++i) r.a[i].insert(r.a[i].end(), o.a[i].begin(), o.a[i].end()); return r; }
    DM vcat(const DM& o) const { DM r = *this; r.m = m + o.m; r.a.insert(r.a.end(), o.a.begin(), o.a.end()); return r; }
    // reduced row echelon in place; returns pivot columns
    std::vector<size_t> rref() {
        std::vector<size_t> piv; size_t r = 0;
        for (size_t c = 0; c < n && r < m; ++c) {
            size_t p = r; while (p < m && a[p][c].zero()) ++p;
            if (p == m) continue;
            std::swap(a[p], a[r]);
            Z<P> iv = a[r][c].inv(); for (size_t j = c; j < n; ++j) a[r][j] = a[r][j] * iv;
            for (size_t i = 0; i < m; ++i) if (i != r && !a[i][c].zero()) {
                Z<P> f = a[i][c]; for (size_t j = c; j < n; ++j) if (!a[r][j].zero()) a[i][j] = a[i][j] - f * a[r][j];
            }
            piv.push_back(c); ++r;
        }
        return piv;
    }
    size_t rank() const { DM t = *this; return t.rref().size(); }
    DM null() const {                          // columns span the kernel
        DM t = *this; auto piv = t.rref(); std::vector<bool> isp(n, false); for (auto p : piv) isp[p] = true;
        DM r(n, n - piv.size()); size_t k = 0;
        for (size_t c = 0; c < n; ++c) if (!isp[c]) { r(c, k) = Z<P>(1); for (size_t i = 0; i < piv.size(); ++i) r(piv[i], k) = -t(i, c); ++k; }
        return r;
    }
    DM inverse() const { DM t = hcat(eye(m)); auto piv = t.rref(); if (piv.size() < m || (m && piv[m - 1] != m - 1)) PBT_FAIL("oracle: singular");
        std::vector<size_t> c; for (size_t i = 0; i < m; ++i) c.push_back(m + i); return t.cols(c); }
    bool inspan(const std::vector<Z<P>>& v) const { DM t = *this; size_t r0 = t.rank(); t.addcol(v); return t.rank() == r0; }
    friend std::ostream& operator<<(std::ostream& o, const DM& d) {
        o << d.m << "x" << d.n << "["; for (size_t i = 0; i < d.m; ++i) { if (i) o << "; "; for (size_t j = 0; j < d.n; ++j) o << (j ? " " : "") << d(i, j); } return o << "]"; }
};
template <int P> using DV = std::vector<Z<P>>;
template <int P> DM<P> colvec(const DV<P>& v) { DM<P> r(v.size(), 1); for (size_t i = 0; i < v.size(); ++i) r(i, 0) = v[i]; return r; }

// library conversion with representation invariants
template <int P> DV<P> vecOf(const V<P>& v, size_t m, const char* what = "vector", bool nonzero = true) {
    DV<P> r(m); bool first = true; size_t last = 0;
    for (auto it = v.nzbegin(); it != v.nzend(); ++it) {
        size_t i = it->ind;
        CHECKM(i < m, what << ": stored index " << i << " not below " << m);
        CHECKM(first || i > last, what << ": stored indices not strictly increasing at " << i);
        Z<P> z = unlib<P>(it->val);
        if (nonzero) CHECKM(!z.zero(), what << ": explicit zero stored at " << i);
        r[i] = z; last = i; first = false;
    }
    return r;
}
template <int P> DM<P> matOf(const M<P>& A, const char* what = "matrix", bool nonzero = true) {
    DM<P> r(A.nrow(), A.ncol());
    for (size_t j = 0; j < A.ncol(); ++j) { auto c = vecOf<P>(A[j], A.nrow(), what, nonzero); for (size_t i = 0; i < r.m; ++i) r(i, j) = c[i]; }
    return r;
}
template <int P> V<P> toVec(const DV<P>& v) {
    V<P> r; for (size_t i = 0; i < v.size(); ++i) if (!v[i].zero()) r.emplace_back(i, lib<P>(v[i])); return r;
}
template <int P> M<P> toMat(const DM<P>& d) {
    std::vector<V<P>> cs; for (size_t j = 0; j < d.n; ++j) cs.push_back(toVec<P>(d.col(j)));
    return M<P>(d.m, d.n, cs);
}
// ---------- generators ----------
// sizes of fraction matrices that go through elimination stay small: Rational<long> has fixed width
template <int P> size_t qcap(size_t n, size_t c = 4) { return P == 0 ? std::min(n, c) : n; }
// a size between lo and hi, over a finite field now and then a large one
template <int P> size_t sizeN(pbt::Src& s, size_t lo, size_t hi, size_t big = 45, unsigned den = 250) { return P != 0 && s.coin(1, den) ? (size_t)s.range(hi + 1, big) : (size_t)s.sized(lo, hi); }
template <int P> Z<P> genZ(pbt::Src& s, bool nz = false) {
    if constexpr (P == 0) { long k = s.draw(6), n = k & 1 ? -(k + 1) / 2 : k / 2; if (nz && n == 0) n = 1; long d = s.coin(1, 8) ? s.range(2, 3) : 1; return Z<0>((i128)n, (i128)d); }
    else { long n = nz ? s.range(1, P - 1) : s.range(0, P - 1); return Z<P>(n); }
}
template <int P> DV<P> genVec(pbt::Src& s, size_t m) {
    DV<P> v(m); unsigned dens = s.draw(3) + 1; for (auto& x : v) if (s.coin(dens, 4)) x = genZ<P>(s, true); return v;
}
template <int P> DM<P> genMat(pbt::Src& s, size_t m, size_t n) {
    DM<P> d(m, n); unsigned dens = s.draw(4) + 1;
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (s.coin(dens, 6)) d(i, j) = genZ<P>(s, true);
    return d;
}
// with chance, a matrix of prescribed low rank
template <int P> DM<P> genMatR(pbt::Src& s, size_t m, size_t n) {
    if (m && n && s.coin(1, 3)) { size_t r = s.range(0, (long)std::min(m, n)); return genMat<P>(s, m, r) * genMat<P>(s, r, n); }
    return genMat<P>(s, m, n);
}
template <int P> DM<P> genTri(pbt::Src& s, size_t n, bool upper) {
    DM<P> d(n, n); unsigned dens = s.draw(3) + 1; bool unit = s.coin();
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (i == j) d(i, j) = unit ? Z<P>(1) : genZ<P>(s, true);
        else if ((i < j) == upper) { if (s.coin(dens, 5)) d(i, j) = genZ<P>(s, true); }
    }
    return d;
}
template <int P> DM<P> genInv(pbt::Src& s, size_t n) {
    DM<P> r = genTri<P>(s, n, true) * genTri<P>(s, n, false); auto p = s.perm(n); return r.rows(p);
}

// ---------- complexes ----------
typedef std::vector<size_t> Spx;
typedef std::vector<std::vector<Spx>> Cells;       // by dimension, in index order
template <int P> DM<P> simplicialBoundary(const Cells& c, size_t k) {   // k>=1
    size_t m = k - 1 < c.size() ? c[k - 1].size() : 0, n = k < c.size() ? c[k].size() : 0;
    std::map<Spx, size_t> id; if (k - 1 < c.size()) for (size_t i = 0; i < m; ++i) id[c[k - 1][i]] = i;
    DM<P> r(m, n);
    for (size_t j = 0; j < n; ++j) for (size_t t = 0; t < c[k][j].size(); ++t) {
        Spx f = c[k][j]; f.erase(f.begin() + t);
        auto it = id.find(f); if (it == id.end()) PBT_FAIL("face missing from complex");
        r(it->second, j) = r(it->second, j) + Z<P>((t & 1) ? -1 : 1);
    }
    return r;
}
template <int P> std::vector<long> bettiOf(const std::vector<DM<P>>& bd, const std::vector<size_t>& n) {
    // bd[k]: boundary from dim k to k-1 (bd[0] unused); n[k] number of cells
    std::vector<long> r(n.size()); std::vector<size_t> rk(n.size() + 1, 0);
    for (size_t k = 1; k < n.size(); ++k) rk[k] = bd[k].rank();
    for (size_t k = 0; k < n.size(); ++k) r[k] = (long)n[k] - (long)rk[k] - (long)rk[k + 1];
    return r;
}
inline std::set<Spx> closure(const std::vector<Spx>& tops) {
    std::set<Spx> r;
    for (auto t : tops) { std::sort(t.begin(), t.end()); size_t n = t.size();
        for (size_t m = 1; m < ((size_t)1 << n); ++m) { Spx f; for (size_t i = 0; i < n; ++i) if (m >> i & 1) f.push_back(t[i]); r.insert(f); } }
    return r;
}
inline std::ostream& operator<<(std::ostream& o, const Spx& s) { o << "{"; for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i]; return o << "}"; }
// random face-closed set on n vertices (every vertex present), simplices up to dimension maxd, in an order with faces first
// number of vertices: mostly small, now and then a few more
// usually lo..hi, now and then larger, so that nothing depends on sizes staying small
inline size_t bigN(pbt::Src& s, size_t lo, size_t hi, size_t big, unsigned den = 120) { return s.coin(1, den) ? (size_t)s.range(hi + 1, big) : (size_t)s.range(lo, hi); }
template <int P> size_t dimN(pbt::Src& s, size_t lo, size_t hi, size_t big = 18, unsigned den = 150) { return P == 0 ? (size_t)s.range(lo, std::min<size_t>(hi, 4)) : bigN(s, lo, hi, big, den); }
inline size_t someN(pbt::Src& s, size_t maxn) { size_t n = s.sized(1, (long)maxn); if (maxn >= 5 && s.coin(1, 14)) n = maxn + s.range(1, 3); if (maxn >= 5 && s.coin(1, 400)) n = maxn + s.range(4, 6); return n; }
inline std::vector<Spx> genComplex(pbt::Src& s, size_t n, size_t maxd, size_t maxtops, bool allverts = true, bool raise = true) {
    std::vector<Spx> tops; if (allverts) for (size_t i = 0; i < n; ++i) tops.push_back({i});
    if (raise && maxd == 3 && n >= 5 && s.coin(1, 8)) maxd = n < 10 ? 6 : 3; // now and then simplices of higher dimension
    if (n >= 10) maxtops += (size_t)s.range(5, 25);
    size_t k = s.range(0, (long)maxtops);
    for (size_t i = 0; i < k; ++i) { size_t d = s.range(0, (long)std::min(maxd, n - 1)); auto p = s.perm(n); p.resize(d + 1); std::sort(p.begin(), p.end()); tops.push_back(p); }
    auto c = closure(tops);
    std::vector<Spx> v(c.begin(), c.end());
    return v;
}
inline void byDim(std::vector<Spx>& v) { std::stable_sort(v.begin(), v.end(), [](const Spx& a, const Spx& b) { return a.size() < b.size(); }); }
// shuffle keeping faces before cofaces
inline std::vector<Spx> linearExtension(pbt::Src& s, std::vector<Spx> v) {
    std::vector<Spx> out; std::set<Spx> have; std::vector<Spx> rest = v; 
    while (!rest.empty()) {
        std::vector<size_t> ok;
        for (size_t i = 0; i < rest.size(); ++i) {
            bool g = true; if (rest[i].size() > 1) for (size_t t = 0; t < rest[i].size() && g; ++t) { Spx f = rest[i]; f.erase(f.begin() + t); g = have.count(f); }
            if (g) ok.push_back(i);
        }
        size_t j = ok[s.draw(ok.size() - 1)];
        have.insert(rest[j]); out.push_back(rest[j]); rest.erase(rest.begin() + j);
    }
    return out;
}
inline Cells cellsOf(const std::vector<Spx>& v) { Cells c; for (auto& x : v) { if (c.size() < x.size()) c.resize(x.size()); c[x.size() - 1].push_back(x); } return c; }

// ---------- persistence: textbook reduction on a total order ----------
struct Bar { size_t dim; double b, d; size_t bi, di; bool inf; };
// cells in filtration order given as columns over earlier cells (index, coefficient); returns all pairs incl. zero length
template <int P> std::vector<Bar> textbook(const std::vector<std::map<size_t, Z<P>>>& bnd, const std::vector<size_t>& dim, const std::vector<double>& val) {
    size_t n = bnd.size(); std::vector<std::map<size_t, Z<P>>> R = bnd; std::map<size_t, size_t> low; std::vector<bool> paired(n, false);
    std::vector<Bar> out;
    for (size_t j = 0; j < n; ++j) {
        while (!R[j].empty()) {
            auto last = *R[j].rbegin(); auto it = low.find(last.first); if (it == low.end()) break;
            auto& o = R[it->second]; Z<P> c = last.second / o.rbegin()->second;
            for (auto& kv : o) { Z<P> z = R[j].count(kv.first) ? R[j][kv.first] : Z<P>(0); z = z - c * kv.second; if (z.zero()) R[j].erase(kv.first); else R[j][kv.first] = z; }
        }
        if (!R[j].empty()) { size_t i = R[j].rbegin()->first; low[i] = j; paired[i] = paired[j] = true; out.push_back({dim[i], val[i], val[j], i, j, false}); }
    }
    for (size_t j = 0; j < n; ++j) if (!paired[j]) out.push_back({dim[j], val[j], 0, j, 0, true});
    return out;
}
typedef std::vector<std::tuple<size_t, double, double>> BarList;   // dim, birth, death (inf = infinity), zero length removed
inline BarList canon(const std::vector<Bar>& v, bool keepzero = false) {
    BarList r; for (auto& b : v) { double d = b.inf ? std::numeric_limits<double>::infinity() : b.d; if (keepzero || b.b != d) r.emplace_back(b.dim, b.b, d); }
    std::sort(r.begin(), r.end()); return r;
}
inline std::string show(const BarList& b) { std::ostringstream o; for (auto& t : b) o << std::get<0>(t) << ":[" << std::get<1>(t) << "," << std::get<2>(t) << ") "; return o.str(); }

// ---------- type A quivers: interval multiplicities from generalised ranks ----------
// maps[i] between node i and i+1; dir[i]=true: i -> i+1 (matrix dim[i+1] x dim[i]); false: i+1 -> i (dim[i] x dim[i+1])
template <int P> std::map<std::pair<size_t, size_t>, long> quiverBars(const std::vector<size_t>& dim, const std::vector<DM<P>>& mp, const std::vector<bool>& dir) {
    // generalised rank of the segment [a,b] = dim of { relation chains from a to b } image computed as:
    // the number of intervals containing [a,b]. Relation rel(a,b) subset of V_a x V_b; count = dim rel - dim(ker part) - dim(indeterminacy)
    size_t n = dim.size();
    auto compose = [&](const DM<P>& A, const DM<P>& B, size_t da, size_t dm, size_t db) {
        // A: columns spanning a subspace of V_a + V_m; B: of V_m + V_b ; result columns spanning composite in V_a + V_b
        std::vector<size_t> ra, rm, bm, bb; for (size_t i = 0; i < da; ++i) ra.push_back(i); for (size_t i = 0; i < dm; ++i) { rm.push_back(da + i); bm.push_back(i); } for (size_t i = 0; i < db; ++i) bb.push_back(dm + i);
        DM<P> Am = A.rows(rm), Bm = B.rows(bm), N = Am.hcat(Bm.scaled(Z<P>(-1))).null();
        std::vector<size_t> na, nb; for (size_t i = 0; i < A.n; ++i) na.push_back(i); for (size_t i = 0; i < B.n; ++i) nb.push_back(A.n + i);
        DM<P> X = (A.rows(ra) * N.rows(na)).vcat(B.rows(bb) * N.rows(nb));
        DM<P> t = X; auto piv = t.rref(); return X.cols(piv);
    };
    std::vector<std::vector<long>> rk(n, std::vector<long>(n, 0));
    for (size_t a = 0; a < n; ++a) {
        DM<P> rel = DM<P>::eye(dim[a]).vcat(DM<P>::eye(dim[a]));
        for (size_t b = a; b < n; ++b) {
            if (b > a) {
                DM<P> g = dir[b - 1] ? DM<P>::eye(dim[b - 1]).vcat(mp[b - 1]) : mp[b - 1].vcat(DM<P>::eye(dim[b]));
                rel = compose(rel, g, dim[a], dim[b - 1], dim[b]);
            }
            // intervals containing [a,b] = dim rel - dim{(x,0)} - dim{(0,y)}
            std::vector<size_t> ra, rb; for (size_t i = 0; i < dim[a]; ++i) ra.push_back(i); for (size_t i = 0; i < dim[b]; ++i) rb.push_back(dim[a] + i);
            long d = rel.n, px = d - (long)rel.rows(rb).rank(), py = d - (long)rel.rows(ra).rank();
            rk[a][b] = d - px - py;
        }
    }
    std::map<std::pair<size_t, size_t>, long> r;
    auto R = [&](long a, long b) -> long { if (a < 0 || b >= (long)n || a > b) return 0; return rk[a][b]; };
    for (long a = 0; a < (long)n; ++a) for (long b = a; b < (long)n; ++b) {
        long m = R(a, b) - R(a - 1, b) - R(a, b + 1) + R(a - 1, b + 1);
        if (m) r[{a, b}] = m;
    }
    return r;
}
} // namespace orc
