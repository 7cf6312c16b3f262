// geomgen.hpp - point sets, metrics with independent reference formulas, distance matrices, clique enumeration
#pragma once
#include "complexgen.hpp"
namespace orc {
using pbt::Src;
typedef std::vector<std::vector<double>> Pts;
inline bats::Matrix<double> toBM(const Pts& p, size_t cols) { bats::Matrix<double> m(p.size(), cols); for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < cols; ++j) m(i, j) = p[i][j]; return m; }
inline std::string showPts(const Pts& p) { std::ostringstream o; for (auto& x : p) { o << "("; for (size_t j = 0; j < x.size(); ++j) o << (j ? "," : "") << x[j]; o << ")"; } return o.str(); }
// points on a small grid (so distances tie and points coincide) or with irregular coordinates; never the zero vector when nonzero is set
inline Pts genPts(Src& s, size_t n, size_t d, bool nonzero = false) {
    int mode = s.draw(2); long sp = s.range(1, 4); Pts p(n, std::vector<double>(d));
    for (auto& x : p) { for (auto& c : x) c = mode == 2 ? (double)s.range(-1000, 1000) / 257.0 : (double)s.range(-sp, sp) / (mode ? 2.0 : 1.0); if (nonzero) { bool z = true; for (auto c : x) z &= c == 0; if (z) x[0] = 1; } }
    if (s.coin(1, 30)) { double c = std::ldexp(1.0, s.coin() ? -30 : -12); for (auto& x : p) for (auto& q : x) q *= c; s.note << " scaled by " << c; }
    s.note << showPts(p); return p;
}
inline double refDist(int m, const std::vector<double>& x, const std::vector<double>& y) {
    long double a = 0, nx = 0, ny = 0, ip = 0, l1 = 0, li = 0; for (size_t i = 0; i < x.size(); ++i) { long double d = std::fabs((long double)x[i] - y[i]); a += d * d; l1 += d; li = std::max(li, d); nx += (long double)x[i] * x[i]; ny += (long double)y[i] * y[i]; ip += (long double)x[i] * y[i]; }
    long double c = m >= 3 ? ip / std::sqrt(nx * ny) : 0; c = std::min(1.0L, std::max(-1.0L, c));
    switch (m) { case 0: return (double)std::sqrt(a); case 1: return (double)l1; case 2: return (double)li; case 3: return (double)(1 - c); case 4: return (double)(1 - std::fabs(c)); case 5: return (double)std::acos(c); default: return (double)std::acos(std::fabs(c)); }
}
inline const char* metricName(int m) { static const char* n[] = {"Euclidean", "L1", "LInf", "Cosine", "RPCosine", "Angle", "RPAngle"}; return n[m]; }
template <class Fn> void withMetric(int m, Fn fn) { switch (m) { case 0: fn(bats::Euclidean()); break; case 1: fn(bats::L1Dist()); break; case 2: fn(bats::LInfDist()); break; case 3: fn(bats::CosineDist()); break; case 4: fn(bats::RPCosineDist()); break; case 5: fn(bats::AngleDist()); break; default: fn(bats::RPAngleDist()); } }
inline double metricTol(int m) { return m >= 5 ? 1e-6 : 1e-10; }
// symmetric matrix, zero diagonal, few distinct values (ties), not necessarily a metric
inline Pts genDistMat(Src& s, size_t n) { Pts D(n, std::vector<double>(n, 0.0)); long sp = s.range(1, 12); double sc = s.coin() ? 1.0 : 0.375; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) D[i][j] = D[j][i] = sc * (double)s.range(s.coin(1, 8) ? 0 : 1, sp); s.note << "D" << showPts(D); return D; }
inline double genRadius(Src& s, const Pts& D) { std::vector<double> v; for (auto& r : D) for (auto x : r) v.push_back(x); std::sort(v.begin(), v.end()); double r; if (v.empty()) r = 1; else switch (s.draw(4)) { case 0: r = v.back() + 1; break; case 1: r = v[v.size() / 2]; break; case 2: { size_t i = s.draw(v.size() - 1); r = v[i]; break; } case 3: { size_t i = s.draw(v.size() - 1), j = s.draw(v.size() - 1); r = (v[i] + v[j]) / 2; break; } default: r = v.back(); } s.note << " r" << r; return r; }
// all cliques of up to maxd+1 vertices with the largest edge value among them (vertices get v0)
inline std::map<Spx, double> cliques(const Pts& D, double r, size_t maxd, double v0 = 0, const std::function<bool(size_t, size_t)>& edge = nullptr) {
    std::map<Spx, double> res; size_t n = D.size(); std::function<void(Spx, double)> go = [&](Spx q, double v) { res[q] = v; if (q.size() == maxd + 1) return; for (size_t k = q.back() + 1; k < n; ++k) { double w = v; bool ok = true; for (auto i : q) { if (edge ? !edge(i, k) : !(D[i][k] <= r)) { ok = false; break; } w = q.size() == 1 ? D[i][k] : std::max(w, D[i][k]); } if (ok) { auto t = q; t.push_back(k); go(t, w); } } };
    for (size_t i = 0; i < n; ++i) go({i}, v0); return res;
}
template <class X> std::set<Spx> cellSet(const X& x, const std::string& w = "complex") { std::set<Spx> r; for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) { auto q = x.get_simplex(k, i); Spx t(q.begin(), q.end()); CHECKM(t.size() == k + 1 && std::is_sorted(t.begin(), t.end()), w << ": cell " << pbt::show(t) << " in dimension " << k); CHECKM(r.insert(t).second, w << ": cell " << pbt::show(t) << " twice"); CHECKM(x.find_idx(t) == i, w << ": index of " << pbt::show(t)); } return r; }
template <class X> void sameCells(const X& x, const std::map<Spx, double>& m, const std::string& w) { auto g = cellSet(x, w); for (auto& q : g) CHECKM(m.count(q), w << ": unexpected simplex " << pbt::show(q)); for (auto& p : m) CHECKM(g.count(p.first), w << ": missing simplex " << pbt::show(p.first)); }
template <class FT> void sameFilt(const FT& F, const std::map<Spx, double>& m, const std::string& w) { sameCells(F.complex(), m, w); auto& x = F.complex(); for (size_t k = 0; k <= x.maxdim(); ++k) { if (!x.ncells(k) && k >= F.vals().size()) continue; CHECKM(F.vals(k).size() == x.ncells(k), w << ": number of values in dimension " << k); for (size_t i = 0; i < x.ncells(k); ++i) { auto q = x.get_simplex(k, i); Spx t(q.begin(), q.end()); CHECKM((double)F.vals(k)[i] == m.at(t), w << ": value of " << pbt::show(t) << " is " << F.vals(k)[i] << " expected " << m.at(t)); } } }
} // namespace orc
