// C31 Metrics, landmarks and covers satisfy their defining conditions
#include "geomgen.hpp"
#include <omp.h>
using pbt::Src; using namespace orc;
struct Threads { Threads(Src& s) { omp_set_num_threads(s.coin(1, 4) ? (int)s.range(2, 4) : 1); } ~Threads() { omp_set_num_threads(1); } };
typedef std::vector<std::set<size_t>> Cov;
template <class T> bats::DataSet<T> dataOf(const Pts& p, size_t d) { bats::Matrix<T> m(p.size(), d); for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < d; ++j) m(i, j) = (T)p[i][j]; return bats::DataSet<T>(m); }
static double tolOf(int m, bool f) { return f ? (m >= 3 ? 4e-3 : 1e-4) * (m < 3 ? 20 : 1) : metricTol(m); }
template <class T, class Met> void metricCase(Src& s, const Met& dist, int m, const Pts& A, const Pts& B, size_t d) {
    bool fl = std::is_same<T, float>::value; double tol = tolOf(m, fl); auto X = dataOf<T>(A, d), Y = dataOf<T>(B, d); CHECK(X.size() == A.size() && X.dim() == d); auto XY = dist(X, Y); auto XX = dist(X); bats::Matrix<T> YX = dist(Y, X); CHECK(XY.nrow() == A.size() && XY.ncol() == B.size() && XX.nrow() == A.size() && XX.ncol() == A.size());
    for (size_t i = 0; i < A.size(); ++i) { auto row = dist(X[i], Y); CHECK(row.size() == B.size()); for (size_t j = 0; j < B.size(); ++j) { double w = refDist(m, A[i], B[j]); CHECKM(std::fabs((double)XY(i, j) - w) <= tol, metricName(m) << " distance of " << showPts({A[i], B[j]}) << " is " << XY(i, j) << " expected " << w); CHECKM((T)dist(X[i], Y[j]) == XY(i, j) && (T)dist.dist(X[i], Y[j]) == XY(i, j) && row[j] == XY(i, j), "distance forms disagree"); CHECKM(std::fabs((double)YX(j, i) - (double)XY(i, j)) <= tol * 1e-3, "distance is not symmetric"); } }
    double renc = 1e300; for (size_t i = 0; i < A.size(); ++i) { double r = 0; for (size_t j = 0; j < A.size(); ++j) { double w = refDist(m, A[i], A[j]); CHECKM(std::fabs((double)XX(i, j) - w) <= tol, metricName(m) << " pairwise distance " << i << "," << j); if (i == j) CHECKM(std::fabs((double)XX(i, i)) <= tol, "distance of a point to itself is " << XX(i, i)); CHECK(XX(i, j) >= 0); r = std::max(r, (double)XX(i, j)); } renc = std::min(renc, r); } if (A.size()) CHECKM((double)bats::enclosing_radius(XX) == renc, "enclosing radius is " << bats::enclosing_radius(XX) << " expected " << renc); (void)s;
    if (m < 3 || m >= 5) for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) for (size_t k = 0; k < A.size(); ++k) CHECKM((double)XX(i, k) <= (double)XX(i, j) + (double)XX(j, k) + 3 * tol, "triangle inequality");
}
PROP(metrics, "point sets in 1 to 5 dimensions (coincident, antipodal and parallel points), 7 metrics, double and float: every call form equals the formula, symmetric, zero on the diagonal, triangle inequality where it is a metric, enclosing radius; non-trivial: two different points and dimension at least 2", 10000, 100000) {
    int m = (int)s.draw(6); size_t d = bigN(s, 1, 5, 30, 60), n = bigN(s, 1, 5, 30, 100), k = bigN(s, 0, 4, 30, 100); s.note << metricName(m) << " "; auto A = genPts(s, n, d, m >= 3), B = genPts(s, k, d, m >= 3); if (s.coin(1, 3)) for (auto& p : B) { p = s.pick(A); double c = s.coin() ? -1 : 2; for (auto& x : p) x *= c; }
    withMetric(m, [&](auto dist) { if (s.coin(2, 3)) metricCase<double>(s, dist, m, A, B, d); else { auto f = [](Pts p) { for (auto& x : p) for (auto& c : x) c = (double)(float)c; return p; }; metricCase<float>(s, dist, m, f(A), f(B), d); } }); bool nt = false; for (auto& a : A) for (auto& b : A) nt |= a != b; s.nontrivial(nt && d > 1);
}
static Pts rowsOf(const bats::DataSet<double>& L, size_t d) { Pts p; for (size_t i = 0; i < L.size(); ++i) { p.emplace_back(); for (size_t j = 0; j < d; ++j) p.back().push_back(L(i, j)); } return p; }
static void greedyOrder(const Pts& D, const std::vector<size_t>& ind, const std::vector<double>& h, size_t i0, size_t k, const char* w) {
    size_t n = D.size(); CHECKM(ind.size() == k && h.size() == k, w << ": " << ind.size() << " landmarks and " << h.size() << " radii, expected " << k); CHECK(ind[0] == i0); std::set<size_t> L; std::vector<double> d(n, 1e300);
    for (size_t q = 0; q < k; ++q) { CHECK(ind[q] < n); CHECKM(L.insert(ind[q]).second, w << ": point " << ind[q] << " is chosen twice"); double mx = 0; for (size_t i = 0; i < n; ++i) if (!L.count(i) || i == ind[q]) mx = std::max(mx, d[i]); if (q) CHECKM(d[ind[q]] >= mx - 1e-9, w << ": landmark " << q << " is at distance " << d[ind[q]] << " of the earlier ones, another point at " << mx); double cov = 0; for (size_t i = 0; i < n; ++i) { d[i] = std::min(d[i], D[ind[q]][i]); cov = std::max(cov, L.count(i) ? 0 : d[i]); } CHECKM(std::fabs(h[q] - cov) <= 1e-9 + (cov < 1e-6 ? 1e-6 : 0), w << ": radius after " << q + 1 << " landmarks is " << h[q] << " expected " << cov); }
}
// some sequence of farthest choices from i0 until stop(size, covering radius) selects exactly these rows
static bool greedyPossible(const Pts& D, const Pts& P, size_t i0, std::multiset<std::vector<double>> want, std::function<bool(size_t, double)> stop) {
    size_t n = D.size(); std::set<std::set<size_t>> seen; std::function<bool(std::set<size_t>)> go = [&](std::set<size_t> L) { if (!seen.insert(L).second) return false; std::vector<double> d(n, 0); double mx = 0, mu = -1; for (size_t i = 0; i < n; ++i) { double v = 1e300; for (auto j : L) v = std::min(v, D[j][i]); d[i] = v; mx = std::max(mx, L.count(i) ? 0 : v); if (!L.count(i)) mu = std::max(mu, v); } if (stop(L.size(), mx) || L.size() == n) { std::multiset<std::vector<double>> g; for (auto i : L) g.insert(P[i]); return g == want; } for (size_t i = 0; i < n; ++i) if (!L.count(i) && d[i] >= mu - 1e-9 && want.count(P[i])) { auto t = L; t.insert(i); if (go(t)) return true; } return false; };
    return go({i0});
}
PROP(landmarks, "1 to 8 points with ties and duplicates, any metric, any seed point, any number of landmarks: distinct landmarks, each farthest from those before, radii equal to the covering radii (dataset and distance-matrix forms), landmark subsets by number and by radius, the approximate centre; non-trivial: more landmarks than distinct points or at least 3 landmarks with a tie", 6000, 80000) {
    int m = (int)s.draw(6); size_t n = bigN(s, 1, 8, 40), d = s.range(1, 3); s.note << metricName(m) << " "; auto P = genPts(s, n, d, m >= 3); if (n > 8) { for (auto& p : P) for (auto& x : p) x = (double)(2 * s.range(-50000, 50000) + 1) / 257.0; s.note << " = " << showPts(P); } /* no ties: the search below is over all tied choices */ else if (n > 1 && s.coin(1, 3)) P[s.range(0, n - 1)] = P[s.range(0, n - 1)]; size_t i0 = s.range(0, n - 1), k = s.range(1, n); s.note << " seed " << i0 << " k " << k; Pts D(n, std::vector<double>(n)); auto X = dataOf<double>(P, d); std::set<std::vector<double>> dist_(P.begin(), P.end());
    withMetric(m, [&](auto dist) { auto XX = dist(X); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D[i][j] = XX(i, j);
        { auto [i, h] = bats::greedy_landmarks_hausdorff(X, dist, i0); greedyOrder(D, i, h, i0, n, "all points"); CHECK(h.back() == 0); } { auto [i, h] = bats::greedy_landmarks_hausdorff(XX, i0); greedyOrder(D, i, h, i0, n, "from matrix"); } { auto [i, h] = bats::greedy_landmarks_hausdorff(X, dist, i0, k); greedyOrder(D, i, h, i0, k, "first k"); } { auto [i, h] = bats::greedy_landmarks_hausdorff(X, dist); greedyOrder(D, i, h, 0, n, "default seed"); } { auto [i, h] = bats::greedy_landmarks_hausdorff(XX); greedyOrder(D, i, h, 0, n, "from matrix, default seed"); }
        auto L = rowsOf(bats::greedy_landmarks(X, k, dist, i0), d); CHECKM(L.size() == k, "greedy_landmarks returned " << L.size() << " points"); CHECKM(greedyPossible(D, P, i0, {L.begin(), L.end()}, [&](size_t z, double) { return z >= k; }), "greedy_landmarks " << showPts(L) << " is not a sequence of farthest points");
        std::vector<double> v; for (auto& r : D) for (auto x : r) v.push_back(x); double r = s.coin() ? s.pick(v) * 0.75 + 1e-5 : s.pick(v) + 1e-5; auto Hd = rowsOf(bats::hausdorff_landmarks(X, r, dist, i0), d); CHECKM(greedyPossible(D, P, i0, {Hd.begin(), Hd.end()}, [&](size_t, double c) { return c <= r; }), "hausdorff_landmarks " << showPts(Hd) << " for radius " << r);
        auto R = rowsOf(bats::random_landmarks(X, k), d); std::multiset<std::vector<double>> all(P.begin(), P.end()); CHECK(R.size() == k); for (auto& q : R) { auto it = all.find(q); CHECKM(it != all.end(), "random landmark " << showPts({q}) << " is not a remaining point"); all.erase(it); }
        { size_t kk = s.range(0, 3), c = bats::approx_center(X, dist, kk, i0); CHECK(c < n); // landmarks of farthest choices; some choice must make c a minimiser of the largest distance
          double sc = m < 3 ? 0 : 1; if (m < 3) for (auto& r : D) for (auto q : r) sc = std::max(sc, std::min(1.0, (double)q)); size_t steps = kk ? kk : d + 1; bool ok = false; std::set<std::set<size_t>> seen; std::function<void(std::set<size_t>, size_t)> go = [&](std::set<size_t> L, size_t q) { if (ok) return; std::vector<double> mn(n, 1e300), mx(n, 0); for (size_t i = 0; i < n; ++i) for (auto j : L) { mn[i] = std::min(mn[i], D[j][i]); mx[i] = std::max(mx[i], D[j][i]); } double far = *std::max_element(mn.begin(), mn.end()); if (q == steps || far <= 1e-7 * sc) { ok = mx[c] <= *std::min_element(mx.begin(), mx.end()) + 1e-9 * sc; return; } if (!seen.insert(L).second) return; for (size_t i = 0; i < n; ++i) if (mn[i] >= far - 1e-9 * sc) { auto t = L; t.insert(i); go(t, q + 1); } }; go({i0}, 0); CHECKM(ok, "approx_center " << c << " with k " << kk); } });
    bool tie = false; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t q = j + 1; q < n; ++q) tie |= D[i][j] == D[i][q] || D[i][j] == D[j][q]; s.nontrivial(k > dist_.size() || (k >= 3 && tie));
}
// k nearest: k distinct indices, none farther than an omitted one
static void kNearest(const std::vector<double>& d, const std::vector<size_t>& g, size_t k, bool sorted) { CHECKM(g.size() == k, "asked for " << k << " neighbours, got " << g.size()); std::set<size_t> u; double mx = -1; for (auto i : g) { CHECK(i < d.size()); CHECKM(u.insert(i).second, "neighbour " << i << " twice"); if (sorted) CHECK(d[i] >= mx); mx = std::max(mx, d[i]); } for (size_t i = 0; i < d.size(); ++i) if (!u.count(i)) CHECKM(d[i] >= mx, "point " << i << " at distance " << d[i] << " is left out for one at " << mx); }
PROP(neighbours, "two point sets of 0 to 8 points, any metric, radii on and off the distances, every k, 1 to 4 threads: points within the radius, k nearest points with no closer one left out, columns within eps of rows of a matrix; non-trivial: some but not all points are neighbours", 6000, 80000) {
    Threads th(s); int m = (int)s.draw(6); size_t n = bigN(s, 1, 8, 40), k = bigN(s, 1, 8, 30), d = s.range(1, 3); s.note << metricName(m) << " "; auto A = genPts(s, n, d, m >= 3), B = genPts(s, k, d, m >= 3); auto X = dataOf<double>(A, d), Y = dataOf<double>(B, d); bool nt = false;
    withMetric(m, [&](auto dist) { auto XY = dist(X, Y); Pts D(n, std::vector<double>(k)); std::vector<double> v; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) { D[i][j] = XY(i, j); v.push_back(D[i][j]); } double r = s.coin(1, 4) ? s.pick(v) : (s.pick(v) + s.pick(v)) / 2; s.note << " r " << r; auto N = bats::neighborhoods(X, Y, dist, r); CHECKM(N.size() == n, "neighbourhoods of " << n << " points has " << N.size() << " entries");
        for (size_t i = 0; i < n; ++i) { auto one = bats::neighborhood(X[i], Y, dist, r); CHECK(one == N[i]); CHECK(std::is_sorted(one.begin(), one.end())); std::set<size_t> g(N[i].begin(), N[i].end()); CHECK(g.size() == N[i].size()); for (size_t j = 0; j < k; ++j) { if (D[i][j] == r) continue; CHECKM(g.count(j) == (D[i][j] < r), "point " << j << " at distance " << D[i][j] << " from " << i << ", radius " << r); } nt |= g.size() && g.size() < k; }
        size_t kk = s.range(0, k); auto K = bats::neighborhoods(X, Y, dist, kk); CHECK(K.size() == n); for (size_t i = 0; i < n; ++i) { kNearest(D[i], K[i], kk, true); kNearest(D[i], bats::neighborhood(X[i], Y, dist, kk), kk, true); }
        auto Mx = bats::neighborhoods(XY, r); CHECK(Mx.size() == n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) CHECK(Mx[i].count(j) == (D[i][j] <= r)); for (auto& q : Mx) for (auto j : q) CHECK(j < k); }); s.nontrivial(nt);
}
template <class T> void intervalCase(const std::vector<T>& x, size_t ns, bool& nt) {
    auto c = bats::uniform_interval_cover(x, ns); CHECKM(c.size() == ns, "cover has " << c.size() << " sets"); double lo = (double)*std::min_element(x.begin(), x.end()), hi = (double)*std::max_element(x.begin(), x.end()), w = (hi - lo) * 2 / (double)ns; for (auto& q : c) for (auto i : q) CHECK(i < x.size());
    for (size_t i = 0; i < x.size(); ++i) { bool any = false; for (size_t b = 0; b < ns; ++b) { any |= c[b].count(i) > 0; if (!(w > 0)) continue; double off = ((double)x[i] - lo) / w - (double)b / 2; double tol = std::is_same<T, float>::value ? 1e-5 : 1e-9; if (std::fabs(off) < tol || std::fabs(off - 1) < tol) { if (!(std::is_integral<T>::value && (ns & (ns - 1)) == 0 && std::floor(w) == w)) continue; } CHECKM(c[b].count(i) == (off >= 0 && off < 1), "value " << x[i] << " and set " << b << " = [" << lo + (double)b * w / 2 << "," << lo + (double)b * w / 2 + w << ")"); nt |= c[b].count(i) && b && b + 1 < ns; } CHECKM(any, "value " << x[i] << " is in no set of the cover"); }
}
PROP(interval_cover, "1 to 12 values (double, float, int; ties, constant data, negative values) and 1 to 9 intervals: every value in some set and sets are the half-overlapping intervals of the range; non-trivial: a value inside an inner set", 10000, 150000) {
    size_t n = bigN(s, 1, 12, 60), ns = bigN(s, 1, 9, 30); int ty = (int)s.draw(2); long sp = s.range(0, 20); double sc = ty == 2 ? 1 : s.coin(1, 8) ? (ty == 0 ? s.pick(std::vector<double>{1e-12, 1e12}) : s.pick(std::vector<double>{1e-4, 1e6})) : s.coin() ? 1 : 0.37; std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(sc * (double)s.range(-sp, sp)); s.note << ns << " sets of type " << ty << " " << pbt::show(v); bool nt = false;
    if (ty == 0) intervalCase(v, ns, nt); else if (ty == 1) intervalCase(std::vector<float>(v.begin(), v.end()), ns, nt); else intervalCase(std::vector<int>(v.begin(), v.end()), ns, nt); s.nontrivial(nt);
}
PROP(landmark_covers, "points and landmarks with ties, any metric, k from 1 to all landmarks, eps from 0: each point in the sets of its k nearest landmarks, and in those of all landmarks within eps of the nearest distance, every point covered; non-trivial: eps gives some point two but not all landmarks", 8000, 100000) {
    Threads th(s); int m = (int)s.draw(6); size_t n = bigN(s, 1, 8, 30), k = bigN(s, 1, 5, 20), d = s.range(1, 3); s.note << metricName(m) << " "; auto A = genPts(s, n, d, m >= 3), B = genPts(s, k, d, m >= 3); auto X = dataOf<double>(A, d), Y = dataOf<double>(B, d); bool nt = false;
    withMetric(m, [&](auto dist) { auto XY = dist(X, Y); Pts D(n, std::vector<double>(k)); std::vector<double> diff; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < k; ++j) D[i][j] = XY(i, j); double mn = *std::min_element(D[i].begin(), D[i].end()); for (auto x : D[i]) diff.push_back(x - mn); } size_t kk = s.range(1, k); auto C = bats::landmark_cover(X, Y, dist, kk); CHECK(C.size() == k); for (auto& q : C) for (auto i : q) CHECK(i < n); for (size_t i = 0; i < n; ++i) { std::vector<size_t> g; for (size_t j = 0; j < k; ++j) if (C[j].count(i)) g.push_back(j); kNearest(D[i], g, kk, false); }
        double eps = s.coin(1, 3) ? 0 : s.coin() ? s.pick(diff) : (s.pick(diff) + s.pick(diff)) / 2; s.note << " eps " << eps; auto E_ = bats::landmark_eps_cover(X, Y, dist, eps); CHECK(E_.size() == k); for (auto& q : E_) for (auto i : q) CHECK(i < n); for (size_t i = 0; i < n; ++i) { double mn = *std::min_element(D[i].begin(), D[i].end()); size_t c = 0; for (size_t j = 0; j < k; ++j) { c += E_[j].count(i); if (D[i][j] != mn && std::fabs(D[i][j] - mn - eps) < 1e-9) continue; CHECKM(E_[j].count(i) == (D[i][j] <= mn + eps), "point " << i << " at distance " << D[i][j] << " from landmark " << j << ", nearest " << mn << ", eps " << eps); } CHECKM(c, "point " << i << " is in no set of the cover"); nt |= c > 1 && c < k; } }); s.nontrivial(nt);
}
PROP(bivariate, "two covers of up to 9 points (empty sets included): exactly the non-empty intersections with the pair of sets each comes from, covering when both cover; non-trivial: an empty intersection and two different non-empty ones", 10000, 150000) {
    size_t n = bigN(s, 1, 9, 40); auto gc = [&] { Cov c(s.range(0, 4)); for (auto& q : c) { auto t = s.subset(n, 1, 2); q.insert(t.begin(), t.end()); s.note << pbt::show(q); } s.note << " | "; return c; }; Cov a = gc(), b = gc(); auto [c, f1, f2] = bats::bivariate_cover(a, b); CHECK(f1.size() == c.size() && f2.size() == c.size()); std::map<std::pair<size_t, size_t>, std::set<size_t>> want, got; size_t empty = 0;
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { std::set<size_t> t; for (auto x : a[i]) if (b[j].count(x)) t.insert(x); if (t.empty()) ++empty; else want[{i, j}] = t; } for (size_t q = 0; q < c.size(); ++q) CHECKM((got.emplace(std::make_pair(f1[q], f2[q]), c[q]).second), "pair of sets twice"); CHECKM(got == want, "intersections of the two covers: " << got.size() << " expected " << want.size()); std::set<std::set<size_t>> u; for (auto& p : want) u.insert(p.second); s.nontrivial(empty && u.size() > 1);
}
PROP(subsets, "rows of a data set chosen by set or list (repeated and unordered in lists), column projections: exactly the chosen rows in order; non-trivial: a proper subset of at least two rows", 8000, 80000) {
    size_t n = bigN(s, 1, 7, 30), d = bigN(s, 1, 4, 12); auto P = genPts(s, n, d); auto X = dataOf<double>(P, d); auto t = s.subset(n, 1, 2); std::set<size_t> S(t.begin(), t.end()); std::vector<size_t> L; size_t q = s.range(0, 6); for (size_t i = 0; i < q; ++i) L.push_back(s.range(0, n - 1)); s.note << pbt::show(S) << pbt::show(L); Pts a, b; for (auto i : S) a.push_back(P[i]); for (auto i : L) b.push_back(P[i]);
    auto g = bats::get_subset(X, S); CHECK(g.dim() == d); CHECKM(rowsOf(g, d) == a, "get_subset"); CHECKM(rowsOf(X[S], d) == a, "rows by set"); CHECKM(rowsOf(X[L], d) == b, "rows by list"); CHECK(rowsOf(X, d) == P); for (size_t j = 0; j < d; ++j) { auto c = bats::coordinate_projection(X, j); CHECK(c.size() == n); for (size_t i = 0; i < n; ++i) CHECK(c[i] == P[i][j]); } s.nontrivial(S.size() > 1 && S.size() < n);
}
PBT_MAIN("C31")
