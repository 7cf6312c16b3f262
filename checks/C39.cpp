// C39 sampling and transforming point clouds
#include "geomgen.hpp"
#include <random>
using pbt::Src; using namespace orc;
template <class T> std::vector<std::vector<T>> rows(bats::DataSet<T>& X) { std::vector<std::vector<T>> r(X.size(), std::vector<T>(X.dim())); for (size_t i = 0; i < X.size(); ++i) for (size_t j = 0; j < X.dim(); ++j) r[i][j] = X(i, j); return r; }
template <class T> std::vector<std::vector<T>> rowsM(bats::Matrix<T>& X) { std::vector<std::vector<T>> r(X.nrow(), std::vector<T>(X.ncol())); for (size_t i = 0; i < X.nrow(); ++i) for (size_t j = 0; j < X.ncol(); ++j) r[i][j] = X((int)i, (int)j); return r; }
template <class T> bool near(T a, double b, double scale = 1) { return std::fabs((double)a - b) <= (sizeof(T) == 4 ? 2e-4 : 1e-9) * (scale + std::fabs(b)); }
template <class G> void withT(Src& s, G g) { if (s.coin(1, 3)) g(float(0)); else g(double(0)); }
PROP(grids_and_circles, "intervals (1 to 30 points, any end points), circles (any radius), products of point sets and cylinders, double and float: equally spaced points from the first to the last value, points at equal angles at the radius, every pair of rows once in order; non-trivial: at least 2 points of each factor", 20000, 400000) {
    withT(s, [&](auto t) { using T = decltype(t); size_t n = s.range(1, 30), k = s.range(1, 12); T lo = s.anyint(40) / T(4), hi = s.anyint(40) / T(4), rad = s.range(0, 40) / T(8); s.note << "interval(" << lo << "," << hi << "," << n << ") circle(" << rad << "," << k << ")";
        auto I = bats::interval<T>(lo, hi, n); CHECKM(I.size() == n && I.dim() == 1, "shape of the interval"); double sc = std::fabs(lo) + std::fabs(hi) + 1;
        for (size_t i = 0; i < n; ++i) CHECKM(near<T>(I(i, 0), n == 1 ? (double)lo : lo + ((double)hi - lo) * i / (n - 1), sc), "interval point " << i << " is " << I(i, 0));
        auto C = bats::circle<T>(rad, k); CHECKM(C.size() == k && C.dim() == 2, "shape of the circle"); const double pi = std::acos(-1.0); for (size_t i = 0; i < k; ++i) CHECKM(near<T>(C(i, 0), rad * std::cos(2 * pi * i / k), rad) && near<T>(C(i, 1), rad * std::sin(2 * pi * i / k), rad), "circle point " << i << " is " << C(i, 0) << "," << C(i, 1));
        auto Z = bats::product_space(I, C); CHECKM(Z.size() == n * k && Z.dim() == 3, "shape of the product " << Z.size() << "x" << Z.dim()); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) CHECKM(Z(i * k + j, 0) == I(i, 0) && Z(i * k + j, 1) == C(j, 0) && Z(i * k + j, 2) == C(j, 1), "product point " << i * k + j);
        size_t a = s.range(0, 5), b = s.range(0, 5), da = s.range(1, 3), db = s.range(1, 3); Pts x = genPts(s, a, da), y = genPts(s, b, db); bats::DataSet<double> X(toBM(x, da)), Y(toBM(y, db)); auto W = bats::product_space(X, Y); CHECKM(W.size() == a * b && W.dim() == da + db, "shape of the product"); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) for (size_t q = 0; q < da + db; ++q) CHECKM(W(i * b + j, q) == (q < da ? x[i][q] : y[j][q - da]), "product of point sets at " << i << "," << j << "," << q);
        if (sizeof(T) == 8) { auto Q = bats::gen_cylinder(n, k, rad); CHECKM(Q.size() == n * k && Q.dim() == 3, "shape of the cylinder"); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) CHECKM(near<double>(Q(i * k + j, 0), n == 1 ? 0.0 : i / double(n - 1)) && near<double>(Q(i * k + j, 1), rad * std::cos(2 * pi * j / k), rad) && near<double>(Q(i * k + j, 2), rad * std::sin(2 * pi * j / k), rad), "cylinder point " << i << "," << j); Q.data.free(); }
        I.data.free(); C.data.free(); Z.data.free(); X.data.free(); Y.data.free(); W.data.free(); s.nontrivial(n >= 2 && k >= 2); });
}
PROP(samples, "spheres in up to 5 dimensions and cubes with 0 to 30 points and any seed, double and float: the asked number and dimension of points, on the unit sphere or in the unit cube, the same for the same seed, unseeded forms too; non-trivial: at least 2 points in dimension 2 or more, not all equal", 20000, 400000) {
    withT(s, [&](auto t) { using T = decltype(t); size_t n = s.range(0, 30), d = s.range(1, 5); unsigned seed = (unsigned)s.draw(1000000); bool unseeded = s.coin(1, 4); s.note << n << "x" << d << " seed " << seed;
        auto S = unseeded ? bats::sample_sphere<T>(d, n) : bats::sample_sphere<T>(d, n, seed); CHECKM(S.size() == n && S.dim() == d, "shape of the sphere sample " << S.size() << "x" << S.dim()); for (size_t i = 0; i < n; ++i) { double q = 0; for (size_t j = 0; j < d; ++j) q += (double)S(i, j) * S(i, j); CHECKM(near<T>(q, 1), "sphere point " << i << " has squared norm " << q); }
        auto C = unseeded ? bats::sample_cube<T>(d, n) : bats::sample_cube<T>(d, n, seed); CHECKM(C.size() == n && C.dim() == d, "shape of the cube sample"); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) CHECKM(C(i, j) >= 0 && C(i, j) <= 1, "cube coordinate " << C(i, j));
        auto r1 = rows<T>(S), r2 = rows<T>(C); bool diff = false; for (size_t i = 1; i < n; ++i) diff |= r2[i] != r2[0]; if (n >= 2 && d >= 2) CHECKM(diff, "all cube points are equal");
        if (n * d >= 8) { T lo = 1, hi = 0; for (auto& x : r2) for (auto v : x) { lo = std::min(lo, v); hi = std::max(hi, v); } CHECKM(lo < T(0.9) && hi > T(0.1), "cube sample concentrated in [" << lo << "," << hi << "]"); } // fails by chance with probability below 1e-7
        if (!unseeded) { auto S2 = bats::sample_sphere<T>(d, n, seed); auto C2 = bats::sample_cube<T>(d, n, seed); CHECKM(rows<T>(S2) == r1 && rows<T>(C2) == r2, "same seed, different sample"); S2.data.free(); C2.data.free(); }
        S.data.free(); C.data.free(); s.nontrivial(n >= 2 && d >= 2 && diff); });
}
PROP(noise, "normal and uniform noise added to data sets and matrices (any mean, deviation, range and seed): the same change for the same seed whatever the data, exactly the mean when the deviation is zero, inside the range when uniform, in place; non-trivial: at least 4 entries and a positive deviation", 20000, 400000) {
    size_t n = s.range(0, 6), d = s.range(1, 4); Pts x = genPts(s, n, d); double mu = s.anyint(20) / 2.0, sg = s.range(0, 8) / 4.0, lb = s.anyint(20) / 4.0, ub = lb + s.range(0, 12) / 4.0; unsigned seed = (unsigned)s.draw(1000000); s.note << " normal(" << mu << "," << sg << ") uniform(" << lb << "," << ub << ") seed " << seed;
    if (s.coin(1, 6)) sg = 0; bats::DataSet<double> X(toBM(x, d)), Z(bats::Matrix<double>(n, d)); auto same = [&](bats::DataSet<double>& a, bats::DataSet<double>& z, const char* w) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) CHECKM(std::fabs(a(i, j) - x[i][j] - z(i, j)) <= 1e-9 * (1 + std::fabs(x[i][j]) + std::fabs(z(i, j))), w << ": change at " << i << "," << j << " is " << a(i, j) - x[i][j] << " and " << z(i, j) << " for zero data"); };
    auto put = [&] { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) { X(i, j) = x[i][j]; Z(i, j) = 0; } };
    if (sg > 0) { auto& r = bats::add_normal_noise(X, seed, mu, sg); CHECKM(&r == &X, "returns the data"); bats::add_normal_noise(Z.data, seed, mu, sg); same(X, Z, "normal noise"); double far = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) far = std::max(far, std::fabs(Z(i, j) - mu) / sg); CHECKM(far < 9, "noise " << far << " deviations from the mean");
        auto z1 = rows<double>(Z); put(); bats::add_normal_noise(Z, seed, 0.0, 1.0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) CHECKM(std::fabs(z1[i][j] - (mu + sg * Z(i, j))) < 1e-9 * (1 + std::fabs(mu) + sg * 10), "normal noise scales: " << z1[i][j] << " is not " << mu << "+" << sg << "*" << Z(i, j)); }
    put(); bats::add_uniform_noise(X.data, seed, lb, ub); bats::add_uniform_noise(Z.data, seed, lb, ub); same(X, Z, "uniform noise"); bool dif = false; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) { CHECKM(Z(i, j) >= lb && Z(i, j) <= ub, "uniform noise " << Z(i, j)); dif |= Z(i, j) != Z(0, 0); } CHECKM(n * d < 2 || ub == lb || dif, "uniform noise is constant");
    put(); bats::add_uniform_noise(Z, lb, ub); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) CHECKM(Z(i, j) >= lb && Z(i, j) <= ub, "unseeded uniform noise " << Z(i, j));
    put(); bats::add_uniform_noise(Z.data); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) CHECKM(Z(i, j) >= 0 && Z(i, j) <= 1, "default uniform noise " << Z(i, j));
    put(); if (sg > 0) { bats::add_normal_noise(Z, mu, sg); bats::add_normal_noise(X); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) CHECKM(std::fabs(Z(i, j) - mu) < 9 * sg && std::fabs(X(i, j) - x[i][j]) < 9, "unseeded normal noise"); }
    X.data.free(); Z.data.free(); s.nontrivial(n * d >= 4 && sg > 0);
}
PROP(projective, "1 to 7 points in dimension 1 to 5: normalising puts each point on the unit sphere in its direction; repulsion keeps points on the sphere, moves none further than the step, equals an independent computation and treats a point and its antipode alike; non-trivial: at least 3 points, some more than a right angle apart", 20000, 300000) {
    size_t n = s.range(1, 7), d = s.range(1, 5); Pts x(n, std::vector<double>(d)); for (auto& p : x) for (auto& c : p) c = s.range(-999, 999) / 500.0; for (auto& p : x) { double q = 0; for (auto c : p) q += c * c; if (q < 0.01) p[0] = 1; } s.note << showPts(x);
    bats::DataSet<double> X(toBM(x, d)); bats::normalize_entries(X); std::vector<std::vector<long double>> v(n, std::vector<long double>(d));
    for (size_t i = 0; i < n; ++i) { long double q = 0; for (auto c : x[i]) q += (long double)c * c; q = std::sqrt(q); for (size_t j = 0; j < d; ++j) { v[i][j] = x[i][j] / q; CHECKM(std::fabs(X(i, j) - (double)v[i][j]) < 1e-12, "normalised point " << i); } }
    auto ip = [&](size_t i, size_t j) { long double q = 0; for (size_t k = 0; k < d; ++k) q += v[i][k] * v[j][k]; return q; };
    bool far = false; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { long double c = ip(i, j); if (std::fabs(c) < 1e-3 || std::fabs(c) > 0.9995) throw pbt::Discard{}; far |= c < 0; } // orthogonal: either representative is nearest; coincident lines: infinite force
    double step = s.range(1, 40) / 80.0; bool flip = s.coin(); auto sg = s.subset(n); s.note << " step " << step; std::vector<double> sign(n, 1.0); if (flip) for (auto i : sg) { sign[i] = -1; for (size_t j = 0; j < d; ++j) X(i, j) = -X(i, j); }
    std::vector<std::vector<long double>> f(n, std::vector<long double>(d)), e = v; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (i != j) { long double g = ip(i, j) < 0 ? -1 : 1, q = 0; for (size_t k = 0; k < d; ++k) q += (v[j][k] - g * v[i][k]) * (v[j][k] - g * v[i][k]); q = q * std::sqrt(q); for (size_t k = 0; k < d; ++k) f[j][k] += (v[j][k] - g * v[i][k]) / q; }
    for (size_t j = 0; j < n; ++j) { long double c = 0, q = 0; for (size_t k = 0; k < d; ++k) c += v[j][k] * f[j][k]; for (size_t k = 0; k < d; ++k) { f[j][k] -= c * v[j][k]; q += f[j][k] * f[j][k]; } q = std::sqrt(q); long double r = q > step ? step / q : 1, m = 0; for (size_t k = 0; k < d; ++k) { e[j][k] = v[j][k] + r * f[j][k]; m += e[j][k] * e[j][k]; } for (auto& y : e[j]) y /= std::sqrt(m); }
    bats::force_repel_rp(X, step); CHECKM(X.size() == n && X.dim() == d, "shape");
    for (size_t i = 0; i < n; ++i) { double q = 0, m = 0; for (size_t k = 0; k < d; ++k) { q += X(i, k) * X(i, k); m += (X(i, k) - sign[i] * (double)v[i][k]) * (X(i, k) - sign[i] * (double)v[i][k]); } CHECKM(std::fabs(q - 1) < 1e-9, "point " << i << " left the sphere"); CHECKM(std::sqrt(m) <= step + 1e-9, "point " << i << " moved by " << std::sqrt(m)); for (size_t k = 0; k < d; ++k) CHECKM(std::fabs(sign[i] * X(i, k) - (double)e[i][k]) < 1e-6, "point " << i << " coordinate " << k << " is " << sign[i] * X(i, k) << " expected " << (double)e[i][k]); }
    X.data.free(); s.nontrivial(n >= 3 && far);
}
PROP(density, "1 to 9 points with ties and duplicates, every metric and every k below the number of points: the k-th smallest distance of each point to all points (itself first); non-trivial: at least 3 different values", 10000, 200000) {
    int m = s.draw(6); size_t n = s.range(1, 9), d = s.range(1, 3); Pts x = genPts(s, n, d, m >= 3); size_t k = s.draw(n - 1); s.note << metricName(m) << " k=" << k; bats::DataSet<double> X(toBM(x, d)); std::set<double> vals;
    withMetric(m, [&](auto dist) { auto r = bats::kdist(X, dist, k); CHECKEQ(r.size(), n); for (size_t i = 0; i < n; ++i) { std::vector<double> v; for (size_t j = 0; j < n; ++j) v.push_back(refDist(m, x[i], x[j])); std::sort(v.begin(), v.end()); CHECKM(std::fabs(r[i] - v[k]) <= std::max(1e-7, metricTol(m)) * (1 + v[k]), "density radius of point " << i << " is " << r[i] << " expected " << v[k]); vals.insert(r[i]); } }); X.data.free(); s.nontrivial(vals.size() >= 3);
}
template <int P> void randomSparse(Src& s) {
    size_t m = s.range(0, 12), n = s.range(0, 8); int mode = s.draw(3); double p = mode == 0 ? 0.0 : mode == 1 ? 1.0 : s.range(1, 9) / 10.0; int mx = s.range(1, 12); std::default_random_engine g((unsigned)s.draw(100000)), g2 = g; s.note << "F" << P << " " << m << "x" << n << " p=" << p << " max " << mx;
    auto A = M<P>::random(m, n, p, mx, g), B = M<P>::random(m, n, p, mx, g2); DM<P> a = matOf<P>(A, "random matrix"); CHECKM(a.m == m && a.n == n, "shape"); CHECKM(A == B, "same generator state, different matrix"); size_t nz = 0; std::set<std::string> vs; for (auto& r : a.a) for (auto& v : r) if (!v.zero()) { ++nz; bool in = false; for (int k = 1; k <= mx; ++k) in |= v == Z<P>(k); CHECKM(in, "value " << v << " is not one of 1.." << mx); }
    if (p == 0) CHECKM(nz == 0, "density zero"); if (p == 1 && (P == 0 || mx < P)) CHECKM(nz == m * n, "density one leaves out entries"); auto v = V<P>::random(m, p, mx, g); vecOf<P>(v, m, "random vector"); if (s.coin(1, 4)) { auto C = M<P>::random(m, n, p, mx); matOf<P>(C, "unseeded random matrix"); } s.nontrivial(nz >= 2 && nz < m * n);
}
PROP(random_matrices, "random sparse matrices and vectors of any shape, density and largest value (also beyond the characteristic) over F2, F3, F5, Q: valid sparse matrices without stored zeros, values in range, the same for the same generator, empty at density zero and full at density one; non-trivial: some but not all entries", 30000, 600000) {
    switch (s.draw(3)) { case 0: randomSparse<2>(s); break; case 1: randomSparse<3>(s); break; case 2: randomSparse<5>(s); break; default: randomSparse<0>(s); }
}
PBT_MAIN("C39")
