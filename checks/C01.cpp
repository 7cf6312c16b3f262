// C01 field arithmetic
#include "oracle.hpp"
using pbt::Src;

static long imod(long a, long p) { return ((a % p) + p) % p; }
static int genInt(Src& s) {
    switch (s.draw(3)) {
        case 0: return (int)s.anyint(10);
        case 1: return (int)s.anyint(5000);
        case 2: { static const int x[] = {INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 46341, -46341, 65536, -65536}; return x[s.draw(7)]; }
        default: return (int)(uint32_t)s.draw(UINT32_MAX);
    }
}
static long inverse(long a, long p) { for (long b = 1; b < p; ++b) if (a * b % p == 1) return b; return -1; }

template <unsigned P> void modp(Src& s) {
    using T = ModP<int, P>;
    s.note << "P=" << P << " ";
    T x[3]; long m[3] = {0, 0, 0};
    for (int i = 0; i < 3; ++i) { int v = genInt(s); s.note << v << " "; x[i] = T(v); m[i] = imod(v, P); }
    auto agree = [&](const char* op) {
        for (int i = 0; i < 3; ++i) {
            CHECKM(x[i].to_int() == m[i], op << ": variable " << i << " is " << x[i].to_int() << ", expected " << m[i] << " mod " << P);
            CHECKM(x[i].iszero() == (m[i] == 0), op << ": iszero");
            std::ostringstream o; const T& cx = x[i]; o << cx; CHECKM(o.str() == std::to_string(m[i]), op << ": printed " << o.str() << " expected " << m[i]);
            for (int j = 0; j < 3; ++j) {
                CHECKM((x[i] == x[j]) == (m[i] == m[j]), op << ": == of " << m[i] << "," << m[j]);
                CHECKM((x[i] != x[j]) == (m[i] != m[j]), op << ": != of " << m[i] << "," << m[j]);
                CHECKM((x[i] < x[j]) == (m[i] < m[j]), op << ": < of " << m[i] << "," << m[j]);
            }
        }
    };
    agree("construct");
    long steps = s.sized(1, 14); bool div = false, z = false;
    for (long t = 0; t < steps; ++t) {
        int a = s.draw(2), b = s.draw(2), c = s.draw(2), op = s.draw(13);
        s.note << "; op" << op << "(" << a << b << c << ")";
        bool same = s.coin(1, 3); const T yc = x[b], wc = x[c], &y = same ? x[b] : yc, &w = same ? x[c] : wc; /* operands may be the variable assigned to */ if (same) s.note << "r";
        switch (op) {
            case 0: x[a] = y + w; m[a] = imod(m[b] + m[c], P); break;
            case 1: x[a] = y - w; m[a] = imod(m[b] - m[c], P); break;
            case 2: x[a] = y * w; m[a] = imod(m[b] * m[c], P); break;
            case 3: { long mb = m[b], mc = m[c];
                if (mc == 0) { z = true; CHECKM(pbt::throws([&] { T q = y / w; (void)q; }), "division by zero returned a value"); }
                else { x[a] = y / w; m[a] = imod(mb * inverse(mc, P), P); div = true; } break; }
            case 4: { T q = y; x[a] = -q; m[a] = imod(-m[b], P); break; }
            case 5: if (m[b] == 0) { z = true; CHECKM(pbt::throws([&] { T q = y.inv(); (void)q; }), "inverse of zero returned a value"); }
                else { x[a] = y.inv(); m[a] = inverse(m[b], P); div = true; } break;
            case 6: x[a] += w; m[a] = imod(m[a] + m[c], P); break;
            case 7: x[a] -= w; m[a] = imod(m[a] - m[c], P); break;
            case 8: x[a] *= w; m[a] = imod(m[a] * m[c], P); break;
            case 9: if (m[c] == 0) { z = true; CHECKM(pbt::throws([&] { T q = y; q /= w; }), "compound division by zero returned a value"); }
                else { long mc = m[c]; x[a] /= w; m[a] = imod(m[a] * inverse(mc, P), P); div = true; } break;
            case 10: { int k = genInt(s); s.note << "k=" << k; x[a] = T(k); m[a] = imod(k, P); break; }
            case 11: { int k = genInt(s); s.note << "k=" << k;
                CHECKM((y == k) == (m[b] == imod(k, P)), "== int: " << m[b] << " == " << k << " mod " << P);
                CHECKM((y != k) == (m[b] != imod(k, P)), "!= int: " << m[b] << " != " << k << " mod " << P); break; }
            case 12: { int k = genInt(s); s.note << "k=" << k; x[a] = k; m[a] = imod(k, P); break; }   // assignment from an int
            default: { int k = genInt(s); s.note << "k=" << k; x[a] = y + T(k) * w; m[a] = imod(m[b] + imod(k, P) * m[c], P); }
        }
        agree("after op");
    }
    if (div) s.label("division"); if (z) s.label("division-by-zero");
    s.nontrivial(steps >= 3);
}
PROP(modp_histories, "P in {2,3,5,7,11,13,101,32749}, three variables from arbitrary ints, 1-14 operations against integer arithmetic mod P; non-trivial: at least 3 operations", 3000000, 60000000) {
    switch (s.draw(7)) {
        case 0: modp<2>(s); break; case 1: modp<3>(s); break; case 2: modp<5>(s); break; case 3: modp<7>(s); break;
        case 4: modp<11>(s); break; case 5: modp<13>(s); break; case 6: modp<101>(s); break; default: modp<32749>(s); break;
    }
}

typedef __int128 i128;
struct Q { i128 n, d; };
static Q mk(i128 n, i128 d) { i128 g = orc::igcd(n, d); if (g) { n /= g; d /= g; } if (d < 0) { n = -n; d = -d; } return {n, d}; }
template <class I> void rational(Src& s, long lim) {
    using T = Rational<I>;
    CHECKM(T().iszero() && T() == T(0) && T() + T(1) == T(1), "default element"); { long v = s.anyint(lim); CHECKM(sgn((I)v) == (I)((v > 0) - (v < 0)) && sgn((I)0) == 0 && sgn((double)v / 4) == (v > 0) - (v < 0), "sign of " << v); }
    T x[3]; Q m[3];
    for (int i = 0; i < 3; ++i) {
        long n = s.anyint(lim), d = s.coin() ? s.range(1, std::min<long>(lim, 60)) : 1; if (s.coin(1, 4)) d = -d;
        s.note << n << "/" << d << " "; x[i] = d == 1 && s.coin() ? T((I)n) : T((I)n, (I)d); m[i] = mk(n, d);
    }
    auto agree = [&](const char* op) {
        for (int i = 0; i < 3; ++i) {
            std::ostringstream o, e; const T& cx = x[i]; o << cx; e << (long)m[i].n << "/" << (long)m[i].d;
            CHECKM(o.str() == e.str(), op << ": variable " << i << " is " << o.str() << ", expected " << e.str());
            CHECKM(x[i].iszero() == (m[i].n == 0), op << ": iszero");
            for (int j = 0; j < 3; ++j) {
                bool eq = m[i].n == m[j].n && m[i].d == m[j].d;
                CHECKM((x[i] == x[j]) == eq && (x[i] != x[j]) == !eq, op << ": equality");
                CHECKM((x[i] < x[j]) == (m[i].n * m[j].d < m[j].n * m[i].d), op << ": <");
            }
        }
    };
    agree("construct");
    long steps = s.sized(1, 12); bool frac = false;
    for (long t = 0; t < steps; ++t) {
        int a = s.draw(2), b = s.draw(2), c = s.draw(2), op = s.draw(11);
        s.note << "; op" << op << "(" << a << b << c << ")";
        bool same = s.coin(1, 3); const T yc = x[b], wc = x[c], &y = same ? x[b] : yc, &w = same ? x[c] : wc; if (same) s.note << "r"; Q qb = m[b], qc = m[c], qa = m[a], r = qa;
        // keep every intermediate product inside the integer type
        switch (op) {
            case 0: x[a] = y + w; r = mk(qb.n * qc.d + qc.n * qb.d, qb.d * qc.d); break;
            case 1: x[a] = y - w; r = mk(qb.n * qc.d - qc.n * qb.d, qb.d * qc.d); break;
            case 2: x[a] = y * w; r = mk(qb.n * qc.n, qb.d * qc.d); break;
            case 3: if (qc.n == 0) CHECKM(pbt::throws([&] { T q = y / w; (void)q; }), "division by zero returned a value");
                else { x[a] = y / w; r = mk(qb.n * qc.d, qb.d * qc.n); } break;
            case 4: x[a] = -y; r = mk(-qb.n, qb.d); break;
            case 5: if (qb.n == 0) CHECKM(pbt::throws([&] { T q = y.inv(); (void)q; }), "inverse of zero returned a value");
                else { x[a] = y.inv(); r = mk(qb.d, qb.n); } break;
            case 6: x[a] += w; r = mk(qa.n * qc.d + qc.n * qa.d, qa.d * qc.d); break;
            case 7: x[a] -= w; r = mk(qa.n * qc.d - qc.n * qa.d, qa.d * qc.d); break;
            case 8: x[a] *= w; r = mk(qa.n * qc.n, qa.d * qc.d); break;
            case 9: if (qc.n == 0) CHECKM(pbt::throws([&] { T q = y; q /= w; }), "compound division by zero returned a value");
                else { x[a] /= w; r = mk(qa.n * qc.d, qa.d * qc.n); } break;
            case 10: { long k = s.anyint(lim); CHECKM((y == (int)k) == (qb.n == k && qb.d == 1), "== int"); CHECKM((y != (int)k) == !(qb.n == k && qb.d == 1), "!= int"); break; }
            default: { long k = s.anyint(lim); x[a] = T((I)k); r = mk(k, 1); }
        }
        if (r.d != 1) frac = true;
        m[a] = r;
        i128 big = sizeof(I) == 4 ? 20000 : 1000000000, rn = r.n < 0 ? -r.n : r.n;
        if (rn > big || r.d > big) {   // exact, but later products could leave the integer type: check, then restart this variable
            std::ostringstream o, e; const T& cx = x[a]; o << cx; e << (long)r.n << "/" << (long)r.d;
            CHECKM(o.str() == e.str(), "after op: " << o.str() << " expected " << e.str());
            x[a] = T((I)1, (I)2); m[a] = mk(1, 2);
        }
        agree("after op");
    }
    s.nontrivial(steps >= 3 && frac);
}
PROP(rational_histories, "Rational over int / long / int64, operands kept inside the integer type, 1-12 operations against exact fractions; non-trivial: >=3 operations and a proper fraction occurred", 1000000, 20000000) {
    if (s.coin()) rational<int>(s, 1000); else rational<long>(s, 1000000);
}
// all pairs, exhaustively, for the small primes
template <unsigned P> void tables() {
    using T = ModP<int, P>; CHECKM(T().iszero() && T() == T(0) && T().to_int() == 0, "default element");
    for (int i = -3 * (int)P - 2; i <= 3 * (int)P + 2; ++i) {
        T x(i); CHECKEQ((long)x.to_int(), imod(i, P));
        for (int j = -3 * (int)P - 2; j <= 3 * (int)P + 2; ++j) {
            T y(j);
            CHECKM((long)(x + y).to_int() == imod(i + j, P), P << ":" << i << "+" << j);
            CHECKM((long)(x - y).to_int() == imod(i - j, P), P << ":" << i << "-" << j);
            CHECKM((long)(x * y).to_int() == imod((long)i * j, P), P << ":" << i << "*" << j);
            CHECKM((x == j) == (imod(i - j, P) == 0), P << ":" << i << "==" << j);
            CHECKM((x != j) == (imod(i - j, P) != 0), P << ":" << i << "!=" << j);
            if (imod(j, P)) { CHECKM(((x / y) * y) == x, P << ":" << i << "/" << j); CHECKM((y * y.inv()) == T(1), P << ": inv " << j); }
            else CHECKM(pbt::throws([&] { T q = x / y; (void)q; }), "no error dividing by zero");
        }
    }
}
PROP(small_tables, "exhaustive operation tables for P=2,3,5,7 on [-3P-2,3P+2]; always non-trivial", 1, 1) {
    s.nontrivial(); s.note << "tables P=2,3,5,7"; tables<2>(); tables<3>(); tables<5>(); tables<7>();
}
PBT_MAIN("C01")
