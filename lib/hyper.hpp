#ifndef VERIF_HYPER_HPP
#define VERIF_HYPER_HPP
/*
 * Reference first and second derivatives of a prog::Prog, independent of CppAD
 * and of CppADCodeGen: every value carries its gradient and its Hessian in long
 * double, plus the sums of the absolute values of all contributions (the size of
 * the error that rounding may cause is a small multiple of them).
 */
#include "prog.hpp"

namespace hyper {
typedef long double R;

struct Val {
    R v = 0, a = 0;              // value, magnitude
    std::vector<R> g, ga;        // gradient (n)
    std::vector<R> h, ha;        // Hessian (n*n)
    std::vector<char> s;         // structural dependency (n)
    std::vector<char> s2;        // structural nonzero of the Hessian (n*n), conservative
};

struct Ref {
    size_t n = 0, m = 0;
    std::vector<Val> y;
    bool good = true;
    double worst = 0;            // largest magnitude
};

inline Val constant(size_t n, R k) {
    Val r;
    r.v = k; r.a = fabsl(k);
    r.g.assign(n, 0); r.ga.assign(n, 0); r.h.assign(n * n, 0); r.ha.assign(n * n, 0);
    r.s.assign(n, 0); r.s2.assign(n * n, 0);
    return r;
}

/** f(a) with derivatives f1, f2 (magnitude bounds m1, m2) */
inline Val unary(const Val& a, R f, R f1, R f2, R m1, R m2) {
    size_t n = a.g.size();
    Val r = constant(n, f);
    r.a = fabsl(f) + m1 * a.a;
    for (size_t i = 0; i < n; ++i) {
        if (!a.s[i]) continue;
        r.s[i] = 1;
        r.g[i] = f1 * a.g[i];
        r.ga[i] = m1 * a.ga[i] + m2 * a.a * a.ga[i];
        for (size_t j = 0; j < n; ++j) {
            if (!a.s[j]) continue;
            size_t k = i * n + j;
            r.h[k] = f1 * a.h[k] + f2 * a.g[i] * a.g[j];
            r.ha[k] = m1 * a.ha[k] + m2 * (a.a * a.ha[k] + a.ga[i] * a.ga[j]) + m2 * a.a * a.ga[i] * a.ga[j];
            r.s2[k] = a.s2[k] || m2 != 0;
        }
    }
    return r;
}

inline Val add(const Val& a, const Val& b, R sg) {
    size_t n = a.g.size();
    Val r = constant(n, a.v + sg * b.v);
    r.a = a.a + b.a;
    for (size_t i = 0; i < n; ++i) {
        r.s[i] = a.s[i] || b.s[i];
        r.g[i] = a.g[i] + sg * b.g[i];
        r.ga[i] = a.ga[i] + b.ga[i];
    }
    for (size_t k = 0; k < n * n; ++k) {
        r.h[k] = a.h[k] + sg * b.h[k];
        r.ha[k] = a.ha[k] + b.ha[k];
        r.s2[k] = a.s2[k] || b.s2[k];
    }
    return r;
}

inline Val mul(const Val& a, const Val& b) {
    size_t n = a.g.size();
    Val r = constant(n, a.v * b.v);
    r.a = a.a * b.a;
    for (size_t i = 0; i < n; ++i) {
        r.s[i] = a.s[i] || b.s[i];
        r.g[i] = a.v * b.g[i] + b.v * a.g[i];
        r.ga[i] = a.a * b.ga[i] + b.a * a.ga[i];
        for (size_t j = 0; j < n; ++j) {
            size_t k = i * n + j;
            r.h[k] = a.v * b.h[k] + b.v * a.h[k] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
            r.ha[k] = a.a * b.ha[k] + b.a * a.ha[k] + a.ga[i] * b.ga[j] + a.ga[j] * b.ga[i];
            r.s2[k] = a.s2[k] || b.s2[k] || (a.s[i] && b.s[j]) || (a.s[j] && b.s[i]);
        }
    }
    return r;
}
inline Val inv(const Val& b) {
    R t = 1 / b.v;
    return unary(b, t, -t * t, 2 * t * t * t, t * t, 2 * fabsl(t * t * t));
}
inline Val expv(const Val& a) { R e = expl(a.v); return unary(a, e, e, e, e, e); }
inline Val logv(const Val& a) { R t = 1 / a.v; return unary(a, logl(a.v), t, -t * t, fabsl(t), t * t); }

inline Val apply(const prog::Ins& s, const std::vector<Val>& w, size_t n) {
    using namespace prog;
    if (s.op == CONST) return constant(n, s.k);
    const Val& a = w[s.a];
    const Val& b = w[s.b];
    R x = a.v;
    const R PI = 3.14159265358979323846264338327950288L;
    auto U = [&](R f, R f1, R f2) { return unary(a, f, f1, f2, fabsl(f1), fabsl(f2)); };
    switch (s.op) {
        case ADD: case ADDEQ: return add(a, b, 1);
        case SUB: case SUBEQ: return add(a, b, -1);
        case MUL: case MULEQ: return mul(a, b);
        case DIV: case DIVEQ: return mul(a, inv(b));
        case NEG: return U(-x, -1, 0);
        case ALIAS: return a;
        case SIN: return unary(a, sinl(x), cosl(x), -sinl(x), 1, 1);
        case COS: return unary(a, cosl(x), -sinl(x), -cosl(x), 1, 1);
        case TAN: { R t = tanl(x), q = 1 + t * t; return U(t, q, 2 * t * q); }
        case ASIN: { R q = 1 / sqrtl(1 - x * x); return U(asinl(x), q, x * q * q * q); }
        case ACOS: { R q = 1 / sqrtl(1 - x * x); return U(acosl(x), -q, -x * q * q * q); }
        case ATAN: { R q = 1 / (1 + x * x); return U(atanl(x), q, -2 * x * q * q); }
        case SINH: return unary(a, sinhl(x), coshl(x), sinhl(x), coshl(x), coshl(x));
        case COSH: return unary(a, coshl(x), sinhl(x), coshl(x), coshl(x), coshl(x));
        case TANH: { R t = tanhl(x), q = 1 - t * t; return unary(a, t, q, -2 * t * q, 1, 1); }
        case ASINH: { R q = 1 / sqrtl(1 + x * x); return U(asinhl(x), q, -x * q * q * q); }
        case ACOSH: { R q = 1 / sqrtl(x * x - 1); return U(acoshl(x), q, -x * q * q * q); }
        case ATANH: { R q = 1 / (1 - x * x); return U(atanhl(x), q, 2 * x * q * q); }
        case EXP: return expv(a);
        case EXPM1: { R e = expl(x); return U(expm1l(x), e, e); }
        case LOG: return logv(a);
        case LOG1P: { R t = 1 / (1 + x); return U(log1pl(x), t, -t * t); }
        case LOG10: { R t = 1 / x, q = 1 / logl(10.0L); return U(log10l(x), q * t, -q * t * t); }
        case SQRT: { R q = sqrtl(x); return U(q, 0.5L / q, -0.25L / (x * q)); }
        case ERF: { R q = 2 / sqrtl(PI) * expl(-x * x); return unary(a, erfl(x), q, -2 * x * q, 1.2, 1.2); }
        case ERFC: { R q = 2 / sqrtl(PI) * expl(-x * x); return unary(a, erfcl(x), -q, 2 * x * q, 1.2, 1.2); }
        case ABS: return U(fabsl(x), x > 0 ? 1 : -1, 0);
        case SIGN: { Val r = constant(n, x > 0 ? 1 : x < 0 ? -1 : 0); r.s = a.s; return r; }
        case POWI: {
            R k = s.k;
            return U(powl(x, k), k == 0 ? 0 : k * powl(x, k - 1), (k == 0 || k == 1) ? 0 : k * (k - 1) * powl(x, k - 2));
        }
        case POW: return expv(mul(b, logv(a)));
        case COND: {
            bool q = s.cmp == LT ? a.v < b.v : s.cmp == LE ? a.v <= b.v : s.cmp == EQ ? a.v == b.v : s.cmp == GE ? a.v >= b.v :
                     s.cmp == GT ? a.v > b.v : a.v != b.v;
            Val r = q ? w[s.c] : w[s.d];
            const Val& o = q ? w[s.d] : w[s.c];
            for (size_t i = 0; i < n; ++i) r.s[i] = r.s[i] || o.s[i];
            for (size_t k = 0; k < n * n; ++k) r.s2[k] = r.s2[k] || o.s2[k];
            return r;
        }
        default: throw std::logic_error("op");
    }
}

template<class V>
Ref eval(const prog::Prog& p, const V& x) {
    std::vector<Val> w;
    w.reserve(p.n + p.ins.size());
    for (size_t i = 0; i < p.n; ++i) {
        Val a = constant(p.n, x[i]);
        a.g[i] = a.ga[i] = 1;
        a.s[i] = 1;
        w.push_back(a);
    }
    for (const auto& s : p.ins) w.push_back(apply(s, w, p.n));
    Ref r;
    r.n = p.n;
    r.m = p.m();
    for (int d : p.deps) {
        r.y.push_back(w[d]);
        const Val& v = w[d];
        double t = (double) v.a;
        for (R e : v.ga) t = std::max(t, (double) e);
        for (R e : v.ha) t = std::max(t, (double) e);
        if (!std::isfinite(t)) t = 1e300;
        r.worst = std::max(r.worst, t);
    }
    return r;
}

}
#endif
