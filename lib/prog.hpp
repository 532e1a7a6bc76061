#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP
/*
 * Random straight-line programs, independent of CppADCodeGen: they are generated
 * together with a few evaluation points so that every intermediate result is
 * finite, moderate and away from the points where a function is not smooth.
 * A program can be evaluated with any scalar type.
 */
#include "pbt.hpp"
#include <array>

namespace prog {

enum Op {
    CONST, ADD, SUB, MUL, DIV, NEG, ADDEQ, SUBEQ, MULEQ, DIVEQ,
    SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH,
    EXP, EXPM1, LOG, LOG1P, LOG10, SQRT, ERF, ERFC, ABS, SIGN,
    POW, POWI, COND, ALIAS, NOPS
};
static const char* opName[] = {
    "const", "+", "-", "*", "/", "neg", "+=", "-=", "*=", "/=",
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
    "exp", "expm1", "log", "log1p", "log10", "sqrt", "erf", "erfc", "abs", "sign",
    "pow", "powi", "cond", "alias"
};
enum Cmp { LT, LE, EQ, GE, GT, NE };
static const char* cmpName[] = {"<", "<=", "==", ">=", ">", "!="};

struct Ins {
    Op op;
    int a = 0, b = 0, c = 0, d = 0;
    double k = 0;
    int cmp = 0;
};

struct Prog {
    size_t n = 0;
    std::vector<Ins> ins;
    std::vector<int> deps;
    size_t m() const { return deps.size(); }
    std::string ref(int i) const {
        if (i < (int) n) return "x" + std::to_string(i);
        return "v" + std::to_string(i);
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        o << "n=" << n << "; ";
        for (size_t i = 0; i < ins.size(); ++i) {
            const Ins& s = ins[i];
            o << "v" << n + i << "=";
            switch (s.op) {
                case CONST: o << s.k; break;
                case ADD: case SUB: case MUL: case DIV: o << ref(s.a) << opName[s.op] << ref(s.b); break;
                case ADDEQ: case SUBEQ: case MULEQ: case DIVEQ: o << "(" << ref(s.a) << " " << opName[s.op] << " " << ref(s.b) << ")"; break;
                case POW: o << "pow(" << ref(s.a) << "," << ref(s.b) << ")"; break;
                case POWI: o << "pow(" << ref(s.a) << "," << (int) s.k << ")"; break;
                case COND: o << "(" << ref(s.a) << cmpName[s.cmp] << ref(s.b) << "?" << ref(s.c) << ":" << ref(s.d) << ")"; break;
                default: o << opName[s.op] << "(" << ref(s.a) << ")";
            }
            o << "; ";
        }
        o << "y=[";
        for (size_t i = 0; i < deps.size(); ++i) o << (i ? "," : "") << ref(deps[i]);
        o << "]";
        return o.str();
    }
};

// ---- evaluation with any scalar ------------------------------------------
template<class T> inline T mkConst(double k) { return T(k); }

template<class T>
inline T condExp(int cmp, const T& a, const T& b, const T& c, const T& d) {
    using namespace CppAD;
    switch (cmp) {
        case LT: return CondExpLt(a, b, c, d);
        case LE: return CondExpLe(a, b, c, d);
        case EQ: return CondExpEq(a, b, c, d);
        case GE: return CondExpGe(a, b, c, d);
        case GT: return CondExpGt(a, b, c, d);
        default: // CppAD has no CondExpNe for AD: swap the cases
            return CondExpEq(a, b, d, c);
    }
}
inline double condExp(int cmp, const double& a, const double& b, const double& c, const double& d) {
    bool r = cmp == LT ? a < b : cmp == LE ? a <= b : cmp == EQ ? a == b : cmp == GE ? a >= b : cmp == GT ? a > b : a != b;
    return r ? c : d;
}

template<class T>
T apply(const Ins& s, const std::vector<T>& v) {
    using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan;
    using std::sinh; using std::cosh; using std::tanh; using std::asinh; using std::acosh; using std::atanh;
    using std::exp; using std::expm1; using std::log; using std::log1p; using std::log10; using std::sqrt;
    using std::erf; using std::erfc; using std::fabs; using CppAD::sign; using CppAD::pow;
    using CppAD::sin; using CppAD::cos; using CppAD::tan; using CppAD::asin; using CppAD::acos; using CppAD::atan; using CppAD::sinh; using CppAD::cosh;
    using CppAD::tanh; using CppAD::asinh; using CppAD::acosh; using CppAD::atanh; using CppAD::exp; using CppAD::expm1; using CppAD::log; using CppAD::log1p;
    using CppAD::log10; using CppAD::sqrt; using CppAD::erf; using CppAD::erfc; using CppAD::fabs;
    switch (s.op) {
        case CONST: return mkConst<T>(s.k);
        case ADD: return v[s.a] + v[s.b];
        case SUB: return v[s.a] - v[s.b];
        case MUL: return v[s.a] * v[s.b];
        case DIV: return v[s.a] / v[s.b];
        case ADDEQ: { T t = v[s.a]; t += v[s.b]; return t; }
        case SUBEQ: { T t = v[s.a]; t -= v[s.b]; return t; }
        case MULEQ: { T t = v[s.a]; t *= v[s.b]; return t; }
        case DIVEQ: { T t = v[s.a]; t /= v[s.b]; return t; }
        case NEG: return -v[s.a];
        case SIN: return sin(v[s.a]);
        case COS: return cos(v[s.a]);
        case TAN: return tan(v[s.a]);
        case ASIN: return asin(v[s.a]);
        case ACOS: return acos(v[s.a]);
        case ATAN: return atan(v[s.a]);
        case SINH: return sinh(v[s.a]);
        case COSH: return cosh(v[s.a]);
        case TANH: return tanh(v[s.a]);
        case ASINH: return asinh(v[s.a]);
        case ACOSH: return acosh(v[s.a]);
        case ATANH: return atanh(v[s.a]);
        case EXP: return exp(v[s.a]);
        case EXPM1: return expm1(v[s.a]);
        case LOG: return log(v[s.a]);
        case LOG1P: return log1p(v[s.a]);
        case LOG10: return log10(v[s.a]);
        case SQRT: return sqrt(v[s.a]);
        case ERF: return erf(v[s.a]);
        case ERFC: return erfc(v[s.a]);
        case ABS: return fabs(v[s.a]);
        case SIGN: return sign(v[s.a]);
        case POW: return pow(v[s.a], v[s.b]);
        case POWI: return pow(v[s.a], mkConst<T>(s.k));
        case COND: return condExp(s.cmp, v[s.a], v[s.b], v[s.c], v[s.d]);
        case ALIAS: return v[s.a];
        default: throw std::logic_error("op");
    }
}

template<class T, class V>
std::vector<T> evalAll(const Prog& p, const V& x) {
    std::vector<T> v;
    v.reserve(p.n + p.ins.size());
    for (size_t i = 0; i < p.n; ++i) v.push_back(x[i]);
    for (const Ins& s : p.ins) v.push_back(apply<T>(s, v));
    return v;
}
template<class T, class V>
std::vector<T> eval(const Prog& p, const V& x) {
    std::vector<T> v = evalAll<T>(p, x);
    std::vector<T> y;
    y.reserve(p.deps.size());
    for (int d : p.deps) y.push_back(v[d]);
    return y;
}

// ---- first-order error bound ----------------------------------------------
/**
 * The absolute error that rounding can cause (unit u per operation, uc relative
 * per constant) to first order; -1 when the bound does not apply (an operand is
 * too close to a point where the function is not smooth or not defined).
 */
inline std::vector<double> errorBoundSafe(const Prog& p, const std::vector<double>& x, double u, double uc,
                                          const std::vector<char>& constant = {}) {
    std::vector<double> v = evalAll<double>(p, x), e(v.size(), 0.0);
    std::vector<char> bad(v.size(), 0), cst(v.size(), 0);
    for (size_t i = 0; i < p.n; ++i) e[i] = u * std::fabs(x[i]);
    for (size_t i = 0; i < p.ins.size(); ++i) {
        const Ins& s = p.ins[i];
        double r = v[p.n + i], q = 0;
        if (s.op == CONST) { e[p.n + i] = (uc + u) * std::fabs(r); cst[p.n + i] = 1; continue; }
        double a = v[s.a], b = v[s.b], ea = e[s.a], eb = e[s.b];
        bool two = (s.op >= ADD && s.op <= DIV) || (s.op >= ADDEQ && s.op <= DIVEQ) || s.op == POW || s.op == COND;
        bool w = bad[s.a] || (two && bad[s.b]) || (s.op == COND && (bad[s.c] || bad[s.d]));
        bool k = cst[s.a] && (!two || cst[s.b]) && (s.op != COND || (cst[s.c] && cst[s.d]));
        if (!constant.empty() && constant[p.n + i]) k = true;
        switch (s.op) {
            case ADD: case SUB: case ADDEQ: case SUBEQ: q = ea + eb; break;
            case MUL: case MULEQ: q = std::fabs(a) * eb + std::fabs(b) * ea; break;
            case DIV: case DIVEQ: q = ea / std::fabs(b) + std::fabs(a / (b * b)) * eb; w |= eb > 0.1 * std::fabs(b); break;
            case NEG: case ALIAS: q = ea; break;
            case ABS: q = ea; break;
            case SIN: case COS: case ATAN: case TANH: case ASINH: q = ea; break;
            case TAN: q = ea * (1 + r * r); w |= ea * (1 + r * r) > 0.1; break;
            case ASIN: case ACOS: q = ea / std::sqrt(1 - a * a); w |= ea > 0.1 * (1 - std::fabs(a)); break;
            case SINH: q = ea * std::cosh(a); w |= ea > 0.1; break;
            case COSH: q = ea * std::fabs(std::sinh(a)); w |= ea > 0.1; break;
            case ACOSH: q = ea / std::sqrt(a * a - 1); w |= ea > 0.1 * (a - 1); break;
            case ATANH: q = ea / (1 - a * a); w |= ea > 0.1 * (1 - std::fabs(a)); break;
            case EXP: q = ea * r; w |= ea > 0.1; break;
            case EXPM1: q = ea * (r + 1); w |= ea > 0.1; break;
            case LOG: q = ea / std::fabs(a); w |= ea > 0.1 * a; break;
            case LOG1P: q = ea / std::fabs(1 + a); w |= ea > 0.1 * (1 + a); break;
            case LOG10: q = 0.5 * ea / std::fabs(a) + uc * std::fabs(r); w |= ea > 0.1 * a; break;
            case SQRT: q = 0.5 * ea / r; w |= ea > 0.1 * a; break;
            case ERF: case ERFC: q = 1.13 * ea; break;
            case SIGN: q = 0; w |= ea > 0.5 * std::fabs(a); break;
            case POW: q = std::fabs(r) * (std::fabs(b / a) * ea + std::fabs(std::log(std::fabs(a))) * eb); w |= ea > 0.05 * a || eb > 0.05; break;
            case POWI: q = std::fabs(r) * std::fabs(s.k / a) * ea; w |= ea > 0.05 * std::fabs(a); break;
            case COND: q = std::max(e[s.c], e[s.d]); w |= s.a != s.b && ea + eb > 0.5 * std::fabs(a - b); break;
            default: break;
        }
        q *= 1.2;
        e[p.n + i] = q + (u + (k ? uc : 0)) * std::fabs(r) + ((s.op == SIN || s.op == COS || s.op == LOG) ? u : 0);
        bad[p.n + i] = w;
        cst[p.n + i] = k;
    }
    std::vector<double> out;
    for (int d : p.deps) out.push_back(bad[d] ? -1 : e[d]);
    return out;
}

/** values that are the same at all points may have been folded into constants */
template<class XS>
std::vector<char> sameEverywhere(const Prog& p, const XS& xs) {
    std::vector<char> same;
    std::vector<double> first;
    for (const auto& x : xs) {
        std::vector<double> v = evalAll<double>(p, x);
        if (first.empty()) { first = v; same.assign(v.size(), 1); }
        else for (size_t i = 0; i < v.size(); ++i) if (v[i] != first[i]) same[i] = 0;
    }
    return same;
}

// ---- generation -------------------------------------------------------------
static const size_t NPTS = 3;

struct Opts {
    size_t nMin = 1, nMax = 5, insMin = 1, insMax = 25, mMin = 1, mMax = 5;
    bool cond = true;
    bool nonsmooth = true;      // abs, sign
    bool transcend = true;
    bool special = true;        // functions with rarely supported outputs: erf, erfc, asinh, acosh, atanh, expm1, log1p
    bool compound = true;
    bool constants = true;
    bool constDeps = true;      // dependents that are constants / independents
    double maxAbs = 1e3;
    bool niceConst = false;     // only constants with a short decimal representation
    double lo = -2.5, hi = 2.5; // range of the independents
};

struct Gened {
    Prog p;
    std::array<std::vector<double>, NPTS> x;
};

inline double genConst(pbt::Gen& g, bool nice = false) {
    switch (g.below(8)) {
        case 0: return 1.0;
        case 1: return 2.0;
        case 2: return 0.0;
        case 3: return -1.0;
        case 4: return nice ? 0.5 : g.real(-3, 3);
        case 5: return nice ? -3.25 : 1.0 / (3 + (double) g.below(50));
        case 6: return nice ? 10 : -g.real(0.1, 3) * 1e-3;
        default: return (double) g.range(-9, 12);
    }
}

/** is the instruction inside of its domain, away from the points where it is not smooth */
inline bool domainOk(const Ins& s, double a, double b) {
    switch (s.op) {
        case DIV: case DIVEQ: return !(std::fabs(b) < 2e-2);
        case TAN: return !(std::fabs(std::cos(a)) < 0.1);
        case ASIN: case ACOS: case ATANH: return !(std::fabs(a) > 0.95);
        case ACOSH: return !(a < 1.05);
        case LOG: case LOG10: case SQRT: return !(a < 2e-2);
        case LOG1P: return !(a < -0.95);
        case SINH: case COSH: case EXP: case EXPM1: return !(std::fabs(a) > 7);
        case SIN: case COS: return !(std::fabs(a) > 100);
        case ABS: case SIGN: return !(std::fabs(a) < 1e-2);
        case POW: return !(a < 0.05 || std::fabs(b) > 6);
        case POWI: return !(std::fabs(a) < 0.05);
        case COND: return !(s.a != s.b && std::fabs(a - b) < 1e-2);
        default: return true;
    }
}

/** is the instruction fine at all the points? appends the values when it is */
inline bool tryIns(const Ins& s, std::array<std::vector<double>, NPTS>& v, double maxAbs) {
    std::array<double, NPTS> r;
    for (size_t k = 0; k < NPTS; ++k) {
        const std::vector<double>& w = v[k];
        if (!domainOk(s, w[s.a], w[s.b])) return false;
        r[k] = apply<double>(s, w);
        if (!std::isfinite(r[k]) || std::fabs(r[k]) > maxAbs) return false;
    }
    for (size_t k = 0; k < NPTS; ++k) v[k].push_back(r[k]);
    return true;
}

inline Op genOp(pbt::Gen& g, const Opts& o) {
    int t = (int) g.below(100);
    if (t < 44) {
        static const Op ar[] = {ADD, SUB, MUL, DIV, NEG, ADD, MUL, SUB, DIV};
        return ar[g.below(9)];
    }
    if (t < 50) {
        if (!o.compound) return MUL;
        static const Op ar[] = {ADDEQ, SUBEQ, MULEQ, DIVEQ};
        return ar[g.below(4)];
    }
    if (t < 60) return o.constants ? CONST : ADD;
    if (t < 85) {
        if (!o.transcend) return t % 2 ? MUL : SUB;
        static const Op u[] = {SIN, COS, EXP, LOG, SQRT, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, LOG10,
                               ASINH, ACOSH, ATANH, EXPM1, LOG1P, ERF, ERFC};
        return u[g.below(o.special ? 20 : 13)];
    }
    if (t < 90) return o.transcend ? (g.flip() ? POW : POWI) : MUL;
    if (t < 96) return o.cond ? COND : DIV;
    if (t < 98) return o.nonsmooth ? (g.flip() ? ABS : SIGN) : SUB;
    return ALIAS;
}

/** operands prefer recent results and independents */
inline int genRef(pbt::Gen& g, size_t n, size_t total) {
    int t = (int) g.below(10);
    if (t < 3) return (int) g.below(n);
    if (t < 7 && total > n) return (int) (total - 1 - g.below(std::min<size_t>(4, total - n)));
    return (int) g.below(total);
}

inline Gened gen(pbt::Gen& g, const Opts& o) {
    Gened r;
    Prog& p = r.p;
    p.n = g.size(o.nMin, o.nMax);
    for (size_t k = 0; k < NPTS; ++k)
        for (size_t i = 0; i < p.n; ++i) r.x[k].push_back(g.real(o.lo, o.hi));
    std::array<std::vector<double>, NPTS> v = r.x;
    // geometric length with a flag before every instruction: whole instructions can be deleted when shrinking
    size_t mean = std::max<size_t>(2, o.insMax / (1 + g.below(4)));
    for (size_t i = 0; i < o.insMax; ++i) {
        if (g.below(mean) == 0 && i >= o.insMin) break;
        size_t total = p.n + p.ins.size();
        bool done = false;
        for (int t = 0; t < 4 && !done; ++t) {
            Ins s;
            s.op = genOp(g, o);
            if (s.op == CONST) s.k = genConst(g, o.niceConst);
            else {
                s.a = genRef(g, p.n, total);
                if (s.op == ADD || s.op == SUB || s.op == MUL || s.op == DIV || s.op == ADDEQ || s.op == SUBEQ || s.op == MULEQ ||
                    s.op == DIVEQ || s.op == POW || s.op == COND) s.b = genRef(g, p.n, total);
                if (s.op == COND) {
                    s.c = genRef(g, p.n, total);
                    s.d = genRef(g, p.n, total);
                    s.cmp = (int) g.below(6);
                }
                if (s.op == POWI) s.k = (double) g.range(-2, 4);
            }
            if (tryIns(s, v, o.maxAbs)) { p.ins.push_back(s); done = true; }
        }
        if (!done) { // always fine
            Ins s;
            s.op = SIN;
            s.a = (int) g.below(p.n);
            if (tryIns(s, v, o.maxAbs)) p.ins.push_back(s);
        }
    }
    size_t m = g.size(o.mMin, o.mMax);
    size_t total = p.n + p.ins.size();
    for (size_t i = 0; i < m; ++i) {
        int d;
        if (p.ins.empty()) d = (int) g.below(p.n);
        else if (g.chance(70)) d = (int) (total - 1 - g.below(std::min<size_t>(p.ins.size(), 6)));
        else d = (int) g.below(total);
        if (!o.constDeps && (d < (int) p.n || p.ins[d - p.n].op == CONST)) d = (int) total - 1;
        p.deps.push_back(d);
    }
    return r;
}

/** does the value depend (structurally) on an independent */
inline std::vector<std::set<size_t>> structure(const Prog& p) {
    std::vector<std::set<size_t>> s(p.n + p.ins.size());
    for (size_t i = 0; i < p.n; ++i) s[i].insert(i);
    for (size_t i = 0; i < p.ins.size(); ++i) {
        const Ins& q = p.ins[i];
        auto& t = s[p.n + i];
        if (q.op == CONST) continue;
        t.insert(s[q.a].begin(), s[q.a].end());
        if ((q.op >= ADD && q.op <= DIV) || (q.op >= ADDEQ && q.op <= DIVEQ) || q.op == POW || q.op == COND) t.insert(s[q.b].begin(), s[q.b].end());
        if (q.op == COND) { t.insert(s[q.c].begin(), s[q.c].end()); t.insert(s[q.d].begin(), s[q.d].end()); }
    }
    return s;
}

/** number of instructions that some dependent needs, and whether one of them is used more than once */
inline size_t liveCount(const Prog& p, bool& shared) {
    std::vector<int> use(p.n + p.ins.size(), 0);
    std::vector<char> live(p.n + p.ins.size(), 0);
    for (int d : p.deps) { live[d] = 1; }
    shared = false;
    size_t c = 0;
    for (size_t i = p.ins.size(); i-- > 0;) {
        if (!live[p.n + i]) continue;
        const Ins& q = p.ins[i];
        if (q.op == CONST) continue;
        ++c;
        auto mk = [&](int a) { live[a] = 1; if (++use[a] > 1 && a >= (int) p.n) shared = true; };
        mk(q.a);
        if ((q.op >= ADD && q.op <= DIV) || (q.op >= ADDEQ && q.op <= DIVEQ) || q.op == POW || q.op == COND) mk(q.b);
        if (q.op == COND) { mk(q.c); mk(q.d); }
    }
    return c;
}

}
#endif
