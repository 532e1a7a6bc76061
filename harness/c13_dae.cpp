/**
 * C13: index reduction of DAE systems.
 *
 * Random systems of n equations in n unknown functions of time, each used up
 * to its first derivative. The structure is analysed independently with
 * Pryce's signature method (transversal and smallest offsets). The equations
 * that are added are compared with the derivatives of the original equations
 * along a random trajectory, computed with Taylor coefficients of a
 * double-precision tape of the original equations.
 */
#include <cppad/cg/cppadcg.hpp>
#include <cppad/cg/dae_index_reduction/pantelides.hpp>
#include <cppad/cg/dae_index_reduction/soares_secchi.hpp>
#include <cppad/cg/dae_index_reduction/dummy_deriv.hpp>
#include <Eigen/Dense>
#include <sys/resource.h>
#include "../lib/pbt.hpp"
#include "../lib/cgen.hpp"

using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> CGD;

static const int NONE = -100;

struct Term {
    int kind;          // 0: c v, 1: c v w, 2: c sin(v), 3: c v v v, 4: c p v, 5: c t v, 6: c t, 7: v/(w + 5), 8: c exp(v/4), 9: c
    double c;
    int v, w;          // tape variables
};

struct Dae {
    int n = 0;                                  // unknown functions
    std::vector<int> q;                         // order of each function in the model
    std::vector<std::vector<int>> var;          // [function][order] tape index
    int time = -1;
    std::vector<int> par;
    std::vector<std::pair<int, int>> of;        // tape index -> (function, order); (-1,_) time; (-2,_) parameter
    std::vector<std::vector<Term>> eq;
    std::vector<std::vector<double>> forcing;   // polynomial in (t - t0), subtracted
    double t0 = 0.613;

    size_t N() const { return of.size(); }

    std::string name(int j) const {
        if (of[j].first == -1) return "t";
        if (of[j].first == -2) return "p" + std::to_string(j);
        return "v" + std::to_string(of[j].first) + std::string((size_t) of[j].second, '\'');
    }
    std::string str() const {
        std::string s = "variables";
        for (size_t j = 0; j < N(); ++j) s += " " + name((int) j);
        for (auto& e : eq) {
            s += "; 0 =";
            for (auto& t : e) {
                std::string c = pbt::str(t.c), v = t.v >= 0 ? name(t.v) : "", w = t.w >= 0 ? name(t.w) : "";
                s += " + ";
                switch (t.kind) {
                    case 0: s += c + "*" + v; break;
                    case 1: case 4: case 5: s += c + "*" + v + "*" + w; break;
                    case 2: s += c + "*sin(" + v + ")"; break;
                    case 3: s += c + "*" + v + "^3"; break;
                    case 6: s += c + "*" + v; break;
                    case 7: s += v + "/(" + w + "+5)"; break;
                    case 8: s += c + "*exp(" + v + "/4)"; break;
                    default: s += c;
                }
            }
            if (!forcing.empty()) s += " - f(t)";
        }
        return s;
    }

    template<class T>
    std::vector<T> eval(const std::vector<T>& x) const {
        std::vector<T> r;
        for (size_t i = 0; i < eq.size(); ++i) {
            T s(0.0);
            bool first = true;
            for (auto& t : eq[i]) {
                T a;
                switch (t.kind) {
                    case 0: case 6: a = t.c * x[t.v]; break;
                    case 1: case 4: case 5: a = t.c * x[t.v] * x[t.w]; break;
                    case 2: a = t.c * sin(x[t.v]); break;
                    case 3: a = t.c * (x[t.v] * x[t.v] * x[t.v]); break;
                    case 7: a = x[t.v] / (x[t.w] + 5.0); break;
                    case 8: a = t.c * exp(x[t.v] / 4.0); break;
                    default: a = t.c;
                }
                s = first ? a : s + a;
                first = false;
            }
            if (!forcing.empty()) {
                const std::vector<double>& p = forcing[i];
                T h = x[time] - t0;
                T f(p.back());
                for (size_t k = p.size() - 1; k-- > 0;) f = f * h + p[k];
                s = s - f;
            }
            r.push_back(s);
        }
        return r;
    }
};

/// the signature matrix and its analysis
struct Structure {
    bool solvable = false;
    std::vector<std::vector<int>> sigma;
    std::vector<int> c, d;
    size_t index = 0;
};

static Structure analyse(int n, const std::vector<int>& q, const std::vector<std::vector<int>>& sigma);

static Structure analyse(const Dae& s) {
    int n = s.n;
    std::vector<std::vector<int>> sigma(n, std::vector<int>(n, NONE));
    for (int i = 0; i < n; ++i)
        for (auto& t : s.eq[i])
            for (int v : {t.v, t.w})
                if (v >= 0 && s.of[v].first >= 0) {
                    int& z = sigma[i][s.of[v].first];
                    z = std::max(z, s.of[v].second);
                }
    return analyse(n, s.q, sigma);
}

static Structure analyse(int n, const std::vector<int>& q, const std::vector<std::vector<int>>& sigma) {
    Structure r;
    r.sigma = sigma;
    // highest-value transversal
    std::vector<int> best(1 << n, NONE * 100), choice(1 << n, -1);
    best[0] = 0;
    for (int m = 0; m < (1 << n); ++m) {
        int i = __builtin_popcount(m);
        if (i >= n || best[m] < -50) continue;
        for (int j = 0; j < n; ++j)
            if (!(m >> j & 1) && r.sigma[i][j] != NONE && best[m] + r.sigma[i][j] > best[m | 1 << j]) {
                best[m | 1 << j] = best[m] + r.sigma[i][j];
                choice[m | 1 << j] = j;
            }
    }
    int full = (1 << n) - 1;
    if (best[full] < -50) return r;
    r.solvable = true;
    std::vector<int> match(n);
    for (int m = full, i = n; i-- > 0;) { match[i] = choice[m]; m &= ~(1 << choice[m]); }
    r.c.assign(n, 0); r.d.assign(n, 0);
    for (bool change = true; change;) {
        change = false;
        for (int j = 0; j < n; ++j) {
            r.d[j] = q[j];
            for (int i = 0; i < n; ++i) if (r.sigma[i][j] != NONE) r.d[j] = std::max(r.d[j], r.sigma[i][j] + r.c[i]);
        }
        for (int i = 0; i < n; ++i) {
            int nc = r.d[match[i]] - r.sigma[i][match[i]];
            if (nc != r.c[i]) { r.c[i] = nc; change = true; }
        }
    }
    int mc = 0; bool alg = false;
    for (int i = 0; i < n; ++i) { mc = std::max(mc, r.c[i]); if (r.d[i] == 0) alg = true; }
    r.index = mc > 0 ? (size_t) mc + 1 : alg ? 1 : 0; // the library counts one differentiation more once an equation is differentiated
    return r;
}

static Dae genDae(pbt::Gen& g, bool needTime, bool regular) {
    Dae s;
    int n = s.n = (int) g.size(1, 6);
    bool time = needTime || g.flip();
    size_t np = g.below(3);
    // chains of constraints give higher indexes
    std::vector<std::pair<int, int>> vars;
    for (int j = 0; j < n; ++j) { s.q.push_back(g.chance(65) ? 1 : 0); }
    for (int j = 0; j < n; ++j) for (int k = 0; k <= s.q[j]; ++k) vars.push_back({j, k});
    if (time) vars.push_back({-1, 0});
    for (size_t k = 0; k < np; ++k) vars.push_back({-2, 0});
    if (g.flip()) for (size_t k = vars.size(); k-- > 1;) std::swap(vars[k], vars[g.below(k + 1)]);
    s.of = vars;
    s.var.resize(n);
    for (int j = 0; j < n; ++j) s.var[j].resize(s.q[j] + 1);
    for (size_t k = 0; k < vars.size(); ++k) {
        if (vars[k].first == -1) s.time = (int) k;
        else if (vars[k].first == -2) s.par.push_back((int) k);
        else s.var[vars[k].first][vars[k].second] = (int) k;
    }
    auto coef = [&] { return (g.flip() ? 1 : -1) * (0.5 + 0.25 * (double) g.below(9)); };
    auto term = [&](int v) {
        Term t; t.c = coef(); t.v = v; t.w = -1;
        switch (g.weighted({8, 3, 2, 2, 2, 2, 2, 2})) {
            case 0: t.kind = 0; break;
            case 1: t.kind = 1; {
                int j = (int) g.below((uint64_t) n);
                t.w = s.var[j][g.below(s.var[j].size())];
                break; }
            case 2: t.kind = 2; break;
            case 3: t.kind = 3; break;
            case 4: t.kind = 0; if (!s.par.empty()) { t.kind = 4; t.w = g.pick(s.par); } break;
            case 5: t.kind = 0; if (s.time >= 0) { t.kind = 5; t.w = s.time; } break;
            case 6: t.kind = 7; {
                int j = (int) g.below((uint64_t) n);
                t.w = s.var[j][g.below(s.var[j].size())];
                if (t.w == v) { t.kind = 0; t.w = -1; }
                break; }
            default: t.kind = 8;
        }
        return t;
    };
    s.eq.resize(n);
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    for (size_t k = perm.size(); k-- > 1;) std::swap(perm[k], perm[g.below(k + 1)]);
    bool matched = regular || g.chance(80);
    uint64_t high = g.below(101);
    for (int i = 0; i < n; ++i) {
        size_t extra = g.below(3);
        if (matched) { int j = perm[i]; s.eq[i].push_back(term(s.var[j][g.chance(high) ? 0 : s.q[j]])); }
        else ++extra;
        for (size_t k = 0; k < extra; ++k) { int j = (int) g.below((uint64_t) n); s.eq[i].push_back(term(s.var[j][g.chance(high) ? 0 : g.below(s.var[j].size())])); }
        if (g.chance(30)) { Term t; t.kind = 9; t.c = coef(); t.v = t.w = -1; s.eq[i].push_back(t); }
        if (s.time >= 0 && g.chance(20)) { Term t; t.kind = 6; t.c = coef(); t.v = s.time; t.w = -1; s.eq[i].push_back(t); }
    }
    // terms do not cancel
    for (auto& e : s.eq) {
        std::vector<Term> u;
        for (auto& t : e) {
            bool dup = false;
            for (auto& z : u) dup |= z.kind == t.kind && ((z.v == t.v && z.w == t.w) || (z.v == t.w && z.w == t.v));
            if (!dup) u.push_back(t);
        }
        e = u;
    }
    // every derivative of the model is used
    for (int j = 0; j < n; ++j) if (s.q[j]) {
        bool used = false;
        for (auto& e : s.eq) for (auto& t : e) used |= t.v == s.var[j][1] || t.w == s.var[j][1];
        if (!used) s.eq[g.below((uint64_t) n)].push_back(term(s.var[j][1]));
    }
    return s;
}

static const int K = 6; // derivatives of the trajectory

struct Trajectory {
    std::vector<std::vector<double>> v; // [function][k]: k-th derivative at t0
    std::vector<double> par;
};

static Trajectory genTrajectory(pbt::Gen& g, const Dae& s) {
    Trajectory t;
    for (int j = 0; j < s.n; ++j) {
        std::vector<double> d;
        for (int k = 0; k <= K + 2; ++k) d.push_back((g.flip() ? 1 : -1) * g.real(0.2, 1.3));
        t.v.push_back(d);
    }
    for (size_t k = 0; k < s.N(); ++k) t.par.push_back(g.real(0.5, 1.5));
    return t;
}

static double valueOf(const Dae& s, const Trajectory& t, int fn, int order, int tape) {
    if (fn == -1) return s.t0;
    if (fn == -2) return t.par[(size_t) tape];
    return t.v[(size_t) fn].at((size_t) order);
}

/// r[i][k]: k-th total time derivative of the original equation i along the trajectory
static std::vector<std::vector<double>> derivatives(const Dae& s, const Trajectory& t, int kMax) {
    std::vector<AD<double>> ax(s.N());
    for (size_t j = 0; j < s.N(); ++j) ax[j] = valueOf(s, t, s.of[j].first, s.of[j].second, (int) j);
    Independent(ax);
    std::vector<AD<double>> ay = s.eval(ax);
    ADFun<double> f;
    f.Dependent(ax, ay);
    std::vector<std::vector<double>> r((size_t) s.n);
    double fact = 1;
    for (int k = 0; k <= kMax; ++k) {
        if (k > 1) fact *= k;
        std::vector<double> u(s.N());
        for (size_t j = 0; j < s.N(); ++j) {
            if (s.of[j].first == -1) u[j] = k == 0 ? s.t0 : k == 1 ? 1.0 : 0.0;
            else if (s.of[j].first == -2) u[j] = k == 0 ? t.par[j] : 0.0;
            else u[j] = t.v[(size_t) s.of[j].first].at((size_t) (s.of[j].second + k)) / fact;
        }
        std::vector<double> y = f.Forward((size_t) k, u);
        for (int i = 0; i < s.n; ++i) r[(size_t) i].push_back(y[(size_t) i] * fact);
    }
    return r;
}

struct Model {
    std::unique_ptr<ADFun<CGD>> fun;
    std::vector<DaeVarInfo> info;
    std::vector<double> x;
    std::vector<std::string> eqNames;
};

static Model makeModel(pbt::Gen& g, const Dae& s, const Trajectory& t, std::string& opts) {
    Model m;
    for (size_t j = 0; j < s.N(); ++j) m.x.push_back(valueOf(s, t, s.of[j].first, s.of[j].second, (int) j));
    std::vector<AD<CGD>> ax(s.N());
    for (size_t j = 0; j < s.N(); ++j) ax[j] = CGD(m.x[j]);
    Independent(ax);
    std::vector<AD<CGD>> ay = s.eval(ax);
    m.fun.reset(new ADFun<CGD>());
    m.fun->Dependent(ax, ay);
    m.info.resize(s.N());
    bool names = g.flip();
    for (size_t j = 0; j < s.N(); ++j) {
        if (s.of[j].first == -1) { m.info[j].makeIntegratedVariable(); if (g.flip()) m.info[j].setName("time"); }
        else if (s.of[j].first == -2) m.info[j].makeConstant();
        else {
            if (s.of[j].second > 0) m.info[j] = DaeVarInfo(s.var[(size_t) s.of[j].first][(size_t) s.of[j].second - 1]);
            if (names && s.of[j].second == 0) m.info[j].setName("v" + std::to_string(s.of[j].first));
        }
    }
    if (g.chance(30)) for (size_t i = 0, e = g.below((uint64_t) s.n + 1); i < e; ++i) m.eqNames.push_back("equation" + std::to_string(i));
    opts = names ? " named" : "";
    return m;
}

static std::vector<double> evalFun(ADFun<CGD>& f, const std::vector<double>& x) {
    std::vector<CGD> cx(x.begin(), x.end());
    std::vector<CGD> y = f.Forward(0, cx);
    std::vector<double> r;
    for (auto& v : y) r.push_back(v.getValue());
    return r;
}

static bool close(double a, double b) { return std::isfinite(a) && std::abs(a - b) <= 1e-8 * (1 + std::abs(b)); }

/// (function, order) of every variable of the reduced model, checking the descriptions
static std::vector<std::pair<int, int>> variables(pbt::Case& c, const Dae& s, const std::vector<DaeVarInfo>& info, const std::string& what) {
    std::vector<std::pair<int, int>> r(info.size());
    c.check(info.size() >= s.N(), "variables were removed; case: " + what);
    std::set<std::pair<int, int>> seen;
    std::set<std::string> names;
    for (size_t j = 0; j < info.size(); ++j) {
        const DaeVarInfo& v = info[j];
        c.check(v.getId() == j, "a wrong variable id; case: " + std::to_string(j) + " " + what);
        c.check(!v.getName().empty(), "a variable has no name; case: " + std::to_string(j) + " " + what);
        c.check(names.insert(v.getName()).second, "two variables have the same name; case: " + v.getName() + " " + what);
        if (j < s.N()) {
            r[j] = s.of[j];
            c.check(v.getOriginalIndex() == (int) j, "a wrong original index; case: " + std::to_string(j) + " " + what);
            c.check(v.isIntegratedVariable() == (s.of[j].first == -1), "the time variable changed; case: " + what);
            c.check(v.isFunctionOfIntegrated() == (s.of[j].first >= 0), "a variable is (not) a function of time; case: " + std::to_string(j) + " " + what);
            int anti = s.of[j].first >= 0 && s.of[j].second > 0 ? s.var[(size_t) s.of[j].first][(size_t) s.of[j].second - 1] : -1;
            c.check(v.getAntiDerivative() == anti, "an original derivative relation changed; case: " + std::to_string(j) + " " + what);
        } else {
            c.check(v.getOriginalIndex() == -1, "a new variable has an original index; case: " + std::to_string(j) + " " + what);
            int a = v.getAntiDerivative();
            c.check(a >= 0 && a < (int) j && r[(size_t) a].first >= 0, "a new variable is not the derivative of another; case: " + std::to_string(j) + " " + what);
            r[j] = {r[(size_t) a].first, r[(size_t) a].second + 1};
        }
        if (r[j].first >= 0) {
            c.check(seen.insert(r[j]).second, "a derivative exists twice; case: " + std::to_string(j) + " " + what);
            c.check(v.getOrder() == r[j].second, "a wrong order; case: variable " + std::to_string(j) + " has " + std::to_string(v.getOrder()) + " " + what);
            if (r[j].second > 0)
                c.check(v.getOriginalAntiDerivative() == s.var[(size_t) r[j].first][0], "a wrong original variable; case: variable " + std::to_string(j) + " has " + std::to_string(v.getOriginalAntiDerivative()) + " " + what);
        }
    }
    for (size_t j = 0; j < info.size(); ++j) {
        int a = info[j].getAntiDerivative(), d = info[j].getDerivative();
        if (a >= 0) c.check(info[(size_t) a].getDerivative() == (int) j, "derivative relations are not mutual; case: variable " + std::to_string(j) + " " + what);
        if (d >= 0) c.check(d < (int) info.size() && info[(size_t) d].getAntiDerivative() == (int) j, "derivative relations are not mutual; case: variable " + std::to_string(j) + " " + what);
    }
    return r;
}

static bool matching(const std::vector<std::vector<char>>& a, size_t cols) {
    std::vector<int> col(cols, -1);
    for (size_t i = 0; i < a.size(); ++i) {
        std::vector<char> seen(cols, 0);
        std::function<bool(size_t)> go = [&](size_t r) {
            for (size_t j = 0; j < cols; ++j) if (a[r][j] && !seen[j]) {
                seen[j] = 1;
                if (col[j] < 0 || go((size_t) col[j])) { col[j] = (int) r; return true; }
            }
            return false;
        };
        if (!go(i)) return false;
    }
    return true;
}

template<class Algo>
static void caseStructural(pbt::Case& c, const char* algo) {
    pbt::Gen& g = c.g;
    const bool soares = algo[0] == 'S';
    Dae s = genDae(g, false, false);
    Trajectory t = genTrajectory(g, s);
    Structure st = analyse(s);
    std::string opts;
    Model m = makeModel(g, s, t, opts);
    std::string what = std::string(algo) + opts + " of {" + s.str() + "}";
    if (c.verbose) std::cout << what << std::endl;
    c.key(what);
    c.sample(what);
    std::vector<DaeVarInfo> vi;
    std::vector<DaeEquationInfo> ei;
    std::unique_ptr<ADFun<CGD>> red;
    std::unique_ptr<Algo> a;
    bool thrown = false;
    std::string msg;
    try {
        a.reset(new Algo(*m.fun, m.info, m.eqNames, m.x));
        red = a->reduceIndex(vi, ei);
    } catch (const CGException& e) {
        thrown = true;
        msg = e.what();
    }
    ++c.evals;
    if (!st.solvable) {
        c.label("structurally singular");
        c.nontrivial(true);
        c.check(thrown, "a structurally singular system was accepted; case: " + what);
        return;
    }
    c.check(!thrown, "a regular system was rejected; case: " + msg + " " + what);
    int mc = *std::max_element(st.c.begin(), st.c.end());
    c.label("max differentiations " + std::to_string(mc));
    c.nontrivial(mc > 0);
    // all variables become differential with the second algorithm
    std::vector<int> q1 = s.q;
    for (auto& k : q1) k = std::max(k, 1);
    Structure ode = analyse(s.n, q1, st.sigma);
    size_t index = soares ? (size_t) *std::max_element(ode.c.begin(), ode.c.end()) : st.index;
    c.check(a->getStructuralIndex() == index, "a wrong structural index; case: " + std::to_string(a->getStructuralIndex()) + " instead of " + std::to_string(index) + " " + what);
    if (!red) {
        c.check(soares ? index <= 1 : mc == 0, "the index was not reduced; case: " + what);
        return;
    }
    std::vector<std::pair<int, int>> of = variables(c, s, vi, what);
    c.check(red->Domain() == vi.size(), "the model has another number of variables than described; case: " + std::to_string(red->Domain()) + " " + what);
    c.check(red->Range() == ei.size(), "the model has another number of equations than described; case: " + what);
    // equations
    std::vector<std::pair<int, int>> eo(ei.size());
    std::vector<int> last((size_t) s.n, -1), count((size_t) s.n, 0);
    for (size_t i = 0; i < ei.size(); ++i) {
        c.check(ei[i].getId() == i && !ei[i].isExplicit(), "a wrong equation id; case: " + what);
        int p = ei[i].getAntiDerivative();
        if ((int) i < s.n) {
            c.check(p < 0 && ei[i].getOriginalIndex() == (int) i, "an original equation is described as a derivative; case: " + what);
            eo[i] = {(int) i, 0};
        } else {
            c.check(p >= 0 && p < (int) i && ei[i].getOriginalIndex() < 0, "a new equation is not the derivative of another; case: " + what);
            eo[i] = {eo[(size_t) p].first, eo[(size_t) p].second + 1};
            c.check(++count[(size_t) eo[i].first] == eo[i].second, "an equation is differentiated twice; case: " + what);
        }
        last[(size_t) eo[i].first] = (int) i;
    }
    if (!soares)
        for (int i = 0; i < s.n; ++i)
            c.check(count[(size_t) i] == st.c[(size_t) i], "an equation is differentiated another number of times than its structure requires; case: equation " + std::to_string(i) + " " + std::to_string(count[(size_t) i]) + " instead of " + std::to_string(st.c[(size_t) i]) + " " + what);
    // values
    auto ref = derivatives(s, t, mc);
    std::vector<double> x(vi.size());
    for (size_t j = 0; j < x.size(); ++j) x[j] = valueOf(s, t, of[j].first, of[j].second, (int) j);
    std::vector<double> y = evalFun(*red, x);
    for (size_t i = 0; i < y.size(); ++i) {
        ++c.evals;
        double e = ref[(size_t) eo[i].first][(size_t) eo[i].second];
        if (!close(y[i], e))
            c.fail(std::string(eo[i].second ? "an equation is not the time derivative of another" : "an original equation changed") + "; case: equation " + std::to_string(i) + " is " + pbt::str(y[i]) + " instead of " + pbt::str(e) + " " + what);
    }
    // structure of the result
    std::vector<size_t> high;
    for (size_t j = 0; j < vi.size(); ++j) if (of[j].first >= 0 && vi[j].getDerivative() < 0) high.push_back(j);
    c.check((int) high.size() == s.n, "a wrong number of highest order variables; case: " + what);
    auto sp = jacobianSparsity<std::vector<bool>, CGD>(*red);
    if (!soares) {
        std::vector<std::vector<char>> inc((size_t) s.n, std::vector<char>(high.size()));
        for (int i = 0; i < s.n; ++i) for (size_t k = 0; k < high.size(); ++k) inc[(size_t) i][k] = sp[(size_t) last[(size_t) i] * vi.size() + high[k]];
        c.check(matching(inc, high.size()), "the reduced system is structurally singular; case: " + what);
    }
    // the remaining index (this algorithm keeps equations which must be differentiated once to obtain an ODE)
    std::vector<int> q((size_t) s.n);
    for (size_t k : high) q[(size_t) of[k].first] = of[k].second;
    std::vector<std::vector<int>> sg((size_t) s.n, std::vector<int>((size_t) s.n, NONE));
    for (int i = 0; i < s.n; ++i)
        for (size_t j = 0; j < vi.size(); ++j)
            if (of[j].first >= 0 && sp[(size_t) last[(size_t) i] * vi.size() + j]) {
                int& z = sg[(size_t) i][(size_t) of[j].first];
                z = std::max(z, of[j].second);
            }
    if (soares) for (auto& k : q) k = std::max(k, 1);
    Structure after = analyse(s.n, q, sg);
    c.check(after.solvable && (soares ? *std::max_element(after.c.begin(), after.c.end()) <= 1 : (after.index <= 1 && *std::max_element(after.c.begin(), after.c.end()) == 0)), "the index of the reduced system is larger than one; case: " + std::to_string(after.index) + " " + what);
    // assignments
    std::set<int> used;
    for (size_t i = 0; i < ei.size(); ++i) {
        int v = ei[i].getAssignedVarIndex();
        if (v >= 0) {
            c.check(v < (int) vi.size() && of[(size_t) v].first >= 0, "an equation is assigned to an invalid variable; case: equation " + std::to_string(i) + " variable " + std::to_string(v) + " " + what);
            c.check(used.insert(v).second, "two equations are assigned to the same variable; case: " + what);
            c.check(sp[i * vi.size() + (size_t) v], "an equation is assigned to a variable that it does not contain; case: equation " + std::to_string(i) + " variable " + std::to_string(v) + " " + what);
        } else if (!soares)
            c.check(last[(size_t) eo[i].first] != (int) i, "an equation is not assigned to a variable; case: equation " + std::to_string(i) + " " + what);
    }
}

static void caseDummy(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Dae s = genDae(g, true, true);
    Trajectory t = genTrajectory(g, s);
    Structure st = analyse(s);
    if (!st.solvable) { c.discard(); return; }
    int mc = *std::max_element(st.c.begin(), st.c.end());
    if (mc > K - 1) { c.discard(); return; }
    // the trajectory solves the system at t0
    {
        auto r = derivatives(s, t, K);
        s.forcing.assign((size_t) s.n, {});
        for (int i = 0; i < s.n; ++i) {
            double f = 1;
            for (int k = 0; k <= K; ++k) { if (k > 1) f *= k; s.forcing[(size_t) i].push_back(r[(size_t) i][(size_t) k] / f); }
        }
    }
    // regularity of the system Jacobian
    std::vector<AD<double>> ax(s.N());
    std::vector<double> x0(s.N());
    for (size_t j = 0; j < s.N(); ++j) ax[j] = x0[j] = valueOf(s, t, s.of[j].first, s.of[j].second, (int) j);
    Independent(ax);
    std::vector<AD<double>> ay = s.eval(ax);
    ADFun<double> f(ax, ay);
    std::vector<double> jac = f.Jacobian(x0);
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(s.n, s.n);
    for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j)
        if (st.sigma[(size_t) i][(size_t) j] != NONE && st.d[(size_t) j] - st.c[(size_t) i] == st.sigma[(size_t) i][(size_t) j])
            J(i, j) = jac[(size_t) i * s.N() + (size_t) s.var[(size_t) j][(size_t) st.sigma[(size_t) i][(size_t) j]]];
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(J);
    double cond = svd.singularValues()(0) / std::max(1e-300, svd.singularValues()(s.n - 1));
    if (!(cond < 1e4)) { c.label("numerically singular"); c.discard(); return; }

    std::string opts;
    Model m = makeModel(g, s, t, opts);
    std::vector<double> nv(s.N(), 1.0), ne((size_t) s.n, 1.0);
    if (g.chance(30)) { for (auto& v : nv) v = g.real(0.5, 2); for (auto& v : ne) v = g.real(0.5, 2); opts += " norms"; }
    bool reduce = g.flip(), semi = g.chance(40), reorder = g.flip(), avoid = g.flip(), soares = g.chance(30);
    opts += std::string(reduce ? " reduce" : "") + (semi ? " semiExplicit" : "") + (reorder ? " reorder" : "") + (avoid ? " avoidAlg" : "") + (soares ? " soares" : "");
    std::string what = "dummy derivatives" + opts + " of {" + s.str() + "}";
    if (c.verbose) std::cout << what << std::endl;
    c.key(what);
    c.sample(what);
    // the same reduction gives the meaning of the variable ids
    std::vector<DaeVarInfo> pv, vi;
    std::vector<DaeEquationInfo> pe, ei;
    std::unique_ptr<DaeStructuralIndexReduction<double>> a, b;
    for (auto* q : {&a, &b}) {
        if (soares) q->reset(new SoaresSecchi<double>(*m.fun, m.info, m.eqNames, m.x));
        else q->reset(new Pantelides<double>(*m.fun, m.info, m.eqNames, m.x));
    }
    std::unique_ptr<ADFun<CGD>> red0 = a->reduceIndex(pv, pe);
    DummyDerivatives<double> dd(*b, m.x, nv, ne);
    dd.setReduceEquations(reduce);
    dd.setGenerateSemiExplicitDae(semi);
    dd.setReorder(reorder);
    dd.setAvoidConvertAlg2DifVars(avoid);
    std::set<std::string> avoidNames;
    if (red0 && g.chance(25)) {
        for (auto& v : pv) if (g.chance(20)) avoidNames.insert(v.getName());
        dd.setAvoidVarsAsDummies(avoidNames);
        what += " avoid=" + std::to_string(avoidNames.size());
    }
    std::unique_ptr<ADFun<CGD>> red;
    try {
        red = dd.reduceIndex(vi, ei);
    } catch (const CGException& e) {
        std::string msg = e.what();
        if (c.verbose && red0) b->getGraph().printModel(std::cout, *red0, pv, pe);
        if (semi && (msg.find("semi-explicit") != std::string::npos || msg.find("Failed to solve") != std::string::npos)) { c.label("no semi-explicit form"); ++c.evals; return; }
        // an eliminated variable may be outside of the domain of the formula with the (arbitrary) values used to record it
        if ((semi || reduce) && msg.find("perhaps it is nan") != std::string::npos) { c.label("not a number while recording"); ++c.evals; return; }
        // Soares-Secchi leaves equations to be differentiated once more: the method may have no complete selection
        if (soares && msg.find("Failed to select") != std::string::npos) { c.label("no complete selection"); ++c.evals; return; }
        c.fail("a regular system was rejected; case: " + msg + " " + what);
    }
    ++c.evals;
    if (c.verbose && red) {
        std::cout << "before\n";
        b->getGraph().printModel(std::cout, *red0, pv, pe);
        for (size_t j = 0; j < pv.size(); ++j) std::cout << j << " " << pv[j].getName() << " anti " << pv[j].getAntiDerivative() << " der " << pv[j].getDerivative() << "\n";
        std::cout << "after\n";
        for (size_t j = 0; j < vi.size(); ++j) std::cout << j << " " << vi[j].getName() << " id " << vi[j].getId() << " anti " << vi[j].getAntiDerivative() << " der " << vi[j].getDerivative() << "\n";
        for (size_t j = 0; j < ei.size(); ++j) std::cout << "equation " << j << " id " << ei[j].getId() << " anti " << ei[j].getAntiDerivative() << " var " << ei[j].getAssignedVarIndex() << " explicit " << ei[j].isExplicit() << "\n";
        b->getGraph().printModel(std::cout, *red, vi, std::vector<DaeEquationInfo>(ei.size()));
    }
    if (!red0) { c.check(!red, "a reduction without need; case: " + what); return; }
    c.check(red != nullptr, "the index was not reduced; case: " + what);
    c.nontrivial(true);
    c.label("max differentiations " + std::to_string(mc));
    std::vector<std::pair<int, int>> of = variables(c, s, pv, what);
    c.check(red->Domain() == vi.size(), "the model has another number of variables than described; case: " + std::to_string(red->Domain()) + " " + what);
    c.check(red->Range() == ei.size(), "the model has another number of equations than described; case: " + what);
    std::set<size_t> ids;
    std::vector<double> x(vi.size());
    size_t unknown = 0;
    std::vector<size_t> cols;
    for (size_t j = 0; j < vi.size(); ++j) {
        size_t id = vi[j].getId();
        c.check(id < pv.size() && ids.insert(id).second, "a wrong variable id; case: " + what);
        c.check(vi[j].getName() == pv[id].getName(), "a variable changed its name; case: " + what);
        x[j] = valueOf(s, t, of[id].first, of[id].second, (int) id);
        int an = vi[j].getAntiDerivative(), de = vi[j].getDerivative();
        if (!semi) {
            if (an >= 0) {
                c.check(an < (int) vi.size() && vi[(size_t) an].getDerivative() == (int) j, "derivative relations are not mutual; case: variable " + std::to_string(j) + " " + what);
                size_t ai = vi[(size_t) an].getId();
                c.check(of[ai].first == of[id].first && of[ai].second + 1 == of[id].second, "a wrong derivative relation; case: variable " + std::to_string(j) + " " + what);
            }
            if (de >= 0) c.check(de < (int) vi.size() && vi[(size_t) de].getAntiDerivative() == (int) j, "derivative relations are not mutual; case: variable " + std::to_string(j) + " " + what);
            if (of[id].first >= 0 && de < 0) { ++unknown; cols.push_back(j); }
        } else if (of[id].first >= 0) ++unknown;
    }
    c.check(unknown == ei.size(), "the reduced system is not square; case: " + std::to_string(ei.size()) + " equations, " + std::to_string(unknown) + " unknowns " + what);
    std::vector<double> y = evalFun(*red, x);
    // the choice of the eliminated variables only considers the structure: they may not be determined by the chosen equations
    auto singular = [&] {
        std::set<size_t> vk, ek;
        for (auto& v : vi) vk.insert(v.getId());
        for (auto& q : ei) if (!q.isExplicit()) ek.insert(q.getId());
        std::vector<long> rows, colsE;
        for (size_t j = 0; j < pv.size(); ++j) if (!vk.count(j)) colsE.push_back((long) j);
        for (size_t i = 0; i < pe.size(); ++i) if (!ek.count(i)) rows.push_back((long) i);
        if (rows.empty() || rows.size() != colsE.size()) return false;
        std::vector<CGD> px;
        for (size_t j = 0; j < pv.size(); ++j) px.push_back(CGD(valueOf(s, t, of[j].first, of[j].second, (int) j)));
        std::vector<CGD> pj = red0->Jacobian(px);
        Eigen::MatrixXd E((long) rows.size(), (long) rows.size());
        for (size_t i = 0; i < rows.size(); ++i) for (size_t k = 0; k < rows.size(); ++k)
            E((long) i, (long) k) = pj[(size_t) rows[i] * pv.size() + (size_t) colsE[k]].getValue();
        Eigen::JacobiSVD<Eigen::MatrixXd> d(E);
        return d.singularValues()((long) rows.size() - 1) < 1e-9 * d.singularValues()(0);
    };
    std::set<size_t> eids;
    std::set<int> assigned;
    for (size_t i = 0; i < y.size(); ++i) {
        ++c.evals;
        c.check(ei[i].getId() < pe.size() && eids.insert(ei[i].getId()).second, "a wrong equation id; case: " + what);
        double e = 0;
        int v = ei[i].getAssignedVarIndex();
        if (v >= 0) {
            c.check(v < (int) vi.size(), "an equation is assigned to an invalid variable; case: equation " + std::to_string(i) + " variable " + std::to_string(v) + " " + what);
            // assignments of implicit equations of a semi-explicit system are informative only
            if (!semi || ei[i].isExplicit()) c.check(assigned.insert(v).second, "two equations are assigned to the same variable; case: variable " + std::to_string(v) + " " + what);
        }
        if (ei[i].isExplicit()) {
            c.check(semi && v >= 0, "an unexpected explicit equation; case: " + what);
            size_t id = vi[(size_t) v].getId();
            e = valueOf(s, t, of[id].first, of[id].second + 1, (int) id);
        }
        if (!std::isfinite(y[i])) { c.label("a formula that is not finite"); continue; }
        if (!(std::abs(y[i] - e) <= 1e-6 * (1 + std::abs(e)))) {
            if (singular()) { c.label("a singular elimination"); ++c.evals; return; }
            c.fail("a solution of the original system does not satisfy the reduced system; case: equation " + std::to_string(i) + " is " + pbt::str(y[i]) + " instead of " + pbt::str(e) + " " + what);
        }
    }
    if (semi || soares) return;
    // index one
    std::vector<CGD> cx(x.begin(), x.end());
    std::vector<CGD> cj = red->Jacobian(cx);
    Eigen::MatrixXd R((long) ei.size(), (long) cols.size());
    bool finite = true;
    for (size_t i = 0; i < ei.size(); ++i) for (size_t k = 0; k < cols.size(); ++k) {
        R((long) i, (long) k) = cj[i * vi.size() + cols[k]].getValue();
        finite &= std::isfinite(R((long) i, (long) k));
    }
    if (!finite) return;
    Eigen::JacobiSVD<Eigen::MatrixXd> sv(R);
    double rc = sv.singularValues()((long) cols.size() - 1) / sv.singularValues()(0);
    c.check(rc > 1e-14, "the reduced system is not of index one; case: the Jacobian has the inverse condition number " + pbt::str(rc) + " " + what);
}

static void casePantelides(pbt::Case& c) { caseStructural<Pantelides<double>>(c, "Pantelides"); }
static void caseSoares(pbt::Case& c) { caseStructural<SoaresSecchi<double>>(c, "Soares-Secchi"); }

int main(int argc, char** argv) {
    struct rlimit rl{6ul << 30, 6ul << 30};
    setrlimit(RLIMIT_AS, &rl);
    return pbt::mainRun(argc, argv, {
        {"pantelides", casePantelides, 200000, 3000000, 30, false,
         "random systems reduced with the Pantelides algorithm; non-trivial: an equation must be differentiated or the system is singular", false},
        {"soares", caseSoares, 200000, 3000000, 30, false,
         "random systems reduced with the Soares-Secchi algorithm; non-trivial: an equation must be differentiated or the system is singular", false},
        {"dummy", caseDummy, 200000, 3000000, 30, false,
         "random regular systems with a known solution reduced with dummy derivatives and random options; non-trivial: an equation must be differentiated", false},
    }, {});
}
