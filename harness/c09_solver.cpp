/* C09: solving expressions for a variable and substituting independents, against evaluations of the recorded graphs. */
#include "model.hpp"
#include "graph.hpp"
using namespace vf;
using namespace prog;

typedef CG<double> CGD;
typedef long double LD;
typedef Interp<double, LD> ILD;

/** a program under construction with its values at some points */
struct Build {
    Prog p;
    std::array<std::vector<double>, NPTS> v;
    std::vector<std::set<size_t>> dep; // independents which affect each value
    size_t nv = 0; // variables, followed by the right-hand sides of the equations
    bool cosh = false, unsupported = false;
    void init(pbt::Gen& g, size_t nVar, size_t nEq) {
        nv = nVar;
        p.n = nVar + nEq;
        for (auto& w : v) {
            for (size_t i = 0; i < nVar; ++i) w.push_back(g.flip() ? g.real(0.2, 2) : g.real(-2, 2));
            for (size_t i = 0; i < nEq; ++i) w.push_back(0.0);
        }
        for (size_t i = 0; i < p.n; ++i) dep.push_back({i});
    }
    bool add(Op op, int a = 0, int b = 0, double k = 0, int c = 0, int d = 0, int cmp = 0) {
        Ins s;
        s.op = op; s.a = a; s.b = b; s.c = c; s.d = d; s.k = k; s.cmp = cmp;
        if (!tryIns(s, v, 200)) return false;
        push(s);
        return true;
    }
    void push(const Ins& s) {
        std::set<size_t> t;
        if (s.op != CONST) {
            t = dep[s.a];
            if ((s.op >= ADD && s.op <= DIV) || s.op == POW || s.op == COND) t.insert(dep[s.b].begin(), dep[s.b].end());
            if (s.op == COND) { t.insert(dep[s.c].begin(), dep[s.c].end()); t.insert(dep[s.d].begin(), dep[s.d].end()); }
        }
        p.ins.push_back(s);
        dep.push_back(t);
    }
    int last() const { return (int) (p.n + p.ins.size() - 1); }
    std::string ins(size_t k) const { Prog q; q.n = p.n; q.ins.assign(1, p.ins[k]); return q.str(); }
};

/** a value which does not depend on the variable (or -1) */
static int genOther(pbt::Gen& g, Build& b, size_t var) {
    std::vector<int> r;
    for (size_t i = 0; i < b.nv; ++i) if (i != var) r.push_back(i);
    for (int i = b.p.n; i <= b.last(); ++i) if (!b.dep[i].count(var)) r.push_back(i);
    int t = g.below(10);
    if (t < 5 && !r.empty()) return g.pick(r);
    if (t < 7 && !r.empty()) {
        int a = g.pick(r), c = g.pick(r);
        Op op = g.pick(std::vector<Op>{ADD, MUL, SIN, COS, SUB, EXP, DIV, POWI, COND});
        bool ok = op == COND ? b.add(COND, a, c, 0, a, c, LT) : op == POWI ? b.add(POWI, a, 0, 2) : b.add(op, a, c);
        if (ok) return b.last();
        return a;
    }
    b.add(CONST, 0, 0, g.pick(std::vector<double>{2.0, -1.0, 0.5, 3.0, -0.25, 1.5}));
    return b.last();
}

/** an expression which depends on the variable: mostly operations which can be inverted, with several occurrences sometimes */
static int genExpr(pbt::Gen& g, Build& b, size_t var, bool allowCosh, bool allowUnsupported, std::string& kinds) {
    std::vector<int> with{(int) var}; // values which depend on the variable
    int cur = (int) var;
    size_t steps = g.size(1, 7);
    bool multiple = g.chance(45);
    for (size_t s = 0; s < steps; ++s) {
        bool ok = false;
        for (int t = 0; t < 4 && !ok; ++t) {
            switch (g.weighted({6, 6, 6, 6, 4, 4, allowCosh ? 3u : 0u, 14, 14, 14, 14, 5, 3, multiple ? 35u : 0u, allowUnsupported ? 3u : 0u})) {
                case 0: ok = b.add(NEG, cur); break;
                case 1: ok = b.add(EXP, cur); break;
                case 2: ok = b.add(LOG, cur); break;
                case 3: ok = b.add(SQRT, cur); break;
                case 4: ok = b.add(SINH, cur); break;
                case 5: { bool in = true; for (auto& w : b.v) in = in && std::fabs(w[cur]) < 1.5; ok = in && b.add(TANH, cur); break; }
                case 6: { bool in = true; for (auto& w : b.v) in = in && std::fabs(w[cur]) > 0.3; ok = in && b.add(COSH, cur); b.cosh = b.cosh || ok; break; }
                case 7: { int o = genOther(g, b, var); ok = g.flip() ? b.add(ADD, cur, o) : b.add(ADD, o, cur); break; }
                case 8: { int o = genOther(g, b, var); ok = g.flip() ? b.add(SUB, cur, o) : b.add(SUB, o, cur); break; }
                case 9: { int o = genOther(g, b, var); ok = g.flip() ? b.add(MUL, cur, o) : b.add(MUL, o, cur); break; }
                case 10: { int o = genOther(g, b, var); ok = g.flip() ? b.add(DIV, cur, o) : b.add(DIV, o, cur); break; }
                case 11: { // exponent
                    int o = genOther(g, b, var);
                    bool pos = true;
                    for (auto& w : b.v) pos = pos && w[o] > 0.1 && std::fabs(w[o] - 1) > 0.1;
                    ok = pos && b.add(POW, o, cur);
                    break;
                }
                case 12: ok = b.add(POWI, cur, 0, 1); break;
                case 13: { // another occurrence
                    int o = g.pick(with);
                    switch (g.below(4)) {
                        case 0: break;
                        case 1: { int q = genOther(g, b, var); if (b.add(MUL, o, q) || b.add(MUL, q, o)) { o = b.last(); with.push_back(o); } break; }
                        case 2: { int q = genOther(g, b, var); if (b.add(DIV, o, q)) { o = b.last(); with.push_back(o); } break; }
                        default: if (b.add(NEG, o)) { o = b.last(); with.push_back(o); }
                    }
                    Op op = g.weighted({47, 47, 6}) == 2 ? MUL : g.flip() ? ADD : SUB;
                    ok = g.flip() ? b.add(op, cur, o) : b.add(op, o, cur);
                    if (ok) kinds += "m";
                    break;
                }
                default: {
                    Op op = g.pick(std::vector<Op>{SIN, TAN, ATAN, ABS, ERF, POWI, COND, ASINH, POW});
                    int o = genOther(g, b, var);
                    ok = op == COND ? b.add(COND, cur, o, 0, o, cur, LT) : op == POWI ? b.add(POWI, cur, 0, g.pick(std::vector<double>{2, 3, -1})) : op == POW ? b.add(POW, cur, o) : b.add(op, cur);
                    b.unsupported = b.unsupported || ok;
                }
            }
            if (ok) { cur = b.last(); with.push_back(cur); }
        }
    }
    return cur;
}

static bool reaches(const OperationNode<double>& root, const OperationNode<double>& var) {
    std::set<const OperationNode<double>*> seen;
    std::function<bool(const OperationNode<double>&)> rec = [&](const OperationNode<double>& n) {
        if (&n == &var) return true;
        if (!seen.insert(&n).second) return false;
        for (auto& a : n.getArguments()) if (a.getOperation() && rec(*a.getOperation())) return true;
        return false;
    };
    return rec(root);
}

static void caseSolve(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Build b;
    b.init(g, g.size(1, 4), 1);
    size_t var = g.below(b.nv);
    std::string kinds;
    size_t rhs = b.nv;
    int e = genExpr(g, b, var, true, true, kinds);
    // residual: expression - right-hand side, in several forms
    Ins s;
    s.op = SUB; s.a = e; s.b = (int) rhs;
    bool direct = g.chance(4);
    switch (g.below(4)) {
        case 0: std::swap(s.a, s.b); b.push(s); break;
        case 1: { b.push(s); Ins q; q.op = NEG; q.a = b.last(); b.push(q); break; }
        default: b.push(s);
    }
    int res = direct ? (int) var : b.last();
    b.p.deps.assign(1, res);
    std::string text = b.p.str() + " for x" + std::to_string(var);
    std::string where = "; case: " + text;
    c.key(text);
    c.sample(text);

    CodeHandler<double> h;
    std::vector<CGD> x(b.p.n);
    h.makeVariables(x);
    std::vector<CGD> all = evalAll<CGD>(b.p, x);
    CGD r = all[res], E = all[e];
    if (!r.isVariable()) { c.label("constant"); return; }
    OperationNode<double>& root = *r.getOperationNode();
    OperationNode<double>& v = *x[var].getOperationNode();
    std::string before = graphText(h, r);
    bool present = reaches(root, v);
    bool solvable = h.isSolvable(root, v);
    c.check(graphText(h, r) == before, "isSolvable changes the expression" + where);
    CGD sol;
    bool solved = false;
    std::string why;
    try { sol = h.solveFor(root, v); solved = true; } catch (const CGException& ex) { why = ex.what(); }
    c.check(graphText(h, r) == before, "solveFor changes the expression" + where);
    if (!present) {
        c.check(!solvable && !solved, "an expression without the variable is said to be solvable" + where);
        c.label("absent");
        return;
    }
    c.check(solvable == solved, std::string("isSolvable gives ") + (solvable ? "true but solveFor fails" : "false but solveFor gives a solution") + where);
    if (!solved) { c.label(b.unsupported ? "rejected: unsupported operation" : "rejected"); return; }
    c.check(!sol.isVariable() || !reaches(*sol.getOperationNode(), v), "the solution depends on the variable" + where);
    c.check(solvable == h.isSolvable(root, v), "isSolvable changes its mind" + where);
    bool compared = false;
    for (size_t k = 0; k < NPTS; ++k) {
        std::vector<LD> X(b.v[k].begin(), b.v[k].begin() + b.p.n);
        {
            ILD in(h, X);
            X[rhs] = in.value(E); // a value for which there is a solution
        }
        if (direct) X[var] = 0;
        LD x0 = X[var];
        // numerical derivative, to know if the equation determines the variable
        std::vector<LD> Y(X);
        LD hh = 1e-6L;
        Y[var] = x0 + hh; LD f1 = ILD(h, Y).value(r);
        Y[var] = x0 - hh; LD f0 = ILD(h, Y).value(r);
        LD d = (f1 - f0) / (2 * hh);
        if (!(fabsl(d) > 1e-3L) || !(fabsl(d) < 1e4L)) { c.label("undetermined"); continue; }
        std::vector<LD> Z(X);
        Z[var] = NAN; // not used
        LD x1 = ILD(h, Z).value(sol);
        ++c.evals;
        if (!b.cosh) {
            c.check(std::isfinite((double) x1), "the solution is not finite" + where + " x=" + pbt::str((double) x0));
            c.checkf(fabsl(x1 - x0) < 1e-6L * (1 + fabsl(x0)), [&]() { return "the solution is " + pbt::str((double) x1) + " instead of " + pbt::str((double) x0) + where; });
        } else {
            // several branches: only those inside of the domain
            if (!std::isfinite((double) x1)) { c.label("other branch"); continue; }
            Y = X;
            Y[var] = x1;
            LD q = ILD(h, Y).value(r);
            bool sq = false;
            for (auto& i : b.p.ins) sq = sq || i.op == SQRT;
            if (sq && !(fabsl(q) < 1e-6L)) { c.label("other branch"); continue; }
            c.checkf(fabsl(q) < 1e-6L * (1 + fabsl(X[rhs])) * (1 + fabsl(x1)), [&]() { return "the residual is " + pbt::str((double) q) + " with the solution " + pbt::str((double) x1) + where; });
        }
        compared = true;
    }
    c.labelIf(!kinds.empty(), "solved: several occurrences");
    c.labelIf(kinds.empty(), "solved: one occurrence");
    c.labelIf(b.cosh, "cosh");
    c.nontrivial(compared && b.p.ins.size() >= 2);
}

static void caseSubstitute(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Build b;
    size_t nEq = g.size(1, 3), nVar = nEq + g.size(0, 3);
    b.init(g, nVar, nEq);
    std::string kinds;
    // equations
    std::vector<size_t> vars;
    for (size_t i = 0; i < nVar; ++i) vars.push_back(i);
    std::vector<int> E, R;
    for (size_t k = 0; k < nEq; ++k) {
        size_t j = k + g.below(vars.size() - k);
        std::swap(vars[k], vars[j]);
        int e = genExpr(g, b, vars[k], false, g.chance(10), kinds);
        Ins s;
        s.op = SUB; s.a = e; s.b = (int) (nVar + k);
        if (g.flip()) std::swap(s.a, s.b);
        E.push_back(e);
        b.push(s);
        for (auto& w : b.v) w.push_back(0);
        R.push_back(b.last());
    }
    // other functions
    size_t extra = g.size(0, 10);
    Opts o;
    for (size_t i = 0; i < extra; ++i) {
        Ins s;
        s.op = genOp(g, o);
        size_t total = b.p.n + b.p.ins.size();
        if (s.op == CONST) s.k = genConst(g);
        auto ref = [&]() { int q; do q = g.below(total); while ((q >= (int) nVar && q < (int) b.p.n) || std::count(R.begin(), R.end(), q)); return q; };
        s.a = ref(); s.b = ref(); s.c = ref(); s.d = ref();
        s.cmp = g.below(6);
        if (s.op == POWI) s.k = g.range(-2, 3);
        if (tryIns(s, b.v, 1e3)) b.push(s);
    }
    size_t m = g.size(1, 3);
    for (size_t i = 0; i < m; ++i) b.p.deps.push_back(g.chance(60) ? b.last() : (int) g.below(b.p.n + b.p.ins.size()));
    for (int e : R) b.p.deps.push_back(e);
    std::string text = b.p.str() + " equations for";
    for (size_t k = 0; k < nEq; ++k) text += " x" + std::to_string(vars[k]);
    c.key(text);
    c.sample(text);

    CodeHandler<double> h;
    std::vector<CGD> x(b.p.n);
    h.makeVariables(x);
    std::vector<CGD> all = evalAll<CGD>(b.p, x);
    std::vector<CGD> y;
    for (int d : b.p.deps) y.push_back(all[d]);
    std::string hist;
    // full values of the independents at every point
    std::vector<std::vector<LD>> X;
    std::vector<std::vector<LD>> want; // values of all the dependents
    for (size_t k = 0; k < NPTS; ++k) {
        std::vector<LD> P(b.v[k].begin(), b.v[k].begin() + b.p.n);
        ILD in(h, P);
        for (size_t q = 0; q < nEq; ++q) P[nVar + q] = in.value(all[E[q]]);
        X.push_back(P);
        ILD in2(h, P);
        std::vector<LD> w;
        for (auto& e : y) w.push_back(in2.value(e));
        want.push_back(w);
    }
    std::vector<OperationNode<double>*> node; // of every independent, in the current list
    std::vector<size_t> idx; // its position in the original list
    for (size_t i = 0; i < b.p.n; ++i) { node.push_back(x[i].getOperationNode()); idx.push_back(i); }

    struct Sub { size_t var; std::vector<std::string> before; bool removed; };
    std::vector<Sub> subs;
    bool degenerate = false, anyChecked = false;
    auto texts = [&]() { std::vector<std::string> t; for (auto& e : y) t.push_back(graphText(h, e)); return t; };
    auto where = [&]() { return " after" + (hist.empty() ? std::string(" nothing") : hist) + "; case: " + text; };
    // evaluation of all the functions: by direct traversal, with the evaluator and with generated sources
    auto verify = [&](bool compile) {
        c.check(h.getIndependentVariableSize() == node.size(), "wrong number of independents" + where());
        for (size_t k = 0; k < NPTS; ++k) {
            std::vector<LD> P;
            std::set<size_t> substituted;
            for (auto& s : subs) substituted.insert(s.var);
            for (size_t i = 0; i < node.size(); ++i) P.push_back(substituted.count(idx[i]) ? (LD) NAN : X[k][idx[i]]);
            ILD in(h, P);
            // substituted variables
            bool ok = true;
            for (auto& s : subs) {
                LD q = in.value(x[s.var]);
                if (!(fabsl(q - X[k][s.var]) < 1e-7L * (1 + fabsl(X[k][s.var])))) {
                    // is the variable determined by the equations?
                    if (degenerate) { ok = false; break; }
                    // derivative of the equation
                    ok = false;
                    size_t eq = std::find(vars.begin(), vars.end(), s.var) - vars.begin();
                    CodeHandler<double> h2;
                    std::vector<CGD> x2(b.p.n);
                    h2.makeVariables(x2);
                    std::vector<CGD> all2 = evalAll<CGD>(b.p, x2);
                    std::vector<LD> A(X[k]);
                    auto F = [&](LD t) { A[s.var] = t; return Interp<double, LD>(h2, A).value(all2[R[eq]]); };
                    LD d = (F(X[k][s.var] + 1e-6L) - F(X[k][s.var] - 1e-6L)) / 2e-6L;
                    // with several equations the system can be singular as well
                    if (subs.size() == 1 && fabsl(d) > 1e-3L && fabsl(d) < 1e4L)
                        c.fail("x" + std::to_string(s.var) + " has the value " + pbt::str((double) q) + " instead of " + pbt::str((double) X[k][s.var]) + where());
                    if (subs.size() > 1) {
                        // consistent with its own equation?
                        std::vector<LD> Bv(X[k]);
                        bool fin = true;
                        for (auto& s2 : subs) { Bv[s2.var] = in.value(x[s2.var]); fin = fin && std::isfinite((double) Bv[s2.var]) && fabsl(Bv[s2.var]) < 1e3L; }
                        if (fin) {
                            Interp<double, LD> i2(h2, Bv);
                            for (auto& s2 : subs) {
                                size_t e2 = std::find(vars.begin(), vars.end(), s2.var) - vars.begin();
                                LD rr = i2.value(all2[R[e2]]);
                                bool sq = false;
                                for (auto& i : b.p.ins) sq = sq || i.op == SQRT;
                                if (!sq && std::isfinite((double) rr)) c.check(fabsl(rr) < 1e-5L * (1 + fabsl(Bv[nVar + e2])), "an equation used in a substitution is not satisfied" + where());
                            }
                        }
                    }
                    c.label("undetermined");
                }
            }
            if (!ok) continue;
            anyChecked = true;
            auto cmp = [&](const char* how, size_t i, LD v) {
                c.checkf(fabsl(v - want[k][i]) < 1e-5L * (1 + fabsl(want[k][i])), [&]() {
                    return std::string(how) + ": dependent " + std::to_string(i) + " is " + pbt::str((double) v) + " instead of " + pbt::str((double) want[k][i]) + where(); });
            };
            // sensitive functions are compared only when the values of the variables did not move
            std::vector<LD> lib(y.size());
            bool sens = false;
            for (size_t i = 0; i < y.size(); ++i) { lib[i] = in.value(y[i]); sens = sens || !(fabsl(lib[i] - want[k][i]) < 1e-5L * (1 + fabsl(want[k][i]))); }
            if (sens) {
                // conditions and discontinuities near the point move with rounding errors: only when there are none
                bool hard = false;
                for (auto& s : b.p.ins) hard = hard || s.op == COND || s.op == SIGN || s.op == ABS;
                if (hard) { c.label("sensitive"); continue; }
            }
            for (size_t i = 0; i < y.size(); ++i) cmp("direct evaluation", i, lib[i]);
            std::vector<double> in0(node.size());
            for (size_t i = 0; i < node.size(); ++i) in0[i] = (double) P[i];
            std::vector<AD<double>> ax(in0.begin(), in0.end());
            Evaluator<double, double, AD<double>> ev(h);
            std::vector<AD<double>> ry = ev.evaluate(ax, y);
            for (size_t i = 0; i < y.size(); ++i) cmp("evaluator", i, Value(ry[i]));
            if (compile) {
                std::ostringstream code;
                LanguageC<double> l("double");
                l.setGenerateFunction("f");
                l.setParameterPrecision(17);
                LangCDefaultVariableNameGenerator<double> ng;
                h.generateCode(code, l, y, ng);
                if (c.verbose) std::cout << code.str();
                Lib lb(compileC(c, {{"f.c", code.str()}}, "f"));
                typedef void (*F)(double const* const*, double* const*, void*);
                F f = (F) lb.sym("f");
                std::vector<double> out(y.size(), NAN);
                const double* ip[1] = {in0.data()};
                double* op[1] = {out.data()};
                f(ip, op, nullptr);
                for (size_t i = 0; i < y.size(); ++i) cmp("generated source", i, out[i]);
                compile = false;
                c.label("compiled");
            }
        }
    };
    size_t ops = g.size(1, 6), nextEq = 0, nSub = 0, nUndo = 0, nRem = 0;
    for (size_t q = 0; q < ops; ++q) {
        size_t act = g.weighted({60, 20, 20});
        if (act == 0 && nextEq < nEq) {
            size_t k = nextEq++;
            size_t var = vars[k];
            CGD& r = all[R[k]];
            if (!r.isVariable() || !reaches(*r.getOperationNode(), *x[var].getOperationNode())) { c.label("absent"); continue; }
            Sub s;
            s.var = var;
            s.before = texts();
            s.removed = g.chance(30);
            hist += "; x" + std::to_string(var) + " from equation " + std::to_string(k) + (s.removed ? " (removed)" : "");
            bool solvable = h.isSolvable(*r.getOperationNode(), *x[var].getOperationNode());
            try {
                if (g.flip()) h.substituteIndependent(x[var], r, s.removed);
                else h.substituteIndependent(*x[var].getOperationNode(), *r.getOperationNode(), s.removed);
            } catch (const CGException&) {
                c.check(!solvable, "a solvable equation is not substituted" + where());
                c.check(texts() == s.before && h.getIndependentVariableSize() == node.size(), "a failed substitution changes the functions" + where());
                hist += " (rejected)";
                c.label("rejected");
                continue;
            }
            c.check(solvable, "an equation which is said not to be solvable is substituted" + where());
            subs.push_back(s);
            ++nSub;
            if (s.removed) { size_t i = std::find(idx.begin(), idx.end(), var) - idx.begin(); idx.erase(idx.begin() + i); node.erase(node.begin() + i); }
        } else if (act == 1 && !subs.empty() && !subs.back().removed) {
            Sub s = subs.back();
            subs.pop_back();
            hist += "; undo x" + std::to_string(s.var);
            h.undoSubstituteIndependent(*x[s.var].getOperationNode());
            // aliases may point to other nodes afterwards, but the functions are those from before
            c.check(h.getIndependentVariableSize() == node.size(), "wrong number of independents" + where());
            std::vector<std::string> now = texts();
            bool removedMeanwhile = false;
            for (auto& t : subs) removedMeanwhile = removedMeanwhile || t.removed;
            if (!removedMeanwhile) c.check(now == s.before, "undoing a substitution does not restore the functions" + where());
            ++nUndo;
        } else if (act == 2 && !subs.empty()) {
            Sub& s = subs[g.below(subs.size())];
            OperationNode<double>& nd = *x[s.var].getOperationNode();
            bool thrown = false;
            try { h.removeIndependent(nd); } catch (const CGException&) { thrown = true; }
            hist += "; remove x" + std::to_string(s.var);
            c.check(thrown == s.removed, thrown ? "a substituted variable is not removed" + where() : "a variable is removed twice" + where());
            if (!s.removed) { s.removed = true; size_t i = std::find(idx.begin(), idx.end(), s.var) - idx.begin(); idx.erase(idx.begin() + i); node.erase(node.begin() + i); ++nRem; }
        } else if (act == 1) {
            // invalid requests
            size_t i = g.below(nVar);
            bool isSub = false, removed = false;
            for (auto& s : subs) if (s.var == i) { isSub = true; removed = s.removed; }
            if (isSub && !removed) continue;
            bool thrown = false;
            try { if (removed) h.undoSubstituteIndependent(*x[i].getOperationNode()); else h.removeIndependent(*x[i].getOperationNode()); } catch (const CGException&) { thrown = true; }
            c.check(thrown, removed ? "the substitution of a removed variable is undone" + where() : "a variable without a substitution is removed" + where());
            c.label("invalid request");
        }
        verify(false);
    }
    verify(g.chance(6));
    c.labelIf(nSub > 1, "several substitutions");
    c.labelIf(nUndo > 0, "undone");
    c.labelIf(nRem > 0, "removed");
    c.nontrivial(nSub > 0 && anyChecked);
}

int main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit); // the solver prints missing variables
    return pbt::mainRun(argc, argv, {
        {"solve", caseSolve, 250000, 4000000, 60, false,
         "expressions with one or several occurrences of a variable (invertible and unsupported operations), with a right-hand side for which there is a solution: the solution does not depend "
         "on the variable, gives the known value (or satisfies the equation when there are several branches), isSolvable agrees and nothing changes; non-trivial: solved, at least two operations", false},
        {"substitute", caseSubstitute, 30000, 500000, 60, false,
         "histories of substitutions, undos, removals and invalid requests on several equations and functions: functions evaluated directly, with the evaluator and from generated sources "
         "against the values before the substitutions; non-trivial: some substitution was made and compared", false},
    }, {});
}
