/* C08: re-evaluating a recorded graph reproduces its values and derivatives. */
#include "aprog.hpp"
#include "graph.hpp"
using namespace vf;
typedef CG<double> CGD;

static bool near(double a, double b, double scale) { return close(a, b, 1e-9 * (1 + std::fabs(b) + scale)); }

/** what a case evaluates: a graph in a handler, and the function it stands for */
struct Subject {
    CodeHandler<double> h;
    std::vector<CGD> x, y;
    Prog p;                                   // the function, with the calls inlined
    std::array<std::vector<double>, prog::NPTS> pts;
    std::vector<std::unique_ptr<Atomic>> atomics;
    std::string text;
    std::map<size_t, CppAD::atomic_base<double>*> at;
    std::map<size_t, CppAD::atomic_base<CGD>*> atCG;
    std::vector<std::string> before;          // the recorded graph
};

static void reference(const Prog& p, const std::vector<double>& x, std::vector<double>& y, std::vector<double>& jac, const std::vector<double>& w, std::vector<double>& hes) {
    std::vector<AD<double>> ax(p.n);
    for (size_t i = 0; i < p.n; ++i) ax[i] = x[i];
    CppAD::Independent(ax);
    std::vector<AD<double>> ay = prog::eval<AD<double>>(p, ax);
    ADFun<double> f;
    f.Dependent(ax, ay);
    y = f.Forward(0, x);
    jac = f.Jacobian(x);
    hes = f.Hessian(x, w);
}

struct Checker {
    pbt::Case& c;
    pbt::Gen& g;
    Subject& s;
    std::string hist;
    std::vector<size_t> sub;       // dependents of the evaluation
    bool derivs = true;

    void compare(ADFun<double>& f, const std::string& what) {
        Prog q = s.p;
        q.deps.clear();
        for (size_t i : sub) q.deps.push_back(s.p.deps[i]);
        std::vector<double> w(q.m());
        for (auto& e : w) e = g.chance(20) ? 0.0 : g.real(-2, 2);
        for (size_t k = 0; k < prog::NPTS; ++k) {
            std::vector<double> y, jac, hes;
            reference(q, s.pts[k], y, jac, w, hes);
            std::vector<double> y2 = f.Forward(0, s.pts[k]);
            for (size_t i = 0; i < y.size(); ++i)
                c.checkf(near(y2[i], y[i], 0), [&] { return what + ": value of dependent " + std::to_string(sub[i]) + " is " + pbt::str(y2[i]) + ", expected " + pbt::str(y[i]) + " at " + pbt::strv(s.pts[k]) + hist; });
            if (!derivs) continue;
            std::vector<double> j2 = f.Jacobian(s.pts[k]), h2 = f.Hessian(s.pts[k], w);
            double js = 0, hs = 0;
            for (double e : jac) js = std::max(js, std::fabs(e));
            for (double e : hes) hs = std::max(hs, std::fabs(e));
            if (!std::isfinite(js) || !std::isfinite(hs)) continue;
            for (size_t i = 0; i < jac.size(); ++i)
                c.checkf(close(j2[i], jac[i], 1e-8 * (1 + js)), [&] { return what + ": Jacobian element " + std::to_string(i) + " is " + pbt::str(j2[i]) + ", expected " + pbt::str(jac[i]) + hist; });
            for (size_t i = 0; i < hes.size(); ++i)
                c.checkf(close(h2[i], hes[i], 1e-7 * (1 + hs)), [&] { return what + ": Hessian element " + std::to_string(i) + " is " + pbt::str(h2[i]) + ", expected " + pbt::str(hes[i]) + hist; });
        }
    }

    std::vector<CGD> depSubset() {
        sub.clear();
        std::vector<CGD> d;
        for (size_t i = 0; i < s.y.size(); ++i) if (g.chance(75)) sub.push_back(i);
        if (g.chance(10) && !sub.empty()) sub.push_back(sub[0]);
        if (sub.empty()) sub.push_back(0);
        for (size_t i : sub) d.push_back(s.y[i]);
        return d;
    }

    /** interprets a graph which may have atomic calls */
    double interpA(CodeHandler<double>& h, const CGD& a, const std::vector<double>& x) {
        std::map<const OperationNode<double>*, std::vector<double>> memo;
        std::function<double(const OperationNode<double>&)> node;
        std::map<const OperationNode<double>*, double> mv;
        auto arg = [&](const Argument<double>& q) { return q.getOperation() ? node(*q.getOperation()) : *q.getParameter(); };
        node = [&](const OperationNode<double>& n) -> double {
            auto it = mv.find(&n);
            if (it != mv.end()) return it->second;
            double r;
            if (n.getOperationType() == CGOpCode::ArrayElement) {
                const OperationNode<double>* at = n.getArguments()[1].getOperation();
                if (!memo.count(at)) {
                    if (at->getOperationType() != CGOpCode::AtomicForward) c.fail("unexpected atomic operation in the new graph");
                    size_t id = at->getInfo()[0];
                    const Atomic* A = nullptr;
                    for (auto& e : s.atomics) if (e->cg->getId() == id) A = e.get();
                    if (!A) c.fail("unknown atomic function in the new graph");
                    const auto& in = at->getArguments()[0].getOperation()->getArguments();
                    c.check(in.size() == A->p.n, "wrong number of arguments of an atomic call in the new graph");
                    std::vector<double> ax;
                    for (auto& q : in) ax.push_back(arg(q));
                    memo[at] = prog::eval<double>(A->p, ax);
                }
                size_t i = n.getInfo()[0];
                c.check(i < memo[at].size(), "wrong index of a result of an atomic call");
                r = memo[at][i];
            } else if (n.getOperationType() == CGOpCode::Inv) {
                r = x[h.getIndependentVariableIndex(n)];
            } else {
                // a node of plain operations: interpret with the arguments' values
                CodeHandler<double> t;
                std::vector<double> av;
                std::vector<CGD> tv(n.getArguments().size());
                if (!tv.empty()) t.makeVariables(tv);
                std::vector<Argument<double>> ta;
                for (size_t k = 0; k < tv.size(); ++k) { av.push_back(arg(n.getArguments()[k])); ta.push_back(Argument<double>(*tv[k].getOperationNode())); }
                CGD res(*t.makeNode(n.getOperationType(), n.getInfo(), ta));
                Interp<double> in(t, av);
                r = in.value(res);
            }
            mv[&n] = r;
            return r;
        };
        return a.isParameter() ? a.getValue() : node(*a.getOperationNode());
    }

    void toAD(Evaluator<double, double, AD<double>>& ev) {
        std::vector<CGD> dep = depSubset();
        std::vector<AD<double>> ax(s.p.n);
        for (size_t i = 0; i < s.p.n; ++i) ax[i] = s.pts[0][i];
        CppAD::Independent(ax);
        std::vector<AD<double>> ay;
        try {
            if (g.flip()) ay = ev.evaluate(ax, dep);
            else { ay.resize(dep.size()); ev.evaluate(ArrayView<const AD<double>>(ax), ArrayView<AD<double>>(ay), ArrayView<const CGD>(dep)); }
        } catch (...) { AD<double>::abort_recording(); throw; }
        ADFun<double> f;
        f.Dependent(ax, ay);
        if (g.flip() && s.atomics.empty()) f.optimize("no_conditional_skip"); // checkpoint functions with unused results fail in CppAD after optimize()
        compare(f, "AD<double>");
        c.label("AD<double>");
    }

    void toADCG(Evaluator<double, CGD, AD<CGD>>& ev) {
        std::vector<CGD> dep = depSubset();
        std::vector<AD<CGD>> ax(s.p.n);
        for (size_t i = 0; i < s.p.n; ++i) ax[i] = CGD(s.pts[0][i]);
        CppAD::Independent(ax);
        std::vector<AD<CGD>> ay;
        try { ay = ev.evaluate(ax, dep); } catch (...) { AD<CGD>::abort_recording(); throw; }
        ADFun<CGD> f;
        f.Dependent(ax, ay);
        // with numbers: values and first order
        for (size_t k = 0; k < prog::NPTS; ++k) {
            Prog q = s.p;
            q.deps.clear();
            for (size_t i : sub) q.deps.push_back(s.p.deps[i]);
            std::vector<double> y, jac, hes, w(q.m(), 1.0);
            reference(q, s.pts[k], y, jac, w, hes);
            std::vector<CGD> xc(s.p.n);
            for (size_t i = 0; i < s.p.n; ++i) xc[i] = s.pts[k][i];
            std::vector<CGD> yc = f.Forward(0, xc);
            for (size_t i = 0; i < y.size(); ++i)
                c.checkf(yc[i].isParameter() && near(yc[i].getValue(), y[i], 0), [&] { return "AD<CG>: value of dependent " + std::to_string(sub[i]) + " is wrong, expected " + pbt::str(y[i]) + " at " + pbt::strv(s.pts[k]) + hist; });
            if (!derivs) continue;
            double js = 0;
            for (double e : jac) js = std::max(js, std::fabs(e));
            if (!std::isfinite(js)) continue;
            std::vector<CGD> jc = f.Jacobian(xc);
            for (size_t i = 0; i < jac.size(); ++i)
                c.checkf(jc[i].isValueDefined() && close(jc[i].getValue(), jac[i], 1e-8 * (1 + js)), [&] { return "AD<CG>: Jacobian element " + std::to_string(i) + " is wrong, expected " + pbt::str(jac[i]) + hist; });
        }
        // with variables of another handler
        CodeHandler<double> h2;
        std::vector<CGD> x2(s.p.n);
        h2.makeVariables(x2);
        std::vector<CGD> y2 = f.Forward(0, x2);
        for (size_t k = 0; k < prog::NPTS; ++k) {
            std::vector<double> y = prog::eval<double>(s.p, s.pts[k]);
            for (size_t i = 0; i < sub.size(); ++i) {
                double v = interpA(h2, y2[i], s.pts[k]);
                c.checkf(near(v, y[sub[i]], 0), [&] { return "AD<CG> taped again: dependent " + std::to_string(sub[i]) + " is " + pbt::str(v) + ", expected " + pbt::str(y[sub[i]]) + hist; });
            }
        }
        c.label("AD<CG>");
    }

    void toCG(Evaluator<double, double, CGD>& ev, bool same) {
        std::vector<CGD> dep = depSubset();
        CodeHandler<double> other;
        CodeHandler<double>& h = same ? s.h : other;
        std::vector<CGD> base(s.p.n);
        if (same) base = s.x; else other.makeVariables(base);
        bool vals = g.flip();
        if (vals) for (size_t i = 0; i < base.size(); ++i) base[i].setValue(s.pts[0][i]);
        // new independents: the variables in another order, expressions of them, or numbers
        std::vector<CGD> in(s.p.n);
        std::vector<int> how(s.p.n), from(s.p.n);
        std::array<std::vector<double>, prog::NPTS> px;
        for (auto& e : px) e.resize(s.p.n);
        bool allId = true, allParam = true;
        for (size_t i = 0; i < s.p.n; ++i) {
            how[i] = g.chance(50) ? 0 : (int) g.below(4);
            if (how[i] == 0) { in[i] = base[i]; for (size_t k = 0; k < prog::NPTS; ++k) px[k][i] = s.pts[k][i]; }
            else if (how[i] == 1) { in[i] = s.pts[1][i]; for (size_t k = 0; k < prog::NPTS; ++k) px[k][i] = s.pts[1][i]; allId = false; }
            else if (how[i] == 2) { in[i] = base[i] * 3.0 - base[i] * 2.0; for (size_t k = 0; k < prog::NPTS; ++k) px[k][i] = s.pts[k][i] * 3.0 - s.pts[k][i] * 2.0; allId = false; }
            else { in[i] = -(-base[i]); for (size_t k = 0; k < prog::NPTS; ++k) px[k][i] = s.pts[k][i]; allId = false; }
            if (how[i] != 1) allParam = false;
        }
        // mixing the points is only fine where the function is defined
        Prog q = s.p;
        std::array<std::vector<double>, prog::NPTS> ref;
        for (size_t k = 0; k < prog::NPTS; ++k) {
            std::vector<double> all = prog::evalAll<double>(q, px[k]);
            for (double e : all) if (!std::isfinite(e) || std::fabs(e) > 1e5) return;
            std::vector<double> b = prog::errorBoundSafe(q, px[k], 1e-15, 1e-15);
            for (double e : b) if (e < 0 || e > 1e-8) return;
            ref[k] = prog::eval<double>(q, px[k]);
        }
        std::string what = same ? "CG in the same handler" : "CG in another handler";
        if (allParam) { // no handler known
            if (!s.atomics.empty()) return;
        }
        std::vector<CGD> out = ev.evaluate(in, dep);
        for (size_t k = 0; k < prog::NPTS; ++k)
            for (size_t i = 0; i < sub.size(); ++i) {
                c.check(out[i].isParameter() || out[i].getCodeHandler() == &h, what + ": the result is in a wrong handler" + hist);
                double v = interpA(h, out[i], s.pts[k]);
                c.checkf(near(v, ref[k][sub[i]], 0), [&] { return what + ": dependent " + std::to_string(sub[i]) + " is " + pbt::str(v) + ", expected " + pbt::str(ref[k][sub[i]]) + " at " + pbt::strv(px[k]) + hist; });
                if (out[i].isValueDefined() && (vals || out[i].isParameter()) && k == 0)
                    c.checkf(near(out[i].getValue(), ref[0][sub[i]], 0), [&] { return what + ": the tracked value of dependent " + std::to_string(sub[i]) + " is " + pbt::str(out[i].getValue()) + ", expected " + pbt::str(ref[0][sub[i]]) + hist; });
                if (vals) c.check(out[i].isValueDefined() || (!same && !s.atomics.empty()), what + ": the value of a dependent is not tracked" + hist);
            }
        if (!same) { // the new handler can be used as any other
            std::ostringstream code;
            LanguageC<double> lang("double");
            lang.setGenerateFunction("f");
            LangCDefaultVariableNameGenerator<double> ng;
            std::vector<CGD> o2 = out;
            try { h.generateCode(code, lang, o2, ng); }
            catch (const std::exception& e) { c.fail(what + ": source code cannot be generated from the new graph: " + e.what() + hist); }
        }
        c.label(what);
        c.labelIf(!allId, "substituted");
    }

    void wrongSize(Evaluator<double, double, AD<double>>& ev, Evaluator<double, double, CGD>& evc) {
        int thrown = 0;
        std::vector<AD<double>> ax(s.p.n + 1);
        try { ev.evaluate(ax, s.y); } catch (const CGException&) { ++thrown; }
        std::vector<CGD> ac(s.p.n - 1);
        try { evc.evaluate(ac, s.y); } catch (const CGException&) { ++thrown; }
        std::vector<AD<double>> ax2(s.p.n), ay(s.y.size() + 1);
        try { ev.evaluate(ArrayView<const AD<double>>(ax2), ArrayView<AD<double>>(ay), ArrayView<const CGD>(s.y)); } catch (const CGException&) { ++thrown; }
        c.check(thrown == 3, "an evaluation with the wrong number of independents or dependents is accepted" + hist);
        c.label("wrong-size");
    }

    void run() {
        Evaluator<double, double, AD<double>> evAD(s.h);
        Evaluator<double, CGD, AD<CGD>> evADCG(s.h);
        Evaluator<double, double, CGD> evCG(s.h);
        bool atomics = !s.atomics.empty();
        bool missing = atomics && g.chance(15);
        for (size_t i = 0; i < s.y.size(); ++i) s.before.push_back(textA(s.y[i]));
        if (missing) {
            // not known yet: a clean failure, and the evaluator can be used afterwards
            std::vector<AD<double>> ax(s.p.n);
            for (size_t i = 0; i < s.p.n; ++i) ax[i] = s.pts[0][i];
            bool thrown = false, needed = false;
            for (auto& t : s.before) if (t.find("A" ) != std::string::npos) needed = true;
            try { evAD.evaluate(ax, s.y); } catch (const CGException&) { thrown = true; }
            c.check(thrown == needed, "an evaluation with a missing atomic function does not fail" + hist);
            hist += "; missing atomic";
        }
        if (atomics) {
            for (auto& e : s.at) c.check(!evAD.addAtomicFunction(e.first, *e.second), "a new atomic function is reported as existing");
            if (g.flip()) evADCG.addAtomicFunctions(s.atCG);
            else for (auto& e : s.atCG) evADCG.addAtomicFunction(e.first, *e.second);
        }
        size_t evals = g.size(1, 5);
        for (size_t e = 0; e < evals; ++e) {
            int t = (int) g.below(10);
            if (t < 3) { hist += "; AD<double>"; toAD(evAD); }
            else if (t < 5) { hist += "; AD<CG>"; toADCG(evADCG); }
            else if (t < 7) { hist += "; CG same"; toCG(evCG, true); }
            else if (t < 9) { hist += "; CG other"; toCG(evCG, false); }
            else { hist += "; wrong size"; wrongSize(evAD, evCG); }
            c.check(!evAD.isUnderEvaluation() && !evCG.isUnderEvaluation() && !evADCG.isUnderEvaluation(), "an evaluator is still evaluating after it finished" + hist);
            if (g.chance(25)) { // the handler goes on recording
                CGD more = s.x[0] * 2.5 + s.y[0];
                (void) more;
                hist += "; record";
            }
        }
        for (size_t i = 0; i < s.y.size(); ++i)
            c.checkf(textA(s.y[i]) == s.before[i], [&] { return "the recorded graph has changed: " + textA(s.y[i]) + " was " + s.before[i] + hist; });
        c.labelIf(evals > 1, "repeated");
    }

    /** the text of a graph, with shared nodes written once */
    std::string textA(const CGD& a) {
        std::ostringstream o;
        o.precision(17);
        if (a.isParameter()) { o << a.getValue(); return o.str(); }
        std::map<const OperationNode<double>*, size_t> num;
        std::function<void(const OperationNode<double>&)> rec = [&](const OperationNode<double>& n) {
            auto it = num.find(&n);
            if (it != num.end()) { o << "#" << it->second; return; }
            size_t id = num.size();
            num[&n] = id;
            if (n.getOperationType() == CGOpCode::Inv) { o << "x" << s.h.getIndependentVariableIndex(n); return; }
            if (n.getOperationType() == CGOpCode::AtomicForward) o << "A";
            o << (int) n.getOperationType();
            for (size_t i : n.getInfo()) o << ":" << i;
            if (n.getName()) o << "'" << *n.getName() << "'";
            o << "(";
            for (const auto& q : n.getArguments()) {
                if (q.getOperation()) rec(*q.getOperation()); else o << *q.getParameter();
                o << ",";
            }
            o << ")";
        };
        rec(*a.getOperationNode());
        return o.str();
    }
};

static void caseGraphs(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Subject s;
    prog::Opts o;
    o.nMax = 4; o.mMax = 4; o.insMax = 18;
    o.maxAbs = 100;
    prog::Gened gp = prog::gen(g, o);
    s.p = gp.p;
    s.pts = gp.x;
    c.sample(s.p.str());
    s.text = s.p.str();
    s.x.resize(s.p.n);
    s.h.makeVariables(s.x);
    bool vals = g.flip();
    if (vals) for (size_t i = 0; i < s.p.n; ++i) s.x[i].setValue(s.pts[0][i]);
    if (g.flip()) s.y = prog::eval<CGD>(s.p, s.x);
    else {
        std::vector<AD<CGD>> ax(s.p.n);
        for (size_t i = 0; i < s.p.n; ++i) ax[i] = CGD(s.pts[0][i]);
        CppAD::Independent(ax);
        std::vector<AD<CGD>> ay = prog::eval<AD<CGD>>(s.p, ax);
        ADFun<CGD> f(ax, ay);
        s.y = f.Forward(0, s.x);
    }
    bool sh;
    size_t live = prog::liveCount(s.p, sh);
    c.nontrivial(live >= 3);
    c.labelIf(sh, "shared");
    Checker k{c, g, s, "", {}, true};
    k.hist = " for {" + s.text + "} history: ";
    k.run();
}

static void caseAtomics(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Subject s;
    AOpts o;
    o.ops.maxAbs = 100;
    AGened ag = genA(g, o);
    s.p = inlineCalls(ag.p);
    s.pts = ag.x;
    s.text = ag.p.str();
    c.sample(s.text);
    for (size_t i = 0; i < ag.p.inner.size(); ++i) {
        std::vector<double> x0;
        for (size_t j = 0; j < ag.p.inner[i].n; ++j) x0.push_back(g.real(-1, 1));
        s.atomics.emplace_back(new Atomic(ag.p.inner[i], "atomic" + std::to_string(i), x0, g.flip()));
        s.at[s.atomics.back()->cg->getId()] = s.atomics.back()->cp.get();
        s.atCG[s.atomics.back()->cg->getId()] = s.atomics.back()->cg.get();
    }
    s.x.resize(s.p.n);
    s.h.makeVariables(s.x);
    if (g.flip()) for (size_t i = 0; i < s.p.n; ++i) s.x[i].setValue(s.pts[0][i]);
    std::vector<AD<CGD>> ax(s.p.n);
    for (size_t i = 0; i < s.p.n; ++i) ax[i] = CGD(s.pts[0][i]);
    CppAD::Independent(ax);
    std::vector<AD<CGD>> ay = evalA<AD<CGD>>(ag.p, ax, [&](size_t i, const std::vector<AD<CGD>>& a) {
        std::vector<AD<CGD>> r(ag.p.inner[i].m());
        (*s.atomics[i]->cg)(a, r);
        return r;
    });
    ADFun<CGD> f(ax, ay);
    s.y = f.Forward(0, s.x);
    Checker k{c, g, s, "", {}, true};
    k.hist = " for {" + s.text + "} history: ";
    size_t used = 0;
    for (auto& e : s.y) if (k.textA(e).find("A") != std::string::npos) ++used;
    c.nontrivial(used > 0);
    c.label("atomics");
    k.run();
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"graphs", caseGraphs, 60000, 600000, 60, false,
         "recorded graphs of random programs (all operations) evaluated 1-5 times (any order) with AD<double> (values, Jacobian and Hessian of the new tape), "
         "AD<CG<double>>, CG in the same and in another handler (substituted independents), with failing calls in between; non-trivial: at least 3 live operations", false},
        {"atomics", caseAtomics, 30000, 300000, 60, false,
         "the same for graphs with calls of atomic functions; non-trivial: a dependent needs an atomic call", false},
    });
}
