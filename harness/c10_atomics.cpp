/* C10: functions which call other functions through atomics. */
#include "model.hpp"
#include "aprog.hpp"
#include "loopprog.hpp"
using namespace vf;
typedef CG<double> CGD;
typedef AD<CGD> ADCGD;

enum Kind { USER, COMPILED, BRIDGE };
static const char* kindName[] = {"user", "compiled", "bridge"};

/** a function which can be called as an atomic */
struct Fn {
    std::string name;
    Kind kind = USER;
    bool standAlone = false, external = false;
    prog::Prog flat;                       // with all calls inlined
    AProg ap;                              // its own calls, if any
    std::vector<std::shared_ptr<Fn>> inner;
    std::vector<double> x0;
    std::unique_ptr<CppAD::checkpoint<double>> cp;
    std::vector<Spec> specs;
    std::unique_ptr<BatchCompiler> comp;
    Built built;
    std::unique_ptr<CGAbstractAtomicFun<double>> cg;
    GenericModel<double>* model() { return built.models.begin()->second.get(); }

    std::vector<ADCGD> call(const std::vector<ADCGD>& a) {
        CppAD::vector<ADCGD> ax(a.size()), ay(flat.m());
        for (size_t i = 0; i < a.size(); ++i) ax[i] = a[i];
        (*cg)(ax, ay);
        std::vector<ADCGD> r;
        for (size_t i = 0; i < ay.size(); ++i) r.push_back(ay[i]);
        return r;
    }
    void addTo(GenericModel<double>& outer, pbt::Case& c) {
        bool ok;
        if (kind == USER) ok = outer.addAtomicFunction(*cp);
        else if (external) ok = outer.addExternalModel(*model());
        else ok = outer.addAtomicFunction(model()->asAtomic());
        (void) ok; (void) c;
    }
    std::string str() const {
        std::string s = name + "(" + kindName[kind] + (standAlone ? " stand-alone" : "") + (external ? " external" : "") + ")={";
        s += inner.empty() ? flat.str() : ap.str();
        s += "}";
        return s;
    }
};
typedef std::shared_ptr<Fn> FnP;

static std::function<std::vector<ADCGD>(const std::vector<ADCGD>&)> algoOf(const AProg& ap, const std::vector<FnP>& inner) {
    return [ap, inner](const std::vector<ADCGD>& x) {
        return evalA<ADCGD>(ap, x, [&](size_t i, const std::vector<ADCGD>& a) { return inner[i]->call(a); });
    };
}

/** makes the function callable: taped, compiled, ... */
static void prepare(pbt::Case& c, Fn& f) {
    if (f.kind == USER) {
        std::vector<AD<double>> ax(f.flat.n), ay(f.flat.m());
        for (size_t i = 0; i < ax.size(); ++i) ax[i] = f.x0[i];
        prog::Prog p = f.flat;
        auto algo = [p](const std::vector<AD<double>>& x, std::vector<AD<double>>& y) { y = prog::eval<AD<double>>(p, x); };
        f.cp.reset(new CppAD::checkpoint<double>(f.name.c_str(), algo, ax, ay));
        f.cg.reset(new CGAtomicFun<double>(*f.cp, ArrayView<const AD<double>>(ax), f.standAlone));
        return;
    }
    f.specs.resize(1);
    Spec& s = f.specs[0];
    s.name = f.name;
    s.gp.p = f.flat;
    for (auto& x : s.gp.x) x = f.x0;
    if (!f.inner.empty()) { s.algo = algoOf(f.ap, f.inner); s.text = f.str(); }
    s.o.zero = s.o.f1 = s.o.r1 = s.o.r2 = s.o.sjac = s.o.shess = true;
    f.comp.reset(new BatchCompiler(c));
    s.doTape();
    f.built.lib.reset();
    {
        std::string lib = f.name;
        for (auto& q : f.specs) q.prepare();
        try {
            ModelLibraryCSourceGen<double> ls(*s.src);
            DynamicModelLibraryProcessor<double> proc(ls, c.scratch + "/" + lib);
            f.built.lib = proc.createDynamicLibrary(*f.comp);
        } catch (const pbt::Fail& e) {
            throw pbt::Fail(std::string(e.what()) + " for the atomic " + f.str());
        } catch (const std::exception& e) {
            throw pbt::Fail(std::string("the model library cannot be created: ") + e.what() + " for the atomic " + f.str());
        }
        f.built.models[f.name] = f.built.lib->model(f.name);
    }
    for (auto& i : f.inner) i->addTo(*f.model(), c);
    if (f.kind == COMPILED) {
        CppAD::vector<double> xs(f.flat.n);
        for (size_t i = 0; i < xs.size(); ++i) xs[i] = f.x0[i];
        f.cg.reset(new CGAtomicFun<double>(f.model()->asAtomic(), xs, f.standAlone));
    } else {
        f.cg.reset(new CGAtomicFunBridge<double>(f.name, *s.fun, f.standAlone, f.external));
    }
}

static FnP genFn(pbt::Gen& g, const std::string& name, Kind kind, const std::vector<FnP>& lower) {
    FnP f = std::make_shared<Fn>();
    f->name = name;
    f->kind = kind;
    f->standAlone = g.flip();
    f->external = g.flip();
    if (!lower.empty()) {
        AOpts ao;
        ao.stepsMax = 5;
        ao.nMax = 3;
        ao.mMax = 3;
        ao.ops.transcend = false;
        ao.ops.special = false;
        ao.ops.maxAbs = 20;
        std::vector<prog::Prog> flats;
        for (auto& l : lower) flats.push_back(l->flat);
        for (int t = 0; ; ++t) {
            AGened a = genA(g, ao, flats);
            bool smooth = true;  // it must be possible to call it with any arguments
            for (auto& st : a.p.steps)
                if (st.inner < 0) switch (st.ins.op) {
                    case prog::ADD: case prog::SUB: case prog::MUL: case prog::NEG: case prog::CONST: case prog::SIN: case prog::COS: case prog::TANH: case prog::ATAN: break;
                    default: smooth = false;
                }
            if (!smooth && t < 6) continue;
            if (!smooth) throw pbt::Discard();
            f->ap = a.p;
            f->inner = lower;
            f->flat = inlineCalls(a.p);
            f->x0 = a.x[0];
            break;
        }
    } else {
        f->flat = genInner(g);
        for (size_t i = 0; i < f->flat.n; ++i) f->x0.push_back(g.real(-2, 2));
    }
    return f;
}

static void checkOuter(pbt::Case& c, Spec& s, const std::vector<FnP>& fns) {
    std::vector<Spec> specs;
    specs.push_back(std::move(s));
    BatchCompiler comp(c);
    comp.joined = !c.g.chance(10);
    int how = (int) c.g.below(12);
    Built b = build(c, specs, comp);
    Spec& q = specs[0];
    GenericModel<double>& m = *b.models[q.name];
    for (auto& f : fns) f->addTo(m, c);
    std::vector<Point> pts;
    for (size_t k = 0; k < prog::NPTS; ++k) pts.push_back(point(q.gp, k));
    for (size_t k = 0; k < prog::NPTS; ++k) {
        if (!pts[k].ok) { c.label("ill-conditioned"); continue; }
        checkModelValues(c, m, q, pts[k], how + (int) k);
        checkDirectional(c, m, q, pts[k], c.g);
    }
    checkSparsity(c, m, q, pts);
}

/** outer function with calls of 1-2 functions, nested up to 3 levels */
static void caseCalls(pbt::Case& c) {
    pbt::Gen& g = c.g;
    std::vector<FnP> fns;
    size_t levels = g.weighted({60, 30, 10}) + 1;
    for (size_t l = 0; l < levels; ++l) {
        Kind k = l > 0 || g.chance(45) ? (g.flip() ? COMPILED : BRIDGE) : USER;
        std::vector<FnP> lower;
        if (l > 0) { lower.push_back(fns.back()); if (fns.size() > 1 && g.flip()) lower.insert(lower.begin(), fns[0]); }
        fns.push_back(genFn(g, "f" + std::to_string(l), k, lower));
    }
    if (levels == 1 && g.chance(30)) fns.push_back(genFn(g, "g0", (Kind) g.below(3), {}));
    AOpts ao;
    ao.ops.maxAbs = 30;
    if (g.chance(50)) { ao.ops.transcend = false; ao.ops.special = false; }
    std::vector<prog::Prog> flats;
    for (auto& f : fns) flats.push_back(f->flat);
    AGened a = genA(g, ao, flats);
    Spec s;
    s.name = "outer";
    s.gp.p = inlineCalls(a.p);
    s.gp.x = a.x;
    std::string t;
    for (auto& f : fns) { t += f->str() + "; "; c.label(kindName[f->kind]); }
    s.text = t + a.p.str();
    s.algo = algoOf(a.p, fns);
    c.labelIf(levels > 1, "nested");
    c.labelIf(a.p.calls > 1, "manyCalls");
    for (auto& st : a.p.steps)
        if (st.inner >= 0) {
            std::set<int> u(st.args.begin(), st.args.end());
            c.labelIf(u.size() < st.args.size(), "repeatedArgs");
        }
    c.sample(s.str());
    for (auto& f : fns) prepare(c, *f);
    s.doTape();
    s.o = genOptions(g, *s.fun);
    s.o.zero = true;
    s.o.jac = g.chance(25);
    s.o.hess = g.chance(25);
    s.o.sjac = g.chance(70);
    s.o.shess = g.chance(60);
    s.o.f1 = g.chance(40);
    s.o.r1 = g.chance(40);
    s.o.r2 = g.chance(40);
    s.typical = g.flip();
    c.nontrivial(true);
    c.sample(s.str());
    checkOuter(c, s, fns);
}

/** loops whose equations call atomics: some kinds of operations of the program are calls */
static void caseLoops(pbt::Case& c) {
    pbt::Gen& g = c.g;
    prog::Opts po = modelProgOpts(g);
    po.special = false;
    po.maxAbs = 30;
    loopprog::Result r = loopprog::gen(g, po, 8);
    std::map<int, size_t> count;
    for (auto& i : r.gp.p.ins)
        switch (i.op) {
            case prog::ADD: case prog::SUB: case prog::MUL: case prog::NEG: case prog::SIN: case prog::COS: case prog::TANH: case prog::ATAN: ++count[i.op]; break;
            default: break;
        }
    if (count.empty()) throw pbt::Discard();
    std::vector<int> ops;
    for (auto& k : count) ops.push_back(k.first);
    std::map<int, size_t> byOp;
    std::vector<FnP> fns;
    size_t nf = g.size(1, 2);
    for (size_t k = 0; k < nf; ++k) {
        int op = g.pick(ops);
        if (byOp.count(op)) continue;
        byOp[op] = fns.size();
        FnP f = std::make_shared<Fn>();
        f->name = "f" + std::to_string(k);
        f->kind = (Kind) g.below(3);
        f->standAlone = g.flip();
        f->external = g.flip();
        bool bin = loopprog::binary((prog::Op) op);
        f->flat.n = bin ? 2 : 1;
        Ins s;
        s.op = (prog::Op) op;
        s.a = 0;
        s.b = bin ? 1 : 0;
        f->flat.ins.push_back(s);
        f->flat.deps.push_back((int) f->flat.n);
        if (g.flip()) { // a result which is not used
            Ins t;
            t.op = prog::SIN;
            t.a = t.b = 0;
            f->flat.ins.push_back(t);
            f->flat.deps.insert(f->flat.deps.begin() + (g.flip() ? 1 : 0), (int) f->flat.n + 1);
        }
        f->x0.assign(f->flat.n, 0.7);
        fns.push_back(f);
    }
    prog::Prog p = r.gp.p;
    Spec s;
    s.name = "loopy";
    s.gp = r.gp;
    s.related = r.related;
    for (auto& f : fns) { s.text += f->str() + "; "; c.label(kindName[f->kind]); }
    for (auto& b : byOp) { Ins q; q.op = (prog::Op) b.first; s.text += "op " + std::to_string(b.first) + " is f" + std::to_string(b.second) + "; "; }
    s.text += r.gp.p.str();
    s.algo = [p, fns, byOp](const std::vector<ADCGD>& x) {
        std::vector<ADCGD> v(x.begin(), x.end());
        for (auto& i : p.ins) {
            auto it = byOp.find(i.op);
            if (it == byOp.end()) { v.push_back(prog::apply<ADCGD>(i, v)); continue; }
            Fn& f = *fns[it->second];
            std::vector<ADCGD> a{v[i.a]};
            if (f.flat.n == 2) a.push_back(v[i.b]);
            std::vector<ADCGD> y = f.call(a);
            size_t k = 0;
            while (f.flat.deps[k] != (int) f.flat.n) ++k;
            v.push_back(y[k]);
        }
        std::vector<ADCGD> y;
        for (int d : p.deps) y.push_back(v[d]);
        return y;
    };
    c.sample(s.str());
    for (auto& f : fns) prepare(c, *f);
    s.doTape();
    s.o = genOptions(g, *s.fun);
    s.o.zero = true;
    s.o.jac = g.chance(20);
    s.o.hess = g.chance(20);
    s.o.sjac = g.chance(60);
    s.o.shess = g.chance(50);
    s.o.f1 = g.chance(35);
    s.o.r1 = g.chance(35);
    s.o.r2 = g.chance(35);
    s.typical = true;
    c.nontrivial(!r.related.empty());
    c.sample(s.str());
    checkOuter(c, s, fns);
}

/** a compiled model as an atomic function of an AD<double> tape */
static void caseTape(pbt::Case& c) {
    pbt::Gen& g = c.g;
    std::vector<FnP> fns;
    fns.push_back(genFn(g, "f0", g.flip() ? COMPILED : BRIDGE, {}));
    if (g.chance(30)) fns.push_back(genFn(g, "f1", g.flip() ? COMPILED : BRIDGE, {fns[0]}));
    AOpts ao;
    ao.ops.maxAbs = 30;
    if (g.chance(50)) { ao.ops.transcend = false; ao.ops.special = false; }
    std::vector<prog::Prog> flats;
    for (auto& f : fns) flats.push_back(f->flat);
    AGened a = genA(g, ao, flats);
    prog::Gened gp;
    gp.p = inlineCalls(a.p);
    gp.x = a.x;
    std::string text;
    for (auto& f : fns) text += f->str() + "; ";
    text += a.p.str();
    c.sample(text);
    c.nontrivial(true);
    for (auto& f : fns) prepare(c, *f);
    size_t n = a.p.n, m = a.p.m();
    std::vector<AD<double>> ax(n);
    for (size_t i = 0; i < n; ++i) ax[i] = a.x[0][i];
    CppAD::Independent(ax);
    std::vector<AD<double>> ay = evalA<AD<double>>(a.p, ax, [&](size_t i, const std::vector<AD<double>>& v) {
        CppAD::vector<AD<double>> bx(v.size()), by(fns[i]->flat.m());
        for (size_t k = 0; k < v.size(); ++k) bx[k] = v[k];
        fns[i]->model()->asAtomic()(bx, by);
        std::vector<AD<double>> r;
        for (size_t k = 0; k < by.size(); ++k) r.push_back(by[k]);
        return r;
    });
    ADFun<double> fun(ax, ay);
    Spec s;
    s.gp = gp;
    s.text = text;
    Cmp cmp(c, s);
    std::vector<std::set<size_t>> jp = tapeJacPattern(fun), hp = tapeHessPattern(fun);
    for (size_t q = 0; q < prog::NPTS; ++q) {
        Point pt = point(gp, q);
        if (!pt.ok) { c.label("ill-conditioned"); continue; }
        const std::vector<double>& x = pt.x;
        std::vector<double> y = fun.Forward(0, x);
        for (size_t i = 0; i < m; ++i) cmp("Forward(0)", i, 0, y[i], pt.ref.y[i].v, pt.ref.y[i].a, x);
        for (size_t j = 0; j < n; ++j) {
            std::vector<double> d(n, 0.0);
            d[j] = 1;
            std::vector<double> y1 = fun.Forward(1, d);
            for (size_t i = 0; i < m; ++i) {
                cmp("Forward(1)", i, j, y1[i], pt.ref.y[i].g[j], pt.ref.y[i].ga[j], x);
                c.check(jp[i].count(j) || fabsl(pt.ref.y[i].g[j]) <= 1e-7 * (1 + pt.ref.y[i].ga[j]), "the Jacobian pattern of the tape lacks a non-zero element of " + text);
            }
            for (size_t i = 0; i < m; ++i) {
                std::vector<double> w(m, 0.0);
                w[i] = 1;
                std::vector<double> r1 = fun.Reverse(1, w);
                for (size_t k = 0; k < n; ++k) cmp("Reverse(1)", i, k, r1[k], pt.ref.y[i].g[k], pt.ref.y[i].ga[k], x);
                // partial derivatives of the weighted zero and first order Taylor coefficients
                std::vector<double> w2(2 * m, 0.0);
                w2[2 * i] = g.chance(40) ? g.real(-2, 2) : 0.0;
                w2[2 * i + 1] = g.chance(80) ? g.real(-2, 2) : 0.0;
                std::vector<double> r2 = fun.Reverse(2, w2);
                for (size_t k = 0; k < n; ++k) {
                    auto& ri = pt.ref.y[i];
                    cmp("Reverse(2)", j, k, r2[2 * k], w2[2 * i] * ri.g[k] + w2[2 * i + 1] * ri.h[j * n + k],
                        fabs(w2[2 * i]) * ri.ga[k] + fabs(w2[2 * i + 1]) * ri.ha[j * n + k], x);
                    cmp("Reverse(2) first order", j, k, r2[2 * k + 1], w2[2 * i + 1] * ri.g[k], fabs(w2[2 * i + 1]) * ri.ga[k], x);
                    c.check(hp[j].count(k) || fabsl(ri.h[j * n + k]) <= 1e-7 * (1 + ri.ha[j * n + k]), "the Hessian pattern of the tape lacks a non-zero element of " + text);
                }
            }
        }
    }
}

/**
 * Failures which do not say anything about the property:
 *  - CppAD's own checkpoint functions (the user atomics here) cannot be used with arguments which become constants
 *  - arrays created in different conditional scopes of a loop are rejected (documented restriction)
 *  - the recorded finding reference-iteration of C06 (identified by the call site)
 */
static bool excused(pbt::Case& c, const std::string& what) {
    if (what.find("cppad/core/chkpoint_one/") != std::string::npos) {
        c.label("CppAD's checkpoint with a constant argument");
    } else if (what.find("Not supported yet") != std::string::npos) {
        c.label("rejected: array in different scopes");
    } else if (what.find("internal error at") != std::string::npos && what.find("patterns/equation_group.hpp") != std::string::npos) {
        c.label("finding reference-iteration");
    } else {
        return false;
    }
    return true;
}

template<void (*F)(pbt::Case&)>
static void own(pbt::Case& c) {
    try { F(c); return; }
    catch (const pbt::Fail& e) {
        if (!excused(c, e.what())) throw;
    } catch (const std::logic_error& e) {
        if (!excused(c, e.what())) throw;
    } catch (const CGException& e) {
        if (!excused(c, e.what())) throw;
    }
    c.discard();
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"calls", own<caseCalls>, 700, 25000, 120, false,
         "functions with calls of 1-3 atomic functions (user atomics, compiled models through their atomic or as external models, bridges of CG tapes; nested up to three levels; "
         "repeated, constant and intermediate arguments; unused and reused results) x model options; values, derivatives, directional derivatives and patterns against long double "
         "hyper-dual arithmetic of the inlined function; non-trivial: every case has a call", false},
        {"loops", own<caseLoops>, 300, 10000, 120, false,
         "programs with repeated equation patterns in which some kinds of operations are calls of atomic functions; non-trivial: at least one declared group", false},
        {"tapes", caseTape, 400, 10000, 120, false,
         "compiled models as atomic functions of AD<double> tapes; forward and reverse modes and patterns of the tape; non-trivial: every case has a call", false},
    }, {});
}
