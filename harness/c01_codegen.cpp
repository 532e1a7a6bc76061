/* C01: generated C code computes the recorded function. */
#include "cgen.hpp"
using namespace vf;
using prog::Prog;
using prog::Gened;

struct FnArgs;
struct CAtomicFun { void* p; void* f; void* r; };

struct Variant {
    std::string fn;
    Gened gp;
    bool isFloat;
    bool addAssign;
    bool prefilledZero;
    double uc;
    std::string opts;
};

template<class B>
static void generate(pbt::Case& c, Variant& v, std::map<std::string, std::string>& sources) {
    pbt::Gen& g = c.g;
    typedef CG<B> CGB;
    const Prog& p = v.gp.p;
    std::ostringstream opts;
    CodeHandler<B> h(g.flip() ? 50 : 2);
    std::vector<CGB> y;
    int how = (int) g.below(3);
    if (how < 2) {
        std::vector<CGB> x(p.n);
        h.makeVariables(x);
        if (how == 1) for (size_t i = 0; i < p.n; ++i) x[i].setValue(B(v.gp.x[0][i]));
        y = prog::eval<CGB>(p, x);
        opts << "direct";
    } else {
        // through an AD tape, as users do
        std::vector<AD<CGB> > ax(p.n);
        for (size_t i = 0; i < p.n; ++i) ax[i] = CGB(B(v.gp.x[0][i]));
        CppAD::Independent(ax);
        std::vector<AD<CGB> > ay = prog::eval<AD<CGB>>(p, ax);
        ADFun<CGB> f(ax, ay);
        if (g.flip()) f.optimize("no_conditional_skip");
        std::vector<CGB> x(p.n);
        h.makeVariables(x);
        y = f.Forward(0, x);
        opts << "tape";
    }
    bool reuse = !g.chance(35);
    h.setReuseVariableIDs(reuse);
    opts << " reuse=" << reuse;
    LanguageC<B> lang(v.isFloat ? "float" : "double", g.size(0, 5));
    lang.setGenerateFunction(v.fn);
    if (g.chance(45)) {
        size_t k = g.size(1, 8);
        lang.setMaxAssignmentsPerFunction(k, &sources);
        opts << " maxAssign=" << k;
        c.label("split");
    }
    if (g.chance(35)) {
        size_t k = g.size(1, 6);
        lang.setMaxOperationsPerAssignment(k);
        opts << " maxOps=" << k;
    }
    v.uc = v.isFloat ? 1e-6 : 1e-15;
    if (g.chance(35)) {
        size_t q = g.pick(std::vector<size_t>{17, 6, 9, 12, 4, 15});
        lang.setParameterPrecision(q);
        v.uc = std::pow(10.0, 1.0 - (double) q);
        opts << " precision=" << q;
        c.label("precision");
    }
    v.addAssign = g.chance(15);
    if (v.addAssign) { lang.setDependentAssignOperation("+="); opts << " +="; }
    bool ignoreZero = g.chance(15);
    lang.setIgnoreZeroDepAssign(ignoreZero);
    bool zeroDep = g.chance(15) && !v.addAssign;
    h.setZeroDependents(zeroDep);
    v.prefilledZero = v.addAssign || ignoreZero;
    opts << " ignoreZero=" << ignoreZero << " zeroDep=" << zeroDep;
    if (g.chance(20)) { lang.setArgumentIn("inA"); lang.setArgumentOut("outA"); lang.setArgumentAtomic("atA"); }
    std::string in = lang.getArgumentIn(), out = lang.getArgumentOut();

    std::unique_ptr<VariableNameGenerator<B>> ng;
    int nk = (int) g.below(3);
    if (nk == 0) ng.reset(new LangCDefaultVariableNameGenerator<B>());
    else if (nk == 1) ng.reset(new LangCDefaultVariableNameGenerator<B>("res", "u", "tmp", "arr", "sarr"));
    else {
        std::vector<std::string> dn, in_;
        for (size_t i = 0; i < p.m(); ++i) dn.push_back(g.flip() ? out + "[0][" + std::to_string(i) + "]" : "");
        for (size_t i = 0; i < p.n; ++i) in_.push_back(g.flip() ? in + "[0][" + std::to_string(i) + "]" : "");
        if (g.flip() && !dn.empty()) dn.pop_back();
        if (g.flip() && !in_.empty()) in_.pop_back();
        ng.reset(new LangCCustomVariableNameGenerator<B>(dn, in_));
        c.label("customNames");
    }
    opts << " names=" << nk;
    std::ostringstream code;
    if (g.flip()) {
        h.generateCode(code, lang, y, *ng, "job");
    } else {
        ArrayView<CGB> dep(y);
        std::vector<std::string> atomics;
        h.generateCode(code, lang, dep, *ng, atomics, "job");
    }
    if (!code.str().empty()) sources[v.fn + ".c"] = code.str();
    v.opts = opts.str();
    c.labelIf(reuse, "reuse");
    c.labelIf(how == 2, "tape");
    c.labelIf(v.isFloat, "float");
    c.labelIf(v.addAssign, "addAssign");
}

template<class B>
static void evaluate(pbt::Case& c, Variant& v, Lib& lib) {
    const Prog& p = v.gp.p;
    typedef void (*Fn)(B const* const*, B* const*, CAtomicFun);
    Fn fn = (Fn) lib.sym(v.fn);
    std::vector<char> same = prog::sameEverywhere(p, v.gp.x);
    for (size_t k = 0; k < prog::NPTS; ++k) {
        std::vector<B> x(p.n), y(p.m());
        std::vector<double> xd(p.n);
        for (size_t i = 0; i < p.n; ++i) { x[i] = (B) v.gp.x[k][i]; xd[i] = (double) x[i]; }
        for (auto& e : y) e = v.prefilledZero ? B(0) : B(-12345.5);
        const B* in[1] = {x.data()};
        B* out[1] = {y.data()};
        fn(in, out, CAtomicFun{nullptr, nullptr, nullptr});
        std::vector<double> ref = prog::eval<double>(p, xd);
        double u = v.isFloat ? 8e-7 : 1e-15;
        std::vector<double> bound = prog::errorBoundSafe(p, xd, u, v.uc, same);
        for (size_t i = 0; i < p.m(); ++i) {
            if (bound[i] < 0) { c.label("ill-conditioned"); continue; }
            double tol = 4 * bound[i] + 1e-300;
            ++c.evals;
            if (!close((double) y[i], ref[i], tol))
                c.fail("dependent " + std::to_string(i) + " is " + pbt::str(y[i]) + ", expected " + pbt::str(ref[i]) + " +- " + pbt::str(tol) +
                       " at x=" + pbt::strv(x) + " of {" + p.str() + "} with " + v.opts);
        }
    }
}

static void caseValues(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t nv = g.size(1, 4);
    std::vector<Variant> vs(nv);
    std::map<std::string, std::string> sources;
    std::string all;
    for (size_t i = 0; i < nv; ++i) {
        Variant& v = vs[i];
        v.fn = "fun" + std::to_string(i);
        v.isFloat = g.chance(15);
        prog::Opts o;
        o.nMax = 6;
        o.mMax = 6;
        o.insMax = g.chance(15) ? 80 : 25;
        if (v.isFloat) o.maxAbs = 50;
        if (g.chance(25)) { o.transcend = false; o.cond = false; }  // pure arithmetic: operator precedence
        v.gp = prog::gen(g, o);
        try {
            if (v.isFloat) generate<float>(c, v, sources);
            else generate<double>(c, v, sources);
        } catch (const std::exception& e) {
            throw pbt::Fail(std::string("code generation failed: ") + e.what() + " for {" + v.gp.p.str() + "}");
        }
        bool sh;
        size_t live = prog::liveCount(v.gp.p, sh);
        c.nontrivial(live >= 3);
        c.labelIf(sh, "shared");
        c.labelIf(live > 20, "large");
        all += v.gp.p.str() + " | " + v.opts + "\n";
    }
    c.sample(all);
    if (c.verbose) for (auto& s : sources) std::cout << "---- " << s.first << "\n" << s.second << std::endl;
    Lib lib(compileC(c, sources, "gen"));
    for (Variant& v : vs) {
        if (v.isFloat) evaluate<float>(c, v, lib);
        else evaluate<double>(c, v, lib);
    }
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"values", caseValues, 2500, 60000, 120, false,
         "random straight-line programs (1-6 independents, up to 80 operations, sharing, conditionals, constants, repeated/constant dependents) x random "
         "generation options; the compiled C is run at 3 points; non-trivial: at least 3 live operations", false},
    });
}
