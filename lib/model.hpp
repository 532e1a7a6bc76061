#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
/*
 * Program -> taped model -> compiled model library, with random options, and the
 * comparisons of every function of the compiled model with the reference.
 */
#include "cgen.hpp"
#include "hyper.hpp"

namespace vf {

/** compiles all the sources of a library with one run of the C compiler */
class BatchCompiler : public CCompiler<double> {
    std::string scratch_;
    std::string tmp_ = "tmp", src_ = "src";
    std::set<std::string> objs_, srcs_;
    bool save_ = false, verbose_ = false;
public:
    bool joined = true;
    std::vector<std::string> flags;
    std::map<std::string, std::string> all;   // kept for inspection
    pbt::Case& c;
    explicit BatchCompiler(pbt::Case& c_) : scratch_(c_.scratch), c(c_) {}
    const std::string& getTemporaryFolder() const override { return tmp_; }
    void setTemporaryFolder(const std::string& s) override { tmp_ = s; }
    bool isSaveToDiskFirst() const override { return save_; }
    void setSaveToDiskFirst(bool s) override { save_ = s; }
    const std::string& getSourcesFolder() const override { return src_; }
    void setSourcesFolder(const std::string& s) override { src_ = s; }
    const std::set<std::string>& getObjectFiles() const override { return objs_; }
    const std::set<std::string>& getSourceFiles() const override { return srcs_; }
    bool isVerbose() const override { return verbose_; }
    void setVerbose(bool v) override { verbose_ = v; }
    void compileSources(const std::map<std::string, std::string>& sources, bool, JobTimer*) override {
        for (auto& s : sources) {
            if (all.count(s.first)) throw pbt::Fail("two source files named " + s.first);
            all[s.first] = s.second;
        }
    }
    void cleanup() override {}
    void buildDynamic(const std::string& library, JobTimer*) override {
        if (c.verbose) for (auto& t : all) std::cout << "---- " << t.first << "\n" << t.second << std::endl;
        std::vector<std::string> args{"/usr/bin/gcc", "-shared", "-fPIC", "-O0", "-w", "-pipe", "-o", library};
        args.insert(args.end(), flags.begin(), flags.end());
        std::string log = scratch_ + "/cc.log";
        if (joined) {
            // one translation unit: much faster; not all sources can be joined, hence the second attempt
            const std::string def = LanguageC<double>::ATOMICFUN_STRUCT_DEFINITION;
            std::string t;
            bool first = true;
            for (auto& s : all) {
                std::string q = s.second;
                size_t pos;
                size_t from = 0;
                while ((pos = q.find(def, from)) != std::string::npos) {
                    if (first) { first = false; from = pos + def.size(); }
                    else q.erase(pos, def.size());
                }
                t += q + "\n";
            }
            writeFile(scratch_ + "/all.c", t);
            std::vector<std::string> a = args;
            a.push_back(scratch_ + "/all.c");
            a.push_back("-lm");
            a.push_back("-lpthread");
            if (run(a, log) == 0) return;
            c.label("notJoined");
        }
        for (auto& s : all) {
            writeFile(scratch_ + "/" + s.first, s.second);
            args.push_back(scratch_ + "/" + s.first);
        }
        args.push_back("-lm");
        args.push_back("-lpthread");
        if (run(args, log) != 0) throw pbt::Fail("the generated sources do not compile: " + readFile(log).substr(0, 600));
    }
};

typedef std::vector<std::pair<size_t, size_t>> Elements;

struct Options {
    bool zero = true, jac = false, hess = false, sjac = false, shess = false, f1 = false, r1 = false, r2 = false;
    bool reuse1 = true, reuse2 = true, byEq = false;
    int jacMode = 0;
    size_t maxAssign = 0, maxOps = 0, precision = 0;
    bool customJac = false, customHess = false;
    bool customAsSets = false;
    Elements ej, eh;
    std::string str() const {
        std::ostringstream o;
        o << (zero ? "zero " : "") << (jac ? "jac " : "") << (hess ? "hess " : "") << (sjac ? "sjac " : "") << (shess ? "shess " : "")
          << (f1 ? "f1 " : "") << (r1 ? "r1 " : "") << (r2 ? "r2 " : "") << "reuse=" << reuse1 << reuse2 << " byEq=" << byEq << " jacMode=" << jacMode;
        if (maxAssign) o << " maxAssign=" << maxAssign;
        if (maxOps) o << " maxOps=" << maxOps;
        if (precision) o << " precision=" << precision;
        if (customJac) { o << " customJac={"; for (auto& e : ej) o << "(" << e.first << "," << e.second << ")"; o << "}"; }
        if (customHess) { o << " customHess={"; for (auto& e : eh) o << "(" << e.first << "," << e.second << ")"; o << "}"; }
        return o.str();
    }
};

/** a random subset of the elements of a pattern, in a random order, without repetition (CppAD rejects elements outside the pattern) */
inline Elements genElements(pbt::Gen& g, const std::vector<std::set<size_t>>& pattern, bool sorted) {
    Elements all, e;
    for (size_t i = 0; i < pattern.size(); ++i) for (size_t j : pattern[i]) all.push_back({i, j});
    if (all.empty()) return e;
    size_t k = g.size(1, std::min<size_t>(all.size(), 12));
    std::set<std::pair<size_t, size_t>> seen;
    for (size_t i = 0; i < k; ++i) {
        auto q = all[g.below(all.size())];
        if (seen.insert(q).second) e.push_back(q);
    }
    if (sorted) std::sort(e.begin(), e.end());
    return e;
}

template<class Base>
std::vector<std::set<size_t>> tapeJacPattern(ADFun<Base>& f) {
    std::vector<std::set<size_t>> r(f.Domain());
    for (size_t j = 0; j < r.size(); ++j) r[j].insert(j);
    return f.ForSparseJac(f.Domain(), r);
}
template<class Base>
std::vector<std::set<size_t>> tapeHessPattern(ADFun<Base>& f) {
    std::vector<std::set<size_t>> r(f.Domain()), s(1);
    for (size_t j = 0; j < r.size(); ++j) r[j].insert(j);
    f.ForSparseJac(f.Domain(), r);
    for (size_t i = 0; i < f.Range(); ++i) s[0].insert(i);
    return f.RevSparseHes(f.Domain(), s);
}

inline Options genOptions(pbt::Gen& g, ADFun<CG<double>>& fun) {
    Options o;
    o.reuse1 = !g.chance(40);
    o.reuse2 = !g.chance(40);
    o.byEq = g.chance(30);
    o.jacMode = (int) g.below(3);
    if (g.chance(25)) o.maxAssign = g.size(1, 12);
    if (g.chance(25)) o.maxOps = g.size(1, 6);
    if (g.chance(10)) o.precision = g.chance(50) ? 17 : 12;
    if (g.chance(25)) {
        o.customJac = true;
        o.customAsSets = g.flip();
        o.ej = genElements(g, tapeJacPattern(fun), o.customAsSets);
    }
    if (g.chance(25)) {
        o.customHess = true;
        o.eh = genElements(g, tapeHessPattern(fun), o.customAsSets);
    }
    return o;
}

inline std::vector<std::set<size_t>> toSets(const Elements& e, size_t rows) {
    std::vector<std::set<size_t>> s(rows);
    for (auto& q : e) s[q.first].insert(q.second);
    return s;
}

inline void applyOptions(ModelCSourceGen<double>& m, const Options& o, const prog::Prog& p) {
    m.setCreateForwardZero(o.zero);
    m.setCreateJacobian(o.jac);
    m.setCreateHessian(o.hess);
    m.setCreateSparseJacobian(o.sjac);
    m.setCreateSparseHessian(o.shess);
    m.setCreateForwardOne(o.f1);
    m.setCreateReverseOne(o.r1);
    m.setCreateReverseTwo(o.r2);
    m.setSparseJacobianReuse1stOrderPasses(o.reuse1);
    m.setSparseHessianReusesRev2(o.reuse2);
    m.setCreateHessianSparsityByEquation(o.byEq);
    m.setJacobianADMode(o.jacMode == 0 ? JacobianADMode::Automatic : o.jacMode == 1 ? JacobianADMode::Forward : JacobianADMode::Reverse);
    if (o.maxAssign) m.setMaxAssignmentsPerFunc(o.maxAssign);
    if (o.maxOps) m.setMaxOperationsPerAssignment(o.maxOps);
    if (o.precision) m.setParameterPrecision(o.precision);
    auto split = [](const Elements& e, std::vector<size_t>& r, std::vector<size_t>& q) {
        for (auto& x : e) { r.push_back(x.first); q.push_back(x.second); }
    };
    if (o.customJac) {
        if (o.customAsSets) m.setCustomSparseJacobianElements(toSets(o.ej, p.m()));
        else { std::vector<size_t> r, q; split(o.ej, r, q); m.setCustomSparseJacobianElements(r, q); }
    }
    if (o.customHess) {
        if (o.customAsSets) m.setCustomSparseHessianElements(toSets(o.eh, p.n));
        else { std::vector<size_t> r, q; split(o.eh, r, q); m.setCustomSparseHessianElements(r, q); }
    }
}

/** a program on an AD tape with CG<double> values */
inline std::unique_ptr<ADFun<CG<double>>> tape(const prog::Prog& p, const std::vector<double>& x, bool optimize) {
    typedef CG<double> CGD;
    std::vector<AD<CGD>> ax(p.n);
    for (size_t i = 0; i < p.n; ++i) ax[i] = CGD(x[i]);
    CppAD::Independent(ax);
    std::vector<AD<CGD>> ay = prog::eval<AD<CGD>>(p, ax);
    std::unique_ptr<ADFun<CGD>> f(new ADFun<CGD>(ax, ay));
    if (optimize) f->optimize("no_conditional_skip");
    return f;
}

/** one model of a library */
struct Spec {
    std::string name;
    prog::Gened gp;
    Options o;
    std::vector<std::set<size_t>> related;
    bool typical = true;
    bool optimize = false;
    std::unique_ptr<ADFun<CG<double>>> fun;
    std::unique_ptr<ModelCSourceGen<double>> src;
    /** another way of evaluating the same function (with atomic functions) */
    std::function<std::vector<AD<CG<double>>>(const std::vector<AD<CG<double>>>&)> algo;
    std::string text;
    std::string str() const {
        std::string s = name + ": {" + (text.empty() ? gp.p.str() : text) + "} " + o.str();
        if (!related.empty()) {
            s += " related=";
            for (auto& r : related) { s += "{"; for (size_t i : r) s += std::to_string(i) + " "; s += "}"; }
        }
        return s;
    }
    void doTape() {
        if (!algo) { fun = tape(gp.p, gp.x[0], optimize); return; }
        std::vector<AD<CG<double>>> ax(gp.p.n);
        for (size_t i = 0; i < ax.size(); ++i) ax[i] = CG<double>(gp.x[0][i]);
        CppAD::Independent(ax);
        std::vector<AD<CG<double>>> ay = algo(ax);
        fun.reset(new ADFun<CG<double>>(ax, ay));
    }
    void prepare() {
        if (!fun) doTape();
        src.reset(new ModelCSourceGen<double>(*fun, name));
        applyOptions(*src, o, gp.p);
        if (typical || !related.empty()) src->setTypicalIndependentValues(gp.x[0]);
        if (!related.empty()) src->setRelatedDependents(related);
    }
};

struct Built {
    std::unique_ptr<DynamicLib<double>> lib;
    std::map<std::string, std::unique_ptr<GenericModel<double>>> models;
};

inline Built build(pbt::Case& c, std::vector<Spec>& specs, BatchCompiler& comp, MultiThreadingType mt = MultiThreadingType::NONE) {
    Built b;
    std::string all;
    for (auto& s : specs) all += s.str() + "; ";
    try {
        for (auto& s : specs) s.prepare();
        ModelLibraryCSourceGen<double> ls(*specs[0].src);
        ls.setMultiThreading(mt);
        for (size_t i = 1; i < specs.size(); ++i) ls.addModel(*specs[i].src);
        DynamicModelLibraryProcessor<double> proc(ls, c.scratch + "/lib");
        b.lib = proc.createDynamicLibrary(comp);
    } catch (const pbt::Fail& e) {
        throw pbt::Fail(std::string(e.what()) + " for " + all);
    } catch (const std::exception& e) {
        throw pbt::Fail(std::string("the model library cannot be created: ") + e.what() + " for " + all);
    }
    std::set<std::string> names = b.lib->getModelNames();
    for (auto& s : specs) {
        c.check(names.count(s.name) == 1, "model " + s.name + " is missing in the library");
        b.models[s.name] = b.lib->model(s.name);
        c.check(b.models[s.name] != nullptr, "model " + s.name + " cannot be loaded");
    }
    c.check(names.size() == specs.size(), "the library lists " + std::to_string(names.size()) + " models");
    return b;
}

/** comparison with tolerances from the magnitudes of the contributions */
struct Cmp {
    pbt::Case& c;
    const Spec& s;
    double rel;
    Cmp(pbt::Case& c_, const Spec& s_) : c(c_), s(s_), rel(s_.o.precision == 0 || s_.o.precision > 14 ? 1e-9 : 1e-7) {}
    double tol(hyper::R mag) const { return rel * (1 + (double) mag); }
    void operator()(const char* what, size_t i, size_t j, double got, hyper::R ref, hyper::R mag, const std::vector<double>& x) {
        ++c.evals;
        if (!close(got, (double) ref, tol(mag)))
            c.fail(std::string(what) + "(" + std::to_string(i) + "," + std::to_string(j) + ") is " + pbt::str(got) + ", expected " + pbt::str((double) ref) +
                   " at x=" + pbt::strv(x) + " of " + s.str());
    }
};

inline bool usable(const hyper::Ref& r) { return r.worst < 1e7; }

}

namespace vf {

/** the point can be compared: the reference is well conditioned everywhere */
struct Point {
    std::vector<double> x;
    hyper::Ref ref;
    bool ok;
};
inline Point point(const prog::Gened& gp, size_t k) {
    Point r;
    r.x = gp.x[k];
    r.ref = hyper::eval(gp.p, r.x);
    r.ok = usable(r.ref);
    return r;
}

/** zero order, dense and sparse Jacobian and Hessian of a compiled model against the reference */
inline void checkModelValues(pbt::Case& c, GenericModel<double>& m, const Spec& s, const Point& pt, int how) {
    const prog::Prog& p = s.gp.p;
    size_t n = p.n, nd = p.m();
    const hyper::Ref& r = pt.ref;
    const std::vector<double>& x = pt.x;
    Cmp cmp(c, s);
    c.check(m.Domain() == n && m.Range() == nd, "wrong dimensions of the model: " + s.str());
    c.check(m.isForwardZeroAvailable() == s.o.zero && m.isJacobianAvailable() == s.o.jac && m.isHessianAvailable() == s.o.hess &&
            m.isSparseJacobianAvailable() == s.o.sjac && m.isSparseHessianAvailable() == s.o.shess,
            "a requested function is missing or an unrequested one is present: " + s.str());
    std::vector<double> w(nd);
    for (size_t i = 0; i < nd; ++i) w[i] = 0.5 + 0.75 * (double) ((i * 7 + how) % 5) - (how % 2 ? 1.0 : 0.0);
    if (how % 3 == 2) w[how % nd] = 0;
    auto wh = [&](size_t i, size_t j) { hyper::R t = 0; for (size_t k = 0; k < nd; ++k) t += w[k] * r.y[k].h[i * n + j]; return t; };
    auto wm = [&](size_t i, size_t j) { hyper::R t = 0; for (size_t k = 0; k < nd; ++k) t += fabsl(w[k]) * r.y[k].ha[i * n + j]; return t; };
    auto inJ = [&](size_t i, size_t j) {
        return !s.o.customJac || std::find(s.o.ej.begin(), s.o.ej.end(), std::make_pair(i, j)) != s.o.ej.end();
    };
    auto inH = [&](size_t i, size_t j) {
        return !s.o.customHess || std::find(s.o.eh.begin(), s.o.eh.end(), std::make_pair(i, j)) != s.o.eh.end();
    };
    const std::vector<const double*> px{x.data()};

    if (s.o.zero) {
        std::vector<double> y;
        switch (how % 4) {
            case 0: y = m.ForwardZero(x); break;
            case 1: m.ForwardZero(x, y); break;
            case 2: y.assign(nd, 1e30); m.ForwardZero(px, ArrayView<double>(y)); break;
            default: {
                CppAD::vector<double> xx(n), yy;
                for (size_t i = 0; i < n; ++i) xx[i] = x[i];
                yy = m.ForwardZero(xx);
                y.assign(yy.data(), yy.data() + yy.size());
            }
        }
        c.check(y.size() == nd, "wrong size of the dependents");
        for (size_t i = 0; i < nd; ++i) cmp("ForwardZero", i, 0, y[i], r.y[i].v, r.y[i].a, x);
    }
    if (s.o.jac) {
        std::vector<double> J(nd * n, 1e30);
        if (how % 3 == 0) J = m.Jacobian(x);
        else if (how % 3 == 1) m.Jacobian(x, J);
        else m.Jacobian(ArrayView<const double>(x), ArrayView<double>(J));
        c.check(J.size() == nd * n, "wrong size of the Jacobian");
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < n; ++j) cmp("Jacobian", i, j, J[i * n + j], r.y[i].g[j], r.y[i].ga[j], x);
    }
    if (s.o.hess) {
        std::vector<double> H(n * n, 1e30);
        if (how % 3 == 0) H = m.Hessian(x, w);
        else if (how % 3 == 1) m.Hessian(x, w, H);
        else m.Hessian(ArrayView<const double>(x), ArrayView<const double>(w), ArrayView<double>(H));
        c.check(H.size() == n * n, "wrong size of the Hessian");
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) cmp("Hessian", i, j, H[i * n + j], wh(i, j), wm(i, j), x);
        size_t e = (size_t) how % nd;
        if (how % 2) H = m.Hessian(x, e);
        else {
            CppAD::vector<double> xx(n), hh;
            for (size_t i = 0; i < n; ++i) xx[i] = x[i];
            hh = m.Hessian(xx, e);
            H.assign(hh.data(), hh.data() + hh.size());
        }
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) cmp("Hessian of one equation", i, j, H[i * n + j], r.y[e].h[i * n + j], r.y[e].ha[i * n + j], x);
    }
    if (s.o.sjac) {
        std::vector<double> J(nd * n, 1e30);
        if (how % 3 == 0) J = m.SparseJacobian(x);
        else if (how % 3 == 1) m.SparseJacobian(x, J);
        else m.SparseJacobian(ArrayView<const double>(x), ArrayView<double>(J));
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < n; ++j)
                cmp("SparseJacobian (dense result)", i, j, J[i * n + j], inJ(i, j) ? r.y[i].g[j] : 0, r.y[i].ga[j], x);
        std::vector<double> v;
        std::vector<size_t> row, col;
        m.SparseJacobian(x, v, row, col);
        c.check(v.size() == row.size() && v.size() == col.size(), "SparseJacobian: sizes of the values, rows and columns differ for " + s.str());
        std::set<std::pair<size_t, size_t>> seen;
        for (size_t e = 0; e < v.size(); ++e) {
            c.check(row[e] < nd && col[e] < n, "SparseJacobian: index out of range for " + s.str());
            c.check(seen.insert({row[e], col[e]}).second, "SparseJacobian: repeated element for " + s.str());
            c.check(inJ(row[e], col[e]), "SparseJacobian: an element that was not requested for " + s.str());
            cmp("SparseJacobian", row[e], col[e], v[e], r.y[row[e]].g[col[e]], r.y[row[e]].ga[col[e]], x);
        }
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < n; ++j)
                if (!seen.count({i, j}) && inJ(i, j)) cmp("SparseJacobian (left out)", i, j, 0, r.y[i].g[j], r.y[i].ga[j], x);
        std::vector<double> v2(v.size(), 1e30);
        size_t const* r2 = nullptr;
        size_t const* c2 = nullptr;
        if (how % 2) m.SparseJacobian(ArrayView<const double>(x), ArrayView<double>(v2), &r2, &c2);
        else m.SparseJacobian(px, ArrayView<double>(v2), &r2, &c2);
        c.check(v2 == v, "SparseJacobian: the overloads disagree for " + s.str());
        c.check(v.empty() || (r2 != nullptr && c2 != nullptr), "SparseJacobian: no row and column indexes provided for " + s.str());
        for (size_t e = 0; e < v.size(); ++e)
            c.check(r2[e] == row[e] && c2[e] == col[e], "SparseJacobian: the overloads disagree on the indexes for " + s.str());
    }
    if (s.o.shess) {
        std::vector<double> H(n * n, 1e30);
        if (how % 3 == 0) H = m.SparseHessian(x, w);
        else if (how % 3 == 1) m.SparseHessian(x, w, H);
        else m.SparseHessian(ArrayView<const double>(x), ArrayView<const double>(w), ArrayView<double>(H));
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                cmp("SparseHessian (dense result)", i, j, H[i * n + j], inH(i, j) ? wh(i, j) : 0, wm(i, j), x);
        std::vector<double> v;
        std::vector<size_t> row, col;
        m.SparseHessian(x, w, v, row, col);
        c.check(v.size() == row.size() && v.size() == col.size(), "SparseHessian: sizes of the values, rows and columns differ for " + s.str());
        std::set<std::pair<size_t, size_t>> seen;
        for (size_t e = 0; e < v.size(); ++e) {
            c.check(row[e] < n && col[e] < n, "SparseHessian: index out of range for " + s.str());
            c.check(seen.insert({row[e], col[e]}).second, "SparseHessian: repeated element for " + s.str());
            c.check(inH(row[e], col[e]), "SparseHessian: an element that was not requested for " + s.str());
            cmp("SparseHessian", row[e], col[e], v[e], wh(row[e], col[e]), wm(row[e], col[e]), x);
        }
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (!seen.count({i, j}) && inH(i, j)) cmp("SparseHessian (left out)", i, j, 0, wh(i, j), wm(i, j), x);
        std::vector<double> v2(v.size(), 1e30);
        size_t const* r2 = nullptr;
        size_t const* c2 = nullptr;
        if (how % 2) m.SparseHessian(ArrayView<const double>(x), ArrayView<const double>(w), ArrayView<double>(v2), &r2, &c2);
        else m.SparseHessian(px, ArrayView<const double>(w), ArrayView<double>(v2), &r2, &c2);
        c.check(v2 == v, "SparseHessian: the overloads disagree for " + s.str());
        c.check(v.empty() || (r2 != nullptr && c2 != nullptr), "SparseHessian: no row and column indexes provided for " + s.str());
        for (size_t e = 0; e < v.size(); ++e)
            c.check(r2[e] == row[e] && c2[e] == col[e], "SparseHessian: the overloads disagree on the indexes for " + s.str());
    }
}


/** directional derivatives (dense and sparse requests) of a compiled model against the reference */
inline void checkDirectional(pbt::Case& c, GenericModel<double>& m, const Spec& s, const Point& pt, pbt::Gen& g) {
    const prog::Prog& p = s.gp.p;
    size_t n = p.n, nd = p.m();
    const hyper::Ref& r = pt.ref;
    const std::vector<double>& x = pt.x;
    Cmp cmp(c, s);
    c.check(m.isForwardOneAvailable() == s.o.f1 && m.isSparseForwardOneAvailable() == s.o.f1 && m.isReverseOneAvailable() == s.o.r1 &&
            m.isSparseReverseOneAvailable() == s.o.r1 && m.isReverseTwoAvailable() == s.o.r2 && m.isSparseReverseTwoAvailable() == s.o.r2,
            "a requested directional function is missing or an unrequested one is present: " + s.str());
    auto inJ = [&](size_t i, size_t j) {
        return !s.o.customJac || std::find(s.o.ej.begin(), s.o.ej.end(), std::make_pair(i, j)) != s.o.ej.end();
    };
    auto inH = [&](size_t i, size_t j) {
        return !s.o.customHess || std::find(s.o.eh.begin(), s.o.eh.end(), std::make_pair(i, j)) != s.o.eh.end();
    };
    auto direction = [&](size_t k) {
        std::vector<double> d(k, 0.0);
        int kind = (int) g.below(4);
        if (kind == 0) d[g.below(k)] = g.chance(50) ? 1.0 : g.real(-2, 2);          // one element
        else if (kind < 3) for (auto& e : d) e = g.chance(35) ? 0.0 : g.real(-2, 2); // some
        else for (auto& e : d) e = g.real(-2, 2);                                    // all
        if (g.chance(5)) std::fill(d.begin(), d.end(), 0.0);
        return d;
    };
    // the request as a list of elements in a random order, with zeros possibly listed as well
    auto compress = [&](const std::vector<double>& d, std::vector<size_t>& idx, std::vector<double>& v) {
        for (size_t j = 0; j < d.size(); ++j) if (d[j] != 0 || g.chance(20)) idx.push_back(j);
        for (size_t k = idx.size(); k > 1; --k) std::swap(idx[k - 1], idx[g.below(k)]);
        for (size_t j : idx) v.push_back(d[j]);
    };
    size_t extra = g.chance(30) ? g.size(1, 3) : 0;
    if (s.o.f1) {
        std::vector<double> d = direction(n), tx(2 * n), ty(2 * nd, 1e30), y;
        for (size_t j = 0; j < n; ++j) { tx[2 * j] = x[j]; tx[2 * j + 1] = d[j]; }
        if (g.flip()) y = m.ForwardOne(tx);
        else {
            ty.resize(2 * nd + extra, 777.0);
            m.ForwardOne(ArrayView<const double>(tx), ArrayView<double>(ty));
            for (size_t i = 0; i < nd; ++i) y.push_back(ty[2 * i + 1]);
            for (size_t k = 2 * nd; k < ty.size(); ++k) c.check(ty[k] == 777.0, "ForwardOne writes beyond the result: " + s.str());
        }
        auto ref = [&](size_t i) { hyper::R t = 0; for (size_t j = 0; j < n; ++j) if (inJ(i, j)) t += d[j] * r.y[i].g[j]; return t; };
        auto mag = [&](size_t i) { hyper::R t = 0; for (size_t j = 0; j < n; ++j) t += fabsl(d[j]) * r.y[i].ga[j]; return t; };
        c.check(y.size() == nd, "wrong size of ForwardOne");
        for (size_t i = 0; i < nd; ++i) cmp("ForwardOne", i, 0, y[i], ref(i), mag(i), x);
        d = direction(n);
        std::vector<size_t> idx;
        std::vector<double> v, y1(nd + extra, 777.0);
        compress(d, idx, v);
        m.ForwardOne(ArrayView<const double>(x), idx.size(), idx.data(), v.data(), ArrayView<double>(y1));
        for (size_t i = 0; i < nd; ++i) cmp("sparse ForwardOne", i, 0, y1[i], ref(i), mag(i), x);
        for (size_t k = nd; k < y1.size(); ++k) c.check(y1[k] == 777.0, "sparse ForwardOne writes beyond the result: " + s.str());
    }
    if (s.o.r1) {
        std::vector<double> w = direction(nd), px(n, 1e30), ty(nd);
        for (size_t i = 0; i < nd; ++i) ty[i] = (double) r.y[i].v;
        if (g.flip()) px = m.ReverseOne(x, ty, w);
        else {
            px.assign(n + extra, 777.0);
            m.ReverseOne(ArrayView<const double>(x), ArrayView<const double>(ty), ArrayView<double>(px), ArrayView<const double>(w));
            for (size_t k = n; k < px.size(); ++k) c.check(px[k] == 777.0, "ReverseOne writes beyond the result: " + s.str());
        }
        auto ref = [&](size_t j) { hyper::R t = 0; for (size_t i = 0; i < nd; ++i) if (inJ(i, j)) t += w[i] * r.y[i].g[j]; return t; };
        auto mag = [&](size_t j) { hyper::R t = 0; for (size_t i = 0; i < nd; ++i) t += fabsl(w[i]) * r.y[i].ga[j]; return t; };
        for (size_t j = 0; j < n; ++j) cmp("ReverseOne", j, 0, px[j], ref(j), mag(j), x);
        w = direction(nd);
        std::vector<size_t> idx;
        std::vector<double> v;
        compress(w, idx, v);
        px.assign(n + extra, 777.0);
        m.ReverseOne(ArrayView<const double>(x), ArrayView<double>(px), idx.size(), idx.data(), v.data());
        for (size_t j = 0; j < n; ++j) cmp("sparse ReverseOne", j, 0, px[j], ref(j), mag(j), x);
        for (size_t k = n; k < px.size(); ++k) c.check(px[k] == 777.0, "sparse ReverseOne writes beyond the result: " + s.str());
    }
    if (s.o.r2) {
        std::vector<double> d = direction(n), w = direction(nd), tx(2 * n), ty(2 * nd, 0.5), px(2 * n, 1e30), py(2 * nd, 0.0);
        for (size_t j = 0; j < n; ++j) { tx[2 * j] = x[j]; tx[2 * j + 1] = d[j]; }
        for (size_t i = 0; i < nd; ++i) py[2 * i + 1] = w[i];
        if (g.flip()) px = m.ReverseTwo(tx, ty, py);
        else m.ReverseTwo(ArrayView<const double>(tx), ArrayView<const double>(ty), ArrayView<double>(px), ArrayView<const double>(py));
        // direction tx1 selects the rows of the elements, the results are their columns
        auto ref = [&](size_t j) {
            hyper::R t = 0;
            for (size_t i = 0; i < nd; ++i) for (size_t k = 0; k < n; ++k) if (inH(k, j)) t += (hyper::R) w[i] * d[k] * r.y[i].h[k * n + j];
            return t;
        };
        auto mag = [&](size_t j) {
            hyper::R t = 0;
            for (size_t i = 0; i < nd; ++i) for (size_t k = 0; k < n; ++k) t += fabsl(w[i]) * fabsl(d[k]) * r.y[i].ha[k * n + j];
            return t;
        };
        for (size_t j = 0; j < n; ++j) cmp("ReverseTwo", j, 0, px[2 * j], ref(j), mag(j), x);
        d = direction(n);
        w = direction(nd);
        std::vector<size_t> idx;
        std::vector<double> v, p2(n + extra, 777.0);
        compress(d, idx, v);
        m.ReverseTwo(ArrayView<const double>(x), idx.size(), idx.data(), v.data(), ArrayView<double>(p2), ArrayView<const double>(w));
        for (size_t j = 0; j < n; ++j) cmp("sparse ReverseTwo", j, 0, p2[j], ref(j), mag(j), x);
        for (size_t k = n; k < p2.size(); ++k) c.check(p2[k] == 777.0, "sparse ReverseTwo writes beyond the result: " + s.str());
        if (g.chance(15)) {
            py[2 * g.below(nd)] = 0.25;
            bool thrown = false;
            try { m.ReverseTwo(ArrayView<const double>(tx), ArrayView<const double>(ty), ArrayView<double>(px), ArrayView<const double>(py)); }
            catch (const CGException&) { thrown = true; }
            c.check(thrown, "ReverseTwo accepts weights of the zero order coefficients: " + s.str());
        }
    }
}

typedef std::pair<size_t, size_t> El;

/** the reported patterns against the structure and the values of the reference */
inline void checkSparsity(pbt::Case& c, GenericModel<double>& m, const Spec& s, const std::vector<Point>& pts) {
    const prog::Prog& p = s.gp.p;
    size_t n = p.n, nd = p.m();
    auto show = [](const std::set<El>& e) { std::string t = "{"; for (auto& q : e) t += "(" + std::to_string(q.first) + "," + std::to_string(q.second) + ")"; return t + "}"; };
    auto views = [&](const char* what, const std::vector<size_t>& row, const std::vector<size_t>& col, const std::vector<std::set<size_t>>& sets,
                     const std::vector<bool>& flags, size_t nr) {
        std::set<El> e;
        c.check(row.size() == col.size(), std::string(what) + ": different sizes of rows and columns for " + s.str());
        for (size_t k = 0; k < row.size(); ++k) {
            c.check(row[k] < nr && col[k] < n, std::string(what) + ": index out of range for " + s.str());
            c.check(e.insert({row[k], col[k]}).second, std::string(what) + ": repeated element for " + s.str());
        }
        std::set<El> e2, e3;
        c.check(sets.size() == nr, std::string(what) + ": wrong size of the set form for " + s.str());
        c.check(flags.size() == nr * n, std::string(what) + ": wrong size of the bool form for " + s.str());
        for (size_t i = 0; i < nr; ++i) {
            for (size_t j : sets[i]) e2.insert({i, j});
            for (size_t j = 0; j < n; ++j) if (flags[i * n + j]) e3.insert({i, j});
        }
        c.check(e == e2 && e == e3, std::string(what) + ": the views of the pattern differ: list " + show(e) + " set " + show(e2) + " bool " + show(e3) + " for " + s.str());
        return e;
    };
    // what is certainly non-zero somewhere
    std::set<El> nzJ, nzH;
    std::vector<std::set<El>> nzHi(nd);
    for (const Point& pt : pts) {
        if (!pt.ok) continue;
        for (size_t i = 0; i < nd; ++i) {
            const auto& y = pt.ref.y[i];
            for (size_t j = 0; j < n; ++j) {
                if (fabsl(y.g[j]) > 1e-7 * (1 + y.ga[j])) nzJ.insert({i, j});
                for (size_t k = 0; k < n; ++k)
                    if (fabsl(y.h[j * n + k]) > 1e-7 * (1 + y.ha[j * n + k])) { nzH.insert({j, k}); nzHi[i].insert({j, k}); }
            }
        }
    }
    auto contains = [&](const char* what, const std::set<El>& pattern, const std::set<El>& nz, bool custom, const std::set<El>& req) {
        for (const El& q : nz) {
            if (custom && !req.count(q)) continue;
            c.checkf(pattern.count(q) == 1, [&]() {
                return std::string(what) + ": the pattern " + show(pattern) + " lacks the non-zero element (" + std::to_string(q.first) + "," + std::to_string(q.second) + ") for " + s.str();
            });
        }
    };
    std::set<El> reqJ(s.o.ej.begin(), s.o.ej.end()), reqH(s.o.eh.begin(), s.o.eh.end());
    bool js = s.o.sjac || s.o.f1 || s.o.r1;
    c.check(!s.o.sjac || m.isJacobianSparsityAvailable(), "the Jacobian sparsity is missing for " + s.str());
    std::vector<double> x = s.gp.x[0];
    if (m.isJacobianSparsityAvailable()) {
        c.label("jacSparsity");
        std::vector<size_t> row, col;
        m.JacobianSparsity(row, col);
        std::set<El> e = views("Jacobian sparsity", row, col, m.JacobianSparsitySet(), m.JacobianSparsityBool(), nd);
        contains("Jacobian sparsity", e, nzJ, s.o.customJac, reqJ);
        if (s.o.customJac) c.check(e == reqJ, "Jacobian sparsity: " + show(e) + " is not what was requested: " + s.str());
        if (s.o.sjac) {
            std::vector<double> v;
            std::vector<size_t> r2, c2;
            m.SparseJacobian(x, v, r2, c2);
            c.check(r2 == row && c2 == col, "the order of the sparse Jacobian differs from the reported pattern for " + s.str());
            if (s.o.customJac && !s.o.customAsSets) {
                c.check(Elements(s.o.ej).size() == row.size(), "wrong number of elements");
                for (size_t k = 0; k < row.size(); ++k)
                    c.check(row[k] == s.o.ej[k].first && col[k] == s.o.ej[k].second, "the sparse Jacobian elements are not in the requested order for " + s.str());
            }
        }
        // forward-only classification of the dependents
        if (s.o.zero && !s.o.customJac) {
            CppAD::vector<bool> vx(n), vy(nd);
            for (size_t q = 0; q < n; ++q) {
                for (size_t j = 0; j < n; ++j) vx[j] = j == q;
                for (size_t i = 0; i < nd; ++i) vy[i] = false;
                std::vector<double> y(nd);
                m.ForwardZero(vx, vy, ArrayView<const double>(x), ArrayView<double>(y));
                for (size_t i = 0; i < nd; ++i)
                    c.check(!nzJ.count({i, q}) || vy[i], "ForwardZero does not mark dependent " + std::to_string(i) + " as a variable for " + s.str());
            }
        }
    }
    c.check(!s.o.shess || m.isHessianSparsityAvailable(), "the Hessian sparsity is missing for " + s.str());
    if (m.isHessianSparsityAvailable()) {
        c.label("hessSparsity");
        std::vector<size_t> row, col;
        m.HessianSparsity(row, col);
        std::set<El> e = views("Hessian sparsity", row, col, m.HessianSparsitySet(), m.HessianSparsityBool(), n);
        contains("Hessian sparsity", e, nzH, s.o.customHess, reqH);
        if (s.o.customHess) c.check(e == reqH, "Hessian sparsity: " + show(e) + " is not what was requested: " + s.str());
        if (s.o.shess) {
            std::vector<double> v, w(nd, 1.0);
            std::vector<size_t> r2, c2;
            m.SparseHessian(x, w, v, r2, c2);
            c.check(r2 == row && c2 == col, "the order of the sparse Hessian differs from the reported pattern for " + s.str());
            if (s.o.customHess && !s.o.customAsSets)
                for (size_t k = 0; k < row.size(); ++k)
                    c.check(row[k] == s.o.eh[k].first && col[k] == s.o.eh[k].second, "the sparse Hessian elements are not in the requested order for " + s.str());
        }
    }
    if (s.o.byEq) c.check(m.isEquationHessianSparsityAvailable() || !(s.o.shess || s.o.r2), "the Hessian sparsity by equation is missing for " + s.str());
    if (m.isEquationHessianSparsityAvailable()) {
        c.label("hessSparsityByEq");
        std::set<El> all;
        std::vector<size_t> row, col;
        if (m.isHessianSparsityAvailable()) all = [&]() { m.HessianSparsity(row, col); std::set<El> q; for (size_t k = 0; k < row.size(); ++k) q.insert({row[k], col[k]}); return q; }();
        for (size_t i = 0; i < nd; ++i) {
            m.HessianSparsity(i, row, col);
            std::set<El> e = views("Hessian sparsity of an equation", row, col, m.HessianSparsitySet(i), m.HessianSparsityBool(i), n);
            contains("Hessian sparsity of an equation", e, nzHi[i], s.o.customHess, reqH);
            if (m.isHessianSparsityAvailable())
                for (auto& q : e) c.check(all.count(q) == 1, "the pattern of an equation is not in the pattern of all equations for " + s.str());
        }
    }
    (void) js;
}

inline prog::Opts modelProgOpts(pbt::Gen& g) {
    prog::Opts o;
    o.nMax = 5;
    o.mMax = 5;
    o.insMax = g.chance(15) ? 30 : 14;
    if (g.chance(85)) o.insMin = 4;
    o.maxAbs = 30;
    if (g.chance(30)) { o.transcend = false; o.special = false; }
    return o;
}

}
#endif
