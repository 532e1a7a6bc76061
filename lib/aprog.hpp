#ifndef VERIF_APROG_HPP
#define VERIF_APROG_HPP
/* Programs which call other programs (as atomic functions or inlined). */
#include "cgen.hpp"

namespace vf {
using prog::Ins;
using prog::Prog;

/** functions defined everywhere, so that they can be called with any arguments */
inline Prog genInner(pbt::Gen& g, size_t nMax = 4, size_t mMax = 3, size_t insMax = 10, size_t nMin = 1) {
    Prog p;
    p.n = g.size(nMin, nMax);
    size_t mean = std::max<size_t>(2, insMax / 2);
    for (size_t i = 0; i < insMax; ++i) {
        if (g.below(mean) == 0 && i >= 1) break;
        Ins s;
        static const prog::Op ops[] = {prog::MUL, prog::ADD, prog::SUB, prog::SIN, prog::COS, prog::MUL, prog::ATAN, prog::TANH, prog::NEG, prog::CONST, prog::MUL, prog::ASINH};
        s.op = ops[g.below(11)];
        size_t total = p.n + p.ins.size();
        if (s.op == prog::CONST) s.k = prog::genConst(g);
        s.a = prog::genRef(g, p.n, total);
        s.b = prog::genRef(g, p.n, total);
        p.ins.push_back(s);
    }
    size_t m = g.size(1, mMax), total = p.n + p.ins.size();
    for (size_t i = 0; i < m; ++i) {
        int d = g.chance(75) ? (int) (total - 1 - g.below(std::min<size_t>(p.ins.size(), 4))) : (int) g.below(total);
        p.deps.push_back(d);
    }
    return p;
}

struct Step {
    int inner = -1;          // < 0: an instruction
    Ins ins;
    std::vector<int> args;   // of a call; its results follow in the list of values
};

struct AProg {
    size_t n = 0;
    std::vector<Prog> inner;
    std::vector<Step> steps;
    std::vector<int> deps;
    size_t calls = 0;
    size_t m() const { return deps.size(); }
    std::string str() const {
        std::ostringstream o;
        for (size_t i = 0; i < inner.size(); ++i) o << "f" << i << "={" << inner[i].str() << "}; ";
        o << "n=" << n << "; ";
        size_t pos = n;
        Prog q;
        q.n = n;
        for (const Step& s : steps) {
            if (s.inner < 0) {
                Prog t;
                t.n = n;
                t.ins.assign(1, s.ins);
                std::string w = t.str();
                size_t a = w.find("; ") + 2, b = w.rfind("; y=");
                w = w.substr(a, b - a);
                o << "v" << pos << w.substr(w.find('=')) << "; ";
                pos += 1;
            } else {
                o << "v" << pos << "..=f" << s.inner << "(";
                for (size_t k = 0; k < s.args.size(); ++k) o << (k ? "," : "") << q.ref(s.args[k]);
                o << "); ";
                pos += inner[s.inner].m();
            }
        }
        o << "y=[";
        for (size_t i = 0; i < deps.size(); ++i) o << (i ? "," : "") << q.ref(deps[i]);
        o << "]";
        return o.str();
    }
};

/** call(inner index, arguments) gives the results of a call */
template<class T, class V, class F>
std::vector<T> evalA(const AProg& p, const V& x, F call) {
    std::vector<T> v;
    for (size_t i = 0; i < p.n; ++i) v.push_back(x[i]);
    for (const Step& s : p.steps) {
        if (s.inner < 0) v.push_back(prog::apply<T>(s.ins, v));
        else {
            std::vector<T> a;
            for (int k : s.args) a.push_back(v[k]);
            std::vector<T> r = call((size_t) s.inner, a);
            for (auto& e : r) v.push_back(e);
        }
    }
    std::vector<T> y;
    for (int d : p.deps) y.push_back(v[d]);
    return y;
}
template<class T, class V>
std::vector<T> evalInlined(const AProg& p, const V& x) {
    return evalA<T>(p, x, [&](size_t i, const std::vector<T>& a) { return prog::eval<T>(p.inner[i], a); });
}

/** the same function as one straight-line program */
inline Prog inlineCalls(const AProg& p) {
    Prog q;
    q.n = p.n;
    std::vector<int> map;
    for (size_t i = 0; i < p.n; ++i) map.push_back((int) i);
    auto push = [&](Ins s, const std::vector<int>& mp) {
        if (s.op != prog::CONST) { s.a = mp[s.a]; s.b = mp[s.b]; s.c = mp[s.c]; s.d = mp[s.d]; }
        q.ins.push_back(s);
        return (int) (q.n + q.ins.size() - 1);
    };
    for (const Step& s : p.steps) {
        if (s.inner < 0) map.push_back(push(s.ins, map));
        else {
            const Prog& in = p.inner[s.inner];
            std::vector<int> mi;
            for (int k : s.args) mi.push_back(map[k]);
            for (const Ins& t : in.ins) mi.push_back(push(t, mi));
            for (int d : in.deps) map.push_back(mi[d]);
        }
    }
    for (int d : p.deps) q.deps.push_back(map[d]);
    return q;
}

struct AOpts {
    size_t nMax = 4, stepsMax = 12, mMax = 4, innersMax = 2;
    bool constArgs = true;
    prog::Opts ops;
};

struct AGened {
    AProg p;
    std::array<std::vector<double>, prog::NPTS> x;
};

inline AGened genA(pbt::Gen& g, const AOpts& o, const std::vector<Prog>& given = {}) {
    AGened r;
    AProg& p = r.p;
    p.n = g.size(1, o.nMax);
    for (size_t k = 0; k < prog::NPTS; ++k) for (size_t i = 0; i < p.n; ++i) r.x[k].push_back(g.real(-2, 2));
    std::array<std::vector<double>, prog::NPTS> v = r.x;
    size_t ni = given.empty() ? g.size(1, o.innersMax) : given.size();
    for (size_t i = 0; i < ni; ++i) p.inner.push_back(given.empty() ? genInner(g) : given[i]);
    size_t mean = std::max<size_t>(3, o.stepsMax / (1 + g.below(3)));
    for (size_t st = 0; st < o.stepsMax; ++st) {
        if (g.below(mean) == 0 && st >= 1 && p.calls > 0) break;
        bool done = false;
        for (int t = 0; t < 4 && !done; ++t) {
            size_t total = v[0].size();
            Step s;
            if (g.chance(35) || (st + 1 == o.stepsMax && p.calls == 0)) {
                s.inner = (int) (given.empty() ? g.below(ni) : ni - 1 - (g.chance(65) ? 0 : g.below(ni)));
                const Prog& in = p.inner[s.inner];
                for (size_t k = 0; k < in.n; ++k) s.args.push_back(prog::genRef(g, p.n, total));
                bool ok = true;
                std::array<std::vector<double>, prog::NPTS> w;
                for (size_t k = 0; k < prog::NPTS && ok; ++k) {
                    std::vector<double> a;
                    for (int q : s.args) a.push_back(v[k][q]);
                    std::vector<double> all = prog::evalAll<double>(in, a);
                    for (double e : all) if (!std::isfinite(e) || std::fabs(e) > 200) ok = false;
                    for (int d : in.deps) w[k].push_back(all[d]);
                }
                if (!ok) continue;
                for (size_t k = 0; k < prog::NPTS; ++k) for (double e : w[k]) v[k].push_back(e);
                ++p.calls;
            } else {
                prog::Opts po = o.ops;
                s.ins.op = prog::genOp(g, po);
                if (s.ins.op == prog::CONST) s.ins.k = prog::genConst(g, po.niceConst);
                else {
                    s.ins.a = prog::genRef(g, p.n, total);
                    s.ins.b = prog::genRef(g, p.n, total);
                    s.ins.c = prog::genRef(g, p.n, total);
                    s.ins.d = prog::genRef(g, p.n, total);
                    s.ins.cmp = (int) g.below(6);
                    if (s.ins.op == prog::POWI) s.ins.k = (double) g.range(-2, 4);
                }
                if (!prog::tryIns(s.ins, v, 200)) continue;
            }
            p.steps.push_back(s);
            done = true;
        }
    }
    if (p.calls == 0) throw pbt::Discard();
    size_t m = g.size(1, o.mMax), total = v[0].size();
    for (size_t i = 0; i < m; ++i) {
        int d = g.chance(75) ? (int) (total - 1 - g.below(std::min<size_t>(total - p.n, 6))) : (int) g.below(total);
        p.deps.push_back(d);
    }
    return r;
}

/** a program wrapped as an atomic function of CppAD */
struct Atomic {
    Prog p;
    std::string name;
    std::unique_ptr<CppAD::checkpoint<double>> cp;
    std::unique_ptr<CGAtomicFun<double>> cg;
    Atomic(const Prog& pp, const std::string& nm, const std::vector<double>& x0, bool standAlone = false) : p(pp), name(nm) {
        std::vector<AD<double>> ax(p.n), ay(p.m());
        for (size_t i = 0; i < p.n; ++i) ax[i] = x0[i];
        auto algo = [this](const std::vector<AD<double>>& x, std::vector<AD<double>>& y) { y = prog::eval<AD<double>>(p, x); };
        cp.reset(new CppAD::checkpoint<double>(name.c_str(), algo, ax, ay));
        cg.reset(new CGAtomicFun<double>(*cp, ax, standAlone));
    }
};

}
#endif
