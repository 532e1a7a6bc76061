#ifndef VERIF_LOOPPROG_HPP
#define VERIF_LOOPPROG_HPP
/*
 * Random programs with repeated equation patterns, together with the groups of
 * dependents that are declared as related.
 */
#include "prog.hpp"

namespace loopprog {
using namespace prog;

struct Slot { std::vector<int> idx; };  // independent per iteration

struct Result {
    Gened gp;
    std::vector<std::set<size_t>> related;
    size_t loops = 0;
    bool irregular = false, missing = false, shared = false, mismatch = false, strange = false;
};

inline std::vector<int> genMap(pbt::Gen& g, size_t n, size_t its, bool& irregular, bool injective) {
    std::vector<int> r(its);
    if (injective) { // an independent is not used by two iterations (recorded finding: shared-index)
        if (its > n || g.chance(15)) return std::vector<int>(its, (int) g.below(n));
        if (g.chance(35)) {
            irregular = true;
            std::vector<int> p(n);
            for (size_t i = 0; i < n; ++i) p[i] = (int) i;
            for (size_t k = n; k > 1; --k) std::swap(p[k - 1], p[g.below(k)]);
            std::copy(p.begin(), p.begin() + (long) its, r.begin());
            return r;
        }
        int maxStep = its > 1 ? (int) ((n - 1) / (its - 1)) : 1;
        int st = (int) g.range(1, std::max(1, std::min(maxStep, 3)));
        int span = st * (int) (its - 1);
        bool down = g.chance(30);
        int a = (int) g.below(n - (size_t) span);
        for (size_t i = 0; i < its; ++i) r[i] = down ? a + span - st * (int) i : a + st * (int) i;
        return r;
    }
    int kind = (int) g.below(8);
    if (kind <= 3) { // linear, without leaving [0, n)
        int maxStep = its > 1 ? (int) ((n - 1) / (its - 1)) : 1;
        int st = maxStep > 0 ? (int) g.range(0, std::min(maxStep, 3)) : 0;
        bool down = kind == 3;
        int span = st * (int) (its - 1);
        int a = (int) g.below(n - (size_t) span);
        for (size_t i = 0; i < its; ++i) r[i] = down ? a + span - st * (int) i : a + st * (int) i;
    } else if (kind == 4) { // blocks
        int blk = (int) g.range(1, 3), a = (int) g.below(n);
        for (size_t i = 0; i < its; ++i) r[i] = (int) ((a + i / (size_t) blk) % n);
    } else if (kind == 5) { // periodic
        int per = (int) g.range(2, 3), a = (int) g.below(n);
        for (size_t i = 0; i < its; ++i) r[i] = (int) ((a + i % (size_t) per) % n);
    } else {
        irregular = true;
        for (size_t i = 0; i < its; ++i) r[i] = (int) g.below(n);
    }
    return r;
}

/** undoes partly added instructions */
struct Mark {
    Prog& p; std::array<std::vector<double>, NPTS>& v;
    size_t a, b;
    Mark(Prog& p_, std::array<std::vector<double>, NPTS>& v_) : p(p_), v(v_), a(p_.ins.size()), b(v_[0].size()) {}
    void undo() { p.ins.resize(a); for (auto& w : v) w.resize(b); }
};

inline bool binary(Op o) {
    return o == ADD || o == SUB || o == MUL || o == DIV || o == ADDEQ || o == SUBEQ || o == MULEQ || o == DIVEQ || o == POW || o == COND;
}

inline Result gen(pbt::Gen& g, const Opts& o, size_t nMax = 10) {
    Result r;
    Prog& p = r.gp.p;
    p.n = g.size(2, nMax);
    for (size_t k = 0; k < NPTS; ++k)
        for (size_t i = 0; i < p.n; ++i) r.gp.x[k].push_back(g.real(o.lo, o.hi));
    std::array<std::vector<double>, NPTS> v = r.gp.x;
    // operations which are simplified to constants (x/x, x-x, ...) in some of the programs
    auto same = [&](int a) { for (size_t k = 1; k < NPTS; ++k) if (v[k][a] != v[0][a]) return false; return true; };
    bool folding = g.chance(40);
    auto addIns = [&](const Ins& s) {
        if (!folding && s.op == COND && s.a != s.b) {
            bool eq = true;
            for (size_t k = 0; k < NPTS; ++k) eq &= v[k][s.a] == v[k][s.b];
            if (eq) return -1;
        }
        if (!folding && s.op == COND && (s.a == s.b || (same(s.a) && same(s.b)))) return -1;
        if (!tryIns(s, v, o.maxAbs)) return -1;
        if (!folding && s.op != CONST && same((int) v[0].size() - 1) && !(same(s.a) && same(s.b))) {
            for (auto& w : v) w.pop_back();
            return -1;
        }
        p.ins.push_back(s);
        return (int) (p.n + p.ins.size() - 1);
    };
    // temporaries which do not belong to a loop
    std::vector<int> common;
    size_t nc = g.below(3) == 0 ? 0 : g.size(1, 3);
    for (size_t i = 0; i < nc; ++i) {
        Ins s;
        s.op = genOp(g, o);
        if (s.op == CONST) s.op = SIN;
        auto ref = [&]() { return (!common.empty() && g.flip()) ? g.pick(common) : (int) g.below(p.n); };
        s.a = ref(); s.b = ref(); s.c = ref(); s.d = ref();
        s.cmp = (int) g.below(6);
        s.k = (double) g.range(2, 3);
        int q = addIns(s);
        if (q >= 0) common.push_back(q);
    }
    // (dependent value, group of related dependents or -1)
    std::vector<std::pair<int, int>> deps;
    size_t nl = g.size(1, 2); // loops
    int groups = 0;
    for (size_t l = 0; l < nl; ++l) {
        size_t its = g.size(2, g.chance(20) ? 9 : 5);
        size_t nslots = g.size(1, 3);
        // values of the template: one reference per iteration
        std::vector<std::vector<int>> val;
        size_t neq = g.size(1, 3);
        bool injective = g.flip();
        for (size_t s = 0; s < nslots; ++s) val.push_back(genMap(g, p.n, its, r.irregular, injective));
        size_t nIndexed = val.size();
        if (g.flip()) val.push_back(std::vector<int>(its, (int) g.below(p.n)));    // non indexed independent
        for (int q : common) if (g.chance(60)) { val.push_back(std::vector<int>(its, q)); r.shared = true; }
        // a result of an earlier loop (several loops which share temporaries)
        if (l > 0 && !deps.empty() && g.chance(20)) val.push_back(std::vector<int>(its, deps[g.below(deps.size())].first));
        size_t first = val.size();
        size_t ni = g.size(1, 7);
        for (size_t i = 0; i < ni; ++i) {
            bool ok = false;
            for (int t = 0; t < 4 && !ok; ++t) {
                Mark mark(p, v);
                Ins s;
                s.op = genOp(g, o);
                double k = genConst(g, true);
                if (s.op == CONST) s.k = k;
                else if (s.op == POWI) s.k = (double) g.range(-2, 4);
                auto ref = [&]() {
                    if (val.size() > first && g.chance(45)) return val.size() - 1 - g.below(std::min<size_t>(3, val.size() - first));
                    if (g.chance(40)) return (size_t) g.below(nIndexed);
                    return (size_t) g.below(val.size());
                };
                size_t a = ref(), b = ref(), cc = ref(), d = ref();
                s.cmp = (int) g.below(6);
                std::vector<int> nv(its);
                ok = true;
                for (size_t it = 0; it < its && ok; ++it) {
                    Ins q = s;
                    q.a = val[a][it];
                    if (binary(s.op)) q.b = val[b][it]; else q.b = q.a;
                    if (s.op == COND) { q.c = val[cc][it]; q.d = val[d][it]; }
                    nv[it] = addIns(q);
                    ok = nv[it] >= 0;
                }
                if (ok) val.push_back(nv);
                else mark.undo();
            }
        }
        if (val.size() == first) { // always possible
            std::vector<int> nv(its);
            for (size_t it = 0; it < its; ++it) { Ins s; s.op = SIN; s.a = s.b = val[0][it]; nv[it] = addIns(s); }
            val.push_back(nv);
        }
        ++r.loops;
        for (size_t e = 0; e < neq; ++e) {
            size_t t = first + (e == 0 ? val.size() - first - 1 : g.below(val.size() - first));
            for (size_t it = 0; it < its; ++it) {
                if (g.chance(e == 0 ? 5 : 15) && it > 0) { r.missing = true; continue; }
                deps.push_back({val[t][it], groups});
            }
            ++groups;
        }
    }
    // equations outside the loops
    size_t no = g.below(3);
    std::vector<size_t> outside;
    for (size_t i = 0; i < no; ++i) {
        Ins s;
        s.op = genOp(g, o);
        if (s.op == CONST) s.k = genConst(g, true);
        size_t total = p.n + p.ins.size();
        s.a = genRef(g, p.n, total); s.b = genRef(g, p.n, total); s.c = genRef(g, p.n, total); s.d = genRef(g, p.n, total);
        s.cmp = (int) g.below(6);
        if (s.op == POWI) s.k = 2;
        int q = addIns(s);
        if (q < 0) q = (int) g.below(p.n);
        int gr = -1;
        if (g.chance(25)) { gr = (int) g.below((uint64_t) groups); r.mismatch = true; }
        deps.push_back({q, gr});
    }
    // order of the equations
    if (g.flip()) for (size_t k = deps.size(); k > 1; --k) std::swap(deps[k - 1], deps[g.below(k)]);
    // the same value for several dependents is a recorded finding of its own (same-value)
    {
        std::set<std::array<double, NPTS>> seen;
        std::vector<std::pair<int, int>> d2;
        for (auto& d : deps) {
            std::array<double, NPTS> q;
            for (size_t k = 0; k < NPTS; ++k) q[k] = v[k][d.first];
            if (same(d.first) || seen.insert(q).second) d2.push_back(d);
        }
        deps.swap(d2);
    }
    // declared groups
    std::vector<std::set<size_t>> rel((size_t) groups);
    for (size_t i = 0; i < deps.size(); ++i) {
        p.deps.push_back(deps[i].first);
        int gr = deps[i].second;
        if (gr >= 0 && g.chance(4)) { gr = -1; r.mismatch = true; }                                      // left out
        else if (gr >= 0 && groups > 1 && g.chance(3)) { gr = (int) g.below((uint64_t) groups); r.strange = true; } // wrong group
        if (gr >= 0) rel[(size_t) gr].insert(i);
    }
    if (rel.size() > 1 && g.chance(8)) { // two groups declared as one
        rel[0].insert(rel[1].begin(), rel[1].end());
        rel[1].clear();
        r.strange = true;
    }
    for (auto& s : rel) if (!s.empty()) r.related.push_back(s);
    return r;
}

}
#endif
