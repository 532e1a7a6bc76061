/* C19: queries on operation graphs (path searches, path graphs, dependencies, comparisons) against direct traversals. */
#include "model.hpp"
#include "graph.hpp"
#include "aprog.hpp"
#include <functional>
using namespace vf;

typedef CG<double> CGD;
typedef OperationNode<double> Node;
typedef OperationPathNode<double> PNode;
typedef std::vector<PNode> Path;

/** a random operation graph: operations with 1 to 4 arguments, shared nodes, repeated arguments, constants */
struct Dag {
    CodeHandler<double> h;
    std::vector<CGD> x;
    std::vector<Node*> nodes; // in a topological order: arguments first
    std::string text;
};
static void genDag(pbt::Gen& g, Dag& d, size_t maxOps) {
    size_t n = g.size(1, 3);
    d.x.resize(n);
    d.h.makeVariables(d.x);
    for (auto& e : d.x) d.nodes.push_back(e.getOperationNode());
    size_t k = g.size(0, maxOps);
    std::ostringstream o;
    o << "n=" << n;
    int locality = g.pick(std::vector<int>{0, 40, 80});
    for (size_t i = 0; i < k; ++i) {
        size_t na = g.weighted({25, 55, 12, 8}) + 1;
        std::vector<Argument<double>> args;
        o << "; v" << d.nodes.size() << "=(";
        for (size_t a = 0; a < na; ++a) {
            if (g.chance(12)) { args.push_back(Argument<double>(1.5)); o << (a ? "," : "") << "c"; continue; }
            size_t s = g.chance(locality) ? d.nodes.size() - 1 - g.below(std::min<size_t>(3, d.nodes.size())) : g.below(d.nodes.size());
            args.push_back(Argument<double>(*d.nodes[s]));
            o << (a ? "," : "") << "v" << s;
        }
        o << ")";
        CGOpCode op = na == 1 ? g.pick(std::vector<CGOpCode>{CGOpCode::UnMinus, CGOpCode::Exp, CGOpCode::Alias}) :
                      na == 2 ? g.pick(std::vector<CGOpCode>{CGOpCode::Add, CGOpCode::Mul, CGOpCode::Sub}) :
                      na == 4 ? CGOpCode::ComLt : CGOpCode::ArrayCreation;
        d.nodes.push_back(d.h.makeNode(op, std::move(args)));
    }
    d.text = o.str();
}

/** number of paths between every node and the target */
static std::map<const Node*, double> pathCounts(const Dag& d, const Node* target) {
    std::map<const Node*, double> c;
    for (Node* nd : d.nodes) {
        double t = nd == target ? 1 : 0;
        if (nd != target) for (const auto& a : nd->getArguments()) if (a.getOperation()) t += c[a.getOperation()];
        c[nd] = t;
    }
    return c;
}
typedef std::vector<std::pair<const Node*, size_t>> RefPath; // node and the index of the argument which leads to it (0 for the first)
static void allPaths(const Node* n, const Node* target, RefPath& cur, std::set<RefPath>& out) {
    if (n == target) { out.insert(cur); return; }
    const auto& args = n->getArguments();
    for (size_t i = 0; i < args.size(); ++i) if (args[i].getOperation()) {
        cur.push_back({args[i].getOperation(), i});
        allPaths(args[i].getOperation(), target, cur, out);
        cur.pop_back();
    }
}

static std::string show(const Dag& d, const Node* n) {
    for (size_t i = 0; i < d.nodes.size(); ++i) if (d.nodes[i] == n) return "v" + std::to_string(i);
    return "?";
}

/** other uses of the handler between queries */
static void disturb(pbt::Gen& g, Dag& d) {
    switch (g.below(4)) {
        case 0: {
            std::vector<CGD> y{CGD(*d.nodes[0]) * d.x.back() + 1.0};
            std::ostringstream o;
            LanguageC<double> l("double");
            LangCDefaultVariableNameGenerator<double> ng;
            d.h.generateCode(o, l, y, ng);
            break;
        }
        case 1: d.h.findPathGraph(*d.nodes.back(), *d.nodes[0]); break;
        case 2: d.h.findPaths(*d.nodes.back(), *d.nodes[0], 3); break;
        default: break;
    }
}

static void casePaths(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Dag d;
    genDag(g, d, 12);
    size_t nq = g.size(1, 3);
    for (size_t q = 0; q < nq; ++q) {
        Node* root = g.chance(60) ? d.nodes.back() : g.pick(d.nodes);
        Node* target = g.chance(50) ? d.nodes[0] : g.pick(d.nodes);
        auto cnt = pathCounts(d, target);
        double total = cnt[root];
        if (total > 3000) { c.label("too many paths"); continue; }
        std::set<RefPath> all;
        RefPath cur{{root, 0}};
        allPaths(root, target, cur, all);
        c.check(all.size() == (size_t) total, "internal: path count");
        size_t max;
        switch (g.below(4)) {
            case 0: max = g.below(all.size() + 2); break;
            case 1: max = all.size(); break;
            default: max = 100000;
        }
        if (g.chance(30)) disturb(g, d);
        std::string where = " from " + show(d, root) + " to " + show(d, target) + " max " + std::to_string(max) + " (" + std::to_string(all.size()) + " exist); case: " + d.text;
        auto got = d.h.findPaths(*root, *target, max);
        c.check(got.size() == std::min(max, all.size()), "wrong number of paths" + std::string(where) + " found " + std::to_string(got.size()));
        std::set<RefPath> seen;
        for (const Path& p : got) {
            RefPath r;
            for (size_t k = 0; k < p.size(); ++k) r.push_back({p[k].node, k == 0 ? 0 : p[k].argIndex});
            c.check(all.count(r) == 1, "a path which does not exist" + where);
            c.check(seen.insert(r).second, "repeated path" + where);
        }
        c.labelIf(max < all.size(), "limited");
        c.labelIf(all.empty(), "no path");
        c.labelIf(root == target, "root is target");
        c.nontrivial(all.size() >= 2);
        c.sample(d.text);
    }
    c.key(d.text);
}

static void casePathGraph(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Dag d;
    genDag(g, d, 16);
    size_t nq = g.size(1, 3);
    for (size_t q = 0; q < nq; ++q) {
        Node* root = g.chance(60) ? d.nodes.back() : g.pick(d.nodes);
        Node* target = g.chance(50) ? d.nodes[0] : g.pick(d.nodes);
        auto cnt = pathCounts(d, target);
        if (cnt[root] > 1e6) { c.label("too many paths"); continue; }
        // nodes reachable from the root which reach the target (and not beyond it)
        std::set<Node*> on;
        if (cnt[root] > 0) {
            std::function<void(Node*)> rec = [&](Node* n) {
                if (cnt[n] == 0 || !on.insert(n).second || n == target) return;
                for (auto& a : n->getArguments()) if (a.getOperation()) rec(a.getOperation());
            };
            rec(root);
        }
        size_t expBif = 0;
        std::map<Node*, std::vector<size_t>> args;
        std::map<Node*, std::multiset<std::pair<Node*, size_t>>> usage;
        for (Node* n : on) {
            if (n == target) continue;
            auto& a = args[n];
            for (size_t i = 0; i < n->getArguments().size(); ++i) {
                Node* an = n->getArguments()[i].getOperation();
                if (an && on.count(an)) { a.push_back(i); usage[an].insert({n, i}); }
            }
            expBif += a.size() - 1;
        }
        if (g.chance(30)) disturb(g, d);
        std::string where = " from " + show(d, root) + " to " + show(d, target) + "; case: " + d.text;
        bool limited = g.chance(25);
        size_t bif = 0, max = limited ? g.below(expBif + 2) : (std::numeric_limits<size_t>::max)();
        BidirGraph<double> G = g.chance(30) && !limited ? d.h.findPathGraph(*root, *target) : d.h.findPathGraph(*root, *target, bif, max);
        bool haveBif = bif > 0 || expBif == 0 || limited;
        bool complete = !limited || max > expBif;
        if (haveBif && complete) c.check(bif == expBif, "wrong number of bifurcations" + std::string(where) + " found " + std::to_string(bif) + " expected " + std::to_string(expBif));
        // contents
        size_t found = 0;
        for (Node* n : d.nodes) {
            const auto* e = static_cast<const BidirGraph<double>&>(G).find(*n);
            c.check((e != nullptr) == G.contains(*n), "find and contains disagree" + where);
            if (complete) c.check((e != nullptr) == (on.count(n) > 0), std::string("a node which ") + (e ? "is not on a path is" : "is on a path is not") + " in the path graph" + where);
            if (e == nullptr) continue;
            ++found;
            c.check(on.count(n) > 0, "a node which is not on a path is in the path graph" + where);
            std::vector<size_t> ga(e->arguments);
            std::sort(ga.begin(), ga.end());
            std::multiset<std::pair<Node*, size_t>> gu;
            for (const auto& u : e->usage) gu.insert({u.node, u.argIndex});
            if (complete) {
                c.check(ga == args[n], "wrong arguments of a node in the path graph" + where);
                c.check(gu == usage[n], "wrong usages of a node in the path graph" + where);
            } else {
                for (size_t a : ga) c.check(std::count(args[n].begin(), args[n].end(), a) == 1, "an argument which is not on a path" + where);
                for (auto& u : gu) c.check(usage[n].count(u) > 0, "an usage which is not on a path" + where);
                // both directions of every connection
                for (auto& u : gu) {
                    const auto* pe = G.find(*u.first);
                    c.check(pe != nullptr && std::count(pe->arguments.begin(), pe->arguments.end(), u.second) == 1, "an usage without the respective argument" + where);
                }
            }
        }
        c.check(G.empty() == (found == 0), "empty() is wrong" + where);
        if (complete) {
            size_t bifIndex = 77;
            auto paths = G.findSingleBifurcation(*root, *target, bifIndex);
            double total = cnt[root];
            c.check(paths.size() == (total == 0 ? 0u : total == 1 ? 1u : 2u), "findSingleBifurcation gives a wrong number of paths" + where);
            for (size_t k = 0; k < paths.size(); ++k) {
                const Path& p = paths[k];
                c.check(!p.empty() && p[0].node == root && p.back().node == target, "a path with wrong ends" + where);
                for (size_t i = 0; i + 1 < p.size(); ++i) {
                    c.check(p[i].argIndex < p[i].node->getArguments().size() && p[i].node->getArguments()[p[i].argIndex].getOperation() == p[i + 1].node, "a path which does not exist" + where);
                    c.check(p[i].node != target, "a path through the target" + where);
                }
            }
            if (paths.size() == 2) {
                c.check(bifIndex < paths[0].size() && bifIndex < paths[1].size(), "wrong position of the bifurcation" + where);
                for (size_t i = 0; i < bifIndex; ++i) c.check(paths[0][i] == paths[1][i], "the paths differ before the bifurcation" + where);
                c.check(paths[0][bifIndex].node == paths[1][bifIndex].node && paths[0][bifIndex].argIndex != paths[1][bifIndex].argIndex, "the paths do not split at the bifurcation" + where);
                for (const Path& p : paths) for (size_t i = bifIndex + 1; i + 1 < p.size(); ++i)
                    c.check(args[p[i].node].size() == 1, "another bifurcation after the split" + where);
                c.label("bifurcation");
            }
        }
        c.labelIf(limited && !complete, "limited");
        c.labelIf(on.empty(), "no path");
        c.nontrivial(expBif > 0);
        c.sample(d.text);
    }
    // ordering of the elements of paths
    {
        std::vector<std::pair<size_t, size_t>> el;
        std::set<std::pair<Node*, size_t>> ref;
        std::set<PNode> s;
        for (size_t i = 0, k = g.size(0, 10); i < k; ++i) {
            Node* n = g.pick(d.nodes);
            size_t a = g.below(4);
            c.check(s.insert(PNode(n, a)).second == ref.insert({n, a}).second, "an ordered set of path elements loses or repeats elements; case: " + d.text);
        }
        for (auto& e : ref) c.check(s.count(PNode(e.first, e.second)) == 1, "an ordered set of path elements does not find an element; case: " + d.text);
        c.check(s.size() == ref.size(), "wrong size of an ordered set of path elements; case: " + d.text);
    }
    c.key(d.text);
}

/** which independents affect the calls of each atomic function */
static void caseDependencies(pbt::Case& c) {
    pbt::Gen& g = c.g;
    AOpts o;
    o.nMax = 5;
    o.innersMax = 3;
    AGened gp = genA(g, o);
    const AProg& p = gp.p;
    std::vector<std::unique_ptr<Atomic>> at;
    for (size_t i = 0; i < p.inner.size(); ++i) at.emplace_back(new Atomic(p.inner[i], "atomic" + std::to_string(i), std::vector<double>(p.inner[i].n, 0.6), g.flip()));
    std::vector<AD<CGD>> ax(p.n);
    for (size_t i = 0; i < p.n; ++i) ax[i] = gp.x[0][i];
    CppAD::Independent(ax);
    std::vector<AD<CGD>> ay = evalA<AD<CGD>>(p, ax, [&](size_t i, const std::vector<AD<CGD>>& a) {
        std::vector<AD<CGD>> r(p.inner[i].m());
        (*at[i]->cg)(a, r);
        return r;
    });
    ADFun<CGD> fun;
    fun.Dependent(ay);
    // the recorded graph of the same function, traversed directly
    CodeHandler<double> h;
    std::vector<CGD> x(p.n);
    h.makeVariables(x);
    std::vector<CGD> y = fun.Forward(0, x);
    std::map<const Node*, std::set<size_t>> dep;
    std::map<size_t, std::set<size_t>> outer;
    std::map<size_t, std::set<std::pair<size_t, size_t>>> sizes;
    std::function<const std::set<size_t>&(const Node*)> rec = [&](const Node* n) -> const std::set<size_t>& {
        auto it = dep.find(n);
        if (it != dep.end()) return it->second;
        std::set<size_t> s;
        if (n->getOperationType() == CGOpCode::Inv) s.insert(h.getIndependentVariableIndex(*n));
        for (auto& a : n->getArguments()) if (a.getOperation()) { const auto& t = rec(a.getOperation()); s.insert(t.begin(), t.end()); }
        if (n->getOperationType() == CGOpCode::AtomicForward) {
            size_t id = n->getInfo()[0];
            outer[id].insert(s.begin(), s.end());
            sizes[id].insert({n->getArguments()[0].getOperation()->getArguments().size(), n->getArguments()[1].getOperation()->getArguments().size()});
        }
        return dep[n] = s;
    };
    for (auto& e : y) if (e.isVariable()) rec(e.getOperationNode());
    AtomicDependencyLocator<double> loc(fun);
    std::string where = "; case: " + p.str();
    for (int rep = 0; rep < 2; ++rep) {
        const auto& got = loc.findAtomicsUsage();
        c.check(got.size() == outer.size(), "wrong number of atomic functions in use" + where);
        for (auto& e : got) {
            c.check(outer.count(e.first) == 1, "an atomic function which is not used" + where);
            c.check(e.second.outerIndeps == outer[e.first], "wrong set of independents for an atomic function" + where);
            c.check(e.second.sizes == sizes[e.first], "wrong sizes of the calls of an atomic function" + where);
            c.check(e.second.atom != nullptr && e.second.atom->getId() == e.first, "wrong atomic function" + where);
        }
    }
    size_t sub = 0;
    for (auto& e : outer) sub += e.second.size() < p.n;
    c.labelIf(sub > 0, "proper subset");
    c.labelIf(outer.size() > 1, "several atomics");
    c.nontrivial(!outer.empty());
    c.key(p.str());
    c.sample(p.str());
}

/** conditional expressions: the cases are the same only when they are the same computation */
static void caseSame(pbt::Case& c) {
    pbt::Gen& g = c.g;
    CodeHandler<double> h;
    size_t n = g.size(1, 3);
    std::vector<CGD> x(n);
    h.makeVariables(x);
    std::vector<std::vector<double>> pts(3, std::vector<double>(n));
    for (auto& p : pts) for (auto& v : p) v = g.pick(std::vector<double>{-1.5, -0.5, 0.25, 0.5, 1, 2});
    bool withValues = g.chance(40);
    if (withValues) for (size_t i = 0; i < n; ++i) x[i].setValue(pts[0][i]);
    std::vector<CGD> pool(x.begin(), x.end());
    std::vector<std::function<double(const std::vector<double>&)>> f;
    for (size_t i = 0; i < n; ++i) f.push_back([i](const std::vector<double>& v) { return v[i]; });
    for (double k : {0.25, 1.0, -1.5}) { pool.push_back(CGD(k)); f.push_back([k](const std::vector<double>&) { return k; }); }
    std::ostringstream text;
    text << "n=" << n << (withValues ? " (values)" : "");
    size_t k = g.size(1, 12);
    bool nt = false;
    for (size_t s = 0; s < k; ++s) {
        size_t a = g.below(pool.size()), b = g.below(pool.size()), t = g.below(pool.size()), e = g.chance(35) ? t : g.below(pool.size());
        auto fa = f[a], fb = f[b], ft = f[t], fe = f[e];
        CGD r;
        size_t before = h.getManagedNodesCount();
        switch (g.below(9)) {
            case 0: r = pool[a] + pool[b]; f.push_back([=](const std::vector<double>& v) { return fa(v) + fb(v); }); text << "; " << a << "+" << b; break;
            case 1: r = pool[a] * pool[b]; f.push_back([=](const std::vector<double>& v) { return fa(v) * fb(v); }); text << "; " << a << "*" << b; break;
            case 2: r = pool[a]; f.push_back(fa); text << "; copy " << a; break;
            default: {
                int op = g.below(5);
                CGD tc = pool[t], ec = pool[e];
                text << "; cond" << op << "(" << a << "," << b << "," << t << "," << e << ")";
                bool (*cmp)(double, double);
                switch (op) {
                    case 0: r = CondExpLt(pool[a], pool[b], tc, ec); cmp = [](double l, double q) { return l < q; }; break;
                    case 1: r = CondExpLe(pool[a], pool[b], tc, ec); cmp = [](double l, double q) { return l <= q; }; break;
                    case 2: r = CondExpEq(pool[a], pool[b], tc, ec); cmp = [](double l, double q) { return l == q; }; break;
                    case 3: r = CondExpGe(pool[a], pool[b], tc, ec); cmp = [](double l, double q) { return l >= q; }; break;
                    default: r = CondExpGt(pool[a], pool[b], tc, ec); cmp = [](double l, double q) { return l > q; }; break;
                }
                f.push_back([=](const std::vector<double>& v) { return cmp(fa(v), fb(v)) ? ft(v) : fe(v); });
                bool sameNode = tc.isVariable() && ec.isVariable() && tc.getOperationNode() == ec.getOperationNode();
                bool samePar = tc.isParameter() && ec.isParameter() && tc.getValue() == ec.getValue();
                bool consts = pool[a].isParameter() && pool[b].isParameter();
                if (sameNode || samePar || consts) {
                    c.check(h.getManagedNodesCount() == before, "an operation was created for a conditional expression which is known; case: " + text.str());
                    c.label(consts ? "constant condition" : "same case");
                    nt = true;
                } else c.label("different cases");
            }
        }
        pool.push_back(r);
    }
    for (size_t q = 0; q < pts.size(); ++q) {
        Interp<double> in(h, pts[q]);
        for (size_t i = 0; i < pool.size(); ++i) {
            double e = f[i](pts[q]), v = in.value(pool[i]);
            c.check(v == e, "expression " + std::to_string(i) + " has the value " + pbt::str(v) + " instead of " + pbt::str(e) + "; case: " + text.str());
            if (q == 0 && pool[i].isValueDefined()) c.check(pool[i].getValue() == e, "expression " + std::to_string(i) + " tracks the value " + pbt::str(pool[i].getValue()) + " instead of " + pbt::str(e) + "; case: " + text.str());
        }
    }
    c.nontrivial(nt);
    c.key(text.str());
    c.sample(text.str());
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"paths", casePaths, 200000, 2000000, 60, false,
         "random operation graphs (up to 15 nodes, 1 to 4 arguments, shared and repeated arguments), several searches per handler with other uses in between: every path once, "
         "up to the requested maximum, against full enumeration; non-trivial: at least 2 paths", false},
        {"pathgraph", casePathGraph, 200000, 2000000, 60, false,
         "random operation graphs: nodes, arguments and usages of the path graph, number of bifurcations (also limited), single-bifurcation paths and the ordering of path elements, "
         "against a direct traversal; non-trivial: there is a bifurcation", false},
        {"dependencies", caseDependencies, 25000, 200000, 60, false,
         "recorded functions which call atomic functions: independents and sizes of the calls of each atomic function against a direct traversal; non-trivial: some call is in use", false},
        {"same", caseSame, 120000, 1000000, 60, false,
         "conditional expressions with equal, copied and different cases: folded only when both cases are the same computation, with the right values; non-trivial: some folding happened", false},
    }, {});
}
