/* C06: models generated with loops. */
#include "model.hpp"
#include "loopprog.hpp"
using namespace vf;

static void caseLoops(pbt::Case& c) {
    pbt::Gen& g = c.g;
    std::vector<Spec> specs(1);
    Spec& s = specs[0];
    s.name = "loopy";
    prog::Opts po = modelProgOpts(g);
    po.special = false;
    po.maxAbs = 30;
    loopprog::Result r = loopprog::gen(g, po, g.chance(30) ? 14 : 8);
    s.gp = r.gp;
    s.related = r.related;
    s.optimize = false;
    s.doTape();
    s.o = genOptions(g, *s.fun);
    s.o.zero = !g.chance(10);
    s.o.jac = g.chance(20);
    s.o.hess = g.chance(15);
    s.o.sjac = g.chance(70);
    s.o.shess = g.chance(50);
    s.o.f1 = g.chance(35);
    s.o.r1 = g.chance(35);
    s.o.r2 = g.chance(35);
    s.typical = true;
    c.labelIf(r.irregular, "irregular");
    c.labelIf(r.missing, "missing");
    c.labelIf(r.shared, "shared");
    c.labelIf(r.mismatch, "mismatch");
    c.labelIf(r.strange, "strange");
    c.nontrivial(r.related.size() > 0);
    c.sample(s.str());
    BatchCompiler comp(c);
    comp.joined = !g.chance(10);
    int how = (int) g.below(12);
    Built b;
    try {
        b = build(c, specs, comp);
    } catch (const pbt::Fail& e) {
        // recorded finding reference-iteration (identified by the call site)
        if (std::string(e.what()).find("internal error at") == std::string::npos ||
            std::string(e.what()).find("patterns/equation_group.hpp") == std::string::npos) throw;
        c.label("finding reference-iteration");
        return;
    }
    size_t loops = 0;
    for (auto& t : comp.all) {
        size_t pos = 0;
        while ((pos = t.second.find("for(", pos)) != std::string::npos) { ++loops; ++pos; }
    }
    c.labelIf(loops > 0, "loopInSource");
    GenericModel<double>& m = *b.models[s.name];
    for (size_t q = 0; q < prog::NPTS; ++q) {
        Point pt = point(s.gp, q);
        if (!pt.ok) { c.label("ill-conditioned"); continue; }
        checkModelValues(c, m, s, pt, how + (int) q);
        for (size_t t = 0; t < 2; ++t) checkDirectional(c, m, s, pt, g);
    }
}

/** a fixed program checked with all the functions of the model */
static void fixedProgram(pbt::Case& c, const prog::Prog& p, const std::vector<std::set<size_t>>& related, int which) {
    std::vector<Spec> specs(1);
    Spec& s = specs[0];
    s.name = "loopy";
    s.gp.p = p;
    for (size_t k = 0; k < prog::NPTS; ++k)
        for (size_t i = 0; i < p.n; ++i) s.gp.x[k].push_back(0.31 + 0.23 * (double) i + 0.117 * (double) k);
    s.related = related;
    s.doTape();
    s.o.sjac = which >= 1;
    s.o.shess = which == 2;
    s.o.f1 = s.o.r1 = which == 3;
    s.o.r2 = which == 3;
    c.sample(s.str());
    BatchCompiler comp(c);
    Built b = build(c, specs, comp);
    GenericModel<double>& m = *b.models[s.name];
    for (size_t q = 0; q < prog::NPTS; ++q) {
        Point pt = point(s.gp, q);
        checkModelValues(c, m, s, pt, (int) q);
        checkDirectional(c, m, s, pt, c.g);
    }
}
struct PB {
    prog::Prog p;
    explicit PB(size_t n) { p.n = n; }
    int add(prog::Op o, int a, int b = 0) { prog::Ins s; s.op = o; s.a = a; s.b = b; p.ins.push_back(s); return (int) (p.n + p.ins.size() - 1); }
};
/* the same value is used for several dependents of different groups */
static void probeSameValue(pbt::Case& c) {
    using namespace prog;
    PB b(4);
    int t = b.add(MUL, 0, 2), u = b.add(SUB, 1, t);
    int w[5], v[5];
    for (int i = 0; i < 5; ++i) w[i] = b.add(SUB, 0, u);
    for (int i = 0; i < 5; ++i) v[i] = b.add(DIV, 0, w[i]);
    int p = b.add(DIV, 2, u), q = b.add(DIV, 1, u), r = b.add(ADD, 2, 2), s = b.add(ADD, 1, 1);
    b.p.deps = {v[4], q, v[3], v[3], v[0], v[2], r, v[2], v[1], v[2], v[4], v[4], p, v[0], s, v[3], v[0]};
    fixedProgram(c, b.p, {{4, 8, 9, 11, 15}, {3, 7, 16}, {2, 5, 10, 13}, {6, 14}, {1, 12}}, 0);
}
/* operations that are simplified to constants make the pattern of the tape wider than the one of the loop */
static void probeFolded(pbt::Case& c) {
    for (int which = 0; which < 4; ++which) {
        PB b(4);
        for (int i = 0; i < 4; ++i) { int q = b.add(prog::DIV, i, i); int t = b.add(prog::SIN, i); b.p.deps.push_back(b.add(prog::MUL, q, t)); }
        fixedProgram(c, b.p, {{0, 1, 2, 3}}, which);
        PB d(4);
        for (int i = 0; i < 4; ++i) { int q = d.add(prog::SUB, i, i); int t = d.add(prog::SIN, (i + 1) % 4); d.p.deps.push_back(d.add(prog::ADD, q, t)); }
        fixedProgram(c, d.p, {{0, 1, 2, 3}}, which);
        PB e(4);
        for (int i = 0; i < 4; ++i) { int q = e.add(prog::DIV, i, i); e.p.deps.push_back(e.add(prog::ADD, q, (i + 1) % 4)); }
        fixedProgram(c, e.p, {{0, 1, 2, 3}}, which);
    }
}
/* an independent used by several iterations for the same argument of a temporary shared by two equation patterns */
static void probeSharedIndex(pbt::Case& c) {
    using namespace prog;
    PB b(7);
    int t = b.add(MUL, 6, 3);                                  // x7
    const int A[5] = {4, 5, 6, 2, 4}, B[5] = {4, 3, 2, 1, 0};
    int u[5], v[5], w[5];
    for (int i = 0; i < 5; ++i) u[i] = b.add(ADD, t, A[i]);
    for (int i = 0; i < 5; ++i) v[i] = b.add(ADD, B[i], u[i]);
    for (int i = 0; i < 5; ++i) w[i] = b.add(ADD, A[i], v[i]);
    int k = b.add(NEG, w[3]), l = b.add(SUB, w[4], 3);
    b.p.deps = {v[2], w[2], l, w[4], v[0], v[3], v[4], k, v[1], w[0], w[1], w[3]};
    fixedProgram(c, b.p, {{1, 3, 9, 10, 11}, {0, 4, 5, 6, 8}}, 0);
}
/* a group with equations which share indexed variables and equations which only share non-indexed variables */
static void probeReferenceIteration(pbt::Case& c) {
    using namespace prog;
    PB b(8);
    int s = b.add(SIN, b.add(MUL, 5, 7));
    int v11 = b.add(ADD, 2, s), v12 = b.add(ADD, 3, s), v13 = b.add(NEG, 2), v14 = b.add(NEG, 3);
    int v15 = b.add(MUL, v11, v13), v16 = b.add(MUL, v12, v14), v17 = b.add(ADD, v11, v15), v18 = b.add(ADD, v12, v16);
    int v19 = b.add(MUL, v15, v17), v20 = b.add(MUL, v16, v18), v23 = b.add(DIV, v19, 5), v24 = b.add(DIV, v20, 6);
    b.p.deps = {v23, v24, v17, v18};
    int z[5];
    for (int i = 0; i < 5; ++i) z[i] = b.add(ADD, s, b.add(NEG, 4));
    for (int i = 0; i < 5; ++i) z[i] = b.add(ABS, b.add(TANH, z[i]));
    for (int i = 0; i < 5; ++i) z[i] = b.add(SUB, z[i], z[i]);
    b.p.deps.insert(b.p.deps.end(), z, z + 5);
    b.p.deps.insert(b.p.deps.end(), z, z + 5);
    fixedProgram(c, b.p, {{0, 1}, {2, 3}, {4, 5, 6, 7, 8}, {9, 10, 11, 12, 13}}, 0);
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"loops", caseLoops, 1200, 40000, 120, false,
         "programs with 1-2 repeated equation patterns (2-9 iterations, 1-3 equations, linear / blocked / periodic / irregular index maps, shared temporaries, missing "
         "equations, shuffled equations) and matching, incomplete or wrong groups of related dependents x model options; values, Jacobians, Hessians and directional "
         "derivatives against long double hyper-dual arithmetic; non-trivial: at least one declared group", false},
    }, {{"same-value", probeSameValue}, {"folded", probeFolded}, {"shared-index", probeSharedIndex}, {"reference-iteration", probeReferenceIteration}});
}
