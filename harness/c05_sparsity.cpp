/* C05: reported sparsity patterns. */
#include "model.hpp"
using namespace vf;

static void caseSparsity(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t k = g.size(1, 2);
    std::vector<Spec> specs(k);
    std::string all;
    bool any = false;
    for (size_t i = 0; i < k; ++i) {
        Spec& s = specs[i];
        s.name = "mod" + std::to_string(i);
        prog::Opts po = modelProgOpts(g);
        if (g.chance(40)) { po.nMin = 4; po.nMax = 9; po.mMin = 3; po.mMax = 8; }   // larger and sparser
        s.gp = prog::gen(g, po);
        s.optimize = g.chance(30);
        s.doTape();
        s.o = genOptions(g, *s.fun);
        s.o.byEq = g.chance(60);
        s.o.zero = !g.chance(15);
        s.o.sjac = g.chance(60);
        s.o.shess = g.chance(60);
        s.o.jac = g.chance(10);
        s.o.hess = g.chance(20);
        s.o.f1 = g.chance(20);
        s.o.r1 = g.chance(20);
        s.o.r2 = g.chance(25);
        s.typical = g.flip();
        bool sh;
        if (prog::liveCount(s.gp.p, sh) >= 3 && (s.o.sjac || s.o.shess || s.o.r2)) any = true;
        all += s.str() + "\n";
    }
    c.nontrivial(any);
    c.sample(all);
    BatchCompiler comp(c);
    comp.joined = !g.chance(10);
    Built b = build(c, specs, comp);
    for (size_t i = 0; i < k; ++i) {
        std::vector<Point> pts;
        for (size_t q = 0; q < prog::NPTS; ++q) pts.push_back(point(specs[i].gp, q));
        checkSparsity(c, *b.models[specs[i].name], specs[i], pts);
        if (pts[0].ok) checkModelValues(c, *b.models[specs[i].name], specs[i], pts[0], (int) g.below(6));
    }
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"sparsity", caseSparsity, 2500, 60000, 120, false,
         "libraries of 1-2 random programs (up to 9x8) x options; every view of the Jacobian, Hessian and per-equation Hessian patterns is compared with the others, with "
         "the requested elements, with the order of the sparse values and with the numerical non-zeros (hyper-dual, 3 points); non-trivial: a model with at least 3 live "
         "operations and a pattern", false},
    });
}
