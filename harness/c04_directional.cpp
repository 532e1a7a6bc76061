/* C04: directional derivative functions. */
#include "model.hpp"
using namespace vf;

static void caseDirectional(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t k = g.size(1, 2);
    std::vector<Spec> specs(k);
    std::string all;
    bool any = false;
    for (size_t i = 0; i < k; ++i) {
        Spec& s = specs[i];
        s.name = "mod" + std::to_string(i);
        s.gp = prog::gen(g, modelProgOpts(g));
        s.optimize = g.chance(30);
        s.doTape();
        s.o = genOptions(g, *s.fun);
        s.o.zero = !g.chance(30);
        s.o.f1 = g.chance(65);
        s.o.r1 = g.chance(65);
        s.o.r2 = g.chance(65);
        // other functions may share or replace the sources of the directional ones
        s.o.sjac = g.chance(25);
        s.o.shess = g.chance(25);
        s.o.jac = g.chance(10);
        s.o.hess = g.chance(10);
        s.typical = g.flip();
        bool sh;
        if (prog::liveCount(s.gp.p, sh) >= 3 && (s.o.f1 || s.o.r1 || s.o.r2)) any = true;
        all += s.str() + "\n";
        c.labelIf(s.o.customJac && (s.o.f1 || s.o.r1), "customJac");
        c.labelIf(s.o.customHess && s.o.r2, "customHess");
        c.labelIf(s.o.f1, "f1");
        c.labelIf(s.o.r1, "r1");
        c.labelIf(s.o.r2, "r2");
    }
    c.nontrivial(any);
    c.sample(all);
    BatchCompiler comp(c);
    comp.joined = !g.chance(10);
    Built b = build(c, specs, comp);
    for (size_t i = 0; i < k; ++i) {
        for (size_t q = 0; q < prog::NPTS; ++q) {
            Point pt = point(specs[i].gp, q);
            if (!pt.ok) { c.label("ill-conditioned"); continue; }
            for (size_t t = 0; t < 3; ++t) checkDirectional(c, *b.models[specs[i].name], specs[i], pt, g);
        }
    }
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"directional", caseDirectional, 2500, 60000, 120, false,
         "libraries of 1-2 random programs x options with ForwardOne / ReverseOne / ReverseTwo; 9 evaluations per function and form with random sparse or dense "
         "directions and weights (unordered index lists, listed zeros, larger result arrays), compared with long double hyper-dual arithmetic; non-trivial: a model "
         "with at least 3 live operations and a directional function", false},
    });
}
