/* C03: values, Jacobians and Hessians of compiled models. */
#include "model.hpp"
using namespace vf;

static void caseModels(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t k = g.size(1, 3);
    std::vector<Spec> specs(k);
    std::string all;
    bool any = false;
    for (size_t i = 0; i < k; ++i) {
        Spec& s = specs[i];
        s.name = "mod" + std::to_string(i);
        s.gp = prog::gen(g, modelProgOpts(g));
        s.optimize = g.chance(30);
        s.doTape();
        s.o = genOptions(g, *s.fun);
        s.o.zero = !g.chance(15);
        s.o.jac = g.chance(60);
        s.o.hess = g.chance(45);
        s.o.sjac = g.chance(70);
        s.o.shess = g.chance(60);
        // the directional functions which the sparse ones may reuse
        s.o.f1 = g.chance(35);
        s.o.r1 = g.chance(35);
        s.o.r2 = g.chance(40);
        s.typical = g.flip();
        bool sh;
        if (prog::liveCount(s.gp.p, sh) >= 3 && (s.o.jac || s.o.hess || s.o.sjac || s.o.shess)) any = true;
        all += s.str() + "\n";
        c.labelIf(s.o.customJac && s.o.sjac, "customJac");
        c.labelIf(s.o.customHess && s.o.shess, "customHess");
        c.labelIf(s.o.sjac && s.o.reuse1 && (s.o.f1 || s.o.r1), "jacFromOne");
        c.labelIf(s.o.shess && s.o.reuse2 && s.o.r2, "hessFromRev2");
    }
    c.nontrivial(any);
    c.sample(all);
    BatchCompiler comp(c);
    comp.joined = !g.chance(10);
    std::vector<std::pair<int, int>> how;
    for (size_t i = 0; i < k; ++i) how.push_back({(int) g.below(12), (int) g.below(12)});
    Built b = build(c, specs, comp);
    for (size_t i = 0; i < k; ++i) {
        for (size_t q = 0; q < prog::NPTS; ++q) {
            Point pt = point(specs[i].gp, q);
            if (!pt.ok) { c.label("ill-conditioned"); continue; }
            checkModelValues(c, *b.models[specs[i].name], specs[i], pt, how[i].first + (int) q * how[i].second);
        }
    }
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"models", caseModels, 1500, 40000, 120, false,
         "libraries of 1-3 models: random programs (1-5 independents, up to 30 operations) x function selection x options (custom elements, AD mode, reuse of "
         "directional functions, splitting); every overload of the compiled functions is compared at 3 points with derivatives from long double hyper-dual "
         "arithmetic; non-trivial: a model with at least 3 live operations and a derivative function", false},
    });
}
