/* C11: code generation is repeatable and does not alter the recorded graph. */
#include "aprog.hpp"
#include "graph.hpp"
#include "model.hpp"
#include "loopprog.hpp"
#include <cppad/cg/lang/latex/latex.hpp>
#include <cppad/cg/lang/mathml/mathml.hpp>
#include <cppad/cg/lang/dot/dot.hpp>
#include <regex>
using namespace vf;
typedef CG<double> CGD;
typedef std::map<std::string, std::string> Texts;

/** what an epoch (everything between two resets) records: a program on independents, or a tape evaluation */
struct Recording {
    prog::Gened gp;
    AGened ag;
    bool atomic = false;
    std::vector<std::unique_ptr<Atomic>> at;
    std::unique_ptr<ADFun<CGD>> fun;
    size_t n() const { return atomic ? ag.p.n : gp.p.n; }
};

/** a step of recording: independents or operations */
struct Ev {
    char kind; // 'x' independent, 'i' operation of the program, 't' evaluation of the tape
    size_t k;
};

/** a handler with everything that was recorded in it */
struct Session {
    CodeHandler<double> h;
    std::vector<CGD> pool;
    std::vector<CGD> x;
    explicit Session(size_t cap) : h(cap) {}
    void play(const Recording& r, const Ev& e) {
        if (e.kind == 'x') { CGD v; h.makeVariable(v); x.push_back(v); pool.push_back(v); }
        else if (e.kind == 'i') pool.push_back(prog::apply<CGD>(r.gp.p.ins[e.k], pool));
        else { std::vector<CGD> y = r.fun->Forward(0, x); for (auto& q : y) pool.push_back(q); }
    }
    void clear() { pool.clear(); x.clear(); h.reset(); }
};

/** a name generator that fails */
struct Boom { };
class FailingNames : public LangCDefaultVariableNameGenerator<double> {
    size_t left_;
    bool temps_;
public:
    FailingNames(size_t k, bool temps) : left_(k), temps_(temps) {}
    std::string generateDependent(size_t index) override {
        if (!temps_ && left_-- == 0) throw Boom();
        return LangCDefaultVariableNameGenerator<double>::generateDependent(index);
    }
    std::string generateTemporary(const OperationNode<double>& v, size_t id) override {
        if (temps_ && left_-- == 0) throw Boom();
        return LangCDefaultVariableNameGenerator<double>::generateTemporary(v, id);
    }
};

/** the options of one generation */
struct Spec1 {
    int lang = 0; // 0 C, 1 LaTeX, 2 MathML, 3 dot, 4 C with failing names
    bool reuse = true, zeroDep = false, ignoreZero = false, pow = false, combine = false;
    size_t maxAssign = 0, maxOps = 0, prec = 0, boomAt = 0;
    bool boomTemps = false, addAssign = false, func = true;
    int names = 0;
    std::vector<std::string> depNames, indepNames;
    std::string str() const {
        std::ostringstream o;
        static const char* nm[] = {"C", "LaTeX", "MathML", "dot", "C with failing names"};
        o << nm[lang] << "(reuse=" << reuse << " zeroDep=" << zeroDep << " ignoreZero=" << ignoreZero << " maxAssign=" << maxAssign << " maxOps=" << maxOps
          << " prec=" << prec << " names=" << names << ")";
        return o.str();
    }
};

/** a language object and its name generator, which may be used several times */
struct Tool {
    Spec1 s;
    std::unique_ptr<Language<double>> lang;
    std::unique_ptr<VariableNameGenerator<double>> names;
    Texts sources;
    explicit Tool(const Spec1& sp) : s(sp) {
        auto common = [&](auto* l) {
            l->setIgnoreZeroDepAssign(s.ignoreZero);
            if (s.prec) l->setParameterPrecision(s.prec);
            lang.reset(l);
        };
        if (s.lang == 0 || s.lang == 4) {
            auto* l = new LanguageC<double>("double");
            if (s.func) l->setGenerateFunction("f");
            if (s.maxAssign && s.func) l->setMaxAssignmentsPerFunction(s.maxAssign, &sources);
            if (s.maxOps) l->setMaxOperationsPerAssignment(s.maxOps);
            if (s.addAssign) l->setDependentAssignOperation("+=");
            common(l);
            if (s.lang == 4) names.reset(new FailingNames(s.boomAt, s.boomTemps));
            else if (s.names == 0) names.reset(new LangCDefaultVariableNameGenerator<double>());
            else if (s.names == 1) names.reset(new LangCDefaultVariableNameGenerator<double>("res", "u", "tmp", "arr", "sarr"));
            else names.reset(new LangCCustomVariableNameGenerator<double>(s.depNames, s.indepNames));
        } else if (s.lang == 1) {
            auto* l = new LanguageLatex<double>();
            l->setAlwaysEnclosePowBase(s.pow);
            common(l);
            if (s.names == 0) names.reset(new LangLatexDefaultVariableNameGenerator<double>());
            else if (s.names == 1) names.reset(new LangLatexDefaultVariableNameGenerator<double>("r", "u", "t"));
            else names.reset(new LangLatexCustomVariableNameGenerator<double>(s.depNames, s.indepNames));
        } else if (s.lang == 2) {
            auto* l = new LanguageMathML<double>();
            l->setAlwaysEnclosePowBase(s.pow);
            l->setSaveVariableRelations(s.combine);
            common(l);
            if (s.names == 0) names.reset(new LangMathMLDefaultVariableNameGenerator<double>());
            else names.reset(new LangMathMLCustomVariableNameGenerator<double>(s.depNames, s.indepNames));
        } else {
            auto* l = new LanguageDot<double>();
            l->setCombineParameterNodes(s.combine);
            common(l);
            names.reset(new LangCDefaultVariableNameGenerator<double>());
        }
    }
    /** the texts, or the text of the exception */
    Texts run(Session& t, const std::vector<size_t>& deps, std::vector<std::string> atomics) {
        sources.clear();
        std::vector<CGD> y;
        for (size_t d : deps) y.push_back(t.pool[d]);
        t.h.setReuseVariableIDs(s.reuse);
        t.h.setZeroDependents(s.zeroDep);
        std::ostringstream o;
        Texts r;
        try {
            ArrayView<CGD> v(y);
            t.h.generateCode(o, *lang, v, *names, atomics, "source");
        } catch (const Boom&) {
            r["exception"] = "names";
            return r;
        } catch (const CGException& e) {
            r["exception"] = e.what();
            return r;
        }
        r = sources;
        r["main"] = o.str();
        std::string a;
        for (auto& q : atomics) a += q + " ";
        r["atomic functions"] = a;
        if (s.lang == 0) {
            std::ostringstream z;
            z << t.h.getTemporaryVariableCount() << " " << t.h.getTemporaryArraySize() << " " << t.h.getTemporarySparseArraySize();
            r["counts"] = z.str();
        }
        return r;
    }
};

/** dot names its nodes after their positions in the handler: they are renumbered */
static std::string renumber(const std::string& s) {
    std::string r;
    std::map<std::string, std::string> m;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == 'v' && i + 1 < s.size() && isdigit(s[i + 1]) && (i == 0 || !(isalnum(s[i - 1]) || s[i - 1] == '_'))) {
            size_t j = i + 1;
            while (j < s.size() && isdigit(s[j])) ++j;
            std::string t = s.substr(i, j - i);
            auto it = m.find(t);
            if (it == m.end()) it = m.emplace(t, "V" + std::to_string(m.size())).first;
            r += it->second;
            i = j;
        } else r += s[i++];
    }
    return r;
}

static Spec1 genSpec(pbt::Gen& g, size_t n) {
    Spec1 s;
    s.lang = (int) g.weighted({45, 14, 14, 14, 13});
    s.reuse = !g.chance(35);
    s.zeroDep = s.lang == 0 && g.chance(15);
    s.ignoreZero = g.chance(20);
    s.pow = g.flip(); s.combine = g.flip();
    s.func = !g.chance(15);
    if (g.chance(40)) s.maxAssign = g.size(1, 6);
    if (g.chance(30)) s.maxOps = g.size(1, 6);
    if (g.chance(30)) s.prec = g.pick(std::vector<size_t>{17, 6, 12});
    s.addAssign = g.chance(15);
    s.names = (int) g.below(3);
    s.boomAt = g.below(5); s.boomTemps = g.flip();
    if (s.names == 2) {
        for (size_t i = 0; i < 4; ++i) s.depNames.push_back(g.flip() ? "d" + std::to_string(i) : "");
        for (size_t i = 0; i < n; ++i) s.indepNames.push_back(g.flip() ? "q" + std::to_string(i) : "");
        if (g.flip() && !s.indepNames.empty()) s.indepNames.pop_back();
    }
    return s;
}

static void caseHandler(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t cap = g.flip() ? 50 : 1;
    Session t(cap);
    std::unique_ptr<Recording> rec;
    std::vector<Ev> evs;
    size_t pos = 0;
    std::vector<std::unique_ptr<Tool>> tools;
    std::string hist;
    CodeHandlerVector<double, size_t> tags(t.h);
    size_t nGen = 0, nReset = 0, nBoom = 0, nGrow = 0, nLangs = 0;
    std::set<int> langs;
    auto tagAll = [&] {
        tags.adjustSize();
        size_t k = 0;
        for (auto* n : t.h.getManagedNodes()) tags[*n] = 7 * k++ + 3;
    };
    auto tagsOk = [&](size_t known) {
        if (tags.size() < known) return false;
        for (size_t k = 0; k < known; ++k) if (tags[*t.h.getManagedNodes()[k]] != 7 * k + 3) return false;
        return true;
    };
    auto begin = [&] {
        rec.reset(new Recording());
        evs.clear();
        pos = 0;
        rec->atomic = g.chance(30);
        if (rec->atomic) {
            AOpts ao;
            rec->ag = genA(g, ao);
            std::vector<double> x0(10, 0.5);
            for (size_t i = 0; i < rec->ag.p.inner.size(); ++i) rec->at.emplace_back(new Atomic(rec->ag.p.inner[i], "atomic" + std::to_string(i), x0, g.flip()));
            std::vector<AD<CGD>> ax(rec->ag.p.n);
            for (size_t i = 0; i < ax.size(); ++i) ax[i] = CGD(rec->ag.x[0][i]);
            CppAD::Independent(ax);
            std::vector<AD<CGD>> ay = evalA<AD<CGD>>(rec->ag.p, ax, [&](size_t i, const std::vector<AD<CGD>>& a) {
                std::vector<AD<CGD>> r(rec->ag.p.inner[i].m());
                (*rec->at[i]->cg)(a, r);
                return r;
            });
            rec->fun.reset(new ADFun<CGD>(ax, ay));
            c.label("atomic functions");
        } else {
            prog::Opts o;
            o.insMax = 25;
            rec->gp = prog::gen(g, o);
        }
        // some independents may be created after other operations
        for (size_t i = 0; i < rec->n(); ++i) { evs.push_back({'x', i}); t.play(*rec, evs.back()); }
        tagAll();
        hist += "; recording " + (rec->atomic ? rec->ag.p.str() : rec->gp.p.str());
    };
    begin();
    auto grow = [&] {
        if (rec->atomic) {
            evs.push_back({'t', 0});
            t.play(*rec, evs.back());
            hist += "; tape evaluated";
        } else {
            size_t left = rec->gp.p.ins.size() - pos;
            size_t k = std::min<size_t>(left, g.size(1, 12));
            for (size_t q = 0; q < k; ++q) { evs.push_back({'i', pos++}); t.play(*rec, evs.back()); }
            hist += "; " + std::to_string(k) + " operations";
        }
        tagAll();
    };
    grow();
    size_t steps = g.size(2, 8);
    for (size_t st = 0; st < steps; ++st) {
        size_t act = g.weighted({62, 18, 10, 10});
        if (act == 1) {
            if (rec->atomic ? evs.size() < rec->n() + 3 : pos < rec->gp.p.ins.size()) { grow(); if (nGen) ++nGrow; }
        } else if (act == 2) {
            // the language objects are used with one handler content only
            t.clear();
            c.check(t.h.getIndependentVariableSize() == 0, "independent variables are left after a reset");
            c.check(tags.size() <= t.h.getManagedNodesCount(), "data of removed operations is left after a reset");
            for (auto q : tags) c.check(q == 0, "data of removed operations is left after a reset");
            tags.clear();
            rec.reset();
            if (g.chance(70)) tools.clear();
            hist += "; reset";
            ++nReset;
            begin();
            grow();
        } else {
            // generation
            Tool* tool;
            if (!tools.empty() && g.chance(40)) {
                tool = tools[g.below(tools.size())].get();
                if (tool->s.lang == 4) continue; // counts its calls
                c.label("language object used again");
            } else {
                tools.emplace_back(new Tool(genSpec(g, rec->n())));
                tool = tools.back().get();
            }
            std::vector<size_t> deps;
            size_t m = g.size(1, 4);
            for (size_t i = 0; i < m; ++i) deps.push_back(g.chance(70) ? t.pool.size() - 1 - g.below(std::min<size_t>(5, t.pool.size())) : g.below(t.pool.size()));
            std::vector<std::string> atomics;
            if (rec->atomic && g.chance(30)) atomics = g.flip() ? std::vector<std::string>{"atomic1"} : std::vector<std::string>{"other", "atomic0"};
            hist += "; generate " + tool->s.str() + " [";
            for (size_t d : deps) hist += std::to_string(d) + " ";
            hist += "]";
            std::vector<std::string> before;
            std::vector<std::string> nm;
            bool texts = t.pool.size() < 60;
            const std::vector<double>& x0 = rec->atomic ? rec->ag.x[0] : rec->gp.x[0];
            std::vector<double> val;
            if (!rec->atomic) { Interp<double> ip(t.h, x0); for (auto& q : t.pool) val.push_back(ip.value(q)); }
            size_t known = t.h.getManagedNodesCount();
            auto describe = [&] {
                std::string s;
                for (size_t k = 0; k < known; ++k) {
                    auto* n = t.h.getManagedNodes()[k];
                    s += std::to_string((int) n->getOperationType()) + ":";
                    for (auto i : n->getInfo()) s += std::to_string(i) + " ";
                    s += "(";
                    for (auto& a : n->getArguments()) s += a.getOperation() ? "n" + std::to_string(a.getOperation()->getHandlerPosition()) + " " : pbt::str(*a.getParameter()) + " ";
                    s += ")";
                    if (n->getName()) s += "=" + *n->getName();
                    s += ";";
                }
                return s;
            };
            std::string d0 = texts || rec->atomic ? describe() : "";
            Texts got = tool->run(t, deps, atomics);
            ++nGen;
            langs.insert(tool->s.lang);
            // the recorded graph is as it was
            c.check(t.h.getManagedNodesCount() >= known, "operations are removed by the generation" );
            if (!d0.empty()) {
                std::string d1 = describe();
                ++c.evals;
                if (d0 != d1) {
                    std::string what;
                    std::stringstream a(d0), b(d1);
                    std::string ta, tb;
                    while (std::getline(a, ta, ';') && std::getline(b, tb, ';')) if (ta != tb) { what = ta + " becomes " + tb; break; }
                    c.fail("the recorded operations are changed by the generation; case: " + what + hist);
                }
            }
            if (!rec->atomic) {
                Interp<double> ip(t.h, x0);
                for (size_t i = 0; i < t.pool.size(); ++i) {
                    double v = ip.value(t.pool[i]);
                    ++c.evals;
                    if (!(v == val[i] || (std::isnan(v) && std::isnan(val[i])))) c.fail("the recorded values change with the generation; case: value " + std::to_string(i) + hist);
                }
            }
            c.check(tagsOk(known), "data that the user keeps for each operation is changed by the generation");
            // as a new handler does
            Session f(50);
            for (const Ev& e : evs) f.play(*rec, e);
            Tool fresh(tool->s);
            Texts exp = fresh.run(f, deps, atomics);
            if (tool->s.lang == 3) { got["main"] = renumber(got["main"]); exp["main"] = renumber(exp["main"]); }
            if (got.count("exception")) { ++nBoom; hist += " (failed)"; }
            c.evals += exp.size();
            for (auto& e : exp) {
                auto it = got.find(e.first);
                if (it == got.end()) c.fail("a source of a new handler is missing; case: " + e.first + hist);
                if (it->second != e.second) {
                    size_t q = 0;
                    while (q < e.second.size() && q < it->second.size() && e.second[q] == it->second[q]) ++q;
                    size_t q0 = q > 80 ? q - 80 : 0;
                    c.fail(std::string("the generated source differs from the source of a new handler (") + (tool->s.lang == 0 ? "C" : tool->s.lang == 1 ? "LaTeX" : tool->s.lang == 2 ? "MathML" : tool->s.lang == 3 ? "dot" : "failing") +
                           "); case: " + e.first + ": '" + it->second.substr(q0, 160) + "' expected '" + e.second.substr(q0, 160) + "'" + hist);
                }
            }
            c.check(got.size() == exp.size(), "there are more sources than with a new handler; case: " + hist);
        }
    }
    nLangs = langs.size();
    c.sample(hist);
    c.labelIf(nReset > 0, "reset");
    c.labelIf(nBoom > 0, "failed generation");
    c.labelIf(nGrow > 0, "recorded after generation");
    c.labelIf(nLangs > 1, "several languages");
    c.nontrivial(nGen > 1);
    c.key(hist);
}

static Texts readDir(const std::string& d) {
    Texts r;
    std::string names = d + ".lst";
    if (run({"/usr/bin/find", d, "-type", "f"}, names) != 0) return r;
    std::istringstream in(readFile(names));
    std::string l;
    while (std::getline(in, l)) r[l.substr(d.size() + 1)] = readFile(l);
    return r;
}

/** the sources of models generated again, by the same and by new objects, are the same */
static void caseModels(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t k = g.size(1, 2);
    bool loops = g.chance(60);
    std::vector<Spec> specs(k), again(k);
    std::string all;
    for (size_t i = 0; i < k; ++i) {
        Spec& s = specs[i];
        s.name = "m" + std::to_string(i);
        if (loops) {
            auto lr = loopprog::gen(g, modelProgOpts(g), 10);
            s.gp = lr.gp;
            s.related = lr.related;
        } else s.gp = prog::gen(g, modelProgOpts(g));
        s.doTape();
        s.o = genOptions(g, *s.fun);
        if (loops) { s.o.customJac = s.o.customHess = false; }
        s.o.jac = g.flip(); s.o.hess = g.flip(); s.o.sjac = g.flip(); s.o.shess = g.flip(); s.o.f1 = g.flip(); s.o.r1 = g.flip(); s.o.r2 = g.flip();
        again[i].name = s.name; again[i].gp = s.gp; again[i].related = s.related; again[i].o = s.o;
        all += s.str() + "; ";
    }
    c.sample(all);
    c.key(all);
    bool mt = g.chance(20);
    auto save = [&](std::vector<Spec>& v, const std::string& dir) {
        ModelLibraryCSourceGen<double> ls(*v[0].src);
        if (mt) ls.setMultiThreading(MultiThreadingType::PTHREADS);
        for (size_t i = 1; i < v.size(); ++i) ls.addModel(*v[i].src);
        SaveFilesModelLibraryProcessor<double> p(ls);
        p.saveSourcesTo(dir);
        return readDir(dir);
    };
    auto cmp = [&](const char* what, const Texts& a, const Texts& b) {
        c.check(!a.empty(), "no sources are saved");
        for (auto& e : a) {
            auto it = b.find(e.first);
            if (it == b.end()) c.fail(std::string("a source is missing ") + what + "; case: " + e.first + " of " + all);
            ++c.evals;
            if (it->second != e.second) {
                size_t q = 0;
                while (q < e.second.size() && q < it->second.size() && e.second[q] == it->second[q]) ++q;
                size_t q0 = q > 80 ? q - 80 : 0;
                c.fail(std::string("a source is different ") + what + "; case: " + e.first + ": '" + it->second.substr(q0, 160) + "' before '" + e.second.substr(q0, 160) + "' of " + all);
            }
        }
        c.check(a.size() == b.size(), std::string("there are additional sources ") + what + "; case: " + all);
    };
    try {
        for (auto& s : specs) s.prepare();
        Texts a = save(specs, c.scratch + "/A");
        Texts b = save(specs, c.scratch + "/B");
        cmp("the second time", a, b);
        // new objects: another tape of the same function, in a heap with other contents
        std::vector<std::unique_ptr<int>> junk;
        for (size_t i = 0; i < 200; ++i) junk.emplace_back(new int(1));
        for (size_t i = 0; i < 200; i += 2) junk[i].reset();
        if (g.flip()) std::reverse(again.begin(), again.end());
        for (auto& s : again) s.prepare();
        std::sort(again.begin(), again.end(), [](const Spec& p, const Spec& q) { return p.name < q.name; });
        Texts d = save(again, c.scratch + "/D");
        // (models with loops order equivalent operations by their addresses)
        if (!loops) cmp("with new objects", a, d);
    } catch (const CGException& e) {
        c.fail(std::string("the sources cannot be generated: ") + e.what() + "; case: " + all);
    }
    c.labelIf(loops, "loops");
    c.nontrivial(true);
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"handler", caseHandler, 60000, 1000000, 60, false,
         "histories of recording, generation (C with many options, LaTeX, MathML, dot, generations that fail, language objects used again) and reset on one handler, each generation compared with "
         "a new handler; the graph and the data kept for its nodes are unchanged; non-trivial: at least two generations", false},
        {"models", caseModels, 4000, 60000, 120, false,
         "sources of model libraries (with and without loops) generated twice from the same objects and once from new ones; non-trivial: all", false},
    }, {});
}
