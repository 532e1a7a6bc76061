/* C02: CG<Base> arithmetic has the semantics of Base. */
#include "graph.hpp"
using namespace vf;
using prog::Ins;

static const size_t NP = 5; // 0: known values; 1,2: independents without a value differ; 3,4: all differ

template<class B>
struct World {
    typedef CG<B> CGB;
    pbt::Case& c;
    pbt::Gen& g;
    CodeHandler<B> h;
    std::vector<CGB> s;                        // slots
    std::array<std::vector<B>, NP> v;          // what they stand for
    std::vector<char> known;                   // all the inputs of the value are known
    std::vector<CGB> kept;                     // old results
    std::array<std::vector<B>, NP> keptV;
    std::vector<size_t> keptStep;
    std::array<std::vector<B>, NP> x;          // independents
    std::vector<char> hasValue;
    std::string log;
    size_t step = 0, variableOps = 0, folded = 0;

    World(pbt::Case& cc) : c(cc), g(cc.g), h(2) {}

    /** a value of an independent variable: often one for which simplifications matter */
    B rnd(double lo, double hi) {
        if (g.chance(20)) return B(g.range(-2, 2));
        return B(g.real(lo, hi));
    }
    /** where the powers are well conditioned */
    static bool powOk(double a, double b) {
        if (std::fabs(b) > 6) return false;
        if (a == 0) return b == 0 || b >= 0.05;
        return a >= 0.05 || (a <= -0.05 && b == std::floor(b));
    }
    std::string nm(size_t i) { return "s" + std::to_string(i); }
    void note(const std::string& t) { log += t + "; "; c.sample(log); if (c.verbose) std::cout << step << ": " << t << std::endl; }

    bool eq(B a, B b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= (sizeof(B) == 4 ? 1e-4 : 1e-9) * (1 + std::fabs(b)); }

    void verify(size_t i, const std::string& what) {
        const CGB& a = s[i];
        c.checkf(a.isParameter() != a.isVariable(), [&] { return "an object is both or neither a parameter and a variable after " + what + " {" + log + "}"; });
        c.checkf(!known[i] || a.isValueDefined(), [&] { return "the value of the result is not defined although the values of all operands are, after " + what + " {" + log + "}"; });
        if (a.isValueDefined()) {
            B w = a.getValue();
            for (size_t k = 0; k < 3; ++k)
                c.checkf(eq(w, v[k][i]), [&] { return "the value is " + pbt::str(w) + ", expected " + pbt::str(v[k][i]) + (v[0][i] != v[k][i] ? " (or no value, it depends on independents without a value)" : "") + " after " + what + " {" + log + "}"; });
            if (!a.isParameter()) c.label("tracked");
        } else {
            bool thrown = false;
            try { (void) a.getValue(); } catch (const CGException&) { thrown = true; }
            c.checkf(thrown, [&] { return "getValue() of an object without a value did not fail after " + what + " {" + log + "}"; });
            c.label("untracked");
        }
        if (a.isParameter())
            for (size_t k = 1; k < NP; ++k)
                c.checkf(v[k][i] == v[0][i], [&] { return "the result of " + what + " is a parameter but depends on the independents {" + log + "}"; });
        bool zero = a.isParameter() && v[0][i] == B(0), one = a.isParameter() && v[0][i] == B(1);
        c.checkf(a.isIdenticalZero() == zero && CppAD::IdenticalZero(a) == zero, [&] { return "IdenticalZero is wrong after " + what + " {" + log + "}"; });
        c.checkf(a.isIdenticalOne() == one && CppAD::IdenticalOne(a) == one, [&] { return "IdenticalOne is wrong after " + what + " {" + log + "}"; });
        c.checkf(CppAD::IdenticalCon(a) == a.isParameter(), [&] { return "IdenticalCon is wrong after " + what + " {" + log + "}"; });
        c.checkf((a.getCodeHandler() == &h) == a.isVariable(), [&] { return "wrong code handler after " + what + " {" + log + "}"; });
    }

    void put(size_t d, const CGB& r, const std::array<B, NP>& w, bool kn) {
        if (s[d].isVariable() && kept.size() < 40) {
            kept.push_back(s[d]);
            keptStep.push_back(step);
            for (size_t k = 0; k < NP; ++k) keptV[k].push_back(v[k][d]);
        }
        s[d] = r;
        for (size_t k = 0; k < NP; ++k) v[k][d] = w[k];
        known[d] = kn;
    }

    void checkGraph(const std::string& when) {
        for (size_t k = 0; k < NP; ++k) {
            Interp<B> in(h, x[k]);
            for (size_t i = 0; i < s.size(); ++i) {
                B w = in.value(s[i]);
                c.checkf(eq(w, v[k][i]), [&] { return "the graph of " + nm(i) + " evaluates to " + pbt::str(w) + ", expected " + pbt::str(v[k][i]) + " (point " + std::to_string(k) + ", " + when + ") {" + log + "}"; });
            }
            for (size_t i = 0; i < kept.size(); ++i) {
                B w = in.value(kept[i]);
                c.checkf(eq(w, keptV[k][i]), [&] { return "the graph of an earlier result (step " + std::to_string(keptStep[i]) + ") evaluates to " + pbt::str(w) + ", expected " + pbt::str(keptV[k][i]) + " {" + log + "}"; });
            }
        }
    }

    bool evalIns(const Ins& q, std::array<B, NP>& w) {
        for (size_t k = 0; k < NP; ++k) {
            if (q.op != prog::CONST) {
                double a = v[k][q.a], b = v[k][q.b];
                if (q.op == prog::COND) { if (a != b && std::fabs(a - b) < 1e-2) return false; }
                else if (q.op == prog::SIGN || q.op == prog::ABS) { if (a != 0 && std::fabs(a) < 1e-2) return false; }
                else if (q.op == prog::POW) { if (!powOk(a, b)) return false; }
                else if (q.op == prog::POWI) { if (!powOk(a, q.k)) return false; }
                else if (!prog::domainOk(q, a, b)) return false;
            }
            if (q.op == prog::LOG10) w[k] = std::log(v[k][q.a]) / std::log(B(10));
            else if (q.op == prog::SIGN) w[k] = v[k][q.a] > 0 ? B(1) : v[k][q.a] == 0 ? B(0) : B(-1);
            else w[k] = ref(q, k);
            if (!std::isfinite(w[k]) || std::fabs(w[k]) > 1e4) return false;
        }
        return true;
    }
    B ref(const Ins& q, size_t k) {
        B a = v[k][q.a], b = v[k][q.b], cc = v[k][q.c], d = v[k][q.d];
        switch (q.op) {
            case prog::CONST: return B(q.k);
            case prog::ADD: case prog::ADDEQ: return a + b;
            case prog::SUB: case prog::SUBEQ: return a - b;
            case prog::MUL: case prog::MULEQ: return a * b;
            case prog::DIV: case prog::DIVEQ: return a / b;
            case prog::NEG: return -a;
            case prog::SIN: return std::sin(a); case prog::COS: return std::cos(a); case prog::TAN: return std::tan(a);
            case prog::ASIN: return std::asin(a); case prog::ACOS: return std::acos(a); case prog::ATAN: return std::atan(a);
            case prog::SINH: return std::sinh(a); case prog::COSH: return std::cosh(a); case prog::TANH: return std::tanh(a);
            case prog::ASINH: return std::asinh(a); case prog::ACOSH: return std::acosh(a); case prog::ATANH: return std::atanh(a);
            case prog::EXP: return std::exp(a); case prog::EXPM1: return std::expm1(a); case prog::LOG: return std::log(a); case prog::LOG1P: return std::log1p(a);
            case prog::SQRT: return std::sqrt(a); case prog::ERF: return std::erf(a); case prog::ERFC: return std::erfc(a); case prog::ABS: return std::fabs(a);
            case prog::POW: return std::pow(a, b);
            case prog::POWI: return std::pow(a, B(q.k));
            case prog::COND: {
                bool r = q.cmp == prog::LT ? a < b : q.cmp == prog::LE ? a <= b : q.cmp == prog::EQ ? a == b : q.cmp == prog::GE ? a >= b : q.cmp == prog::GT ? a > b : a != b;
                return r ? cc : d;
            }
            case prog::ALIAS: return a;
            default: throw std::logic_error("op");
        }
    }

    /** the operation in one of the forms a user can write */
    CGB doIns(const Ins& q, int form, double k) {
        CGB& a = s[q.a];
        CGB& b = s[q.b];
        switch (q.op) {
            case prog::ADDEQ: a += b; return a;
            case prog::SUBEQ: a -= b; return a;
            case prog::MULEQ: a *= b; return a;
            case prog::DIVEQ: a /= b; return a;
            case prog::ABS: return form ? CppAD::abs(a) : CppAD::fabs(a);
            case prog::POWI: return form == 1 ? CppAD::pow(a, B(q.k)) : CppAD::pow(a, CGB(B(q.k)));
            case prog::COND:
                if (form == 1 && q.cmp <= prog::GT) {
                    static const CompareOp op[] = {CompareLt, CompareLe, CompareEq, CompareGe, CompareGt};
                    return CppAD::CondExpOp(op[q.cmp], a, b, s[q.c], s[q.d]);
                }
                (void) k;
                return prog::apply<CGB>(q, s);
            case prog::ALIAS: return form ? CGB(a) : +a;
            default: return prog::apply<CGB>(q, s);
        }
    }

    void actArithmetic() {
        for (int t = 0; t < 4; ++t) {
            Ins q;
            prog::Opts o;
            q.op = prog::genOp(g, o);
            if (q.op == prog::CONST) q.op = g.flip() ? prog::MUL : prog::ADD;
            q.a = (int) g.below(s.size());
            q.b = g.chance(20) ? q.a : (int) g.below(s.size());
            q.c = (int) g.below(s.size());
            q.d = g.chance(20) ? q.c : (int) g.below(s.size());
            q.cmp = (int) g.below(6);
            q.k = (double) g.range(-2, 4);
            int form = (int) g.below(2);
            size_t d = g.below(s.size());
            std::array<B, NP> w;
            if (!evalIns(q, w)) continue;
            bool compound = q.op >= prog::ADDEQ && q.op <= prog::DIVEQ;
            if (compound) d = (size_t) q.a;
            bool two = (q.op >= prog::ADD && q.op <= prog::DIV) || compound || q.op == prog::POW || q.op == prog::COND;
            bool kn = known[q.a] && (!two || known[q.b]);
            if (q.op == prog::COND) {
                // the selected case decides
                B a0 = v[0][q.a], b0 = v[0][q.b];
                bool sel = q.cmp == prog::LT ? a0 < b0 : q.cmp == prog::LE ? a0 <= b0 : q.cmp == prog::EQ ? a0 == b0 : q.cmp == prog::GE ? a0 >= b0 : q.cmp == prog::GT ? a0 > b0 : a0 != b0;
                kn = kn && known[sel ? q.c : q.d];
            }
            bool par = s[q.a].isParameter() && (!two || s[q.b].isParameter()) && (q.op != prog::COND || (s[q.c].isParameter() && s[q.d].isParameter()));
            bool anyVar = !par;
            size_t nodes0 = h.getManagedNodesCount();
            std::string t2 = nm(d) + "=" + describe(q);
            CGB r;
            if (compound) {
                CGB old = s[q.a];
                std::array<B, NP> ow;
                for (size_t k = 0; k < NP; ++k) ow[k] = v[k][d];
                bool okn = known[d];
                CGB& ret = [&]() -> CGB& {
                    CGB& aa = s[q.a]; CGB& bb = s[q.b];
                    return q.op == prog::ADDEQ ? aa += bb : q.op == prog::SUBEQ ? aa -= bb : q.op == prog::MULEQ ? aa *= bb : aa /= bb;
                }();
                c.check(&ret == &s[q.a], "the compound assignment returns another object");
                r = s[q.a];
                s[q.a] = old;
                (void) ow; (void) okn;
            } else r = doIns(q, form, 0);
            if (par) c.checkf(r.isParameter(), [&] { return "constants do not combine into a constant: " + t2 + " {" + log + "}"; });
            if (anyVar) ++variableOps;
            if (anyVar && h.getManagedNodesCount() == nodes0) ++folded;
            if (q.a == q.b && two) c.label("aliased");
            if (q.op == prog::POW && s[q.a].isParameter() != s[q.b].isParameter()) {
                c.label("pow with a constant");
                for (size_t k = 0; k < NP; ++k) c.labelIf(v[k][q.a] == 0 || v[k][q.b] == 0, "pow with zero");
            }
            put(d, r, w, kn);
            note(t2);
            verify(d, t2);
            for (int e : {q.a, q.b, q.c, q.d}) verify((size_t) e, t2 + " (operand)");
            return;
        }
    }
    std::string describe(const Ins& q) {
        auto r = [&](int i) { return nm((size_t) i); };
        switch (q.op) {
            case prog::ADD: case prog::SUB: case prog::MUL: case prog::DIV: case prog::ADDEQ: case prog::SUBEQ: case prog::MULEQ: case prog::DIVEQ:
                return r(q.a) + prog::opName[q.op] + r(q.b);
            case prog::POW: return "pow(" + r(q.a) + "," + r(q.b) + ")";
            case prog::POWI: return "pow(" + r(q.a) + "," + std::to_string((int) q.k) + ")";
            case prog::COND: return "(" + r(q.a) + prog::cmpName[q.cmp] + r(q.b) + "?" + r(q.c) + ":" + r(q.d) + ")";
            default: return std::string(prog::opName[q.op]) + "(" + r(q.a) + ")";
        }
    }

    /** operations with plain numbers on either side */
    void actMixed() {
        size_t i = g.below(s.size()), d = g.below(s.size());
        double k = prog::genConst(g);
        int op = (int) g.below(4), form = (int) g.below(5);
        if (form >= 2) k = (double) (int) k; // integer forms
        int ki = (int) k;
        B kb = B(k);
        bool left = g.flip();
        std::array<B, NP> w;
        for (size_t p = 0; p < NP; ++p) {
            B a = v[p][i];
            B l = left ? kb : a, r = left ? a : kb;
            if (form == 4) { l = a; r = kb; }
            if (op == 3 && std::fabs(r) < 2e-2) return;
            w[p] = op == 0 ? l + r : op == 1 ? l - r : op == 2 ? l * r : l / r;
            if (std::fabs(w[p]) > 1e4) return;
        }
        bool kn = known[i];
        CGB r;
        CGB& a = s[i];
        std::string t = nm(d) + "=" + (left && form != 4 ? pbt::str(k) : nm(i)) + "+-*/"[op] + (left && form != 4 ? nm(i) : pbt::str(k)) + " form " + std::to_string(form);
        if (form == 4 || form == 1) {
            if (form == 1 && left) { // Base op CG
                r = op == 0 ? kb + a : op == 1 ? kb - a : op == 2 ? kb * a : kb / a;
            } else {
                CGB q = a;
                if (form == 4) { if (op == 0) q += ki; else if (op == 1) q -= ki; else if (op == 2) q *= ki; else q /= ki; }
                else { if (op == 0) q += kb; else if (op == 1) q -= kb; else if (op == 2) q *= kb; else q /= kb; }
                r = q;
            }
        } else if (form >= 2) {
            if (left) r = op == 0 ? ki + a : op == 1 ? ki - a : op == 2 ? ki * a : ki / a;
            else r = op == 0 ? a + ki : op == 1 ? a - ki : op == 2 ? a * ki : a / ki;
        } else {
            if (left) r = op == 0 ? CGB(kb) + a : op == 1 ? CGB(kb) - a : op == 2 ? CGB(kb) * a : CGB(kb) / a;
            else r = op == 0 ? a + kb : op == 1 ? a - kb : op == 2 ? a * kb : a / kb;
        }
        if (s[i].isVariable()) ++variableOps;
        put(d, r, w, kn);
        note(t);
        verify(d, t);
        verify(i, t + " (operand)");
        c.label("mixed");
    }

    void actCopy() {
        size_t i = g.below(s.size()), j = g.below(s.size());
        int how = (int) g.below(6);
        std::array<B, NP> wi, wj;
        for (size_t k = 0; k < NP; ++k) { wi[k] = v[k][i]; wj[k] = v[k][j]; }
        bool ki = known[i], kj = known[j];
        std::string t = (const char*[]){"copy", "move", "swap", "self", "moveConstruct", "throughVector"}[how] + std::string(" ") + nm(i) + "<-" + nm(j);
        if (how == 0) { s[i] = s[j]; }
        else if (how == 1) {
            if (i == j) return;
            s[i] = std::move(s[j]);
            s[j] = B(3);                     // the source gets a new value
            for (size_t k = 0; k < NP; ++k) v[k][j] = B(3);
            known[j] = 1;
        } else if (how == 2) {
            if (i == j) return;
            std::swap(s[i], s[j]);
            for (size_t k = 0; k < NP; ++k) v[k][j] = wi[k];
            known[j] = ki;
        } else if (how == 3) { CGB& r = s[i]; s[i] = r; for (size_t k = 0; k < NP; ++k) wj[k] = wi[k]; kj = ki; }
        else if (how == 4) {
            CGB q(std::move(s[j]));
            s[j] = q;
            s[i] = q;
        } else {
            std::vector<CGB> vv(1, s[j]);
            vv.resize(5);
            vv.insert(vv.begin(), s[j]);
            s[i] = vv[g.below(2)];
        }
        for (size_t k = 0; k < NP; ++k) v[k][i] = wj[k];
        known[i] = kj;
        note(t);
        verify(i, t);
        verify(j, t);
        c.label("copies");
    }

    void actConstant() {
        size_t d = g.below(s.size());
        B k = B(prog::genConst(g));
        std::array<B, NP> w;
        w.fill(k);
        int how = (int) g.below(5);
        CGB r;
        if (how == 0) r = CGB(k);
        else if (how == 1) { r = s[g.below(s.size())]; r = k; }
        else if (how == 2 && k == B(0)) r = CGB();
        else if (how == 3) { r = CGB(B(7)); r.setValue(k); }
        else if (how == 4) {
            std::istringstream is(pbt::str((double) (int) k));
            w.fill(B((int) k));
            is >> r;
        } else r = k;
        put(d, r, w, true);
        note(nm(d) + " := " + pbt::str(w[0]));
        verify(d, "constant");
    }

    void actIndependent() {
        size_t d = g.below(s.size());
        if (x[0].size() >= 6) return actArithmetic();
        CGB n;
        if (g.flip()) h.makeVariable(n);
        else { std::vector<CGB> nn(1); h.makeVariables(nn); n = nn[0]; }
        std::array<B, NP> w;
        bool val = g.chance(60);
        w[0] = rnd(-2.5, 2.5);
        for (size_t k = 1; k < NP; ++k) w[k] = (val && k < 3) ? w[0] : rnd(-2.5, 2.5);
        for (size_t k = 0; k < NP; ++k) x[k].push_back(w[k]);
        hasValue.push_back(val);
        c.checkf(n.isVariable() && !n.isValueDefined(), [&] { return "a new independent variable has a value {" + log + "}"; });
        if (val) n.setValue(w[0]);
        c.checkf(h.getIndependentVariableSize() == x[0].size() && h.getIndependentVariableIndex(*n.getOperationNode()) == x[0].size() - 1,
                 [&] { return "wrong index of a new independent variable {" + log + "}"; });
        put(d, n, w, val);
        note(nm(d) + " := x" + std::to_string(x[0].size() - 1) + (val ? "(" + pbt::str(w[0]) + ")" : "(?)"));
        verify(d, "new independent");
    }

    void actCompare() {
        size_t i = g.below(s.size()), j = g.below(s.size());
        const CGB &a = s[i], &b = s[j];
        B va = v[0][i], vb = v[0][j];
        bool par = a.isParameter() && b.isParameter();
        std::string at = "of " + nm(i) + " and " + nm(j) + " {" + log + "}";
        if (par) {
            c.check((a == b) == (va == vb) && (a != b) == (va != vb) && (a < b) == (va < vb) && (a <= b) == (va <= vb) && (a > b) == (va > vb) && (a >= b) == (va >= vb), "wrong comparison " + at);
            c.check((a == vb) == (va == vb) && (va == b) == (va == vb) && (va != b) == (va != vb), "wrong comparison with a number " + at);
            c.check(CppAD::GreaterThanZero(a) == (va > 0) && CppAD::GreaterThanOrZero(a) == (va >= 0) && CppAD::LessThanZero(a) == (va < 0) && CppAD::LessThanOrZero(a) == (va <= 0), "wrong sign query " + at);
            c.check(CppAD::abs_geq(a, b) == (std::fabs(va) >= std::fabs(vb)), "wrong abs_geq " + at);
            c.check(CppAD::IdenticalEqualCon(a, b) == (va == vb), "wrong IdenticalEqualCon " + at);
            c.check(!CppAD::isnan(a), "wrong isnan " + at);
            c.check(CppAD::Integer(a) == (int) va, "wrong Integer " + at);
            std::ostringstream o1, o2;
            o1 << a; o2 << a.getValue();
            c.check(o1.str() == o2.str(), "a parameter is printed as " + o1.str() + " instead of " + o2.str());
            c.label("compare-constants");
        } else {
            int thrown = 0;
            try { (void) (a < b); } catch (const CGException&) { ++thrown; }
            try { (void) (a <= b); } catch (const CGException&) { ++thrown; }
            try { (void) (a > b); } catch (const CGException&) { ++thrown; }
            try { (void) (a >= b); } catch (const CGException&) { ++thrown; }
            c.check(thrown == 4, "an ordering comparison of a variable does not fail " + at);
            bool same = a.isVariable() && b.isVariable() && a.getOperationNode() == b.getOperationNode();
            c.check((a == b) == same && (a != b) == !same, "equality of variables is not identity " + at);
            if (a == b) for (size_t k = 0; k < NP; ++k) c.check(v[k][i] == v[k][j], "different expressions are equal " + at);
            c.check(!CppAD::IdenticalEqualCon(a, b), "IdenticalEqualCon of a variable " + at);
            if (a.isVariable()) {
                int th = 0;
                try { (void) CppAD::GreaterThanZero(a); } catch (const CGException&) { ++th; }
                try { (void) CppAD::LessThanZero(a); } catch (const CGException&) { ++th; }
                try { (void) CppAD::GreaterThanOrZero(a); } catch (const CGException&) { ++th; }
                try { (void) CppAD::LessThanOrZero(a); } catch (const CGException&) { ++th; }
                try { (void) CppAD::abs_geq(a, b); } catch (const CGException&) { ++th; }
                c.check(th == 5, "a sign query of a variable does not fail " + at);
                c.check(!(a == va) && !(va == a) && (va != a), "a variable compares equal with a number " + at);
            }
            c.label("compare-variables");
        }
    }

    void actForeign() {
        CodeHandler<B> h2;
        CGB y;
        h2.makeVariable(y);
        size_t i = g.below(s.size());
        if (!s[i].isVariable()) return;
        int thrown = 0;
        try { CGB r = s[i] + y; } catch (const CGException&) { ++thrown; }
        try { CGB r = y - s[i]; } catch (const CGException&) { ++thrown; }
        try { CGB r = s[i] * y; } catch (const CGException&) { ++thrown; }
        try { CGB r = y / s[i]; } catch (const CGException&) { ++thrown; }
        try { CGB r = CppAD::CondExpLt(y, CGB(B(1)), s[i], y); } catch (const CGException&) { ++thrown; }
        c.check(thrown == 5, "mixing variables of different handlers does not fail {" + log + "}");
        c.label("foreign");
    }

    void run() {
        size_t ns = g.size(2, 8);
        s.resize(ns);
        known.assign(ns, 1);
        for (size_t k = 0; k < NP; ++k) v[k].assign(ns, B(0));
        for (size_t i = 0; i < std::min<size_t>(ns, 2); ++i) actIndependent();
        size_t mean = 10 + g.below(4) * 15;
        for (step = 1; step < 150; ++step) {
            if (g.below(mean) == 0) break;
            int t = (int) g.below(100);
            if (t < 52) actArithmetic();
            else if (t < 66) actMixed();
            else if (t < 76) actCopy();
            else if (t < 84) actConstant();
            else if (t < 90) actIndependent();
            else if (t < 96) actCompare();
            else if (t < 97) actForeign();
            else checkGraph("midway");
        }
        checkGraph("at the end");
        c.nontrivial(variableOps >= 3);
        c.labelIf(folded > 0, "simplified");
        c.labelIf(step > 30, "long");
    }
};

static void caseOps(pbt::Case& c) {
    if (c.g.chance(15)) { c.label("float"); World<float>(c).run(); }
    else World<double>(c).run();
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"operations", caseOps, 200000, 3000000, 30, false,
         "histories of up to 150 operations on 2-8 CG objects (constants, independents with and without values, results; aliased operands, plain number "
         "operands, copies, moves, comparisons) against the same history on plain numbers at 5 points; the recorded graphs are interpreted at the end; "
         "non-trivial: at least 3 operations on variables", false},
    });
}
