/* C07: index patterns, their C expressions and index conditions against the maps they come from.
 * A case is a batch of maps (so that one compilation is shared); every item is checked separately. */
#include "cgen.hpp"
using namespace vf;

using Map1 = std::map<size_t, size_t>;
using Map2 = std::map<size_t, Map1>;

static std::string str(const Map1& m) {
    std::string s = "{";
    for (auto& e : m) s += (s.size() > 1 ? " " : "") + std::to_string(e.first) + ":" + std::to_string(e.second);
    return s + "}";
}
static std::string str(const Map2& m) {
    std::string s = "{";
    for (auto& e : m) s += (s.size() > 1 ? " " : "") + std::to_string(e.first) + ":" + str(e.second);
    return s + "}";
}

/** keys: contiguous, strided or with irregular gaps */
static std::vector<size_t> genKeys(pbt::Gen& g, size_t n, bool contiguous) {
    std::vector<size_t> x;
    size_t kind = contiguous ? 0 : g.weighted({40, 30, 30});
    size_t at = contiguous || g.chance(50) ? 0 : g.size(0, 9);
    size_t step = g.size(1, 4);
    for (size_t i = 0; i < n; ++i) {
        x.push_back(at);
        at += kind == 0 ? 1 : kind == 1 ? step : g.size(1, 3);
    }
    return x;
}

/** values for the keys: pieces which are linear, constant, periodic, staircases or random */
static Map1 genMap(pbt::Gen& g, const std::vector<size_t>& keys, long lo, bool& several) {
    Map1 m;
    size_t i = 0;
    several = false;
    long base = lo + (long) g.size(0, 40);
    if (g.chance(4)) base += 1L << 33;
    while (i < keys.size()) {
        size_t len = g.chance(45) ? keys.size() - i : g.size(1, 6);
        if (len > keys.size() - i) len = keys.size() - i;
        if (len < keys.size()) several = true;
        size_t kind = g.weighted({35, 20, 12, 15, 18});
        long slope = (long) g.size(0, 7) - 3, period = (long) g.size(1, 4), dx = (long) g.size(1, 3);
        bool onIndex = g.flip();
        for (size_t q = 0; q < len; ++q, ++i) {
            long t = onIndex ? (long) keys[i] - (long) keys[i - q] : (long) q;
            long v = base;
            if (kind == 0) v += slope * t;
            else if (kind == 2) v += t % period;
            else if (kind == 3) v += (t / dx) * slope;
            else if (kind == 4) v += (long) g.below(30);
            if (v < 0) v = 0;
            m[keys[i]] = (size_t) v;
        }
        if (g.chance(70)) base = (long) m.rbegin()->second + (long) g.size(0, 3) - (g.flip() ? 1 : 0);
        else base = lo + (long) g.size(0, 60);
        if (base < 0) base = 0;
    }
    return m;
}

static long evaluate(const IndexPattern* ip, long x, long y) {
    switch (ip->getType()) {
        case IndexPatternType::Linear: return static_cast<const LinearIndexPattern*> (ip)->evaluate(x);
        case IndexPatternType::Sectioned: {
            auto& s = static_cast<const SectionedIndexPattern*> (ip)->getLinearSections();
            auto it = s.upper_bound((size_t) x);
            if (it == s.begin()) throw pbt::Fail("no section for index " + std::to_string(x));
            return evaluate((--it)->second, x, y);
        }
        case IndexPatternType::Random1D: return (long) static_cast<const Random1DIndexPattern*> (ip)->getValues().at((size_t) x);
        case IndexPatternType::Random2D: return (long) static_cast<const Random2DIndexPattern*> (ip)->getValues().at((size_t) x).at((size_t) y);
        case IndexPatternType::Plane2D: {
            auto* p = static_cast<const Plane2DIndexPattern*> (ip);
            long r = 0;
            if (p->getPattern1()) r += evaluate(p->getPattern1(), x, x);
            if (p->getPattern2()) r += evaluate(p->getPattern2(), y, y);
            return r;
        }
    }
    throw pbt::Fail("unknown pattern type");
}

static void collectRandom(IndexPattern* ip, std::set<RandomIndexPattern*>& out) {
    std::set<IndexPattern*> all;
    all.insert(ip);
    ip->getSubIndexes(all);
    for (IndexPattern* p : all)
        if (p->getType() == IndexPatternType::Random1D || p->getType() == IndexPatternType::Random2D) out.insert(static_cast<RandomIndexPattern*> (p));
}

struct Item {
    std::string text;
    std::unique_ptr<IndexPattern> ip;
    std::vector<std::pair<long, long>> at;    // indexes
    std::vector<long> want;
    bool two = false;
};

static const char* typeName(IndexPatternType t) {
    switch (t) {
        case IndexPatternType::Linear: return "linear";
        case IndexPatternType::Sectioned: return "sectioned";
        case IndexPatternType::Random1D: return "random1D";
        case IndexPatternType::Random2D: return "random2D";
        case IndexPatternType::Plane2D: return "plane2D";
    }
    return "?";
}

static void casePatterns(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t n = g.size(1, 30);
    std::vector<Item> items;
    std::string all;
    bool interesting = false;
    std::vector<std::pair<std::set<size_t>, std::set<size_t>>> conds;
    std::vector<size_t> condMax;
    std::vector<std::vector<size_t>> condInfo;
    for (size_t k = 0; k < n; ++k) {
        Item it;
        size_t kind = g.weighted({30, 35, 30, 12, 20});
        bool several = false;
        if (kind == 0) {           // vector of values
            Map1 m = genMap(g, genKeys(g, g.size(1, 40), true), 0, several);
            std::vector<size_t> v;
            for (auto& e : m) v.push_back(e.second);
            it.text = "vector " + str(m);
            c.sample(it.text);
            it.ip.reset(IndexPattern::detect(v));
            for (auto& e : m) { it.at.push_back({(long) e.first, 0}); it.want.push_back((long) e.second); }
        } else if (kind == 1) {    // map with gaps
            Map1 m = genMap(g, genKeys(g, g.size(1, 40), false), 0, several);
            it.text = "map " + str(m);
            c.sample(it.text);
            it.ip.reset(IndexPattern::detect(m));
            for (auto& e : m) { it.at.push_back({(long) e.first, 0}); it.want.push_back((long) e.second); }
        } else if (kind == 2) {    // two indexes
            Map2 m;
            std::vector<size_t> xs = genKeys(g, g.size(1, 6), false), ys = genKeys(g, g.size(1, 8), false);
            bool s1, s2;
            Map1 fx = genMap(g, xs, 3, s1), fy = genMap(g, ys, 0, s2);
            bool subset = g.chance(30), noise = g.chance(20), oneY = g.chance(10);
            size_t theY = ys[g.below(ys.size())];
            for (size_t x : xs) {
                for (size_t y : ys) {
                    if (oneY ? y != theY : subset && g.chance(35)) continue;
                    m[x][y] = fx[x] + fy[y] + (noise && g.chance(15) ? 1 : 0);
                }
                if (m[x].empty()) m[x][ys[0]] = fx[x];
            }
            several = xs.size() > 1 && ys.size() > 1;
            it.two = true;
            it.text = "map2 " + str(m);
            c.sample(it.text);
            it.ip.reset(Plane2DIndexPattern::detectPlane2D(m));
            if (!it.ip) it.ip.reset(new Random2DIndexPattern(m));
            for (auto& e : m) for (auto& q : e.second) { it.at.push_back({(long) e.first, (long) q.first}); it.want.push_back((long) q.second); }
        } else if (kind == 3) {    // patterns which are compared or made relative to others
            Map1 m = genMap(g, genKeys(g, g.size(2, 20), false), 0, several), m2;
            long off = (long) g.size(0, 6);
            for (auto& e : m) m2[e.first] = e.second + (size_t) off + (g.chance(4) ? 1 : 0);
            std::unique_ptr<IndexPattern> p1(IndexPattern::detect(m)), p2(IndexPattern::detect(m2));
            it.text = "offset " + std::to_string(off) + " " + str(m) + " " + str(m2);
            c.sample(it.text);
            bool is = LanguageC<double>::isOffsetBy(p2.get(), p1.get(), off);
            if (is)
                for (auto& e : m) c.check(m2[e.first] == e.second + (size_t) off, "isOffsetBy() is true for patterns which do not have that offset: " + it.text);
            else
                c.check(m2 != m || off != 0 || p1->getType() == IndexPatternType::Random1D, "isOffsetBy(0) is false for the same pattern: " + it.text);
            c.labelIf(is, "isOffset");
            size_t start = g.size(0, 5);
            it.two = true;
            if (p1->getType() == IndexPatternType::Linear)
                it.ip.reset(LanguageC<double>::encapsulateIndexPattern(static_cast<LinearIndexPattern&> (*p1), start));
            else if (p1->getType() == IndexPatternType::Sectioned)
                it.ip.reset(LanguageC<double>::encapsulateIndexPattern(static_cast<SectionedIndexPattern&> (*p1), start));
            else continue;
            for (auto& e : m)
                for (size_t i = start; i < start + 3; ++i) { it.at.push_back({(long) e.first, (long) i}); it.want.push_back((long) e.second - (long) start + (long) i); }
        } else {                   // index conditions
            size_t max = g.size(0, 14);
            std::set<size_t> its, used;
            size_t dense = g.below(100);
            for (size_t i = 0; i <= max; ++i) {
                if (g.chance((int) dense)) its.insert(i);
                else if (g.chance(30)) used.insert(i);
            }
            if (its.empty()) continue;
            conds.push_back({its, used});
            condMax.push_back(max);
            condInfo.push_back(loops::createIndexConditionExpression(its, used, max));
            continue;
        }
        interesting |= several;
        c.label(std::string(it.two ? "2 " : "1 ") + typeName(it.ip->getType()));
        for (size_t q = 0; q < it.at.size(); ++q) {
            long v;
            try { v = evaluate(it.ip.get(), it.at[q].first, it.at[q].second); }
            catch (const std::out_of_range&) { throw pbt::Fail("the pattern has no value for " + std::to_string(it.at[q].first) + ": " + it.text); }
            c.check(v == it.want[q], "the pattern evaluates to " + std::to_string(v) + " instead of " + std::to_string(it.want[q]) + " at " +
                    std::to_string(it.at[q].first) + "," + std::to_string(it.at[q].second) + ": " + it.text);
        }
        c.check(!IndexPattern::isConstant(*it.ip) || std::set<long>(it.want.begin(), it.want.end()).size() == 1, "isConstant() is true for " + it.text);
        all += it.text;
        items.push_back(std::move(it));
    }
    // the C expressions
    std::ostringstream os;
    std::set<RandomIndexPattern*> rnd;
    for (auto& it : items) collectRandom(it.ip.get(), rnd);
    std::map<RandomIndexPattern*, std::string> given;
    for (RandomIndexPattern* r : rnd)
        if (g.chance(25)) { r->setName(g.flip() ? "index0" : "index" + std::to_string(g.below(4))); }
    LanguageC<double>::generateNames4RandomIndexPatterns(rnd);
    LanguageC<double>::printRandomIndexPatternDeclaration(os, "", rnd);
    std::set<std::string> names;
    for (RandomIndexPattern* r : rnd) c.check(names.insert(r->getName()).second, "two index arrays are called " + r->getName());
    std::string sx = "j", sy = "it";
    for (size_t k = 0; k < items.size(); ++k) {
        std::vector<const std::string*> ix{&sx};
        if (items[k].two) ix.push_back(&sy);
        os << "unsigned long f" << k << "(unsigned long j, unsigned long it) {\n return " << LanguageC<double>::indexPattern2String(*items[k].ip, ix) << ";\n}\n";
    }
    for (size_t k = 0; k < conds.size(); ++k) {
        os << "int g" << k << "(unsigned long j) {\n if(";
        LanguageC<double>::printIndexCondExpr(os, condInfo[k], "j");
        os << ") { return 1; }\n return 0;\n}\n";
    }
    if (items.empty() && conds.empty()) return;
    Lib lib(compileC(c, {{"idx.c", os.str()}}, "idx"));
    using F = unsigned long (*)(unsigned long, unsigned long);
    for (size_t k = 0; k < items.size(); ++k) {
        F f = (F) lib.sym("f" + std::to_string(k));
        for (size_t q = 0; q < items[k].at.size(); ++q) {
            long v = (long) f((unsigned long) items[k].at[q].first, (unsigned long) items[k].at[q].second);
            if (v != items[k].want[q]) {
                std::vector<const std::string*> ix{&sx};
                if (items[k].two) ix.push_back(&sy);
                throw pbt::Fail("the expression '" + LanguageC<double>::indexPattern2String(*items[k].ip, ix) + "' evaluates to " + std::to_string(v) + " instead of " +
                                std::to_string(items[k].want[q]) + " at j=" + std::to_string(items[k].at[q].first) + " it=" + std::to_string(items[k].at[q].second) + ": " + items[k].text);
            }
            ++c.evals;
        }
    }
    for (size_t k = 0; k < conds.size(); ++k) {
        using C = int (*)(unsigned long);
        C f = (C) lib.sym("g" + std::to_string(k));
        for (size_t i = 0; i <= condMax[k]; ++i) {
            if (conds[k].second.count(i)) continue;   // handled by a previous branch
            std::ostringstream e;
            LanguageC<double>::printIndexCondExpr(e, condInfo[k], "j");
            c.check(f(i) == (int) conds[k].first.count(i), "the condition '" + e.str() + "' is wrong for iteration " + std::to_string(i) + " of " + std::to_string(condMax[k]));
        }
        c.label("condition");
    }
    c.nontrivial(interesting || conds.size() > 0);
    c.key(all + std::to_string(conds.size()));
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"patterns", casePatterns, 8000, 250000, 60, false,
         "batches of up to 30 maps with one (contiguous, strided or irregular indexes) or two indexes: linear, constant, staircase, periodic and random pieces; detected patterns, "
         "their C expressions (compiled), offsets between patterns, relative patterns, names of index arrays and index conditions; non-trivial: at least one map with several pieces or a condition", false},
    });
}
