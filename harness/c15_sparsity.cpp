/* C15: sparsity-pattern utilities against their dense boolean definitions and the combined sparse evaluation
 * against reference derivatives. */
#include "model.hpp"
using namespace vf;

using Sets = std::vector<std::set<size_t>>;
using CSets = CppAD::vector<std::set<size_t>>;

/** dense boolean matrix */
struct Mat {
    size_t m = 0, n = 0;
    std::vector<char> b;
    Mat(size_t m_, size_t n_) : m(m_), n(n_), b(m_ * n_, 0) {}
    char& operator()(size_t i, size_t j) { return b[i * n + j]; }
    char operator()(size_t i, size_t j) const { return b[i * n + j]; }
    bool operator==(const Mat& o) const { return m == o.m && n == o.n && b == o.b; }
    Mat t() const { Mat r(n, m); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r(j, i) = (*this)(i, j); return r; }
    Mat operator*(const Mat& o) const {
        Mat r(m, o.n);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < o.n; ++j) for (size_t k = 0; k < n; ++k) if ((*this)(i, k) && o(k, j)) r(i, j) = 1;
        return r;
    }
    Mat operator+(const Mat& o) const { Mat r(*this); for (size_t i = 0; i < b.size(); ++i) r.b[i] = b[i] || o.b[i]; return r; }
    size_t nnz() const { size_t k = 0; for (char q : b) k += q != 0; return k; }
    std::string str() const {
        std::string s = std::to_string(m) + "x" + std::to_string(n) + "[";
        for (size_t i = 0; i < m; ++i) { if (i) s += "/"; for (size_t j = 0; j < n; ++j) s += (*this)(i, j) ? '1' : '0'; }
        return s + "]";
    }
};

template<class V> static V sets(const Mat& a, size_t extra = 0) {
    V r(a.m + extra);
    for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) if (a(i, j)) r[i].insert(j);
    for (size_t i = a.m; i < a.m + extra; ++i) r[i].insert(0); // rows which are not part of the matrix
    return r;
}
/** ok=false when there are elements outside the matrix */
template<class V> static Mat dense(const V& s, size_t m, size_t n, bool& ok) {
    Mat r(m, n);
    ok = s.size() == m;
    for (size_t i = 0; i < (size_t) s.size() && i < m; ++i) for (size_t j : s[i]) { if (j < n) r(i, j) = 1; else ok = false; }
    return r;
}

static Mat genMat(pbt::Gen& g, size_t m, size_t n) {
    Mat a(m, n);
    switch (g.weighted({8, 14, 78})) {
        case 0: break;
        case 1: // close to the identity
            for (size_t i = 0; i < m && i < n; ++i) a(i, i) = 1;
            if (g.flip() && m * n > 0) { size_t k = g.below(m * n); a.b[k] = !a.b[k]; }
            break;
        default: {
            int p = g.pick(std::vector<int>{10, 30, 60, 95});
            for (auto& q : a.b) q = g.chance(p);
        }
    }
    return a;
}

template<class A, class B>
static void casePatternsT(pbt::Case& c) {
    pbt::Gen& g = c.g;
    size_t m = g.size(0, 7), n = g.size(0, 7), q = g.size(0, 7);
    if (g.chance(35)) n = m;
    if (g.chance(35)) q = n;
    Mat a = genMat(g, m, n), b = genMat(g, n, q), b2 = genMat(g, m, q), r0 = genMat(g, m, q), a2 = genMat(g, m, n);
    if (g.chance(30)) r0 = Mat(m, q);
    size_t ea = g.chance(75) ? 0 : 1, eb = g.chance(75) ? 0 : 1;
    c.sample("A=" + a.str() + " B=" + b.str() + " B2=" + b2.str() + " R=" + r0.str() + (ea ? " extra row in A" : "") + (eb ? " extra row in B" : ""));
    c.nontrivial(a.nnz() > 0 && (b.nnz() > 0 || b2.nnz() > 0));
    bool ok;
    auto same = [&](const char* what, const Mat& got, const Mat& ref, bool fine) {
        c.checkf(fine && got == ref, [&]() { return std::string(what) + " gives " + got.str() + (fine ? "" : " (with elements out of range)") + ", expected " + ref.str() +
                 " for A=" + a.str() + " B=" + b.str() + " B2=" + b2.str() + " R=" + r0.str(); });
    };
    auto is = [&](const char* what, bool got, bool ref) {
        c.checkf(got == ref, [&]() { return std::string(what) + " gives " + std::to_string(got) + " for A=" + a.str() + " B=" + b.str(); });
    };
    A sa = sets<A>(a, ea);
    // identity
    bool id = m == n;
    for (size_t i = 0; i < m && id; ++i) for (size_t j = 0; j < n; ++j) id = id && (a(i, j) == (i == j));
    if (m == n) is("isIdentityPattern", isIdentityPattern(sa, m), id);
    // transpose
    { A t = transposePattern(sa, m, n); Mat d = dense(t, n, m, ok); same("transposePattern", d, a.t(), ok); }
    // R += A
    { A r = sets<A>(a2); addMatrixSparsity(sets<B>(a), r); Mat d = dense(r, m, n, ok); same("addMatrixSparsity", d, a2 + a, ok); }
    { A r = sets<A>(a2); addMatrixSparsity(sets<B>(a, ea), m, r); Mat d = dense(r, m, n, ok); same("addMatrixSparsity(rows)", d, a2 + a, ok); }
    // R += A^T
    { A r = sets<A>(a2.t()); addTransMatrixSparsity(sets<B>(a), r); Mat d = dense(r, n, m, ok); same("addTransMatrixSparsity", d, (a2 + a).t(), ok); }
    // products
    {
        CSets r = sets<CSets>(r0);
        if (ea || eb || g.flip()) multMatrixMatrixSparsity(sa, sets<B>(b, eb), r, m, n, q);
        else multMatrixMatrixSparsity(sa, sets<B>(b), r, q);
        Mat d = dense(r, m, q, ok); same("multMatrixMatrixSparsity", d, r0 + a * b, ok);
    }
    {
        Mat r1 = genMat(g, n, q);
        CSets r = sets<CSets>(r1);
        multMatrixTransMatrixSparsity(sa, sets<B>(b2, eb), r, m, n, q);
        Mat d = dense(r, n, q, ok); same("multMatrixTransMatrixSparsity", d, r1 + a.t() * b2, ok);
    }
    {   // R^T += (A * B)^T  with A: q x m given as A^T (m x q), B: m x n
        Mat r1 = genMat(g, n, q);
        CSets r = sets<CSets>(r1);
        multMatrixMatrixSparsityTrans(sets<B>(b2, eb), sa, r, m, n, q);
        Mat d = dense(r, n, q, ok); same("multMatrixMatrixSparsityTrans", d, r1 + (b2.t() * a).t(), ok);
    }
    // formats
    {
        std::vector<size_t> row(3, 99), col(1, 98);
        A plain = sets<A>(a);
        generateSparsityIndexes(plain, row, col);
        CppAD::vector<size_t> row2, col2;
        std::vector<bool> flat(m * n);
        for (size_t i = 0; i < m * n; ++i) flat[i] = a.b[i];
        generateSparsityIndexes(flat, m, n, row2, col2);
        c.check(row.size() == a.nnz() && col.size() == a.nnz() && row2.size() == a.nnz() && col2.size() == a.nnz(), "generateSparsityIndexes gives a wrong number of elements for " + a.str());
        size_t e = 0;
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (a(i, j)) {
            c.check(row[e] == i && col[e] == j && row2[e] == i && col2[e] == j, "generateSparsityIndexes gives a wrong element for " + a.str());
            ++e;
        }
        A back = sets<A>(a2);
        generateSparsitySet(row, col, back);
        Mat d = dense(back, m, n, ok); same("generateSparsitySet", d, a2 + a, ok);
        auto rc = toSparsityPattern<std::vector<size_t>>(plain, m, n);
        c.check(rc.nr() == m && rc.nc() == n && rc.nnz() == a.nnz(), "toSparsityPattern gives wrong sizes for " + a.str());
        Mat d2(m, n);
        for (size_t k = 0; k < rc.nnz(); ++k) d2(rc.row()[k], rc.col()[k]) = 1;
        same("toSparsityPattern", d2, a, true);
    }
    // custom positions
    {
        std::vector<size_t> row, col;
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (a2(i, j)) { row.push_back(i); col.push_back(j); }
        for (size_t k = row.size(); k > 1; --k) { size_t z = g.below(k); std::swap(row[k - 1], row[z]); std::swap(col[k - 1], col[z]); }
        if (!row.empty() && g.flip()) { row.push_back(row[0]); col.push_back(col[0]); }
        CustomPosition none, p1(m, n, row, col), p2(m, n, sets<A>(a2));
        Mat both(m, n);
        for (size_t k = 0; k < both.b.size(); ++k) both.b[k] = a.b[k] && a2.b[k];
        c.check(!none.isFilterDefined() && p1.isFilterDefined() && p2.isFilterDefined() && !p1.isFullDefined(), "wrong state of CustomPosition");
        A f = sets<A>(a); none.filter(f); Mat d0 = dense(f, m, n, ok); same("CustomPosition without a filter", d0, a, ok);
        p1.filter(f); Mat d1 = dense(f, m, n, ok); same("CustomPosition::filter (rows and columns)", d1, both, ok);
        A f2 = sets<A>(a); p2.filter(f2); Mat d2 = dense(f2, m, n, ok); same("CustomPosition::filter (sets)", d2, both, ok);
        p2.setFullElements(sets<Sets>(a)); Mat d3 = dense(p2.getFullElements(), m, n, ok); same("CustomPosition::setFullElements", d3, both, ok && p2.isFullDefined());
        none.setFullElements(sets<Sets>(a)); Mat d4 = dense(none.getFullElements(), m, n, ok); same("CustomPosition::setFullElements without a filter", d4, a, ok);
    }
    // sets and maps
    {
        std::set<size_t> s1, s2;
        if (m > 0) { s1 = sets<Sets>(a)[0]; s2 = sets<Sets>(a2)[0]; }
        bool inter = false;
        for (size_t k : s1) inter = inter || s2.count(k);
        is("intersects", intersects(s1, s2), inter);
        std::vector<size_t> v1(s1.begin(), s1.end()), v2(s2.begin(), s2.end());
        int cmp = v1.size() != v2.size() ? (v1.size() < v2.size() ? -1 : 1) : v1 < v2 ? -1 : v2 < v1 ? 1 : 0;
        c.check(CppAD::cg::compare(s1, s2) == cmp && SetComparator<size_t>()(s1, s2) == (cmp == -1), "compare of two sets is wrong");
        std::map<size_t, int> mp;
        for (size_t k : s1) mp[k] = (int) k * 3;
        std::set<size_t> ks = s2, expect = s2;
        mapKeys(mp, ks);
        expect.insert(s1.begin(), s1.end());
        c.check(ks == expect, "mapKeys (set) is wrong");
        std::vector<size_t> kv(2, 7);
        mapKeys(mp, kv);
        c.check(kv == v1, "mapKeys (vector) is wrong");
        is("compareMapKeys", compareMapKeys(mp, s2), s1 == s2);
        auto fl = filterBykeys(mp, s2);
        std::map<size_t, int> fr;
        for (size_t k : s1) if (s2.count(k)) fr[k] = (int) k * 3;
        c.check(fl == fr, "filterBykeys is wrong");
    }
    // forward or reverse mode
    if (m > 0 && n > 0) {
        std::vector<size_t> row, col;
        generateSparsityIndexes(sets<Sets>(a), row, col);
        size_t nr = 0, nc = 0;
        for (size_t i = 0; i < m; ++i) { bool u = false; for (size_t j = 0; j < n; ++j) u = u || a(i, j); nr += u; }
        for (size_t j = 0; j < n; ++j) { bool u = false; for (size_t i = 0; i < m; ++i) u = u || a(i, j); nc += u; }
        is("estimateBestJacobianADMode", estimateBestJacobianADMode(row, col), nc <= nr);
    }
}

static void casePatterns(pbt::Case& c) {
    switch (c.g.below(4)) {
        case 0: casePatternsT<Sets, Sets>(c); break;
        case 1: casePatternsT<CSets, Sets>(c); break;
        case 2: casePatternsT<Sets, CSets>(c); break;
        default: casePatternsT<CSets, CSets>(c);
    }
}

static std::unique_ptr<ADFun<double>> tapeD(const prog::Prog& p, const std::vector<double>& x) {
    std::vector<AD<double>> ax(x.begin(), x.end());
    CppAD::Independent(ax);
    std::vector<AD<double>> ay = prog::eval<AD<double>>(p, ax);
    return std::unique_ptr<ADFun<double>>(new ADFun<double>(ax, ay));
}

/** the sparsity of recorded functions */
static void caseDetermination(pbt::Case& c) {
    pbt::Gen& g = c.g;
    prog::Gened gp = prog::gen(g, modelProgOpts(g));
    size_t n = gp.p.n, m = gp.p.m();
    c.sample(gp.p.str());
    auto fun = tapeD(gp.p, gp.x[0]);
    std::string text = gp.p.str();
    auto show = [&](const char* what, const Mat& a, const Mat& b) { return std::string(what) + ": " + a.str() + " and " + b.str() + " for " + text; };
    auto flat = [&](const std::vector<bool>& v, size_t r, size_t k) { Mat a(r, k); c.check(v.size() == r * k, "wrong size of a pattern"); for (size_t i = 0; i < v.size(); ++i) a.b[i] = v[i]; return a; };
    bool ok;
    auto set = [&](const Sets& v, size_t r, size_t k) { Mat a = dense(v, r, k, ok); c.check(ok, "pattern with a wrong size for " + text); return a; };

    typedef std::vector<bool> VB;
    Mat jf = flat(jacobianForwardSparsity<VB, double>(*fun), m, n), jr = flat(jacobianReverseSparsity<VB, double>(*fun), m, n);
    Mat jfs = set(jacobianForwardSparsitySet<Sets, double>(*fun), m, n), jrs = set(jacobianReverseSparsitySet<Sets, double>(*fun), m, n);
    Mat j = flat(jacobianSparsity<VB, double>(*fun), m, n), js = set(jacobianSparsitySet<Sets, double>(*fun), m, n);
    c.checkf(jf == jfs, [&]() { return show("boolean and set patterns (forward) differ", jf, jfs); });
    c.checkf(jr == jrs, [&]() { return show("boolean and set patterns (reverse) differ", jr, jrs); });
    c.checkf(jf == jr, [&]() { return show("forward and reverse patterns differ", jf, jr); });
    c.checkf(j == (n <= m ? jf : jr) && js == j, [&]() { return show("jacobianSparsity differs from its mode", j, n <= m ? jf : jr); });

    std::vector<Mat> he;
    Mat all(n, n);
    for (size_t i = 0; i < m; ++i) {
        Mat h = flat(hessianSparsity<VB, double>(*fun, i), n, n), hs = set(hessianSparsitySet<Sets, double>(*fun, i), n, n);
        bool tr = g.flip();
        Mat ht = tr ? flat(hessianSparsity<VB, double>(*fun, i, true), n, n) : set(hessianSparsitySet<Sets, double>(*fun, i, true), n, n);
        c.checkf(h == hs, [&]() { return show("boolean and set Hessian patterns differ", h, hs); });
        c.checkf(h == ht.t(), [&]() { return show("the transposed Hessian pattern differs", h, ht); });
        he.push_back(h);
        all = all + h;
    }
    Mat h = flat(hessianSparsity<VB, double>(*fun), n, n), hs = set(hessianSparsitySet<Sets, double>(*fun), n, n);
    c.checkf(h == hs, [&]() { return show("boolean and set Hessian patterns differ", h, hs); });
    c.checkf(h == all, [&]() { return show("the Hessian pattern is not the union of those of the equations", h, all); });
    std::set<size_t> w;
    Mat part(n, n);
    for (size_t i = 0; i < m; ++i) if (g.flip()) { w.insert(i); part = part + he[i]; }
    Mat hw = set(hessianSparsitySet<Sets, double>(*fun, w), n, n);
    c.checkf(hw == part, [&]() { return show("the Hessian pattern of some equations is not the union of theirs", hw, part); });

    // soundness for the values
    size_t nzj = 0, nzh = 0;
    for (size_t k = 0; k < prog::NPTS; ++k) {
        hyper::Ref r = hyper::eval(gp.p, gp.x[k]);
        for (size_t i = 0; i < m; ++i) for (size_t q = 0; q < n; ++q) {
            if (r.y[i].g[q] != 0) { ++nzj; c.checkf(j(i, q), [&]() { return "the Jacobian element " + std::to_string(i) + "," + std::to_string(q) + " is not zero but is not in the pattern " + j.str() + " for " + text; }); }
            for (size_t z = 0; z < n; ++z)
                if (r.y[i].h[q * n + z] != 0) { ++nzh; c.checkf(he[i](q, z), [&]() { return "the Hessian element " + std::to_string(q) + "," + std::to_string(z) + " of equation " + std::to_string(i) + " is not zero but is not in the pattern " + he[i].str() + " for " + text; }); }
        }
    }
    // nothing which does not depend structurally on the variables
    hyper::Ref r = hyper::eval(gp.p, gp.x[0]);
    for (size_t i = 0; i < m; ++i) for (size_t q = 0; q < n; ++q) {
        c.checkf(!j(i, q) || r.y[i].s[q], [&]() { return "element " + std::to_string(i) + "," + std::to_string(q) + " in the Jacobian pattern without any dependency for " + text; });
        for (size_t z = 0; z < n; ++z)
            c.checkf(!he[i](q, z) || (r.y[i].s[q] && r.y[i].s[z]), [&]() { return "element " + std::to_string(q) + "," + std::to_string(z) + " in the Hessian pattern of equation " + std::to_string(i) + " without any dependency for " + text; });
    }
    c.nontrivial(nzh > 0);
    // dependency on some variables
    VB vx(n + g.below(2)), vy(m + g.below(2), g.flip());
    for (size_t q = 0; q < vx.size(); ++q) vx[q] = g.flip();
    zeroOrderDependency(*fun, vx, vy);
    for (size_t i = 0; i < m; ++i) {
        bool d = false;
        for (size_t q = 0; q < n; ++q) d = d || (vx[q] && j(i, q));
        c.checkf(vy[i] == d, [&]() { return "zeroOrderDependency of " + std::to_string(i) + " is wrong for " + text; });
    }
}

/** one request to sparseForJacHessian */
struct Req {
    std::vector<size_t> jr, jc, hr, hc;
    Mat jp, hp;
};

static Req genReq(pbt::Gen& g, const Mat& j, const Mat& h) {
    Req r{{}, {}, {}, {}, j, h};
    size_t m = j.m, n = j.n;
    if (g.chance(35)) for (auto& q : r.jp.b) if (g.chance(20)) q = 1;    // the pattern can have more elements
    if (g.chance(35)) for (size_t a = 0; a < n; ++a) for (size_t b = a; b < n; ++b) if (g.chance(20)) r.hp(a, b) = r.hp(b, a) = 1;
    int pj = g.pick(std::vector<int>{0, 30, 70, 100}), ph = g.pick(std::vector<int>{0, 30, 70, 100});
    size_t half = g.below(4); // only one half of the Hessian
    for (size_t a = 0; a < m; ++a) for (size_t b = 0; b < n; ++b) if (r.jp(a, b) && g.chance(pj)) { r.jr.push_back(a); r.jc.push_back(b); }
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
        if (!r.hp(a, b) || !g.chance(ph) || (half == 0 && b > a) || (half == 1 && b < a)) continue;
        r.hr.push_back(a); r.hc.push_back(b);
    }
    auto shuffle = [&](std::vector<size_t>& a, std::vector<size_t>& b) {
        for (size_t k = a.size(); k > 1; --k) { size_t z = g.below(k); std::swap(a[k - 1], a[z]); std::swap(b[k - 1], b[z]); }
    };
    if (g.chance(60)) shuffle(r.jr, r.jc);
    if (g.chance(60)) shuffle(r.hr, r.hc);
    return r;
}

template<class VectorBase, class VectorSet, class VectorSize>
static void caseForJacHessT(pbt::Case& c, bool boolean) {
    pbt::Gen& g = c.g;
    prog::Opts o = modelProgOpts(g);
    o.nMax = 7;
    o.insMax = 30;
    prog::Gened gp = prog::gen(g, o);
    size_t n = gp.p.n, m = gp.p.m();
    std::string text = gp.p.str();
    c.sample(text);
    auto fun = tapeD(gp.p, gp.x[0]);
    bool ok;
    Mat j = dense(jacobianSparsitySet<Sets, double>(*fun), m, n, ok), h = dense(hessianSparsitySet<Sets, double>(*fun), n, n, ok);
    SparseForjacHessianWork work;
    Req rq = genReq(g, j, h);
    size_t calls = g.size(1, 3);
    auto vs = [](const std::vector<size_t>& v) { VectorSize r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; };
    for (size_t k = 0; k < calls; ++k) {
        size_t pt = g.below(prog::NPTS);
        hyper::Ref ref = hyper::eval(gp.p, gp.x[pt]);
        if (!usable(ref)) { c.label("ill-conditioned"); continue; }
        if (k > 0 && g.chance(40)) { work.clear(); rq = genReq(g, j, h); c.label("work cleared"); }
        else if (k > 0) c.label("work used again");
        bool single = g.chance(35);
        size_t nH = single ? 1 : g.size(0, 3);
        VectorBase x(n), y(g.below(3)), jac(rq.jr.size());
        for (size_t i = 0; i < n; ++i) x[i] = gp.x[pt][i];
        for (size_t i = 0; i < rq.jr.size(); ++i) jac[i] = 1e30;
        std::vector<VectorBase> w(nH), hes(nH);
        for (size_t q = 0; q < nH; ++q) {
            w[q].resize(m); hes[q].resize(rq.hr.size());
            for (size_t i = 0; i < m; ++i) w[q][i] = g.chance(25) ? 0.0 : (double) g.range(-4, 4) * 0.5;
            for (size_t i = 0; i < rq.hr.size(); ++i) hes[q][i] = 1e30;
        }
        VectorSet jp, hp;
        if constexpr (std::is_same<typename VectorSet::value_type, bool>::value) {
            jp.resize(m * n); hp.resize(n * n);
            for (size_t i = 0; i < m * n; ++i) jp[i] = rq.jp.b[i];
            for (size_t i = 0; i < n * n; ++i) hp[i] = rq.hp.b[i];
        } else {
            jp = sets<VectorSet>(rq.jp); hp = sets<VectorSet>(rq.hp);
        }
        (void) boolean;
        if (single) sparseForJacHessian(*fun, x, w[0], y, jp, vs(rq.jr), vs(rq.jc), jac, hp, vs(rq.hr), vs(rq.hc), hes[0], work);
        else sparseForJacHessian(*fun, x, w, y, jp, vs(rq.jr), vs(rq.jc), jac, hp, vs(rq.hr), vs(rq.hc), hes, work);
        std::string where = " at x=" + pbt::strv(gp.x[pt]) + " with the patterns " + rq.jp.str() + " " + rq.hp.str() + ", call " + std::to_string(k) + " for " + text;
        auto cmp = [&](const char* what, size_t a, size_t b, double got, hyper::R e, hyper::R mag) {
            c.checkf(close(got, (double) e, 1e-9 * (1 + (double) mag)), [&]() { return std::string(what) + "(" + std::to_string(a) + "," + std::to_string(b) + ") is " + pbt::str(got) + ", expected " + pbt::str((double) e) + where; });
        };
        c.check((size_t) y.size() == m && (size_t) jac.size() == rq.jr.size(), "wrong sizes" + where);
        for (size_t i = 0; i < m; ++i) cmp("value", i, 0, y[i], ref.y[i].v, ref.y[i].a);
        for (size_t e = 0; e < rq.jr.size(); ++e) cmp("Jacobian", rq.jr[e], rq.jc[e], jac[e], ref.y[rq.jr[e]].g[rq.jc[e]], ref.y[rq.jr[e]].ga[rq.jc[e]]);
        for (size_t q = 0; q < nH; ++q) for (size_t e = 0; e < rq.hr.size(); ++e) {
            hyper::R v = 0, a = 0;
            size_t z = rq.hr[e] * n + rq.hc[e];
            for (size_t i = 0; i < m; ++i) { v += w[q][i] * ref.y[i].h[z]; a += fabsl(w[q][i]) * ref.y[i].ha[z]; }
            cmp("Hessian", rq.hr[e], rq.hc[e], hes[q][e], v, a);
        }
        c.nontrivial(rq.jr.size() + rq.hr.size() > 1);
    }
}

static void caseForJacHess(pbt::Case& c) {
    typedef std::vector<double> V; typedef CppAD::vector<double> CV;
    typedef std::vector<size_t> S; typedef CppAD::vector<size_t> CS;
    switch (c.g.below(4)) {
        case 0: caseForJacHessT<V, Sets, S>(c, false); break;
        case 1: caseForJacHessT<CV, CSets, CS>(c, false); break;
        case 2: caseForJacHessT<V, std::vector<bool>, S>(c, true); break;
        default: caseForJacHessT<CV, CppAD::vector<bool>, CS>(c, true);
    }
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"patterns", casePatterns, 60000, 2000000, 60, false,
         "boolean matrices up to 7x7 (empty, near identity, several densities; std and CppAD vectors; surplus rows): transposes, sums, products, conversions, custom positions and "
         "set/map helpers against dense boolean definitions; non-trivial: both factors have elements", false},
        {"determination", caseDetermination, 15000, 500000, 60, false,
         "recorded functions: Jacobian and Hessian patterns (boolean, sets, per equation, transposed, selected equations) agree with each other, contain every non-zero of the reference "
         "derivatives and nothing without a dependency; non-trivial: some Hessian element is not zero", false},
        {"forjachess", caseForJacHess, 15000, 500000, 60, false,
         "sparseForJacHessian on recorded functions: random patterns (exact or larger), subsets in any order, several weight vectors, repeated calls with the same work; "
         "values against long double reference derivatives; non-trivial: at least two elements requested", false},
    }, {});
}
