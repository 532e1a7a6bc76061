/* C14: support containers against abstract models over generated operation sequences. */
#include "cgen.hpp"
using namespace vf;
typedef CG<double> CGD;
typedef OperationNode<double> Node;
typedef Argument<double> Arg;

// ---------------------------------------------------------------------------------------------
// views
// ---------------------------------------------------------------------------------------------

/** the storage with a guard area on both sides */
template<class T> struct Mem {
    std::vector<T> all;
    static const size_t G = 3;
    size_t n;
    explicit Mem(size_t n_) : all(n_ + 2 * G), n(n_) {}
    T* p() { return all.data() + G; }
};

/** reports of bounds violations: an exception from the views (checked builds) */
template<class F> static bool throws(F f) {
    try { f(); return false; }
    catch (const CGException&) { return true; }
    catch (const pbt::Fail&) { throw; }
}

template<class T>
static void viewsT(pbt::Case& c, std::function<T(int)> mk) {
    pbt::Gen& g = c.g;
    size_t n = g.size(0, 9);
    Mem<T> mem(n);
    std::vector<T> model(n + 6);
    int next = 1;
    for (size_t i = 0; i < mem.all.size(); ++i) mem.all[i] = model[i] = mk(next++);
    struct V { ArrayView<T> v; size_t off, len; };
    std::deque<V> store;
    std::vector<std::reference_wrapper<V>> views;
    auto add = [&](ArrayView<T> v, size_t off, size_t len) { store.push_back(V{v, off, len}); views.push_back(store.back()); };
    if (n > 0 || g.flip()) add(ArrayView<T>(mem.p(), n), 3, n);
    else add(ArrayView<T>(), 3, 0);
    std::string log = "n=" + std::to_string(n);
    size_t steps = g.size(1, 25), bad = 0;
    auto huge = [&](size_t lim) { return g.chance(50) ? lim + g.size(0, 3) : g.chance(50) ? std::numeric_limits<size_t>::max() - g.size(0, 12) : lim + 1000; };
    auto same = [&]() {
        for (size_t i = 0; i < model.size(); ++i)
            c.checkf(mem.all[i] == model[i], [&]() { return "element " + std::to_string((long) i - 3) + " of the storage is wrong; case: " + log; });
        for (V& q : views) {
            c.checkf(q.v.size() == q.len && q.v.max_size() == q.len && q.v.empty() == (q.len == 0), [&]() { return "wrong size of a view; case: " + log; });
            const ArrayView<T>& k = q.v;
            for (size_t i = 0; i < q.len; ++i)
                c.checkf(k[i] == model[q.off + i] && q.v.at(i) == model[q.off + i] && k.at(i) == model[q.off + i] && *(k.begin() + i) == model[q.off + i] && k.data()[i] == model[q.off + i],
                         [&]() { return "element " + std::to_string(i) + " of a view is wrong; case: " + log; });
            std::vector<T> f(k.begin(), k.end()), f2(q.v.begin(), q.v.end()), r(k.rbegin(), k.rend()), r2(q.v.rbegin(), q.v.rend()), f3(k.cbegin(), k.cend()), r3(k.crbegin(), k.crend());
            std::vector<T> e(model.begin() + q.off, model.begin() + q.off + q.len), er(e.rbegin(), e.rend());
            c.checkf(f == e && f2 == e && f3 == e && r == er && r2 == er && r3 == er, [&]() { return "the iteration over a view is wrong; case: " + log; });
            ArrayView<const T> cv(q.v);
            c.checkf(cv.size() == q.len && (q.len == 0 || (cv[0] == e[0] && cv.back() == e.back() && cv.front() == e.front())), [&]() { return "the constant view is wrong; case: " + log; });
        }
    };
    for (size_t s = 0; s < steps; ++s) {
        size_t i = g.below(views.size());
        V& vi = views[i];
        V q{vi.v, vi.off, vi.len};
        switch (g.below(14)) {
            case 0: { size_t k = g.size(0, q.len); log += " head(" + std::to_string(k) + ")"; add(q.v.head(k), q.off, k); break; }
            case 1: { size_t k = g.size(0, q.len); log += " tail(" + std::to_string(k) + ")"; add(q.v.tail(k), q.off + q.len - k, k); break; }
            case 2: {
                if (q.len == 0) break;
                size_t a = g.below(q.len), k = g.size(0, q.len - a);
                log += " segment(" + std::to_string(a) + "," + std::to_string(k) + ")";
                add(q.v.segment(a, k), q.off + a, k);
                const ArrayView<T>& kv = q.v;
                ArrayView<const T> cs = kv.segment(a, k), ch = kv.head(k), ct = kv.tail(k);
                c.checkf(cs.size() == k && ch.size() == k && ct.size() == k && (k == 0 || (cs[0] == model[q.off + a] && ch[0] == model[q.off] && ct[k - 1] == model[q.off + q.len - 1])), [&]() { return "wrong constant parts; case: " + log; });
                break;
            }
            case 3: {
                if (q.len == 0) break;
                size_t k = g.below(q.len);
                T x = mk(next++);
                log += " set(" + std::to_string(k) + ")";
                switch (g.below(4)) { case 0: vi.v[k] = x; break; case 1: vi.v.at(k) = x; break; case 2: *(vi.v.begin() + k) = x; break; default: vi.v.data()[k] = x; }
                model[q.off + k] = x;
                break;
            }
            case 4: { T x = mk(next++); log += " fill"; vi.v.fill(x); for (size_t k = 0; k < q.len; ++k) model[q.off + k] = x; break; }
            case 5: case 6: case 7: { // assignment of something with the right or the wrong size
                size_t k = g.chance(70) ? q.len : g.size(0, 10);
                size_t kind = g.below(5);
                std::vector<T> src;
                for (size_t z = 0; z < k; ++z) src.push_back(mk(next++));
                CppAD::vector<T> csrc(k);
                for (size_t z = 0; z < k; ++z) csrc[z] = src[z];
                log += " assign" + std::to_string(kind) + "(" + std::to_string(k) + ")";
                bool t = throws([&]() {
                    switch (kind) {
                        case 0: vi.v = src; break;
                        case 1: vi.v = csrc; break;
                        case 2: { ArrayView<T> w(src); vi.v = w; break; }
                        case 3: { ArrayView<const T> w(src); vi.v = w; break; }
                        default: { const CppAD::vector<T>& cc = csrc; ArrayView<const T> w(cc); vi.v = w; }
                    }
                });
                c.checkf(t == (k != q.len), [&]() { return std::string(t ? "rejected" : "accepted") + " assignment; case: " + log; });
                if (k == q.len) for (size_t z = 0; z < k; ++z) model[q.off + z] = src[z];
                else ++bad;
                break;
            }
            case 8: { V& vj = views[g.below(views.size())]; log += " swap"; vi.v.swap(vj.v); std::swap(vi.off, vj.off); std::swap(vi.len, vj.len); break; }
            case 9: { // bounds violations
                size_t k = huge(q.len);
                const ArrayView<T>& kv = q.v;
                size_t kind = g.below(6);
                log += " outside" + std::to_string(kind) + "(" + std::to_string(k) + ")";
                bool t = throws([&]() {
                    switch (kind) {
                        case 0: (void) q.v.at(k); break;
                        case 1: (void) kv.at(k); break;
                        case 2: (void) &q.v[k]; break;
                        case 3: (void) &kv[k]; break;
                        case 4: (void) q.v.head(k + 1 == 0 ? k : k + 1); break;
                        default: (void) kv.tail(k + 1 == 0 ? k : k + 1);
                    }
                });
                ++bad;
                c.checkf(t, [&]() { return "a bounds violation is not reported; case: " + log; });
                break;
            }
            case 10: {
                size_t a = g.size(0, q.len + 2), k = huge(a < q.len ? q.len - a + 1 : 1);
                log += " outside segment(" + std::to_string(a) + "," + std::to_string(k) + ")";
                const ArrayView<T>& kv = q.v;
                bool con = g.flip();
                bool t = throws([&]() { if (con) (void) kv.segment(a, k); else (void) q.v.segment(a, k); });
                ++bad;
                c.checkf(t, [&]() { return "a bounds violation is not reported; case: " + log; });
                break;
            }
            case 11: {
                if (q.len != 0) {
                    T x = mk(next++);
                    log += " front/back";
                    if (g.flip()) { vi.v.front() = x; model[q.off] = x; } else { vi.v.back() = x; model[q.off + q.len - 1] = x; }
                } else {
                    const ArrayView<T>& kv = q.v;
                    size_t kind = g.below(4);
                    log += " front/back of an empty view";
                    ++bad;
                    c.checkf(throws([&]() { switch (kind) { case 0: (void) q.v.front(); break; case 1: (void) q.v.back(); break; case 2: (void) kv.front(); break; default: (void) kv.back(); } }),
                             [&]() { return "not reported: " + log; });
                }
                break;
            }
            case 12: { ++bad; c.check(throws([&]() { ArrayView<T> z(nullptr, g.size(1, 4)); }), "a null array with elements is accepted"); break; }
            default: { // views of other containers
                std::valarray<T> va(g.size(0, 4));
                std::array<T, 3> ar{};
                std::vector<T> ve(g.size(0, 4));
                CppAD::vector<T> cv(g.size(0, 4));
                ArrayView<T> a(va), b(ar), d(ve), e(cv);
                const auto& cva = va; const auto& car = ar; const auto& cve = ve; const auto& ccv = cv;
                ArrayView<const T> ka(cva), kb(car), kd(cve), ke(ccv);
                T x = mk(next++);
                a.fill(x); b.fill(x); d.fill(x); e.fill(x);
                bool ok = a.size() == va.size() && b.size() == 3 && d.size() == ve.size() && e.size() == cv.size() &&
                          ka.size() == va.size() && kb.size() == 3 && kd.size() == ve.size() && ke.size() == cv.size();
                for (size_t z = 0; z < va.size(); ++z) ok = ok && va[z] == x && &ka[z] == &a[z];
                for (size_t z = 0; z < 3; ++z) ok = ok && ar[z] == x && &kb[z] == &b[z];
                for (size_t z = 0; z < ve.size(); ++z) ok = ok && ve[z] == x && &kd[z] == &d[z];
                for (size_t z = 0; z < cv.size(); ++z) ok = ok && cv[z] == x && &ke[z] == &e[z];
                std::ostringstream os, ref;
                os << d;
                ref << "{ ";
                for (size_t z = 0; z < ve.size(); ++z) ref << (z ? ", " : "") << ve[z];
                ref << " }";
                c.check(ok && os.str() == ref.str(), "a view of a container is wrong");
            }
        }
        same();
        if (views.size() > 6) views.erase(views.begin() + 1 + g.below(views.size() - 1));
    }
    c.labelIf(bad > 0, "violation");
    c.nontrivial(steps > 4 && n > 1);
    c.sample(log);
}

static void caseViews(pbt::Case& c) {
    switch (c.g.below(3)) {
        case 0: viewsT<int>(c, [](int i) { return i; }); break;
        case 1: viewsT<double>(c, [](int i) { return i * 0.5; }); break;
        default: viewsT<std::string>(c, [](int i) { return "text number " + std::to_string(i); });
    }
}

// ---------------------------------------------------------------------------------------------
// side vectors
// ---------------------------------------------------------------------------------------------

static void caseSideVectors(pbt::Case& c) {
    pbt::Gen& g = c.g;
    std::unique_ptr<CodeHandler<double>> h(new CodeHandler<double>(g.size(0, 12)));
    struct SV { std::unique_ptr<CodeHandlerVector<double, int>> v; std::vector<int> model; };
    std::vector<SV> vs;
    std::vector<std::unique_ptr<Node>> foreign;
    std::unique_ptr<CodeHandler<double>> other(new CodeHandler<double>());
    int next = 1;
    std::string log = "nodes=" + std::to_string(h->getManagedNodesCount());
    size_t steps = g.size(3, 40), grown = 0, erased = 0, destroyed = 0;
    auto count = [&]() { return h->getManagedNodesCount(); };
    auto nodeAt = [&](size_t i) -> Node& { return *h->getManagedNodes()[i]; };
    auto verify = [&]() {
        if (!h) return;
        for (size_t i = 0; i < count(); ++i) c.checkf(nodeAt(i).getHandlerPosition() == i, [&]() { return "wrong position of a node; case: " + log; });
        for (SV& s : vs) {
            c.checkf(s.v->size() == s.model.size() && s.v->empty() == s.model.empty(), [&]() { return "a side vector has " + std::to_string(s.v->size()) + " entries instead of " + std::to_string(s.model.size()) + "; case: " + log; });
            const auto& k = *s.v;
            for (size_t i = 0; i < s.model.size() && i < count(); ++i)
                c.checkf(s.v->get(nodeAt(i)) == s.model[i] && k[nodeAt(i)] == s.model[i], [&]() { return "entry " + std::to_string(i) + " of a side vector is " + std::to_string(s.v->get(nodeAt(i))) + " instead of " + std::to_string(s.model[i]) + "; case: " + log; });
            std::vector<int> f(k.begin(), k.end()), r(k.rbegin(), k.rend()), e(s.model.rbegin(), s.model.rend());
            c.checkf(f == s.model && r == e, [&]() { return "wrong iteration over a side vector; case: " + log; });
        }
    };
    auto fit = [&](SV& s) { s.model.resize(std::max(count(), (size_t) 0)); };
    for (size_t st = 0; st < steps && h; ++st) {
        switch (g.below(12)) {
            case 0: case 1: { // new nodes
                size_t k = g.size(1, 9);
                log += " +" + std::to_string(k);
                for (size_t i = 0; i < k; ++i) {
                    if (g.flip() || count() == 0) h->makeNode(CGOpCode::Inv);
                    else h->makeNode(CGOpCode::Sin, Arg(nodeAt(g.below(count()))));
                }
                grown += vs.size() > 0;
                break;
            }
            case 2: { if (vs.size() < 4) { log += " new"; vs.push_back({std::unique_ptr<CodeHandlerVector<double, int>>(new CodeHandlerVector<double, int>(*h)), {}}); } break; }
            case 3: { if (!vs.empty() && vs.size() < 4) { size_t i = g.below(vs.size()); log += " copy" + std::to_string(i); SV s{std::unique_ptr<CodeHandlerVector<double, int>>(new CodeHandlerVector<double, int>(*vs[i].v)), vs[i].model}; vs.push_back(std::move(s)); } break; }
            case 4: { if (!vs.empty()) { size_t i = g.below(vs.size()); log += " adjust" + std::to_string(i); vs[i].v->adjustSize(); fit(vs[i]); } break; }
            case 5: case 6: {
                if (vs.empty() || count() == 0) break;
                SV& s = vs[g.below(vs.size())];
                size_t p = g.below(count());
                log += " set" + std::to_string(&s - vs.data()) + "[" + std::to_string(p) + "]";
                s.v->adjustSize(nodeAt(p));
                if (p >= s.model.size()) fit(s);
                if (g.flip()) s.v->set(nodeAt(p), next); else (*s.v)[nodeAt(p)] = next;
                s.model[p] = next++;
                break;
            }
            case 7: { if (!vs.empty()) { SV& s = vs[g.below(vs.size())]; log += " fill"; s.v->fill(next); std::fill(s.model.begin(), s.model.end(), next); ++next; } break; }
            case 8: { // nodes are deleted
                size_t a = g.size(0, count() + 1), b = g.size(0, count() + 3);
                log += " erase(" + std::to_string(a) + "," + std::to_string(b) + ")";
                size_t n0 = count();
                // only nodes which are not used by others can be deleted: the arguments of the remaining nodes are never followed here
                h->deleteManagedNodes(a, b);
                size_t lo = std::min(a, n0), hi = std::min(b, n0);
                if (a < b) {
                    c.checkf(count() == n0 - (hi - lo), [&]() { return "wrong number of nodes; case: " + log; });
                    for (SV& s : vs) { size_t e = std::min(hi, s.model.size()); if (lo < e) s.model.erase(s.model.begin() + lo, s.model.begin() + e); }
                    erased += vs.size() > 0;
                }
                break;
            }
            case 9: { if (!vs.empty() && g.flip()) { size_t i = g.below(vs.size()); log += " delete" + std::to_string(i); vs.erase(vs.begin() + i); } break; }
            case 10: { // entries of nodes which do not belong to the handler
                if (vs.empty()) break;
                SV& s = vs[g.below(vs.size())];
                Node* f = other->makeNode(CGOpCode::Inv);
                log += " foreign";
                size_t kind = g.below(3);
                bool t = false;
                try { switch (kind) { case 0: s.v->adjustSize(*f); break; case 1: (void) s.v->get(*f); break; default: s.v->set(*f, 3); } }
                catch (const CGException&) { t = true; }
                catch (const std::logic_error&) { t = true; }
                c.checkf(t, [&]() { return "a node of another handler is accepted; case: " + log; });
                break;
            }
            default:
                if (!vs.empty() && g.chance(12)) { SV& s = vs[g.below(vs.size())]; log += " clear"; s.v->clear(); s.model.clear(); }
                else if (g.chance(5)) { log += " destroy"; h.reset(); ++destroyed; } // the vectors may live longer than the handler
        }
        verify();
    }
    c.labelIf(grown > 0, "grown");
    c.labelIf(erased > 0, "erased");
    c.labelIf(destroyed > 0, "handler destroyed first");
    c.nontrivial(grown > 0 && !vs.empty());
    c.sample(log);
}

// ---------------------------------------------------------------------------------------------
// owning containers
// ---------------------------------------------------------------------------------------------

struct Obj {
    static std::map<int, int>& alive() { static std::map<int, int> m; return m; }
    int id;
    explicit Obj(int i) : id(i) { alive()[i]++; }
    Obj(const Obj&) = delete;
    virtual ~Obj() { alive()[id]--; }
};

static void caseOwning(pbt::Case& c) {
    pbt::Gen& g = c.g;
    Obj::alive().clear();
    std::string log;
    int next = 0;
    size_t released = 0, removed = 0;
    std::set<int> mustLive; // objects which are not owned by the containers any more
    std::vector<Obj*> mine;
    {
        size_t kind = g.below(4);
        size_t steps = g.size(1, 20);
        auto expectAlive = [&](const std::vector<int>& owned) {
            for (int i = 0; i < next; ++i) {
                bool should = mustLive.count(i) || std::find(owned.begin(), owned.end(), i) != owned.end();
                c.checkf(Obj::alive()[i] == (should ? 1 : 0), [&]() { return "object " + std::to_string(i) + " has " + std::to_string(Obj::alive()[i]) + " instances; case: " + log; });
            }
        };
        auto take = [&](Obj* o) { mine.push_back(o); mustLive.insert(o->id); };
        if (kind == 0) {
            std::vector<Obj*> init;
            std::vector<int> model;
            for (size_t k = g.size(0, 3); k > 0; --k) { model.push_back(next); init.push_back(new Obj(next++)); }
            std::unique_ptr<SmartVectorPointer<Obj>> v(g.flip() ? new SmartVectorPointer<Obj>(init) : new SmartVectorPointer<Obj>(model.size()));
            if (v->size() > 0 && (*v)[0] == nullptr) for (size_t i = 0; i < init.size(); ++i) (*v)[i] = init[i];
            else c.check(init.empty(), "the vector was not taken");
            for (size_t s = 0; s < steps; ++s) {
                switch (g.below(5)) {
                    case 0: case 1: log += " push"; model.push_back(next); v->push_back(new Obj(next++)); break;
                    case 2: { if (model.empty()) break; size_t i = g.below(model.size()); log += " replace"; take((*v)[i]); (*v)[i] = new Obj(next); model[i] = next++; ++removed; break; }
                    case 3: { if (!g.chance(40)) break; log += " release"; for (Obj* o : v->release()) take(o); model.clear(); ++released; break; }
                    default: v->reserve(g.size(0, 30)); log += " reserve";
                }
                std::vector<int> ids, rids;
                for (Obj* o : *v) ids.push_back(o->id);
                for (auto it = v->rbegin(); it != v->rend(); ++it) rids.push_back((*it)->id);
                std::reverse(rids.begin(), rids.end());
                c.checkf(ids == model && rids == model && v->size() == model.size() && v->empty() == model.empty(), [&]() { return "wrong contents of the vector; case: " + log; });
                expectAlive(model);
            }
            v.reset();
            expectAlive({});
        } else if (kind == 1) {
            std::unique_ptr<SmartSetPointer<Obj>> v(new SmartSetPointer<Obj>());
            std::map<Obj*, int> model;
            std::vector<int> ids;
            for (size_t s = 0; s < steps; ++s) {
                switch (g.below(5)) {
                    case 0: case 1: { log += " insert"; Obj* o = new Obj(next); c.check(v->insert(o).second, "not inserted"); model[o] = next++; break; }
                    case 2: { if (model.empty()) break; auto it = model.begin(); std::advance(it, g.below(model.size())); log += " again"; c.check(!v->insert(it->first).second, "inserted twice"); break; }
                    case 3: {
                        if (model.empty()) break;
                        auto it = model.begin(); std::advance(it, g.below(model.size()));
                        log += " erase";
                        if (g.flip()) c.check(v->erase(it->first) == 1, "not erased");
                        else { auto p = v->begin(); while (*p != it->first) ++p; v->erase(p); }
                        take(it->first); model.erase(it); ++removed;
                        break;
                    }
                    default: if (g.chance(40)) { log += " release"; for (Obj* o : v->release()) take(o); model.clear(); ++released; }
                }
                ids.clear();
                for (auto& e : model) ids.push_back(e.second);
                std::set<Obj*> got(v->begin(), v->end()), ref;
                for (auto& e : model) ref.insert(e.first);
                c.checkf(got == ref && v->size() == ref.size() && v->empty() == ref.empty(), [&]() { return "wrong contents of the set; case: " + log; });
                expectAlive(ids);
            }
            v.reset();
            expectAlive({});
        } else if (kind == 2) {
            std::unique_ptr<SmartListPointer<Obj>> v(new SmartListPointer<Obj>());
            std::list<int> model;
            for (size_t s = 0; s < steps; ++s) {
                switch (g.below(6)) {
                    case 0: case 1: log += " push_back"; model.push_back(next); v->push_back(new Obj(next++)); break;
                    case 2: log += " push_front"; model.push_front(next); v->push_front(new Obj(next++)); break;
                    case 3: if (!model.empty()) { log += " pop_back"; Obj* o = *std::prev(v->end()); v->pop_back(); model.pop_back(); take(o); ++removed; } break;
                    case 4: if (!model.empty()) { log += " pop_front"; Obj* o = *v->begin(); v->pop_front(); model.pop_front(); take(o); ++removed; } break;
                    default: if (g.chance(40)) { log += " release"; for (Obj* o : v->release()) take(o); model.clear(); ++released; }
                }
                std::list<int> ids;
                const SmartListPointer<Obj>& k = *v;
                for (auto it = k.begin(); it != k.end(); ++it) ids.push_back((*it)->id);
                c.checkf(ids == model && v->size() == model.size() && v->empty() == model.empty(), [&]() { return "wrong contents of the list; case: " + log; });
                expectAlive(std::vector<int>(model.begin(), model.end()));
            }
            v.reset();
            expectAlive({});
        } else {
            std::unique_ptr<SmartMapValuePointer<int, Obj>> v(new SmartMapValuePointer<int, Obj>());
            std::map<int, int> model;
            for (size_t s = 0; s < steps; ++s) {
                int key = (int) g.below(6);
                switch (g.below(4)) {
                    case 0: case 1: {
                        Obj*& slot = (*v)[key];
                        c.checkf((slot != nullptr) == (model.count(key) > 0), [&]() { return "wrong entry in the map; case: " + log; });
                        log += slot ? " replace" : " insert";
                        if (slot) { take(slot); ++removed; }
                        slot = new Obj(next); model[key] = next++;
                        break;
                    }
                    case 2: break;
                    default: if (g.chance(30)) { log += " release"; for (auto& e : v->release()) take(e.second); model.clear(); ++released; }
                }
                std::map<int, int> got;
                std::vector<int> ids;
                for (auto& e : *v) got[e.first] = e.second->id;
                for (auto& e : model) ids.push_back(e.second);
                c.checkf(got == model && v->size() == model.size() && v->empty() == model.empty(), [&]() { return "wrong contents of the map; case: " + log; });
                expectAlive(ids);
            }
            v.reset();
            expectAlive({});
        }
        c.labelIf(released > 0, "release");
        c.labelIf(removed > 0, "removed");
        c.nontrivial(next > 2);
        c.sample("kind " + std::to_string(kind) + log);
    }
    for (Obj* o : mine) delete o;
    for (auto& e : Obj::alive()) c.check(e.second == 0, "an object was destroyed twice or never");
}

// ---------------------------------------------------------------------------------------------
// the allocator of the temporary arrays
// ---------------------------------------------------------------------------------------------

static void caseAllocator(pbt::Case& c) {
    pbt::Gen& g = c.g;
    CodeHandler<double> h;
    CodeHandlerVector<double, size_t> varId(h);
    struct A { Node* node; size_t start, size; bool live; };
    std::vector<A> arrays;
    std::string log;
    size_t total = 0, reused = 0, high = 0;
    // all the arrays are defined first (as in a real graph)
    size_t count = g.size(2, 30);
    size_t maxSize = g.pick(std::vector<size_t>{2, 4, 8});
    std::vector<size_t> sizes;
    for (size_t i = 0; i < count; ++i) { sizes.push_back(g.chance(8) ? 0 : g.size(1, maxSize)); total += sizes.back(); }
    ArrayIdCompresser<double> comp(varId, 1 + total);
    std::vector<Node*> vars;
    for (size_t i = 0; i < 3; ++i) vars.push_back(h.makeNode(CGOpCode::Inv));
    for (size_t i = 0; i < count; ++i) {
        // some arrays end their life before the new one is created (possibly used by it for the last time)
        std::vector<size_t> lives;
        for (size_t k = 0; k < arrays.size(); ++k) if (arrays[k].live) lives.push_back(k);
        size_t ends = lives.empty() ? 0 : g.size(0, std::min<size_t>(3, lives.size()));
        std::vector<Arg> args;
        std::set<size_t> used;
        for (size_t k = 0; k < sizes[i]; ++k) {
            size_t kind = g.below(5);
            size_t src = lives.empty() ? 0 : g.pick(lives);
            if (kind < 2 || lives.empty() || arrays[src].size == 0) {
                if (g.flip()) args.push_back(Arg((double) g.below(3)));
                else args.push_back(Arg(*g.pick(vars)));
            } else {
                size_t e = g.below(arrays[src].size);
                Node* el = h.makeNode(CGOpCode::ArrayElement, {e}, {Arg(*arrays[src].node), Arg(*vars[0])});
                used.insert(arrays[src].start + e);
                if (kind == 3) el = h.makeNode(CGOpCode::Sin, Arg(*el));
                if (kind == 4) el = h.makeNode(CGOpCode::Mul, {}, {Arg(*h.makeNode(CGOpCode::UnMinus, Arg(*el))), Arg(2.5)});
                args.push_back(Arg(*el));
            }
        }
        Node* node = h.makeNode(CGOpCode::ArrayCreation, {}, args);
        varId.adjustSize();
        for (size_t q = 0; q < vars.size(); ++q) varId[*vars[q]] = q + 1;
        for (size_t k = 0; k < ends; ++k) {
            size_t z = g.below(lives.size());
            A& a = arrays[lives[z]];
            log += " -" + std::to_string(a.start) + ":" + std::to_string(a.size);
            comp.addFreeArraySpace(*a.node);
            a.live = false;
            lives.erase(lives.begin() + z);
        }
        size_t before = comp.getIdCount();
        size_t start = comp.reserveArraySpace(*node);
        log += " +" + std::to_string(start) + ":" + std::to_string(sizes[i]);
        varId[*node] = start + 1;
        if (sizes[i] > 0) {
            for (const A& a : arrays)
                c.checkf(!a.live || a.size == 0 || start + sizes[i] <= a.start || a.start + a.size <= start, [&]() { return "the new array overlaps a live one at " + std::to_string(a.start) + "; case: " + log; });
            for (size_t p : used)
                c.checkf(p < start || p >= start + sizes[i], [&]() { return "the new array overwrites position " + std::to_string(p) + " used to fill it,; case: " + log; });
            c.checkf(start + sizes[i] + 1 <= comp.getIdCount() && comp.getIdCount() <= total + 1, [&]() { return "the array does not fit in the space of " + std::to_string(comp.getIdCount()) + "; case: " + log; });
            if (comp.getIdCount() == before) ++reused;
        }
        c.checkf(comp.getIdCount() >= before, [&]() { return "the space becomes smaller; case: " + log; });
        arrays.push_back({node, start, sizes[i], true});
        size_t now = 0;
        for (const A& a : arrays) if (a.live) now += a.size;
        high = std::max(high, now);
        c.check(comp.getIdCount() >= now + 1, "less space than the live arrays need");
    }
    c.labelIf(reused > 0, "reused space");
    c.nontrivial(reused > 0);
    c.sample(log);
}

// ---------------------------------------------------------------------------------------------
// iteration ranges
// ---------------------------------------------------------------------------------------------

static const size_t MAXI = std::numeric_limits<size_t>::max();
static const size_t U = 40; // the universe: 0..U-1 and everything above

static std::vector<char> toBits(const std::vector<size_t>& r, bool& ok) {
    std::vector<char> b(U + 1, 0);
    ok = r.size() % 2 == 0;
    for (size_t i = 0; i + 1 < r.size(); i += 2) {
        ok = ok && r[i] <= r[i + 1] && (r[i + 1] < U || r[i + 1] == MAXI) && (i == 0 || (r[i - 1] != MAXI && r[i] > r[i - 1]));
        for (size_t k = r[i]; k <= U && k <= r[i + 1]; ++k) b[k] = 1;
    }
    return b;
}
static std::vector<size_t> genRanges(pbt::Gen& g, bool canonical) {
    std::vector<size_t> r;
    size_t at = g.size(0, 6);
    for (size_t k = g.size(0, 5); k > 0 && at < U - 8; --k) {
        size_t len = g.size(0, 5);
        r.push_back(at); r.push_back(at + len);
        at += len + (canonical ? 2 : 1) + g.size(0, 4);
    }
    if (!r.empty() && g.chance(10)) r.back() = MAXI;
    return r;
}

static void caseRanges(pbt::Case& c) {
    pbt::Gen& g = c.g;
    std::vector<size_t> a = genRanges(g, true), b = genRanges(g, g.flip());
    auto str = [](const std::vector<size_t>& r) { std::string s = "["; for (size_t i = 0; i + 1 < r.size(); i += 2) s += " " + std::to_string(r[i]) + "-" + (r[i + 1] == MAXI ? "max" : std::to_string(r[i + 1])); return s + " ]"; };
    c.sample(str(a) + " " + str(b));
    bool ok;
    std::vector<char> ba = toBits(a, ok), bb = toBits(b, ok);
    std::vector<size_t> u = a;
    combineOverlapingIterationRanges(u, b);
    std::vector<char> bu = toBits(u, ok);
    bool eq = true;
    for (size_t k = 0; k <= U; ++k) eq = eq && bu[k] == (ba[k] || bb[k]);
    c.checkf(ok && eq, [&]() { return "the union of " + str(a) + " and " + str(b) + " is " + str(u); });
    std::vector<size_t> v = invertIterationRanges(a);
    std::vector<char> bv = toBits(v, ok);
    eq = true;
    for (size_t k = 0; k <= U; ++k) eq = eq && bv[k] != ba[k];
    c.checkf(ok && eq, [&]() { return "the complement of " + str(a) + " is " + str(v); });
    if (!a.empty() && !b.empty()) {
        v = invertIterationRanges(u);
        bv = toBits(v, ok);
        eq = true;
        for (size_t k = 0; k <= U; ++k) eq = eq && bv[k] != bu[k];
        c.checkf(ok && eq, [&]() { return "the complement of the union of " + str(a) + " and " + str(b) + " is " + str(v); });
    }
    c.nontrivial(!a.empty() && !b.empty());
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"views", caseViews, 40000, 1500000, 60, false,
         "up to 25 operations on up to 7 views of a guarded buffer (parts, assignments of all kinds with right and wrong sizes, swaps, fills, violations incl. huge sizes) against a plain "
         "vector with offsets; all elements checked in all ways after each step; non-trivial: at least 2 elements and 5 steps", false},
        {"side-vectors", caseSideVectors, 40000, 1500000, 60, false,
         "up to 40 operations on a handler and up to 4 side vectors (nodes added and deleted, resize, copies, entries set, foreign nodes, handler destroyed first) against plain vectors; "
         "non-trivial: nodes were added while a side vector existed", false},
        {"owning", caseOwning, 40000, 1500000, 60, false,
         "sequences on the owning vector, set, list and map with counted instances: contents, exactly one destruction, nothing destroyed when released or removed; non-trivial: at least 3 objects", false},
        {"allocator", caseAllocator, 40000, 1500000, 60, false,
         "histories of arrays being created (elements taken directly or through expressions from other arrays) and released: live arrays never overlap, elements needed to fill an array are "
         "not overwritten, sizes are sufficient; non-trivial: space was used again", false},
        {"ranges", caseRanges, 40000, 1500000, 60, false,
         "iteration ranges: unions and complements against bit sets (with open ends); non-trivial: two non-empty operands", false},
    }, {});
}
