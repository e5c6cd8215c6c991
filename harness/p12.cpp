// P12: reflected std containers and strings behave like the containers themselves.
#include "zoo.h"
#include "types/pointer.h"
#include "types/primitives.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/string.h"

using namespace reflect;
using namespace zoo;

namespace {

// Generation, comparison and printing of every element type.
template<typename T> struct El;
template<> struct El<int> { static int gen(vt::Gen& g) { return int(g.small()); } static std::string show(int v) { return std::to_string(v); } static bool moved(const int&) { return true; } };
template<> struct El<double> { static double gen(vt::Gen& g) { return double(g.small()) / 4; } static std::string show(double v) { return std::to_string(v); } static bool moved(const double&) { return true; } };
template<> struct El<std::string> { static std::string gen(vt::Gen& g) { return g.chance(1, 5) ? std::string(20 + g.draw(20), char('a' + g.draw(25))) : g.word(1); } static std::string show(const std::string& v) { return v; } static bool moved(const std::string& s) { return s.size() < 16 || s.empty(); } };
template<> struct El<Obj> { static Obj gen(vt::Gen& g) { return Obj(int(g.small())); } static std::string show(const Obj& v) { return "o" + std::to_string(v.get()); } static bool moved(const Obj& o) { return o.get() == Moved; } };
template<typename T> struct El<std::vector<T>>
{
    static std::vector<T> gen(vt::Gen& g) { std::vector<T> v; while (g.more(2)) v.push_back(El<T>::gen(g)); return v; }
    static std::string show(const std::vector<T>& v) { std::string s = "["; for (auto& x : v) s += El<T>::show(x) + ","; return s + "]"; }
    static bool moved(const std::vector<T>& v) { return v.empty(); }
};
template<> struct El<std::vector<bool>> {};
template<typename M> struct ElMap
{
    typedef typename M::key_type K; typedef typename M::mapped_type V;
    static M gen(vt::Gen& g) { M m; while (g.more(2)) { K k = El<K>::gen(g); m[k] = El<V>::gen(g); } return m; }
    static std::string show(const M& m) { std::map<std::string, std::string> s; for (auto& x : m) s[El<K>::show(x.first)] = El<V>::show(x.second); std::string r = "{"; for (auto& x : s) r += x.first + ":" + x.second + ","; return r + "}"; }
    static bool moved(const M& m) { return m.empty(); }
};
template<typename K, typename V> struct El<std::map<K, V>> : ElMap<std::map<K, V>> {};
template<typename K, typename V> struct El<std::unordered_map<K, V>> : ElMap<std::unordered_map<K, V>> {};

// Where the content lives on the heap, if it does: what is moved keeps it, what is copied gets another.
template<typename T> const void* heap(const T&) { return nullptr; }
inline const void* heap(const std::string& s) { return s.size() > 15 ? s.data() : nullptr; }
template<typename T> const void* heap(const std::vector<T>& v) { return v.empty() ? nullptr : (const void*)v.data(); }
template<typename K, typename V> const void* heap(const std::map<K, V>& m) { return m.empty() ? nullptr : (const void*)&*m.begin(); }
template<typename K, typename V> const void* heap(const std::unordered_map<K, V>& m) { return m.empty() ? nullptr : (const void*)&*m.begin(); }
#define TRAVELS(was, now, what) if (was) VT_EQ(heap(now), was, what << ": the content was copied")

#define SAME(a, b, what) VT_EQ(El<T>::show(a), El<T>::show(b), what)

// What any of them can do as a whole: construct, copy, assign, move. Returns false when op is not one of these.
template<typename T> bool whole(vt::Gen& g, int op, Value& v, T* obj, T& model)
{
    switch (op) {
    case 0: { Value d = type<T>()->construct(); SAME(d.get<T>(), T(), "default construction"); VT_CHECK(d.isStored() && !d.isConst(), "owned"); return true; }
    case 1: { Value k = v.copy(); SAME(k.get<T>(), model, "copy"); VT_CHECK(k.value() != v.value(), "independent"); SAME(*obj, model, "source of the copy"); return true; }
    case 2: { T x = El<T>::gen(g); VT_LOG("=" << El<T>::show(x) << " "); T keep = x; v.assign(x); model = keep; SAME(x, keep, "right side of a copy assignment"); return true; }
    case 3: { T x = El<T>::gen(g); VT_LOG("=&&" << El<T>::show(x) << " "); model = x; const void* was = heap(x); v.assign(std::move(x)); VT_CHECK(El<T>::moved(x), "moved from"); TRAVELS(was, *obj, "assigned by move"); return true; }
    case 4: { T k = v.call<T>(type<T>()->id()); SAME(k, model, "copy constructor"); return true; }
    case 5: { T x = El<T>::gen(g); VT_LOG("=V" << El<T>::show(x) << " "); model = x; Value w(x);
        if (g.coin()) { v.assign(w); SAME(x, model, "right side, a Value"); }
        else { const void* was = heap(x); v.assign(w.rvalue()); VT_CHECK(El<T>::moved(x), "right side, moved from"); TRAVELS(was, *obj, "assigned from an rvalue"); }
        return true; }
    case 6: {          // move out of an owned copy: the content travels, the Value is void
        Value k = v.copy(); const void* was = heap(k.get<T>()); Value m = k.move(); TRAVELS(was, m.get<T>(), "moved Value");
        VT_CHECK(k.isVoid(), "moved Value"); SAME(m.get<T>(), model, "moved"); SAME(*obj, model, "not the original"); return true; }
    default: return false;
    }
}

} // namespace

namespace {

template<typename T> struct Holder
{
    T direct; Value v; T* obj; bool isConst;
    Holder(vt::Gen& g) : direct(El<T>::gen(g)), isConst(false)
    {
        switch (g.draw(3)) {
        case 0: v = Value(direct); break;
        case 1: v = Value((const T&)direct); isConst = true; break;
        case 2: v = Value(std::move(direct)); break;                   // owned by the Value
        default: v = Value(direct); v = v.toConst(); isConst = true; break;
        }
        obj = static_cast<T*>(v.value());
        VT_LOG(type<T>()->id() << " " << (isConst ? "const " : v.isStored() ? "owned " : "") << El<T>::show(*obj) << ": ");
    }
};

template<typename T> void refuses(Holder<T>& h, const T& model, const std::function<void()>& f, const char* what)
{ VT_CHECK(raises(f), what); SAME(*h.obj, model, what); }

/* ------------------------------------------------------------------ vector */

template<typename E> void vectorCase(vt::Case& c)
{
    typedef std::vector<E> T;
    vt::Gen& g = c.g;
    Holder<T> h(g);
    Value& v = h.v; T model = *h.obj; T* obj = h.obj;
    VT_CHECK(v.is("list") && v.type()->getValue<const Type*>("valueType") == type<E>() && !v.is("map") && !v.is("string") && !v.type()->is("keyType"), "traits");
    unsigned ops = 0, muts = 0;
    std::vector<std::pair<Value, size_t>> refs;      // element references that are still good
    do {
        ++ops;
        size_t i = model.empty() ? 0 : g.below(model.size());
        int op = int(g.draw(18));
        bool mutates = false;
        if (h.isConst) {
            switch (op) {
            case 0: refuses<T>(h, model, [&] { v.call<void>("clear"); }, "clear of a const"); continue;
            case 1: refuses<T>(h, model, [&] { v.call<void>("resize", size_t(3)); }, "resize of a const"); continue;
            case 2: refuses<T>(h, model, [&] { v.call<void>("push_back", El<E>::gen(g)); }, "push_back on a const"); continue;
            case 3: { E e = El<E>::gen(g); refuses<T>(h, model, [&] { v.call<void>("push_back", e); }, "push_back on a const"); continue; }
            case 4: refuses<T>(h, model, [&] { v.assign(El<T>::gen(g)); }, "assignment to a const"); continue;
            case 5: if (!model.empty()) refuses<T>(h, model, [&] { v.call<E&>("operator[]", i) = El<E>::gen(g); }, "operator[] of a const"); continue;
            case 6: if (!model.empty()) refuses<T>(h, model, [&] { v[i].assign(El<E>::gen(g)); }, "operator[] of a const"); continue;
            default: op = 7 + op % 5;
            }
        }
        switch (op) {
        case 0: VT_LOG("clear "); v.call<void>("clear"); model.clear(); mutates = true; break;
        case 1: { size_t n = g.draw(6); VT_LOG("resize " << n << " "); v.call<void>("resize", n); model.resize(n); mutates = true; break; }
        case 2: { E e = El<E>::gen(g); VT_LOG("push_back " << El<E>::show(e) << " "); E keep = e; v.call<void>("push_back", e); model.push_back(keep); VT_EQ(El<E>::show(e), El<E>::show(keep), "pushed by copy"); mutates = true; break; }
        case 3: { E e = El<E>::gen(g); VT_LOG("push_back&& " << El<E>::show(e) << " "); model.push_back(e); const void* was = heap(e); v.call<void>("push_back", std::move(e)); VT_CHECK(El<E>::moved(e), "pushed by move"); TRAVELS(was, obj->back(), "pushed by move"); mutates = true; break; }
        case 4: {
            E e = El<E>::gen(g); E keep = e; Value w(e); VT_LOG("push_back V" << El<E>::show(e) << " ");
            if (g.coin()) { v.call<void>("push_back", w); VT_EQ(El<E>::show(e), El<E>::show(keep), "pushed by copy from a Value"); }
            else if (g.coin()) { Value k = w.copy(); const void* was = heap(k.get<E>()); v.call<void>("push_back", k.rvalue()); VT_CHECK(El<E>::moved(k.get<E>()), "pushed by move from a Value"); TRAVELS(was, obj->back(), "pushed by move from a Value"); }
            else { const void* was = heap(e); v.call<void>("push_back", w.rvalue()); VT_CHECK(El<E>::moved(e), "pushed by move from a Value"); TRAVELS(was, obj->back(), "pushed by move from a Value"); }
            model.push_back(keep); mutates = true; break; }
        case 5: if (model.empty()) break; { E e = El<E>::gen(g); VT_LOG("[" << i << "]=" << El<E>::show(e) << " "); v.call<E&>("operator[]", i) = e; model[i] = e; break; }
        case 6: if (model.empty()) break; { E e = El<E>::gen(g); VT_LOG("[" << i << "].assign " << El<E>::show(e) << " "); Value r = v[i]; r.assign(e); model[i] = e; VT_EQ(r.value(), (void*)&(*obj)[i], "element"); refs.push_back({ r, i }); break; }
        case 7: VT_EQ(v.call<size_t>("size"), model.size(), "size"); break;
        case 8: {
            size_t at = g.chance(1, 3) ? model.size() + g.draw(3) : g.chance(1, 10) ? size_t(-1) : i;
            VT_LOG("at " << at << " ");
            if (at >= model.size()) { refuses<T>(h, model, [&] { v.call<const E&>("at", at); }, "at out of range"); refuses<T>(h, model, [&] { v.call<Value>("at", at); }, "at out of range"); break; }
            VT_CHECK(&v.call<const E&>("at", at) == &(*obj)[at], "at is the element");
            Value r = v.call<Value>("at", at); VT_CHECK(r.isConst() && r.value() == &(*obj)[at] && r.type() == type<E>(), "at, as a Value");
            refuses<T>(h, model, [&] { r.assign(El<E>::gen(g)); }, "at is const");
            refuses<T>(h, model, [&] { v.call<E&>("at", at); }, "at is const");
            break; }
        case 9: {          // walk over all elements through reflection
            T got; size_t n = v.call<size_t>("size");
            for (size_t k = 0; k < n; ++k) got.push_back(h.isConst ? v.call<Value>("at", k).template get<E>() : v[k].template get<E>());
            SAME(got, model, "walk"); break; }
        case 10: refuses<T>(h, model, [&] { v.call<void>("push_back", Other(1)); }, "push_back of something else"); refuses<T>(h, model, [&] { v.call<void>("resize", std::string("x")); }, "resize by something else"); refuses<T>(h, model, [&] { v.call<void>("erase", i); }, "not reflected"); break;
        case 11: if (!model.empty()) { E k = v.call<E>("at", i); VT_EQ(El<E>::show(k), El<E>::show(model[i]), "copy of an element"); k = El<E>::gen(g); } break;
        default:
            if (h.isConst && op - 12 != 0 && op - 12 != 1) break;
            whole<T>(g, op - 12, v, obj, model); mutates = op >= 14; break;
        }
        if (mutates) { refs.clear(); ++muts; }
        SAME(*obj, model, "after the operation");
        for (auto& r : refs) { VT_EQ(r.first.value(), (void*)&(*obj)[r.second], "reference to an element"); VT_EQ(El<E>::show(r.first.template get<E>()), El<E>::show(model[r.second]), "content through a reference"); }
    } while (g.more(16));
    c.nontrivial(ops >= 3 && (muts || h.isConst));
    c.label(std::string(type<T>()->id()) + (h.isConst ? " const" : ""));
}

/* ------------------------------------------------------------------ maps */

template<typename T> bool inOrder(const T&) { return false; }
template<typename K, typename V> bool inOrder(const std::map<K, V>&) { return true; }

template<typename T> void mapCase(vt::Case& c)
{
    typedef typename T::key_type K; typedef typename T::mapped_type V;
    vt::Gen& g = c.g;
    Holder<T> h(g);
    Value& v = h.v; T model = *h.obj; T* obj = h.obj;
    VT_CHECK(v.is("map") && v.type()->getValue<const Type*>("keyType") == type<K>() && v.type()->getValue<const Type*>("valueType") == type<V>() && !v.is("list") && !v.is("string"), "traits");
    unsigned ops = 0, muts = 0;
    std::vector<std::pair<Value, K>> refs;
    do {
        ++ops;
        K k = El<K>::gen(g);
        if (!model.empty() && g.chance(2, 3)) { auto it = model.begin(); std::advance(it, g.below(model.size())); k = it->first; }
        const std::string ks = El<K>::show(k);
        int op = int(g.draw(14));
        if (h.isConst && (op <= 2 || op >= 10)) {
            if (op == 0) refuses<T>(h, model, [&] { v.call<V&>("operator[]", k) = El<V>::gen(g); }, "operator[] of a const");
            else if (op == 1) refuses<T>(h, model, [&] { v[k]; }, "operator[] of a const");
            else if (op == 2) refuses<T>(h, model, [&] { v.assign(El<T>::gen(g)); }, "assignment to a const");
            else whole<T>(g, op % 2, v, obj, model);
            continue;
        }
        switch (op) {
        case 0: { V e = El<V>::gen(g); VT_LOG("[" << ks << "]=" << El<V>::show(e) << " "); V& r = v.call<V&>("operator[]", k); VT_CHECK(&r == &obj->at(k), "element"); r = e; model[k] = e; ++muts; break; }
        case 1: { V e = El<V>::gen(g); VT_LOG("[" << ks << "].assign " << El<V>::show(e) << " "); Value r = v[k]; r.assign(e); model[k] = e; VT_EQ(r.value(), (void*)&obj->at(k), "element"); refs.push_back({ r, k }); ++muts; break; }
        case 2: { VT_LOG("[" << ks << "] "); Value kv(k); Value r = v[kv]; model[k]; VT_EQ(El<V>::show(r.get<V>()), El<V>::show(model[k]), "element by a Value key"); ++muts; break; }
        case 3: VT_EQ(v.call<size_t>("size"), model.size(), "size"); break;
        case 4: VT_LOG("count " << ks << " "); VT_EQ(v.call<size_t>("count", k), model.count(k), "count"); break;
        case 5: case 6:
            VT_LOG("at " << ks << " ");
            if (!model.count(k)) { refuses<T>(h, model, [&] { v.call<const V&>("at", k); }, "at of an absent key"); refuses<T>(h, model, [&] { v.call<Value>("at", k); }, "at of an absent key"); break; }
            VT_CHECK(&v.call<const V&>("at", k) == &obj->find(k)->second, "at is the element");
            { Value r = v.call<Value>("at", k); VT_CHECK(r.isConst() && r.type() == type<V>(), "at, as a Value");
              refuses<T>(h, model, [&] { r.assign(El<V>::gen(g)); }, "at is const"); refuses<T>(h, model, [&] { v.call<V&>("at", k); }, "at is const"); }
            break;
        case 7: {
            auto keys = v.call<std::vector<K>>("keys");
            std::vector<std::string> got, want;
            for (auto& x : keys) got.push_back(El<K>::show(x));
            for (auto& x : model) want.push_back(El<K>::show(x.first));
            if (!inOrder(model)) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
            VT_CHECK(got == want, "keys");
            Value kv = v.call<Value>("keys"); VT_CHECK(kv.isStored() && kv.type() == type<std::vector<K>>(), "keys, as a Value");
            T all; for (auto& x : keys) all[x] = v.call<V>("at", x);
            SAME(all, model, "walk"); break; }
        case 8: refuses<T>(h, model, [&] { v.call<size_t>("count", Other(1)); }, "count of something else"); refuses<T>(h, model, [&] { v.call<void>("at", Other(1)); }, "at of something else"); refuses<T>(h, model, [&] { v.call<void>("erase", k); }, "not reflected"); break;
        default: { bool mut = op - 8 >= 2 && op - 8 <= 5; if (mut) { refs.clear(); ++muts; } whole<T>(g, op - 8, v, obj, model); break; }
        }
        SAME(*obj, model, "after the operation");
        for (auto& r : refs) { VT_EQ(r.first.value(), (void*)&obj->at(r.second), "reference to an element"); VT_EQ(El<V>::show(r.first.template get<V>()), El<V>::show(model.at(r.second)), "content through a reference"); }
    } while (g.more(16));
    c.nontrivial(ops >= 3 && (muts || h.isConst));
    c.label(std::string(type<T>()->id()) + (h.isConst ? " const" : ""));
}

void stringCase(vt::Case& c)
{
    typedef std::string T;
    vt::Gen& g = c.g;
    Holder<T> h(g);
    Value& v = h.v; T model = *h.obj; T* obj = h.obj;
    VT_CHECK(v.is("string") && !v.is("list") && !v.is("map") && !v.is("primitive"), "traits");
    VT_EQ(v.type()->getValue<size_t>("sizeof"), sizeof(T), "sizeof");
    unsigned ops = 0;
    do {
        ++ops;
        int op = int(g.draw(9));
        if (h.isConst && op >= 2 && op <= 6 && op != 4) { if (op < 6) refuses<T>(h, model, [&] { v.assign(El<T>::gen(g)); }, "assignment to a const"); continue; }
        if (whole<T>(g, op, v, obj, model)) {}
        else if (op == 7) VT_EQ(v.call<size_t>("size"), model.size(), "size");
        else if (op == 8) { Value p = v.type()->alloc(); std::unique_ptr<T> own(p.get<T*>()); VT_EQ(*own, std::string(), "new"); }
        else { refuses<T>(h, model, [&] { v.assign(5); }, "assignment of something else"); refuses<T>(h, model, [&] { v.call<void>("clear"); }, "not reflected"); }
        SAME(*obj, model, "after the operation");
    } while (g.more(8));
    c.nontrivial(ops >= 3);
}

} // namespace

#define RULE "three or more operations, with a change or on a const container"
VT_PROP(vectors_int, 2500, 120000, RULE) { vectorCase<int>(c); }
VT_PROP(vectors_string, 2500, 120000, RULE) { vectorCase<std::string>(c); }
VT_PROP(vectors_class, 2500, 120000, RULE) { vectorCase<Obj>(c); }
VT_PROP(vectors_nested, 2500, 120000, RULE) { vectorCase<std::vector<std::string>>(c); }
VT_PROP(vectors_of_maps, 1500, 60000, RULE) { vectorCase<std::map<std::string, int>>(c); }
VT_PROP(maps_string_int, 2500, 120000, RULE) { mapCase<std::map<std::string, int>>(c); }
VT_PROP(maps_int_class, 2500, 120000, RULE) { mapCase<std::map<int, Obj>>(c); }
VT_PROP(maps_nested, 1500, 60000, RULE) { mapCase<std::map<std::string, std::vector<int>>>(c); }
VT_PROP(unordered_string_int, 2500, 120000, RULE) { mapCase<std::unordered_map<std::string, int>>(c); }
VT_PROP(unordered_int_string, 2500, 120000, RULE) { mapCase<std::unordered_map<int, std::string>>(c); }
VT_PROP(strings, 2000, 100000, "three or more operations") { stringCase(c); }
