// P13: reflected raw and smart pointers behave like the pointers themselves.
#include "zoo.h"
#include "types/pointer.h"
#include "types/primitives.h"
#include "types/std/smart_ptr.h"

using namespace reflect;
using namespace zoo;

namespace p13 {
struct VBase { Num b; Track t; VBase() : t("VBase") {} explicit VBase(int v) : b(v), t("VBase") {} virtual ~VBase() {} int get() const { t.used("read"); return b.v; } };
struct VDerived : public VBase { Num d; VDerived() {} explicit VDerived(int v) : VBase(v), d(v) {} };
struct VLeaf : public VDerived { std::string s; VLeaf() {} explicit VLeaf(int v) : VDerived(v), s("leaf of a unique pointer") {} };
inline int takeShared(std::shared_ptr<Base> p) { return p ? p->get() * 10 + int(p.use_count()) : -1; }
inline int takeSharedC(const std::shared_ptr<Base>& p) { return p ? p->get() * 10 + int(p.use_count()) : -1; }
inline void setShared(std::shared_ptr<Base>& p, int v) { p->set(v); }
inline std::shared_ptr<Base> passShared(std::shared_ptr<Base> p) { return p; }
inline int takeUnique(std::unique_ptr<VBase> p) { return p ? p->get() : -1; }
inline int takeUniqueR(std::unique_ptr<VBase>&& p) { return p ? p->get() : -1; }
inline int takeUniqueC(const std::unique_ptr<VBase>& p) { return p ? p->get() : -1; }
inline int takeRaw(Base* p) { return p ? p->get() : -1; }
inline int takeRawC(const Base* p) { return p ? p->get() : -1; }
inline Base* passRaw(Base* p) { return p; }
inline int takeSharedD(const std::shared_ptr<Derived>& p) { return p ? p->getD() : -1; }
inline int takeRawD(Derived* p) { return p ? p->getD() : -1; }
}
reflectType(p13::VBase) { reflectPlumbing(); reflectFn(get); }
reflectType(p13::VDerived) { reflectParent(p13::VBase); reflectPlumbing(); }
reflectType(p13::VLeaf) { reflectParent(p13::VDerived); reflectPlumbing(); }
using p13::VBase; using p13::VDerived; using p13::VLeaf;

namespace {

std::set<const void*> alive() { std::set<const void*> s; for (auto& x : life().live) if (!life().permanent.count(x.first)) s.insert(x.first); return s; }
template<typename T> const void* trackOf(const T* p) { return p ? &p->t : nullptr; }

template<typename T> int valueOf(const T& x) { return x.get(); }

/* ------------------------------------------------------------------ shared_ptr */

// Slots of shared_ptr, each next to a plain one that gets the same operations by hand on a twin object.
struct Twin { std::shared_ptr<int> p; };

template<typename T> void sharedCase(vt::Case& c)
{
    typedef std::shared_ptr<T> P;
    vt::Gen& g = c.g;
    life().clear();
    const Type* tp = type<P>();
    VT_CHECK(tp->isPointer() && tp->pointer() == "std::shared_ptr" && tp->pointee() == type<T>() && tp->is("smartPtr") && !tp->is("primitive"), "kind");
    {
        enum { N = 4 };
        struct { P direct; Value v; P* p; Twin twin; } s[N];
        for (auto& x : s) { if (g.coin()) { x.v = Value(x.direct); x.p = &x.direct; } else { x.v = tp->construct(); x.p = (P*)x.v.value(); VT_CHECK(x.v.isStored(), "owned"); } }
        int serial = 0; unsigned ops = 0, shares = 0;
        do {
            ++ops;
            auto& a = s[g.below(N)]; auto& b = s[g.below(N)];
            switch (g.draw(16)) {
            case 0: { int k = ++serial; VT_LOG("cons "); Value v = tp->construct(new T(k)); a.v.assign(v); a.twin.p = std::make_shared<int>(k); break; }        // copy assigned, from a Value that then goes
            case 1: { int k = ++serial; VT_LOG("reset(new) "); a.v.template call<void>("reset", new T(k)); a.twin.p.reset(new int(k)); break; }
            case 2: VT_LOG("reset "); a.v.template call<void>("reset"); a.twin.p.reset(); break;
            case 14: { VT_LOG("reset(null) "); T* null = nullptr; a.v.template call<void>("reset", null); a.twin.p.reset((int*) nullptr); break; }
            case 15: { VT_LOG("cons(null) "); Value v = tp->construct((T*) nullptr); a.v.assign(v.rvalue()); a.twin.p = std::shared_ptr<int>((int*) nullptr); break; }
            case 3: VT_LOG("a=b "); a.v.assign(b.v); { auto t = b.twin.p; a.twin.p = t; } ++shares; break;
            case 4: VT_LOG("a=move(b) "); if (&a == &b) break; a.v.assign(std::move(*b.p)); a.twin.p = std::move(b.twin.p); VT_CHECK(!*b.p, "moved from"); break;
            case 5: { VT_LOG("copy "); Value k = b.v.copy(); auto t = b.twin.p; VT_CHECK(k.isStored() && k.value() != b.v.value(), "independent pointer"); VT_EQ(((P*)k.value())->use_count(), t.use_count(), "shared with the copy"); ++shares; break; }
            case 6: { VT_LOG("a=copy(b) "); Value k = tp->construct(b.v); a.v.assign(k.rvalue()); a.twin.p = std::shared_ptr<int>(b.twin.p); ++shares; break; }
            case 7: { auto* got = b.v.template call<T*>("get"); VT_CHECK(got == b.p->get(), "get"); Value gv = b.v.template call<Value>("get"); VT_CHECK(gv.template get<T*>() == b.p->get(), "get, as a Value"); break; }
            case 8: VT_EQ(b.v.template call<bool>("operator bool()"), !!b.twin.p, "bool"); VT_EQ((bool)b.v, !!b.twin.p, "bool"); VT_EQ(!b.v, !b.twin.p, "!"); break;
            case 9: VT_EQ(a.v == b.v, a.twin.p == b.twin.p, "=="); VT_EQ(a.v == *b.p, a.twin.p == b.twin.p, "== with a raw pointer"); break;
            case 10: if (!b.twin.p) break; { VT_LOG("*b "); Value d = *b.v; VT_CHECK(d.value() == b.p->get() && d.type() == type<T>() && !d.isConst() && !d.isStored(), "dereference"); int k = ++serial; d.template call<void>("set", k); *b.twin.p = k; break; }
            case 11: if (!b.twin.p) break; { T& d = b.v.template call<T&>("operator*"); VT_CHECK(&d == b.p->get(), "dereference"); VT_CHECK(b.v.toConst().template call<bool>("operator bool()"), "const pointer"); VT_CHECK((*b.v.toConst()).value() == b.p->get(), "const smart pointers lead to what can change"); break; }
            case 12: {          // a const pointer stays what it is
                Value k = b.v.toConst(); long n = b.p->use_count();
                VT_CHECK(raises([&] { k.template call<void>("reset"); }) && raises([&] { k.assign(a.v); }), "change of a const pointer");
                VT_EQ(b.p->use_count(), n, "const pointer");
                break; }
            default: VT_CHECK(raises([&] { a.v.template call<void>("reset", 5); }) && raises([&] { a.v.assign(5); }) && raises([&] { a.v.template call<void>("release"); }), "not reflected"); break;
            }
            check("after an operation");
            std::set<const void*> expect;
            for (int i = 0; i < N; ++i) {
                VT_EQ(!!*s[i].p, !!s[i].twin.p, "null, slot " << i);
                VT_EQ(s[i].p->use_count(), s[i].twin.p.use_count(), "use count, slot " << i);
                if (s[i].twin.p) { VT_EQ(valueOf(**s[i].p), *s[i].twin.p, "content, slot " << i); expect.insert(trackOf(s[i].p->get())); }
                for (int j = 0; j < N; ++j) VT_EQ(s[i].p->get() == s[j].p->get(), s[i].twin.p.get() == s[j].twin.p.get(), "who shares with whom");
            }
            VT_CHECK(alive() == expect, "objects alive: " << liveSummary());
        } while (g.more(20));
        c.nontrivial(ops >= 4 && serial && shares);
    }
    check("at the end");
    VT_EQ(life().left(), size_t(0), "everything is destroyed at the end");
}

/* ------------------------------------------------------------------ unique_ptr */

template<typename T> void uniqueCase(vt::Case& c)
{
    typedef std::unique_ptr<T> P;
    vt::Gen& g = c.g;
    life().clear();
    const Type* tp = type<P>();
    VT_CHECK(tp->isPointer() && tp->pointer() == "std::unique_ptr" && tp->pointee() == type<T>() && tp->is("smartPtr") && tp->isMovable() && !tp->isCopiable(), "kind");
    {
        enum { N = 4 };
        struct { P direct; Value v; P* p; int want; } s[N];          // want: content, or -1
        for (auto& x : s) { x.want = -1; if (g.coin()) { x.v = Value(x.direct); x.p = &x.direct; } else { x.v = tp->construct(); x.p = (P*)x.v.value(); } }
        std::vector<T*> freed;
        int serial = 0; unsigned ops = 0, moves = 0;
        do {
            ++ops;
            auto& a = s[g.below(N)]; auto& b = s[g.below(N)];
            switch (g.draw(15)) {
            case 0: { int k = ++serial; VT_LOG("cons "); Value v = tp->construct(new T(k)); VT_CHECK(v.isStored(), "owned"); a.v.assign(v.rvalue()); a.want = k; ++moves; break; }
            case 1: { int k = ++serial; VT_LOG("reset(new) "); a.v.template call<void>("reset", new T(k)); a.want = k; break; }
            case 2: VT_LOG("reset "); a.v.template call<void>("reset"); a.want = -1; break;
            case 13: { VT_LOG("reset(null) "); T* null = nullptr; a.v.template call<void>("reset", null); a.want = -1; break; }
            case 14: { VT_LOG("cons(null) "); Value v = tp->construct((T*) nullptr); a.v.assign(v.rvalue()); a.want = -1; break; }
            case 3: VT_LOG("a=b "); VT_CHECK(raises([&] { a.v.assign(b.v); }) && raises([&] { a.v.assign(*b.p); }), "copy assignment of a unique pointer"); break;
            case 4: if (&a == &b) break; VT_LOG("a=move(b) "); { T* was = b.p->get(); a.v.assign(std::move(*b.p)); VT_CHECK(a.p->get() == was && !*b.p, "moved"); } a.want = b.want; b.want = -1; ++moves; break;
            case 5: VT_CHECK(raises([&] { b.v.copy(); }), "copy of a unique pointer"); break;
            case 6: {          // move() of an owning Value
                int k = ++serial; VT_LOG("move "); Value v = tp->construct(new T(k)); T* was = ((P*)v.value())->get(); Value m = v.move();
                VT_CHECK(v.isVoid() && ((P*)m.value())->get() == was, "moved"); VT_EQ(valueOf(**(P*)m.value()), k, "moved"); ++moves; break; }
            case 7: { auto* got = b.v.template call<T*>("get"); VT_CHECK(got == b.p->get(), "get"); break; }
            case 8: VT_EQ(b.v.template call<bool>("operator bool()"), b.want >= 0, "bool"); VT_EQ((bool)b.v, b.want >= 0, "bool"); VT_EQ(!b.v, b.want < 0, "!"); break;
            case 9: VT_EQ(a.v == b.v, a.p->get() == b.p->get(), "=="); break;
            case 10: if (b.want < 0) break; { VT_LOG("*b "); Value d = *b.v; VT_CHECK(d.value() == b.p->get() && d.type() == type<T>() && !d.isConst() && !d.isStored(), "dereference"); int k = ++serial; d.template call<void>("set", k); b.want = k; break; }
            case 11: { VT_LOG("release "); T* was = b.p->get(); T* got = b.v.template call<T*>("release"); VT_CHECK(was == got && !*b.p, "release"); if (got) { freed.push_back(got); VT_EQ(valueOf(*got), b.want, "released"); } b.want = -1; break; }
            default: { Value k = b.v.toConst(); T* was = b.p->get(); VT_CHECK(raises([&] { k.template call<void>("reset"); }) && raises([&] { k.template call<void>("release"); }) && raises([&] { k.assign(P()); }) && b.p->get() == was, "change of a const pointer"); break; }
            }
            check("after an operation");
            std::set<const void*> expect;
            for (auto* f : freed) expect.insert(trackOf(f));
            for (int i = 0; i < N; ++i) { VT_EQ(*s[i].p ? valueOf(**s[i].p) : -1, s[i].want, "content, slot " << i); if (*s[i].p) expect.insert(trackOf(s[i].p->get())); }
            VT_CHECK(alive() == expect, "objects alive: " << liveSummary());
        } while (g.more(20));
        for (auto* f : freed) delete f;
        c.nontrivial(ops >= 4 && serial && moves);
    }
    check("at the end");
    VT_EQ(life().left(), size_t(0), "everything is destroyed at the end");
}

/* ------------------------------------------------------------------ raw pointers */

template<typename T> void rawCase(vt::Case& c)
{
    typedef T* P;
    vt::Gen& g = c.g;
    life().clear();
    const Type* tp = type<P>();
    VT_CHECK(tp->isPointer() && tp->pointer() == "*" && tp->pointee() == type<T>() && tp->is("primitive") && !tp->is("smartPtr"), "kind");
    {
        T objs[3] = { T(1), T(2), T(3) };
        enum { N = 3 };
        struct { P direct; Value v; P* p; P want; } s[N];
        for (auto& x : s) { x.direct = nullptr; x.want = nullptr; if (g.coin()) { x.v = Value(x.direct); x.p = &x.direct; } else { x.v = tp->construct(); x.p = (P*)x.v.value(); VT_CHECK(!*x.p, "a default pointer is null"); } }
        unsigned ops = 0, derefs = 0; int serial = 10;
        do {
            ++ops;
            auto& a = s[g.below(N)]; auto& b = s[g.below(N)];
            switch (g.draw(8)) {
            case 0: case 1: { P to = g.chance(1, 5) ? nullptr : &objs[g.below(3)]; VT_LOG("a=" << (to ? to - objs : -1) << " "); if (g.coin()) a.v.assign(to); else a.v.assign(P(to)); a.want = to; break; }
            case 2: VT_LOG("a=b "); a.v.assign(b.v); a.want = b.want; break;
            case 3: { Value k = b.v.copy(); VT_CHECK(k.template get<P>() == b.want && k.value() != b.v.value(), "copy"); break; }
            case 4: VT_EQ(b.v.template call<bool>("operator bool()"), !!b.want, "bool"); VT_EQ((bool)b.v, !!b.want, "bool"); VT_EQ(!b.v, !b.want, "!"); break;
            case 5: case 6: if (!b.want) break; { ++derefs; VT_LOG("*b "); Value d = *b.v; VT_CHECK(d.value() == (void*)b.want && d.type() == type<T>() && !d.isConst() && !d.isStored(), "dereference"); int k = ++serial; d.template call<void>("set", k); VT_EQ(valueOf(*b.want), k, "write through the pointer"); break; }
            case 7: if (!b.want) break; {          // a const pointer only reads
                ++derefs;
                Value k = g.coin() ? b.v.toConst() : Value((P const&)*b.p); Value d = *k; int was = valueOf(*b.want);
                VT_CHECK(d.isConst() && d.value() == (void*)b.want, "dereference of a const pointer");
                VT_CHECK(raises([&] { d.template call<void>("set", 5); }), "write through a const pointer");
                VT_EQ(valueOf(*b.want), was, "write through a const pointer"); VT_CHECK(raises([&] { k.assign(P()); }), "change of a const pointer"); VT_CHECK(&k.template call<const T&>("operator*") == b.want, "const dereference");
                break; }
            default: {          // pointer to pointer
                P* pp = b.p; Value v(pp); Value d = *v; VT_CHECK(d.value() == (void*)b.p && d.type() == tp && type<P*>()->pointee() == tp, "pointer to pointer");
                if (b.want) VT_CHECK((*d).value() == (void*)b.want, "both levels");
                break; }
            }
            for (int i = 0; i < N; ++i) VT_CHECK(*s[i].p == s[i].want, "slot " << i);
            VT_EQ(life().left(), size_t(3), "raw pointers own nothing");
        } while (g.more(14));
        c.nontrivial(ops >= 3 && derefs);
    }
    check("at the end");
}

} // namespace

#define RULE "four or more operations with objects created and shared, moved or dereferenced"
VT_PROP(shared_obj, 6000, 250000, RULE) { sharedCase<Obj>(c); }
VT_PROP(shared_base, 3000, 150000, RULE) { sharedCase<Base>(c); }
VT_PROP(shared_leaf, 3000, 150000, RULE) { sharedCase<Leaf>(c); }
VT_PROP(unique_obj, 5000, 200000, RULE) { uniqueCase<Obj>(c); }
VT_PROP(unique_derived, 3000, 150000, RULE) { uniqueCase<Derived>(c); }
VT_PROP(unique_pinned, 3000, 150000, RULE) { uniqueCase<Pinned>(c); }
VT_PROP(raw_obj, 6000, 250000, RULE) { rawCase<Obj>(c); }
VT_PROP(raw_derived, 3000, 150000, RULE) { rawCase<Derived>(c); }

/* ------------------------------------------------------------------ pointers to children where pointers to parents are expected */

VT_PROP(related, 12000, 400000, "a pointer of one kind offered where another is expected")
{
    vt::Gen& g = c.g;
    life().clear();
    static const Function fShared("f", p13::takeShared), fSharedC("f", p13::takeSharedC), fSet("f", p13::setShared), fPass("f", p13::passShared),
        fUnique("f", p13::takeUnique), fUniqueR("f", p13::takeUniqueR), fUniqueC("f", p13::takeUniqueC), fRaw("f", p13::takeRaw), fRawC("f", p13::takeRawC), fPassRaw("f", p13::passRaw),
        fSharedD("f", p13::takeSharedD), fRawD("f", p13::takeRawD);
    {
        int k = int(g.range(1, 500)), what = int(g.draw(11)), kind = int(g.draw(2));
        bool null = g.chance(1, 8);
        std::shared_ptr<Base> sb(null ? nullptr : new Base(k)); std::shared_ptr<Derived> sd(null ? nullptr : new Derived(k)); std::shared_ptr<Leaf> sl(null ? nullptr : new Leaf(k)); std::shared_ptr<Obj> so(new Obj(k));
        std::unique_ptr<VBase> ub(null ? nullptr : new VBase(k)); std::unique_ptr<VDerived> ud(null ? nullptr : new VDerived(k)); std::unique_ptr<VLeaf> ul(null ? nullptr : new VLeaf(k)); std::unique_ptr<Obj> uo(new Obj(k));
        Base* rb = sb.get(); Derived* rd = sd.get(); Leaf* rl = sl.get(); Obj* ro = so.get();
        Value vs[] = { Value(sb), Value(sd), Value(sl), Value(so), Value(ub), Value(ud), Value(ul), Value(uo), Value(rb), Value(rd), Value(rl), Value(ro) };
        enum { SB, SD, SL, SO, UB, UD, UL, UO, RB, RD, RL, RO };
        int from = g.chance(2, 3) ? (what < 4 || what == 10 ? int(g.draw(3)) : what < 7 ? UB + int(g.draw(3)) : RB + int(g.draw(3))) : int(g.draw(11));
        Value& v = vs[from];
        VT_LOG("from " << v.typeId() << " to " << what << (null ? " null" : ""));
        c.nontrivial();
        c.label("target " + std::to_string(what));
        const int level = from % 4;             // 0 base, 1 derived, 2 leaf, 3 unrelated
        const int fromKind = from / 4;          // shared, unique, raw
        long count = fromKind == 0 && level < 3 && !null ? 1 : 0;
        const size_t before = life().left();
        switch (what) {
        case 0: { bool ok = fromKind == 0 && level < 3; int r = 0; VT_EQ(!raises([&] { r = fShared.call<int>(v); }), ok, "shared by value"); if (ok) VT_EQ(r, null ? -1 : k * 10 + 2, "shared by value"); break; }
        case 1: { bool ok = fromKind == 0 && level < 3; int r = 0; VT_EQ(!raises([&] { r = fSharedC.call<int>(v); }), ok, "shared by reference"); if (ok) VT_EQ(r, null ? -1 : k * 10 + 1, "shared by reference"); break; }
        case 2: { if (null) break; bool ok = fromKind == 0 && level < 3; int nv = int(g.range(600, 700)); VT_EQ(!raises([&] { fSet.call<void>(v, nv); }), ok, "shared by lvalue reference"); if (ok) VT_EQ(level == 0 ? sb->get() : level == 1 ? sd->get() : sl->get(), nv, "pointee"); break; }
        case 3: { bool ok = fromKind == 0 && level < 3; std::shared_ptr<Base> r; VT_EQ(!raises([&] { r = fPass.call<std::shared_ptr<Base>>(v); }), ok, "shared through"); if (ok && !null) { VT_EQ(r->get(), k, "shared through"); VT_EQ(r.use_count(), 2L, "shared through"); } break; }
        case 4: case 5: {
            bool ok = fromKind == 1 && level < 3; const Function& f = what == 4 ? fUnique : fUniqueR; int r = 0;
            VT_CHECK(raises([&] { f.call<int>(v); }), "a unique pointer that isn't moved"); VT_EQ(life().left(), before, "nothing happened");
            bool bad = raises([&] { r = f.call<int>(v.rvalue()); });
            if (what == 4 && bad) { VT_EQ(life().left(), before, "nothing happened"); break; }        // by value: not supported for what can't be copied
            VT_EQ(!bad, ok, "a moved unique pointer");
            if (ok) { VT_EQ(r, null ? -1 : k, "moved unique pointer"); VT_CHECK(level == 0 ? !ub : level == 1 ? !ud : !ul, "it went to the callee"); VT_EQ(life().left(), before - (null ? 0 : 1), "destroyed by the callee"); }
            break; }
        case 6: { bool ok = fromKind == 1 && level < 3; int r = 0; VT_EQ(!raises([&] { r = fUniqueC.call<int>(v); }), ok, "unique by reference"); if (ok) VT_EQ(r, null ? -1 : k, "unique by reference"); VT_EQ(life().left(), before, "still there"); break; }
        case 7: case 8: { bool ok = fromKind == 2 && level < 3; int r = 0; VT_EQ(!raises([&] { r = (what == 7 ? fRaw : fRawC).call<int>(v); }), ok, "raw"); if (ok) VT_EQ(r, null ? -1 : k, "raw"); break; }
        case 9: { bool ok = fromKind == 2 && level < 3; Base* r = nullptr; VT_EQ(!raises([&] { r = fPassRaw.call<Base*>(v); }), ok, "raw through"); if (ok) VT_CHECK(r == (level == 0 ? rb : level == 1 ? (Base*)rd : (Base*)rl), "raw through"); break; }
        case 10: { bool ok = fromKind == 0 && (level == 1 || level == 2); int r = 0; VT_EQ(!raises([&] { r = fSharedD.call<int>(v); }), ok, "shared to the middle"); if (ok) VT_EQ(r, null ? -1 : k * 2 + 1, "shared to the middle"); break; }
        default: { bool ok = fromKind == 2 && (level == 1 || level == 2); int r = 0; VT_EQ(!raises([&] { r = fRawD.call<int>(v); }), ok, "raw to the middle"); if (ok) VT_EQ(r, null ? -1 : k * 2 + 1, "raw to the middle"); break; }
        }
        (void)kind; (void)count;
        check("after the call");
        if (what != 4 && what != 5) VT_EQ(life().left(), before, "objects after the call");
        if (sb) VT_EQ(sb.use_count(), 1L, "nothing was kept"); if (sd) VT_EQ(sd.use_count(), 1L, "nothing was kept"); if (sl) VT_EQ(sl.use_count(), 1L, "nothing was kept");
    }
    VT_EQ(life().left(), size_t(0), "everything is destroyed at the end");
}
