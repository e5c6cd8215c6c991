// P01 - A reflected call behaves exactly like the direct C++ call.
//
// Differential: every generated call is made twice, once through reflection on one set of objects and
// once directly on an identical set. What the function saw (order, content, identity of each
// parameter), what it returned and what became of every object must agree.
#define P01_MAIN
#include "p01.h"

using namespace reflect;
using namespace zoo;

namespace p01 {

std::vector<Fn>& fns()
{
    static std::vector<Fn> v; static bool once = false;
    if (!once) { once = true; fns1(); fns2(); fns3(); fns4(); }
    return v;
}
Obj pointeeForPoke;
Rec& rec() { static Rec r; return r; }

const char* typeNames[] = { "int", "string", "Obj", "Base", "Derived", "Leaf", "MoveOnly", "CopyOnly", "Pinned", "Conv", "Obj*" };

bool isA(T a, T b)
{
    if (a == b) return true;
    int x = a == TBase ? 0 : a == TDerived ? 1 : a == TLeaf ? 2 : -1;
    int y = b == TBase ? 0 : b == TDerived ? 1 : b == TLeaf ? 2 : -1;
    return x >= 0 && y >= 0 && x > y;
}

std::string showAt(T t, const void* p)
{
    switch (t) {
    case TInt: return show(*static_cast<const int*>(p));
    case TStr: return show(*static_cast<const std::string*>(p));
    case TObj: return show(*static_cast<const Obj*>(p));
    case TBase: return show(*static_cast<const Base*>(p));
    case TDerived: return show(*static_cast<const Derived*>(p)) + "/" + std::to_string(static_cast<const Derived*>(p)->getD());
    case TLeaf: return show(*static_cast<const Leaf*>(p)) + "/" + std::to_string(static_cast<const Leaf*>(p)->getD()) + "/" + std::to_string(static_cast<const Leaf*>(p)->getL());
    case TMoveOnly: return show(*static_cast<const MoveOnly*>(p));
    case TCopyOnly: return show(*static_cast<const CopyOnly*>(p));
    case TPinned: return show(*static_cast<const Pinned*>(p));
    case TConv: return show(*static_cast<const Conv*>(p));
    default: return show(*static_cast<Obj* const*>(p));
    }
}

} // namespace p01

using namespace p01;

namespace {

Obj pointees[4];

template<typename X> void put(Slot& s, const X& init, bool stored)
{
    if (stored) {
        X tmp(init);
        s.v = Value(std::move(tmp)); s.a = s.v.value();
    }
    else { X* p = new X(init); s.ownA.reset(p, [](void* q) { delete static_cast<X*>(q); }); s.a = p; s.v = Value(*p); }
    X* q = new X(init); s.ownB.reset(q, [](void* r) { delete static_cast<X*>(r); }); s.b = q;
}
template<typename X> void putOwn(Slot& s, int init, bool stored)      // not copiable
{
    if (stored) { s.v = Value(X(init)); s.a = s.v.value(); }
    else { X* p = new X(init); s.ownA.reset(p, [](void* q) { delete static_cast<X*>(q); }); s.a = p; s.v = Value(*p); }
    X* q = new X(init); s.ownB.reset(q, [](void* r) { delete static_cast<X*>(r); }); s.b = q;
}
void putPinned(Slot& s, int init)
{
    Pinned* p = new Pinned(init); s.ownA.reset(p, [](void* q) { delete static_cast<Pinned*>(q); }); s.a = p; s.v = Value(*p);
    Pinned* q = new Pinned(init); s.ownB.reset(q, [](void* r) { delete static_cast<Pinned*>(r); }); s.b = q;
}

void fill(vt::Gen& g, Slot& s, T t)
{
    s.t = t; s.mode = LV;
    bool stored = g.chance(1, 3);
    int n = int(g.small());
    switch (t) {
    case TInt: put<int>(s, int(g.i64()), stored); break;
    case TStr: put<std::string>(s, g.utf8String(4) + std::to_string(n), stored); break;
    case TObj: put(s, Obj(n), stored); break;
    case TBase: put(s, Base(n), stored); break;
    case TDerived: put(s, Derived(n), stored); break;
    case TLeaf: put(s, Leaf(n), stored); break;
    case TMoveOnly: putOwn<MoveOnly>(s, n, stored); break;
    case TCopyOnly: {
        CopyOnly* p = new CopyOnly(n); s.ownA.reset(p, [](void* q) { delete static_cast<CopyOnly*>(q); }); s.a = p; s.v = Value(*p);
        CopyOnly* q = new CopyOnly(n); s.ownB.reset(q, [](void* r) { delete static_cast<CopyOnly*>(r); }); s.b = q; break; }
    case TPinned: putPinned(s, n); break;
    case TConv: put(s, Conv(n), stored); break;
    default: put<Obj*>(s, &pointees[g.draw(3)], stored); break;
    }
}

// Picks a slot type and passing mode that the signature accepts for this parameter.
void choose(vt::Gen& g, Slot& s, const Param& p, bool raw)
{
    T t = p.t;
    if (!raw) {
        if (t == TBase) t = g.oneOf({ TBase, TDerived, TLeaf });
        else if (t == TDerived) t = g.oneOf({ TDerived, TLeaf });
        else if ((t == TObj || t == TInt) && (p.k == Cp || p.k == RR) && g.chance(1, 6)) t = TConv;
    }
    fill(g, s, t);
    if (raw) return;
    switch (p.k) {
    case LR: s.mode = LV; break;
    case RR: s.mode = t == TConv ? g.oneOf({ LV, CV, RV }) : RV; break;
    default: s.mode = g.oneOf({ LV, CV, RV, CRV }); break;
    }
    s.hold = s.v;
    switch (s.mode) {
    case CV: s.v = constRef(s.t, s.a); break;      // what Value(const X&) gives
    case RV: s.v = s.v.rvalue(); break;
    case CRV: s.v = s.v.toConst(); break;
    default: break;
    }
}

const char* modeNames[] = { "", " const&", " &&", " const&&" };

void compareSlots(std::vector<Slot>& slots, const std::string& sig)
{
    for (size_t i = 0; i < slots.size(); ++i)
        VT_EQ(showAt(slots[i].t, slots[i].a), showAt(slots[i].t, slots[i].b), sig << ": argument " << i << " after the call");
}

} // namespace

namespace p01 {

Value constRef(T t, const void* p)
{
    switch (t) {
    case TInt: return Value(*static_cast<const int*>(p));
    case TStr: return Value(*static_cast<const std::string*>(p));
    case TObj: return Value(*static_cast<const Obj*>(p));
    case TBase: return Value(*static_cast<const Base*>(p));
    case TDerived: return Value(*static_cast<const Derived*>(p));
    case TLeaf: return Value(*static_cast<const Leaf*>(p));
    case TMoveOnly: return Value(*static_cast<const MoveOnly*>(p));
    case TCopyOnly: return Value(*static_cast<const CopyOnly*>(p));
    case TPinned: return Value(*static_cast<const Pinned*>(p));
    case TConv: return Value(*static_cast<const Conv*>(p));
    default: return Value(*static_cast<Obj* const*>(p));
    }
}

} // namespace p01

VT_PROP(global_functions, 250000, 6000000, "a function with at least one parameter")
{
    fns();
    life().clear();
    for (int i = 0; i < 4; ++i) life().live.emplace(&pointees[i].t, "Obj");
    size_t outside = life().live.size();
    {
        const Fn& fn = c.g.pick(fns());
        const bool raw = fn.rawCalls && c.g.coin();
        const unsigned variant = raw ? unsigned(c.g.draw(3)) : 0;
        const std::string sig = fn.name + (raw ? variant % 2 ? " raw temporaries" : " raw" : "") + (variant > 1 ? " by name" : "");
        std::vector<Slot> slots(fn.params.size());
        VT_LOG(sig << " with");
        for (size_t i = 0; i < slots.size(); ++i) {
            choose(c.g, slots[i], fn.params[i], raw);
            VT_LOG(" " << typeNames[slots[i].t] << modeNames[slots[i].mode] << (slots[i].v.isStored() ? " stored " : " ")
                    << vt::quote(slots[i].t == TPtr ? "p" : showAt(slots[i].t, slots[i].a), 40));
        }
        c.nontrivial(!slots.empty());
        c.label("arity " + std::to_string(slots.size())); c.label(raw ? "raw" : "values");

        resetGlobals(); rec().clear();
        Outcome direct = fn.direct(slots, raw, variant);
        keepers().clear();
        std::vector<Rec::Arg> dargs = rec().args; int dcalls = rec().calls;
        zoo::check("direct call");
        std::vector<std::string> dglobals = showGlobals();

        resetGlobals(); rec().clear();
        Outcome got = raw ? fn.raw(slots, variant) : fn.viaValues(slots, c.g.draw(fn.ways - 1));
        zoo::check("reflected call");

        VT_EQ(rec().calls, 1, sig); VT_EQ(dcalls, 1, sig);
        VT_EQ(rec().args.size(), dargs.size(), sig);
        for (size_t i = 0; i < dargs.size(); ++i) {
            VT_EQ(rec().args[i].content, dargs[i].content, sig << ": parameter " << i);
            bool aliasD = dargs[i].addr == slots[i].b, aliasA = rec().args[i].addr == slots[i].a;
            // an rvalue reference is bound to an object that the argument was moved into
            bool wrapped = fn.params[i].k == RR;
            if (slots[i].t == TConv && fn.params[i].t != TConv) VT_CHECK(!aliasA, sig << ": parameter " << i);
            else if (!wrapped) VT_EQ(aliasA, aliasD, sig << ": identity of parameter " << i);
            if (fn.params[i].k == Cp) VT_CHECK(!aliasA, sig << ": by-value parameter " << i << " is the caller's object");
        }
        VT_EQ(got.content, direct.content, sig << ": returned value");
        VT_EQ(got.what, direct.what, sig << ": returned object");
        compareSlots(slots, sig);
        VT_CHECK(showGlobals() == dglobals, sig << ": different effects on the objects of the function");
    }
    zoo::check("at the end");
    forgetGlobals();
    VT_EQ(life().live.size(), outside, liveSummary());
}

namespace {

// Function objects with a captured object and a count of their calls.
struct Add0 { Obj o; int calls; int operator() () { ++calls; return o.get() * 1000 + calls; } };
struct Add1 { Obj o; int calls; int operator() (int a) { ++calls; return o.get() * 1000 + calls + a; } };
struct Add2 { Obj o; int calls; int operator() (int a, const Obj& b) { ++calls; return o.get() * 1000 + calls + a + b.get(); } };
struct Add3 { Obj o; int calls; int operator() (int a, const Obj& b, Value c) const { return o.get() * 1000 + a + b.get() + c.get<int>(); } };

struct Held { int arity, n, calls; bool full; };

} // namespace

// Functions are handed from one to another; each keeps exactly one function object, and calls that one.
VT_PROP(function_objects, 20000, 400000, "a Function was move-assigned over another")
{
    life().clear();
    {
        std::vector<Function> fns; std::vector<Held> model;
        unsigned serial = 0;
        auto make = [&] {
            Held h = { int(c.g.draw(3)), int(++serial), 0, true };
            model.push_back(h);
            Obj o(h.n);
            switch (h.arity) {
            case 0: return Function("f" + std::to_string(h.n), Add0{ o, 0 });
            case 1: return Function("f" + std::to_string(h.n), Add1{ o, 0 });
            case 2: return Function("f" + std::to_string(h.n), Add2{ o, 0 });
            default: return Function("f" + std::to_string(h.n), Add3{ o, 0 });
            }
        };
        auto check = [&] (const char* what) {
            size_t n = 0; for (auto& h : model) n += h.full;
            VT_EQ(life().live.size(), n, what << ": objects captured by the functions that are left: " << liveSummary());
            zoo::check(what);
        };
        do {
            unsigned op = fns.size() < 2 ? 0 : unsigned(c.g.draw(7));
            size_t i = fns.empty() ? 0 : c.g.below(fns.size()), j = fns.empty() ? 0 : c.g.below(fns.size());
            VT_LOG("op " << op << " " << i << " " << j << ";");
            switch (op) {
            case 0: fns.push_back(make()); break;                                       // may move all the others
            case 1: {
                if (i == j) break;                                                      // unless the same
                fns[i] = std::move(fns[j]); model[i] = model[j]; model[j].full = false; c.nontrivial();
                break;
            }
            case 2: { Function& same = fns[i]; fns[i] = std::move(same); break; }       // to itself: nothing happens
            case 3: { Function f(std::move(fns[i])); fns[i] = std::move(f); break; }
            case 4: fns.erase(fns.begin() + long(i)); model.erase(model.begin() + long(i)); c.nontrivial(); break;
            case 5: std::swap(fns[i], fns[j]); std::swap(model[i], model[j]); break;
            case 6: { Function f = make(); Held h = model.back(); model.pop_back(); fns[i] = std::move(f); model[i] = h; c.nontrivial(); break; }
            default: {
                Held& h = model[i];
                if (!h.full) break;
                Obj b(3); int expect = h.n * 1000 + (h.arity < 3 ? ++h.calls : 0);
                const Function& f = fns[i];
                VT_EQ(f.name(), "f" + std::to_string(h.n), "name"); VT_EQ(f.arguments(), size_t(h.arity), "arguments");
                switch (h.arity) {
                case 0: VT_EQ(f.call<int>(), expect, "call"); break;
                case 1: VT_EQ(f.call<int>(20), expect + 20, "call"); break;
                case 2: VT_EQ(f.call<int>(20, b), expect + 23, "call"); break;
                default: VT_EQ(f.call<int>(20, b, Value(4)), expect + 27, "call"); break;
                }
            }
            }
            check("after an operation");
        } while (c.g.more(12));
    }
    zoo::check("at the end");
    VT_EQ(life().live.size(), size_t(0), "functions kept their objects: " << liveSummary());
}
