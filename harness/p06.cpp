// P06 - Casting a Value yields the same object, a copy, or a conversion, or an error.
//
// Random source Value (type, door, constness, reference kind) x every target type x every target
// reference kind, against a table of what the cast must give; sequences of casts over one object.
#include "zoo.h"
#include "types/pointer.h"

using namespace reflect;
using namespace zoo;

// A child that also has a converter to its parent and to its grand-parent: the types are related, so
// the parent's own sub-object is what a cast must give.
namespace p06 {
struct Grand { int n; explicit Grand(int v = 0) : n(v) {} };
struct Animal : Grand { int x; explicit Animal(int v = 0) : Grand(v), x(v + 1) {} };
struct Cat : Animal
{
    explicit Cat(int v = 0) : Animal(v) {}
    Animal toAnimal() const { return Animal(n + 100000); }
    Grand toGrand() const { return Grand(n + 200000); }
    int toInt() const { return n + 300000; }
};
// Its converters give references to its own parts.
struct Whole
{
    Obj part; std::string text; Derived child;
    explicit Whole(int v = 0) : part(v), text(size_t(20 + v % 20), char('a' + v % 26)), child(v + 3) {}
    const Obj& toPart() const { return part; }
    const std::string& toText() const { return text; }
    Derived& toChild() { return child; }
    std::string show() const { return std::to_string(part.get()) + "," + text + "," + std::to_string(child.get()) + "," + std::to_string(child.getD()); }
};
} // namespace p06

reflectTypeDecl(p06::Whole)
reflectTypeImpl(p06::Whole)
{
    reflectPlumbing();
    type_->addFunction("operator " + typeId<zoo::Obj>() + "()", &p06::Whole::toPart);
    type_->addFunction("operator " + typeId<std::string>() + "()", &p06::Whole::toText);
    type_->addFunction("operator " + typeId<zoo::Derived>() + "()", &p06::Whole::toChild);
}
reflectTypeDecl(p06::Grand)
reflectTypeDecl(p06::Animal)
reflectTypeDecl(p06::Cat)
reflectTypeImpl(p06::Grand) { reflectPlumbing(); reflectField(n); }
reflectTypeImpl(p06::Animal) { reflectParent(p06::Grand); reflectPlumbing(); reflectField(x); }
reflectTypeImpl(p06::Cat)
{
    reflectParent(p06::Animal);
    reflectPlumbing();
    type_->addFunction("operator p06::Animal()", &p06::Cat::toAnimal);
    type_->addFunction("operator p06::Grand()", &p06::Cat::toGrand);
    type_->addFunction("operator int()", &p06::Cat::toInt);
}

namespace {

enum T { TObj, TBase, TDerived, TLeaf, TOther, TConv, TMoveOnly, TPinned, TCopyOnly, TInt, TStr, TPObj, TPBase, TPDerived, TPLeaf, TVoid, NTypes };

template<typename X> struct Tag;
#define TAG(X, t) template<> struct Tag<X> { static const T tag = t; };
TAG(Obj, TObj) TAG(Base, TBase) TAG(Derived, TDerived) TAG(Leaf, TLeaf) TAG(Other, TOther) TAG(Conv, TConv)
TAG(MoveOnly, TMoveOnly) TAG(Pinned, TPinned) TAG(CopyOnly, TCopyOnly) TAG(int, TInt) TAG(std::string, TStr)
TAG(Obj*, TPObj) TAG(Base*, TPBase) TAG(Derived*, TPDerived) TAG(Leaf*, TPLeaf)

const char* names[] = { "Obj", "Base", "Derived", "Leaf", "Other", "Conv", "MoveOnly", "Pinned", "CopyOnly", "int", "string", "Obj*", "Base*", "Derived*", "Leaf*", "void" };

int depthOf(T t) { return t == TBase || t == TPBase ? 0 : t == TDerived || t == TPDerived ? 1 : t == TLeaf || t == TPLeaf ? 2 : -1; }
bool isPtr(T t) { return t >= TPObj && t <= TPLeaf; }
bool childOf(T a, T b)
{
    if (a == b) return true;
    return isPtr(a) == isPtr(b) && depthOf(a) >= 0 && depthOf(b) >= 0 && depthOf(a) > depthOf(b);
}
bool converts(T a, T b) { return a == TConv && (b == TObj || b == TInt); }
bool copiable(T t) { return t != TMoveOnly && t != TPinned && t != TCopyOnly && t != TVoid; }
bool movable(T t) { return t != TPinned && t != TCopyOnly && t != TVoid; }

// The content of an object as seen as a T, in a form that compares.
std::string show(const Obj& o) { return std::to_string(o.get()); }
std::string show(const Base& o) { return std::to_string(o.get()); }
std::string show(const Derived& o) { return std::to_string(o.get()) + "," + std::to_string(o.getD()); }
std::string show(const Leaf& o) { return std::to_string(o.get()) + "," + std::to_string(o.getD()) + "," + std::to_string(o.getL()); }
std::string show(const Other& o) { return std::to_string(o.get()); }
std::string show(const Conv& o) { return std::to_string(o.get()); }
std::string show(const MoveOnly& o) { return std::to_string(o.get()); }
std::string show(const Pinned& o) { return std::to_string(o.get()); }
std::string show(const CopyOnly& o) { return std::to_string(o.get()); }
std::string show(int i) { return std::to_string(i); }
std::string show(const std::string& s) { return s; }
template<typename X> std::string show(X* p) { return std::to_string((unsigned long)(const void*)p); }

struct Src
{
    Value v; T type; const void* addr; bool isConst; RefType ref; bool stored;
    int value; void* ptr;                   // content
    std::string as(T t) const               // content seen as t, by value relation not through the library
    {
        std::string s = std::to_string(value);
        if (type == TStr) return "s" + s;
        if (isPtr(type)) return std::to_string((unsigned long)ptr);
        if (t == TDerived) return s + "," + std::to_string(value * 2 + 1);
        if (t == TLeaf) return s + "," + std::to_string(value * 2 + 1) + "," + std::to_string(value * 3 + 2);
        return s;
    }
};

template<typename X> std::string showAt(const void* addr) { return show(*static_cast<const X*>(addr)); }

std::string current(const Src& s)
{
    switch (s.type) {
    case TObj: return showAt<Obj>(s.addr);
    case TBase: return showAt<Base>(s.addr);
    case TDerived: return showAt<Derived>(s.addr);
    case TLeaf: return showAt<Leaf>(s.addr);
    case TOther: return showAt<Other>(s.addr);
    case TConv: return showAt<Conv>(s.addr);
    case TMoveOnly: return showAt<MoveOnly>(s.addr);
    case TPinned: return showAt<Pinned>(s.addr);
    case TCopyOnly: return showAt<CopyOnly>(s.addr);
    case TInt: return showAt<int>(s.addr);
    case TStr: return showAt<std::string>(s.addr);
    case TPObj: return showAt<Obj*>(s.addr);
    case TPBase: return showAt<Base*>(s.addr);
    case TPDerived: return showAt<Derived*>(s.addr);
    case TPLeaf: return showAt<Leaf*>(s.addr);
    default: return "void";
    }
}

// Returns true when the source was consumed.
template<typename X>
bool castTo(Src& s, unsigned kind)
{
    const T t = Tag<X>::tag;
    const bool child = childOf(s.type, t);
    const bool conv = converts(s.type, t);
    const std::string before = current(s);
    std::string what;
    const std::string kinds[] = { "&", " const&", "", "&&" };
    const std::string name = std::string("cast<") + names[t] + kinds[kind] + "> of " + s.v.argument().print();

    switch (kind) {
    case 0: {
        const void* got = nullptr;
        bool bad = raises([&] { X& r = cast<X&>(s.v); got = &r; });
        bool ok = child && !s.isConst && s.ref == RefType::LValue;
        VT_EQ(!bad, ok, name);
        if (!bad) VT_EQ(got, s.addr, name);
        if (isCastable<X&>(s.v)) VT_CHECK(!bad, name << ": isCastable but not castable");
        VT_EQ(current(s), before, name << " changed the object");
        return false;
    }
    case 1: {
        const void* got = nullptr; std::string seen;
        bool bad = raises([&] { const X& r = cast<const X&>(s.v); got = &r; seen = show(r); });
        VT_EQ(!bad, child, name);
        if (!bad) { VT_EQ(got, s.addr, name); VT_EQ(seen, s.as(t), name); }
        if (isCastable<const X&>(s.v)) VT_CHECK(!bad, name << ": isCastable but not castable");
        VT_EQ(current(s), before, name << " changed the object");
        // the unchecked accessors still check the type
        VT_EQ(!raises([&] { VT_EQ((const void*)&s.v.get<X>(), s.addr, name); }), child, "get<>");
        VT_EQ(!raises([&] { Value v = s.v; VT_EQ((const void*)&v.as<X>(), s.addr, name); }), child, "as<>");
        return false;
    }
    case 2: {
        std::string seen; const void* got = nullptr;
        size_t live = life().live.size();
        bool bad = raises([&] { auto&& r = cast<X>(s.v); seen = show(r); got = &r; });
        bool ok = copiable(t) && (child || conv);
        VT_EQ(!bad, ok, name);
        if (copiable(t) && isCastable<X>(s.v)) VT_CHECK(!bad, name << ": isCastable but not castable");
        bool movedOut = s.ref == RefType::RValue && !s.isConst;     // std::move() of the source: it may be consumed
        if (!bad) {
            std::string expect = conv ? (t == TObj ? show(s.value + 1000) : show(s.value + 5000)) : s.as(t);
            VT_EQ(seen, expect, name);
            VT_CHECK(got != s.addr, name << " didn't copy");
        }
        VT_EQ(life().live.size(), live, name << " leaked an object");
        if (!(movedOut && child && !bad)) VT_EQ(current(s), before, name << " changed the object");
        return movedOut && child && !bad;
    }
    default: {
        if (s.isConst && child) return false;       // see known_findings, cast_rvalue_const of P05
        std::string seen;
        bool bad = raises([&] { X r = cast<X&&>(s.v); seen = show(r); });
        bool ok = movable(t) && (child || conv);
        VT_EQ(!bad, ok, name);
        if (movable(t) && isCastable<X&&>(s.v)) VT_CHECK(!bad, name << ": isCastable but not castable");
        if (bad || !child) { VT_EQ(current(s), before, name << " changed the object"); }
        if (bad) return false;
        std::string expect = conv ? (t == TObj ? show(s.value + 1000) : show(s.value + 5000)) : s.as(t);
        VT_EQ(seen, expect, name);
        if (child && t <= TMoveOnly) VT_CHECK(current(s) != before, name << " copied instead of moving");
        return child;
    }
    }
}

// Pinned can't be received by value by the caller either.
template<> bool castTo<Pinned>(Src& s, unsigned kind)
{
    typedef Pinned X;
    const bool child = s.type == TPinned;
    const std::string before = current(s);
    const void* got = nullptr;
    if (kind == 0) {
        bool bad = raises([&] { X& r = cast<X&>(s.v); got = &r; });
        VT_EQ(!bad, child && !s.isConst && s.ref == RefType::LValue, "cast<Pinned&>");
        if (!bad) VT_EQ(got, s.addr, "cast<Pinned&>");
    }
    else {
        bool bad = raises([&] { const X& r = cast<const X&>(s.v); got = &r; });
        VT_EQ(!bad, child, "cast<const Pinned&>");
        if (!bad) VT_EQ(got, s.addr, "cast<const Pinned&>");
    }
    VT_EQ(current(s), before, "cast to Pinned changed the object");
    return false;
}
template<> bool castTo<CopyOnly>(Src& s, unsigned kind)
{
    typedef CopyOnly X;
    const bool child = s.type == TCopyOnly;
    const std::string before = current(s);
    const void* got = nullptr;
    if (kind == 0) {
        bool bad = raises([&] { X& r = cast<X&>(s.v); got = &r; });
        VT_EQ(!bad, child && !s.isConst && s.ref == RefType::LValue, "cast<CopyOnly&>");
        if (!bad) VT_EQ(got, s.addr, "cast<CopyOnly&>");
    }
    else {
        bool bad = raises([&] { const X& r = cast<const X&>(s.v); got = &r; });
        VT_EQ(!bad, child, "cast<const CopyOnly&>");
        if (!bad) VT_EQ(got, s.addr, "cast<const CopyOnly&>");
    }
    VT_EQ(current(s), before, "cast to CopyOnly changed the object");
    return false;
}

template<typename X>
void door(vt::Gen& g, Src& s, X& obj)
{
    s.type = Tag<X>::tag; s.isConst = false; s.ref = RefType::LValue; s.stored = false; s.addr = &obj;
    if (g.coin()) { s.v = Value(const_cast<const X&>(obj)); s.isConst = true; }
    else s.v = Value(obj);
}
template<typename X>
void stored(Src& s, X&& obj)
{
    s.type = Tag<X>::tag; s.isConst = false; s.ref = RefType::LValue; s.stored = true;
    s.v = Value(std::move(obj)); s.addr = s.v.value();
}

} // namespace

VT_PROP(cast_table, 120000, 3000000, "a cast between different types, or to a reference of a const or rvalue source")
{
    life().clear();
    {
        int value = 1 + int(c.g.draw(1000));
        Obj obj(value); Base base(value); Derived derived(value); Leaf leaf(value); Other other(value); Conv conv(value);
        MoveOnly moveOnly(value); Pinned pinned(value); CopyOnly copyOnly(value); int i = value; std::string str = "s" + std::to_string(value);
        Obj* pobj = &obj; Base* pbase = &base; Derived* pderived = &derived; Leaf* pleaf = &leaf;
        Src s; s.value = value; s.ptr = nullptr;
        bool st = c.g.chance(1, 3);
        T t = T(c.g.draw(NTypes - 1));
        switch (t) {
        case TObj: if (st) stored(s, Obj(value)); else door(c.g, s, obj); break;
        case TBase: if (st) stored(s, Base(value)); else door(c.g, s, base); break;
        case TDerived: if (st) stored(s, Derived(value)); else door(c.g, s, derived); break;
        case TLeaf: if (st) stored(s, Leaf(value)); else door(c.g, s, leaf); break;
        case TOther: if (st) stored(s, Other(value)); else door(c.g, s, other); break;
        case TConv: if (st) stored(s, Conv(value)); else door(c.g, s, conv); break;
        case TMoveOnly: if (st) stored(s, MoveOnly(value)); else door(c.g, s, moveOnly); break;
        case TPinned: st = false; door(c.g, s, pinned); break;
        case TCopyOnly: st = false; door(c.g, s, copyOnly); break;
        case TInt: if (st) stored(s, int(value)); else door(c.g, s, i); break;
        case TStr: if (st) stored(s, std::string(str)); else door(c.g, s, str); break;
        case TPObj: s.ptr = pobj; if (st) stored(s, (Obj*)pobj); else door(c.g, s, pobj); break;
        case TPBase: s.ptr = pbase; if (st) stored(s, (Base*)pbase); else door(c.g, s, pbase); break;
        case TPDerived: s.ptr = pderived; if (st) stored(s, (Derived*)pderived); else door(c.g, s, pderived); break;
        case TPLeaf: s.ptr = pleaf; if (st) stored(s, (Leaf*)pleaf); else door(c.g, s, pleaf); break;
        default: s.type = TVoid; s.addr = nullptr; s.isConst = false; s.ref = RefType::Copy; s.stored = false; break;
        }
        if (s.type != TVoid) switch (c.g.draw(5)) {
            case 3: s.v = s.v.toConst(); s.isConst = true; s.ref = RefType::RValue; break;
            case 4: s.v = s.v.rvalue(); s.ref = RefType::RValue; break;
            case 5: { Value w(s.v); Value x; x = w; s.v = x; break; }
            default: break;
        }
        VT_LOG((s.stored ? "stored " : "") << s.v.argument().print() << " " << value << ":");

        bool consumed = false;
        do {
            T to = T(c.g.draw(NTypes - 2)); unsigned kind = c.g.draw(3);
            VT_LOG(" " << names[to] << (kind == 0 ? "&" : kind == 1 ? " const&" : kind == 2 ? "" : "&&"));
            c.nontrivial(to != s.type || s.isConst || s.ref != RefType::LValue);
            c.label(childOf(s.type, to) ? (s.type == to ? "same type" : "to parent") : converts(s.type, to) ? "converter" : "unrelated");
            switch (to) {
            case TObj: consumed = castTo<Obj>(s, kind); break;
            case TBase: consumed = castTo<Base>(s, kind); break;
            case TDerived: consumed = castTo<Derived>(s, kind); break;
            case TLeaf: consumed = castTo<Leaf>(s, kind); break;
            case TOther: consumed = castTo<Other>(s, kind); break;
            case TConv: consumed = castTo<Conv>(s, kind); break;
            case TMoveOnly: consumed = castTo<MoveOnly>(s, kind); break;
            case TPinned: consumed = castTo<Pinned>(s, kind); break;
            case TCopyOnly: consumed = castTo<CopyOnly>(s, kind); break;
            case TInt: consumed = castTo<int>(s, kind); break;
            case TStr: consumed = castTo<std::string>(s, kind); break;
            case TPObj: consumed = castTo<Obj*>(s, kind); break;
            case TPBase: consumed = castTo<Base*>(s, kind); break;
            case TPDerived: consumed = castTo<Derived*>(s, kind); break;
            default: consumed = castTo<Leaf*>(s, kind); break;
            }
            zoo::check("cast");
        } while (!consumed && c.g.more(4));
    }
    zoo::check("at the end");
    VT_EQ(life().live.size(), size_t(0), liveSummary());
}

// cast<> of raw C++ values: identity, parent views, implicit conversions, wrapping into a Value.
VT_PROP(raw_casts, 20000, 200000, "always")
{
    life().clear();
    {
        int value = int(c.g.range(-100000, 100000));
        VT_LOG(value); c.nontrivial();
        Leaf leaf(value); Derived derived(value); Obj obj(value); const Obj cobj(value);
        VT_EQ((void*)&cast<Base&>(leaf), (void*)&leaf, "cast<Base&>(Leaf)");
        VT_EQ((void*)&cast<const Base&>(derived), (void*)&derived, "cast<const Base&>(Derived)");
        VT_EQ((void*)&cast<Obj&>(obj), (void*)&obj, "cast<Obj&>(Obj)");
        VT_EQ((const void*)&cast<const Obj&>(cobj), (const void*)&cobj, "cast<const Obj&>(const Obj)");
        VT_EQ(cast<Base>(leaf).get(), value, "cast<Base>(Leaf)");
        VT_EQ(cast<Obj>(obj).get(), value, "cast<Obj>(Obj)");
        VT_EQ(cast<Obj>(Obj(value)).get(), value, "cast<Obj>(temporary)");
        VT_EQ(cast<Obj>(cobj).get(), value, "cast<Obj>(const)");
        VT_EQ(cast<long>(value), long(value), "cast<long>(int)");
        VT_EQ(cast<double>(value), double(value), "cast<double>(int)");
        VT_EQ(cast<Base*>(&leaf), static_cast<Base*>(&leaf), "cast<Base*>(Leaf*)");
        VT_EQ(cast<MoveOnly>(MoveOnly(value)).get(), value, "cast<MoveOnly>(temporary)");
        VT_CHECK(isCastable<Obj>(obj) && isCastable<Obj&>(obj) && isCastable<Value>(obj), "isCastable of raw values");

        Value v = cast<Value>(obj);
        VT_EQ(v.value(), (void*)&obj, "cast<Value>(lvalue)"); VT_CHECK(!v.isStored() && !v.isConst(), "");
        Value cv = cast<Value>(cobj);
        VT_EQ(cv.value(), (void*)&cobj, "cast<Value>(const lvalue)"); VT_CHECK(!cv.isStored() && cv.isConst(), "");
        Value sv = cast<Value>(Obj(value));
        VT_CHECK(sv.isStored(), "cast<Value>(temporary)"); VT_EQ(sv.get<Obj>().get(), value, "");
        Value& same = cast<Value>(v); VT_EQ((void*)&same, (void*)&v, "cast<Value>(Value)");
        const Value& csv = sv; const Value& same2 = cast<Value>(csv); VT_EQ((void*)&same2, (void*)&sv, "cast<Value>(const Value)");
        const void* p = sv.value();
        Value moved = cast<Value>(std::move(sv)); VT_EQ(moved.value(), p, "cast<Value>(Value&&)"); VT_CHECK(moved.isStored(), "");
        // and back
        cast<Obj&>(v).set(value + 1); VT_EQ(obj.get(), value + 1, "");
        Conv conv(value);
        Value kv(conv);
        VT_EQ(cast<Obj>(kv).get(), value + 1000, "converter"); VT_EQ(cast<int>(kv), value + 5000, "converter");
        VT_EQ(kv.convert<Obj>(type<Obj>()).get(), value + 1000, "convert()");
        VT_EQ(kv.convert<Value>(type<int>()).get<int>(), value + 5000, "convert()");
        VT_CHECK(raises([&] { kv.convert<Value>(type<Base>()); }), "convert() without converter");
        VT_EQ(conv.get(), value, "converting changed the source");
    }
    zoo::check("at the end"); VT_EQ(life().live.size(), size_t(0), liveSummary());
}

namespace {
int takeAnimal(p06::Animal a) { return a.x; }
int takeGrand(p06::Grand a) { return a.n; }
int seeAnimal(const p06::Animal& a) { return a.x; }
int refGrand(p06::Grand& a) { return a.n; }
int takeInt(int i) { return i; }
}

// Casting a child whose class can also be converted to its parents.
VT_PROP(related_and_convertible, 20000, 400000, "always")
{
    using namespace p06;
    int n = int(c.g.range(-1000, 1000));
    Cat cat(n); const Cat ccat(n);
    Value v;
    unsigned door = c.g.draw(3);
    switch (door) {
    case 0: v = Value(cat); break;
    case 1: v = Value(ccat); break;
    case 2: v = Value(Cat(n)); break;
    default: v = Value(Cat(n)).rvalue(); break;
    }
    c.nontrivial();
    static const Function fTakeAnimal("f", &takeAnimal), fTakeGrand("f", &takeGrand), fSeeAnimal("f", &seeAnimal), fRefGrand("f", &refGrand), fTakeInt("f", &takeInt);
    unsigned what = c.g.draw(10);
    VT_LOG(n << " door " << door << " cast " << what);
    switch (what) {
    case 0: VT_EQ(cast<Animal>(v).x, n + 1, "a copy of the parent"); VT_EQ(cast<Animal>(v).n, n, "a copy of the parent"); break;
    case 1: VT_EQ(cast<Grand>(v).n, n, "a copy of the grand-parent"); break;
    case 2: VT_EQ(&cast<const Animal&>(v), (const Animal*)v.value(), "the parent itself"); break;
    case 3: VT_EQ(&cast<const Grand&>(v), (const Grand*)v.value(), "the grand-parent itself"); break;
    case 4: VT_EQ(cast<int>(v), n + 300000, "the converter"); break;
    case 5: VT_EQ(fTakeAnimal.call<int>(v), n + 1, "by value to a function"); break;
    case 6: VT_EQ(fTakeGrand.call<int>(v), n, "by value to a function"); break;
    case 7: VT_EQ(fSeeAnimal.call<int>(v), n + 1, "by reference to a function"); break;
    case 8: if (door == 0) VT_EQ(fRefGrand.call<int>(v), n, "by reference to a function"); break;
    case 9: VT_EQ(fTakeInt.call<int>(v), n + 300000, "the converter by value to a function"); break;
    default:
        if (door == 1) break;       // see known_findings, cast_rvalue_const of P05
        VT_EQ(cast<Animal&&>(v.rvalue()).x, n + 1, "the parent, moved"); break;
    }
    VT_EQ(cat.n, n, "the source"); VT_EQ(ccat.n, n, "the source");
}

// Converters that give references to parts of the source: what is made of them is a copy, so nothing that is
// done to it reaches the source.  Fixed: moving from such a conversion emptied the source, even a const one.
VT_PROP(converters_to_parts, 20000, 400000, "the target is a T&&")
{
    using namespace p06;
    life().clear();
    {
        int n = int(c.g.draw(90));
        Whole w(n); const Whole k(n); Value v, raw; unsigned door = unsigned(c.g.draw(5));
        switch (door) {
        case 0: v = Value(w); break;
        case 1: v = Value(k); break;
        case 2: v = Value(Whole(n)); break;
        case 3: v = Value(Whole(n)).rvalue(); break;
        case 4: v = Value(w).rvalue(); break;
        default: v = Value(w).toConst(); break;
        }
        unsigned what = unsigned(c.g.draw(8)), how = unsigned(c.g.draw(2));
        c.nontrivial(what == 1 || what == 3 || what == 5); c.label("target " + std::to_string(what)); c.label(v.isConst() ? "const" : "non-const");
        VT_LOG(n << " door " << door << " target " << what << " how " << how);
        bool isConst = v.isConst();
        std::string text(size_t(20 + n % 20), char('a' + n % 26)), before = w.show();
        auto changed = [] (Obj& o) { int r = o.get(); o.set(-1); return r; };
        static const Function copyObj("f", [] (Obj o) { int r = o.get(); o.set(-1); return r; }), moveObj("f", [] (Obj&& o) { Obj t(std::move(o)); int r = t.get(); t.set(-1); return r; }),
            refObj("f", [] (Obj& o) { o.set(-1); return 0; }), seeObj("f", [] (const Obj& o) { return o.get(); }),
            copyStr("f", [] (std::string s) { std::string r = s; s[0] = '!'; return r; }), moveStr("f", [] (std::string&& s) { return std::string(std::move(s)); }),
            copyDer("f", [] (Derived d) { int r = d.get(); d.set(-1); return r; }), moveDer("f", [] (Derived&& d) { Derived t(std::move(d)); int r = t.get(); t.set(-1); return r; });
        switch (what) {
        case 0: VT_EQ(how ? copyObj.call<int>(v) : [&] { Obj o = cast<Obj>(v); return changed(o); }(), n, "a copy"); break;
        case 1:
            if (how == 2) { if (v.refType() == RefType::RValue) VT_EQ(moveObj.call<int>(v), n, "moved to a function"); else VT_EQ(moveObj.call<int>(k), n, "moved to a function"); }
            else VT_EQ([&] { Obj o = cast<Obj&&>(v); return changed(o); }(), n, "a cast to an r-value");
            break;
        case 2: VT_EQ(how ? copyStr.call<std::string>(v) : cast<std::string>(v), text, "a copy"); break;
        case 3:
            if (how == 2) VT_EQ(moveStr.call<std::string>(k), text, "moved to a function");
            else if (how) VT_EQ(moveStr.call<std::string>(v), text, "moved to a function");
            else { std::string t = cast<std::string&&>(v); VT_EQ(t, text, "a cast to an r-value"); }
            break;
        case 4: case 5:
            if (isConst || v.refType() == RefType::RValue) VT_CHECK(raises([&] { if (what == 4) copyDer.call<int>(v); else moveDer.call<int>(v); }), "a converter that isn't const");
            else if (what == 4) VT_EQ(how ? copyDer.call<int>(v) : cast<Derived>(v).get(), n + 3, "a copy");
            else VT_EQ(how ? moveDer.call<int>(v) : Derived(cast<Derived&&>(v)).get(), n + 3, "moved");
            break;
        case 6: VT_CHECK(raises([&] { refObj.call<int>(v); }), "a reference to a conversion"); break;
        case 7: VT_CHECK(raises([&] { seeObj.call<int>(v); }), "a const reference to a conversion"); break;
        default: { const Obj& o = v.convert<const Obj&>(type<Obj>()); VT_CHECK((const void*)&o == &static_cast<const Whole*>(v.value())->part, "the part itself"); }
        }
        VT_EQ(w.show(), before, "the source"); VT_EQ(k.show(), before, "the const source"); VT_EQ(v.get<Whole>().show(), before, "what the Value refers to");
        // and once more
        VT_EQ(cast<Obj>(v).get(), n, "converted again"); VT_EQ(cast<std::string>(v), text, "converted again");
    }
    zoo::check("at the end"); VT_EQ(life().live.size(), size_t(0), liveSummary());
}
