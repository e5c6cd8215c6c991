/* rules.h - the conversion rules of calls, restated over a closed set of types (P02, P03). */
#pragma once

#include "zoo.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/vector.h"

using namespace reflect;
using namespace zoo;

namespace {

/* ------------------------------------------------------------------ the rules */

struct TypeInfo { const char* name; const Type* type; int chain, depth; };   // chain: family of related types, -1 alone

enum T { TVoid, TValue, TInt, TBool, TStr, TObj, TBase, TDerived, TLeaf, TOther, TConv, TMoveOnly, TCopyOnly, TPinned,
    TPObj, TPBase, TPDerived, TPLeaf, TPConv, TPPBase, TPPLeaf, TSBase, TSLeaf, TUBase, TULeaf, TVec, TSPLeaf, TSPBase, NT };

const std::vector<TypeInfo>& infos()
{
    static const std::vector<TypeInfo> v = {
        {"void", type<void>(), -1, 0}, {"Value", type<Value>(), -1, 0}, {"int", type<int>(), -1, 0}, {"bool", type<bool>(), -1, 0}, {"string", type<std::string>(), -1, 0},
        {"Obj", type<Obj>(), -1, 0}, {"Base", type<Base>(), 1, 0}, {"Derived", type<Derived>(), 1, 1}, {"Leaf", type<Leaf>(), 1, 2}, {"Other", type<Other>(), -1, 0},
        {"Conv", type<Conv>(), -1, 0}, {"MoveOnly", type<MoveOnly>(), -1, 0}, {"CopyOnly", type<CopyOnly>(), -1, 0}, {"Pinned", type<Pinned>(), -1, 0},
        {"Obj*", type<Obj*>(), -1, 0}, {"Base*", type<Base*>(), 2, 0}, {"Derived*", type<Derived*>(), 2, 1}, {"Leaf*", type<Leaf*>(), 2, 2}, {"Conv*", type<Conv*>(), -1, 0},
        {"Base**", type<Base**>(), 3, 0}, {"Leaf**", type<Leaf**>(), 3, 2}, {"shared<Base>", type<std::shared_ptr<Base>>(), 4, 0}, {"shared<Leaf>", type<std::shared_ptr<Leaf>>(), 4, 2},
        {"unique<Base>", type<std::unique_ptr<Base>>(), 5, 0}, {"unique<Leaf>", type<std::unique_ptr<Leaf>>(), 5, 2}, {"vector<Leaf>", type<std::vector<Leaf>>(), -1, 0},
        {"shared<Leaf*>", type<std::shared_ptr<Leaf*>>(), 6, 2}, {"shared<Base*>", type<std::shared_ptr<Base*>>(), 6, 0} };
    return v;
}
bool isPtr(T t) { return t >= TPObj && t != TVec; }
bool parentOf(T p, T c)
{
    if (p == c) return true;
    const TypeInfo& a = infos()[p]; const TypeInfo& b = infos()[c];
    return a.chain >= 0 && a.chain == b.chain && a.depth < b.depth;
}
bool converter(T from, T to) { return (from == TConv && (to == TObj || to == TInt)) || (isPtr(from) && to == TBool); }

enum R { Copy, LRef, RRef };
struct Arg { T t; R r; bool c; bool operator==(const Arg& o) const { return t == o.t && r == o.r && c == o.c; } };
enum M { None, Partial, Exact };
const char* mNames[] = { "None", "Partial", "Exact" };

M convertible(const Arg& from, const Arg& to)
{
    if (from == to) return Exact;
    if ((from.t == TValue) != (to.t == TValue)) return Exact;
    if (converter(from.t, to.t)) return to.r == LRef ? None : Partial;
    if (!parentOf(to.t, from.t)) return None;
    switch (to.r) {
    case Copy:                       // anything can be copied from, a temporary perfectly
        if (from.r == RRef) return Exact;
        return from.r == Copy && from.c == to.c ? Exact : Partial;
    case LRef:
        if (to.c) return from.c && from.r == LRef ? Exact : Partial;
        return !from.c && from.r == LRef ? Exact : None;
    default:
        if (from.r != RRef || (from.c && !to.c)) return None;
        return from.c == to.c ? Exact : Partial;
    }
}
M returns(const Arg& asked, const Arg& given)
{
    if (asked.t == TVoid) return Exact;
    if (given.t == TVoid) return asked.t == TValue && asked.r != LRef ? Exact : None;
    if (convertible(given, asked) == None) return None;
    if (given.r != LRef && asked.r == LRef && asked.c) return None;      // no temporary is bound to a const reference
    return Exact;
}
M matches(const Arg& askedRet, const std::vector<Arg>& passed, const Arg& ret, const std::vector<Arg>& params)
{
    M m = returns(askedRet, ret);
    if (passed.size() != params.size()) return None;
    for (size_t i = 0; i < params.size(); ++i) m = std::min(m, convertible(passed[i], params[i]));
    return m;
}
M of(Match m) { return m == Match::None ? None : m == Match::Partial ? Partial : Exact; }

Argument lib(const Arg& a) { return Argument(infos()[a.t].type, a.r == Copy ? RefType::Copy : a.r == LRef ? RefType::LValue : RefType::RValue, a.c); }
std::string show(const Arg& a) { return std::string(infos()[a.t].name) + (a.c ? " const" : "") + (a.r == LRef ? "&" : a.r == RRef ? "&&" : ""); }
std::string show(const Arg& ret, const std::vector<Arg>& args)
{
    std::string s = show(ret) + "(";
    for (size_t i = 0; i < args.size(); ++i) s += (i ? ", " : "") + show(args[i]);
    return s + ")";
}

T related(vt::Gen& g, T t)       // a type that has some relation to t, most of the time
{
    switch (g.draw(3)) {
    case 0: return t;
    case 1: {
        std::vector<T> fam;
        for (int i = 0; i < NT; ++i) if (parentOf(T(i), t) || parentOf(t, T(i)) || converter(T(i), t) || converter(t, T(i))) fam.push_back(T(i));
        return g.pick(fam);
    }
    case 2: return T(g.draw(NT - 1));
    default: return g.oneOf({ t, TValue, TBase, TDerived });
    }
}
Arg genArg(vt::Gen& g, T t) { return Arg{ t, R(g.draw(2)), g.coin() }; }

template<typename X> struct TagOf;
#define TAG(X, t) template<> struct TagOf<X> { static const T tag = t; };
TAG(void, TVoid) TAG(Value, TValue) TAG(int, TInt) TAG(bool, TBool) TAG(std::string, TStr) TAG(Obj, TObj) TAG(Base, TBase) TAG(Derived, TDerived) TAG(Leaf, TLeaf)
TAG(Other, TOther) TAG(Conv, TConv) TAG(MoveOnly, TMoveOnly) TAG(CopyOnly, TCopyOnly) TAG(Pinned, TPinned) TAG(Obj*, TPObj) TAG(Base*, TPBase) TAG(Derived*, TPDerived) TAG(Leaf*, TPLeaf)

template<typename P> Arg argOf()
{
    typedef typename std::remove_reference<P>::type NR;
    return Arg{ TagOf<typename std::remove_const<NR>::type>::tag, std::is_lvalue_reference<P>::value ? LRef : std::is_rvalue_reference<P>::value ? RRef : Copy, std::is_const<NR>::value };
}

/* ------------------------------------------------------------------ values to pass */

struct Passed { Value v, hold; Arg arg; void* addr; };

struct World
{
    int i; bool b; std::string s; Obj obj; Base base; Derived derived; Leaf leaf; Other other; Conv conv; MoveOnly moveOnly; CopyOnly copyOnly; Pinned pinned;
    Obj* pobj; Base* pbase; Derived* pderived; Leaf* pleaf;
    World(int n) : i(n), b(true), s("s" + std::to_string(n)), obj(n), base(n), derived(n), leaf(n), other(n), conv(n), moveOnly(n), copyOnly(n), pinned(n),
        pobj(&obj), pbase(&base), pderived(&derived), pleaf(&leaf) {}
    std::string show() const
    {
        std::ostringstream ss;
        ss << i << b << s << "," << obj.get() << "," << base.get() << "," << derived.get() << derived.getD() << "," << leaf.get() << leaf.getD() << leaf.getL() << "," << other.get() << ","
           << conv.get() << "," << moveOnly.get() << "," << copyOnly.get() << "," << pinned.get() << "," << (pobj == &obj) << (pbase == &base) << (pderived == &derived) << (pleaf == &leaf);
        return ss.str();
    }
};

template<typename X> void door(vt::Gen& g, Passed& p, X& x, T t)
{
    p.arg.t = t; p.arg.r = LRef; p.arg.c = false; p.addr = &x;
    switch (g.draw(4)) {
    case 0: p.v = Value(x); break;
    case 1: p.v = Value(const_cast<const X&>(x)); p.arg.c = true; break;
    case 2: p.v = Value(x).rvalue(); p.arg.r = RRef; break;
    case 3: p.v = Value(x).toConst(); p.arg.r = RRef; p.arg.c = true; break;
    default: p.v = Value(const_cast<const X&>(x)).rvalue(); p.arg.r = RRef; p.arg.c = true; break;
    }
}

void genPassed(vt::Gen& g, World& w, T t, Passed& p)
{
    switch (t) {
    case TInt: door(g, p, w.i, t); break; case TBool: door(g, p, w.b, t); break; case TStr: door(g, p, w.s, t); break;
    case TObj: door(g, p, w.obj, t); break; case TBase: door(g, p, w.base, t); break; case TDerived: door(g, p, w.derived, t); break; case TLeaf: door(g, p, w.leaf, t); break;
    case TOther: door(g, p, w.other, t); break; case TConv: door(g, p, w.conv, t); break; case TMoveOnly: door(g, p, w.moveOnly, t); break; case TCopyOnly: door(g, p, w.copyOnly, t); break;
    case TPinned: door(g, p, w.pinned, t); break; case TPObj: door(g, p, w.pobj, t); break; case TPBase: door(g, p, w.pbase, t); break; case TPDerived: door(g, p, w.pderived, t); break;
    case TPLeaf: door(g, p, w.pleaf, t); break;
    default: p.v = Value(); p.arg = Arg{ TVoid, Copy, false }; p.addr = nullptr; break;
    }
}

} // namespace
