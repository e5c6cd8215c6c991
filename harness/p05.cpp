// P05 - No object is modified through a const path.
//
// A case builds an object graph, enters reflection through a const or non-const door, walks a random
// chain of field / element / pointee / accessor steps while a model tracks constness and address, and
// at every stop tries mutations and reads. Constness oracle: the C++ const rules of that chain.
#include "zoo.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/pointer.h"

using namespace reflect;
using namespace zoo;

namespace p05 {

struct In
{
    Obj o; int i; std::string s; std::vector<int> vec; std::map<std::string, int> m; int* p;
    In() : i(1), s("in"), vec({1, 2, 3}), p(nullptr) { m["k"] = 4; }
};
struct Out
{
    In in; const In cin; const int ci; Obj o; const Obj co; std::vector<Obj> objs; std::shared_ptr<Obj> sp; Obj* rp;
    Out() : ci(7), o(8), co(9), rp(nullptr) { objs.emplace_back(10); objs.emplace_back(11); sp.reset(new Obj(12)); }
    const In& getIn() const { return in; }
    In& mutIn() { return in; }
};
struct Child : public Out { int extra; Obj o2; Child() : extra(20), o2(21) {} };

int pointee; Obj* objPointee;

std::string snap(const In& x)
{
    std::ostringstream s;
    s << x.o.get() << "," << x.i << "," << x.s << ",[";
    for (int v : x.vec) s << v << " ";
    s << "],{"; for (auto& v : x.m) s << v.first << "=" << v.second << " ";
    s << "}," << (const void*)x.p << ":" << (x.p ? *x.p : 0);
    return s.str();
}
std::string snap(const Out& x)
{
    std::ostringstream s;
    s << snap(x.in) << "|" << snap(x.cin) << "|" << x.ci << "|" << x.o.get() << "|" << x.co.get() << "|";
    for (auto& o : x.objs) s << o.get() << " ";
    s << "|" << (const void*)x.sp.get() << ":" << (x.sp ? x.sp->get() : 0) << "|" << (const void*)x.rp << ":" << (x.rp ? x.rp->get() : 0);
    return s.str();
}
std::string snap(const Child& x) { return snap(static_cast<const Out&>(x)) + "|" + std::to_string(x.extra) + "|" + std::to_string(x.o2.get()); }

} // namespace p05

reflectType(p05::In)
{
    reflectPlumbing();
    reflectField(o); reflectField(i); reflectField(s); reflectField(vec); reflectField(m); reflectField(p);
}
reflectType(p05::Out)
{
    reflectPlumbing();
    reflectField(in); reflectField(cin); reflectField(ci); reflectField(o); reflectField(co);
    reflectField(objs); reflectField(sp); reflectField(rp);
    reflectFn(getIn); reflectFn(mutIn);
}
reflectType(p05::Child)
{
    reflectParent(p05::Out);
    reflectPlumbing();
    reflectField(extra); reflectField(o2);
}

namespace {

using p05::In; using p05::Out; using p05::Child;

enum Kind { KOut, KChild, KIn, KObj, KInt, KStr, KVInt, KMap, KPInt, KVObj, KSp, KRp };

struct Node { Value v; Kind k; const void* addr; bool isConst; };

long ran;     // bodies of the functions below that ran

struct Fns
{
    Function mod, cref, copy, steal, modInt, crefInt;
    Fns() :
        mod("mod", [] (Obj& o) { ++ran; o.set(-1); }),
        cref("cref", [] (const Obj& o) { ++ran; return o.get(); }),
        copy("copy", [] (Obj o) { ++ran; int v = o.get(); o.set(-2); return v; }),
        steal("steal", [] (Obj&& o) { ++ran; Obj x(std::move(o)); return x.get(); }),
        modInt("modInt", [] (int& i) { ++ran; i = -3; }),
        crefInt("crefInt", [] (const int& i) { ++ran; return i; })
    {}
};
Fns& fns() { static Fns f; return f; }

template<typename T>
void reads(const Node& n)
{
    const T& r = cast<const T&>(n.v);
    VT_EQ((const void*)&r, n.addr, "cast<const T&>");
    VT_EQ((const void*)&n.v.get<T>(), n.addr, "get<T>");
    VT_CHECK(isCastable<const T&>(n.v), "isCastable<const T&>");
    VT_EQ(isCastable<T&>(n.v), !n.isConst, "isCastable<T&>");
}

// Casting to a non-const reference: refused through a const path, the object itself otherwise.
template<typename T>
void castRef(const Node& n)
{
    const void* got = nullptr;
    bool bad = raises([&] { T& r = cast<T&>(n.v); got = &r; });
    VT_EQ(bad, n.isConst, "cast<T&> of a " << (n.isConst ? "const" : "mutable") << " " << n.v.argument().print());
    if (!bad) VT_EQ(got, n.addr, "cast<T&>");
}

} // namespace

VT_PROP(const_chains, 60000, 1200000, "at least one mutation attempted on a const object reached in two or more steps")
{
    life().clear();
    {
        // The root belongs to the case, or to a Value.
        std::unique_ptr<Child> holder(new Child()); Value owner;
        bool owned = c.g.chance(1, 3);
        if (owned) { owner = Value(Child(*holder)); VT_LOG("owned "); }
        Child& root = owned ? *static_cast<Child*>(owner.value()) : *holder;
        int pointee = 50; Obj objPointee(60);
        root.in.p = &pointee; const_cast<In&>(root.cin).p = &pointee; root.rp = &objPointee;
        root.in.i = int(c.g.small()); root.o.set(int(c.g.small()));

        Node n; n.addr = &root;
        std::unique_ptr<Child> keep;     // copy whose Value is stored
        if (owned && c.g.coin()) { n.v = owner.toConst(); n.k = KChild; n.isConst = true; VT_LOG("toConst(owner)"); VT_CHECK(n.v.isStored(), "toConst() let go of the object"); }
        else switch (c.g.draw(6)) {
        case 0: n.v = Value(const_cast<const Child&>(root)); n.k = KChild; n.isConst = true; VT_LOG("const Child&"); break;
        case 1: n.v = Value(root); n.k = KChild; n.isConst = false; VT_LOG("Child&"); break;
        case 2: n.v = Value(root).toConst(); n.k = KChild; n.isConst = true; VT_LOG("toConst(Child&)"); break;
        case 3: n.v = Value(static_cast<const Out&>(root)); n.k = KOut; n.isConst = true; n.addr = static_cast<Out*>(&root); VT_LOG("const Out&"); break;
        case 4: n.v = Value(static_cast<Out&>(root)); n.k = KOut; n.isConst = false; n.addr = static_cast<Out*>(&root); VT_LOG("Out&"); break;
        case 5: n.v = Value(root.cin); n.k = KIn; n.isConst = true; n.addr = &root.cin; VT_LOG("const In&"); break;
        default: n.v = Value(root.in); n.k = KIn; n.isConst = false; n.addr = &root.in; VT_LOG("In&"); break;
        }
        auto snapshot = [&] { return p05::snap(root) + "#" + std::to_string(pointee) + "," + std::to_string(objPointee.get()); };

        int depth = 0; bool attempted = false;
        // A mutation that must be refused through a const path, and leave everything as it was.
        auto mutate = [&] (const char* what, const std::function<void()>& fn) {
            VT_LOG(" !" << what);
            if (!n.isConst) return false;
            if (depth >= 2) attempted = true;
            std::string before = snapshot(); long r = ran;
            bool bad = raises(fn);
            std::string after = snapshot();
            VT_EQ(after, before, what << " changed an object through a const path");
            VT_CHECK(bad, what << " accepted on " << n.v.argument().print());
            VT_EQ(ran, r, what << " ran the function");
            return true;
        };

        int steps = 0;
        do {
            VT_EQ(n.v.isConst(), n.isConst, "constness after " << depth << " steps");
            VT_EQ((const void*)n.v.value(), n.addr, "address");
            Value arg(5); Obj objArg(6); std::string strArg("str"); std::vector<int> vecArg(2, 9); std::map<std::string, int> mapArg;
            unsigned what = c.g.draw(5);
            switch (n.k) {
            case KInt:
                reads<int>(n); castRef<int>(n);
                VT_EQ(cast<int>(n.v), *static_cast<const int*>(n.addr), "copy");
                if (n.isConst) {
                    switch (what) {
                    case 0: mutate("int = raw", [&] { n.v.assign(5); }); break;
                    case 1: mutate("int = Value", [&] { n.v.assign(arg); }); break;
                    case 2: mutate("modInt", [&] { fns().modInt.call<void>(n.v); }); break;
                    case 3: mutate("call<int&> operator=", [&] { n.v.call<int&>("operator=", 5); }); break;
                    case 4: mutate("operator= through Type", [&] { type<int>()->call<void>("operator=", n.v, 5); }); break;
                    default: mutate("modInt on const int&", [&] { fns().modInt.call<void>(*static_cast<const int*>(n.addr)); }); break;
                    }
                    VT_EQ(fns().crefInt.call<int>(n.v), *static_cast<const int*>(n.addr), "const int& parameter");
                }
                else { int x = int(c.g.range(-50, 50)); n.v.assign(x); VT_EQ(*static_cast<const int*>(n.addr), x, "assign"); }
                break;
            case KStr:
                reads<std::string>(n); castRef<std::string>(n);
                VT_EQ(n.v.call<size_t>("size"), static_cast<const std::string*>(n.addr)->size(), "size");
                VT_EQ(cast<std::string>(n.v), *static_cast<const std::string*>(n.addr), "copy");
                if (n.isConst) {
                    if (what & 1) mutate("string = raw", [&] { n.v.assign(strArg); });
                    else mutate("string = temporary", [&] { n.v.assign(std::string("x")); });
                }
                else { n.v.assign(strArg); VT_EQ(*static_cast<const std::string*>(n.addr), strArg, "assign"); }
                break;
            case KObj:
                reads<Obj>(n); castRef<Obj>(n);
                VT_EQ(n.v.call<int>("get"), static_cast<const Obj*>(n.addr)->get(), "get");
                VT_EQ(cast<Obj>(n.v).get(), static_cast<const Obj*>(n.addr)->get(), "copy");
                VT_EQ(n.v.copy().get<Obj>().get(), static_cast<const Obj*>(n.addr)->get(), "copy()");
                if (n.isConst) {
                    switch (c.g.draw(12)) {
                    case 0: mutate("set", [&] { n.v.call<void>("set", 5); }); break;
                    case 1: mutate("mutate", [&] { n.v.call<void>("mutate", 5); }); break;
                    case 2: mutate("obj = lvalue", [&] { n.v.assign(objArg); }); break;
                    case 3: mutate("obj = temporary", [&] { n.v.assign(Obj(4)); }); break;
                    case 4: mutate("obj = Value", [&] { n.v.assign(Value(objArg)); }); break;
                    case 5: mutate("self", [&] { n.v.call<Obj&>("self").set(3); }); break;
                    case 6: mutate("cself as Obj&", [&] { n.v.call<Obj&>("cself").set(3); }); break;
                    case 7: mutate("mod", [&] { fns().mod.call<void>(n.v); }); break;
                    case 8: mutate("steal", [&] { fns().steal.call<int>(n.v); }); break;
                    case 9: mutate("steal rvalue", [&] { fns().steal.call<int>(n.v.rvalue()); }); break;
                    case 10: mutate("mod on const Obj&", [&] { fns().mod.call<void>(*static_cast<const Obj*>(n.addr)); }); break;
                    case 11: mutate("set through Type", [&] { type<Obj>()->call<void>("set", *static_cast<const Obj*>(n.addr), 5); }); break;
                    default: mutate("cself().set", [&] { n.v.call<Value>("cself").call<void>("set", 3); }); break;
                    }
                    std::string before = snapshot();
                    VT_EQ(fns().cref.call<int>(n.v), static_cast<const Obj*>(n.addr)->get(), "const Obj& parameter");
                    VT_EQ(fns().copy.call<int>(n.v), static_cast<const Obj*>(n.addr)->get(), "Obj parameter");
                    Value m = n.v; Value moved = m.move();
                    VT_EQ(moved.get<Obj>().get(), static_cast<const Obj*>(n.addr)->get(), "move() of a const Value");
                    Obj taken = fns().copy.call<int>(n.v.rvalue()) ? Obj(1) : Obj(0);
                    VT_EQ(snapshot(), before, "reading changed something");
                }
                else { int x = int(c.g.range(-50, 50)); n.v.call<void>("set", x); VT_EQ(static_cast<const Obj*>(n.addr)->get(), x, "set"); }
                break;
            case KVInt: {
                typedef std::vector<int> V;
                reads<V>(n); castRef<V>(n);
                VT_EQ(n.v.call<size_t>("size"), static_cast<const V*>(n.addr)->size(), "size");
                if (n.isConst) switch (c.g.draw(6)) {
                    case 0: mutate("push_back", [&] { n.v.call<void>("push_back", 5); }); break;
                    case 1: mutate("clear", [&] { n.v.call<void>("clear"); }); break;
                    case 2: mutate("resize", [&] { n.v.call<void>("resize", size_t(9)); }); break;
                    case 3: mutate("operator[]", [&] { n.v[size_t(0)].assign(5); }); break;
                    case 4: mutate("vector = raw", [&] { n.v.assign(vecArg); }); break;
                    case 5: mutate("at as int&", [&] { n.v.call<int&>("at", size_t(0)) = 3; }); break;
                    default: mutate("push_back Value", [&] { n.v.call<void>("push_back", arg); }); break;
                }
                else { n.v.call<void>("push_back", 5); VT_EQ(static_cast<const V*>(n.addr)->back(), 5, "push_back"); }
                break; }
            case KVObj: {
                typedef std::vector<Obj> V;
                reads<V>(n); castRef<V>(n);
                if (n.isConst) switch (c.g.draw(4)) {
                    case 0: mutate("push_back temporary", [&] { n.v.call<void>("push_back", Obj(5)); }); break;
                    case 1: mutate("push_back", [&] { n.v.call<void>("push_back", objArg); }); break;
                    case 2: mutate("clear", [&] { n.v.call<void>("clear"); }); break;
                    case 3: mutate("operator[]", [&] { n.v[size_t(0)].call<void>("set", 5); }); break;
                    default: mutate("at.set", [&] { n.v.call<Value>("at", size_t(1)).call<void>("set", 4); }); break;
                }
                else { n.v.call<void>("push_back", objArg); VT_EQ(static_cast<const V*>(n.addr)->back().get(), 6, "push_back"); }
                break; }
            case KMap: {
                typedef std::map<std::string, int> M;
                reads<M>(n); castRef<M>(n);
                VT_EQ(n.v.call<size_t>("count", strArg), static_cast<const M*>(n.addr)->count(strArg), "count");
                if (n.isConst) switch (c.g.draw(2)) {
                    case 0: mutate("operator[] insert", [&] { n.v[std::string("new")]; }); break;
                    case 1: mutate("map = raw", [&] { n.v.assign(mapArg); }); break;
                    default: mutate("at as int&", [&] { n.v.call<int&>("at", std::string("k")) = 3; }); break;
                }
                else { n.v[std::string("new")].assign(8); VT_EQ(static_cast<const M*>(n.addr)->at("new"), 8, "operator[]"); }
                break; }
            case KPInt: {
                reads<int*>(n); castRef<int*>(n);
                int other = 0;
                if (n.isConst) switch (c.g.draw(2)) {
                    case 0: mutate("pointer = raw", [&] { n.v.assign(&other); }); break;
                    case 1: mutate("*pointer = 5", [&] { (*n.v).assign(5); }); break;
                    default: mutate("*pointer as int&", [&] { n.v.call<int&>("operator*") = 5; }); break;
                }
                break; }
            case KRp: {
                reads<Obj*>(n); castRef<Obj*>(n);
                if (n.isConst) switch (c.g.draw(2)) {
                    case 0: mutate("pointer = raw", [&] { n.v.assign(&objArg); }); break;
                    case 1: mutate("pointer->set", [&] { (*n.v).call<void>("set", 5); }); break;
                    default: mutate("*pointer as Obj&", [&] { n.v.call<Obj&>("operator*").set(5); }); break;
                }
                break; }
            case KSp: {
                typedef std::shared_ptr<Obj> S;
                reads<S>(n); castRef<S>(n);
                S otherSp;
                if (n.isConst) switch (c.g.draw(2)) {
                    case 0: mutate("reset", [&] { n.v.call<void>("reset"); }); break;
                    case 1: mutate("shared_ptr = raw", [&] { n.v.assign(otherSp); }); break;
                    default: mutate("reset(new)", [&] { std::unique_ptr<Obj> p(new Obj(1)); n.v.call<void>("reset", p.get()); p.release(); }); break;
                }
                break; }
            case KIn: {
                reads<In>(n); castRef<In>(n);
                In other; other.i = 77;
                if (n.isConst) switch (c.g.draw(3)) {
                    case 0: mutate("In = raw", [&] { n.v.assign(other); }); break;
                    case 1: mutate("field = raw", [&] { n.v.field("i").assign(5); }); break;
                    case 2: mutate("field as int&", [&] { n.v.field<int&>("i") = 5; }); break;
                    default: mutate("field.set", [&] { n.v.field("o").call<void>("set", 5); }); break;
                }
                else { n.v.field<int&>("i") = 33; VT_EQ(static_cast<const In*>(n.addr)->i, 33, "field write"); }
                break; }
            case KOut: case KChild: {
                if (n.k == KOut) { reads<Out>(n); castRef<Out>(n); } else { reads<Child>(n); castRef<Child>(n); }
                // the parent's view of a const child is const as well
                bool bad = raises([&] { Out& o = cast<Out&>(n.v); (void) o; });
                VT_EQ(bad, n.isConst, "cast<Out&>");
                (void) cast<const Out&>(n.v);
                if (n.isConst) switch (c.g.draw(2)) {
                    case 0: mutate("mutIn", [&] { n.v.call<In&>("mutIn").i = 3; }); break;
                    case 1: mutate("getIn as In&", [&] { n.v.call<In&>("getIn").i = 3; }); break;
                    default: mutate("field.field", [&] { n.v.field("in").field("i").assign(3); }); break;
                }
                else {
                    // const members stay const in a mutable object
                    for (const char* f : { "ci" }) VT_CHECK(raises([&] { n.v.field(f).assign(1); }), f);
                    VT_CHECK(raises([&] { n.v.field("co").call<void>("set", 1); }), "co.set");
                    VT_CHECK(raises([&] { n.v.field<const In&>("cin"); n.v.field<In&>("cin"); }), "cin");
                    VT_EQ(root.ci, 7, "ci"); VT_EQ(root.co.get(), 9, "co");
                }
                break; }
            }
            zoo::check("");
            if (++steps > 12) break;

            // Next step.
            if (c.g.chance(1, 4)) {
                if (c.g.coin()) { Value t(n.v); Value u; u = t; n.v = u; VT_LOG(" copyValue"); }
                else if (n.isConst && c.g.coin()) { n.v = n.v.rvalue(); VT_LOG(" rvalue"); }
                else { n.v = n.v.toConst(); n.isConst = true; VT_LOG(" toConst"); }
                continue;
            }
            auto to = [&] (const char* name, Kind k, const void* addr, bool isConst, const Value& v) {
                VT_LOG(" ." << name);
                n.v = v; n.k = k; n.addr = addr; n.isConst = isConst; ++depth;
            };
            bool k = n.isConst;
            switch (n.k) {
            case KChild:
                if (c.g.chance(1, 4)) {
                    const Child* x = static_cast<const Child*>(n.addr);
                    if (c.g.coin()) to("extra", KInt, &x->extra, k, n.v.field("extra"));
                    else to("o2", KObj, &x->o2, k, n.v.field("o2"));
                    break;
                }
                // fallthrough to the inherited fields
            case KOut: {
                const Out* x = n.k == KChild ? static_cast<const Out*>(static_cast<const Child*>(n.addr)) : static_cast<const Out*>(n.addr);
                switch (c.g.draw(9)) {
                case 0: to("in", KIn, &x->in, k, n.v.field("in")); break;
                case 1: to("cin", KIn, &x->cin, true, n.v.field("cin")); break;
                case 2: to("ci", KInt, &x->ci, true, n.v.field("ci")); break;
                case 3: to("o", KObj, &x->o, k, n.v.field("o")); break;
                case 4: to("co", KObj, &x->co, true, n.v.field("co")); break;
                case 5: to("objs", KVObj, &x->objs, k, n.v.field("objs")); break;
                case 6: to("sp", KSp, &x->sp, k, n.v.field("sp")); break;
                case 7: to("rp", KRp, &x->rp, k, n.v.field("rp")); break;
                case 8: to("getIn()", KIn, &x->in, true, n.v.call<Value>("getIn")); break;
                default: if (!k) to("mutIn()", KIn, &x->in, false, n.v.call<Value>("mutIn")); break;
                }
                break; }
            case KIn: {
                const In* x = static_cast<const In*>(n.addr);
                switch (c.g.draw(5)) {
                case 0: to("o", KObj, &x->o, k, n.v.field("o")); break;
                case 1: to("i", KInt, &x->i, k, n.v.field("i")); break;
                case 2: to("s", KStr, &x->s, k, n.v.field("s")); break;
                case 3: to("vec", KVInt, &x->vec, k, n.v.field("vec")); break;
                case 4: to("m", KMap, &x->m, k, n.v.field("m")); break;
                default: to("p", KPInt, &x->p, k, n.v.field("p")); break;
                }
                break; }
            case KObj:
                if (c.g.coin()) to("cself()", KObj, n.addr, true, n.v.call<Value>("cself"));
                else if (!k) to("self()", KObj, n.addr, false, n.v.call<Value>("self"));
                break;
            case KVInt: { const std::vector<int>* x = static_cast<const std::vector<int>*>(n.addr);
                if (x->empty()) break;
                size_t i = c.g.below(x->size());
                if (c.g.coin()) to("at()", KInt, &(*x)[i], true, n.v.call<Value>("at", i));
                else if (!k) to("[]", KInt, &(*x)[i], false, n.v[i]);
                break; }
            case KVObj: { const std::vector<Obj>* x = static_cast<const std::vector<Obj>*>(n.addr);
                size_t i = c.g.below(x->size());
                if (c.g.coin()) to("at()", KObj, &(*x)[i], true, n.v.call<Value>("at", i));
                else if (!k) to("[]", KObj, &(*x)[i], false, n.v[i]);
                break; }
            case KMap: { const std::map<std::string, int>* x = static_cast<const std::map<std::string, int>*>(n.addr);
                if (c.g.coin()) to("at()", KInt, &x->at("k"), true, n.v.call<Value>("at", std::string("k")));
                else if (!k) to("[]", KInt, &x->at("k"), false, n.v[std::string("k")]);
                break; }
            case KPInt: to("*", KInt, &pointee, k, *n.v); break;
            case KRp: to("*", KObj, &objPointee, k, *n.v); break;
            case KSp: to("*", KObj, static_cast<const std::shared_ptr<Obj>*>(n.addr)->get(), false, *n.v); break;   // as in C++
            default: break;
            }
        } while (c.g.more(6));
        c.nontrivial(attempted);
        c.label(n.isConst ? "ends const" : "ends mutable"); c.label("depth " + std::to_string(std::min(depth, 6)));
    }
    zoo::check("at the end");
    VT_EQ(life().live.size(), size_t(0), liveSummary());
}

VT_KNOWN(cast_rvalue_const)
{
    const Obj o(5);
    Value v(o);
    try { Obj x = cast<Obj&&>(v); } catch (const reflect::Error&) {}
    VT_EQ(o.get(), 5, "cast<Obj&&> moved the content out of a const object");
}
