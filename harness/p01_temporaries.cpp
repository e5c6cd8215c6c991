// P01, temporaries: functions whose result refers to one of their arguments, called with temporaries. As in
// C++, the temporary lives for as long as the call: what it gives can be copied out of it.
#define VT_NO_MAIN
#define ZOO_NO_IMPL
#include "zoo.h"
#include "types/primitives.h"
#include "types/std/string.h"

#include <functional>

using namespace reflect;
using namespace zoo;

namespace p01t {

long seen(int x) { return x; }
long seen(const std::string& s) { return long(s.size()) * 1000 + (s.empty() ? 0 : s.back()); }
long seen(const Obj& o) { return o.get(); }
long seen(const Derived& d) { return d.get() * 1000L + d.getD(); }
long seen(const Base& b) { return b.get() * 1000L; }

template<typename T> T make(int i) { return T(i); }
template<> std::string make<std::string>(int i) { return std::string(size_t(i), char('a' + i % 26)); }

// Gives the which'th of its arguments, or what it refers to itself.
template<typename T> struct Pick { int which; const T& operator()(const T& a, const T& b) const { return which ? b : a; } };
template<typename T> struct Pass { T&& operator()(T&& a) const { return std::move(a); } };
template<typename T> struct Same { T& operator()(T& a) const { return a; } };
template<typename T> struct Whole { Value operator()(const T& a, const T&) const { return Value(a); } };

template<typename T, typename Fn> void passed(int how, T& x, Fn&& fn)
{
    switch (how) {
    case 0: fn(T(x)); break;
    case 1: fn(Value(T(x))); break;
    default: fn(const_cast<const T&>(x)); break;
    }
}

template<typename Ret, typename T> void ask(vt::Case& c, const char* what)
{
    int ha = int(c.g.draw(2)), hb = int(c.g.draw(2)), which = int(c.g.draw(1)), via = int(c.g.draw(3)), na = int(c.g.draw(40)), nb = int(c.g.draw(40));
    static const char* hows[] = { "temporary", "Value", "lvalue" }; static const char* vias[] = { "Function", "Overloads", "Type", "Scope" };
    VT_LOG(what << " by " << vias[via] << " of " << hows[ha] << " " << na << ", " << hows[hb] << " " << nb << " picks " << which);
    c.nontrivial((which ? hb : ha) < 2);
    c.label(vias[via]); c.label(hows[which ? hb : ha]);
    T a = make<T>(na), b = make<T>(nb);
    Pick<T> pick{ which };
    long want = seen(Ret(pick(T(a), T(b)))), got = -1;
    Function f("f", pick); Overloads o; o.add(Function("f", pick)); Type t("p01t"); t.addFunction("f", pick); Scope s; s.addFunction("f", pick);
    passed(ha, a, [&] (auto&& x) {
        auto call = [&] (auto&& y) {
            typedef decltype(x) X; typedef decltype(y) Y;
            switch (via) {
            case 0: got = seen(f.call<Ret>(std::forward<X>(x), std::forward<Y>(y))); break;
            case 1: got = seen(o.call<Ret>(std::forward<X>(x), std::forward<Y>(y))); break;
            case 2: got = seen(t.call<Ret>("f", std::forward<X>(x), std::forward<Y>(y))); break;
            default: got = seen(s.call<Ret>("f", std::forward<X>(x), std::forward<Y>(y))); break;
            }
        };
        if (hb) passed(1, b, call); else passed(0, b, call);
    });
    VT_EQ(got, want, "the result");
    VT_EQ(seen(a), seen(make<T>(na)), "the first argument"); VT_EQ(seen(b), seen(make<T>(nb)), "the second argument");
    // moved through, and back from a reference
    if (c.g.coin()) {
        Function g("g", Pass<T>{}); VT_EQ(seen(g.call<T>(T(a))), seen(a), "what was passed through");
        Function h("h", Same<T>{}); VT_EQ(seen(h.call<T>(a)), seen(a), "a copy of what was passed"); VT_CHECK(&h.call<T&>(a) == &a, "what was passed");
        Function w("w", Whole<T>{}); VT_EQ(seen(w.call<T>(T(a), T(b))), seen(a), "what a Value refers to");
    }
}

} // namespace p01t

VT_PROP(temporaries, 20000, 500000, "the result refers to a temporary")
{
    using namespace p01t;
    life().clear();
    switch (c.g.draw(4)) {
    case 0: ask<int, int>(c, "int"); break;
    case 1: ask<std::string, std::string>(c, "string"); break;
    case 2: ask<Obj, Obj>(c, "Obj"); break;
    case 3: ask<Derived, Derived>(c, "Derived"); break;
    default: ask<Base, Derived>(c, "Base from Derived"); break;
    }
    zoo::check("at the end");
    VT_EQ(life().left(), 0u, "objects that are alive at the end");
}

namespace {
const std::string& longer(const std::string& a, const std::string& b) { return a.size() > b.size() ? a : b; }
Obj&& through(Obj&& o) { return std::move(o); }
const Obj& bind(Obj&& o) { return o; }
}

// Fixed: 892fad6, 4bfd651.
VT_EXAMPLE(results_of_temporaries)
{
    Function f("longer", &longer);
    VT_EQ(f.call<std::string>(std::string("short"), std::string(100, 'x')), std::string(100, 'x'), "a copy of a temporary");
    Function g("through", &through);
    VT_EQ(g.call<Obj>(Obj(7)).get(), 7, "a temporary that is passed through");
}

VT_KNOWN(rvalue_bound_to_const)
{
    Function f("bind", &bind);
    VT_EQ(f.call<Obj>(Obj(7)).get(), 7, "a const reference to a parameter of type T&& is dead when it is copied");
}
