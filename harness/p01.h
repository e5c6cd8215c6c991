#pragma once
#ifndef P01_MAIN
#define VT_NO_MAIN
#define ZOO_NO_IMPL
#endif
#include "zoo.h"
#include "types/pointer.h"

namespace p01 {

using namespace zoo;
using reflect::Value;

enum T { TInt, TStr, TObj, TBase, TDerived, TLeaf, TMoveOnly, TCopyOnly, TPinned, TConv, TPtr };
enum K { Cp, LR, CR, RR, AsValue };
enum Mode { LV, CV, RV, CRV };

template<typename X> struct Tag;
#define P01_TAG(X, t) template<> struct Tag<X> { static const T tag = t; };
P01_TAG(int, TInt) P01_TAG(std::string, TStr) P01_TAG(Obj, TObj) P01_TAG(Base, TBase) P01_TAG(Derived, TDerived) P01_TAG(Leaf, TLeaf)
P01_TAG(MoveOnly, TMoveOnly) P01_TAG(CopyOnly, TCopyOnly) P01_TAG(Pinned, TPinned) P01_TAG(Conv, TConv) P01_TAG(Obj*, TPtr)

inline std::string show(int i) { return std::to_string(i); }
inline std::string show(const std::string& s) { return s; }
inline std::string show(Obj* const& p) { return std::to_string((unsigned long)(const void*)p); }
template<typename X> auto show(const X& x) -> decltype(std::to_string(x.get())) { return std::to_string(x.get()); }
std::string showAt(T t, const void* p);
Value constRef(T t, const void* p);

inline void poke(int& i) { i = int(unsigned(i) * 7 + 1); }
inline void poke(std::string& s) { s += "!"; }
extern Obj pointeeForPoke;
inline void poke(Obj*& p) { p = &pointeeForPoke; }
template<typename X> auto poke(X& x) -> decltype(x.set(1)) { x.set(x.get() * 7 + 1); }
inline void poke(Conv& x) { x.n.v++; }

struct Slot                  // one argument, on both sides
{
    T t; Mode mode;
    Value v, hold; void* a; std::shared_ptr<void> ownA;
    void* b; std::shared_ptr<void> ownB;
    void* side(bool direct) const { return direct ? b : a; }
};

struct Rec
{
    struct Arg { const void* addr; std::string content; };
    std::vector<Arg> args; int calls;
    void clear() { args.clear(); calls = 0; }
};
Rec& rec();

struct Param { T t; K k; };
template<typename P> struct ParamOf;
template<typename X> struct ParamOf { typedef X Clean; static Param get() { return Param{Tag<X>::tag, Cp}; } };
template<typename X> struct ParamOf<X&> { typedef X Clean; static Param get() { return Param{Tag<X>::tag, LR}; } };
template<typename X> struct ParamOf<const X&> { typedef X Clean; static Param get() { return Param{Tag<X>::tag, CR}; } };
template<typename X> struct ParamOf<X&&> { typedef X Clean; static Param get() { return Param{Tag<X>::tag, RR}; } };
template<> struct ParamOf<Value> { typedef Obj Clean; static Param get() { return Param{TObj, AsValue}; } };

// What the body of a function does with each kind of parameter.
template<typename P> struct Use;
template<typename X> struct Use       // its own copy: scribbles over it
{ static void use(X& x) { rec().args.push_back({&x, show(x)}); poke(x); } };
template<typename X> struct Use<X&>   // writes through
{ static void use(X& x) { rec().args.push_back({&x, show(x)}); poke(x); } };
template<typename X> struct Use<const X&>
{ static void use(const X& x) { rec().args.push_back({&x, show(x)}); } };
template<typename X> struct Use<X&&>  // takes the content away
{ static void use(X& x) { rec().args.push_back({&x, show(x)}); X stolen(std::move(x)); (void) stolen; } };
template<> struct Use<Value>
{ static void use(Value& x) { rec().args.push_back({x.value(), show(x.get<Obj>())}); } };

// Objects that functions return references to.
template<typename X> struct Global { static X& get() { static X x(41); return x; } static void reset() { get() = X(41); } };
template<> struct Global<std::string> { static std::string& get() { static std::string x("global"); return x; } static void reset() { get() = "global"; } };
template<> struct Global<Obj*> { static Obj*& get() { static Obj* x = nullptr; return x; } static void reset() { get() = nullptr; } };
template<> struct Global<Pinned> { static Pinned& get() { static Pinned x(41); return x; } static void reset() { get().n.v = 41; } };
template<> struct Global<CopyOnly> { static CopyOnly& get() { static CopyOnly x(41); return x; } static void reset() { get().n.v = 41; } };

inline void resetGlobals()
{
    Global<int>::reset(); Global<std::string>::reset(); Global<Obj*>::reset();
    Global<Obj>::get().n.v = 41; Global<Base>::get().b.v = 41; Global<Derived>::get().b.v = 41; Global<MoveOnly>::get().n.v = 41;
    Global<Pinned>::get().n.v = 41; Global<CopyOnly>::get().n.v = 41;
    auto& l = life().live;          // they outlive the accounting of a case
    l.emplace(&Global<Obj>::get().t, "G"); l.emplace(&Global<Base>::get().t, "G"); l.emplace(&Global<Derived>::get().t, "G");
    l.emplace(&Global<MoveOnly>::get().t, "G"); l.emplace(&Global<Pinned>::get().t, "G"); l.emplace(&Global<CopyOnly>::get().t, "G");
}
inline void forgetGlobals()
{
    auto& l = life().live;
    l.erase(&Global<Obj>::get().t); l.erase(&Global<Base>::get().t); l.erase(&Global<Derived>::get().t);
    l.erase(&Global<MoveOnly>::get().t); l.erase(&Global<Pinned>::get().t); l.erase(&Global<CopyOnly>::get().t);
}
inline std::vector<std::string> showGlobals()
{
    std::vector<std::string> r = { show(Global<int>::get()), show(Global<std::string>::get()), show(Global<Obj>::get()), show(Global<Base>::get()),
        show(Global<Derived>::get()), show(Global<MoveOnly>::get()), show(Global<Pinned>::get()), show(Global<CopyOnly>::get()) };
    return r;
}

inline std::string summary() { std::string s; for (auto& a : rec().args) s += a.content + ";"; return s; }

// What a function returns.
template<typename R> struct Ret;
template<> struct Ret<void> { static void get() {} };
template<> struct Ret<int> { static int get() { return int(vt::hashStr(summary()) & 0xFFFF); } };
template<> struct Ret<std::string> { static std::string get() { return summary(); } };
template<> struct Ret<Obj> { static Obj get() { return Obj(int(vt::hashStr(summary()) & 0xFFFF)); } };
template<> struct Ret<Derived> { static Derived get() { return Derived(int(vt::hashStr(summary()) & 0xFFF)); } };
template<> struct Ret<MoveOnly> { static MoveOnly get() { return MoveOnly(int(vt::hashStr(summary()) & 0xFFFF)); } };
template<> struct Ret<Value> { static Value get() { return Value(Obj(int(vt::hashStr(summary()) & 0xFFFF))); } };
template<typename X> struct Ret<X&> { static X& get() { return Global<typename std::remove_const<X>::type>::get(); } };
template<typename X> struct Ret<X&&> { static X&& get() { return std::move(Global<X>::get()); } };

struct Outcome { std::string content, what; };

template<typename R> struct Collect
{   // by value
    template<typename F> static Outcome run(const F& f) { auto&& r = f(); return Outcome{ show(r), "value" }; }
};
template<> struct Collect<void>
{ template<typename F> static Outcome run(const F& f) { f(); return Outcome{ "", "void" }; } };
template<> struct Collect<Value>
{ template<typename F> static Outcome run(const F& f) { Value v = f(); return Outcome{ show(v.get<Obj>()), "value" }; } };
template<typename X> struct Collect<X&>
{
    template<typename F> static Outcome run(const F& f)
    {
        X& r = f();
        typedef typename std::remove_const<X>::type C;
        bool same = (const void*)&r == (const void*)&Global<C>::get();
        return Outcome{ show(r), same ? "the global object" : "another object" };
    }
};
template<typename X> struct Collect<X&&>
{ template<typename F> static Outcome run(const F& f) { X r = f(); return Outcome{ show(r), "value" }; } };

struct Fn
{
    std::string name; std::vector<Param> params; bool rawCalls;
    std::function<Outcome(std::vector<Slot>&, bool raw, unsigned variant)> direct;
    std::function<Outcome(std::vector<Slot>&, unsigned variant)> raw;
    unsigned ways;
    std::function<Outcome(std::vector<Slot>&, uint64_t way)> viaValues;
};
std::vector<Fn>& fns();

// The object of a slot seen as a parameter type, for the direct call.
template<typename X> X& view(const Slot& s, bool direct)
{
    void* p = s.side(direct);
    if (s.t == Tag<X>::tag) return *static_cast<X*>(p);
    return *static_cast<X*>(p);
}
template<> inline Base& view<Base>(const Slot& s, bool direct)
{
    void* p = s.side(direct);
    if (s.t == TDerived) return *static_cast<Derived*>(p);
    if (s.t == TLeaf) return *static_cast<Leaf*>(p);
    return *static_cast<Base*>(p);
}

template<typename X> bool isConv(const Slot&) { return false; }
template<> inline bool isConv<Obj>(const Slot& s) { return s.t == TConv; }
template<> inline bool isConv<int>(const Slot& s) { return s.t == TConv; }
template<typename X> struct ConvDirect { static X& get(const Slot& s, std::shared_ptr<void>&) { return view<X>(s, true); } };
template<> struct ConvDirect<Obj> { static Obj& get(const Slot& s, std::shared_ptr<void>& keep)
{ auto p = std::make_shared<Obj>(static_cast<Conv*>(s.b)->toObj()); keep = p; return *p; } };
template<> struct ConvDirect<int> { static int& get(const Slot& s, std::shared_ptr<void>& keep)
{ auto p = std::make_shared<int>(static_cast<Conv*>(s.b)->toInt()); keep = p; return *p; } };

inline std::vector<std::shared_ptr<void>>& keepers() { static std::vector<std::shared_ptr<void>> v; return v; }
template<typename P> struct Direct;
template<typename X> struct Direct      // X
{
    static X get(const Slot& s, bool moved)
    {
        std::shared_ptr<void> keep;
        if (isConv<X>(s)) return X(ConvDirect<X>::get(s, keep));
        X& x = view<X>(s, true);
        if (moved || s.mode == RV) return X(std::move(x));
        return X(x);
    }
};
template<typename X> struct Direct<X&> { static X& get(const Slot& s, bool) { return view<X>(s, true); } };
template<typename X> struct Direct<const X&> { static const X& get(const Slot& s, bool moved)
{ return view<X>(s, true); } };
template<typename X> struct Direct<X&&>
{
    static X&& get(const Slot& s, bool)
    {
        if (isConv<X>(s)) { keepers().emplace_back(); return std::move(ConvDirect<X>::get(s, keepers().back())); }
        return std::move(view<X>(s, true));
    }
    static void done() {}
};
template<> struct Direct<Value> { static Value get(const Slot& s, bool) { return Value(view<Obj>(s, true)); } };

template<size_t... I> struct Seq {};
template<size_t N, size_t... I> struct MakeSeq : MakeSeq<N - 1, N - 1, I...> {};
template<size_t... I> struct MakeSeq<0, I...> { typedef Seq<I...> type; };

// Raw C++ arguments: even variants pass lvalues (temporaries for &&), odd ones temporaries wherever allowed;
// 0 and 1 call the Function, 2 and 3 its name in a scope.
template<unsigned V, typename P> struct Raw;
template<unsigned V, typename X> struct Raw { static auto get(const Slot& s) -> typename std::conditional<V, X&&, X&>::type
{ return static_cast<typename std::conditional<V, X&&, X&>::type>(view<X>(s, false)); } };
template<unsigned V, typename X> struct Raw<V, X&> { static X& get(const Slot& s) { return view<X>(s, false); } };
template<unsigned V, typename X> struct Raw<V, const X&> { static const X& get(const Slot& s) { return view<X>(s, false); } };
template<unsigned V, typename X> struct Raw<V, X&&> { static X&& get(const Slot& s) { return std::move(view<X>(s, false)); } };
template<unsigned V> struct Raw<V, Value> { static Obj& get(const Slot& s) { return view<Obj>(s, false); } };

// What the caller asks for: rvalues that can only be moved come out of a Value.
template<typename R> struct Asked
{
    typedef R type;
    template<typename C, typename... A> static R call(const C& c, A&&... a) { return c.template call<R>(std::forward<A>(a)...); }
    static R viaValue(Value v) { return reflect::retCast<R>(v); }
};
template<typename X> struct Asked<X&&>
{
    typedef X type;
    template<typename C, typename... A> static X call(const C& c, A&&... a) { return c.template call<X>(std::forward<A>(a)...); }
    static X viaValue(Value v) { return reflect::cast<X&&>(v); }
};
template<> struct Asked<MoveOnly>
{
    typedef MoveOnly type;
    template<typename C, typename... A> static MoveOnly call(const C& c, A&&... a)
    { Value v = c.template call<Value>(std::forward<A>(a)...); return reflect::cast<MoveOnly&&>(v); }
    static MoveOnly viaValue(Value v) { return reflect::cast<MoveOnly&&>(v); }
};
template<> struct Asked<void>
{
    typedef void type;
    template<typename C, typename... A> static void call(const C& c, A&&... a) { c.template call<void>(std::forward<A>(a)...); }
    static void viaValue(Value v) { if (!v.isVoid()) VT_FAIL("a void function returned something"); }
};

template<typename R, typename... P> struct F
{
    static R body(P... p)
    {
        rec().calls++;
        int order[] = { 0, (Use<P>::use(p), 0)... }; (void) order;
        return Ret<R>::get();
    }

    // The list initialisation fixes the order in which arguments are made.
    template<size_t... I>
    static Outcome direct(std::vector<Slot>& s, bool raw, unsigned v, Seq<I...>)
    {
        return Collect<R>::run([&] () -> R { return body(Direct<P>::get(s[I], raw && v % 2)...); });
    }
    template<unsigned V, typename C, size_t... I>
    static Outcome raw(const C& f, std::vector<Slot>& s, Seq<I...>)
    {
        return Collect<R>::run([&] () -> typename Asked<R>::type { return Asked<R>::call(f, Raw<V, P>::get(s[I])...); });
    }
    template<size_t... I>
    static Outcome values(const reflect::Function& f, const reflect::Scope& sc, std::vector<Slot>& s, uint64_t way, Seq<I...>)
    {
        switch (way) {
        case 0: return Collect<R>::run([&] () -> typename Asked<R>::type { return Asked<R>::call(f, s[I].v...); });
        case 1: return Collect<R>::run([&] () -> typename Asked<R>::type { return Asked<R>::call(sc.function("ns::fn"), s[I].v...); });
        case 2: return Collect<R>::run([&] () -> typename Asked<R>::type { return Asked<R>::viaValue(f.call<Value>(s[I].v...)); });
        default: return Collect<R>::run([&] () -> typename Asked<R>::type { return Asked<R>::viaValue(sc.call<Value>("ns::fn", s[I].v...)); });
        }
    }
};

// The same call by its name, from the scope.
struct ByName
{
    const reflect::Scope& sc;
    template<typename R, typename... A> R call(A&&... a) const { return sc.call<R>("ns::fn", std::forward<A>(a)...); }
};

template<bool RawToo> struct AddRaw
{
    template<typename R, typename... P> static void add(Fn& fn, const reflect::Function* f, const reflect::Scope* sc)
    {
        typedef typename MakeSeq<sizeof...(P)>::type S;
        fn.raw = [f, sc] (std::vector<Slot>& s, unsigned v) -> Outcome {
            switch (v) {
            case 0: return F<R, P...>::template raw<0>(*f, s, S());
            case 1: return F<R, P...>::template raw<1>(*f, s, S());
            case 2: return F<R, P...>::template raw<0>(ByName{ *sc }, s, S());
            default: return F<R, P...>::template raw<1>(ByName{ *sc }, s, S());
            }
        };
    }
};
template<> struct AddRaw<false> { template<typename R, typename... P> static void add(Fn&, const reflect::Function*, const reflect::Scope*) {} };

enum Shape { Plain, Functor };

template<bool RawToo, typename R, typename... P>
void reg(const char* name, Shape shape = Plain)
{
    typedef typename MakeSeq<sizeof...(P)>::type S;
    Fn fn;
    fn.name = name; fn.rawCalls = RawToo;
    fn.params = { ParamOf<P>::get()... };
    fn.direct = [] (std::vector<Slot>& s, bool raw, unsigned v) { return F<R, P...>::direct(s, raw, v, S()); };
    const reflect::Function* f; reflect::Scope* sc = new reflect::Scope;
    int token = 12345; std::string word = "captured";
    auto lambda = [token, word] (P... p) -> R {
        if (token != 12345 || word != "captured") VT_FAIL("the functor lost its state");
        return F<R, P...>::body(std::forward<P>(p)...);
    };
    if (shape == Functor) { f = new reflect::Function(name, lambda); sc->addFunction("ns::fn", lambda); }
    else { f = new reflect::Function(name, &F<R, P...>::body); sc->addFunction("ns::fn", &F<R, P...>::body); }
    fn.ways = 4;
    fn.viaValues = [f, sc] (std::vector<Slot>& s, uint64_t way) { return F<R, P...>::values(*f, *sc, s, way, S()); };
    AddRaw<RawToo>::template add<R, P...>(fn, f, sc);
    fns().push_back(fn);
}

#define P01_FN(...) reg<true, __VA_ARGS__>(#__VA_ARGS__)
#define P01_FNV(...) reg<false, __VA_ARGS__>(#__VA_ARGS__)
#define P01_LAMBDA(...) reg<true, __VA_ARGS__>("lambda " #__VA_ARGS__, Functor)

void fns1(); void fns2(); void fns3(); void fns4();

} // namespace p01
