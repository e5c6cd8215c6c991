// P02 - Calls are accepted exactly when the signature rules allow, with no side effect.
//
// The conversion rules are restated below over a closed set of types whose relations are known by
// construction; the library's answers are compared with them for random argument pairs, signatures and
// real calls.
#include "rules.h"

namespace {

/* ------------------------------------------------------------------ functions to call */

int ran;
std::string seen;
template<typename X> struct Source { static X& get() { static X x; return x; } };
template<> struct Source<Value> { static Value& get() { static Value v{int(7)}; return v; } };
template<typename Q> struct Give { static Q get() { return Q(Source<typename std::remove_const<Q>::type>::get()); } };
template<typename X> struct Give<X&> { static X& get() { return Source<typename std::remove_const<X>::type>::get(); } };
template<typename X> struct Give<X&&> { static X&& get() { Source<X>::get() = X(); return std::move(Source<X>::get()); } };
template<typename X> struct Give<const X&&> { static const X&& get() { return static_cast<const X&&>(Source<X>::get()); } };
template<> struct Give<void> { static void get() {} };
template<> struct Give<MoveOnly> { static MoveOnly get() { return MoveOnly(); } };

struct Sig { Arg ret; std::vector<Arg> args; const Function* fn; Match (*asks)(const Function&); std::string (*text)(); std::vector<Match (*)(const Argument&)> to; };
template<typename Q, typename... P> struct Fun
{
    static Q run(P...) { ran++; return Give<Q>::get(); }
    static Match asks(const Function& f) { return f.test<Q(P...)>(); }
    static std::string text() { return signature<Q(P...)>(); }
};
template<typename X> Match convertsTo(const Argument& a) { return a.isConvertibleTo<X>(); }

std::vector<Sig>& sigs();
template<typename Q, typename... P> void add()
{
    sigs().push_back(Sig{ argOf<Q>(), { argOf<P>()... }, new Function("fn", &Fun<Q, P...>::run), &Fun<Q, P...>::asks, &Fun<Q, P...>::text, { &convertsTo<P>... } });
}

template<typename X> void addKinds()
{
    add<void, X>(); add<int, X&>(); add<Value, const X&>(); add<int, X&&>(); 
}
template<typename X> void addRefs() { add<void, X&>(); add<int, const X&>(); }
template<typename X> void addRets() { add<X>(); add<X&>(); add<const X&>(); }

std::vector<Sig>& sigs()
{
    static std::vector<Sig> v; static bool once = false;
    if (once) return v;
    once = true;
    addKinds<int>(); addKinds<std::string>(); addKinds<Obj>(); addKinds<Base>(); addKinds<Derived>(); addKinds<Leaf>(); addKinds<Other>(); addKinds<Conv>();
    addKinds<Base*>(); addKinds<Leaf*>(); add<void, bool>(); add<void, const bool&>();
    addRefs<MoveOnly>(); add<int, MoveOnly&&>(); addRefs<CopyOnly>(); addRefs<Pinned>();
    addRets<int>(); addRets<Obj>(); addRets<Base>(); addRets<Derived>(); addRets<Leaf>(); addRets<Conv>(); addRets<std::string>(); addRets<Leaf*>();
    add<void>(); add<Value>(); add<MoveOnly&>(); add<const Pinned&>(); add<Pinned&>(); add<const CopyOnly&>();
    add<void, Value>(); add<int, Value, Value>(); add<Value, Value, int>(); add<void, Value, Base&>();
    add<int, int, int>(); add<int, Obj&, const Obj&>(); add<Obj, Obj, Obj&&>(); add<Base&, Base&, int>(); add<void, const Base&, Derived&>(); add<Value, Base, const std::string&>();
    add<int&&>(); add<Obj&&>(); add<const Obj&&>(); add<Leaf&&>(); add<std::string&&>(); add<const std::string&&>(); add<Conv&&>(); add<const Base>(); add<const std::string>();
    Source<Obj>::get(); Source<Base>::get(); Source<Derived>::get(); Source<Leaf>::get(); Source<Conv>::get(); Source<MoveOnly>::get(); Source<Pinned>::get(); Source<CopyOnly>::get();
    life().keepAll();
    add<int, int, int, int, int&>(); add<Value, Obj&, const Base&, std::string, Derived&, int>(); add<void, const int&, Base&, int, const Obj&, std::string&, Leaf&>();
    add<void, int, int, Obj, int, const std::string&, int, Base&, Value>();
    add<int, int, Obj&, std::string>(); add<const Obj&, const Base&, Obj&&, int&>(); add<void, Value, Base*, const Leaf&>(); add<int, const int&, const int&, const int&>();
    return v;
}

// Three to six arguments are only asked for as void and Value: every instantiation costs compile time.
template<typename Q, bool Big> struct Lib
{
    static M test(const Function& f, std::vector<Passed>& a)
    {
        switch (a.size()) {
        case 0: return of(f.testParams<Q>());
        case 1: return of(f.testParams<Q>(a[0].v));
        default: return of(f.testParams<Q>(a[0].v, a[1].v));
        }
    }
    static void call(const Function& f, std::vector<Passed>& a)
    {
        switch (a.size()) {
        case 0: f.call<Q>(); break;
        case 1: f.call<Q>(a[0].v); break;
        default: f.call<Q>(a[0].v, a[1].v); break;
        }
    }
};
template<typename Q> struct Lib<Q, true>
{
    static M test(const Function& f, std::vector<Passed>& a)
    {
        switch (a.size()) {
        case 3: return of(f.testParams<Q>(a[0].v, a[1].v, a[2].v));
        case 4: return of(f.testParams<Q>(a[0].v, a[1].v, a[2].v, a[3].v));
        case 5: return of(f.testParams<Q>(a[0].v, a[1].v, a[2].v, a[3].v, a[4].v));
        case 6: return of(f.testParams<Q>(a[0].v, a[1].v, a[2].v, a[3].v, a[4].v, a[5].v));
        default: return Lib<Q, false>::test(f, a);
        }
    }
    static void call(const Function& f, std::vector<Passed>& a)
    {
        switch (a.size()) {
        case 3: f.call<Q>(a[0].v, a[1].v, a[2].v); break;
        case 4: f.call<Q>(a[0].v, a[1].v, a[2].v, a[3].v); break;
        case 5: f.call<Q>(a[0].v, a[1].v, a[2].v, a[3].v, a[4].v); break;
        case 6: f.call<Q>(a[0].v, a[1].v, a[2].v, a[3].v, a[4].v, a[5].v); break;
        default: Lib<Q, false>::call(f, a); break;
        }
    }
};

struct Asked { Arg arg; M (*test)(const Function&, std::vector<Passed>&); void (*call)(const Function&, std::vector<Passed>&); };
template<typename Q, bool Big = false> Asked asked() { return Asked{ argOf<Q>(), Lib<Q, Big>::test, Lib<Q, Big>::call }; }
const std::vector<Asked>& askeds()
{
    static const std::vector<Asked> v = { asked<void, true>(), asked<Value, true>(), asked<int>(), asked<int&>(), asked<const int&>(), asked<Obj>(), asked<Obj&>(), asked<const Obj&>(),
        asked<Base>(), asked<Base&>(), asked<const Base&>(), asked<std::string>(), asked<Leaf&>(), asked<const Pinned&>(), asked<Base*>(), asked<const std::string&>() };
    return v;
}

} // namespace

VT_PROP(argument_pairs, 600000, 20000000, "two arguments that are not identical")
{
    Arg to = genArg(c.g, T(c.g.draw(NT - 1)));
    Arg from = genArg(c.g, related(c.g, to.t));
    VT_LOG(show(from) << " -> " << show(to));
    M expect = convertible(from, to);
    c.nontrivial(!(from == to)); c.label(mNames[expect]);
    Argument lf = lib(from), lt = lib(to);
    VT_EQ(std::string(mNames[of(lf.isConvertibleTo(lt))]), std::string(mNames[expect]), show(from) << " -> " << show(to));
    VT_EQ(lf == lt, from == to, "operator==");
    VT_EQ(lf.isVoid(), from.t == TVoid, "isVoid"); VT_EQ(lf.isConstRef(), from.c && from.r == LRef, "isConstRef");
    VT_EQ(lf.isTemporary(), from.r != LRef, "isTemporary"); VT_EQ(lf.isLValueRef(), !from.c && from.r == LRef, "isLValueRef");
    Match ma = of(lf.isConvertibleTo(lt)) == None ? Match::None : lf.isConvertibleTo(lt);
    Match mb = Match(c.g.draw(2));
    VT_EQ(int(of(combine(ma, mb))), std::min(int(of(ma)), int(of(mb))), "combine");
}

VT_PROP(signatures, 300000, 8000000, "a function and a request that differ")
{
    const Sig& s = c.g.pick(sigs());
    Arg ret = c.g.chance(1, 5) ? Arg{ TVoid, Copy, false } : genArg(c.g, related(c.g, s.ret.t));
    std::vector<Arg> args;
    // any of them differ, or just one
    const size_t only = s.args.size() > 1 && c.g.coin() ? c.g.below(s.args.size()) : size_t(-1);
    for (size_t i = 0; i < s.args.size(); ++i) {
        auto& a = s.args[i];
        bool same = only != size_t(-1) ? i != only : c.g.chance(1, 3);
        args.push_back(same ? a : genArg(c.g, related(c.g, a.t)));
    }
    if (c.g.chance(1, 12)) { if (c.g.coin() && !args.empty()) args.pop_back(); else args.push_back(genArg(c.g, TInt)); }
    VT_LOG(show(ret, args) << " vs " << show(s.ret, s.args));
    M expect = matches(ret, args, s.ret, s.args);
    c.nontrivial(!(ret == s.ret) || args.size() != s.args.size() || !std::equal(args.begin(), args.end(), s.args.begin())); c.label(mNames[expect]);
    std::vector<Argument> la; for (auto& a : args) la.push_back(lib(a));
    VT_EQ(std::string(mNames[of(s.fn->test(lib(ret), la))]), std::string(mNames[expect]), "Function::test");
    // the signature the function reports
    VT_EQ(s.fn->arguments(), s.args.size(), "arguments()");
    VT_CHECK(s.fn->returnType() == lib(s.ret), "returnType() " << s.fn->returnType().print() << " for " << show(s.ret));
    for (size_t i = 0; i < s.args.size(); ++i) VT_CHECK(s.fn->argument(i) == lib(s.args[i]), "argument " << i);
    // an overload set has a match when one of its functions does
    const Sig& s2 = c.g.pick(sigs());
    M expect2 = matches(ret, args, s2.ret, s2.args);
    VT_EQ(std::string(mNames[of(s2.fn->test(lib(ret), la))]), std::string(mNames[expect2]), "Function::test");
    M cross = matches(s.ret, s.args, s2.ret, s2.args);
    VT_EQ(std::string(mNames[of(s2.fn->test(*s.fn))]), std::string(mNames[cross]), "Function::test(Function) " << show(s.ret, s.args) << " on " << show(s2.ret, s2.args));
    VT_EQ(std::string(mNames[of(s.asks(*s2.fn))]), std::string(mNames[cross]), "Function::test<> " << show(s.ret, s.args) << " on " << show(s2.ret, s2.args));
    VT_EQ(s.text(), signature(*s.fn), "signature<>");
    for (size_t i = 0; i < s.to.size() && i < args.size(); ++i)
        VT_EQ(std::string(mNames[of(s.to[i](la[i]))]), std::string(mNames[convertible(args[i], s.args[i])]), "isConvertibleTo<> " << show(args[i]) << " to " << show(s.args[i]));
}

VT_PROP(calls, 150000, 4000000, "a call whose argument kinds differ from the parameters")
{
    std::vector<Sig>& all = sigs();
    life().clear();
    {
        World w(1 + int(c.g.draw(50)));
        const Sig& s = c.g.pick(all);
        std::vector<Passed> passed; std::vector<Arg> args;
        size_t n = s.args.size();
        if (n > 6 || c.g.chance(1, 12)) n = c.g.draw(6);
        const Asked& a = c.g.coin() || n > 2 ? askeds()[c.g.draw(1)] : c.g.pick(askeds());
        for (size_t i = 0; i < n; ++i) {
            T t = i < s.args.size() ? (s.args[i].t == TValue ? T(c.g.draw(TPLeaf)) : related(c.g, s.args[i].t)) : TInt;
            if (t == TValue || t > TPLeaf) t = TInt;
            Passed p; genPassed(c.g, w, t, p);
            passed.push_back(p); args.push_back(p.arg);
        }
        VT_LOG(show(a.arg, args) << " on " << show(s.ret, s.args));
        M expect = matches(a.arg, args, s.ret, s.args);
        c.label(mNames[expect]); c.label("arity " + std::to_string(n));
        c.nontrivial(args.size() != s.args.size() || !std::equal(args.begin(), args.end(), s.args.begin()));
        std::string before = w.show();
        M got = a.test(*s.fn, passed);
        VT_EQ(std::string(mNames[got]), std::string(mNames[expect]), "testParams");
        VT_EQ(w.show(), before, "testing changed an argument");

        ran = 0; std::string what;
        bool raised = raises([&] { a.call(*s.fn, passed); }, &what);
        zoo::check("call");
        if (expect == None) {
            VT_CHECK(raised, "a call that doesn't match was made");
            VT_EQ(ran, 0, "the function ran");
            VT_EQ(w.show(), before, "a refused call changed an argument");
            for (auto& p : passed) VT_EQ((const void*)p.v.value(), (const void*)p.addr, "a refused call changed its Value");
        }
        else {
            // the content of a returned Value decides whether it can be given as the type asked for
            bool mayRaise = s.ret.t == TValue && a.arg.t != TValue && a.arg.t != TVoid;
            VT_EQ(ran, 1, "a call that matches didn't reach the function: " << what);
            if (!mayRaise) VT_CHECK(!raised, what);
        }
    }
    zoo::check("at the end");
    VT_EQ(life().left(), size_t(0), liveSummary());
}

// Raw C++ arguments are described by their static type.
VT_PROP(raw_calls, 30000, 500000, "always")
{
    std::vector<Sig>& all = sigs();
    life().clear();
    {
        const Sig& s = c.g.pick(all);
        int n = int(c.g.small()) + 100;
        Obj o(n); const Obj co(n); Derived d(n); const Leaf cl(n); int i = n; const int ci = n; Conv cv(n); std::string str("x"); MoveOnly m(n);
        unsigned op = unsigned(c.g.draw(13)), asks = unsigned(c.g.draw(1));
        std::vector<Arg> args; M got = None; ran = 0; bool raised = false;
        VT_LOG(show(s.ret, s.args) << " op " << op << " asks " << asks);
        c.nontrivial();
#define ONE(expr, ...) { args = { __VA_ARGS__ }; got = of(asks ? s.fn->testParams<Value>(expr) : s.fn->testParams<void>(expr)); \
            raised = raises([&] { if (asks) s.fn->call<Value>(expr); else s.fn->call<void>(expr); }); }
#define TWO(e1, e2, ...) { args = { __VA_ARGS__ }; got = of(asks ? s.fn->testParams<Value>(e1, e2) : s.fn->testParams<void>(e1, e2)); \
            raised = raises([&] { if (asks) s.fn->call<Value>(e1, e2); else s.fn->call<void>(e1, e2); }); }
        switch (op) {
        case 0: ONE(o, Arg{TObj, LRef, false}); break;
        case 1: ONE(co, Arg{TObj, LRef, true}); break;
        case 2: ONE(Obj(n), Arg{TObj, RRef, false}); break;
        case 3: ONE(d, Arg{TDerived, LRef, false}); break;
        case 4: ONE(cl, Arg{TLeaf, LRef, true}); break;
        case 5: ONE(i, Arg{TInt, LRef, false}); break;
        case 6: ONE(ci, Arg{TInt, LRef, true}); break;
        case 7: ONE(n + 1, Arg{TInt, RRef, false}); break;
        case 8: ONE(cv, Arg{TConv, LRef, false}); break;
        case 9: ONE(std::move(m), Arg{TMoveOnly, RRef, false}); break;
        case 10: TWO(i, n + 1, Arg{TInt, LRef, false}, Arg{TInt, RRef, false}); break;
        case 11: TWO(o, co, Arg{TObj, LRef, false}, Arg{TObj, LRef, true}); break;
        case 12: TWO(Derived(n), str, Arg{TDerived, RRef, false}, Arg{TStr, LRef, false}); break;
        default: TWO(d, i, Arg{TDerived, LRef, false}, Arg{TInt, LRef, false}); break;
        }
        Arg ask = asks ? Arg{TValue, Copy, false} : Arg{TVoid, Copy, false};
        M expect = matches(ask, args, s.ret, s.args);
        VT_EQ(std::string(mNames[got]), std::string(mNames[expect]), show(ask, args) << " on " << show(s.ret, s.args));
        VT_EQ(raised, expect == None, show(ask, args)); VT_EQ(ran, expect == None ? 0 : 1, show(ask, args));
        if (expect == None) { VT_EQ(o.get(), n, ""); VT_EQ(d.getD(), n * 2 + 1, ""); VT_EQ(i, n, ""); VT_EQ(m.get(), n, "a refused call moved its argument"); VT_EQ(str, std::string("x"), ""); }
        zoo::check("raw call");
    }
    VT_EQ(life().left(), size_t(0), liveSummary());
}
