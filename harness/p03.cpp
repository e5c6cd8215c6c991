// P03 - Overload resolution picks the exact match, else the only partial, else errors.
//
// Random sets of overloads, built in random order with random collisions, against the rule applied to
// the conversion table of rules.h; every overload records that it ran.
#include "rules.h"

namespace {

int ranId, rans;
template<typename X> struct Source { static X& get() { static X x; return x; } };
template<typename Q> struct Give { static Q get() { return Q(Source<Q>::get()); } };
template<typename X> struct Give<X&> { static X& get() { return Source<typename std::remove_const<X>::type>::get(); } };
template<> struct Give<void> { static void get() {} };
template<> struct Give<Value> { static Value get() { return Value(int(ranId)); } };

struct Sig { Arg ret; std::vector<Arg> args; std::function<Function(int)> make; bool (*has)(const Overloads&); const Function& (*get)(const Overloads&); };
template<typename F> bool hasFor(const Overloads& o) { return o.test<F>(); }
template<typename F> const Function& getFor(const Overloads& o) { return o.get<F>(); }

template<typename Q, typename... P> struct Body
{
    int id;
    Q operator()(P...) const { ranId = id; rans++; return Give<Q>::get(); }
};

template<typename Q, typename... P> Sig sig()
{ return Sig{ argOf<Q>(), { argOf<P>()... }, [] (int id) { return Function("f", Body<Q, P...>{id}); }, &hasFor<Q(P...)>, &getFor<Q(P...)> }; }

const std::vector<Sig>& pool()
{
    static std::vector<Sig> v;
    if (!v.empty()) return v;
    v = { sig<void>(), sig<int>(), sig<void, int>(), sig<void, int&>(), sig<int, const int&>(), sig<void, int&&>(), sig<int, std::string>(), sig<void, const std::string&>(), sig<void, std::string&&>(),
          sig<void, Obj>(), sig<int, Obj&>(), sig<void, const Obj&>(), sig<void, Obj&&>(), sig<void, Base>(), sig<void, Base&>(), sig<int, const Base&>(), sig<void, Base&&>(),
          sig<void, Derived>(), sig<void, Derived&>(), sig<int, const Derived&>(), sig<void, Derived&&>(), sig<void, Leaf&>(), sig<void, const Leaf&>(), sig<void, Conv>(), sig<void, const Conv&>(),
          sig<void, Other&>(), sig<void, Base*>(), sig<void, Derived*>(), sig<int, Leaf* const&>(), sig<void, bool>(), sig<void, Value>(), sig<Value, Value>(), sig<Value, int>(), sig<Obj&, Obj&>(), sig<Obj, const Obj&>(),
          sig<Base&, Base&>(), sig<const Base&, const Base&>(), sig<Obj, int>(), sig<std::string, int>(),
          sig<void, int, int>(), sig<void, int&, int>(), sig<void, int, const int&>(), sig<int, Obj&, int>(), sig<void, const Obj&, int>(), sig<void, Obj, Obj>(), sig<void, Base&, Base&>(),
          sig<void, Derived&, Base&>(), sig<void, Base&, Derived&>(), sig<void, const Base&, const Base&>(), sig<void, Derived&, const Base&>(), sig<void, Value, Value>(), sig<void, Value, int>(), sig<void, Obj&, Value>(),
          sig<void, std::string, const std::string&>(), sig<void, Obj, Conv>(), sig<void, Conv, Obj>(), sig<void, int, Obj>() };
    Source<Obj>::get(); Source<Base>::get();
    life().keepAll();
    return v;
}

// A family keeps the overloads of a set close to each other, so that they compete.
std::vector<size_t> genSet(vt::Gen& g)
{
    const auto& ps = pool();
    std::vector<size_t> fam;
    T t = g.oneOf({ TInt, TObj, TBase, TDerived, TStr, TValue, TConv });
    for (size_t i = 0; i < ps.size(); ++i) {
        bool near = ps[i].args.empty();
        for (auto& a : ps[i].args) near = near || parentOf(a.t, t) || parentOf(t, a.t) || converter(t, a.t) || converter(a.t, t) || a.t == TValue;
        if (near) fam.push_back(i);
    }
    size_t n = 1 + g.draw(6);
    std::vector<size_t> r;
    for (size_t i = 0; i < n; ++i) r.push_back(g.chance(1, 8) ? g.below(ps.size()) : g.pick(fam));
    return r;
}

template<typename Q> void call(const Overloads& o, std::vector<Passed>& a)
{
    switch (a.size()) {
    case 0: o.call<Q>(); break;
    case 1: o.call<Q>(a[0].v); break;
    default: o.call<Q>(a[0].v, a[1].v); break;
    }
}
struct Asked { Arg arg; void (*call)(const Overloads&, std::vector<Passed>&); };
template<typename Q> Asked asked() { return Asked{ argOf<Q>(), call<Q> }; }
const std::vector<Asked>& askeds()
{
    static const std::vector<Asked> v = { asked<void>(), asked<Value>(), asked<int>(), asked<Obj&>(), asked<const Base&>(), asked<Obj>(), asked<std::string>() };
    return v;
}

// The overloads that a history of additions leaves, and the additions that must have been refused.
struct Set { std::vector<size_t> sigs; std::vector<int> ids; };

void build(vt::Case& c, const std::vector<size_t>& adds, Set& model, const std::function<void(Function&&)>& add)
{
    const auto& ps = pool();
    for (size_t k = 0; k < adds.size(); ++k) {
        const Sig& s = ps[adds[k]];
        bool clash = false;
        for (size_t o : model.sigs) if (matches(ps[o].ret, ps[o].args, s.ret, s.args) == Exact) clash = true;
        VT_LOG((k ? "; " : "") << show(s.ret, s.args) << (clash ? " refused" : ""));
        std::string what;
        bool raised = raises([&] { add(s.make(int(k))); }, &what);
        VT_EQ(raised, clash, "adding " << show(s.ret, s.args) << ": " << what);
        if (!clash) { model.sigs.push_back(adds[k]); model.ids.push_back(int(k)); }
        else c.label("refused");
    }
}

enum { NoOverload = -1, Ambiguous = -2 };
int resolve(const Set& m, const Arg& ret, const std::vector<Arg>& args)
{
    const auto& ps = pool();
    int partial = NoOverload;
    for (size_t k = 0; k < m.sigs.size(); ++k) {
        M x = matches(ret, args, ps[m.sigs[k]].ret, ps[m.sigs[k]].args);
        if (x == Exact) return m.ids[k];
        if (x == Partial) partial = partial == NoOverload ? m.ids[k] : int(Ambiguous);
    }
    return partial;
}

} // namespace

VT_PROP(resolution, 25000, 1000000, "two or more overloads could take the call, or none can")
{
    const auto& ps = pool();
    life().clear();
    {
        Set m; Overloads o;
        std::vector<size_t> adds = genSet(c.g);
        build(c, adds, m, [&] (Function&& f) { o.add(std::move(f)); });
        VT_EQ(o.size(), m.sigs.size(), "size");
        for (size_t k = 0; k < m.sigs.size(); ++k)
            VT_EQ(signature(o[k]), signature(ps[m.sigs[k]].make(0)), "the set after all additions, at " << k);

        if (c.g.chance(1, 20)) {        // nothing to choose from
            Overloads none; const Sig& q = ps[c.g.below(ps.size())]; std::vector<Argument> la; for (auto& x : q.args) la.push_back(lib(x));
            VT_CHECK(!none.test(lib(q.ret), la) && !q.has(none) && !none.test(q.make(0)) && none.size() == 0 && none.print().empty(), "an empty set");
            VT_CHECK(raises([&] { none.get(lib(q.ret), la); }) && raises([&] { q.get(none); }) && raises([&] { none.call<void>(1); }) && raises([&] { none.call<Value>(); }), "a call of an empty set");
        }
        {   // the set asked for a static signature, or for that of a function
            const Sig& q = c.g.coin() ? ps[c.g.pick(adds)] : ps[c.g.below(ps.size())];
            bool any = false, both = false, either = false;
            for (size_t k : m.sigs) {
                bool to = matches(q.ret, q.args, ps[k].ret, ps[k].args) != None, from = matches(ps[k].ret, ps[k].args, q.ret, q.args) != None;
                any |= to; both |= to && from; either |= to || from;
            }
            VT_LOG(" ? " << show(q.ret, q.args));
            VT_EQ(q.has(o), any, "Overloads::test<>");
            if (any) { const Function& f = q.get(o); VT_CHECK(&f >= &o[0] && &f <= &o[o.size() - 1] && f.test(q.make(0)) != Match::None, "Overloads::get<>"); }
            else VT_CHECK(raises([&] { q.get(o); }), "Overloads::get<> without a match");
            bool got = o.test(q.make(0));
            VT_CHECK(got ? either : !both, "Overloads::test(Function) gives " << got);
        }

        do {
            World w(1 + int(c.g.draw(50)));
            // a call close to one of the overloads
            const Sig& like = ps[c.g.pick(adds)];
            const Asked& a = c.g.coin() ? askeds()[0] : c.g.pick(askeds());
            std::vector<Passed> passed; std::vector<Arg> args;
            size_t n = c.g.chance(1, 15) ? c.g.draw(2) : like.args.size();
            for (size_t i = 0; i < n; ++i) {
                T t = i < like.args.size() ? (like.args[i].t == TValue ? T(c.g.draw(TPLeaf)) : related(c.g, like.args[i].t)) : TInt;
                if (t == TValue || t > TPLeaf) t = TBase;
                Passed p; genPassed(c.g, w, t, p);
                passed.push_back(p); args.push_back(p.arg);
            }
            VT_LOG(" | " << show(a.arg, args));
            int expect = resolve(m, a.arg, args);
            int cands = 0;
            for (size_t k : m.sigs) cands += matches(a.arg, args, ps[k].ret, ps[k].args) != None;
            VT_LOG(" => " << (expect == NoOverload ? "none" : expect == Ambiguous ? "ambiguous" : std::to_string(expect)));
            c.nontrivial(cands != 1);
            c.label(expect == NoOverload ? "none" : expect == Ambiguous ? "ambiguous" : cands > 1 ? "chosen among several" : "only one");

            std::vector<Argument> la; for (auto& x : args) la.push_back(lib(x));
            VT_EQ(o.test(lib(a.arg), la), cands > 0, "Overloads::test");
            // get() gives a function that the set has and that takes the call
            if (cands) { const Function& f = o.get(lib(a.arg), la); VT_CHECK(f.test(lib(a.arg), la) != Match::None, "Overloads::get"); }
            else VT_CHECK(raises([&] { o.get(lib(a.arg), la); }), "Overloads::get without a match");

            std::string before = w.show(), what;
            rans = 0; ranId = -1;
            bool raised = raises([&] { a.call(o, passed); }, &what);
            zoo::check("call");
            if (expect < 0) {
                VT_CHECK(raised, "a call with no or several matches was made");
                VT_EQ(rans, 0, "an overload ran");
                VT_CHECK(what.find(expect == Ambiguous ? "ambiguous" : "no overload") != std::string::npos, "the wrong error: " << what);
                VT_EQ(w.show(), before, "a refused call changed an argument");
            }
            else {
                VT_EQ(rans, 1, "one overload runs: " << what);
                VT_EQ(ranId, expect, "the wrong overload ran");
            }
        } while (c.g.more(3));
    }
    zoo::check("at the end");
    VT_EQ(life().left(), size_t(0), liveSummary());
}

// The same through a type and a scope, where overloads accumulate under a name and parents only count
// when the child has none.
VT_PROP(through_types_and_scopes, 8000, 200000, "two or more overloads could take the call, or none can")
{
    const auto& ps = pool();
    life().clear();
    {
        Set mt, ms, mp;
        Type parent("p03.parent"), child("p03.child");
        child.parent(&parent);
        Scope sc;
        std::vector<size_t> a1 = genSet(c.g);
        build(c, a1, mt, [&] (Function&& f) { child.addFunction("f", std::move(f)); });
        VT_LOG(" / ");
        std::vector<size_t> a2 = genSet(c.g);
        build(c, a2, mp, [&] (Function&& f) { parent.addFunction("f", std::move(f)); });
        VT_LOG(" / ");
        build(c, a1, ms, [&] (Function&& f) { sc.addFunction("a::b::f", std::move(f)); });
        VT_EQ(child.function("f").size(), mt.sigs.size(), ""); VT_EQ(sc.function("a::b::f").size(), ms.sigs.size(), "");
        do {
            World w(1 + int(c.g.draw(50)));
            unsigned where = unsigned(c.g.draw(2));
            const std::vector<size_t>& adds = where == 1 ? a2 : a1;
            const Set& m = where == 1 ? mp : where == 0 ? mt : ms;
            const Sig& like = ps[c.g.pick(adds)];
            std::vector<Passed> passed; std::vector<Arg> args;
            for (size_t i = 0; i < like.args.size(); ++i) {
                T t = like.args[i].t == TValue ? TObj : related(c.g, like.args[i].t);
                if (t == TValue || t > TPLeaf) t = TInt;
                Passed p; genPassed(c.g, w, t, p);
                passed.push_back(p); args.push_back(p.arg);
            }
            Arg ask{ TVoid, Copy, false };
            int expect = resolve(m, ask, args), cands = 0;
            for (size_t k : m.sigs) cands += matches(ask, args, ps[k].ret, ps[k].args) != None;
            c.nontrivial(cands != 1);
            VT_LOG(" | " << where << " " << show(ask, args) << " => " << expect);
            rans = 0; ranId = -1;
            const Type* t = where == 1 ? &parent : &child;
            bool raised = raises([&] {
                    if (where == 2) switch (passed.size()) {
                        case 0: sc.call<void>("a::b::f"); break;
                        case 1: sc.scope("a")->call<void>("b::f", passed[0].v); break;
                        default: sc.call<void>("a::b::f", passed[0].v, passed[1].v); break;
                        }
                    else switch (passed.size()) {
                        case 0: t->call<void>("f"); break;
                        case 1: t->call<void>("f", passed[0].v); break;
                        default: t->call<void>("f", passed[0].v, passed[1].v); break;
                        }
                });
            VT_EQ(raised, expect < 0, "call"); VT_EQ(rans, expect < 0 ? 0 : 1, "runs"); if (expect >= 0) VT_EQ(ranId, expect, "the wrong overload ran");
            zoo::check("call");
        } while (c.g.more(3));
    }
    zoo::check("at the end");
    VT_EQ(life().left(), size_t(0), liveSummary());
}
