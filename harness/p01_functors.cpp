// P01, functors: functors with a state of their own, registered in every way and called over a history in
// which their Functions move around; each keeps its own state, and what the caller keeps is left alone.
#define VT_NO_MAIN
#define ZOO_NO_IMPL
#include "zoo.h"
#include "types/primitives.h"

#include <functional>

using namespace reflect;
using namespace zoo;

namespace p01f {

// What a call does to the state, for the model and the functors alike.
struct State
{
    int id, count; std::string trail;
    int step(int a) { count++; trail += char('a' + (unsigned(a) % 26)); return id * 1000 + count * 100 + int(trail.size()) * 10 + a % 7; }
    int step(const std::string& s) { return step(int(s.size()) + 3) + 500000; }
    int step(const Obj& o) { return step(o.get()) + 900000; }
    std::string show() const { return std::to_string(id) + "/" + std::to_string(count) + "/" + trail; }
};

// Knows when it was moved from.
struct Held
{
    State s; bool gone; Track t;
    explicit Held(int id) : s{ id, 0, "" }, gone(false), t("functor") {}
    Held(const Held& o) : s(o.s), gone(o.gone), t(o.t) {}
    Held(Held&& o) : s(o.s), gone(o.gone), t(std::move(o.t)) { o.gone = true; o.s.trail = "taken"; }
    template<typename A> int run(A&& a) { t.used("called"); if (gone) VT_FAIL("a functor was called after it was moved away"); return s.step(std::forward<A>(a)); }
};

template<typename P> struct Small { Held h; explicit Small(int id) : h(id) {} int operator()(P a) { return h.run(a); } };
template<typename P> struct Big
{
    char pad[5000]; Held h;
    explicit Big(int id) : h(id) { for (size_t i = 0; i < sizeof pad; ++i) pad[i] = char(i * 7 + id); }
    int operator()(P a) { for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != char(i * 7 + h.s.id)) VT_FAIL("a functor lost a part of itself at " << i); return h.run(a); }
};
template<typename P> struct Unique
{
    std::unique_ptr<Held> h;
    explicit Unique(int id) : h(new Held(id)) {}
    int operator()(P a) { if (!h) VT_FAIL("a functor was called after it was moved away"); return h->run(a); }
};
template<typename P> struct Shared          // a const operator() on a state that its copies share
{
    std::shared_ptr<Held> h;
    explicit Shared(int id) : h(std::make_shared<Held>(id)) {}
    int operator()(P a) const { if (!h) VT_FAIL("a functor was called after it was moved away"); return h->run(a); }
};

std::string peek(const Held& h) { return h.gone ? "gone" : h.s.show(); }
template<typename P> std::string peek(const Small<P>& f) { return peek(f.h); }
template<typename P> std::string peek(const Big<P>& f) { return peek(f.h); }
template<typename P> std::string peek(const Unique<P>& f) { return f.h ? peek(*f.h) : "gone"; }
template<typename P> std::string peek(const Shared<P>& f) { return f.h ? peek(*f.h) : "gone"; }

enum { Ints, Strings, Objs, ParamKinds };

struct Arg
{
    int kind; int i; std::string s; Obj o;
    int call(const Overloads& f) const
    {
        switch (kind) {
        case Ints: return f.call<int>(int(i));
        case Strings: return f.call<int>(s);
        default: return f.call<int>(o);
        }
    }
    int call(const Function& f) const
    {
        switch (kind) {
        case Ints: return f.call<int>(int(i));
        case Strings: return f.call<int>(s);
        default: return f.call<int>(o);
        }
    }
    int step(State& st) const { return kind == Ints ? st.step(i) : kind == Strings ? st.step(s) : st.step(o); }
};

struct World
{
    vt::Case& c;
    int ids = 0;
    std::unique_ptr<Type> type; std::unique_ptr<Scope> scope;
    std::vector<std::unique_ptr<Function> > loose;                  // Functions that move around
    typedef std::shared_ptr<State> S;
    std::map<std::string, std::map<int, S> > typeFns, scopeFns;     // name -> parameter kind -> state
    std::vector<std::pair<int, S> > looseFns;
    std::vector<std::function<void()> > kept;                       // what the caller kept must stay as it was

    explicit World(vt::Case& c) : c(c), type(new Type("p01f")), scope(new Scope) {}

    S state(int id) { return std::make_shared<State>(State{ id, 0, "" }); }

    // Where a functor goes to. False: it must be refused.
    template<typename F> void place(int kind, F&& f, S st)
    {
        switch (c.g.draw(3)) {
        case 0: {
            std::string name(1, char('a' + c.g.draw(2))); bool taken = typeFns[name].count(kind); VT_LOG("type." << name << (taken ? " again " : " "));
            Type& t = *type;
            bool raised = raises([&] { t.addFunction(name, std::forward<F>(f)); });
            VT_EQ(raised, taken, "adding an overload to the type");
            if (!taken) typeFns[name][kind] = st;
            break; }
        case 1: {
            std::string name = std::string(c.g.coin() ? "ns::" : "") + char('a' + c.g.draw(1)); bool taken = scopeFns[name].count(kind); VT_LOG("scope." << name << (taken ? " again " : " "));
            bool raised = raises([&] { scope->addFunction(name, std::forward<F>(f)); });
            VT_EQ(raised, taken, "adding an overload to the scope");
            if (!taken) scopeFns[name][kind] = st;
            break; }
        case 2: {
            std::string name(1, char('a' + c.g.draw(2))); bool taken = typeFns[name].count(kind); VT_LOG("dsl." << name << (taken ? " again " : " "));
            bool raised = raises([&] { reflect::reflectFunction(type.get(), name, std::forward<F>(f)); });
            VT_EQ(raised, taken, "adding an overload through the DSL");
            if (!taken) typeFns[name][kind] = st;
            break; }
        default:
            VT_LOG("loose ");
            loose.emplace_back(new Function("loose", std::forward<F>(f)));
            looseFns.emplace_back(kind, st);
        }
    }

    template<typename F> void give(int kind, std::true_type)        // copyable
    {
        int id = ++ids; F* f = new F(id); std::shared_ptr<F> own(f); S st = state(id);
        // the caller may have used it already
        unsigned mode = c.g.draw(2); VT_LOG("#" << id << (mode == 0 ? " lvalue " : mode == 1 ? " const lvalue " : " rvalue "));
        if (mode == 2) { place(kind, std::move(*f), st); return; }
        std::string was = peek(*f);
        if (mode == 0) place(kind, *f, st); else place(kind, const_cast<const F&>(*f), st);
        VT_EQ(peek(*f), was, "the functor that the caller kept");
        kept.push_back([own, was, id] { VT_EQ(peek(*own), was, "the functor #" << id << " that the caller kept"); });
    }
    template<typename F> void give(int kind, std::false_type)       // only moves
    {
        int id = ++ids; VT_LOG("#" << id << " moved ");
        F f(id); place(kind, std::move(f), state(id));
    }
    template<typename F> void giveShared(int kind)                  // the caller keeps a part of the state
    {
        int id = ++ids; std::shared_ptr<F> own(new F(id)); S st = state(id); VT_LOG("#" << id << " shared ");
        place(kind, *own, st);
        kept.push_back([own, st, id] { VT_EQ(peek(*own), st->show(), "the state that the functor #" << id << " shares with its caller"); });
    }
    template<typename P> void giveStd(int kind)
    {
        int id = ++ids; std::shared_ptr<std::function<int(P)> > f(new std::function<int(P)>(Small<P>(id)));
        bool lvalue = c.g.coin(); VT_LOG("#" << id << " std::function" << (lvalue ? " lvalue " : " rvalue "));
        if (!lvalue) { place(kind, std::move(*f), state(id)); return; }
        place(kind, *f, state(id));
        VT_CHECK(bool(*f), "the std::function that the caller kept is empty");
        kept.push_back([f, id] { VT_CHECK(bool(*f), "the std::function #" << id << " that the caller kept is empty"); VT_EQ(peek(*f->template target<Small<P> >()), State({ id, 0, "" }).show(), "its state"); });
    }
    template<typename P> void giveLambda(int kind)
    {
        int id = ++ids; Held h(id); S st = state(id);
        auto f = [h] (P a) mutable -> int { return h.run(a); };
        VT_LOG("#" << id << " lambda ");
        if (c.g.coin()) { auto twin = f; place(kind, f, st); if (kind == Ints) { Arg a{ Ints, 5, "", Obj() }; State m{ id, 0, "" }; VT_EQ(callIt<P>(twin, a), a.step(m), "a copy of the lambda"); VT_EQ(callIt<P>(f, a), (m = State{ id, 0, "" }, a.step(m)), "the lambda that the caller kept"); } }
        else place(kind, std::move(f), st);
    }
    template<typename P, typename F> int callIt(F& f, const Arg& a) { return callArg(f, a, (typename std::decay<P>::type*)nullptr); }
    template<typename F> int callArg(F& f, const Arg& a, int*) { return f(a.i); }
    template<typename F> int callArg(F& f, const Arg& a, std::string*) { return f(a.s); }
    template<typename F> int callArg(F& f, const Arg& a, Obj*) { return f(a.o); }

    template<typename P> void add(int kind)
    {
        switch (c.g.draw(5)) {
        case 0: VT_LOG("small "); give<Small<P> >(kind, std::true_type()); break;
        case 1: VT_LOG("big "); give<Big<P> >(kind, std::true_type()); break;
        case 2: give<Unique<P> >(kind, std::false_type()); break;
        case 3: giveShared<Shared<P> >(kind); break;
        case 4: giveStd<P>(kind); break;
        default: giveLambda<P>(kind);
        }
    }

    Arg arg(int kind) { Arg a{ kind, 0, "", Obj() }; if (kind == Ints) a.i = int(c.g.draw(50)); else if (kind == Strings) a.s = std::string(c.g.draw(9), 'x'); else a.o = Obj(int(c.g.draw(30))); return a; }

    void check(const char* where)
    {
        zoo::check(where);
        for (auto& k : kept) k();
    }
};

} // namespace p01f

VT_PROP(functors, 25000, 600000, "a functor of which the caller keeps an lvalue and one that was called at least twice")
{
    using namespace p01f;
    life().clear();
    World w(c);
    bool lvalue = false; int most = 0, added = 0;
    for (size_t ops = 0; ops < 40 && (ops < 3 || c.g.more(14)); ++ops) {
        switch (c.g.draw(7)) {
        case 0: case 1: {
            int kind = int(c.g.draw(ParamKinds - 1)); added++;
            if (kind == Ints) w.add<int>(kind); else if (kind == Strings) w.add<const std::string&>(kind); else w.add<const Obj&>(kind);
            lvalue = !w.kept.empty(); break; }
        case 2: case 3: {                          // a call by name, on the type or the scope
            bool t = c.g.coin(); auto& fns = t ? w.typeFns : w.scopeFns;
            std::vector<std::pair<std::string, int> > all;
            for (auto& n : fns) for (auto& k : n.second) all.push_back({ n.first, k.first });
            if (all.empty()) continue;
            auto x = c.g.pick(all); Arg a = w.arg(x.second); World::S st = fns[x.first][x.second];
            VT_LOG("call #" << st->id << " ");
            int want = a.step(*st);
            int got = t ? a.call(const_cast<const Type&>(*w.type).function(x.first)) : a.call(const_cast<const Scope&>(*w.scope).function(x.first));
            VT_EQ(got, want, "call of functor #" << st->id << " of " << x.first); most = std::max(most, st->count);
            break; }
        case 4: {
            if (w.loose.empty()) continue;
            size_t i = c.g.below(w.loose.size()); Arg a = w.arg(w.looseFns[i].first); World::S st = w.looseFns[i].second;
            VT_LOG("call loose #" << st->id << " "); int want = a.step(*st);
            VT_EQ(a.call(*w.loose[i]), want, "call of functor #" << st->id); most = std::max(most, st->count);
            break; }
        case 5: {                                  // Functions move
            if (w.loose.empty()) continue;
            size_t i = c.g.below(w.loose.size()), j = c.g.below(w.loose.size());
            switch (c.g.draw(2)) {
            case 0: VT_LOG("move #" << w.looseFns[i].second->id << " "); w.loose[i].reset(new Function(std::move(*w.loose[i]))); break;
            case 1: {
                VT_LOG("assign #" << w.looseFns[i].second->id << " to #" << w.looseFns[j].second->id << " ");
                *w.loose[j] = std::move(*w.loose[i]);
                if (i != j) { w.looseFns[j] = w.looseFns[i]; w.loose.erase(w.loose.begin() + i); w.looseFns.erase(w.looseFns.begin() + i); }
                break; }
            default: VT_LOG("swap #" << w.looseFns[i].second->id << " #" << w.looseFns[j].second->id << " "); std::swap(*w.loose[i], *w.loose[j]); std::swap(w.looseFns[i], w.looseFns[j]);
            }
            break; }
        case 6: {                                  // a Function is added as it is
            if (w.loose.empty()) continue;
            size_t i = c.g.below(w.loose.size()); std::string name(1, char('a' + c.g.draw(2)));
            int kind = w.looseFns[i].first; bool taken = w.typeFns[name].count(kind);
            VT_LOG("add loose #" << w.looseFns[i].second->id << " as " << name << " ");
            bool raised = raises([&] { w.type->addFunction(name, std::move(*w.loose[i])); });
            VT_EQ(raised, taken, "adding a Function");
            if (!taken) w.typeFns[name][kind] = w.looseFns[i].second;
            w.loose.erase(w.loose.begin() + i); w.looseFns.erase(w.looseFns.begin() + i);
            break; }
        default: {                                 // an owner dies
            if (w.loose.size() && c.g.coin()) { size_t i = c.g.below(w.loose.size()); VT_LOG("drop #" << w.looseFns[i].second->id << " "); w.loose.erase(w.loose.begin() + i); w.looseFns.erase(w.looseFns.begin() + i); }
            else if (c.g.chance(1, 3)) { VT_LOG("new type "); w.type.reset(new Type("p01f")); w.typeFns.clear(); }
            }
        }
        w.check("during the history");
    }
    size_t held = 0;
    w.check("after the history"); w.kept.clear();
    for (auto& n : w.typeFns) held += n.second.size();
    for (auto& n : w.scopeFns) held += n.second.size();
    held += w.loose.size();
    VT_EQ(life().left(), held, "functors that are alive");
    w.type.reset(); w.scope.reset(); w.loose.clear();
    VT_EQ(life().left(), 0u, "functors that are alive at the end");
    zoo::check("at the end");
    c.nontrivial(lvalue && most >= 2);
    if (most >= 4) c.label("state of four calls");
    if (added >= 6) c.label("six functors");
}

/* ------------------------------------------------------ Functions that move */

namespace p01m {

// A kind of function: how it is built, and a call that fits it along with what it must give.
struct Kind { const char* name; std::function<Function(const std::string&, int)> make; std::function<std::string(const Function&)> ask; std::function<std::string(int)> want; };

template<typename F> Kind kind(const char* name, F fn, std::function<std::string(const Function&)> ask, std::function<std::string(int)> want)
{ return Kind{ name, [fn] (const std::string& n, int id) { return Function(n, fn(id)); }, ask, want }; }

const std::vector<Kind>& kinds()
{
    static int slot = 3;
    auto num = [] (long i) { return std::to_string(i); };
    static const std::vector<Kind> v = {
        kind("void()", [] (int id) { return [id] () { slot = id; }; }, [=] (const Function& f) { slot = -1; f.call<void>(); return num(slot); }, [=] (int id) { return num(id); }),
        kind("int()", [] (int id) { return [id] () { return id; }; }, [=] (const Function& f) { return num(f.call<int>()); }, [=] (int id) { return num(id); }),
        kind("int(int)", [] (int id) { return [id] (int a) { return a * 10 + id; }; }, [=] (const Function& f) { return num(f.call<int>(7)); }, [=] (int id) { return num(70 + id); }),
        kind("bool(int)", [] (int id) { return [id] (int a) { return a == id; }; }, [=] (const Function& f) { return num(f.call<bool>(4)); }, [=] (int id) { return num(id == 4); }),
        kind("void(int&)", [] (int id) { return [id] (int& a) { a += id; }; }, [=] (const Function& f) { int a = 100; f.call<void>(a); return num(a); }, [=] (int id) { return num(100 + id); }),
        kind("int&(int&)", [] (int id) { return [id] (int& a) -> int& { a += id; return a; }; }, [=] (const Function& f) { int a = 100; int& r = f.call<int&>(a); return num(a) + (&r == &a ? "same" : "other"); }, [=] (int id) { return num(100 + id) + "same"; }),
        kind("const int&(const int&)", [] (int) { return [] (const int& a) -> const int& { return a; }; }, [=] (const Function& f) { const int a = 5; const int& r = f.call<const int&>(a); return std::string(&r == &a ? "same" : "other"); }, [=] (int) { return std::string("same"); }),
        kind("Obj(int)", [] (int id) { return [id] (int a) { return Obj(a + id); }; }, [=] (const Function& f) { return num(f.call<Obj>(8).get()); }, [=] (int id) { return num(8 + id); }),
        kind("int(const Obj&,int,int)", [] (int id) { return [id] (const Obj& o, int a, int b) { return o.get() * 100 + a * 10 + b + id; }; }, [=] (const Function& f) { return num(f.call<int>(Obj(3), 2, 1)); }, [=] (int id) { return num(321 + id); }),
        kind("int(Obj)", [] (int id) { return [id] (Obj o) { return o.get() + id; }; }, [=] (const Function& f) { Obj o(6); return num(f.call<int>(o)); }, [=] (int id) { return num(6 + id); }),
        kind("Value(Value)", [] (int id) { return [id] (Value x) { return Value(x.get<int>() + id); }; }, [=] (const Function& f) { Value x(9); return num(f.call<Value>(x).get<int>()); }, [=] (int id) { return num(9 + id); }),
        kind("Obj&(Obj&)", [] (int id) { return [id] (Obj& o) -> Obj& { o = Obj(o.get() + id); return o; }; }, [=] (const Function& f) { Obj o(1); Obj& r = f.call<Obj&>(o); return num(o.get()) + (&r == &o ? "same" : "other"); }, [=] (int id) { return num(1 + id) + "same"; }),
    };
    return v;
}

struct Model { int kind, id; std::string name; };

std::string ask(const Kind& k, const Function& f)
{
    std::string r;
    try { r = k.ask(f); } catch (const Error&) { return "raised"; }
    return r;
}

} // namespace p01m

// However Functions are moved, assigned, swapped and reordered, each stays what it was built as: its name, its
// signature, what it matches, the calls it takes and the ones it refuses.
VT_PROP(moved_functions, 15000, 500000, "at least one Function was assigned one of another kind")
{
    using namespace p01m;
    life().clear();
    const auto& ks = kinds();
    bool crossed = false;
    {
        std::vector<Function> fs; std::vector<Model> ms;
        auto gen = [&] { int k = int(c.g.below(ks.size())), id = int(c.g.draw(9)); return Model{ k, id, std::string(1, char('a' + c.g.draw(3))) + std::string(c.g.chance(1, 4) ? 40 : 0, 'n') }; };
        auto make = [&] (const Model& m) { return ks[m.kind].make(m.name, m.id); };
        auto text = [&] (const Model& m) { return std::string(ks[m.kind].name) + "#" + std::to_string(m.id); };
        for (size_t ops = 0; ops < 30 && (ops < 2 || c.g.more(10)); ++ops) {
            size_t n = fs.size(), i = n ? c.g.below(n) : 0, j = n ? c.g.below(n) : 0;
            switch (n ? int(c.g.draw(8)) : 0) {
            case 0: case 1: { Model m = gen(); VT_LOG("+" << text(m) << " "); fs.push_back(make(m)); ms.push_back(m); break; }
            case 2: { Model m = gen(); VT_LOG(text(ms[i]) << "=" << text(m) << " "); crossed |= m.kind != ms[i].kind; fs[i] = make(m); ms[i] = m; break; }
            case 3: {
                VT_LOG(text(ms[i]) << "=move " << text(ms[j]) << " "); crossed |= ms[i].kind != ms[j].kind;
                fs[i] = std::move(fs[j]); ms[i] = ms[j];
                if (i != j) { fs[j] = make(ms[j]); }            // what was moved from can be assigned again
                break; }
            case 4: VT_LOG("swap " << text(ms[i]) << " " << text(ms[j]) << " "); crossed |= ms[i].kind != ms[j].kind; std::swap(fs[i], fs[j]); std::swap(ms[i], ms[j]); break;
            case 5: VT_LOG("erase " << text(ms[i]) << " "); fs.erase(fs.begin() + i); ms.erase(ms.begin() + i); break;
            case 6: { Model m = gen(); VT_LOG("insert " << text(m) << " "); fs.insert(fs.begin() + i, make(m)); ms.insert(ms.begin() + i, m); break; }
            case 7: VT_LOG("rotate " << i << " "); std::rotate(fs.begin(), fs.begin() + i, fs.end()); std::rotate(ms.begin(), ms.begin() + i, ms.end()); break;
            default: { Function t(std::move(fs[i])); VT_LOG("through " << text(ms[i]) << " "); fs[i] = Function(std::move(t)); }
            }
        }
        for (size_t i = 0; i < fs.size(); ++i) {
            const Model& m = ms[i]; const Function& f = fs[i]; const Function fresh = make(m);
            VT_EQ(f.name(), m.name, "name of " << text(m));
            VT_EQ(signature(f), signature(fresh), "signature of " << text(m));
            VT_EQ(f.arguments(), fresh.arguments(), "arguments of " << text(m));
            VT_CHECK(f.returnType() == fresh.returnType(), "return type of " << text(m));
            VT_EQ(ask(ks[m.kind], f), ks[m.kind].want(m.id), "a call of " << text(m));
            // every other call is taken or refused as it was
            const Kind& o = ks[c.g.below(ks.size())]; Function probe = o.make("probe", 1);
            VT_EQ(ask(o, f), ask(o, fresh), "the call of a " << o.name << " on " << text(m));
            VT_EQ(int(f.test(probe)), int(fresh.test(probe)), "test of a " << o.name << " by " << text(m));
            VT_EQ(int(probe.test(f)), int(probe.test(fresh)), "test of " << text(m) << " by a " << o.name);
        }
        c.nontrivial(crossed);
        if (fs.size() >= 5) c.label("five Functions");
    }
    zoo::check("at the end");
    VT_EQ(life().left(), 0u, "objects that are alive at the end");
}
