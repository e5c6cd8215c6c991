// P09: each type id or alias names one Type object, loaded once, lazily, consistently.
#include "zoo.h"
#include "types/pointer.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/primitives.h"

using namespace reflect;
using namespace zoo;

namespace p09 {

std::map<std::string, int>& loads() { static std::map<std::string, int> m; return m; }
std::map<std::string, const Type*>& seen() { static std::map<std::string, const Type*> m; return m; }

struct A; struct B; struct C3;
struct A { B* b; std::shared_ptr<A> self; };
struct B { A* a; std::vector<A*> as; };
struct C3 : public A { B b2; };
struct Lone { int x; };
template<typename T> struct Box { T t; };
template<typename T> struct Cell { T* t; };
enum Color { Red };

} // namespace p09

reflectTypeDecl(p09::A) reflectTypeDecl(p09::B) reflectTypeDecl(p09::C3) reflectTypeDecl(p09::Lone) reflectTypeDecl(p09::Color)

// What a loader sees of a type that is on its way must be that very type.
#define P09_LOAD() do { const Type* vt_t_ = type_; p09::loads()[vt_t_->id()]++; \
        auto& vt_s_ = p09::seen()[vt_t_->id()]; if (vt_s_ && vt_s_ != vt_t_) p09::loads()["two objects for " + vt_t_->id()]++; vt_s_ = vt_t_; \
        if (type<T_>() != vt_t_ || type(vt_t_->id()) != vt_t_) p09::loads()["another object in the loader of " + vt_t_->id()]++; } while (0)

reflectTypeImpl(p09::A) { P09_LOAD(); reflectField(b); reflectField(self); reflectTypeValue(peer, type<p09::B>()); }
reflectTypeImpl(p09::B) { P09_LOAD(); reflectTypeValue(peer, type<p09::A>()); reflectField(a); reflectField(as); }
reflectTypeImpl(p09::C3) { P09_LOAD(); reflectParent(p09::A); reflectField(b2); }
reflectTypeImpl(p09::Lone) { P09_LOAD(); reflectField(x); }
reflectTypeImpl(p09::Color) { P09_LOAD(); }

reflectTemplate(p09::Box, T) { P09_LOAD(); reflectField(t); reflectTypeValue(inner, type<T>()); reflectTypeValue(cell, (type<p09::Cell<p09::Box<T>>>())); }
reflectTemplate(p09::Cell, T) { P09_LOAD(); reflectField(t); reflectTypeValue(inner, type<T>()); }

using namespace p09;

/* ------------------------------------------------------------------ C++ types, ids, aliases, in any order */

namespace {

struct Known { std::string id; bool byId; std::function<const Type*()> get; std::function<std::string()> tid; };

template<typename T> Known kn(const std::string& id, bool byId)       // byId: known by id before it is used in C++
{ return Known{ id, byId, [] { return type<T>(); }, [] { return typeId<T>(); } }; }

// Every spelling of one type shares an id; the ids are written out by hand.
std::vector<Known> all()
{
    std::vector<Known> v;
    #define SPELL(T, id, byId) do { typedef T X; v.push_back(kn<X>(id, byId)); v.push_back(kn<const X>(id, byId)); v.push_back(kn<X&>(id, byId)); \
            v.push_back(kn<const X&>(id, byId)); v.push_back(kn<X&&>(id, byId)); } while (0)
    #define SPELLP(T, id, byId) do { typedef T X; SPELL(T, id, byId); v.push_back(kn<X*>(std::string(id) + "*", false)); \
            v.push_back(kn<const X*>(std::string(id) + "*", false)); v.push_back(kn<X*&>(std::string(id) + "*", false)); } while (0)
    SPELLP(A, "p09::A", true); SPELL(B, "p09::B", true); SPELL(C3, "p09::C3", true); SPELLP(Lone, "p09::Lone", true); SPELL(Color, "p09::Color", true);
    SPELL(Box<A>, "p09::Box<p09::A>", false); SPELLP(Box<int>, "p09::Box<int>", false); SPELL(Box<Box<Lone*>>, "p09::Box<p09::Box<p09::Lone*>>", false);
    SPELL(Cell<std::vector<int>>, "p09::Cell<std::vector<int>>", false);
    SPELLP(int, "int", true); SPELL(unsigned long, "unsigned long int", true); SPELL(std::string, "std::string", true); SPELL(double, "double", true);
    SPELL(std::vector<A>, "std::vector<p09::A>", false); SPELLP(std::shared_ptr<C3>, "std::shared_ptr<p09::C3>", false); SPELL(std::vector<std::string>, "std::vector<std::string>", false);
    SPELL(Lone**, "p09::Lone**", false); v.push_back(kn<const A**>("p09::A**", false));
    typedef std::map<std::string, std::vector<A>> M1; SPELL(M1, "std::map<std::string,std::vector<p09::A>>", false);
    typedef std::unordered_map<int, std::shared_ptr<B>> M2;
    v.push_back(kn<M2>("std::unordered_map<int,std::shared_ptr<p09::B>>", false)); v.push_back(kn<M2&>("std::unordered_map<int,std::shared_ptr<p09::B>>", false));
    v.push_back(kn<std::unique_ptr<Lone>>("std::unique_ptr<p09::Lone>", false));
    v.push_back(kn<const A* const*>("p09::A**", false)); v.push_back(kn<const A* const>("p09::A*", false)); v.push_back(kn<A* const>("p09::A*", false)); v.push_back(kn<const int* const>("int*", false));
    return v;
}

} // namespace

VT_PROP_ISO(cpp_types, 1500, 40000, "two or more types requested, one of them in two ways")
{
    static const std::vector<Known> ks = all();
    std::map<std::string, const Type*> got;         // id -> object
    std::map<const Type*, std::string> back;
    std::map<std::string, std::string> aliases;
    bool twice = false;
    do {
        const Known& k = c.g.pick(ks);
        const Type* t = nullptr;
        std::string id = k.id;
        switch (c.g.draw(6)) {
        case 0: case 1: case 2: VT_LOG("<" << k.id << "> "); t = k.get(); break;
        case 3:                                   // by id: known when it was registered, else an error that changes nothing
            VT_LOG("\"" << k.id << "\" ");
            if (got.count(k.id) || k.byId) t = type(k.id);
            else { bool err = false; try { t = type(k.id); } catch (const Error&) { err = true; } if (err) id = ""; }    // may have been registered by another loader
            break;
        case 4: {
            std::string a = c.g.oneOf<const char*>({ "al::one", "two", "x<y>", "al::three" });
            bool taken = aliases.count(a);
            bool refused = raises([&] { Registry::alias(k.id, a); });
            VT_LOG("alias " << a << " ");
            VT_EQ(refused, taken, "alias " << a);
            if (!taken) aliases[a] = k.id;
            id = "";
            break; }
        case 5: {
            if (aliases.empty()) { id = ""; break; }
            auto it = aliases.begin(); std::advance(it, c.g.below(aliases.size()));
            VT_LOG("by alias " << it->first << " ");
            bool err = false; try { t = type(it->first); } catch (const Error&) { err = true; }
            id = it->second;
            if (err) { VT_CHECK(!got.count(id), "alias of a known type"); for (auto& x : ks) if (x.id == id) VT_CHECK(!x.byId, "alias of a registered type"); id = ""; }
            break; }
        default: {
            std::string bad = c.g.oneOf<const char*>({ "", "nope", "p09::Z", "p09::a", "p09::Box<nope>", " int", "int ", "const int", "int&", "p09::", "::p09::A", "p09:A" });
            VT_LOG("bad " << bad << " ");
            VT_CHECK(raises([&] { type(bad); }), "unknown id <" << bad << ">"); VT_CHECK(raises([&] { type(bad); }), "unknown id <" << bad << ">, again");
            id = ""; }
        }
        VT_EQ(k.tid(), k.id, "typeId");
        if (id.empty()) continue;
        VT_CHECK(t, "no type");
        VT_EQ(t->id(), id, "id of the type");
        if (got.count(id)) { twice = true; VT_CHECK(got[id] == t, "another object for " << id); }
        got[id] = t;
        if (back.count(t)) VT_EQ(back[t], id, "one object for two ids");
        back[t] = id;
    } while (c.g.more(14));
    for (auto& l : loads()) VT_CHECK(l.first.find(' ') == std::string::npos, l.first);
    for (auto& l : loads()) VT_EQ(l.second, 1, "loads of " << l.first);
    for (auto& x : got) { VT_CHECK(type(x.first) == x.second, "asked again: " << x.first); if (x.first.find("p09::") == 0 && x.first.find('*') == std::string::npos) VT_CHECK(loads().count(x.first), "never loaded: " << x.first); }
    for (auto& k : ks) if (got.count(k.id)) VT_CHECK(k.get() == got[k.id], "asked again in C++: " << k.id);
    // loaded completely, and consistent with one another
    if (got.count("p09::A") || got.count("p09::B") || got.count("p09::C3")) {
        VT_CHECK(type("p09::A")->getValue<const Type*>("peer") == type("p09::B") && type<B>()->getValue<const Type*>("peer") == type<A>(), "a cycle of loaders");
        VT_CHECK(type<A>()->field("b").type()->pointee() == type<B>() && type<A>()->field("self").type()->pointee() == type<A>(), "members in a cycle");
    }
    if (got.count("p09::Box<int>")) VT_CHECK(type<Box<int>>()->getValue<const Type*>("inner") == type<int>() && type<Box<int>>()->getValue<const Type*>("cell") == (type<Cell<Box<int>>>()), "a template that names itself");
    c.nontrivial(twice && got.size() > 1);
}

/* ------------------------------------------------------------------ generated loaders */

namespace {

struct Action { int kind; std::string a, b; };
struct Mod
{
    std::string id; bool added = false, loaded = false, loading = false;
    std::vector<Action> actions;
};
struct Reg
{
    std::map<std::string, Mod> mods; std::map<std::string, std::string> aliases;
    std::map<std::string, int> ran; std::map<std::string, const Type*> obj; std::string problem;
    std::string order;
};
Reg* reg;

void problem(const std::string& s) { if (reg->problem.empty()) reg->problem = s; }

// What a request should answer, by the model: the id that it loads, or "" for an error.
std::string resolves(const std::string& name)
{
    std::string id = reg->aliases.count(name) ? reg->aliases[name] : name;
    auto it = reg->mods.find(id);
    if (it == reg->mods.end() || !it->second.added) return "";
    return id;
}

void request(const std::string& name)
{
    std::string expect = resolves(name);
    const Type* t = nullptr; bool err = false;
    try { t = type(name); } catch (const Error&) { err = true; }
    // what the loader adds only matters to later requests
    if (err != expect.empty()) { problem("request of <" + name + "> " + (err ? "raised" : "was answered")); return; }
    if (err) return;
    if (t->id() != expect) problem("request of <" + name + "> gave " + t->id());
    auto& o = reg->obj[expect];
    if (o && o != t) problem("two objects for " + expect);
    o = t;
}

void addLoader(const std::string& id, bool first);

void act(const Action& a, Type* self)
{
    switch (a.kind) {
    case 0: request(a.a); break;
    case 1: addLoader(a.a, !reg->mods[a.a].added); break;
    case 2: {
        bool taken = reg->aliases.count(a.b);
        if (raises([&] { Registry::alias(a.a, a.b); }) != taken) problem("alias " + a.b);
        if (!taken) reg->aliases[a.b] = a.a;
        break; }
    case 3: if (self) self->addTrait("t" + a.a); break;
    case 4: if (self && type<int>()->id() != "int") problem("int"); break;
    case 5: {          // refused requests, in the middle
        if (!raises([&] { type(""); }) || !raises([&] { type("no::such"); })) problem("bad request answered");
        if (!raises([&] { Registry::alias("", a.b); }) || !raises([&] { Registry::alias(a.a, ""); })) problem("empty alias accepted");
        if (!raises([&] { Registry::add("", [] (Type*) {}); }) || !raises([&] { Registry::add("p09::none", std::function<void(Type*)>()); })) problem("empty loader accepted");
        break; }
    }
}

void addLoader(const std::string& id, bool first)
{
    Registry::add(id, [id, first] (Type* t) {
            if (!first) { problem("the second loader of " + id + " ran"); return; }
            Mod& m = reg->mods[id];
            reg->ran[id]++; reg->order += id + " ";
            if (m.loaded || m.loading) problem("the loader of " + id + " ran again");
            if (t->id() != id) problem("the loader of " + id + " got " + t->id());
            m.loading = true;
            auto& o = reg->obj[id];
            if (o && o != t) problem("two objects for " + id + " in its loader");
            o = t;
            if (type(id) != t) problem("self reference of " + id);
            auto actions = m.actions;
            for (auto& a : actions) act(a, t);
            t->addTrait("complete");
            m.loading = false; m.loaded = true;
        });
    reg->mods[id].added = true;
    reg->mods[id].id = id;
}

} // namespace

VT_PROP_ISO(loader_graphs, 3000, 80000, "a loader that requests others, with a cycle, an alias or a loader added on the way")
{
    Reg r; reg = &r;
    static const char* ids[] = { "p09x", "p09n::a", "p09n::b", "p09n::m::c", "p09t<x>", "p09t<p09n::a,y::z>", "p09n::t<a<b::c>>::d", "p09_9" };
    static const char* als[] = { "p09al", "p09n::al", "p09al<q>" };
    size_t n = 2 + c.g.draw(6);
    bool rich = false;
    auto action = [&] {
        Action a; a.kind = int(c.g.draw(5)); a.a = ids[c.g.below(n)]; a.b = als[c.g.below(3)];
        if (a.kind == 0 && c.g.chance(1, 4)) a.a = als[c.g.below(3)];
        static const char* ks[] = { "get", "add", "alias", "trait", "int", "bad" };
        VT_LOG(ks[a.kind] << "(" << a.a << (a.kind == 2 ? " " + a.b : "") << ") ");
        return a;
    };
    for (size_t i = 0; i < n; ++i) {
        Mod m; m.id = ids[i];
        VT_LOG(ids[i] << "{ ");
        std::set<std::string> traits;
        while (c.g.more(2)) { Action a = action(); if (a.kind == 3 && !traits.insert(a.a).second) continue; m.actions.push_back(a); if (a.kind < 3) rich = true; }
        VT_LOG("} ");
        r.mods[ids[i]] = m;
    }
    do {
        Action a = action();
        if (a.kind == 0 && r.mods.count(a.a) && !r.mods[a.a].added && c.g.coin()) a.kind = 1;       // known ids more often than not
        act(a, nullptr);
        if (!r.problem.empty()) VT_FAIL(r.problem << " after " << r.order);
    } while (c.g.more(12));
    for (auto& m : r.mods) {
        if (r.ran.count(m.first)) VT_EQ(r.ran[m.first], 1, "loads of " << m.first);
        if (m.second.added) {
            // everything added is in its scope, loaded or not, and loads to one object by every path
            VT_CHECK(reflect::scope()->hasType(m.first), m.first << " is in the global scope");
            const Type* t = type(m.first);
            VT_CHECK(!r.obj.count(m.first) || r.obj[m.first] == t, "object of " << m.first);
            VT_CHECK(reflect::scope()->type(m.first) == t, "the scope gives another object for " << m.first);
            VT_EQ(r.ran[m.first], 1, "loads of " << m.first << " at the end");
            VT_CHECK(t->is("complete"), "complete");
            for (auto& a : m.second.actions) if (a.kind == 3) VT_CHECK(t->is("t" + a.a), "trait of " << m.first);
        }
        else { VT_CHECK(raises([&] { type(m.first); }), m.first << " was never added"); VT_CHECK(!reflect::scope()->hasType(m.first), "scope has " << m.first); }
    }
    for (auto& a : r.aliases) { auto id = resolves(a.first); if (!id.empty()) VT_CHECK(type(a.first) == type(id), "alias " << a.first); else VT_CHECK(raises([&] { type(a.first); }), "alias of nothing"); }
    if (!r.problem.empty()) VT_FAIL(r.problem << " after " << r.order);
    c.nontrivial(rich && !r.ran.empty());
    c.label("loaded " + std::to_string(r.ran.size()));
}

/* ------------------------------------------------------------------ cleaning */

VT_EXAMPLE(clean_type)
{
    #define CLEAN(T, U) static_assert(std::is_same<CleanType<T>::type, U>::value, #T)
    CLEAN(int, int); CLEAN(const int, int); CLEAN(int&, int); CLEAN(const int&, int); CLEAN(int&&, int); CLEAN(const int&&, int); CLEAN(volatile int, int);
    CLEAN(int*, int*); CLEAN(const int*, int*); CLEAN(const int**, int**); CLEAN(const int* const*, int**);
    CLEAN(std::vector<int>, std::vector<int>); CLEAN(const std::vector<int>&, std::vector<int>);
    VT_CHECK(type<int>() == type<const int&>() && type<const A*>() == type<A*>(), "cleaned");
}
