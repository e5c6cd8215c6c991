// P15: traits on types, fields, functions and scopes behave as a write-once map.
//
// Histories of additions, reads, writes through references, changes to source objects, and growth of
// the entities, on a set of entities at once, against a map per entity.
#include "zoo.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "utils/json/json.h"

using namespace reflect;
using namespace zoo;

namespace p15 {
struct Host { int a, b; std::string c; void f() {} int g(int x) const { return x; } };
struct Sub : public Host { int d; };
}

// The traits of the DSL.
reflectType(p15::Host)
{
    reflectField(a); reflectField(b); reflectField(c);
    reflectFn(f); reflectFn(g);
    reflectTypeTrait(tagged);
    reflectTypeValue(version, std::string("v1.2"));
    reflectFieldTrait(a, fieldTag);
    reflectFieldValue(a, weight, 42);
    reflectFieldValue(c, json, json::alias("see"));
    reflectFnTrait(f, fnTag);
    reflectFnValue(g, doc, std::string("g of x"));
}
reflectType(p15::Sub) { reflectParent(p15::Host); reflectField(d); reflectTypeValue(version, std::string("sub")); }

reflectScope(p15scope)
{
    reflectScopeTrait(scopeTag);
    reflectScopeValue(limit, int64_t(1) << 40);
}

namespace {

enum Kind { KVoid, KInt, KStr, KObj, KDerived, NKinds };

struct Entry
{
    Kind kind; bool isConst; bool owned; int source;      // source >= 0: aliases that object
    int content;                                          // of an owned one
};

struct Sources        // objects that live for the whole case
{
    int i[3]; std::string s[3]; Obj o[3]; Derived d[3];
    int now[NKinds][3];
    Sources() { for (int k = 0; k < 3; ++k) for (int q = 1; q < NKinds; ++q) set(Kind(q), k, k * 10 + q); }
    void set(Kind q, int k, int v)
    {
        now[q][k] = v;
        switch (q) { case KInt: i[k] = v; break; case KStr: s[k] = text(v); break; case KObj: o[k].set(v); break; case KDerived: d[k].set(v); break; default:; }
    }
    const void* addr(Kind q, int k) const
    { switch (q) { case KInt: return &i[k]; case KStr: return &s[k]; case KObj: return &o[k]; default: return &d[k]; } }
    static std::string text(int v) { return "text of some length " + std::to_string(v); }
};

struct Entity
{
    std::string name;
    Traits* t;                 // as found through its owner, again each time
    std::function<Traits*()> find;
    std::map<std::string, Entry> model;
};

template<typename X> int val(const X& x) { return x.get(); }
int val(int x) { return x; }
int val(const std::string& s) { const std::string p = "text of some length "; return s.compare(0, p.size(), p) ? -12345 : atoi(s.c_str() + p.size()); }

int contentOf(const Entry& e, const Sources& s) { return e.source >= 0 ? s.now[e.kind][e.source] : e.content; }

// Reads e as an X; fits: what is allowed to work.
template<typename X> void read(vt::Case& c, Traits& t, const std::string& name, Entry& e, Sources& src, bool fits)
{
    int want = contentOf(e, src);
    switch (c.g.draw(4)) {
    case 0:
        if (!fits) { VT_CHECK(raises([&] { t.getValue<X>(name); }), "read of another type " << name); break; }
        VT_EQ(val(t.getValue<X>(name)), want, "value of " << name); break;
    case 1:
        if (!fits) { VT_CHECK(raises([&] { t.getValue<const X&>(name); }), "read of another type " << name); break; }
        { const X& x = t.getValue<const X&>(name); VT_EQ(val(x), want, "const reference of " << name);
          if (e.source >= 0) VT_CHECK((const void*)&x == src.addr(e.kind, e.source), "the source itself"); } break;
    case 2: {
        if (!fits || e.isConst) { VT_CHECK(raises([&] { t.getValue<X&>(name); }), "reference of another type or to a const " << name); break; }
        X& x = t.getValue<X&>(name);
        VT_EQ(val(x), want, "reference of " << name);
        X& y = t.getValue<X&>(name);
        VT_CHECK(&x == &y, "the same object each time");
        if (e.source >= 0) VT_CHECK((const void*)&x == src.addr(e.kind, e.source), "the source itself");
        break; }
    case 3: {
        Value v = t.getValue<Value>(name);
        VT_CHECK(e.kind != KVoid || v.isVoid(), "void");
        if (e.kind == KVoid) break;
        VT_EQ(v.isConst(), e.isConst, "constness of " << name);
        if (!fits) { VT_CHECK(raises([&] { v.get<X>(); }), "get of another type"); break; }
        VT_EQ(val(v.get<X>()), want, "Value of " << name);
        break; }
    default: {          // a copy that is changed later
        if (!fits) break;
        X x = t.getValue<X>(name);
        x = X();
        VT_EQ(val(t.getValue<const X&>(name)), want, "unchanged by a change to a copy");
        break; }
    }
}

unsigned long serial = 0;

} // namespace

VT_PROP(write_once, 12000, 400000, "several entities with traits of the same name, or a refused addition")
{
    vt::Gen& g = c.g;
    life().clear();
    {
    Sources src;
    const std::string id = "p15_" + std::to_string(serial++);
    // Entities of every kind. Types and scopes live for ever in a real program; here for a case.
    std::unique_ptr<Type> parent(new Type(id)), child(new Type(id + "_child"));
    std::unique_ptr<Scope> top(new Scope);
    child->parent(parent.get());
    std::vector<Entity> es;
    Type* P = parent.get(); Type* C = child.get(); Scope* S = top.get();
    const Argument intArg(type<int>(), RefType::Copy, false);
    int grown = 0;
    P->addField("x", Field("x", intArg, 0)); C->addField("y", Field("y", intArg, 4));
    P->addFunction("fn", [] (int) {}); C->addFunction("fn", [] (int) {}); S->addFunction("fn", [] (int) {});
    S->addFunction("in::fn", [] (int) {});
    es.push_back(Entity{ "parent", 0, [=] { return (Traits*)P; }, {} });
    es.push_back(Entity{ "child", 0, [=] { return (Traits*)C; }, {} });
    es.push_back(Entity{ "parent.x", 0, [=] { return (Traits*)&P->field("x"); }, {} });
    es.push_back(Entity{ "child.y", 0, [=] { return (Traits*)&C->field("y"); }, {} });
    es.push_back(Entity{ "parent.fn", 0, [=] { return (Traits*)&P->function("fn"); }, {} });
    es.push_back(Entity{ "child.fn", 0, [=] { return (Traits*)&C->function("fn"); }, {} });
    es.push_back(Entity{ "scope", 0, [=] { return (Traits*)S; }, {} });
    es.push_back(Entity{ "scope.fn", 0, [=] { return (Traits*)&S->function("fn"); }, {} });
    es.push_back(Entity{ "scope in", 0, [=] { return (Traits*)S->scope("in"); }, {} });
    es.push_back(Entity{ "scope in.fn", 0, [=] { return (Traits*)&S->function("in::fn"); }, {} });

    static const std::vector<std::string> names = { "json", "tag", "a", "doc", "", "weird name <>:%s", "tag2", "x" };
    bool shared = false, refused = false;
    for (int steps = 0; steps < 80 && g.more(24); ++steps) {
        Entity& e = es[g.below(es.size())];
        Traits* t = e.find();
        std::string name = g.pick(names);
        switch (g.draw(7)) {
        case 0: case 1: case 2: {
            Kind k = Kind(g.draw(NKinds - 1)); int v = int(g.range(-999, 999)), s = int(g.draw(2)), how = int(g.draw(4));
            bool dup = e.model.count(name);
            Entry n; n.kind = k; n.isConst = false; n.owned = true; n.source = -1; n.content = v;
            Value val; Obj ob(v); Derived de(v); std::string st = Sources::text(v); int in = v;
            VT_LOG(e.name << " += " << vt::quote(name) << " kind " << k << " how " << how << " " << (how < 2 || how == 4 ? v : s) << (dup ? " refused" : "") << "; ");
            bool bad = raises([&] {
                if (k == KVoid) { if (how & 1) t->addTrait(name); else t->addTrait(name, Value()); return; }
                if (how == 0 || how == 1) switch (k) {              // a temporary
                case KInt: t->addTrait(name, std::move(in)); break;
                case KStr: t->addTrait(name, std::move(st)); break;
                case KObj: t->addTrait(name, std::move(ob)); break;
                default: t->addTrait(name, std::move(de)); break; }
                else if (how == 2) { n.owned = false; n.source = s; switch (k) {      // an object
                case KInt: t->addTrait(name, src.i[s]); break;
                case KStr: t->addTrait(name, src.s[s]); break;
                case KObj: t->addTrait(name, src.o[s]); break;
                default: t->addTrait(name, src.d[s]); break; } }
                else if (how == 3) { n.owned = false; n.source = s; n.isConst = true; switch (k) {      // a const object
                case KInt: t->addTrait(name, (const int&)src.i[s]); break;
                case KStr: t->addTrait(name, (const std::string&)src.s[s]); break;
                case KObj: t->addTrait(name, (const Obj&)src.o[s]); break;
                default: t->addTrait(name, (const Derived&)src.d[s]); break; } }
                else {                                              // a Value that owns one
                    switch (k) { case KInt: val = Value(std::move(in)); break; case KStr: val = Value(std::move(st)); break; case KObj: val = Value(std::move(ob)); break; default: val = Value(std::move(de)); break; }
                    if (g.coin()) t->addTrait(name, val); else t->addTrait(name, std::move(val));
                }
            });
            VT_EQ(bad, dup, "addTrait refused " << name);
            refused = refused || dup;
            if (!dup) e.model[name] = n;
            break; }
        case 3: {      // a source changes
            Kind k = Kind(1 + g.draw(NKinds - 2)); int s = int(g.draw(2)), v = int(g.range(-999, 999));
            VT_LOG("source " << k << "/" << s << " = " << v << "; ");
            src.set(k, s, v);
            break; }
        case 4: {      // a write through a reference
            auto it = e.model.find(name);
            if (it == e.model.end() || it->second.kind == KVoid || it->second.isConst) break;
            int v = int(g.range(-999, 999)); Entry& n = it->second;
            VT_LOG(e.name << "[" << vt::quote(name) << "] := " << v << "; ");
            switch (n.kind) {
            case KInt: t->getValue<int&>(name) = v; break;
            case KStr: t->getValue<std::string&>(name) = Sources::text(v); break;
            case KObj: t->getValue<Obj&>(name).set(v); break;
            default: t->getValue<Derived&>(name).set(v); break;
            }
            if (n.source >= 0) src.now[n.kind][n.source] = v; else n.content = v;
            break; }
        case 5: {      // the owners grow
            VT_LOG("grow; ");
            std::string f = "grown" + std::to_string(grown++);
            P->addField(f, Field(f, intArg, 8)); C->addFunction(f, [] (int) {}); S->addFunction("in::" + f, [] (int) {}); S->addType("T" + f);
            switch (grown) {
            case 1: P->addFunction("fn", [] (const std::string&) {}); C->addFunction("fn", [] (Obj&) {}); break;
            case 2: P->addFunction("fn", [] (int, int) {}); S->addFunction("fn", [] (int, int) {}); S->addFunction("in::fn", [] (Obj&) {}); break;
            case 3: C->addFunction("fn", [] (int, int) {}); P->addFunction("fn", [] () {}); break; }
            break; }
        default: {     // reads, and everything that isn't there
            auto it = e.model.find(name);
            if (it == e.model.end()) {
                VT_CHECK(!t->is(name), "is " << name);
                VT_CHECK(raises([&] { t->getValue<int>(name); }) && raises([&] { t->getValue<const std::string&>(name); }) && raises([&] { t->getValue<Value>(name); }), "getValue of an absent trait " << name);
                break;
            }
            Entry& n = it->second;
            for (auto& o : es) if (&o != &e && o.model.count(name)) shared = true;
            switch (g.draw(5)) {
            case 0: read<int>(c, *t, name, n, src, n.kind == KInt); break;
            case 1: read<std::string>(c, *t, name, n, src, n.kind == KStr); break;
            case 2: read<Obj>(c, *t, name, n, src, n.kind == KObj); break;
            case 3: read<Derived>(c, *t, name, n, src, n.kind == KDerived); break;
            case 4: read<Base>(c, *t, name, n, src, n.kind == KDerived); break;
            default: read<Other>(c, *t, name, n, src, false); break;
            }
            break; }
        }
        check("on the way");
        // the listings of every entity
        for (auto& o : es) {
            Traits* q = o.find();
            std::vector<std::string> l = q->traits(); std::sort(l.begin(), l.end());
            std::vector<std::string> want; for (auto& x : o.model) want.push_back(x.first);
            VT_CHECK(l == want, "traits() of " << o.name << ": " << l.size() << " of " << want.size());
            for (auto& x : names) VT_EQ(q->is(x), o.model.count(x) > 0, "is " << vt::quote(x) << " of " << o.name);
        }
        // through a child, the parent's field and functions; the child's own traits are apart
        VT_CHECK((const Traits*)&((const Type*)C)->field("x") == es[2].find(), "inherited field");
    }
    // everything, at the end
    for (auto& e : es) for (auto& x : e.model) {
        Traits* t = e.find(); int want = contentOf(x.second, src);
        switch (x.second.kind) {
        case KVoid: VT_CHECK(t->getValue<Value>(x.first).isVoid() && raises([&] { t->getValue<int>(x.first); }), "void trait"); break;
        case KInt: VT_EQ(t->getValue<int>(x.first), want, e.name << "[" << x.first << "]"); break;
        case KStr: VT_EQ(t->getValue<std::string>(x.first), Sources::text(want), e.name << "[" << x.first << "]"); break;
        case KObj: VT_EQ(t->getValue<const Obj&>(x.first).get(), want, e.name << "[" << x.first << "]"); break;
        default: VT_EQ(t->getValue<const Derived&>(x.first).get(), want, e.name << "[" << x.first << "]"); VT_EQ(t->getValue<const Base&>(x.first).get(), want, e.name << "[" << x.first << "]"); break;
        }
    }
    c.nontrivial(shared || refused);
    if (refused) c.label("refused"); if (shared) c.label("shared name");
    es.clear();
    }
    check("at the end");
    VT_EQ(life().left(), 0u, "objects left: " << liveSummary());
}

// The traits declared with the DSL macros, and Value::is.
VT_PROP(declared, 2000, 20000, "every case")
{
    c.nontrivial();
    const Type* t = type<p15::Host>(); const Type* s = type<p15::Sub>();
    Scope* sc = const_cast<Scope*>(scope("p15scope"));
    p15::Host h; p15::Sub sub;
    auto list = [] (const Traits& x) { auto l = x.traits(); std::sort(l.begin(), l.end()); std::string r; for (auto& n : l) r += n + " "; return r; };
    int k = int(c.g.draw(7)); VT_LOG("declared " << k << " " << c.g.draw(1000));
    switch (k) {
    case 0: VT_EQ(list(*t), "tagged version ", "traits of the type"); VT_EQ(list(*s), "version ", "traits of the child"); break;
    case 1: VT_EQ(t->getValue<std::string>("version"), "v1.2", "value"); VT_EQ(s->getValue<std::string>("version"), "sub", "value"); VT_CHECK(!s->is("tagged"), "inherited"); break;
    case 2: VT_EQ(list(t->field("a")), "fieldTag weight ", "a"); VT_EQ(list(t->field("b")), "", "b"); VT_EQ(list(t->field("c")), "json ", "c"); VT_EQ(list(s->field("a")), "fieldTag weight ", "a of the child"); VT_EQ(list(s->field("d")), "", "d"); break;
    case 3: VT_EQ(t->field("a").getValue<int>("weight"), 42, "weight"); VT_EQ(t->field("c").getValue<json::Traits>("json").alias, "see", "alias"); break;
    case 4: VT_EQ(list(t->function("f")), "fnTag ", "f"); VT_EQ(t->function("g").getValue<std::string>("doc"), "g of x", "doc"); break;
    case 5: VT_EQ(list(*sc), "limit scopeTag ", "scope"); VT_EQ(sc->getValue<int64_t>("limit"), int64_t(1) << 40, "limit"); break;
    case 6: {
        Value v(h), w(sub); int i = 3; Value vi(i);
        VT_CHECK(v.is("tagged") && v.is("version") && !v.is("fieldTag") && !w.is("tagged") && w.is("version"), "Value::is asks the type");
        VT_CHECK(vi.is("integer") && !vi.is("tagged") && v.field("a").is("integer") && !v.field("a").is("fieldTag") && v.field("c").is("string"), "Value::is of a field asks the type of the field");
        break; }
    default:
        VT_CHECK(raises([&] { t->getValue<int>("version"); }) && raises([&] { t->getValue<int>("tagged"); }) && raises([&] { t->getValue<int>("none"); }), "refused reads");
        VT_CHECK(raises([&] { const_cast<Type*>(t)->addTrait("version", 3); }) && t->getValue<std::string>("version") == "v1.2", "refused addition");
    }
}
