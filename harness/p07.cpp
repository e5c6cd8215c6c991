// P07 - Type relations form the declared hierarchy; members are inherited and shadowed.
//
// Histories of building synthetic Types (parents, pointers, functions, fields, converters) against a
// model made of plain sets, every query compared; plus what the static classes of zoo.h really reflect.
#include "zoo.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/vector.h"

using namespace reflect;
using namespace zoo;

namespace p07 {

// Classes that reflect only part of what they have.
struct OnlyDefault { int x; }; struct OnlyCopy { int x; }; struct OnlyMove { int x; }; struct FromInt { int x; FromInt() : x(0) {} explicit FromInt(int v) : x(v) {} };
struct FromBase : public Base { FromBase() {} explicit FromBase(const Base& b) : Base(b) {} };
struct Nothing {}; struct ChildOfCopy : public OnlyCopy {};

} // namespace p07

reflectType(p07::OnlyDefault) { reflectDefaultCons(); }
reflectType(p07::OnlyCopy) { reflectCopyCons(); }
reflectType(p07::OnlyMove) { reflectMoveCons(); }
reflectType(p07::FromInt) { reflectCons(int); reflectDefaultCons(); }
reflectType(p07::FromBase) { reflectParent(zoo::Base); reflectCons(const zoo::Base&); }      // a child is accepted where its parent is
reflectType(p07::Nothing) {}
reflectType(p07::ChildOfCopy) { reflectParent(p07::OnlyCopy); }

namespace {

struct MType
{
    std::string id;
    int parent;                                   // -1 none
    std::string kind; int pointee;                // "" not a pointer
    std::map<std::string, std::vector<int>> fns;  // name -> ids of its overloads
    std::map<std::string, int> fields;            // name -> offset
    std::unique_ptr<Type> t;
};

typedef std::vector<std::unique_ptr<MType>> World;

bool childOf(const World& w, int a, int b)
{
    if (a == b) return true;
    bool pa = !w[a]->kind.empty(), pb = !w[b]->kind.empty();
    if (pa && pb) return w[a]->kind == w[b]->kind && childOf(w, w[a]->pointee, w[b]->pointee);
    for (int p = w[a]->parent; p >= 0; p = w[p]->parent) if (p == b) return true;
    return false;
}

template<typename Map> std::set<std::string> namesOf(const World& w, int i, Map MType::* m)
{
    std::set<std::string> r;
    for (int p = i; p >= 0; p = w[p]->parent) for (auto& x : (*w[p]).*m) r.insert(x.first);
    return r;
}
template<typename Map> int definer(const World& w, int i, const std::string& name, Map MType::* m)
{
    for (int p = i; p >= 0; p = w[p]->parent) if (((*w[p]).*m).count(name)) return p;
    return -1;
}

template<typename V> std::string list(const V& v) { std::string s; for (auto& x : v) s += x + ","; return s; }

// What an overload answers, whatever it is called with.
Function fnWith(int kind, int answer)
{
    switch (kind) {
    case 0: return Function("f", [answer] () { return answer; });
    case 1: return Function("f", [answer] (int) { return answer; });
    case 2: return Function("f", [answer] (const std::string&) { return answer; });
    default: return Function("f", [answer] (Obj&, int) { return answer; });
    }
}
int answerOf(const Overloads& o, int kind)
{
    Obj x(1);
    switch (kind) {
    case 0: return o.call<int>(); case 1: return o.call<int>(5); case 2: return o.call<int>(std::string("x")); default: return o.call<int>(x, 5);
    }
}

} // namespace

VT_PROP(histories, 7000, 250000, "a hierarchy of two or more levels, or pointers, or shadowed names")
{
    World w;
    const std::vector<std::string> names = { "a", "b", "c", "d", "operator++", "get", "x::y", "zz" };
    int answers = 0;
    auto newType = [&] {
        auto m = std::unique_ptr<MType>(new MType);
        m->id = (c.g.chance(1, 4) ? "tmpl<" + c.g.word(1) + "::" : "p07::") + "T" + std::to_string(w.size());
        m->parent = -1; m->pointee = -1;
        m->t.reset(new Type(m->id));
        w.push_back(std::move(m));
    };
    for (size_t n = 2 + c.g.draw(5); n > 0; --n) newType();
    unsigned ops = 0;
    bool deep = false, shadow = false, ptrs = false;
    do {
        ++ops;
        int i = int(c.g.below(w.size()));
        MType& m = *w[i];
        const std::string name = c.g.chance(1, 10) ? m.id : c.g.pick(names);
        switch (c.g.draw(7)) {
        case 0: if (w.size() < 9) { newType(); VT_LOG("new; "); } break;
        case 1: {          // parents only point at types that are not their children, pointers have none
            int p = int(c.g.below(w.size()));
            if (!m.kind.empty() || !w[p]->kind.empty() || childOf(w, p, i)) break;
            m.parent = p; m.t->parent(w[p]->t.get());
            VT_LOG("T" << i << " : T" << p << "; ");
            deep = deep || w[p]->parent >= 0;
            break;
        }
        case 2: {
            int p = int(c.g.below(w.size()));
            std::string kind = c.g.oneOf<const char*>({ "*", "std::shared_ptr", "std::unique_ptr" });
            bool cyc = false;                   // a pointer never points, at any distance, at itself
            for (int q = p; q >= 0; q = w[q]->pointee) if (q == i) cyc = true;
            if (cyc || m.parent >= 0) break;
            bool isParent = false; for (auto& x : w) if (x->parent == i) isParent = true;
            if (isParent) break;
            bool refused = !m.kind.empty();
            VT_LOG("T" << i << " = " << kind << " to T" << p << (refused ? " refused" : "") << "; ");
            VT_EQ(raises([&] { m.t->setPointer(kind, w[p]->t.get()); }), refused, "setPointer twice");
            if (!refused) { m.kind = kind; m.pointee = p; ptrs = true; }
            break;
        }
        case 3: case 4: {
            int kind = int(c.g.draw(3)), answer = ++answers * 10 + kind;
            bool refused = m.fields.count(name);
            auto& have = m.fns[name];
            bool dup = false; for (int a : have) if (a % 10 == kind) dup = true;
            if (have.empty()) m.fns.erase(name);
            VT_LOG("fn T" << i << "." << name << "/" << kind << (refused || dup ? " refused" : "") << "; ");
            VT_EQ(raises([&] { m.t->addFunction(name, fnWith(kind, answer)); }), refused || dup, "addFunction " << name);
            if (!refused && !dup) m.fns[name].push_back(answer);
            break;
        }
        case 5: {
            bool refused = m.fns.count(name) || m.fields.count(name);
            int off = ++answers;
            VT_LOG("field T" << i << "." << name << (refused ? " refused" : "") << "; ");
            VT_EQ(raises([&] { m.t->addField(name, Field(name, Argument(type<int>(), RefType::Copy, c.g.coin()), off)); }), refused, "addField " << name);
            if (!refused) m.fields[name] = off;
            if (c.g.chance(1, 6))
                VT_CHECK(raises([&] { m.t->addField("ref", Field("ref", Argument(type<int>(), c.g.coin() ? RefType::LValue : RefType::RValue, false), 0)); }), "reference field");
            break;
        }
        case 6: {          // a converter
            int to = int(c.g.below(w.size()));
            std::string n = "operator " + w[to]->id + "()";
            int answer = ++answers * 10;
            auto& have = m.fns[n];
            bool dup = !have.empty();
            int kind = dup && c.g.coin() ? 1 : 0;
            if (dup && kind == 1) for (int a : have) if (a % 10 == 1) kind = 0;
            bool refused = dup && kind == 0;
            VT_LOG("T" << i << " -> T" << to << (refused ? " refused" : "") << "; ");
            VT_EQ(raises([&] { m.t->addFunction(n, fnWith(kind, answer + kind)); }), refused, n);
            if (!refused) have.push_back(answer + kind);
            break;
        }
        default: break;
        }

        // Every question, about one pair and one name.
        int a = int(c.g.below(w.size())), b = int(c.g.below(w.size()));
        const std::string q = c.g.chance(1, 3) ? "operator " + w[b]->id + "()" : c.g.pick(names);
        const MType& x = *w[a]; const Type* ta = x.t.get(); const Type* tb = w[b]->t.get();
        bool child = childOf(w, a, b);
        VT_EQ(ta->isChildOf(tb), child, "T" << a << " isChildOf T" << b);
        VT_EQ(tb->isParentOf(ta), child, "T" << b << " isParentOf T" << a);
        VT_EQ(ta->id(), x.id, "id"); VT_EQ(ta->parent(), x.parent < 0 ? nullptr : (const Type*)w[x.parent]->t.get(), "parent");
        VT_EQ(ta->isPointer(), !x.kind.empty(), "isPointer");
        VT_EQ(ta->is("pointer"), !x.kind.empty(), "pointer trait");
        if (x.kind.empty()) VT_CHECK(raises([&] { ta->pointer(); }) && raises([&] { ta->pointee(); }), "pointee of a non pointer");
        else { VT_EQ(ta->pointer(), x.kind, "pointer()"); VT_EQ(ta->pointee(), (const Type*)w[x.pointee]->t.get(), "pointee()"); }

        VT_EQ(list(ta->functions()), list(namesOf(w, a, &MType::fns)), "functions()");
        VT_EQ(list(ta->fields()), list(namesOf(w, a, &MType::fields)), "fields()");
        int df = definer(w, a, q, &MType::fns), dd = definer(w, a, q, &MType::fields);
        VT_EQ(ta->hasFunction(q), df >= 0, "hasFunction " << q); VT_EQ(ta->hasField(q), dd >= 0, "hasField " << q);
        if (df >= 0) {
            const Overloads& o = ta->function(q);
            const auto& model = w[df]->fns.at(q);
            VT_EQ(o.size(), model.size(), "overloads of " << q);
            for (int ans : model) VT_EQ(answerOf(o, ans % 10), ans, "nearest definition of " << q);
            for (int p = w[df]->parent; p >= 0; p = w[p]->parent) if (w[p]->fns.count(q)) shadow = true;
        }
        else VT_CHECK(raises([&] { ta->function(q); }), "function " << q << " which is absent");
        if (dd >= 0) { VT_EQ(ta->field(q).offset(), size_t(w[dd]->fields.at(q)), "nearest field " << q); VT_EQ(ta->field(q).name(), q, "name of the field"); }
        else VT_CHECK(raises([&] { ta->field(q); }), "field " << q << " which is absent");
        // the non-const lookups are immediate only
        VT_EQ(raises([&] { x.t->function(q); }), !x.fns.count(q), "immediate function " << q);
        VT_EQ(raises([&] { x.t->field(q); }), !x.fields.count(q), "immediate field " << q);

        std::string conv = "operator " + w[b]->id + "()";
        int dc = definer(w, a, conv, &MType::fns);
        VT_EQ(ta->hasConverter(tb), dc >= 0, "hasConverter");
        if (dc < 0) VT_CHECK(raises([&] { ta->converter(tb); }), "converter which is absent");
        else if (w[dc]->fns.at(conv).size() > 1) VT_CHECK(raises([&] { ta->converter(tb); }), "two converters");
        else VT_EQ(ta->converter(tb).call<int>(), w[dc]->fns.at(conv)[0], "converter");
        bool cons = definer(w, a, x.id, &MType::fns) >= 0;
        VT_EQ(ta->hasFunction(x.id), cons, "constructors");
        VT_CHECK(!ta->isCopiable() && !ta->isMovable(), "no constructor takes the type itself");
    } while (c.g.more(25));

    // Refused changes must not have left anything behind: everything once more, for everybody.
    for (size_t a = 0; a < w.size(); ++a) {
        VT_EQ(list(w[a]->t->functions()), list(namesOf(w, int(a), &MType::fns)), "functions() at the end");
        VT_EQ(list(w[a]->t->fields()), list(namesOf(w, int(a), &MType::fields)), "fields() at the end");
        for (auto& f : w[a]->fns) { VT_EQ(w[a]->t->function(f.first).size(), f.second.size(), "overloads at the end"); for (int ans : f.second) VT_EQ(answerOf(w[a]->t->function(f.first), ans % 10), ans, "at the end"); }
        for (auto& f : w[a]->fields) VT_EQ(w[a]->t->field(f.first).offset(), size_t(f.second), "field at the end");
        for (size_t b = 0; b < w.size(); ++b) VT_EQ(w[a]->t->isChildOf(w[b]->t.get()), childOf(w, int(a), int(b)), "T" << a << " isChildOf T" << b << " at the end");
        VT_CHECK(!w[a]->t->print().empty(), "print");
    }
    c.nontrivial(deep || shadow || ptrs);
    if (deep) c.label("three levels"); if (shadow) c.label("shadowed"); if (ptrs) c.label("pointers");
}

/* ------------------------------------------------------------------ the static classes */

namespace {

struct Static { const Type* t; std::string family; int depth; bool copiable, movable; std::vector<const Type*> converters; };

template<typename X> Static st(const char* fam, int depth, bool cp, bool mv, std::vector<const Type*> conv = {})
{ return Static{ type<X>(), fam, depth, cp, mv, conv }; }

const std::vector<Static>& statics()
{
    const Type* b = type<bool>();
    static const std::vector<Static> v = {
        st<int>("int", 0, true, true), st<double>("double", 0, true, true), st<std::string>("string", 0, true, true),
        st<Obj>("obj", 0, true, true), st<Other>("other", 0, true, true), st<Conv>("conv", 0, true, true, { type<Obj>(), type<int>() }),
        st<MoveOnly>("mo", 0, false, true), st<CopyOnly>("co", 0, false, false), st<Pinned>("pin", 0, false, false),
        st<Base>("b", 0, true, true), st<Derived>("b", 1, true, true), st<Leaf>("b", 2, true, true),
        st<Base*>("b*", 0, true, true, { b }), st<Derived*>("b*", 1, true, true, { b }), st<Leaf*>("b*", 2, true, true, { b }), st<Obj*>("obj*", 0, true, true, { b }),
        st<Base**>("b**", 0, true, true, { b }), st<Leaf**>("b**", 2, true, true, { b }), st<int*>("int*", 0, true, true, { b }),
        st<std::shared_ptr<Base>>("sb", 0, true, true, { b }), st<std::shared_ptr<Leaf>>("sb", 2, true, true, { b }), st<std::shared_ptr<Obj>>("so", 0, true, true, { b }),
        st<std::unique_ptr<Base>>("ub", 0, false, true, { b }), st<std::unique_ptr<Leaf>>("ub", 2, false, true, { b }),
        st<std::shared_ptr<Base*>>("sb*", 0, true, true, { b }), st<std::shared_ptr<Leaf*>>("sb*", 2, true, true, { b }), st<std::shared_ptr<Base>*>("psb", 0, true, true, { b }), st<std::shared_ptr<Derived>*>("psb", 1, true, true, { b }),
        st<std::vector<Base>>("vb", 0, true, true), st<std::vector<Leaf>>("vl", 0, true, true),
        st<p07::OnlyDefault>("od", 0, false, false), st<p07::OnlyCopy>("oc", 0, true, true), st<p07::OnlyMove>("om", 0, false, true),
        st<p07::FromInt>("fi", 0, false, false), st<p07::Nothing>("n", 0, false, false), st<p07::ChildOfCopy>("oc", 1, false, false) };
    return v;
}

} // namespace

VT_PROP(static_types, 3000, 10000, "two related or pointer types")
{

    const auto& v = statics();
    const Static& a = c.g.pick(v); const Static& b = c.g.pick(v);
    VT_LOG(a.t->id() << " " << b.t->id());
    bool child = a.family == b.family && a.depth >= b.depth;
    c.nontrivial(a.family == b.family || a.t->isPointer());
    VT_EQ(a.t->isChildOf(b.t), child, ""); VT_EQ(b.t->isParentOf(a.t), child, "");
    VT_EQ(a.t->isCopiable(), a.copiable, a.t->id() << " isCopiable"); VT_EQ(a.t->isMovable(), a.movable, a.t->id() << " isMovable");
    bool conv = false; for (auto* t : a.converters) if (t == b.t) conv = true;
    VT_EQ(a.t->hasConverter(b.t), conv, a.t->id() << " to " << b.t->id());
    for (auto& n : a.t->functions()) { VT_CHECK(a.t->hasFunction(n), n); VT_CHECK(a.t->function(n).size() > 0, n); }
    for (auto& n : a.t->fields()) { VT_CHECK(a.t->hasField(n), n); VT_EQ(a.t->field(n).name(), n, ""); }
    VT_CHECK(!a.t->hasFunction("no such") && !a.t->hasField("no such"), "absent");
    VT_CHECK(type<Leaf>()->isChildOf<Base>() && type<Base>()->isParentOf<Leaf>() && !type<Base>()->isChildOf<Leaf>() && type<Conv>()->hasConverter<Obj>(), "templated forms");
    // shadowing: the child's own definition, also through a Value
    Leaf l(1); Derived d(1); Base bb(1);
    VT_EQ(Value(l).call<int>("shadow"), 2, "shadow"); VT_EQ(Value(d).call<int>("shadow"), 2, "shadow"); VT_EQ(Value(bb).call<int>("shadow"), 1, "shadow");
}
