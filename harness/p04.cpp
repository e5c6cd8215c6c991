// P04 - Value ownership: every stored object dies exactly once and only when unused.
//
// A history of operations over a few Value variables, container slots and caller-owned objects, run
// against a model in which every stored object has a list of owners.
#include "zoo.h"
#include "types/std/vector.h"

using namespace reflect;
using namespace zoo;

namespace {

// What a Value variable denotes in the model.
struct Ref
{
    int obj;            // index in Model::objs, -1: void
    RefType ref;
    bool isConst;
    bool owned;         // shares the ownership of a stored object
    Ref() : obj(-1), ref(RefType::Copy), isConst(false), owned(false) {}
};

struct Model
{
    struct O { bool stored, alive; int value; std::string type; const void* addr; };
    std::vector<O> objs;
};

template<typename T> int readAs(const Value& v) { return v.get<T>().get(); }

struct World
{
    vt::Case& c;
    Model m;
    std::vector<Value> vars;
    std::vector<Ref> refs;
    // caller owned objects
    std::vector<std::unique_ptr<Obj> > objs; std::vector<int> objIdx;
    std::vector<std::unique_ptr<Derived> > ders; std::vector<int> derIdx;
    std::vector<std::unique_ptr<Pinned> > pins; std::vector<int> pinIdx;

    explicit World(vt::Case& c) : c(c) {}

    int newObj(bool stored, int value, const std::string& type, const void* addr)
    {
        Model::O o = { stored, true, value, type, addr };
        m.objs.push_back(o);
        return m.objs.size() - 1;
    }

    int readValue(const Value& v, const std::string& type)
    {
        if (type == "zoo::Obj") return readAs<Obj>(v);
        if (type == "zoo::Derived") return readAs<Derived>(v);
        if (type == "zoo::MoveOnly") return readAs<MoveOnly>(v);
        if (type == "zoo::CopyOnly") return readAs<CopyOnly>(v);
        if (type == "zoo::Pinned") return readAs<Pinned>(v);
        VT_FAIL("unexpected type " << type);
    }

    // Every observable fact about every variable, and every object's liveness.
    void check(const char* where)
    {
        zoo::check(where);
        std::set<int> owned;
        for (size_t i = 0; i < vars.size(); ++i) {
            const Value& v = vars[i];
            const Ref& r = refs[i];
            if (r.obj < 0) {
                VT_CHECK(v.isVoid(), "variable " << i << " isn't void after " << where);
                VT_CHECK(!v.isStored(), "void variable " << i << " is stored after " << where);
                VT_EQ(v.typeId(), "void", "variable " << i);
                continue;
            }
            const Model::O& o = m.objs[r.obj];
            VT_CHECK(!v.isVoid(), "variable " << i << " became void after " << where);
            VT_EQ(v.typeId(), o.type, "type of variable " << i << " after " << where);
            VT_EQ(v.isStored(), r.owned, "isStored of variable " << i << " after " << where);
            VT_EQ(v.refType(), r.ref, "refType of variable " << i << " after " << where);
            VT_EQ(v.isConst(), r.isConst, "isConst of variable " << i << " after " << where);
            VT_EQ(v.value(), o.addr, "object of variable " << i << " after " << where);
            VT_EQ(readValue(v, o.type), o.value, "content of variable " << i << " after " << where);
            zoo::check(where);
            if (r.owned) owned.insert(r.obj);
        }
        // Live tracked objects: the caller's plus one per stored object still owned.
        size_t expected = objs.size() + ders.size() + pins.size() + owned.size();
        VT_EQ(life().live.size(), expected, "live objects after " << where << ": " << liveSummary());
        for (size_t i = 0; i < objs.size(); ++i) VT_EQ(objs[i]->get(), m.objs[objIdx[i]].value, "caller's Obj " << i << " after " << where);
        for (size_t i = 0; i < ders.size(); ++i) VT_EQ(ders[i]->get(), m.objs[derIdx[i]].value, "caller's Derived " << i << " after " << where);
        for (size_t i = 0; i < pins.size(); ++i) VT_EQ(pins[i]->get(), m.objs[pinIdx[i]].value, "caller's Pinned " << i << " after " << where);
    }

    Ref stored(int value, const std::string& type, const Value& v)
    {
        Ref r; r.obj = newObj(true, value, type, v.value()); r.ref = RefType::LValue; r.owned = true;
        return r;
    }
    Ref lvalue(int obj, bool isConst) { Ref r; r.obj = obj; r.ref = RefType::LValue; r.isConst = isConst; return r; }
};

Value passThrough(Value v) { return v; }
Obj makeObj(int v) { return Obj(v); }

} // namespace

VT_PROP(ownership_histories, 250000, 5000000, "at least 4 operations with a stored object shared by two Values")
{
    life().clear();
    bool shared = false; int steps = 0;
    {
        World w(c);
        for (int i = 0; i < 2; ++i) {
            w.objs.emplace_back(new Obj(10 + i)); w.objIdx.push_back(w.newObj(false, 10 + i, "zoo::Obj", w.objs.back().get()));
        }
        w.ders.emplace_back(new Derived(20)); w.derIdx.push_back(w.newObj(false, 20, "zoo::Derived", w.ders.back().get()));
        w.pins.emplace_back(new Pinned(30)); w.pinIdx.push_back(w.newObj(false, 30, "zoo::Pinned", w.pins.back().get()));
        size_t nVars = 2 + c.g.draw(3);
        w.vars.resize(nVars); w.refs.resize(nVars);

        int next = 100;
        while (c.g.more(14)) {
            ++steps;
            size_t a = c.g.below(nVars), b = c.g.below(nVars);
            int value = next++;
            std::string op;
            switch (c.g.draw(25)) {
            case 0: op = "store Obj"; w.vars[a] = Value(Obj(value)); w.refs[a] = w.stored(value, "zoo::Obj", w.vars[a]); break;
            case 1: op = "store Derived"; w.vars[a] = Value(Derived(value)); w.refs[a] = w.stored(value, "zoo::Derived", w.vars[a]); break;
            case 2: op = "store MoveOnly"; w.vars[a] = Value(MoveOnly(value)); w.refs[a] = w.stored(value, "zoo::MoveOnly", w.vars[a]); break;
            case 3: op = "store CopyOnly"; w.vars[a] = Value(CopyOnly(value)); w.refs[a] = w.stored(value, "zoo::CopyOnly", w.vars[a]); break;
            case 4: op = "refer Obj"; { size_t k = c.g.below(w.objs.size()); w.vars[a] = Value(*w.objs[k]); w.refs[a] = w.lvalue(w.objIdx[k], false); } break;
            case 5: op = "refer const Obj"; { size_t k = c.g.below(w.objs.size()); w.vars[a] = Value(const_cast<const Obj&>(*w.objs[k])); w.refs[a] = w.lvalue(w.objIdx[k], true); } break;
            case 6: op = "refer Derived"; w.vars[a] = Value(*w.ders[0]); w.refs[a] = w.lvalue(w.derIdx[0], false); break;
            case 7: op = "refer Pinned"; w.vars[a] = Value(*w.pins[0]); w.refs[a] = w.lvalue(w.pinIdx[0], c.g.coin());
                if (w.refs[a].isConst) w.vars[a] = Value(const_cast<const Pinned&>(*w.pins[0])); break;
            case 8: op = "copy-assign"; w.vars[a] = w.vars[b]; w.refs[a] = w.refs[b]; break;
            case 9: op = "copy-construct"; { Value t(w.vars[b]); w.vars[a] = t; w.refs[a] = w.refs[b]; } break;
            case 10: op = "copy-construct const"; { const Value& s = w.vars[b]; const Value t(s); w.vars[a] = t; w.refs[a] = w.refs[b]; } break;
            case 11: op = "move-assign";
                if (a == b) { op = "self move-assign"; Value& x = w.vars[a]; Value& y = w.vars[b]; x = std::move(y); break; }
                w.vars[a] = std::move(w.vars[b]); w.refs[a] = w.refs[b];
                // the moved-from Value is only required to be assignable and to own nothing
                VT_CHECK(!w.vars[b].isStored(), "a moved-from Value still owns its object");
                w.vars[b] = Value(); w.refs[b] = Ref(); break;
            case 12: op = "move-construct"; { Value t(std::move(w.vars[b])); Ref r = w.refs[b];
                VT_CHECK(!w.vars[b].isStored(), "a moved-from Value still owns its object");
                w.vars[b] = Value(); w.refs[b] = Ref(); w.vars[a] = t; w.refs[a] = r; } break;
            case 13: op = "drop"; w.vars[a] = Value(); w.refs[a] = Ref(); break;
            case 14: op = "toConst"; w.vars[a] = w.vars[b].toConst(); w.refs[a] = w.refs[b];
                if (w.refs[a].obj >= 0) { w.refs[a].ref = RefType::RValue; w.refs[a].isConst = true; } break;
            case 15: op = "rvalue"; w.vars[a] = w.vars[b].rvalue(); w.refs[a] = w.refs[b];
                if (w.refs[a].obj >= 0) w.refs[a].ref = RefType::RValue; break;
            case 16: case 17: {
                op = "copy()";
                const Ref r = w.refs[b];
                if (r.obj < 0) break;
                const Model::O o = w.m.objs[r.obj];
                if (o.type == "zoo::MoveOnly" || o.type == "zoo::Pinned" || o.type == "zoo::CopyOnly") {
                    if (o.type == "zoo::CopyOnly") break;     // no reflected copy constructor is possible for it
                    Value& s = w.vars[b];
                    VT_CHECK(raises([&] { Value t = s.copy(); }), "copy() of a " << o.type);
                    break;
                }
                // copying from an rvalue Value may move the content out of it: only lvalues are specified
                if (r.ref != RefType::LValue && !r.isConst) break;
                Value t = w.vars[b].copy();
                VT_CHECK(t.value() != o.addr, "copy() denotes the original");
                w.vars[a] = t; w.refs[a] = w.stored(o.value, o.type, t);
                break;
            }
            case 18: case 19: {
                op = "move()";
                const Ref r = w.refs[b];
                if (r.obj < 0) break;
                const Model::O o = w.m.objs[r.obj];
                if (r.isConst && o.type == "zoo::MoveOnly") {
                    op = "refused move()";      // can't be moved away and can't be copied
                    Value& s = w.vars[b];
                    VT_CHECK(raises([&] { Value t = s.move(); }), "move() of a const " << o.type);
                    break;
                }
                if (o.type == "zoo::Pinned" || o.type == "zoo::CopyOnly") {
                    if (o.type == "zoo::CopyOnly") break;
                    Value& s = w.vars[b];
                    VT_CHECK(raises([&] { Value t = s.move(); }), "move() of a " << o.type);
                    break;
                }
                Value t = w.vars[b].move();
                VT_CHECK(t.value() != o.addr, "move() denotes the original");
                if (!r.isConst) w.m.objs[r.obj].value = Moved;
                w.refs[b] = Ref();
                w.vars[a] = t; w.refs[a] = w.stored(o.value, o.type, t);
                break;
            }
            case 20: {
                op = "vector of Values";
                std::vector<Value> vec;
                for (size_t i = 0; i < w.vars.size(); ++i) vec.push_back(w.vars[i]);
                vec.reserve(vec.capacity() + 1);
                vec.insert(vec.begin() + c.g.below(vec.size() + 1), w.vars[b]);
                vec.erase(vec.begin() + c.g.below(vec.size()));
                Value t = vec.back(); Ref r;
                // which one is at the back: the same state as one of the variables
                bool found = false;
                for (size_t i = 0; i < w.vars.size() && !found; ++i)
                    if (w.vars[i].value() == t.value() && w.vars[i].isConst() == t.isConst() && w.vars[i].refType() == t.refType()
                            && w.vars[i].isStored() == t.isStored()) { r = w.refs[i]; found = true; }
                VT_CHECK(found, "a Value in a vector changed");
                std::random_shuffle(vec.begin(), vec.end(), [] (int n) { return n / 2; });
                w.vars[a] = t; w.refs[a] = r;
                break;
            }
            case 21: op = "pass through"; w.vars[a] = passThrough(w.vars[b]); w.refs[a] = w.refs[b]; break;
            case 22: { op = "construct"; Value t = type<Obj>()->construct(value);
                w.vars[a] = t; w.refs[a] = w.stored(value, "zoo::Obj", t); break; }
            case 23: {
                op = "write";
                const Ref& r = w.refs[a];
                if (r.obj < 0) break;
                Model::O& o = w.m.objs[r.obj];
                const Value& v = w.vars[a];
                if (o.type == "zoo::CopyOnly") { if (r.isConst) break; w.vars[a].as<CopyOnly>().set(value); o.value = value; break; }
                bool bad = raises([&] { v.call<void>("set", value); });
                // set needs a non-const lvalue
                bool ok = !r.isConst && r.ref == RefType::LValue;
                VT_EQ(!bad, ok, "set through a " << r.ref << (r.isConst ? " const" : ""));
                if (ok) o.value = value;
                break;
            }
            case 24: if (c.g.coin()) {
                op = "store const temporary"; const Obj k(value);
                w.vars[a] = Value(static_cast<const Obj&&>(k)); w.refs[a] = w.stored(value, "zoo::Obj", w.vars[a]);
                VT_CHECK(w.vars[a].value() != &k, "a Value of a temporary doesn't own it");
                VT_EQ(k.get(), value, "storing a const temporary changed it");
            } else { op = "return by function"; Value t = Value(makeObj(value)); Value u = t; t = Value();
                w.vars[a] = u; w.refs[a] = w.stored(value, "zoo::Obj", u); break; }
            default: {
                op = "self reference";      // a reference returned by a call doesn't own the object
                const Ref r = w.refs[b];
                if (r.obj < 0 || r.isConst || r.ref != RefType::LValue || w.m.objs[r.obj].type != "zoo::Obj") break;
                Value t = w.vars[b].call<Value>("self");
                VT_CHECK(!t.isStored(), "the Value of a returned reference owns it");
                VT_EQ(t.value(), w.vars[b].value(), "the Value of a returned reference");
                if (r.owned) break;     // keeping it would be a plain dangling reference
                w.vars[a] = t; w.refs[a] = w.lvalue(r.obj, false);
                break;
            }
            }
            VT_LOG(op << "(" << a << "," << b << ") ");
            w.check(op.c_str());
            std::map<int, int> owners;
            for (auto& r : w.refs) if (r.owned && r.obj >= 0 && ++owners[r.obj] > 1) shared = true;
        }
        c.nontrivial(steps >= 4 && shared);
        c.label(shared ? "shared" : "not shared");

        // Drop the variables in a random order: each object must live until its last owner goes.
        std::vector<size_t> order;
        for (size_t i = 0; i < nVars; ++i) order.insert(order.begin() + c.g.below(order.size() + 1), i);
        for (size_t i : order) {
            w.vars[i] = Value(); w.refs[i] = Ref();
            w.check("dropping");
        }
    }
    zoo::check("at the end");
    VT_EQ(life().live.size(), size_t(0), "objects outlive everything: " << liveSummary());
    VT_EQ(life().built, life().destroyed, "constructed vs destroyed");
}

// Value built from a temporary: exactly one move into storage, none afterwards.
VT_PROP(sharing_is_free, 20000, 200000, "at least two copies")
{
    life().clear();
    unsigned copies = c.g.draw(12);
    c.nontrivial(copies > 1);
    VT_LOG(copies << " copies");
    {
        Value v(Obj(5));
        const void* p = v.value();
        long built = life().built;
        std::vector<Value> all;
        for (unsigned i = 0; i < copies; ++i) {
            Value x = c.g.coin() ? v : Value(all.empty() ? v : c.g.pick(all));
            if (c.g.coin()) all.push_back(x); else all.push_back(std::move(x));
        }
        for (auto& x : all) VT_EQ(x.value(), p, "copies share one object");
        VT_EQ(life().built, built, "sharing built another object");
        // an lvalue is never copied
        Obj o(3);
        built = life().built;
        Value l(o); Value l2(l); Value l3 = l2; const Obj& co = o; Value l4(co); l2 = l4;
        VT_EQ(life().built, built, "a Value of an lvalue built another object");
        VT_EQ(l3.value(), (void*)&o, "address"); VT_CHECK(!l3.isStored() && !l4.isStored(), "");
        v = Value();
        for (auto& x : all) VT_EQ(x.get<Obj>().get(), 5, "content");
        VT_EQ(life().live.size(), size_t(all.empty() ? 1 : 2), "live");
    }
    zoo::check("sharing"); VT_EQ(life().live.size(), size_t(0), liveSummary());
}

namespace {

// A T at a place whose bytes were all `fill` before it was built.
template<typename T> struct Placed
{
    alignas(16) unsigned char raw[sizeof(T)];
    T* at;
    explicit Placed(unsigned char fill)
    {
        volatile unsigned char* p = raw;
        for (size_t i = 0; i < sizeof(T); ++i) p[i] = fill;
        asm volatile("" : : "r"(raw) : "memory");
        at = new (static_cast<void*>(raw)) T();
    }
    ~Placed() { at->~T(); }
};

} // namespace

// What a void Value is doesn't depend on what was in its memory before.
VT_PROP(void_values, 2000, 50000, "always")
{
    life().clear();
    unsigned char fill = (unsigned char)(c.g.draw(255));
    if (c.g.coin()) fill = 0;   // RefType and bool have few valid bytes
    if (c.g.coin()) fill = 1;
    c.nontrivial(); VT_LOG("over bytes of " << int(fill));
    {
        Placed<Argument> pa(fill); const Argument& a = *pa.at;
        VT_CHECK(a.isVoid() && a.type() == type<void>(), "a void Argument");
        VT_CHECK(a.refType() == RefType::Copy, "ref type of a void Argument"); VT_CHECK(!a.isConst() && !a.isConstRef() && !a.isLValueRef() && a.isTemporary(), "kind of a void Argument");
        VT_CHECK(a == Argument(), "equality"); VT_EQ(a.print(), std::string("void"), "");
        Placed<Value> p(fill); Value& v = *p.at;
        VT_CHECK(v.isVoid() && !v.isStored() && !v.isConst(), "a void Value");
        VT_CHECK(v.refType() == RefType::Copy, "ref type of a void Value"); VT_EQ(v.type(), type<void>(), "type of a void Value");
        VT_CHECK(!v.value(), "a void Value denotes nothing");
        Value w(v); VT_CHECK(w.isVoid() && !w.isStored() && w.refType() == RefType::Copy, "a copy");
        Obj o(4);
        switch (c.g.draw(3)) {
        case 0: v = Value(o); VT_EQ((void*)v.value(), (void*)&o, "assigned"); v = Value(); break;
        case 1: v = Value(Obj(3)); VT_EQ(v.get<Obj>().get(), 3, "assigned"); v = w; break;
        case 2: v = std::move(w); break;
        default: { Value x(Obj(2)); x = v; VT_EQ(life().live.size(), size_t(1), "x's object died"); break; }
        }
        VT_CHECK(v.isVoid() && !v.isStored() && v.refType() == RefType::Copy && !v.isConst(), "void again");
    }
    zoo::check("at the end"); VT_EQ(life().live.size(), size_t(0), liveSummary());
}

// Values that own containers of Values: an item can be all that keeps an object alive, and a Value can be given what
// is inside of the container that it owns. The model mirrors the ownership with shared pointers of its own.
namespace {

typedef std::vector<Value> Array;

struct Node;
typedef std::shared_ptr<Node> NodeP;      // null: a void Value
struct Node
{
    Node() : addr(nullptr), array(false), value(0) {}
    void* addr; bool array; int value; std::vector<NodeP> items;
    static bool reaches(const NodeP& from, const NodeP& to)
    {
        if (!from) return false;
        if (from == to) return true;
        for (auto& i : from->items) if (reaches(i, to)) return true;
        return false;
    }
    static void objects(const NodeP& n, std::set<Node*>& seen, size_t& count)
    {
        if (!n || !seen.insert(n.get()).second) return;
        if (!n->array) ++count;
        for (auto& i : n->items) objects(i, seen, count);
    }
};

void same(const Value& v, const NodeP& n, const std::string& where, int depth = 0)
{
    if (!n) { VT_CHECK(v.isVoid(), where << " isn't void"); VT_CHECK(!v.isStored(), where << " is stored"); return; }
    VT_CHECK(!v.isVoid(), where << " is void"); VT_CHECK(v.isStored(), where << " isn't stored");
    VT_EQ(v.value(), n->addr, "the object of " << where);
    if (!n->array) { VT_CHECK(v.type() == type<Obj>(), "type of " << where); VT_EQ(v.get<Obj>().get(), n->value, "content of " << where); return; }
    VT_CHECK(v.type() == type<Array>(), "type of " << where);
    const Array& a = v.get<Array>();
    VT_EQ(a.size(), n->items.size(), "size of " << where);
    for (size_t i = 0; i < a.size(); ++i) same(a[i], n->items[i], where + "[" + std::to_string(i) + "]", depth + 1);
}

} // namespace

VT_PROP(inside_containers, 60000, 1500000, "a Value was given something from inside of what it owned")
{
    vt::Gen& g = c.g;
    life().clear();
    bool inside = false;
    {
        std::vector<Value> vars(4); std::vector<NodeP> model(4);
        auto slot = [&] (size_t i) { VT_LOG("v" << i); };
        // An array somewhere inside of a variable: its Value and its node.
        auto walk = [&] (size_t i, Value*& v, NodeP& n) {
            v = &vars[i]; n = model[i]; slot(i);
            while (n && n->array && !n->items.empty() && g.chance(2, 5)) {
                size_t k = g.below(n->items.size());
                if (!n->items[k] || !n->items[k]->array) break;
                VT_LOG("[" << k << "]"); v = &v->as<Array>()[k]; n = n->items[k];
            }
            return n && n->array;
        };
        for (int steps = 0; steps < 60 && g.more(20); ++steps) {
            size_t a = g.below(4), b = g.below(4); Value* in; NodeP n; const int op = int(g.draw(13));
            VT_LOG("; " << op << " ");
            switch (op) {
            case 0: { int x = int(g.draw(99)); slot(a); VT_LOG(" = Obj " << x); vars[a] = Value(Obj(x)); model[a] = std::make_shared<Node>(); model[a]->addr = vars[a].value(); model[a]->value = x; break; }
            case 1: case 2: {
                size_t count = g.below(4); Array items; NodeP node = std::make_shared<Node>(); node->array = true; slot(a); VT_LOG(" = {");
                for (size_t i = 0; i < count; ++i) { size_t k = g.below(4); VT_LOG(" "); slot(k); items.push_back(vars[k]); node->items.push_back(model[k]); }
                VT_LOG(" }");
                vars[a] = Value(std::move(items)); node->addr = vars[a].value(); model[a] = node;
                break; }
            case 3: VT_LOG("copy "); slot(a); VT_LOG(" "); slot(b); vars[a] = vars[b]; model[a] = model[b]; break;
            case 4: if (a != b) { VT_LOG("move "); slot(a); VT_LOG(" "); slot(b); vars[a] = std::move(vars[b]); model[a] = model[b]; vars[b] = Value(); model[b] = nullptr; } break;
            case 5: slot(a); VT_LOG(" = void"); vars[a] = Value(); model[a] = nullptr; break;
            case 6: case 7: case 8: {      // a variable gets an item
                if (g.coin()) a = b;
                slot(a); VT_LOG(" = ");
                if (!walk(b, in, n) || n->items.empty()) break;
                size_t k = g.below(n->items.size()); NodeP item = n->items[k]; VT_LOG("[" << k << "]");
                if (Node::reaches(model[a], n)) inside = true;
                // Only an array that nobody else sees can have its item moved away.
                bool sole = a == b && model[a] == n && n.use_count() == 2;
                switch (g.draw(sole ? 5 : 4)) {
                case 0: vars[a] = in->as<Array>()[k]; break;
                case 1: vars[a] = in->get<Array>()[k]; break;
                case 2: { Value t(in->as<Array>()[k]); vars[a] = std::move(t); break; }
                case 3: vars[a] = in->call<Value>("at", k); break;
                case 4: vars[a] = (*in)[k]; break;
                default: VT_LOG(" moved"); vars[a] = std::move(in->as<Array>()[k]); break;
                }
                model[a] = item;
                break; }
            case 9: case 10: {      // an item gets a variable or an item of an item
                if (!walk(a, in, n)) break;
                size_t size = n->items.size(), k = g.below(size + 1); VT_LOG("[" << k << "] = ");
                if (k < size && n->items[k] && n->items[k]->array && !n->items[k]->items.empty() && g.coin()) {
                    size_t j = g.below(n->items[k]->items.size()); VT_LOG("its " << j);
                    NodeP item = n->items[k]->items[j]; Value& to = in->as<Array>()[k];
                    if (g.coin()) to = to.get<Array>()[j]; else { Value t(to.as<Array>()[j]); to = t; }
                    n->items[k] = item; inside = true;
                    break;
                }
                slot(b);
                if (Node::reaches(model[b], n)) break;      // would never be released
                if (k == size) { in->as<Array>().push_back(vars[b]); n->items.push_back(model[b]); }
                else { in->as<Array>()[k] = vars[b]; n->items[k] = model[b]; }
                break; }
            case 11: {
                if (!walk(a, in, n) || n->items.empty()) break;
                size_t k = g.below(n->items.size()); VT_LOG(" erase " << k);
                in->as<Array>().erase(in->as<Array>().begin() + k); n->items.erase(n->items.begin() + k);
                break; }
            case 12: {      // a copy of the container has the same items
                if (!walk(b, in, n)) break;
                VT_LOG(" copied to "); slot(a);
                Value t = g.coin() ? in->copy() : type<Array>()->construct(*in);
                NodeP node = std::make_shared<Node>(*n); node->addr = t.value(); vars[a] = t; model[a] = node;
                break; }
            default: {
                if (!model[a] || !model[a]->array) break;
                VT_LOG("moved by reflection "); slot(a); VT_LOG(" to "); slot(b);
                bool shared = model[a].use_count() > 1;
                Value t = vars[a].move(); NodeP node = std::make_shared<Node>(*model[a]); node->addr = t.value();
                if (shared) model[a]->items.clear();
                model[a] = nullptr; vars[b] = std::move(t); model[b] = node;
                break; }
            }
            n = nullptr;
            for (size_t i = 0; i < 4; ++i) same(vars[i], model[i], "v" + std::to_string(i));
            std::set<Node*> seen; size_t count = 0; for (auto& m : model) Node::objects(m, seen, count);
            VT_EQ(life().live.size(), count, "live objects: " << liveSummary());
            check("after a step");
        }
    }
    c.nontrivial(inside);
    VT_EQ(life().live.size(), size_t(0), "objects left");
    check("at the end");
}
