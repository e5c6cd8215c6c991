// P29 - The DSL reflects exactly what was declared, for any class, and reflected members do what direct use does.
//
// p29.gen.py writes random programs: classes with random members, special members, operators, bases,
// overloads and namespaces, reflected by a random choice of the DSL, and next to each a description and
// the same uses written out directly. Here: the descriptions against the query API, the direct uses
// against the reflected ones, on twins.
#include "vt.h"
#include "p29.h"

using namespace reflect;

reflectTypeImpl(p29::Obj) { reflectPlumbing(); }
reflectTypeImpl(p29::Base) { reflectPlumbing(); }
reflectTypeImpl(p29::Derived) { reflectParent(p29::Base); reflectPlumbing(); }
reflectTypeImpl(p29::Color) { reflectPlumbing(); }

// What the macros of the plumbing add, each on its own and in any combination: a type made while testing
// has the parts of a set of macros, over a class that reflects how it is moved or over one that doesn't.
namespace p29m {
template<bool Movable> struct Parts
{
    std::string s; int64_t n = 7;
    static int copies, moves, live;
    Parts() { ++live; }
    Parts(std::string s, int64_t n) : s(std::move(s)), n(n) { ++live; }
    Parts(const Parts& o) : s(o.s), n(o.n) { ++copies; ++live; }
    Parts(Parts&& o) : s(std::move(o.s)), n(o.n) { o.s = "moved"; o.n = -1; ++moves; ++live; }
    Parts& operator=(const Parts& o) { s = o.s; n = o.n; ++copies; return *this; }
    Parts& operator=(Parts&& o) { s = std::move(o.s); n = o.n; o.s = "moved"; o.n = -1; ++moves; return *this; }
    ~Parts() { --live; }
    std::string show() const { return s + "/" + std::to_string(n); }
};
template<bool M> int Parts<M>::copies = 0; template<bool M> int Parts<M>::moves = 0; template<bool M> int Parts<M>::live = 0;
typedef Parts<true> Movable; typedef Parts<false> Stuck;

template<typename T> struct Box { T item; int64_t tag = 3; };
template<typename T> struct Pair { T first, second; std::vector<T> more; };
typedef Box<std::string> TextBox;
}

reflectType(p29m::Movable) { reflectPlumbing(); }
reflectType(p29m::Stuck) { reflectSizeof(); }
reflectTemplate(p29m::Box, T) { reflectPlumbing(); reflectField(item); reflectField(tag); reflectTypeTrait(boxed); }
reflectTemplateDecl(p29m::Pair, T)
reflectTemplateImpl(p29m::Pair, T) { reflectPlumbing(); reflectField(first); reflectField(second); reflectField(more); reflectCustom(swap) (T_& p) { std::swap(p.first, p.second); }; }

namespace p29 {

int Obj::live = 0;
int copies = 0;
std::string trace;
std::vector<const Unit*>& units() { static std::vector<const Unit*> v; return v; }

std::string show(int v) { return "i" + std::to_string(v); }
std::string show(long v) { return "l" + std::to_string(v); }
std::string show(short v) { return "h" + std::to_string(v); }
std::string show(unsigned long v) { return "u" + std::to_string(v); }
std::string show(double v) { return "d" + std::to_string(v); }
std::string show(bool v) { return v ? "T" : "F"; }
std::string show(char v) { return "c" + std::to_string(int(v)); }
std::string show(const std::string& v) { return vt::quote(v); }
std::string show(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + ","; return s + "]"; }
std::string show(const Obj& v) { return "o" + std::to_string(v.v) + (*v.heap == v.v || v.v == -1 ? "" : "!"); }
std::string show(const Base& v) { auto d = dynamic_cast<const Derived*>(&v); return v.who() + std::to_string(v.v) + (d ? "/" + std::to_string(d->w) : ""); }
std::string show(Color v) { return "k" + std::to_string(int(v)); }
std::string show(Obj* v) { return v ? "*" + show(*v) : "null"; }
std::string show(Base* v) { return v ? "*" + show(*v) : "null"; }
std::string show(const std::shared_ptr<Obj>& v) { return v ? "*" + show(*v) : "null"; }

void poke(int& v) { v = int(unsigned(v) * 3 + 1); }
void poke(long& v) { v = long((unsigned long)v * 5 + 1); }
void poke(short& v) { v = short(v + 1); }
void poke(unsigned long& v) { v = v * 7 + 1; }
void poke(double& v) { v = v * 2 + 1; }
void poke(bool& v) { v = !v; }
void poke(char& v) { v = char(v + 1); }
void poke(std::string& v) { v += "~"; }
void poke(std::vector<int>& v) { v.push_back(int(v.size())); }
void poke(Obj& v) { v.v += 3; *v.heap = v.v; }
void poke(Base& v) { v.v += 5; }
void poke(Color& v) { v = v == Red ? Blue : Red; }
void poke(Obj*& v) { if (v) poke(*v); v = nullptr; }
void poke(Base*& v) { if (v) poke(*v); v = nullptr; }
void poke(std::shared_ptr<Obj>& v) { if (v) poke(*v); v = std::make_shared<Obj>(4); }

void Pool::fill(uint64_t seed)
{
    for (int q = 0; q < N; ++q) {
        uint64_t r = vt::mix(seed);
        i[q] = r % 5 == 0 ? 2147483647 - int(r >> 60) : int(r >> 40) % 1000; l[q] = long(r >> (r % 50)); d[q] = double(int(r >> 44)) / 8; b[q] = r >> 7 & 1; c[q] = char(r >> 9);
        s[q] = std::string(size_t(r >> 11) % 24, char('a' + q)); v[q].assign(size_t(r >> 17) % 5, int(r >> 50)); o[q] = Obj(int(r >> 45) % 500); ba[q] = Base(int(r >> 46) % 500); de[q] = Derived(int(r >> 47) % 500);
        k[q] = Mk<Color>::of(int(r >> 60)); po[q] = &o[(q + 1) % N]; pb[q] = r >> 20 & 1 ? &ba[(q + 2) % N] : &de[(q + 2) % N]; pd[q] = &de[(q + 3) % N]; so[q] = r >> 21 & 1 ? std::make_shared<Obj>(q) : nullptr;
    }
}
std::string Pool::show() const
{
    std::string r;
    auto at = [this] (const void* p) { return p ? std::to_string((const char*)p - (const char*)this) : "null"; };
    for (int q = 0; q < N; ++q) {
        using p29::show;
        r += show(i[q]) + " " + show(l[q]) + " " + show(d[q]) + " " + show(b[q]) + " " + show(c[q]) + " " + show(s[q]) + " " + show(v[q]) + " " + show(o[q]) + " " + show(ba[q]) + " " + show(de[q]) + " " + show(k[q]) + " "
            + at(po[q]) + " " + at(pb[q]) + " " + at(pd[q]) + " " + show(so[q]) + "\n";
    }
    return r;
}

} // namespace p29

namespace {

using namespace p29;

struct Holder
{
    const Class* c; void* p;
    Holder(const Class* c, int n) : c(c), p(c->make(n)) {}
    ~Holder() { c->destroy(p); }
    Holder(const Holder&) = delete;
    std::string state() const { return c->state(p); }
};

std::string list(const std::multiset<std::string>& v) { std::string s; for (auto& x : v) s += x + "; "; return s; }

struct Ref { const Unit* u; const Class* c; };
const std::vector<Ref>& classes()
{
    static const std::vector<Ref> v = [] { std::vector<Ref> v; for (auto u : units()) for (auto& c : u->classes) v.push_back({ u, &c }); return v; }();
    return v;
}
const Class* parentOf(const Ref& r) { return r.c->parent < 0 ? nullptr : &r.u->classes[r.c->parent]; }

// name -> signatures that the class itself declares
typedef std::map<std::string, std::multiset<std::string>> Table;
Table tableOf(const Class& c)
{
    Table t; const std::string id = c.id;
    for (auto& f : c.fns) t[f.first].insert(f.second);
    if (c.plumbing) {
        if (c.special.dflt && c.special.move) t[id].insert(id + "()");
        if (c.special.copy && c.special.move) t[id].insert(id + "(" + id + " const&)");
        if (c.special.move) t[id].insert(id + "(" + id + "&&)");
        if (c.special.copyAssign) t["operator="].insert(id + "&(" + id + "&, " + id + " const&)");
        if (c.special.moveAssign && c.special.move) t["operator="].insert(id + "&(" + id + "&, " + id + "&&)");
    }
    if (c.alloc) t["new"].insert(id + "*()");
    if (c.allocPlumbing) {
        if (c.special.dflt) t["new"].insert(id + "*()");
        if (c.special.copy) t["new"].insert(id + "*(" + id + " const&)");
        if (c.special.move) t["new"].insert(id + "*(" + id + "&&)");
    }
    return t;
}

// What an error says, so that unexpected ones can be told.
template<typename F> std::string run(const F& f) { try { return f(); } catch (const Error& e) { return std::string("reflect::Error ") + e.what(); } }

// A callable of the class, or of one it inherits from without hiding it.
bool hidden(const Ref& r, const Class* owner, const std::string& fn)
{
    for (const Class* c = r.c; c != owner; c = &r.u->classes[c->parent]) { if (tableOf(*c).count(fn)) return true; }
    return false;
}

} // namespace

VT_PROP(shape, 4000, 40000, "a class with at least eight members, or with a base")
{
    const Ref r = classes()[c.g.each(classes().size())];
    const Class& k = *r.c; const Type* t = k.type();
    VT_LOG(k.id);
    const std::string id = k.id;
    VT_EQ(t->id(), id, "id");
    VT_CHECK(type(id) == t && reflect::scope()->hasType(id) && reflect::scope()->type(id) == t, "found by name");
    const Class* parent = parentOf(r);
    VT_CHECK(t->parent() == (parent ? parent->type() : nullptr), "parent");
    // its own members, and those of its bases that it does not hide
    Table want = tableOf(k), all = want;
    std::map<std::string, const Class*> fields; for (auto& f : k.fields) fields[f.name] = &k;
    size_t own = want.size() + fields.size();
    for (const Class* p = parent; p; p = p->parent < 0 ? nullptr : &r.u->classes[p->parent]) {
        VT_CHECK(t->isChildOf(p->type()) && p->type()->isParentOf(t) && !p->type()->isChildOf(t), "child of " << p->id);
        for (auto& f : tableOf(*p)) all.insert(f);
        for (auto& f : p->fields) fields.insert({ f.name, p });
    }
    const Ref other = classes()[c.g.below(classes().size())];
    bool related = false; for (const Class* p = r.c; p; p = p->parent < 0 ? nullptr : &r.u->classes[p->parent]) if (p == other.c) related = true;
    VT_EQ(t->isChildOf(other.c->type()), related, "child of " << other.c->id);
    VT_EQ(k.pointer()->isChildOf(other.c->pointer()), related, "pointer to it is a child of a pointer to " << other.c->id);
    VT_CHECK(k.pointer()->isPointer() && k.pointer()->pointee() == t && k.pointer()->id() == id + "*", "pointer");

    std::multiset<std::string> got, expect;
    for (auto& f : t->functions()) got.insert(f); for (auto& f : all) expect.insert(f.first);
    VT_EQ(list(got), list(expect), "functions of " << id);
    for (auto& f : all) {
        VT_CHECK(t->hasFunction(f.first), f.first);
        const Overloads& o = t->function(f.first); std::multiset<std::string> sigs;
        for (size_t i = 0; i < o.size(); ++i) sigs.insert(signature(o[i]));
        VT_EQ(list(sigs), list(f.second), "overloads of " << id << " " << f.first);
    }
    got.clear(); expect.clear();
    for (auto& f : t->fields()) got.insert(f); for (auto& f : fields) expect.insert(f.first);
    VT_EQ(list(got), list(expect), "fields of " << id);
    VT_EQ(t->hasField("f_none") || t->hasFunction("f_none"), false, "members that are not there");
    Holder h(&k, int(c.g.small()));
    for (auto& f : fields) for (auto& s : f.second->fields) if (f.first == s.name) {
        const Field& x = t->field(f.first);
        VT_EQ(x.type()->id(), std::string(s.type), "type of " << f.first);
        VT_EQ(x.argument().isConst(), s.isConst, "constness of " << f.first);
        VT_EQ((void*)((char*)h.p + x.offset()), s.addr(h.p), "place of " << f.first);
        std::multiset<std::string> tr, gotTr; for (auto& q : f.second->fieldTraits) if (f.first == q.first) tr.insert(q.second);
        for (auto& q : x.traits()) gotTr.insert(q);
        VT_EQ(list(gotTr), list(tr), "traits of field " << f.first);
    }
    for (auto& f : want) {
        std::multiset<std::string> tr, gotTr; for (auto& q : k.fnTraits) if (f.first == q.first) tr.insert(q.second);
        for (auto& q : t->function(f.first).traits()) gotTr.insert(q);
        VT_EQ(list(gotTr), list(tr), "traits of function " << f.first);
    }
    got.clear(); expect.clear();
    for (auto& q : t->traits()) got.insert(q); for (auto& q : k.traits) expect.insert(q);
    if (k.plumbing) { expect.insert("sizeof"); VT_EQ(t->getValue<size_t>("sizeof"), k.size, "sizeof"); }
    VT_EQ(list(got), list(expect), "traits of " << id);
    c.nontrivial(own >= 8 || parent);
    c.label(parent ? "has a base" : "root"); if (k.plumbing) c.label("plumbing");
}

VT_PROP(calls, 40000, 1500000, "a callable with arguments or a result")
{
    // A callable, on an object of its class or of one derived from it.
    static const std::vector<std::pair<Ref, const Site*>> sites = [] { std::vector<std::pair<Ref, const Site*>> v; for (auto& r : classes()) for (auto& s : r.c->sites) v.push_back({ r, &s }); return v; }();
    auto at = sites[c.g.each(sites.size())]; const Site& s = *at.second;
    std::vector<Ref> on = { at.first };
    for (auto& r : classes()) if (r.u == at.first.u && r.c != at.first.c)
        for (const Class* p = r.c; p->parent >= 0; ) { p = &r.u->classes[p->parent]; if (p == at.first.c) { if (!hidden(r, at.first.c, s.fn)) on.push_back(r); break; } }
    Ref r = c.g.pick(on);
    const int n = int(c.g.small()); const uint64_t seed = c.g.draw(1 << 20);
    const bool viaValue = s.valued && c.g.coin();
    VT_LOG(s.text << (viaValue ? " on a Value" : "") << " of a " << r.c->id << "(" << n << "), arguments " << seed);
    Mk<Obj*>::of(0); const int live = Obj::live;
    {
        std::string results[2], traces[2], states[2], pools[2];
        for (int q = 0; q < 2; ++q) {
            Holder h(r.c, n); std::unique_ptr<Pool> p(new Pool); p->fill(seed);
            for (int twice = 0; twice < 2; ++twice) {           // the second call sees what the first one did
                trace.clear();
                results[q] += run([&] { return q == 0 ? s.direct(h.p, r.c->size, *p) : viaValue && r.c == at.first.c ? s.valued(h.p, r.c->size, *p) : s.reflected(r.c->type(), h.p, r.c->size, *p); }) + " ";
                traces[q] += trace; states[q] += h.state(); pools[q] += p->show();
            }
        }
        VT_EQ(traces[1], traces[0], "what the function saw, " << s.text);
        VT_EQ(results[1], results[0], "result of " << s.text);
        VT_EQ(states[1], states[0], "object after " << s.text);
        VT_EQ(pools[1], pools[0], "arguments after " << s.text);
        c.nontrivial(results[0] != "void void " || traces[0].find(',') != std::string::npos);
    }
    VT_EQ(Obj::live, live, "objects that were made and not destroyed");
    if (r.c != at.first.c) c.label("on a derived object"); if (viaValue) c.label("on a Value");
}

VT_PROP(fields, 15000, 500000, "a field of a base, or one that is assigned")
{
    static const std::vector<std::pair<Ref, const FieldSite*>> sites = [] {
        std::vector<std::pair<Ref, const FieldSite*>> v;
        for (auto& r : classes()) for (const Class* p = r.c; p; p = p->parent < 0 ? nullptr : &r.u->classes[p->parent]) for (auto& s : p->fields) v.push_back({ r, &s });
        return v; }();
    if (sites.empty()) return;
    auto at = sites[c.g.each(sites.size())]; const FieldSite& s = *at.second; const Class& k = *at.first.c;
    const int n = int(c.g.small()); const uint64_t seed = c.g.draw(1 << 20);
    VT_LOG(k.id << "(" << n << ")." << s.name);
    Holder a(&k, n), b(&k, n); std::unique_ptr<Pool> p(new Pool), q(new Pool); p->fill(seed); q->fill(seed);
    const bool isConst = c.g.chance(1, 4);
    Value obj = k.value(a.p, isConst);
    Value f = obj.field(s.name);
    VT_CHECK(f.type()->id() == s.type && f.isConst() == (isConst || s.isConst), "type of the field");
    VT_EQ(s.read(f), s.direct(b.p), "value of the field");
    VT_CHECK(f.type() == k.type()->field(s.name).type(), "type of the field");
    const bool assigns = s.setReflected && c.g.coin();
    if (assigns) {
        std::string err = run([&] { s.setReflected(f, *p); return ""; });
        if (!isConst && !s.isConst) s.setDirect(b.p, *q);
        VT_EQ(!err.empty(), isConst || s.isConst, "assignment: " << err);
        VT_EQ(a.state(), b.state(), "object after the assignment");
        VT_EQ(p->show(), q->show(), "source after the assignment");
        Value again = k.value(a.p, true).field(s.name); VT_EQ(s.read(again), s.direct(b.p), "read again");
    }
    c.nontrivial(assigns || parentOf(at.first));
    if (assigns) c.label(isConst || s.isConst ? "refused" : "assigned");
}

VT_PROP(special, 15000, 300000, "a class without some of the special members, or that reflects them")
{
    const Ref r = classes()[c.g.each(classes().size())]; const Class& k = *r.c;
    const int what = int(c.g.below(k.specialFns.size())), n = int(c.g.small()), m = int(c.g.small());
    static const char* names[] = { "default constructor", "copy constructor", "move constructor", "copy assignment", "move assignment", "allocation", "allocation of a copy", "allocation of a moved one" };
    VT_LOG(k.id << " " << names[what] << " " << n << " " << m);
    // Whether it is reflected: what the class supports, if the DSL was asked for it.
    const Special& s = k.special;
    bool have; int as = what;
    switch (what) {
    case 0: have = k.plumbing && s.dflt && s.move; break;
    case 1: have = k.plumbing && s.copy && s.move; break;
    case 2: have = k.plumbing && s.move; break;
    case 3: have = k.plumbing && s.copyAssign; break;
    case 4: have = k.plumbing && ((s.moveAssign && s.move) || s.copyAssign); if (!s.moveAssign || !s.move) as = 3; break;     // assigned from like any other
    case 5: have = k.alloc || (k.allocPlumbing && s.dflt); break;
    case 6: have = k.allocPlumbing && s.copy; break;
    default: have = k.allocPlumbing && (s.move ? k.plumbing : s.copy); if (!s.move) as = 6; break;      // a C&& is moved from only if C reflects how
    }
    // members of the bases are inherited, by name
    for (const Class* p = parentOf(r); p && !have; p = p->parent < 0 ? nullptr : &r.u->classes[p->parent]) {
        const char* name = what >= 5 ? "new" : what >= 3 ? "operator=" : nullptr;
        if (name && !tableOf(k).count(name) && tableOf(*p).count(name)) return;
    }
    Mk<Obj*>::of(0); const int live = Obj::live;
    {
        Holder a(&k, n), b(&k, m), a2(&k, n), b2(&k, m);
        copies = 0; std::string got = run([&] { return k.specialFns[what](true, k.type(), a.p, b.p); }); const int reflected = copies;
        copies = 0; std::string want = have ? k.specialFns[as](false, k.type(), a2.p, b2.p) : "error"; const int direct = copies;
        VT_EQ(got, want, names[what] << " of " << k.id);
        int moving = 1;         // whether a move of this class, or of what it holds, is a copy
        if (s.move) { Holder a3(&k, n), b3(&k, m); copies = 0; k.specialFns[2](false, k.type(), a3.p, b3.p); moving = copies; }
        if (!direct && !moving) VT_EQ(reflected, 0, "copies made by " << names[what]);
        VT_EQ(a.state(), a2.state(), "object after " << names[what]);
        VT_EQ(b.state(), b2.state(), "source after " << names[what]);
    }
    VT_EQ(Obj::live, live, "objects that were made and not destroyed");
    c.nontrivial(k.plumbing || !(s.dflt && s.copy && s.move && s.copyAssign && s.moveAssign));
    c.label(have ? names[what] : "refused");
}

VT_PROP(conses, 10000, 300000, "every case")
{
    static const std::vector<std::pair<Ref, const ConsSite*>> sites = [] { std::vector<std::pair<Ref, const ConsSite*>> v; for (auto& r : classes()) for (auto& s : r.c->conses) v.push_back({ r, &s }); return v; }();
    if (sites.empty()) return;
    auto at = sites[c.g.each(sites.size())];
    const uint64_t seed = c.g.draw(1 << 20);
    VT_LOG(at.second->text << " arguments " << seed);
    c.nontrivial();
    Mk<Obj*>::of(0); const int live = Obj::live;
    {
        std::unique_ptr<Pool> p(new Pool), q(new Pool); p->fill(seed); q->fill(seed);
        trace.clear(); std::string want = at.second->direct(*q), seen = trace;
        trace.clear(); std::string got = run([&] { return at.second->reflected(at.first.c->type(), *p); });
        VT_EQ(got, want, "object made by " << at.second->text); VT_EQ(trace, seen, "what the constructor saw"); VT_EQ(p->show(), q->show(), "arguments after " << at.second->text);
    }
    VT_EQ(Obj::live, live, "objects that were made and not destroyed");
}

namespace p29m {

enum { Sizeof, Default, Copy, Move, NewDefault, NewCopy, NewMove, CopyAssign, MoveAssign, MacroCount };
const char* const macroNames[] = { "Sizeof", "DefaultCons", "CopyCons", "MoveCons", "AllocDefaultCons", "AllocCopyCons", "AllocMoveCons", "OpCopyAssign", "OpMoveAssign" };

template<typename T_> Type* make(const std::string& id, const std::vector<int>& macros)
{
    Type* type_ = new Type(id);
    for (int m : macros) switch (m) {
    case Sizeof: reflectSizeof(); break;
    case Default: reflectDefaultCons(); break;
    case Copy: reflectCopyCons(); break;
    case Move: reflectMoveCons(); break;
    case NewDefault: reflectAllocDefaultCons(); break;
    case NewCopy: reflectAllocCopyCons(); break;
    case NewMove: reflectAllocMoveCons(); break;
    case CopyAssign: reflectOpCopyAssign(); break;
    case MoveAssign: reflectOpMoveAssign(); break;
    }
    return type_;
}

template<typename P> void parts(vt::Case& c, bool movable)
{
    static unsigned long serial = 0;
    vt::Gen& g = c.g;
    bool has[MacroCount]; std::vector<int> macros;
    for (int m = 0; m < MacroCount; ++m) if ((has[m] = g.coin())) macros.push_back(m);
    for (size_t i = macros.size(); i > 1; --i) std::swap(macros[i - 1], macros[g.below(i)]);      // the order doesn't matter
    std::string id = "p29parts" + std::to_string(serial++);
    Type* t = make<P>(id, macros);
    std::string text; for (int m : macros) text += std::string(" ") + macroNames[m];
    VT_LOG((movable ? "movable:" : "stuck:") << text << "\n");
    c.nontrivial(macros.size() >= 2 && macros.size() < MacroCount); c.label(movable ? "movable" : "not movable");

    VT_EQ(t->is("sizeof"), has[Sizeof], "trait sizeof");
    if (has[Sizeof]) VT_EQ(t->getValue<size_t>("sizeof"), sizeof(P), "sizeof");
    auto count = [&] (const std::string& fn) { return t->hasFunction(fn) ? t->function(fn).size() : size_t(0); };
    VT_EQ(count(id), size_t(has[Default] + has[Copy] + has[Move]), "constructors");
    VT_EQ(count("new"), size_t(has[NewDefault] + has[NewCopy] + has[NewMove]), "allocators");
    VT_EQ(count("operator="), size_t(has[CopyAssign] + has[MoveAssign]), "assignments");
    VT_EQ(t->functions().size(), size_t((has[Default] || has[Copy] || has[Move]) + (has[NewDefault] || has[NewCopy] || has[NewMove]) + (has[CopyAssign] || has[MoveAssign])), "functions");
    VT_CHECK(t->fields().empty(), "fields");

    const int live = P::live;
    for (int round = 0; round < 3; ++round) {
        int op = int(g.draw(8));
        P x(g.word(3), g.range(-99, 99)), y("target", 0); const P& cx = x;
        const std::string before = x.show();
        std::string made; bool raised = false;
        P::copies = P::moves = 0;
        try {
            switch (op) {
            case 0: { Value v = t->construct(); made = v.as<P>().show(); break; }
            case 1: { Value v = t->construct(x); made = v.as<P>().show(); break; }
            case 2: { Value v = t->construct(cx); made = v.as<P>().show(); break; }
            case 3: { Value v = t->construct(std::move(x)); made = v.as<P>().show(); break; }
            case 4: { std::unique_ptr<P> p(t->call<P*>("new")); made = p->show(); break; }
            case 5: { std::unique_ptr<P> p(t->call<P*>("new", cx)); made = p->show(); break; }
            case 6: { std::unique_ptr<P> p(t->call<P*>("new", std::move(x))); made = p->show(); break; }
            case 7: t->call<void>("operator=", y, cx); made = y.show(); break;
            default: t->call<void>("operator=", y, std::move(x)); made = y.show(); break;
            }
        } catch (const Error&) { raised = true; }
        enum Outcome { Raises, Fresh, Copies, Moves } want = Raises;
        // A temporary goes to what takes a T&& where there is such a thing, which needs a T that reflects its move.
        auto taken = [&] (int byRef, int byMove) { return has[byMove] ? (movable ? Moves : Raises) : has[byRef] ? Copies : Raises; };
        switch (op) {
        case 0: want = has[Default] ? Fresh : Raises; break;
        case 1: case 2: want = has[Copy] ? Copies : Raises; break;
        case 3: want = taken(Copy, Move); break;
        case 4: want = has[NewDefault] ? Fresh : Raises; break;
        case 5: want = has[NewCopy] ? Copies : Raises; break;
        case 6: want = taken(NewCopy, NewMove); break;
        case 7: want = has[CopyAssign] ? Copies : Raises; break;
        default: want = taken(CopyAssign, MoveAssign); break;
        }
        VT_LOG("  op " << op << " " << before << " want " << want << "\n");
        VT_EQ(raised, want == Raises, "op " << op);
        VT_EQ(P::copies, int(want == Copies), "copies made by op " << op);
        // a temporary is moved into a Value as soon as something takes the call
        bool handed = (op == 3 && (has[Copy] || has[Move])) || (op == 6 && (has[NewCopy] || has[NewMove])) || (op == 8 && (has[CopyAssign] || has[MoveAssign]));
        VT_EQ(x.show(), (handed ? "moved/-1" : before), "source after op " << op);
        if (!raised) VT_EQ(made, (want == Fresh ? std::string("/7") : before), "made by op " << op);
        else VT_EQ(y.show(), std::string("target/0"), "target after op " << op);
    }
    VT_EQ(P::live, live, "objects that were made and not destroyed");
}

} // namespace p29m

VT_PROP(plumbing_parts, 8000, 200000, "some of the parts but not all")
{
    if (c.g.coin()) p29m::parts<p29m::Movable>(c, true);
    else p29m::parts<p29m::Stuck>(c, false);
}

namespace p29m {

template<typename T> void box(vt::Gen& g, const std::string& inner, const std::function<T()>& make)
{
    typedef Box<T> B; typedef Pair<T> P;
    const Type* b = type<B>(); const Type* p = type<P>();
    VT_EQ(b->id(), "p29m::Box<" + inner + ">", "id"); VT_EQ(p->id(), "p29m::Pair<" + inner + ">", "id");
    VT_CHECK(reflect::type(b->id()) == b && reflect::type(p->id()) == p && type<B>() == b, "one type");
    VT_CHECK(b->is("boxed") && !p->is("boxed"), "traits");
    VT_EQ(b->getValue<size_t>("sizeof"), sizeof(B), "sizeof"); VT_EQ(p->getValue<size_t>("sizeof"), sizeof(P), "sizeof");
    VT_CHECK(b->fields() == (std::vector<std::string>{ "item", "tag" }) && p->fields() == (std::vector<std::string>{ "first", "more", "second" }), "fields");
    VT_CHECK(b->field("item").type() == type<T>() && p->field("first").type() == type<T>() && p->field("more").type() == type<std::vector<T>>(), "types of the fields");
    B x; x.item = make(); P y; y.first = make(); y.second = make(); P twin = y;
    Value vx(x), vy(y);
    VT_CHECK(&vx.field("item").as<T>() == &x.item && &vx.field("tag").as<int64_t>() == &x.tag, "fields of the object");
    VT_CHECK(&vy.field("first").as<T>() == &y.first && &vy.field("second").as<T>() == &y.second && &vy.field("more").as<std::vector<T>>() == &y.more, "fields of the object");
    vy.call<void>("swap"); std::swap(twin.first, twin.second);
    Value m = vy.copy();
    VT_CHECK(&m.field("first").as<T>() != &y.first && m.type() == p, "a copy");
    g.coin();
}

} // namespace p29m

VT_PROP(templates, 4000, 40000, "every case")
{
    using namespace p29m;
    vt::Gen& g = c.g; c.nontrivial();
    int k = int(g.draw(3)); std::string text = g.word(4); int64_t n = g.range(-999, 999);
    VT_LOG(k << " " << text << " " << n);
    switch (k) {
    case 0: box<int64_t>(g, typeId<int64_t>(), [&] { return n++; }); break;
    case 1: box<std::string>(g, typeId<std::string>(), [&] { text += "x"; return text; }); break;
    case 2: box<Box<std::string>>(g, "p29m::Box<std::string>", [&] { Box<std::string> r; r.item = text; return r; }); break;
    default: box<Pair<int64_t>>(g, "p29m::Pair<" + typeId<int64_t>() + ">", [&] { Pair<int64_t> r; r.first = n; r.second = ++n; return r; }); break;
    }
    static bool once = [] { reflectAlias(TextBox); return true; }(); (void) once;
    const Type* textBox = type<Box<std::string>>();     // a template is known once it was used
    VT_CHECK(reflect::type("TextBox") == textBox, "alias");

    // a pointer type of one's own
    static unsigned long serial = 0;
    Type* type_ = new Type("p29ptr" + std::to_string(serial++));
    bool done = false;
    VT_CHECK(!type_->isPointer() && !type_->is("pointer"), "not a pointer yet");
    for (int i = 0; i < 2; ++i) {
        bool raised = false;
        try { reflectPointer(@own, p29m::TextBox); } catch (const Error&) { raised = true; }
        VT_EQ(raised, done, "declared as a pointer, attempt " << i); done = true;
        VT_CHECK(type_->isPointer() && type_->is("pointer") && type_->pointer() == "@own" && type_->pointee() == type<Box<std::string>>(), "what it points to");
    }
}

VT_PROP(globals, 10000, 300000, "every case")
{
    const Unit& u = *units()[c.g.each(units().size())];
    const Scope* s = reflect::scope(u.scope);
    VT_LOG(u.scope);
    c.nontrivial();
    Table want; for (auto& f : u.globals) want[f.first].insert(f.second);
    std::multiset<std::string> got, expect;
    for (auto& f : s->functions()) got.insert(f); for (auto& f : want) expect.insert(f.first);
    VT_EQ(list(got), list(expect), "functions of " << u.scope);
    for (auto& f : want) { const Overloads& o = s->function(f.first); std::multiset<std::string> sigs; for (size_t i = 0; i < o.size(); ++i) sigs.insert(signature(o[i])); VT_EQ(list(sigs), list(f.second), "overloads of " << f.first); }
    got.clear(); expect.clear(); for (auto& q : s->traits()) got.insert(q); for (auto& q : u.traits) expect.insert(q);
    VT_EQ(list(got), list(expect), "traits of " << u.scope);
    got.clear(); expect.clear(); for (auto& q : s->types(true)) got.insert(std::string(u.scope) + "::" + q); for (auto& q : u.classes) expect.insert(q.id);
    for (auto& q : expect) VT_CHECK(got.count(q) == 1, "type " << q << " in its scope");
    if (u.sites.empty()) return;
    const Site& f = u.sites[c.g.below(u.sites.size())]; const uint64_t seed = c.g.draw(1 << 20);
    VT_LOG(" " << f.text << " arguments " << seed);
    std::unique_ptr<Pool> p(new Pool), q(new Pool); p->fill(seed); q->fill(seed);
    trace.clear(); std::string wanted = f.direct(nullptr, 0, *q), seen = trace;
    trace.clear(); std::string result = run([&] { return f.reflected(nullptr, nullptr, 0, *p); });
    VT_EQ(result, wanted, "result of " << f.text); VT_EQ(trace, seen, "what " << f.text << " saw"); VT_EQ(p->show(), q->show(), "arguments after " << f.text);
}
