// p29.h - what the generated programs of P29 are made of (see p29.gen.py).
#pragma once

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/reflect/value.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "types/std/vector.h"

namespace p29 {

struct Key {};      // of the constructor that generated classes have besides the reflected ones

/* ------------------------------------------------------------------ values */

extern int copies;              // made by copy constructors and assignments written out in a class
struct Obj
{
    int v; int* heap;
    static int live;
    Obj() : v(0), heap(new int(0)) { ++live; }
    explicit Obj(int v) : v(v), heap(new int(v)) { ++live; }
    Obj(const Obj& o) : v(o.v), heap(new int(o.v)) { ++live; ++copies; }
    Obj(Obj&& o) : v(o.v), heap(new int(o.v)) { ++live; o.v = -1; }
    Obj& operator=(const Obj& o) { v = o.v; *heap = v; return *this; }
    Obj& operator=(Obj&& o) { v = o.v; *heap = v; o.v = -1; return *this; }
    ~Obj() { --live; delete heap; }
};
struct Base { int v; Base() : v(0) {} explicit Base(int v) : v(v) {} virtual ~Base() {} virtual std::string who() const { return "Base"; } };
struct Derived : public Base { int w; Derived() : w(1) {} explicit Derived(int v) : Base(v), w(v * 2) {} std::string who() const { return "Derived"; } };
enum Color { Red, Green, Blue = 77 };

std::string show(int v); std::string show(long v); std::string show(double v); std::string show(bool v); std::string show(char v); std::string show(short v); std::string show(unsigned long v);
std::string show(const std::string& v); std::string show(const std::vector<int>& v); std::string show(const Obj& v); std::string show(const Base& v); std::string show(Color v);
std::string show(Obj* v); std::string show(Base* v); std::string show(const std::shared_ptr<Obj>& v);
template<typename C> auto show(const C& c) -> decltype(c.p29state()) { return c.p29state(); }

// Changes an object, observably.
void poke(int& v); void poke(long& v); void poke(double& v); void poke(bool& v); void poke(char& v); void poke(short& v); void poke(unsigned long& v);
void poke(std::string& v); void poke(std::vector<int>& v); void poke(Obj& v); void poke(Base& v); void poke(Color& v); void poke(Obj*& v); void poke(Base*& v); void poke(std::shared_ptr<Obj>& v);

// Some value of a type.
template<typename T> struct Mk { static T of(int n) { return T(n); } };
template<> struct Mk<bool> { static bool of(int n) { return n & 1; } };
template<> struct Mk<std::string> { static std::string of(int n) { return "s" + std::to_string(n); } };
template<> struct Mk<std::vector<int>> { static std::vector<int> of(int n) { return std::vector<int>(size_t(unsigned(n) % 4), n); } };
template<> struct Mk<Color> { static Color of(int n) { return n % 3 == 0 ? Red : n % 3 == 1 ? Green : Blue; } };
template<> struct Mk<Obj*> { static Obj* of(int n) { static Obj o[3]; o[unsigned(n) % 3] = Obj(n); return &o[unsigned(n) % 3]; } };
template<> struct Mk<Base*> { static Base* of(int n) { static Base b; static Derived d; b = Base(n); d = Derived(n); return n & 1 ? &b : &d; } };
template<> struct Mk<std::shared_ptr<Obj>> { static std::shared_ptr<Obj> of(int n) { return std::make_shared<Obj>(n); } };
template<typename T> T mk(int n) { return Mk<T>::of(n); }

// Moves out of a rvalue reference.
template<typename T> std::string take(T& v) { T x(std::move(v)); return show(x); }

template<typename T> void clear(T& v) { v = T(); }

/* ------------------------------------------------------------------ what is recorded */

extern std::string trace;
inline void note(const std::string& s) { trace += s; trace += ';'; }

// The objects that arguments come from.
struct Pool
{
    enum { N = 7 };
    int i[N]; long l[N]; double d[N]; bool b[N]; char c[N]; std::string s[N]; std::vector<int> v[N]; Obj o[N]; Base ba[N]; Derived de[N]; Color k[N]; Obj* po[N]; Base* pb[N]; Derived* pd[N]; std::shared_ptr<Obj> so[N];
    void fill(uint64_t seed);
    std::string show() const;
};

struct Where { const void* pool; const void* self; size_t size; };
inline std::string where(const Where& w, const void* p)
{
    auto in = [&] (const void* b, size_t n) { return p >= b && (const char*)p < (const char*)b + n; };
    if (in(w.pool, sizeof(Pool))) return "@pool+" + std::to_string((const char*)p - (const char*)w.pool);
    if (w.self && in(w.self, w.size)) return "@self+" + std::to_string((const char*)p - (const char*)w.self);
    return "@static";
}

template<typename R> struct Result { template<typename F> static std::string of(const Where&, const F& f) { R r = f(); return show(r); } };
template<typename T> struct Result<T&> { template<typename F> static std::string of(const Where& w, const F& f) { T& r = f(); return where(w, &r) + show(r); } };
template<> struct Result<void> { template<typename F> static std::string of(const Where&, const F& f) { f(); return "void"; } };

/* ------------------------------------------------------------------ descriptions of generated classes */

struct Site          // one callable, called directly and through reflection
{
    const char* fn; const char* text;
    std::string (*direct)(void* self, size_t size, Pool& p);
    std::string (*reflected)(const reflect::Type* t, void* self, size_t size, Pool& p);
    std::string (*valued)(void* self, size_t size, Pool& p);          // on a Value of the object, may be null
};
struct FieldSite
{
    const char* name; const char* type; bool isConst;
    void* (*addr)(void* self);
    std::string (*read)(reflect::Value& f); std::string (*direct)(void* self);
    void (*setDirect)(void* self, Pool& p); void (*setReflected)(reflect::Value& f, Pool& p);      // null when not assignable
};
struct ConsSite { const char* text; std::string (*direct)(Pool& p); std::string (*reflected)(const reflect::Type* t, Pool& p); };

struct Special
{
    bool dflt, copy, move, copyAssign, moveAssign;
};
template<typename C> Special specials()
{
    const bool mv = std::is_move_constructible<C>::value;
    return { std::is_default_constructible<C>::value, std::is_copy_constructible<C>::value, mv, std::is_copy_assignable<C>::value, std::is_move_assignable<C>::value };
}

// Leaves its mark on the stack, for what is constructed there next to show whether it was initialised.
static __attribute__((noinline, unused)) void dirtyStack() { volatile char b[8192]; for (size_t i = 0; i < sizeof(b); ++i) b[i] = 0x5A; }

// What the special members do, directly and through reflection. "" stands for: cannot be done.
typedef std::string (*SpecialFn)(bool reflected, const reflect::Type* t, void* a, void* b);
template<typename F> std::string tried(const F& f) { try { return f(); } catch (const reflect::Error&) { return "error"; } }

template<typename C, bool> struct DoDefault { static std::string go(bool viaType, const reflect::Type* t, void*, void*) { if (!viaType) return "error"; return tried([&] { t->construct(); return "constructed"; }); } };
template<typename C> struct DoDefault<C, true> { static std::string go(bool viaType, const reflect::Type* t, void*, void*)
{ dirtyStack(); if (viaType) { return tried([&] { reflect::Value v = t->construct(); return show(v.get<C>()); }); } C c{}; return show(c); } };

template<typename C, bool> struct DoCopy { static std::string go(bool viaType, const reflect::Type* t, void* a, void*) { if (!viaType) return "error"; return tried([&] { t->construct(*static_cast<const C*>(a)); return "constructed"; }); } };
template<typename C> struct DoCopy<C, true> { static std::string go(bool viaType, const reflect::Type* t, void* a, void*)
{ const C& from = *static_cast<C*>(a); if (viaType) return tried([&] { reflect::Value v = t->construct(from); return show(v.get<C>()) + show(from); }); C c(from); return show(c) + show(from); } };

template<typename C, bool> struct DoMove { static std::string go(bool viaType, const reflect::Type* t, void* a, void*) { if (!viaType) return "error"; return tried([&] { reflect::Value v(*static_cast<C*>(a)); t->construct(v.rvalue()); return "constructed"; }); } };
template<typename C> struct DoMove<C, true> { static std::string go(bool viaType, const reflect::Type* t, void* a, void*)
{ C& from = *static_cast<C*>(a); if (viaType) return tried([&] { reflect::Value f(from); reflect::Value v = t->construct(f.rvalue()); return show(v.get<C>()) + show(from); }); C c(std::move(from)); return show(c) + show(from); } };

template<typename C, bool> struct DoCopyAssign { static std::string go(bool viaType, const reflect::Type*, void* a, void* b) { if (!viaType) return "error"; return tried([&] { reflect::Value v(*static_cast<C*>(a)); v.assign(*static_cast<const C*>(b)); return "assigned"; }); } };
template<typename C> struct DoCopyAssign<C, true> { static std::string go(bool viaType, const reflect::Type* t, void* a, void* b)
{
    C& to = *static_cast<C*>(a); const C& from = *static_cast<C*>(b);
    if (viaType) return tried([&] { reflect::Value v(to); v.assign(from); return show(to) + show(from); });
    to = from; return show(to) + show(from);
} };

template<typename C, bool> struct DoMoveAssign { static std::string go(bool viaType, const reflect::Type*, void* a, void* b) { if (!viaType) return "error"; return tried([&] { reflect::Value v(*static_cast<C*>(a)), w(*static_cast<C*>(b)); v.assign(w.rvalue()); return show(*static_cast<C*>(a)) + show(*static_cast<C*>(b)); }); } };
template<typename C> void assignMoved(C& to, C& from, std::true_type) { C moved(std::move(from)); to = std::move(moved); }
template<typename C> void assignMoved(C& to, C& from, std::false_type) { to = std::move(from); }
template<typename C> struct DoMoveAssign<C, true> { static std::string go(bool viaType, const reflect::Type* t, void* a, void* b)
{
    C& to = *static_cast<C*>(a); C& from = *static_cast<C*>(b);
    if (viaType) return tried([&] { reflect::Value v(to), w(from); v.assign(w.rvalue()); return show(to) + show(from); });
    // an argument for a T&& is moved out of its Value before the function sees it
    assignMoved(to, from, std::integral_constant<bool, std::is_move_constructible<C>::value>()); return show(to) + show(from);
} };

// Allocation. what: 0 default, 1 copy, 2 move
template<typename C, int what, bool> struct DoAlloc { static std::string go(bool viaType, const reflect::Type* t, void* a, void*)
{
    if (!viaType) return "error";
    return tried([&] {
        std::unique_ptr<C> p;
        if (what == 0) p.reset(t->alloc().get<C*>()); else if (what == 1) p.reset(t->call<C*>("new", *static_cast<const C*>(a))); else { reflect::Value f(*static_cast<C*>(a)); p.reset(t->call<C*>("new", f.rvalue())); }
        return show(*p) + (what ? show(*static_cast<const C*>(a)) : std::string()); });
} };
template<typename C> struct DoAlloc<C, 0, true> { static std::string go(bool viaType, const reflect::Type* t, void*, void*)
{ std::unique_ptr<C> p; if (viaType) { std::string e = tried([&] { p.reset(t->alloc().get<C*>()); return ""; }); if (!e.empty()) return e; } else p.reset(new C()); return show(*p); } };
template<typename C> struct DoAlloc<C, 1, true> { static std::string go(bool viaType, const reflect::Type* t, void* a, void*)
{ const C& from = *static_cast<C*>(a); std::unique_ptr<C> p; if (viaType) { std::string e = tried([&] { p.reset(t->call<C*>("new", from)); return ""; }); if (!e.empty()) return e; } else p.reset(new C(from)); return show(*p) + show(from); } };
template<typename C> struct DoAlloc<C, 2, true> { static std::string go(bool viaType, const reflect::Type* t, void* a, void*)
{ C& from = *static_cast<C*>(a); std::unique_ptr<C> p; if (viaType) { std::string e = tried([&] { reflect::Value f(from); p.reset(t->call<C*>("new", f.rvalue())); return ""; }); if (!e.empty()) return e; } else p.reset(new C(std::move(from))); return show(*p) + show(from); } };

template<typename C> std::vector<SpecialFn> specialFns()
{
    const bool mv = std::is_move_constructible<C>::value;
    return { &DoDefault<C, std::is_default_constructible<C>::value && mv>::go, &DoCopy<C, std::is_copy_constructible<C>::value && mv>::go, &DoMove<C, mv>::go,
        &DoCopyAssign<C, std::is_copy_assignable<C>::value>::go, &DoMoveAssign<C, std::is_move_assignable<C>::value>::go,
        &DoAlloc<C, 0, std::is_default_constructible<C>::value>::go, &DoAlloc<C, 1, std::is_copy_constructible<C>::value>::go, &DoAlloc<C, 2, mv>::go };
}

struct Class
{
    const char* id; int parent;                       // index in the same unit, -1 none
    const reflect::Type* (*type)(); const reflect::Type* (*pointer)();
    size_t size;
    void* (*make)(int); void (*destroy)(void*); std::string (*state)(const void*); reflect::Value (*value)(void*, bool isConst);
    bool plumbing, allocPlumbing, alloc;
    Special special; std::vector<SpecialFn> specialFns;
    std::vector<std::pair<const char*, const char*>> fns;      // name and signature, without the special members
    std::vector<std::pair<const char*, const char*>> fieldTraits, fnTraits;      // owner and trait
    std::vector<const char*> traits;
    std::vector<FieldSite> fields;
    std::vector<Site> sites;
    std::vector<ConsSite> conses;
};
struct Unit
{
    const char* scope;
    std::vector<Class> classes;
    std::vector<std::pair<const char*, const char*>> globals;      // of the scope
    std::vector<const char*> traits;
    std::vector<Site> sites;                                       // reflected: the type is not used
};
std::vector<const Unit*>& units();
struct AddUnit { explicit AddUnit(const Unit* u) { units().push_back(u); } };

template<typename C> const reflect::Type* typeOf() { return reflect::type<C>(); }
template<typename C> const reflect::Type* pointerOf() { return reflect::type<C*>(); }
template<typename C> void* makeOf(int n) { return new C(Key(), n); }
template<typename C> void destroyOf(void* p) { delete static_cast<C*>(p); }
template<typename C> std::string stateOf(const void* p) { return static_cast<const C*>(p)->p29state(); }

template<typename C> reflect::Value valueOf(void* p, bool isConst) { if (isConst) return reflect::Value(*static_cast<const C*>(p)); return reflect::Value(*static_cast<C*>(p)); }

} // namespace p29

reflectTypeDecl(p29::Obj)
reflectTypeDecl(p29::Base)
reflectTypeDecl(p29::Derived)
reflectTypeDecl(p29::Color)
