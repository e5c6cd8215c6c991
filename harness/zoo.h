/* zoo.h - reflected classes whose instances account for their own lifetime. */
#pragma once

#include "vt.h"

#include <set>

#include "reflect.h"
#include "dsl/all.h"
#include "types/std/string.h"

namespace zoo {

enum { Moved = -777777 };

/* ------------------------------------------------------------------ lifetime accounting */

// Address -> what was constructed there. Constructing over a live object, using or destroying a dead
// one is recorded as a fault; faults are raised by check().
struct Life
{
    std::map<const void*, const char*> live, permanent;     // permanent: statics, alive before the first case
    std::string fault;
    long copies, moves, destroyed, built;
    void keepAll() { permanent = live; }
    size_t left() const { return live.size() - permanent.size(); }
    void clear() { live = permanent; fault.clear(); copies = moves = destroyed = built = 0; }
};
inline Life& life() { static Life l; return l; }

struct Track
{
    const char* what;
    explicit Track(const char* w) : what(w) { add(); }
    Track(const Track& o) : what(o.what) { o.used("copied"); add(); life().copies++; }
    Track(Track&& o) : what(o.what) { o.used("moved"); add(); life().moves++; }
    Track& operator=(const Track& o) { used("assigned to"); o.used("assigned from"); return *this; }
    Track& operator=(Track&& o) { used("assigned to"); o.used("assigned from"); return *this; }
    ~Track()
    {
        life().destroyed++;
        if (!life().live.erase(this)) fault("destroyed twice");
    }
    void used(const char* how) const { if (!life().live.count(this)) fault(how); }
    void fault(const char* how) const
    { if (life().fault.empty()) life().fault = std::string("dead object ") + how; }
private:
    void add()
    {
        life().built++;
        if (!life().live.emplace(this, what).second && life().fault.empty())
            life().fault = std::string("constructed over a live object: ") + what;
    }
};

inline void check(const char* where)
{
    if (!life().fault.empty()) VT_FAIL("lifetime fault " << where << ": " << life().fault);
}

inline std::string liveSummary()
{
    std::map<std::string, int> n;
    for (auto& x : life().live) n[x.second]++;
    std::string s;
    for (auto& x : n) s += x.first + "x" + std::to_string(x.second) + " ";
    return s;
}

// An int that shows that it was moved from.
struct Num
{
    int v;
    explicit Num(int v = 0) : v(v) {}
    Num(const Num& o) : v(o.v) {}
    Num(Num&& o) : v(o.v) { o.v = Moved; }
    Num& operator=(const Num& o) { v = o.v; return *this; }
    Num& operator=(Num&& o) { int x = o.v; o.v = Moved; v = x; return *this; }
};

/* ------------------------------------------------------------------ classes */

struct Obj
{
    Num n; Track t;
    Obj() : n(0), t("Obj") {}
    explicit Obj(int v) : n(v), t("Obj") {}
    Obj(const Obj&) = default; Obj(Obj&&) = default;
    Obj& operator=(const Obj&) = default; Obj& operator=(Obj&&) = default;
    int get() const { t.used("read"); return n.v; }
    void set(int v) { t.used("written"); n.v = v; }
    Obj& self() { return *this; }
    const Obj& cself() const { return *this; }
    bool operator==(const Obj& o) const { return n.v == o.n.v; }
};

struct Base
{
    Num b; Track t;
    Base() : b(0), t("Base") {}
    explicit Base(int v) : b(v), t("Base") {}
    Base(const Base&) = default; Base(Base&&) = default;
    Base& operator=(const Base&) = default; Base& operator=(Base&&) = default;
    int get() const { t.used("read"); return b.v; }
    void set(int v) { t.used("written"); b.v = v; }
    int shadow() const { return 1; }
};

struct Derived : public Base
{
    Num d;
    Derived() : Base(0), d(0) {}
    explicit Derived(int v) : Base(v), d(v * 2 + 1) {}
    Derived(const Derived&) = default; Derived(Derived&&) = default;
    Derived& operator=(const Derived&) = default; Derived& operator=(Derived&&) = default;
    int getD() const { t.used("read"); return d.v; }
    void setD(int v) { t.used("written"); d.v = v; }
    int shadow() const { return 2; }
};

struct Leaf : public Derived
{
    Num l;
    Leaf() : Derived(0), l(0) {}
    explicit Leaf(int v) : Derived(v), l(v * 3 + 2) {}
    Leaf(const Leaf&) = default; Leaf(Leaf&&) = default;
    Leaf& operator=(const Leaf&) = default; Leaf& operator=(Leaf&&) = default;
    int getL() const { t.used("read"); return l.v; }
};

struct Other
{
    Num n; Track t;
    Other() : n(0), t("Other") {}
    explicit Other(int v) : n(v), t("Other") {}
    Other(const Other&) = default; Other(Other&&) = default;
    Other& operator=(const Other&) = default; Other& operator=(Other&&) = default;
    int get() const { t.used("read"); return n.v; }
};

// Converts to Obj (value + 1000) and to int (value + 5000).
struct Conv
{
    Num n; Track t;
    Conv() : n(0), t("Conv") {}
    explicit Conv(int v) : n(v), t("Conv") {}
    Conv(const Conv&) = default; Conv(Conv&&) = default;
    Conv& operator=(const Conv&) = default; Conv& operator=(Conv&&) = default;
    int get() const { t.used("read"); return n.v; }
    Obj toObj() const { return Obj(get() + 1000); }
    int toInt() const { return get() + 5000; }
};

struct MoveOnly
{
    Num n; Track t;
    MoveOnly() : n(0), t("MoveOnly") {}
    explicit MoveOnly(int v) : n(v), t("MoveOnly") {}
    MoveOnly(const MoveOnly&) = delete; MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(const MoveOnly&) = delete; MoveOnly& operator=(MoveOnly&&) = default;
    int get() const { t.used("read"); return n.v; }
    void set(int v) { t.used("written"); n.v = v; }
};

struct CopyOnly     // never moves
{
    Num n; Track t;
    CopyOnly() : n(0), t("CopyOnly") {}
    explicit CopyOnly(int v) : n(v), t("CopyOnly") {}
    CopyOnly(const CopyOnly&) = default; CopyOnly(CopyOnly&&) = delete;
    CopyOnly& operator=(const CopyOnly&) = default; CopyOnly& operator=(CopyOnly&&) = delete;
    int get() const { t.used("read"); return n.v; }
    void set(int v) { t.used("written"); n.v = v; }
};

struct Pinned
{
    Num n; Track t;
    Pinned() : n(0), t("Pinned") {}
    explicit Pinned(int v) : n(v), t("Pinned") {}
    Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete;
    int get() const { t.used("read"); return n.v; }
    void set(int v) { t.used("written"); n.v = v; }
};

// Runs fn; true when it raised reflect::Error (and nothing else).
template<typename Fn>
bool raises(const Fn& fn, std::string* what = nullptr)
{
    try { fn(); return false; }
    catch (const reflect::Error& e) { if (what) *what = e.what(); return true; }
}

} // namespace zoo

// A harness of several translation units defines ZOO_NO_IMPL in all but one of them.
reflectTypeDecl(zoo::Obj)
reflectTypeDecl(zoo::Base)
reflectTypeDecl(zoo::Derived)
reflectTypeDecl(zoo::Leaf)
reflectTypeDecl(zoo::Other)
reflectTypeDecl(zoo::Conv)
reflectTypeDecl(zoo::MoveOnly)
reflectTypeDecl(zoo::CopyOnly)
reflectTypeDecl(zoo::Pinned)

#ifndef ZOO_NO_IMPL
reflectTypeImpl(zoo::Obj)
{
    reflectPlumbing();
    reflectCons(int);
    reflectFn(get); reflectFn(set); reflectFn(self); reflectFn(cself);
    reflectFn(operator==);
    reflectCustom(mutate) (zoo::Obj& o, int v) { o.set(o.get() + v); };
}
reflectTypeImpl(zoo::Base)
{
    reflectPlumbing();
    reflectCons(int);
    reflectFn(get); reflectFn(set); reflectFn(shadow);
}
reflectTypeImpl(zoo::Derived)
{
    reflectParent(zoo::Base);
    reflectPlumbing();
    reflectCons(int);
    reflectFn(getD); reflectFn(setD); reflectFn(shadow);
}
reflectTypeImpl(zoo::Leaf)
{
    reflectParent(zoo::Derived);
    reflectPlumbing();
    reflectCons(int);
    reflectFn(getL);
}
reflectTypeImpl(zoo::Other)
{
    reflectPlumbing();
    reflectCons(int);
    reflectFn(get);
}
reflectTypeImpl(zoo::Conv)
{
    reflectPlumbing();      // no Conv(int): with the int converter, copying would be ambiguous
    reflectFn(get);
    type_->addFunction("operator zoo::Obj()", &zoo::Conv::toObj);
    type_->addFunction("operator int()", &zoo::Conv::toInt);
}
reflectTypeImpl(zoo::MoveOnly)
{
    reflectPlumbing();
    reflectCons(int);
    reflectFn(get); reflectFn(set);
}
reflectTypeImpl(zoo::CopyOnly)
{
    reflectPlumbing();
    reflectFn(get); reflectFn(set);
}
reflectTypeImpl(zoo::Pinned)
{
    reflectPlumbing();
    reflectFn(get); reflectFn(set);
}
#endif
