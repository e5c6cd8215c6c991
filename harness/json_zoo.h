/* json_zoo.h - reflected classes for json, with their shape, dump and fill. */
#pragma once

#include "json_ref.h"

#include <map>
#include <unordered_map>
#include <memory>

#include "reflect.h"
#include "utils/json/json.h"

namespace jz {

using jr::JV; using jr::Shape; using jr::ShapeField;

/* ------------------------------------------------------------------ lifetime of the classes */

struct Alive
{
    static std::atomic<long>& count() { static std::atomic<long> k(0); return k; }
    static long n() { return count(); }
    Alive() { ++count(); } Alive(const Alive&) { ++count(); } Alive(Alive&&) { ++count(); } ~Alive() { --count(); }
    Alive& operator=(const Alive&) = default; Alive& operator=(Alive&&) = default;
};

/* ------------------------------------------------------------------ classes */

struct Opt { const char* alias; bool skip, skipEmpty; };
static const Opt Plain = { "", false, false };

struct Scalars
{
    bool b = false; int64_t i = 0; double d = 0; std::string s; Alive alive;
    template<typename S, typename V> static void each(S& o, V&& v) { v("b", o.b, Plain); v("i", o.i, Plain); v("d", o.d, Plain); v("s", o.s, Plain); }
};

struct Tree
{
    int64_t id = 0; std::string name; std::vector<Tree> kids; std::map<std::string, Tree> named; std::shared_ptr<Tree> next; Alive alive;
    template<typename S, typename V> static void each(S& o, V&& v) { v("id", o.id, Plain); v("name", o.name, Plain); v("kids", o.kids, Plain); v("named", o.named, Plain); v("next", o.next, Plain); }
};

struct Uniq        // can't be copied
{
    std::unique_ptr<int64_t> i; std::unique_ptr<Scalars> sc; std::unique_ptr<std::string> s; std::unique_ptr<Uniq> next; std::unique_ptr<double> d; Alive alive;
    template<typename S, typename V> static void each(S& o, V&& v) { v("i", o.i, Plain); v("sc", o.sc, Plain); v("s", o.s, Plain); v("next", o.next, Plain); v("d", o.d, Plain); }
};

struct Base
{
    int64_t base = 7; std::string common = "unset"; Alive alive;
    template<typename S, typename V> static void each(S& o, V&& v) { v("base", o.base, Plain); v("common", o.common, Plain); }
};

struct Derived : public Base
{
    double own = 0.5; Base nested; std::vector<Base> bases; std::shared_ptr<Base> maybe;
    template<typename S, typename V> static void each(S& o, V&& v) { Base::each(o, v); v("own", o.own, Plain); v("nested", o.nested, Plain); v("bases", o.bases, Plain); v("maybe", o.maybe, Plain); }
};

struct Leaf : public Derived
{
    std::map<std::string, int64_t> last; bool flag = true;
    template<typename S, typename V> static void each(S& o, V&& v) { Derived::each(o, v); v("last", o.last, Plain); v("flag", o.flag, Plain); }
};

struct Conts
{
    std::vector<int64_t> ints; std::vector<double> doubles; std::vector<std::string> strings; std::vector<std::vector<int64_t>> grid;
    std::map<std::string, std::string> dict; std::unordered_map<std::string, int64_t> hash; std::map<std::string, std::vector<double>> series;
    std::map<std::string, std::map<std::string, int64_t>> nest; std::vector<std::shared_ptr<int64_t>> ptrs; std::map<std::string, std::shared_ptr<std::string>> ptrMap;
    std::vector<Scalars> rows; Alive alive;
    template<typename S, typename V> static void each(S& o, V&& v)
    {
        v("ints", o.ints, Plain); v("doubles", o.doubles, Plain); v("strings", o.strings, Plain); v("grid", o.grid, Plain); v("dict", o.dict, Plain); v("hash", o.hash, Plain);
        v("series", o.series, Plain); v("nest", o.nest, Plain); v("ptrs", o.ptrs, Plain); v("ptrMap", o.ptrMap, Plain); v("rows", o.rows, Plain);
    }
};

struct Raw         // owns what its raw pointers point to
{
    int64_t* i = nullptr; std::string* s = nullptr; Scalars* sc = nullptr; Raw* next = nullptr; std::vector<int64_t*> vec; std::map<std::string, std::string*> map; double* d = nullptr; Alive alive;
    Raw() {} Raw(const Raw&) = delete; Raw& operator=(const Raw&) = delete;
    ~Raw() { delete i; delete s; delete sc; delete next; for (auto p : vec) delete p; for (auto& x : map) delete x.second; delete d; }
    template<typename S, typename V> static void each(S& o, V&& v) { v("i", o.i, Plain); v("s", o.s, Plain); v("sc", o.sc, Plain); v("next", o.next, Plain); v("vec", o.vec, Plain); v("map", o.map, Plain); v("d", o.d, Plain); }
};

struct Custom      // "a/b"
{
    int64_t a = 0, b = 0; Alive alive;
    std::string text() const { return std::to_string(a) + "/" + std::to_string(b); }
    bool set(const std::string& s) { if (!jr::customOk(s)) return false; size_t p = s.find('/'); a = atoll(s.c_str()); b = atoll(s.c_str() + p + 1); return true; }
    void parseJson(reflect::json::Reader& r);
    void printJson(reflect::json::Writer& w) const;
};

struct CustomList  // [ints]
{
    std::vector<int64_t> v; Alive alive;
    void parseJson(reflect::json::Reader& r);
    void printJson(reflect::json::Writer& w) const;
};

struct Customs
{
    Custom one; std::vector<Custom> many; std::map<std::string, CustomList> lists; std::shared_ptr<Custom> ptr; CustomList list;
    template<typename S, typename V> static void each(S& o, V&& v) { v("one", o.one, Plain); v("many", o.many, Plain); v("lists", o.lists, Plain); v("ptr", o.ptr, Plain); v("list", o.list, Plain); }
};

struct Traited : public Base
{
    int64_t skipped = 11, renamed = 0, sparse = 0, both = 3; std::string text, swapB = "b", swapA = "a"; std::vector<int64_t> list; std::shared_ptr<int64_t> ptr; std::shared_ptr<Traited> next; double num = 2.5; bool flag = false; Custom custom; std::map<std::string, Scalars> map;
    template<typename S, typename V> static void each(S& o, V&& v)
    {
        Base::each(o, v);
        v("skipped", o.skipped, Opt{ "", true, false }); v("renamed", o.renamed, Opt{ "an alias \"\xc3\xa9\"", false, false }); v("sparse", o.sparse, Opt{ "", false, true });
        v("both", o.both, Opt{ "BOTH", false, true }); v("text", o.text, Opt{ "txt", false, true }); v("swapB", o.swapB, Opt{ "swapA", false, false }); v("swapA", o.swapA, Opt{ "swapB", false, false });
        v("list", o.list, Opt{ "", false, true }); v("ptr", o.ptr, Opt{ "", false, true }); v("next", o.next, Opt{ "", false, true }); v("num", o.num, Opt{ "", false, true }); v("flag", o.flag, Opt{ "", false, true });
        v("custom", o.custom, Opt{ "", false, true }); v("map", o.map, Opt{ "", false, true });
    }
};

/* ------------------------------------------------------------------ shape, dump and fill */

template<typename T, typename = void> struct Jz        // classes with each()
{
    static void build(Shape& s)
    {
        s.k = Shape::Obj;
        T o; Build b{ s };
        T::each(o, b);
        s.initial = dump(o);
        for (auto& f : s.fields) f.initial = *s.initial.at(f.name);
    }
    struct Build { Shape& s; template<typename M> void operator()(const char* n, M&, const Opt& o); };
    struct Dump { JV& r; template<typename M> void operator()(const char* n, const M& m, const Opt&) { r.o.emplace_back(n, Jz<M>::dump(m)); } };
    struct Fill { const JV& v; template<typename M> void operator()(const char* n, M& m, const Opt&) { Jz<M>::fill(m, *v.at(n)); } };
    static JV dump(const T& o) { JV r = JV::object(); T::each(o, Dump{ r }); return r; }
    static void fill(T& o, const JV& v) { T::each(o, Fill{ v }); }
};

template<typename T> const Shape& shape()
{
    static Shape s;
    if (!s.ready) { s.ready = true; Jz<T>::build(s); }
    return s;
}

template<typename T, typename E> template<typename M> void Jz<T, E>::Build::operator()(const char* n, M&, const Opt& o)
{ s.fields.push_back(ShapeField{ n, *o.alias ? o.alias : n, o.skip, o.skipEmpty, &shape<M>(), JV() }); }

template<> struct Jz<bool> { static void build(Shape& s) { s.k = Shape::Bool; s.initial = JV::boolean(false); } static JV dump(bool v) { return JV::boolean(v); } static void fill(bool& t, const JV& v) { t = v.b; } };
template<> struct Jz<int64_t> { static void build(Shape& s) { s.k = Shape::Int; s.initial = JV::integer(0); } static JV dump(int64_t v) { return JV::integer(v); } static void fill(int64_t& t, const JV& v) { t = v.i; } };
template<> struct Jz<double> { static void build(Shape& s) { s.k = Shape::Float; s.initial = JV::number(0); } static JV dump(double v) { return JV::number(v); } static void fill(double& t, const JV& v) { t = v.d; } };
template<> struct Jz<std::string> { static void build(Shape& s) { s.k = Shape::Str; s.initial = JV::str(""); } static JV dump(const std::string& v) { return JV::str(v); } static void fill(std::string& t, const JV& v) { t = v.s; } };
template<> struct Jz<Custom> { static void build(Shape& s) { s.k = Shape::CustomStr; s.initial = JV::str("0/0"); } static JV dump(const Custom& v) { return JV::str(v.text()); } static void fill(Custom& t, const JV& v) { t.set(v.s); } };
template<> struct Jz<CustomList>
{
    static void build(Shape& s) { s.k = Shape::CustomArr; s.initial = JV::array(); }
    static JV dump(const CustomList& v) { JV r = JV::array(); for (auto x : v.v) r.a.push_back(JV::integer(x)); return r; }
    static void fill(CustomList& t, const JV& v) { t.v.clear(); for (auto& x : v.a) t.v.push_back(x.i); }
};
template<typename I> struct Jz<std::vector<I>>
{
    static void build(Shape& s) { s.k = Shape::Arr; s.initial = JV::array(); s.inner = &shape<I>(); }
    static JV dump(const std::vector<I>& v) { JV r = JV::array(); for (auto& x : v) r.a.push_back(Jz<I>::dump(x)); return r; }
    static void fill(std::vector<I>& t, const JV& v) { t.clear(); t.resize(v.a.size()); for (size_t i = 0; i < t.size(); ++i) Jz<I>::fill(t[i], v.a[i]); }
};
template<typename M, typename I> struct JzMap
{
    static void build(Shape& s) { s.k = Shape::Map; s.initial = JV::object(); s.inner = &shape<I>(); }
    static JV dump(const M& m) { JV r = JV::object(); for (auto& x : m) r.o.emplace_back(x.first, Jz<I>::dump(x.second)); return r; }
    static void fill(M& m, const JV& v) { m.clear(); for (auto& x : v.o) Jz<I>::fill(m[x.first], x.second); }
};
template<typename I> struct Jz<std::map<std::string, I>> : public JzMap<std::map<std::string, I>, I> {};
template<typename I> struct Jz<std::unordered_map<std::string, I>> : public JzMap<std::unordered_map<std::string, I>, I> {};
template<typename P, typename I> struct JzPtr
{
    static void build(Shape& s) { s.k = Shape::Ptr; s.inner = &shape<I>(); }
    static JV dump(const P& p) { return p ? JV::pointer(Jz<I>::dump(*p)) : JV(); }
    static void fill(P& p, const JV& v) { if (v.k == JV::Null) p = nullptr; else { p = P(new I()); Jz<I>::fill(*p, v.a[0]); } }
};
template<typename I> struct Jz<std::shared_ptr<I>> : public JzPtr<std::shared_ptr<I>, I> {};
template<typename I> struct Jz<std::unique_ptr<I>> : public JzPtr<std::unique_ptr<I>, I> {};
template<typename I> struct Jz<I*> : public JzPtr<I*, I> {};

// Dynamic values.
template<> struct Jz<reflect::Value>
{
    typedef std::vector<reflect::Value> ArrayT; typedef std::unordered_map<std::string, reflect::Value> ObjectT;
    static void build(Shape& s) { s.k = Shape::Any; }
    static JV dump(const reflect::Value& v);
    static void fill(reflect::Value& t, const JV& v);
};

/* ------------------------------------------------------------------ states */

inline double genDouble(vt::Gen& g, bool exact)      // exact: no more than 12 significant digits
{
    double d = g.f64();
    if (!exact) return d;
    char b[40]; snprintf(b, sizeof b, "%.12g", d);
    return strtod(b, nullptr);
}

inline JV genState(vt::Gen& g, const Shape& s, int depth, bool exact = false)
{
    switch (s.k) {
    case Shape::Bool: return JV::boolean(g.coin());
    case Shape::Int: return JV::integer(g.i64());
    case Shape::Float: return JV::number(genDouble(g, exact));
    case Shape::Str: return JV::str(g.chance(1, 4) ? "" : g.utf8String());
    case Shape::CustomStr: return JV::str(std::to_string(g.draw(9999)) + "/" + std::to_string(g.draw(9999)));
    case Shape::CustomArr: { JV r = JV::array(); while (g.more(3)) r.a.push_back(JV::integer(g.i64())); return r; }
    case Shape::Ptr: return depth <= 0 || g.chance(1, 3) ? JV() : JV::pointer(genState(g, *s.inner, depth - 1, exact));
    case Shape::Arr: { JV r = JV::array(); if (depth > 0) while (g.more(2)) r.a.push_back(genState(g, *s.inner, depth - 1, exact)); return r; }
    case Shape::Map: { JV r = JV::object(); if (depth > 0) while (g.more(2)) { std::string k = jr::genKey(g); if (!r.at(k)) r.o.emplace_back(k, genState(g, *s.inner, depth - 1, exact)); } return r; }
    case Shape::Obj: { JV r = JV::object(); for (auto& f : s.fields) r.o.emplace_back(f.name, g.chance(1, 6) ? f.initial : genState(g, *f.shape, depth - 1, exact)); return r; }
    default: {
        JV v = jr::genAny(g, depth);
        return v; }
    }
}

/* ------------------------------------------------------------------ targets */

// One of the types, with its operations on objects hidden behind a pointer.
struct Target
{
    const char* name; const Shape* shape;
    void* (*make)(); void (*destroy)(void*); JV (*dump)(const void*); void (*fill)(void*, const JV&);
    reflect::json::Error (*parseStr)(const std::string&, void*); reflect::json::Error (*parseStream)(std::istream&, void*); void (*parseReader)(reflect::json::Reader&, void*);
    void (*printWriter)(reflect::json::Writer&, const void*); std::pair<std::string, reflect::json::Error> (*printStr)(const void*); reflect::json::Error (*printStream)(std::ostream&, const void*);
    reflect::Value (*value)(void*);
};

const std::vector<Target>& targets();          // json_zoo.cpp
extern const size_t DynamicTarget;             // the index of reflect::Value

struct Object      // an object of a target, destroyed with it
{
    const Target& t; void* p;
    explicit Object(const Target& t) : t(t), p(t.make()) {}
    Object(const Object&) = delete; Object& operator=(const Object&) = delete;
    ~Object() { t.destroy(p); }
    JV dump() const { return t.dump(p); }
    void fill(const JV& v) { t.fill(p, v); }
};

reflect::json::Reader::Options readerOptions(const jr::Opts& o);

} // namespace jz

reflectTypeDecl(jz::Scalars)
reflectTypeDecl(jz::Tree)
reflectTypeDecl(jz::Uniq)
reflectTypeDecl(jz::Base)
reflectTypeDecl(jz::Derived)
reflectTypeDecl(jz::Leaf)
reflectTypeDecl(jz::Conts)
reflectTypeDecl(jz::Raw)
reflectTypeDecl(jz::Custom)
reflectTypeDecl(jz::CustomList)
reflectTypeDecl(jz::Customs)
reflectTypeDecl(jz::Traited)
