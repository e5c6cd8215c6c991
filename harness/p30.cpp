// P30 - exceptions: whatever reflected code throws, and a lack of memory, reaches the caller; nothing leaks,
// nothing runs twice, and what wasn't the target of the operation is left as it was.
//
// Every operation is first run without a fault, which counts the points at which it could fail, then once
// for each (or a choice) of these points with the fault injected there.
#include "zoo.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"

#include <sstream>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace reflect;
using namespace zoo;

namespace p30 {

/* ------------------------------------------------------------------ faults */

// Plain data, so that the copies that the runtime makes are not noticed.
struct Boom { int serial; };                          // not a std::exception
struct BoomStd : public std::runtime_error { int serial; explicit BoomStd(int s) : std::runtime_error("boom"), serial(s) {} };
// Exceptions of user code that look like those that the library handles itself.
struct BoomAlloc : public std::bad_alloc { int serial; explicit BoomAlloc(int s) : serial(s) {} const char* what() const noexcept override { return "boom alloc"; } };
struct BoomRange : public std::out_of_range { int serial; explicit BoomRange(int s) : std::out_of_range("boom range"), serial(s) {} };
struct BoomError : public Error { int serial; explicit BoomError(int s) : Error("boom error"), serial(s) {} };

enum Mode { Off, Count, Throw };
struct Faults
{
    Mode mode = Off; long seen = 0, at = 0; int kind = 0; const char* where = "";
    Mode allocs = Off; long seenAllocs = 0, atAlloc = 0;
} faults;

void site(const char* what)
{
    if (faults.mode == Off) return;
    if (faults.seen++ != faults.at || faults.mode != Throw) return;
    faults.where = what;
    if (faults.kind == 0) throw Boom{ int(faults.at) + 1000 };
    if (faults.kind == 1) throw BoomStd(int(faults.at) + 2000);
    if (faults.kind == 2) throw BoomAlloc(int(faults.at) + 3000);
    if (faults.kind == 3) throw BoomRange(int(faults.at) + 4000);
    if (faults.kind == 4) throw BoomError(int(faults.at) + 5000);
    throw int(faults.at);
}

void* allocate(size_t n)
{
    if (faults.allocs != Off && faults.seenAllocs++ == faults.atAlloc && faults.allocs == Throw) { faults.where = "memory"; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}

/* ------------------------------------------------------------------ subjects */

int bodies;                                           // functions that ran

struct Bomb
{
    int v; Track t;
    Bomb() : v((site("default constructor"), 0)), t("Bomb") {}
    explicit Bomb(int v) : v((site("constructor"), v)), t("Bomb") {}
    Bomb(const Bomb& o) : v((site("copy constructor"), o.v)), t(o.t) {}
    Bomb(Bomb&& o) : v((site("move constructor"), o.v)), t(std::move(o.t)) { o.v = Moved; }
    Bomb& operator=(const Bomb& o) { site("copy assignment"); t = o.t; v = o.v; return *this; }
    Bomb& operator=(Bomb&& o) { site("move assignment"); t = std::move(o.t); int x = o.v; o.v = Moved; v = x; return *this; }
    Bomb& operator=(int x) { site("assignment of an int"); v = x; return *this; }

    void enter(const char* w) const { t.used("called"); bodies++; site(w); }
    int get() const { enter("get"); return v; }
    void set(int x) { enter("set"); v = x; site("after set"); }
    int take(Bomb a, Bomb b) const { enter("take"); return v * 100 + a.v * 10 + b.v; }
    int see(const Bomb& a, int b) const { enter("see"); return v * 100 + a.v * 10 + b; }
    Bomb make(int x) const { enter("make"); return Bomb(v + x); }
    Bomb& self() { enter("self"); return *this; }
    const Bomb& cself() const { enter("cself"); return *this; }
    void steal(Bomb&& o) { enter("steal"); v = o.v; o.v = Moved; site("after steal"); }
    void change(Bomb& o) const { enter("change"); o.v += v; site("after change"); }
    bool operator==(const Bomb& o) const { enter("=="); return v == o.v; }
    Bomb operator+(const Bomb& o) const { enter("+"); return Bomb(v + o.v); }
    Bomb& operator+=(const Bomb& o) { enter("+="); v += o.v; return *this; }
    int operator()(int a, int b) { enter("()"); v = a; return a - b; }
    Bomb& operator++() { enter("++"); v++; return *this; }
    explicit operator bool() const { enter("bool"); return v != 0; }

    void parseJson(json::Reader& r) { site("custom parser"); int64_t x = json::parseInt(r); if (r.error()) return; v = int(x); site("after the custom parser"); }
    void printJson(json::Writer& w) const { site("custom printer"); json::printInt(w, v); site("after the custom printer"); }
};
struct Child : public Bomb { int w; Child() : w(0) {} explicit Child(int v) : Bomb(v), w(v * 2) {} };
struct MoveBomb                                       // that only moves
{
    int v; Track t;
    explicit MoveBomb(int v = 0) : v((site("constructor"), v)), t("MoveBomb") {}
    MoveBomb(MoveBomb&& o) : v((site("move constructor"), o.v)), t(std::move(o.t)) { o.v = Moved; }
    MoveBomb& operator=(MoveBomb&& o) { site("move assignment"); int x = o.v; o.v = Moved; v = x; return *this; }
    int get() const { return v; }
};
struct Conv { int v; explicit Conv(int v = 0) : v(v) {} operator Bomb() const { bodies++; site("converter"); return Bomb(v + 1); } };
struct Holder
{
    int64_t id = 0; Bomb a, b; std::vector<Bomb> list; std::map<std::string, Bomb> map; std::shared_ptr<Bomb> sp; Bomb* raw = nullptr; std::shared_ptr<Holder> next;
    Holder() : a(1), b(2) {}
    Holder(const Holder&) = delete;
    ~Holder() { delete raw; }
};

int gbodies;
Bomb gmake(int v) { bodies++; site("global function"); return Bomb(v * 3); }
int gtake(Bomb b, const std::string& s, Bomb c) { bodies++; site("global function"); return b.v * 10 + c.v + int(s.size()); }
Bomb gvar;

} // namespace p30

void* operator new(size_t n) { return p30::allocate(n); }
void* operator new[](size_t n) { return p30::allocate(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

reflectType(p30::Bomb)
{
    reflectPlumbing(); reflectAllocPlumbing(); reflectCons(int);
    reflectFn(get); reflectFn(set); reflectFn(take); reflectFn(see); reflectFn(make); reflectFn(self); reflectFn(cself); reflectFn(steal); reflectFn(change);
    reflectFn(operator==); reflectFn(operator+); reflectFn(operator+=); reflectFn(operator());
    reflectCustom(operator bool()) (const p30::Bomb& b) { return bool(b); };
    reflectCustom(operator++) (p30::Bomb& b) -> p30::Bomb& { return ++b; };
    reflectFnTyped(operator=, p30::Bomb& (p30::Bomb::*) (int));
    reflectFn(parseJson); reflectFn(printJson);
    reflectTypeValue(json, json::custom("parseJson", "printJson"));
}
reflectType(p30::Child) { reflectParent(p30::Bomb); reflectPlumbing(); reflectCons(int); }
reflectType(p30::MoveBomb) { reflectPlumbing(); reflectCons(int); reflectFn(get); }
reflectType(p30::Conv) { reflectPlumbing(); reflectCustom(operator p30::Bomb()) (const p30::Conv& c) -> p30::Bomb { return c; }; }
reflectType(p30::Holder)
{
    reflectAllocDefaultCons();
    reflectField(id); reflectField(a); reflectField(b); reflectField(list); reflectField(map); reflectField(sp); reflectField(raw); reflectField(next);
}
reflectScope(p30) { reflectGlobalFn(p30::gmake); reflectGlobalFn(p30::gtake); reflectGlobalVar(p30::gvar); }

namespace p30 {

std::string show(const Value& v);
std::string show(const Bomb& b) { b.t.used("read"); return std::to_string(b.v); }
std::string show(const MoveBomb& b) { b.t.used("read"); return std::to_string(b.v); }
template<typename T> std::string show(const std::vector<T>& l) { std::string s = "["; for (auto& x : l) s += show(x) + " "; return s + "]"; }
template<typename T> std::string show(const std::map<std::string, T>& l) { std::string s = "{"; for (auto& x : l) s += x.first + ":" + show(x.second) + " "; return s + "}"; }
std::string show(const Value& v)
{
    if (v.isVoid()) return "void";
    std::string s = v.isStored() ? "own " : "ref "; if (v.isConst()) s += "const ";
    s += v.typeId() + " ";
    if (v.type()->isChildOf(type<Bomb>())) return s + show(v.get<Bomb>());
    if (v.type() == type<int>()) return s + std::to_string(v.get<int>());
    return s;
}
template<typename T> std::string show(const std::shared_ptr<T>& p) { return p ? "->" + show(*p) : "null"; }

std::string document(const int* k)
{
    std::ostringstream s;
    s << "{\"a\":" << k[0] << ",\"list\":[" << k[1] << ",2,3],\"map\":{\"p\":" << k[2] << ",\"q\":4},\"sp\":" << (k[3] % 3 ? "7" : "null") << ",\"raw\":" << (k[4] % 3 == 0 || k[4] % 2 ? "8" : "null");
    if (k[5] % 2) s << ",\"next\":{\"b\":1,\"raw\":3,\"sp\":4,\"list\":[5]}";
    s << ",\"b\":" << k[5] << ",\"id\":12}";
    return s.str();
}

struct World
{
    int k[6];                                         // numbers of the case
    Bomb x, y; const Bomb cx; Child child; MoveBomb mv; Conv conv;
    Value vx, vcx, vo, vy, vchild, out, vmv, vec;
    std::vector<Bomb> list; std::map<std::string, Bomb> map; std::shared_ptr<Bomb> sp;
    std::vector<Value> values;
    Holder h; std::string doc, text; int result; bool swallowed; std::string error;
    Bomb* fresh;

    explicit World(const int* n) :
        x(n[0]), y(n[1]), cx(n[2]), child(n[3]), mv(n[4]), conv(n[5]),
        vx(x), vcx(cx), vo(Bomb(n[1] + 1)), vy(y), vchild(child), result(0), swallowed(false), fresh(nullptr)
    {
        std::copy(n, n + 6, k);
        size_t len = size_t(n[0]) % 4; for (size_t i = 0; i < len; ++i) list.emplace_back(int(i) + 1);
        for (int i = 0; i < n[1] % 4; ++i) map.emplace(std::string(1, char('a' + i)), Bomb(i + 10));
        if (n[2] % 2) sp = std::make_shared<Bomb>(n[2]);
        if (n[3] % 2) h.sp = std::make_shared<Bomb>(5);
        if (n[4] % 3 == 0) h.raw = new Bomb(6);
        gvar.v = n[5]; doc = document(n);
        for (int i = 0; i < n[2] % 3; ++i) values.emplace_back(Bomb(i));
    }
    ~World() { release(); }
    void release() { if (fresh && life().live.count(&fresh->t)) delete fresh; fresh = nullptr; }

    typedef std::vector<std::pair<std::string, std::string> > Snap;
    Snap snap() const
    {
        Snap s;
        s.emplace_back("x", show(x)); s.emplace_back("y", show(y)); s.emplace_back("cx", show(cx)); s.emplace_back("child", show(child)); s.emplace_back("mv", show(mv));
        s.emplace_back("vx", show(vx)); s.emplace_back("vcx", show(vcx)); s.emplace_back("vo", show(vo)); s.emplace_back("vy", show(vy)); s.emplace_back("vchild", show(vchild)); s.emplace_back("out", show(out));
        s.emplace_back("list", show(list)); s.emplace_back("map", show(map)); s.emplace_back("sp", show(sp)); s.emplace_back("values", show(values));
        s.emplace_back("global", show(gvar)); s.emplace_back("result", std::to_string(result));
        return s;
    }
    std::string holder() const
    {
        std::string s; for (const Holder* p = &h; p; p = p->next.get()) s += std::to_string(p->id) + "," + show(p->a) + "," + show(p->b) + "," + show(p->list) + "," + show(p->map) + "," + show(p->sp) + "," + (p->raw ? show(*p->raw) : "null") + ";";
        return s;
    }
};

struct Op
{
    const char* name;
    std::function<void(World&)> run;
    unsigned flags;
};
enum { Source = 1,              // something passed as a temporary may be moved away
       Partial = 2,             // the target may be left half done (a document)
       Streams = 4,             // streams turn a lack of memory into an error of theirs
       News = 8 };              // hands over what "new" made, which nothing owns when there is no memory to do so

const std::vector<Op>& ops()
{
    static const std::vector<Op> l = {
        { "Value of a temporary", [] (World& w) { w.out = Value(Bomb(w.k[0])); }, 0 },
        { "Value of a moved object", [] (World& w) { w.out = Value(std::move(w.x)); }, Source },
        { "Value of an lvalue", [] (World& w) { w.out = Value(w.x); }, 0 },
        { "Value that only moves", [] (World& w) { Value v(MoveBomb(3)); w.result = v.get<MoveBomb>().v; }, 0 },
        { "copy() of a reference", [] (World& w) { w.out = w.vx.copy(); }, 0 },
        { "copy() of a const reference", [] (World& w) { w.out = w.vcx.copy(); }, 0 },
        { "copy() of an owner", [] (World& w) { w.out = w.vo.copy(); }, 0 },
        { "copy() of a child", [] (World& w) { w.out = w.vchild.copy(); }, 0 },
        { "move() of a copy of an owner", [] (World& w) { Value v = w.vo.copy(); w.out = v.move(); }, 0 },
        { "construct()", [] (World& w) { w.out = type<Bomb>()->construct(); }, 0 },
        { "construct(int)", [] (World& w) { w.out = type<Bomb>()->construct(int(w.k[1])); }, 0 },
        { "construct(copy)", [] (World& w) { w.out = type<Bomb>()->construct(w.x); }, 0 },
        { "construct(const Value)", [] (World& w) { w.out = type<Bomb>()->construct(w.vcx); }, 0 },
        { "construct(child)", [] (World& w) { w.out = type<Bomb>()->construct(w.child); }, 0 },
        { "get", [] (World& w) { w.result = w.vx.call<int>("get"); }, 0 },
        { "set", [] (World& w) { w.vx.call<void>("set", int(w.k[3])); }, 0 },
        { "set of an owner", [] (World& w) { w.vo.call<void>("set", w.k[3] + 1); }, 0 },
        { "take lvalues", [] (World& w) { w.result = w.vx.call<int>("take", w.y, w.cx); }, 0 },
        { "take temporaries", [] (World& w) { w.result = w.vcx.call<int>("take", Bomb(3), Bomb(4)); }, 0 },
        { "take Values", [] (World& w) { w.result = w.vx.call<int>("take", w.vy, w.vcx); }, 0 },
        { "take an owner and a child", [] (World& w) { w.result = w.vx.call<int>("take", w.vo, w.vchild); }, 0 },
        { "take a converted value", [] (World& w) { w.result = w.vx.call<int>("take", w.y, w.conv); }, 0 },
        { "see", [] (World& w) { w.result = w.vx.call<int>("see", w.vchild, w.k[2]); }, 0 },
        { "see a temporary", [] (World& w) { w.result = w.vx.call<int>("see", Bomb(2), 1); }, 0 },
        { "make as a Value", [] (World& w) { w.out = w.vcx.call<Value>("make", w.k[1]); }, 0 },
        { "make as a Bomb", [] (World& w) { Bomb b = w.vcx.call<Bomb>("make", w.k[1]); w.result = b.v; }, 0 },
        { "self as a Value", [] (World& w) { w.out = w.vx.call<Value>("self"); }, 0 },
        { "self as a copy", [] (World& w) { Bomb b = w.vx.call<Bomb>("self"); w.result = b.v; }, 0 },
        { "cself as a copy", [] (World& w) { Bomb b = w.vcx.call<Bomb>("cself"); w.result = b.v; }, 0 },
        { "self as a reference", [] (World& w) { w.result = w.vx.call<Bomb&>("self").v; }, 0 },
        { "steal", [] (World& w) { w.vx.call<void>("steal", std::move(w.y)); }, Source },
        { "steal a Value", [] (World& w) { w.vx.call<void>("steal", w.vy.rvalue()); }, Source },
        { "change", [] (World& w) { w.vcx.call<void>("change", w.y); }, 0 },
        { "assign an lvalue", [] (World& w) { w.vx.assign(w.y); }, 0 },
        { "assign a const Value", [] (World& w) { w.vx.assign(w.vcx); }, 0 },
        { "assign a temporary", [] (World& w) { w.vx.assign(Bomb(w.k[4])); }, 0 },
        { "assign an int", [] (World& w) { w.vx.assign(int(w.k[4])); }, 0 },
        { "assign to an owner", [] (World& w) { w.vo.assign(w.vchild); }, 0 },
        { "==", [] (World& w) { w.result = w.vx == w.y; }, 0 },
        { "+", [] (World& w) { w.out = w.vx + w.vcx; }, 0 },
        { "+=", [] (World& w) { w.out = w.vx += w.vcx; }, 0 },
        { "()", [] (World& w) { Value v = w.vx(5, w.k[1]); w.result = v.get<int>(); }, 0 },
        { "++", [] (World& w) { ++w.vx; }, 0 },
        { "bool", [] (World& w) { w.result = bool(w.vx); }, 0 },
        { "!", [] (World& w) { w.result = !w.vx; }, 0 },
        { "Value to Value", [] (World& w) { Value a(w.vx), b; b = w.vo; w.out = a; w.out = b; Value d(std::move(a)); d = std::move(b); }, 0 },
        { "Values in a vector", [] (World& w) { w.values.push_back(w.vo); }, 0 },
        { "cast to a copy", [] (World& w) { Bomb b = cast<Bomb>(w.vx); w.result = b.v; }, 0 },
        { "cast to a converted copy", [] (World& w) { Value v(w.conv); Bomb b = cast<Bomb>(v); w.result = b.v; }, 0 },
        { "convert", [] (World& w) { Value v(w.conv); w.out = v.convert<Value>(type<Bomb>()); }, 0 },
        { "push_back an lvalue", [] (World& w) { Value v(w.list); v.call<void>("push_back", w.x); }, 0 },
        { "push_back a temporary", [] (World& w) { Value v(w.list); v.call<void>("push_back", Bomb(9)); }, 0 },
        { "push_back a const Value", [] (World& w) { Value v(w.list); v.call<void>("push_back", w.vcx); }, 0 },
        { "resize", [] (World& w) { Value v(w.list); v.call<void>("resize", size_t(w.k[2] % 7)); }, 0 },
        { "element assign", [] (World& w) { if (w.list.empty()) return; Value v(w.list); v[size_t(0)].assign(w.vy); }, 0 },
        { "at", [] (World& w) { if (w.list.empty()) return; Value v(w.list); Bomb b = v.call<Bomb>("at", size_t(0)); w.result = b.v; }, 0 },
        { "copy a vector", [] (World& w) { Value v(w.list); Value c = v.copy(); w.result = int(c.call<size_t>("size")); }, 0 },
        { "map assign", [] (World& w) { Value v(w.map); v[std::string("b")].assign(w.vy); }, Partial },
        { "map at", [] (World& w) { if (!w.map.count("a")) return; Value v(w.map); Bomb b = v.call<Bomb>("at", std::string("a")); w.result = b.v; }, 0 },
        { "copy a map", [] (World& w) { Value v(w.map); Value c = v.copy(); w.result = int(c.call<size_t>("size")); }, 0 },
        { "shared_ptr reset", [] (World& w) { Value v(w.sp); w.fresh = new Bomb(w.k[3]); v.call<void>("reset", w.fresh); w.fresh = nullptr; }, 0 },
        { "shared_ptr null", [] (World& w) { Value v(w.sp); v.call<void>("reset"); }, 0 },
        { "shared_ptr construct", [] (World& w) { w.fresh = new Bomb(w.k[3]); Value v = type<std::shared_ptr<Bomb> >()->construct(w.fresh); w.fresh = nullptr; w.sp = v.get<std::shared_ptr<Bomb> >(); }, 0 },
        { "pointee", [] (World& w) { if (!w.sp) return; Value v(w.sp); (*v).assign(w.vy); }, 0 },
        { "pointee call", [] (World& w) { if (!w.sp) return; Value v(w.sp); w.result = (*v).call<int>("get"); }, 0 },
        { "global function", [] (World& w) { w.out = scope("p30")->call<Value>("gmake", w.k[1]); }, 0 },
        { "global function of Bombs", [] (World& w) { w.result = scope()->call<int>("p30::gtake", w.vx, std::string("abcdefghijklmnopqrstuvwxyz"), Bomb(1)); }, 0 },
        { "global variable", [] (World& w) { Bomb b = scope()->call<Bomb>("p30::gvar"); w.result = b.v; }, 0 },
        { "set a global variable", [] (World& w) { scope()->call<void>("p30::gvar", w.vx); }, 0 },
        { "field assign", [] (World& w) { Value v(w.h); v.field("a").assign(w.vy); w.result = w.h.a.v; }, 0 },
        { "field of fields", [] (World& w) { Value v(w.h); v.field("list").call<void>("push_back", w.vx); w.result = int(w.h.list.size()); }, 0 },
        { "field copy", [] (World& w) { Value v(w.h); Bomb b = v.field<Bomb>("b"); w.result = b.v; }, 0 },
        { "trait of a type", [] (World& w) { Type t("p30t"); t.addTrait("t", Bomb(3)); w.result = t.getValue<Bomb>("t").v; }, 0 },
        { "functor of a type", [] (World& w) { Type t("p30t"); Bomb b(w.k[0]); t.addFunction("f", [b] { return b.v; }); w.result = t.call<int>("f"); }, 0 },
        { "functor of a function", [] (World& w) { Bomb b(w.k[0]); auto f = [b] (int x) { return b.v + x; }; Function fn("f", f); w.result = fn.call<int>(2); }, 0 },
        { "functor of a scope", [] (World& w) { Scope s; Bomb b(w.k[0]); auto f = [b] (int x) { return b.v + x; }; s.addFunction("a::f", f); w.result = s.call<int>("a::f", 2); }, 0 },
        { "json parse", [] (World& w) { Value v(w.h); std::istringstream s(w.doc); auto e = json::parse(s, v); if (e) { w.swallowed = true; w.error = e.what(); } w.text = w.holder(); }, Partial | News },
        { "json parse a Bomb", [] (World& w) { std::istringstream s("77"); auto e = json::parse(s, w.x); if (e) { w.swallowed = true; w.error = e.what(); } }, 0 },
        { "json parse a vector", [] (World& w) { std::istringstream s("[1, 2, 3]"); auto e = json::parse(s, w.list); if (e) { w.swallowed = true; w.error = e.what(); } }, Partial },
        { "json parse a map", [] (World& w) { std::istringstream s("{\"a\": 1, \"long key that needs memory\": 3}"); auto e = json::parse(s, w.map); if (e) { w.swallowed = true; w.error = e.what(); } }, Partial },
        { "json parse a pointer", [] (World& w) { std::istringstream s("5"); auto e = json::parse(s, w.sp); if (e) { w.swallowed = true; w.error = e.what(); } }, Partial | News },
        { "json print", [] (World& w) { Value v(w.h); std::ostringstream s; auto e = json::print(s, v); if (e) { w.swallowed = true; w.error = e.what(); } w.text = s.str(); }, Streams },
        { "json callbacks parse", [] (World& w) {
            std::istringstream s("{\"a\": [1, 2, 3], \"b\": {\"c\": 1}, \"d\": 4}"); json::Reader r(s); std::string seen;
            json::parseObject(r, [&] (const std::string& key) {
                site("field callback"); Bomb here(1); seen += key;
                if (key == "a") json::parseArray(r, [&] (size_t i) { site("item callback"); Bomb b(int(i)); seen += std::to_string(json::parseInt(r)); site("after the item"); });
                else if (key == "b") json::parseObject(r, [&] (const std::string& k) { site("nested callback"); seen += k; json::skip(r); });
                else json::parse(r, w.x);
            });
            if (r.error()) { w.swallowed = true; w.error = r.error().what(); }
            w.text = seen; }, Partial },
        { "json callbacks print", [] (World& w) {
            std::ostringstream s; json::Writer o(s); std::vector<std::string> keys = { "a", "b", "c" };
            json::printObject(o, keys, [&] (const std::string& key) {
                site("field callback"); Bomb here(2);
                if (key == "a") json::printArray(o, 3, [&] (size_t i) { site("item callback"); json::printInt(o, int64_t(i)); site("after the item"); });
                else json::print(o, w.x);
            }, [&] (const std::string& key) { site("skip callback"); return key == "c"; });
            if (o.error()) { w.swallowed = true; w.error = o.error().what(); }
            w.text = s.str(); }, Streams },
        { "json print a vector", [] (World& w) { std::ostringstream s; auto e = json::print(s, w.list); if (e) { w.swallowed = true; w.error = e.what(); } w.text = s.str(); }, Streams },
    };
    return l;
}

struct Disarm { ~Disarm() { faults.mode = Off; faults.allocs = Off; } };

enum Outcome { Done, Thrown, Foreign };

Outcome attempt(const Op& op, World& w, bool memory, long at, std::string& what, int kind = 0)
{
    Disarm d; bodies = 0; w.swallowed = false;
    faults.seen = faults.seenAllocs = 0; faults.where = "";
    faults.at = faults.atAlloc = at < 0 ? 0 : at; faults.kind = kind;
    (memory ? faults.allocs : faults.mode) = at < 0 ? Count : Throw;
    try { op.run(w); return Done; }
    catch (const Boom& b) { faults.allocs = Off; what = "Boom " + std::to_string(b.serial); return !memory && b.serial == at + 1000 ? Thrown : Foreign; }
    catch (const BoomStd& b) { faults.allocs = Off; what = "BoomStd " + std::to_string(b.serial); return !memory && b.serial == at + 2000 && b.what() == std::string("boom") ? Thrown : Foreign; }
#define BOOM(type, base, text) catch (const type& b) { faults.allocs = Off; what = #type " " + std::to_string(b.serial) + " " + b.what(); return !memory && b.serial == at + base && b.what() == std::string(text) ? Thrown : Foreign; }
    BOOM(BoomAlloc, 3000, "boom alloc") BOOM(BoomRange, 4000, "boom range") BOOM(BoomError, 5000, "boom error")
    catch (int i) { faults.allocs = Off; what = "int " + std::to_string(i); return !memory && i == at ? Thrown : Foreign; }
    catch (const std::bad_alloc&) { faults.allocs = Off; what = "bad_alloc"; return memory ? Thrown : Foreign; }
    catch (const std::exception& e) { faults.allocs = Off; what = e.what(); return Foreign; }
}

} // namespace p30

VT_PROP(faults, 40000, 1000000, "a fault that was injected while a reflected operation was under way, and arrived")
{
    using namespace p30;
    auto& g = c.g;
    { static bool once = false; if (!once) { life().permanent = life().live; once = true; } }
    life().clear();
    int n[6]; for (auto& x : n) x = int(g.draw(9));
    const Op& op = ops()[g.each(ops().size())];
    bool memory = g.chance(1, 3); int kinds = int(g.draw(5));
    VT_LOG(op.name << (memory ? " without memory" : "") << " (");
    for (int x : n) VT_LOG(x << " ");
    VT_LOG(") ");

    // Once to have everything loaded, once to count.
    World::Snap before, after; std::string holderBefore, textAfter; long points; int ran; int leftBefore;
    { World w(n); std::string what; VT_EQ(int(attempt(op, w, memory, -1, what)), int(Done), "without a fault: " << what); VT_CHECK(!w.swallowed, "without a fault: " << w.error); }
    VT_EQ(life().left(), 0u, "objects that are left after " << op.name);
    {
        World w(n); std::string what;
        before = w.snap(); holderBefore = w.holder(); leftBefore = int(life().left());
        VT_EQ(int(attempt(op, w, memory, -1, what)), int(Done), "without a fault: " << what);
        points = memory ? faults.seenAllocs : faults.seen; ran = bodies;
        after = w.snap(); textAfter = w.text;
    }
    VT_EQ(life().left(), 0u, "objects that are left after " << op.name);
    if (!points) return;

    // All of the points when they are few, else some.
    std::vector<long> at;
    if (points <= 12) for (long i = 0; i < points; ++i) at.push_back(i);
    else for (int i = 0; i < 12; ++i) at.push_back(long(g.below(size_t(points))));
    bool arrived = false;
    for (long p : at) {
        std::string where; where.reserve(100); size_t bytes = __sanitizer_get_current_allocated_bytes();
        {
            World w(n); std::string what;
            Outcome o = attempt(op, w, memory, p, what, int((p + kinds) % 6));
            std::string label = std::string(op.name) + " with a fault at point " + std::to_string(p) + " (" + faults.where + ")";
            where = faults.where;
            zoo::check(label.c_str());
            VT_CHECK(o != Foreign, label << ": another exception arrives: " << what);
            if (!(memory && (op.flags & Streams))) VT_CHECK(o == Thrown, label << ": the exception was lost");
            arrived = arrived || o == Thrown;
            VT_CHECK(bodies <= ran, label << ": " << bodies << " functions ran, " << ran << " without the fault");
            w.release();
            auto now = w.snap();
            bool same = w.holder() == holderBefore;
            for (size_t i = 0; i < now.size(); ++i) {
                if (now[i].second != before[i].second) same = false;
                if (now[i].second == before[i].second || now[i].second == after[i].second) continue;
                if ((op.flags & Source) && now[i].second.find(std::to_string(int(Moved))) != std::string::npos) continue;
                if ((op.flags & Partial) && before[i].second != after[i].second) continue;
                VT_FAIL(label << ": " << now[i].first << " is <" << now[i].second << ">, before <" << before[i].second << ">, without the fault <" << after[i].second << ">");
            }
            if (same) {                               // nothing happened: the operation can be made again
                if (!(memory && (op.flags & News))) VT_EQ(int(life().left()), leftBefore, label << ": objects that are alive");
                std::string again;
                VT_EQ(int(attempt(op, w, memory, -1, again)), int(Done), label << ": made again: " << again);
                auto then = w.snap();
                for (size_t i = 0; i < then.size(); ++i) VT_EQ(then[i].second, after[i].second, label << ": " << then[i].first << " when it is made again");
                VT_EQ(w.text, textAfter, label << ": made again");
            }
        }
        zoo::check("after a fault");
        if (memory && (op.flags & News)) { life().clear(); continue; }
        VT_EQ(long(__sanitizer_get_current_allocated_bytes() - bytes), 0L, "bytes that are left after " << op.name << " with a fault at point " << p << " (" << where << ")");
        VT_EQ(life().left(), 0u, "objects that are left after " << op.name << " with a fault at point " << p << " (" << where << ")");
    }
    // And it still works.
    { World w(n); std::string what; VT_EQ(int(attempt(op, w, memory, -1, what)), int(Done), "after the faults: " << what); auto then = w.snap(); for (size_t i = 0; i < then.size(); ++i) VT_EQ(then[i].second, after[i].second, then[i].first << " after the faults"); }
    c.nontrivial(arrived);
    c.label(memory ? "memory" : "exception");
    if (at.size() > 5) c.label("more than five points");
}
