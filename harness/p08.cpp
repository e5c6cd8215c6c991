// P08: a field Value aliases the member at its declared place, type and constness.
#include "zoo.h"
#include "types/pointer.h"
#include <sys/mman.h>
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"

using namespace reflect;
using namespace zoo;

namespace p08 {

struct Point { short pad; int x; const int y; char tail; Point() : pad(1), x(2), y(3), tail(4) {} };
struct Inner
{
    bool flag; int a; const int b; std::string s; double d; Point p; Point* link; const std::string cs;
    Inner() : flag(true), a(1), b(2), s("s"), d(4), link(nullptr), cs("cs") {}
};
struct Root { int a; long big; Inner in; std::vector<int> list; Root() : a(10), big(20), list{1, 2} {} };
struct Child : public Root
{
    const Inner cin; std::shared_ptr<Inner> sp; Inner* raw; int extra; std::map<std::string, int> m; const double k;
    Child() : sp(std::make_shared<Inner>()), raw(nullptr), extra(30), k(7) { m["z"] = 1; }
};
struct Leaf2 : public Child { int a; Root sub; Child* up; unsigned char c; Leaf2() : a(40), up(nullptr), c(5) {} };   // a shadows Root::a

struct Far { long head; };            // declared by hand: as large as the layout needs

struct Blob { unsigned char bytes[256]; };

Type*& blobType() { static Type* t; return t; }

} // namespace p08

reflectType(p08::Point) { reflectField(pad); reflectField(x); reflectField(y); reflectField(tail); }
reflectType(p08::Inner) { reflectField(flag); reflectField(a); reflectField(b); reflectField(s); reflectField(d); reflectField(p); reflectField(link); reflectField(cs); }
reflectType(p08::Root) { reflectPlumbing(); reflectField(a); reflectField(big); reflectField(in); reflectField(list); }
reflectType(p08::Child) { reflectParent(p08::Root); reflectField(cin); reflectField(sp); reflectField(raw); reflectField(extra); reflectField(m); reflectField(k);
    reflectCustom(same) (p08::Root& r) -> p08::Root& { return r; }; reflectCustom(csame) (const p08::Root& r) -> const p08::Root& { return r; }; }
reflectType(p08::Leaf2) { reflectParent(p08::Child); reflectField(a); reflectField(sub); reflectField(up); reflectField(c); }
reflectType(p08::Far) { reflectField(head); }
reflectType(p08::Blob) { reflectPlumbing(); p08::blobType() = type_; }

using namespace p08;

namespace {

/* What is declared, restated with member access. */

struct Member { const char* name; int cls; bool isConst; std::function<const void*(const void*)> get; };
enum Cls { CPoint, CInner, CRoot, CChild, CLeaf2, FirstLeaf,
    TShort = FirstLeaf, TInt, TChar, TUChar, TBool, TString, TDouble, TLong, TVec, TMap, PPoint, PInner, PChild, SInner };

template<typename T> int clsOf();
#define CLS(T, C) template<> int clsOf<T>() { return C; }
CLS(Point, CPoint) CLS(Inner, CInner) CLS(Root, CRoot) CLS(Child, CChild) CLS(Leaf2, CLeaf2) CLS(short, TShort) CLS(int, TInt) CLS(char, TChar)
CLS(unsigned char, TUChar) CLS(bool, TBool) CLS(std::string, TString) CLS(double, TDouble) CLS(long, TLong)
typedef std::map<std::string, int> MapSI;
CLS(std::vector<int>, TVec) CLS(MapSI, TMap) CLS(Point*, PPoint) CLS(Inner*, PInner) CLS(Child*, PChild) CLS(std::shared_ptr<Inner>, SInner)

#define MEM(C, f) Member{ #f, clsOf<typename std::remove_const<decltype(C::f)>::type>(), std::is_const<decltype(C::f)>::value, \
        [] (const void* o) -> const void* { return &static_cast<const C*>(o)->f; } }

std::vector<Member> operator+(std::vector<Member> a, const std::vector<Member>& b)
{
    for (auto& m : b) { bool shadowed = false; for (auto& x : a) if (!strcmp(x.name, m.name)) shadowed = true; if (!shadowed) a.push_back(m); }
    return a;
}

const std::vector<Member>& members(int cls)
{
    static const std::vector<Member> pt = { MEM(Point, x), MEM(Point, y), MEM(Point, pad), MEM(Point, tail) };
    static const std::vector<Member> in = { MEM(Inner, a), MEM(Inner, b), MEM(Inner, s), MEM(Inner, d), MEM(Inner, p), MEM(Inner, link), MEM(Inner, flag), MEM(Inner, cs) };
    static const std::vector<Member> rt = { MEM(Root, a), MEM(Root, big), MEM(Root, in), MEM(Root, list) };
    static const std::vector<Member> ch = std::vector<Member>{ MEM(Child, cin), MEM(Child, sp), MEM(Child, raw), MEM(Child, extra), MEM(Child, m), MEM(Child, k) } + rt;
    static const std::vector<Member> lf = std::vector<Member>{ MEM(Leaf2, a), MEM(Leaf2, sub), MEM(Leaf2, up), MEM(Leaf2, c) } + ch;
    static const std::vector<Member>* all[] = { &pt, &in, &rt, &ch, &lf };
    return *all[cls];
}

template<typename Fn> void withType(int cls, const Fn& fn)
{
    switch (cls) {
    case CPoint: fn((Point*)0); break; case CInner: fn((Inner*)0); break; case CRoot: fn((Root*)0); break; case CChild: fn((Child*)0); break; case CLeaf2: fn((Leaf2*)0); break;
    case TShort: fn((short*)0); break; case TInt: fn((int*)0); break; case TChar: fn((char*)0); break; case TUChar: fn((unsigned char*)0); break; case TBool: fn((bool*)0); break;
    case TString: fn((std::string*)0); break; case TDouble: fn((double*)0); break; case TLong: fn((long*)0); break; case TVec: fn((std::vector<int>*)0); break;
    case TMap: fn((MapSI*)0); break; case PPoint: fn((Point**)0); break; case PInner: fn((Inner**)0); break; case PChild: fn((Child**)0); break; default: fn((std::shared_ptr<Inner>*)0);
    }
}

template<typename Fn> void withLeaf(int cls, const Fn& fn)
{
    switch (cls) {
    case TShort: fn((short*)0); break; case TInt: fn((int*)0); break; case TChar: fn((char*)0); break; case TUChar: fn((unsigned char*)0); break; case TBool: fn((bool*)0); break;
    case TString: fn((std::string*)0); break; case TDouble: fn((double*)0); break; case TLong: fn((long*)0); break; case TVec: fn((std::vector<int>*)0); break;
    default: fn((MapSI*)0); break;
    }
}

// Another content for each leaf type.
short change(short v, vt::Gen& g) { return short(v + 1 + g.draw(100)); } int change(int v, vt::Gen& g) { return v + 1 + int(g.draw(100)); } long change(long v, vt::Gen& g) { return v + 1 + long(g.draw(100)); }
char change(char v, vt::Gen& g) { return char((v + 1 + g.draw(50)) & 127); } unsigned char change(unsigned char v, vt::Gen& g) { return (unsigned char)(v + 1 + g.draw(50)); } bool change(bool v, vt::Gen&) { return !v; }
double change(double v, vt::Gen& g) { return v + 0.5 + double(g.draw(100)); } std::string change(const std::string& v, vt::Gen& g) { return v.size() > 60 ? "short" : v + std::string(1 + g.draw(30), 'q'); }
std::vector<int> change(std::vector<int> v, vt::Gen& g) { v.push_back(int(g.draw(9))); return v; } MapSI change(MapSI m, vt::Gen& g) { m["k" + std::to_string(g.draw(99))] = 1; m["z"]++; return m; }
template<typename T> T change(T v, vt::Gen&) { return v; }

// Everything inside, one line per leaf.
template<typename T> void show(std::string& s, const T& x) { std::ostringstream ss; ss.precision(17); ss << x << ";"; s += ss.str(); }
template<typename T> void show(std::string& s, T* x) { s += x ? "ptr" + std::to_string((unsigned long)x) + ";" : "null;"; }
void show(std::string& s, const std::vector<int>& v) { for (int x : v) show(s, x); s += "|"; }
void show(std::string& s, const MapSI& m) { for (auto& x : m) { show(s, x.first); show(s, x.second); } s += "|"; }
void show(std::string& s, const Point& p) { show(s, p.pad); show(s, p.x); show(s, p.y); show(s, int(p.tail)); }
void show(std::string& s, const Inner& i) { show(s, i.flag); show(s, i.a); show(s, i.b); show(s, i.s); show(s, i.d); show(s, i.p); show(s, i.link); show(s, i.cs); }
void show(std::string& s, const Root& r) { show(s, r.a); show(s, r.big); show(s, r.in); show(s, r.list); }
void show(std::string& s, const Child& c) { show(s, (const Root&)c); show(s, c.cin); show(s, c.sp.get()); show(s, c.raw); show(s, c.extra); show(s, c.m); show(s, c.k); if (c.sp) show(s, *c.sp); }
void show(std::string& s, const Leaf2& c) { show(s, (const Child&)c); show(s, c.a); show(s, c.sub); show(s, c.up); show(s, int(c.c)); }

struct Graph
{
    Leaf2 leaf; Child child; Root root; Inner inner; Point point; Point point2; Child child2;
    Graph() { leaf.up = &child; leaf.raw = &inner; leaf.in.link = &point; inner.link = &point2; child.raw = &inner; child2.raw = &leaf.in; }
    std::string all() const { std::string s; show(s, leaf); show(s, child); show(s, root); show(s, inner); show(s, point); show(s, point2); show(s, child2); return s; }
};

} // namespace

/* ------------------------------------------------------------------ walks over an object graph */

VT_PROP(walks, 60000, 3000000, "a walk of two or more fields, through a pointer, a parent or a const")
{
    Graph g;
    int cls; const void* at; Value v; bool isConst = false;
    Leaf2 stored;
    // How the object gets into reflection.
    int start = int(c.g.draw(7));
    switch (start) {
    case 0: v = Value(g.leaf); cls = CLeaf2; at = &g.leaf; break;
    case 1: v = Value((const Leaf2&)g.leaf); cls = CLeaf2; at = &g.leaf; isConst = true; break;
    case 2: v = Value(g.child); cls = CChild; at = &g.child; break;
    case 3: { Root r; v = Value(std::move(r)); cls = CRoot; at = v.value(); break; }               // owned
    case 4: v = Value(g.leaf).toConst(); cls = CLeaf2; at = &g.leaf; isConst = true; break;
    case 5: v = Value(g.leaf).call<Value>("same"); cls = CRoot; at = static_cast<Root*>(&g.leaf); break;      // the parent sub-object
    case 6: v = Value(g.leaf).call<Value>("csame"); cls = CRoot; at = static_cast<Root*>(&g.leaf); isConst = true; break;
    default: { Child* p = &g.child; Value pv(p); v = *pv; cls = CChild; at = &g.child; break; }
    }
    VT_LOG("start " << start);
    int steps = 0; bool through = false;
    Value keep = v;
    do {
        if (cls < FirstLeaf) {
            const auto& ms = members(cls);
            // a name that is not there
            if (c.g.chance(1, 8)) {
                std::string bad = c.g.oneOf<const char*>({ "", "nope", "A", "a ", "a.b", "in.a", "x::y", "sizeof" });
                std::string before = g.all();
                VT_CHECK(raises([&] { v.field(bad); }), "unknown field " << vt::quote(bad));
                VT_CHECK(g.all() == before, "an unknown field changed the object");
            }
            size_t mi = c.g.below(ms.size());
            if (ms[mi].cls >= FirstLeaf && ms[mi].cls <= TMap && c.g.chance(2, 3)) mi = c.g.below(ms.size());      // go deep
            const Member& m = ms[mi];
            VT_LOG("." << m.name);
            Value f = v.field(m.name);
            bool fc = isConst || m.isConst;
            const void* addr = m.get(at);
            VT_EQ((const void*)f.value(), addr, "address of " << m.name);
            VT_EQ(f.isConst(), fc, "constness of " << m.name);
            VT_CHECK(!f.isStored() && f.refType() == RefType::LValue, "a field is a reference");
            const Field& decl = v.type()->field(m.name);
            VT_EQ(decl.argument().isConst(), m.isConst, "declared constness of " << m.name); VT_EQ(decl.name(), m.name, "");
            VT_EQ((const void*)((const char*)at + decl.offset()), addr, "declared offset of " << m.name);
            withType(m.cls, [&] (auto* t) {
                    typedef typename std::remove_pointer<decltype(t)>::type T;
                    VT_EQ(f.type(), type<T>(), "type of " << m.name); VT_EQ(decl.type(), type<T>(), "declared type of " << m.name);
                    const T& direct = *static_cast<const T*>(addr);
                    VT_CHECK(&v.field<const T&>(m.name) == &direct && &f.get<T>() == &direct, "const reference to " << m.name);
                });
            if (fc || v.type()->parent()) through = true;
            v = f; at = addr; isConst = fc; cls = m.cls;
        }
        else if (cls == PPoint || cls == PInner || cls == PChild) {
            const void* to = *static_cast<void* const*>(at);
            if (!to) break;
            VT_LOG("*");
            v = *v; at = to; cls = cls == PPoint ? CPoint : cls == PInner ? CInner : CChild;
            VT_EQ((const void*)v.value(), at, "pointee"); VT_EQ(v.isConst(), isConst, "constness through a raw pointer");
            through = true;
        }
        else if (cls == SInner) {
            const auto& sp = *static_cast<const std::shared_ptr<Inner>*>(at);
            if (!sp) break;
            VT_LOG("*");
            v = *v; at = sp.get(); cls = CInner; isConst = false;
            VT_EQ((const void*)v.value(), at, "pointee"); VT_EQ(v.isConst(), false, "a shared_ptr points at what can change");
            through = true;
        }
        else break;
        ++steps;
    } while (steps < 12 && c.g.draw(8));
    c.nontrivial(steps >= 2 && through);
    c.label(isConst ? "const" : "mutable");
    c.label("steps " + std::to_string(std::min(steps, 6)));

    // What can be done with where the walk ended.
    withType(cls, [&] (auto* t) {
            typedef typename std::remove_pointer<decltype(t)>::type T;
            T& direct = *static_cast<T*>(const_cast<void*>(at));
            std::string ref; show(ref, direct);
            { std::string s; show(s, v.get<T>()); VT_EQ(s, ref, "read"); }
            if (!isConst) VT_CHECK(&v.as<T>() == &direct, "reference");
        });
    if (cls < FirstLeaf || cls > TMap) return;
    withLeaf(cls, [&] (auto* t) {
            typedef typename std::remove_pointer<decltype(t)>::type T;
            T& direct = *static_cast<T*>(const_cast<void*>(at));
            std::string ref; show(ref, direct);
            std::string before = g.all();
            T next = change(direct, c.g);
            VT_LOG(" write");
            if (isConst) {
                VT_CHECK(raises([&] { v.assign(next); }), "assignment to a const member");
                VT_CHECK(g.all() == before, "a refused write changed something");
                std::string s; show(s, direct); VT_EQ(s, ref, "refused write");
                return;
            }
            // through reflection, seen by the object; and nothing else changed
            T old = direct;
            v.assign(next);
            VT_CHECK(direct == next, "a write through the field is seen by the object");
            VT_CHECK(g.all() != before || start == 3, "the graph shows the write");
            // through the object, seen by the field
            const_cast<T&>(direct) = old;
            VT_CHECK(v.get<T>() == old, "a write to the object is seen through the field");
            VT_CHECK(g.all() == before, "nothing else changed");
        });
}

/* ------------------------------------------------------------------ generated layouts */

namespace {

struct DField { std::string name; int type; size_t offset; bool isConst; };      // type < 4 primitive, else a generated type
struct DType { Type* t; int parent; size_t size; std::vector<DField> fields; };

const Type* prim(int i) { switch (i) { case 0: return type<int>(); case 1: return type<unsigned char>(); case 2: return type<double>(); default: return type<short>(); } }
size_t primSize(int i) { static const size_t s[] = { 4, 1, 8, 2 }; return s[i]; }

template<typename T> void poke(const Value& f, unsigned char* bytes, size_t at, vt::Gen& g)
{
    unsigned char before[256]; memcpy(before, bytes, 256);
    T x; unsigned char raw[sizeof(T)]; for (auto& b : raw) b = (unsigned char)(1 + g.draw(62)); memcpy(&x, raw, sizeof x);
    f.assign(x);
    T seen; memcpy(&seen, bytes + at, sizeof seen);
    VT_CHECK(seen == x, "the member has what was written");
    for (size_t i = 0; i < 256; ++i) if (i < at || i >= at + sizeof(T)) VT_CHECK(bytes[i] == before[i], "byte " << i << " outside of the member at " << at << " changed");
    memcpy(bytes, before, 256);
    T back; memcpy(&back, before + at, sizeof back);
    T read = f.call<T>(f.typeId());
    VT_CHECK(!memcmp(&read, &back, sizeof read), "a write to the object is seen through the field");
}

} // namespace

VT_PROP(layouts, 20000, 1000000, "fields at nested offsets, inherited or const")
{
    type<Blob>();
    static unsigned long serial = 0;
    const std::string tag = std::to_string(serial++);
    std::vector<DType> types;
    // Each type: a parent placed at offset 0, then fields at any offset (gaps, and 0 for an empty parent, included).
    size_t n = 1 + c.g.draw(4);
    for (size_t i = 0; i < n; ++i) {
        DType d; d.parent = -1; d.size = 0;
        d.t = new Type("p08dyn" + tag + "_" + std::to_string(i));       // types live as long as the program
        if (i && c.g.coin()) { d.parent = int(c.g.below(i)); d.t->parent(types[d.parent].t); d.size = types[d.parent].size; }
        VT_LOG("T" << i << (d.parent >= 0 ? ":T" + std::to_string(d.parent) : "") << "{");
        for (size_t k = c.g.draw(5); k > 0 && d.size < 200; --k) {
            DField f; f.name = c.g.chance(1, 6) ? "shared" : "f" + std::to_string(i) + "_" + std::to_string(k);
            bool dup = false; for (auto& x : d.fields) if (x.name == f.name) dup = true;
            f.type = i && c.g.chance(1, 3) ? 4 + int(c.g.below(i)) : int(c.g.draw(3));
            size_t size = f.type < 4 ? primSize(f.type) : types[f.type - 4].size;
            size_t align = f.type < 4 ? size : 8;
            f.offset = (d.size + c.g.draw(9) + align - 1) / align * align;
            f.isConst = c.g.chance(1, 4);
            if (f.offset + size > 200) break;
            Argument arg(f.type < 4 ? prim(f.type) : types[f.type - 4].t, RefType::Copy, f.isConst);
            VT_LOG((f.isConst ? "const " : "") << f.type << " " << f.name << "@" << f.offset << (dup ? "!" : "") << " ");
            VT_EQ(raises([&] { d.t->addField(f.name, Field(f.name, arg, f.offset)); }), dup, "addField");
            if (c.g.chance(1, 10))
                VT_CHECK(raises([&] { d.t->addField("r", Field("r", Argument(arg.type(), c.g.coin() ? RefType::LValue : RefType::RValue, f.isConst), f.offset)); }), "a reference field");
            if (dup) continue;
            d.size = f.offset + size;
            d.fields.push_back(f);
        }
        d.size = (d.size + 7) / 8 * 8;
        VT_LOG("} ");
        types.push_back(d);
    }
    int ti = int(n) - 1;
    size_t base = 8 * c.g.draw(6);
    bool isConst = false;
    std::string entry = "root" + tag;
    bool entryConst = c.g.chance(1, 6);
    blobType()->addField(entry, Field(entry, Argument(types[ti].t, RefType::Copy, entryConst), base));

    alignas(16) Blob blob;
    for (int i = 0; i < 256; ++i) blob.bytes[i] = (unsigned char)(i * 7 + 3) & 63;
    Value root;
    unsigned char* bytes = blob.bytes;
    switch (c.g.draw(2)) {
    case 0: root = Value(blob); break;
    case 1: root = Value((const Blob&)blob); isConst = true; break;
    default: { Blob copy = blob; root = Value(std::move(copy)); bytes = static_cast<unsigned char*>(root.value()); }
    }
    Value v = root.field(entry);
    isConst = isConst || entryConst;
    size_t at = base;
    bool deep = false, inherited = false;
    VT_LOG("walk @" << at);
    for (int steps = 0; steps < 8; ++steps) {
        VT_EQ(v.type(), (const Type*)types[ti].t, "type on the way"); VT_EQ(v.isConst(), isConst, "constness on the way");
        VT_EQ((size_t)((unsigned char*)v.value() - bytes), at, "place on the way");
        // visible fields: own, then those of the parents that are not shadowed
        std::vector<std::pair<DField, bool>> visible;
        for (int p = ti; p >= 0; p = types[p].parent)
            for (auto& f : types[p].fields) {
                bool shadowed = false; for (auto& x : visible) if (x.first.name == f.name) shadowed = true;
                if (!shadowed) visible.push_back({ f, p != ti });
            }
        VT_CHECK(raises([&] { v.field("none"); }), "unknown field");
        if (visible.empty()) break;
        // one is followed, all are looked at
        for (auto& x : visible) {
            Value f = v.field(x.first.name);
            VT_EQ((size_t)((unsigned char*)f.value() - bytes), at + x.first.offset, "place of " << x.first.name);
            VT_EQ(f.isConst(), isConst || x.first.isConst, "constness of " << x.first.name);
            VT_EQ(f.type(), (x.first.type < 4 ? prim(x.first.type) : types[x.first.type - 4].t), "type of " << x.first.name);
        }
        auto& x = c.g.pick(visible);
        Value f = v.field(x.first.name);
        VT_LOG("." << x.first.name);
        if (x.second) inherited = true;
        bool fc = isConst || x.first.isConst;
        if (steps) deep = true;
        if (x.first.type < 4) {
            size_t place = at + x.first.offset;
            if (fc) {
                unsigned char before[256]; memcpy(before, bytes, 256);
                VT_CHECK(raises([&] { f.assign(int(5)); }) && raises([&] { f.assign(f.copy()); }), "assignment to a const member");
                VT_CHECK(!memcmp(before, bytes, 256), "a refused write changed the object");
                deep = true;
            }
            else switch (x.first.type) {
                case 0: poke<int>(f, bytes, place, c.g); break; case 1: poke<unsigned char>(f, bytes, place, c.g); break;
                case 2: poke<double>(f, bytes, place, c.g); break; default: poke<short>(f, bytes, place, c.g); }
            break;
        }
        v = f; at += x.first.offset; ti = x.first.type - 4; isConst = fc;
    }
    c.nontrivial(deep || inherited);
    if (inherited) c.label("inherited"); if (isConst) c.label("const"); if (deep) c.label("nested");
}


// Offsets of any size: a large object is reserved, of which only the touched pages exist.
VT_PROP(far_offsets, 4000, 100000, "an offset above 256 bytes")
{
    static const size_t room = size_t(1) << 34;
    static unsigned char* area = [] {
        void* p = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return p == MAP_FAILED ? nullptr : (unsigned char*) p;
    }();
    VT_CHECK(area, "can't reserve address space");
    static unsigned long serial = 0;
    const std::string tag = std::to_string(serial++);
    auto offset = [&] (unsigned maxBits) {
        unsigned bits = unsigned(c.g.draw(maxBits));
        size_t o = bits ? (size_t(1) << bits) - 8 + 8 * c.g.draw(2) : 8;
        if (c.g.chance(1, 2)) o ^= c.g.draw((size_t(1) << bits) - 1);
        return std::min((o + 7) / 8 * 8, (size_t(1) << maxBits));
    };
    Type* mid = new Type("p08far" + tag);       // types live as long as the program
    size_t inner = offset(32), outer = offset(32);
    bool ci = c.g.chance(1, 5), co = c.g.chance(1, 5);
    VT_LOG(outer << (co ? " const" : "") << " + " << inner << (ci ? " const" : ""));
    c.nontrivial(inner > 256 || outer > 256);
    c.label(inner >> 32 || outer >> 32 ? "4 GiB" : inner >> 16 || outer >> 16 ? "64 KiB" : "near");
    mid->addField("inner", Field("inner", Argument(type<long>(), RefType::Copy, ci), inner));
    const std::string name = "outer" + tag;
    Type* far = const_cast<Type*>(type<Far>());
    far->addField(name, Field(name, Argument(mid, RefType::Copy, co), outer));

    Far& root = *reinterpret_cast<Far*>(area);
    Value v = Value(root).field(name);
    VT_EQ((size_t)((unsigned char*)v.value() - area), outer, "place of the outer field");
    VT_EQ(v.isConst(), co, "constness of the outer field");
    VT_EQ(type<Far>()->field(name).offset(), outer, "declared offset");
    Value f = v.field("inner");
    VT_EQ((size_t)((unsigned char*)f.value() - area), outer + inner, "place of the inner field");
    VT_EQ(f.isConst(), co || ci, "constness of the inner field");
    VT_EQ(mid->field("inner").offset(), inner, "declared offset");
    if (!f.isConst()) {
        long x = long(1 + c.g.draw(1000)); long* at = reinterpret_cast<long*>(area + outer + inner);
        f.assign(x); VT_EQ(*at, x, "a write through the field"); *at = x + 1; VT_EQ(f.get<long>(), x + 1, "a write to the object");
        madvise(area + ((outer + inner) & ~size_t(4095)), 8192, MADV_DONTNEED);
    }
}
