// P01, members: histories of member, static, overloaded, inherited and constructor calls, of global
// functions and of global variables, each made through reflection on one object and directly on its twin.
#include "p01.h"

using namespace reflect;
using namespace zoo;

namespace p01m {

struct Acc
{
    int i; std::string s; Obj o; MoveOnly m; int calls;
    Acc() : i(0), o(0), m(0), calls(0) {}
    explicit Acc(int i) : i(i), o(i + 1), m(i + 2), calls(0) {}
    Acc(int i, std::string s) : i(i), s(std::move(s)), o(0), m(0), calls(0) {}
    Acc(const Obj& o, MoveOnly&& m) : i(0), o(o), m(std::move(m)), calls(0) {}
    Acc(int a, int b, int c, int d, int e, std::string& out) : i(((((a * 31 + b) * 31 + c) * 31 + d) * 31) + e), o(a), m(e), calls(0) { out += "built"; }
    Acc(const Acc& x) : i(x.i), s(x.s), o(x.o), m(x.m.get()), calls(x.calls) {}
    Acc(Acc&& x) : i(x.i), s(std::move(x.s)), o(std::move(x.o)), m(std::move(x.m)), calls(x.calls) {}
    Acc& operator=(const Acc& x) { i = x.i; s = x.s; o = x.o; m = MoveOnly(x.m.get()); calls = x.calls; return *this; }

    int val() const { return i; }
    void val(int v) { calls++; i = v; }
    const std::string& name() const { return s; }
    void name(const std::string& v) { calls++; s = v; }
    void name(std::string&& v) { calls += 100; s = std::move(v); v = "taken"; }
    Acc& add(int v) { calls++; i = int(unsigned(i) + unsigned(v)); return *this; }
    Acc plus(const Acc& x) const { Acc r(*this); r.i = int(unsigned(r.i) + unsigned(x.i)); r.s += x.s; return r; }
    int mul(int a, int b, int c, int d) const { return int(unsigned(i) * 7 + unsigned(a) * 1000 + unsigned(b) * 100 + unsigned(c) * 10 + unsigned(d)); }
    std::string mix(const std::string& a, int n, std::string b) { calls++; b += "|"; s += a; return a + b + std::to_string(n); }
    void take(MoveOnly&& x) { calls++; m = std::move(x); }
    MoveOnly give() { calls++; return std::move(m); }
    Obj& obj() { return o; }
    const Obj& cobj() const { return o; }
    void swapWith(Acc& x) { calls++; std::swap(i, x.i); std::swap(s, x.s); }
    void out(int& a, std::string& b) const { a = i; b = s; }
    Obj copyOf(Obj x) { calls++; x.set(x.get() + 1); return x; }
    bool operator==(const Acc& x) const { return i == x.i; }
    static int twice(int v) { return int(unsigned(v) * 2); }
    std::string show() const { return std::to_string(i) + "/" + s + "/" + std::to_string(o.get()) + "/" + std::to_string(m.get()) + "/" + std::to_string(calls); }
};

struct AccChild : public Acc
{
    int extra;
    AccChild() : extra(0) {}
    explicit AccChild(int v) : Acc(v), extra(v * 3) {}
    AccChild(const AccChild&) = default;
    AccChild(AccChild&&) = default;
    int val() const { return i * 2 + extra; }            // hides
    void bump() { extra++; }
};

int gvar; std::string gstr; Obj gobj; const int gconst = 77; const Obj gcobj(55);
int gcalls;
int gsum(int a, const Obj& b, std::string c) { gcalls++; c += "x"; return int(unsigned(a) + unsigned(b.get()) + c.size()); }
Obj& gref(Obj& o) { gcalls++; return o; }
int gover(int) { gcalls++; return 1; }
int gover(const std::string&) { gcalls++; return 2; }
int gover(const Obj&, int) { gcalls++; return 3; }

} // namespace p01m

reflectType(p01m::Acc)
{
    typedef p01m::Acc A;
    reflectDefaultCons(); reflectCopyCons(); reflectMoveCons(); reflectOpCopyAssign();
    reflectCons(int);
    reflectCons(int, std::string);
    reflectCons(const zoo::Obj&, zoo::MoveOnly&&);
    reflectCons(int, int, int, int, int, std::string&);
    reflectFnTyped(val, int (A::*)() const);
    reflectFnTyped(val, void (A::*)(int));
    reflectFnTyped(name, const std::string& (A::*)() const);
    reflectFnTyped(name, void (A::*)(const std::string&));
    reflectFnTyped(name, void (A::*)(std::string&&));
    reflectFn(add); reflectFn(plus); reflectFn(mul); reflectFn(mix); reflectFn(take); reflectFn(give);
    reflectFn(obj); reflectFn(cobj); reflectFn(swapWith); reflectFn(out); reflectFn(copyOf); reflectFn(twice);
    reflectFn(operator==);
    reflectCustom(custom) (p01m::Acc& a, int v) { a.calls += 10; return a.i + v; };
    reflectCustom(ccustom) (const p01m::Acc& a, const std::string& v) { return a.s + v; };
}
reflectType(p01m::AccChild)
{
    reflectParent(p01m::Acc);
    reflectDefaultCons(); reflectCopyCons(); reflectMoveCons();
    reflectCons(int);
    reflectFnTyped(val, int (p01m::AccChild::*)() const);
    reflectFn(bump);
}
reflectScope(p01m)
{
    reflectGlobalFn(p01m::gsum); reflectGlobalFn(p01m::gref);
    reflectGlobalFnTyped(p01m::gover, int (*)(int));
    reflectGlobalFnTyped(p01m::gover, int (*)(const std::string&));
    reflectGlobalFnTyped(p01m::gover, int (*)(const zoo::Obj&, int));
    reflectGlobalVar(p01m::gvar); reflectGlobalVar(p01m::gstr); reflectGlobalVar(p01m::gobj);
    reflectGlobalVar(p01m::gconst); reflectGlobalVar(p01m::gcobj);
}

using namespace p01m;

namespace {

// The same name called by each of the public ways.
template<typename Ret, typename... Args>
Ret callAny(uint64_t way, const Value& v, const char* name, Args&&... args)
{
    switch (way) {
    case 0: return v.call<Ret>(name, std::forward<Args>(args)...);
    case 1: return v.type()->call<Ret>(name, v, std::forward<Args>(args)...);
    default: return v.type()->function(name).call<Ret>(v, std::forward<Args>(args)...);
    }
}

struct Twin { Value v; Acc* a; Acc* b; std::shared_ptr<Acc> ownA, ownB; bool child; };

} // namespace

VT_PROP(member_histories, 40000, 800000, "at least four calls")
{
    life().clear();
    life().live.emplace(&gobj.t, "G"); life().live.emplace(&gcobj.t, "G");
    {
        std::vector<Twin> ts;
        auto make = [&] {
            Twin t; int v = int(c.g.small()); t.child = c.g.chance(1, 3);
            if (t.child) {
                auto p = std::make_shared<AccChild>(v), q = std::make_shared<AccChild>(v);
                t.ownA = p; t.ownB = q;
                if (c.g.coin()) { t.v = Value(AccChild(v)); t.a = static_cast<Acc*>(static_cast<AccChild*>(t.v.value())); }
                else { t.v = Value(*p); t.a = p.get(); }
            }
            else {
                t.ownA = std::make_shared<Acc>(v); t.ownB = std::make_shared<Acc>(v);
                if (c.g.coin()) { t.v = Value(Acc(v)); t.a = static_cast<Acc*>(t.v.value()); }
                else { t.v = Value(*t.ownA); t.a = t.ownA.get(); }
            }
            t.b = t.ownB.get();
            ts.push_back(t);
        };
        make(); make();
        auto childA = [] (Twin& t) { return static_cast<AccChild*>(t.a); };
        auto childB = [] (Twin& t) { return static_cast<AccChild*>(t.b); };
        unsigned calls = 0;
        do {
            if (c.g.chance(1, 8) && ts.size() < 4) make();
            size_t k = c.g.below(ts.size()), k2 = c.g.below(ts.size());
            Twin& t = ts[k]; Twin& u = ts[k2];
            uint64_t way = c.g.draw(2);
            int n = int(c.g.small()), n2 = int(c.g.small());
            std::string w = c.g.word(2);
            unsigned op = unsigned(c.g.draw(19));
            VT_LOG(op << (t.child ? "c" : "") << k << "(" << n << "," << w << ") ");
            ++calls;
            switch (op) {
            case 0: VT_EQ(callAny<int>(way, t.v, "val"), t.child ? childB(t)->val() : t.b->val(), "val()"); break;
            case 1:
                if (t.child) {      // hidden by the child's val
                    VT_CHECK(raises([&] { callAny<void>(way, t.v, "val", n); }), "val(int) is hidden in the child");
                    // still there through the parent's type
                    type<Acc>()->call<void>("val", t.v, n); t.b->val(n);
                }
                else { callAny<void>(way, t.v, "val", n); t.b->val(n); }
                break;
            case 2: { const std::string& r = callAny<const std::string&>(way, t.v, "name");
                VT_EQ((const void*)&r, (const void*)&t.a->s, "name() returns the member itself"); VT_EQ(r, t.b->name(), "name()"); break; }
            case 3: { std::string x = w, y = w; callAny<void>(way, t.v, "name", x); t.b->name(y); VT_EQ(x, y, "name(const&)"); break; }
            case 4: { std::string x = w, y = w; callAny<void>(way, t.v, "name", std::move(x)); t.b->name(std::move(y)); break; }
            case 5: { Acc& r = callAny<Acc&>(way, t.v, "add", n); t.b->add(n); VT_EQ((void*)&r, (void*)t.a, "add() returns *this"); break; }
            case 6: { Value r = callAny<Value>(way, t.v, "add", n).call<Value>("add", n2); t.b->add(n).add(n2);
                VT_EQ(r.value(), (void*)t.a, "chained add"); VT_CHECK(!r.isStored() && !r.isConst(), "chained add"); break; }
            case 7: { Acc r = callAny<Acc>(way, t.v, "plus", u.v); VT_EQ(r.show(), t.b->plus(*u.b).show(), "plus"); break; }
            case 8: VT_EQ(callAny<int>(way, t.v, "mul", n, n2, n + 1, n2 + 1), t.b->mul(n, n2, n + 1, n2 + 1), "mul"); break;
            case 9: { std::string x = w, y = w; VT_EQ(callAny<std::string>(way, t.v, "mix", std::string("k"), n, x), t.b->mix("k", n, y), "mix"); VT_EQ(x, y, "mix"); break; }
            case 10: { MoveOnly x(n), y(n); callAny<void>(way, t.v, "take", std::move(x)); t.b->take(std::move(y)); VT_EQ(x.get(), y.get(), "take"); break; }
            case 11: { Value r = callAny<Value>(way, t.v, "give"); MoveOnly y = t.b->give(); VT_EQ(r.get<MoveOnly>().get(), y.get(), "give"); VT_CHECK(r.isStored(), "give"); break; }
            case 12: { Obj& r = callAny<Obj&>(way, t.v, "obj"); VT_EQ((void*)&r, (void*)&t.a->o, "obj"); r.set(n); t.b->obj().set(n); break; }
            case 13: { const Obj& r = callAny<const Obj&>(way, t.v, "cobj"); VT_EQ((const void*)&r, (const void*)&t.a->o, "cobj");
                VT_CHECK(callAny<Value>(way, t.v, "cobj").isConst(), "cobj is const"); break; }
            case 14: if (k != k2) { callAny<void>(way, t.v, "swapWith", u.v); t.b->swapWith(*u.b); } break;
            case 15: { int x = -1, y = -1; std::string p, q; callAny<void>(way, t.v, "out", x, p); t.b->out(y, q); VT_EQ(x, y, "out"); VT_EQ(p, q, "out"); break; }
            case 16: { Obj x(n), y(n); Value vx(x); Obj r = callAny<Obj>(way, t.v, "copyOf", vx); Obj s = t.b->copyOf(y); VT_EQ(r.get(), s.get(), "copyOf"); VT_EQ(x.get(), n, "copyOf changed its caller"); break; }
            case 17: VT_EQ(t.v.type()->call<int>("twice", n), Acc::twice(n), "static"); break;
            case 18: if (t.child) { callAny<void>(way, t.v, "bump"); childB(t)->bump(); VT_EQ(childA(t)->extra, childB(t)->extra, "bump"); }
                else { VT_EQ(callAny<int>(way, t.v, "custom", n), t.b->i + n, "custom"); t.b->calls += 10; } break;
            case 19: {
                // const Values: const members work, the others are refused without effect
                Value cv = c.g.coin() ? t.v.toConst() : Value(const_cast<const Acc&>(*t.a));
                VT_EQ(cv.call<int>("mul", 1, 2, 3, n), t.b->mul(1, 2, 3, n), "const");
                VT_EQ(cv.call<std::string>("ccustom", w), t.b->s + w, "const");
                VT_CHECK(raises([&] { cv.call<void>("add", n); }), "non-const call on a const object");
                VT_CHECK(raises([&] { cv.call<Value>("custom", n); }), "non-const call on a const object");
                VT_CHECK(raises([&] { cv.call<Value>("obj"); }), "non-const call on a const object");
                break; }
            }
            for (auto& x : ts) VT_EQ(x.a->show(), x.b->show(), "state after operation " << op);
            zoo::check("call");
        } while (c.g.more(12));
        c.nontrivial(calls >= 4);
    }
    zoo::check("at the end");
    VT_EQ(life().live.size(), size_t(2), liveSummary());
}

VT_PROP(constructors_and_globals, 40000, 600000, "always")
{
    life().clear();
    life().live.emplace(&gobj.t, "G"); life().live.emplace(&gcobj.t, "G");
    {
        c.nontrivial();
        int n = int(c.g.small()); std::string w = c.g.word(4);
        gvar = n; gstr = w; gobj.n.v = n; gcalls = 0;
        const Type* t = type<Acc>();
        Scope* global = scope();
        Scope* ns = scope("p01m");
        VT_LOG(n << " " << w << ":");
        do {
            unsigned op = unsigned(c.g.draw(11));
            VT_LOG(" " << op);
            switch (op) {
            case 0: { Value v = t->construct(); VT_EQ(v.get<Acc>().show(), Acc().show(), "Acc()"); VT_CHECK(v.isStored(), ""); break; }
            case 1: { Value v = t->construct(n); VT_EQ(v.get<Acc>().show(), Acc(n).show(), "Acc(int)"); break; }
            case 2: { std::string x = w; Value v = t->construct(n, x); VT_EQ(v.get<Acc>().show(), Acc(n, w).show(), "Acc(int, string)"); VT_EQ(x, w, "by value"); break; }
            case 3: { Obj o(n); MoveOnly a(n + 1), b(n + 1); Value v = t->construct(o, std::move(a));
                VT_EQ(v.get<Acc>().show(), Acc(o, std::move(b)).show(), "Acc(const Obj&, MoveOnly&&)"); VT_EQ(a.get(), int(Moved), "moved"); VT_EQ(o.get(), n, ""); break; }
            case 4: { std::string x = w, y = w; Value v = t->construct(n, 2, 3, 4, 5, x);
                VT_EQ(v.get<Acc>().show(), Acc(n, 2, 3, 4, 5, y).show(), "six arguments"); VT_EQ(x, y, "reference argument"); break; }
            case 5: { Acc a(n); Value v(a); Value r = t->construct(v); VT_EQ(r.get<Acc>().show(), a.show(), "copy"); VT_CHECK(r.value() != v.value(), "copy");
                a.val(n + 1); VT_EQ(r.get<Acc>().i, n, "copy is independent"); break; }
            case 6: { Acc a(n, w), b(n, w); Value r = t->construct(Value(a).rvalue()); Acc d(std::move(b)); VT_EQ(r.get<Acc>().show(), d.show(), "move"); VT_EQ(a.show(), b.show(), "move"); break; }
            case 7: { Obj o(n); VT_EQ(global->call<int>("p01m::gsum", n, o, w), gsum(n, o, w), "gsum");
                VT_EQ(ns->call<int>("gsum", n, Value(o), Value(w)), gsum(n, o, w), "gsum"); VT_EQ(gcalls, 4, "one call each"); gcalls = 0;
                VT_EQ((void*)&global->call<Obj&>("p01m::gref", o), (void*)&o, "gref"); VT_EQ(ns->call<Value>("gref", Value(o)).value(), (void*)&o, "gref"); gcalls = 0; break; }
            case 8: VT_EQ(ns->call<int>("gover", n), 1, "gover(int)"); VT_EQ(ns->call<int>("gover", w), 2, "gover(string)"); VT_EQ(ns->call<int>("gover", Obj(n), n), 3, "gover(Obj, int)");
                VT_EQ(gcalls, 3, "one call each"); gcalls = 0; break;
            case 9: {       // a variable reads as its value and is set by passing one
                int m = int(c.g.small());
                VT_EQ(global->call<int>("p01m::gvar"), gvar, "read"); global->call<void>("p01m::gvar", m); VT_EQ(gvar, m, "write");
                gvar = m + 1; VT_EQ(ns->call<int>("gvar"), m + 1, "read back"); break; }
            case 10: { std::string x = c.g.word(3), y = x; ns->call<void>("gstr", x); VT_EQ(gstr, y, "write"); VT_EQ(x, y, "source unchanged"); VT_EQ(ns->call<std::string>("gstr"), y, "read");
                Obj o(n + 5); ns->call<void>("gobj", o); VT_EQ(gobj.get(), n + 5, "write"); VT_EQ(ns->call<Obj>("gobj").get(), n + 5, "read"); VT_CHECK(ns->call<Value>("gobj").value() != &gobj, "the getter copies"); break; }
            default:
                VT_EQ(ns->call<int>("gconst"), 77, "const variable"); VT_CHECK(raises([&] { ns->call<void>("gconst", n); }), "const variable written");
                VT_EQ(ns->call<Obj>("gcobj").get(), 55, "const variable"); VT_CHECK(raises([&] { ns->call<void>("gcobj", Obj(n)); }), "const variable written"); VT_EQ(gcobj.get(), 55, "");
                break;
            }
            zoo::check("call");
        } while (c.g.more(5));
    }
    zoo::check("at the end");
    VT_EQ(life().live.size(), size_t(2), liveSummary());
}
