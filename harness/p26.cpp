// P26: operators on Values are the reflected operators of the held object.
#include "zoo.h"
#include "types/pointer.h"
#include "types/primitives.h"

using namespace reflect;
using namespace zoo;

namespace p26 {

// Every operator does something of its own, in which the operands don't commute, and leaves a trace.
struct Log { std::vector<std::string> l; };
inline Log& log() { static Log l; return l; }
inline void note(const std::string& s) { log().l.push_back(s); }

struct Num
{
    int v; Track t;
    Num() : v(0), t("Num") {}
    explicit Num(int v) : v(v), t("Num") {}
    bool operator==(int o) const { note("==i"); return v == o; }      // see All for the class-typed ones
};

#define BIN(op, id) All operator op (const All& o) const { note(#op); return All(v * 31 + id * 7 - o.v * 5); }
#define ASG(op, id) All& operator op (const All& o) { note(#op); v = v * 31 + id * 7 - o.v * 5; return *this; }
#define CMP(op, id) bool operator op (const All& o) const { note(#op); return ((v * 3 + id * 2 - o.v) & 2) != 0; }

struct All
{
    int v; Track t;
    All() : v(0), t("All") {}
    explicit All(int v) : v(v), t("All") {}
    All(const All&) = default; All(All&&) = default; All& operator=(const All&) = default; All& operator=(All&&) = default;
    ASG(+=, 1) ASG(-=, 2) ASG(*=, 3) ASG(/=, 4) ASG(%=, 5) ASG(&=, 6) ASG(|=, 7) ASG(^=, 8) ASG(<<=, 9) ASG(>>=, 10)
    All& operator++() { note("++"); v += 11; return *this; }
    All& operator--() { note("--"); v -= 13; return *this; }
    All operator++(int i) { note("++ "); All k(v); v += 17 + i; return k; }
    All operator--(int i) { note("-- "); All k(v); v -= 19 + i; return k; }
    BIN(+, 11) BIN(-, 12) BIN(*, 13) BIN(/, 14) BIN(%, 15) BIN(&, 16) BIN(|, 17) BIN(^, 18) BIN(<<, 19) BIN(>>, 20)
    All operator~() const { note("~"); return All(~v); }
    bool operator!() const { note("!"); return v % 3 == 0; }
    CMP(&&, 21) CMP(||, 22) CMP(==, 23) CMP(!=, 24) CMP(<, 25) CMP(>, 26) CMP(<=, 27) CMP(>=, 28)
    int operator()(int a, int b) { note("()"); v += a; return v * 3 + a * 5 - b * 7; }
    int& operator[](const All& i) { note("[]"); slot = v * 2 - i.v; return slot; }
    explicit operator bool() const { note("bool"); return v % 2 == 0; }
    int slot = 0;
};
// Types that have a part of them.
struct Deref { All to; Deref(int v) : to(v) {} All& operator*() { note("*u"); return to; } explicit operator bool() const { note("bool"); return to.v % 2 == 0; } };      // bool, without !
struct OnlyNot { int v; bool operator!() const { note("!"); return v % 2 == 0; } };           // ! without bool
struct Both { int v; bool operator!() const { note("!"); return v % 5 == 0; } explicit operator bool() const { note("bool"); return v % 2 == 0; } };   // they disagree
struct None { int v; };
struct Child : public All { Child() {} explicit Child(int v) : All(v) {} };

} // namespace p26

reflectType(p26::All)
{
    reflectPlumbing();
    reflectOpAssign(); reflectOpArithmetic(); reflectOpLogical(); reflectOpComparaison(); reflectOpIncDec(); reflectOp(operator(), Function); reflectOp(operator[], Array);
    reflectOpCast(bool);
    reflectField(v);
}
reflectType(p26::Deref) { reflectOp(operator*, Indirection); reflectOpCast(bool); }
reflectType(p26::OnlyNot) { reflectOpLogical(); }
reflectType(p26::Both) { reflectOperators(); reflectOpCast(bool); }
reflectType(p26::None) { reflectOperators(); reflectPlumbing(); }
reflectType(p26::Child) { reflectParent(p26::All); reflectPlumbing(); }

using p26::All; using p26::log;

namespace {

std::string take() { std::string s; for (auto& x : log().l) s += x + ";"; log().l.clear(); return s; }

enum Right { RawL, RawC, RawT, ValL, ValC, ValOwned, ValChild };

// Applies op to a (a Value) with a right operand that arrives in one of several ways.
template<typename Fn> auto withRight(int how, int w, const Fn& fn) -> decltype(fn(std::declval<Value&>()))
{
    switch (how) {
    case RawL: { All o(w); auto r = fn(o); VT_EQ(o.v, w, "the right operand stays"); return r; }
    case RawC: { const All o(w); return fn(o); }
    case RawT: return fn(All(w));
    case ValL: { All o(w); Value x(o); auto r = fn(x); VT_EQ(o.v, w, "the right operand stays"); return r; }
    case ValC: { const All o(w); Value x(o); return fn(x); }
    case ValOwned: { Value x{All(w)}; return fn(x); }
    default: { p26::Child o(w); Value x(o); return fn(x); }
    }
}

} // namespace

VT_PROP(operators, 40000, 1200000, "operands other than zero")
{
    vt::Gen& g = c.g;
    life().clear(); log().l.clear();
    {
        int a = int(g.range(-500, 500)), b = int(g.range(-500, 500)), how = int(g.draw(6)), left = int(g.draw(4)), op = int(g.draw(37));
        All obj(a), plain(a); p26::Child child(a);
        // the left operand: reference, owned, const, child, rvalue
        Value v; bool isConst = false; All* held = &obj;
        switch (left) {
        case 0: v = Value(obj); break;
        case 1: v = Value(All(a)); held = (All*)v.value(); break;
        case 2: v = Value((const All&)obj); isConst = true; break;
        case 3: v = Value(child); held = &child; break;
        default: v = Value(obj); break;
        }
        log().l.clear();
        const All rhs(b);
        c.nontrivial(a && b);
        std::string expectTrace; bool refused = false; std::string trace;
        #define RUN(call, direct, changes) { refused = isConst && changes; if (!refused) { direct; expectTrace = take(); } bool bad = raises([&] { call; }); trace = take(); VT_EQ(bad, refused, "raised"); }
        // assignment forms: the result is the object itself
        #define A_(id, op) case id: { VT_LOG(#op); RUN(withRight(how, b, [&] (auto&& o) { Value r = (v op std::forward<decltype(o)>(o)); trace = take(); VT_CHECK(r.value() == (void*)held && r.type() == type<All>() && !r.isConst(), "the object itself"); for (size_t i = 0; i < 1 && !trace.empty(); ++i) p26::note(trace.substr(0, trace.size() - 1)); return 0; }), plain op rhs, true); break; }
        #define B_(id, op) case id: { VT_LOG(#op); int want = 0; RUN(withRight(how, b, [&] (auto&& o) { Value r = (v op std::forward<decltype(o)>(o)); VT_CHECK(r.isStored() && r.type() == type<All>(), "a new object"); VT_EQ(r.get<All>().v, want, "result"); return 0; }), want = (plain op rhs).v, false); break; }
        #define C_(id, op) case id: { VT_LOG(#op); bool want = false; RUN(withRight(how, b, [&] (auto&& o) { bool r = (v op std::forward<decltype(o)>(o)); VT_EQ(r, want, "result"); return 0; }), want = (plain op rhs), false); break; }
        switch (op) {
        A_(0, +=) A_(1, -=) A_(2, *=) A_(3, /=) A_(4, %=) A_(5, &=) A_(6, |=) A_(7, ^=) A_(8, <<=) A_(9, >>=)
        B_(10, +) B_(11, -) B_(12, *) B_(13, /) B_(14, %) B_(15, &) B_(16, |) B_(17, ^) B_(18, <<) B_(19, >>)
        C_(20, ==) C_(21, !=) C_(22, <) C_(23, >) C_(24, <=) C_(25, >=)
        case 26: VT_LOG("&&"); { bool want = false; RUN(withRight(how, b, [&] (auto&& o) { bool r = v.operator&&(std::forward<decltype(o)>(o)); VT_EQ(r, want, "result"); return 0; }), want = plain.operator&&(rhs), false); } break;
        case 27: VT_LOG("||"); { bool want = false; RUN(withRight(how, b, [&] (auto&& o) { bool r = v.operator||(std::forward<decltype(o)>(o)); VT_EQ(r, want, "result"); return 0; }), want = plain.operator||(rhs), false); } break;
        case 28: VT_LOG("++pre"); RUN({ Value r = ++v; VT_CHECK(r.value() == (void*)held, "the object itself"); }, ++plain, true); break;
        case 29: VT_LOG("--pre"); RUN({ Value r = --v; VT_CHECK(r.value() == (void*)held, "the object itself"); }, --plain, true); break;
        case 30: VT_LOG("++post"); { int want = 0; RUN({ Value r = v++; VT_CHECK(r.isStored() && r.value() != (void*)held, "the old value"); VT_EQ(r.get<All>().v, want, "the old value"); }, want = (plain++).v, true); } break;
        case 31: VT_LOG("--post"); { int want = 0; RUN({ Value r = v--; VT_CHECK(r.isStored() && r.value() != (void*)held, "the old value"); VT_EQ(r.get<All>().v, want, "the old value"); }, want = (plain--).v, true); } break;
        case 32: VT_LOG("~"); { int want = 0; RUN({ Value r = ~v; VT_EQ(r.get<All>().v, want, "result"); }, want = (~plain).v, false); } break;
        case 33: VT_LOG("!"); { bool want = false; RUN({ bool r = !v; VT_EQ(r, want, "result"); }, want = !plain, false); } break;
        case 34: VT_LOG("()"); { int want = 0; int p = b, q = a + 3; RUN({ Value r = v(p, q); VT_EQ(r.get<int>(), want, "result"); }, want = plain(p, q), true); } break;
        case 35: VT_LOG("[]"); { int want = 0; RUN(withRight(how, b, [&] (auto&& o) { Value r = v[std::forward<decltype(o)>(o)]; VT_CHECK(r.value() == (void*)&held->slot && !r.isConst(), "the element"); VT_EQ(r.get<int>(), want, "result"); return 0; }), want = plain[rhs], true); } break;
        case 36: VT_LOG("bool"); { bool want = false; RUN({ bool r = (bool) v; VT_EQ(r, want, "result"); }, want = (bool)plain, false); } break;
        default: VT_LOG("*"); RUN({ bool bad = raises([&] { Value r = *v; }); VT_CHECK(bad, "no dereference"); }, (void)0, false); if (isConst) expectTrace.clear(); break;
        }
        VT_LOG(" left " << left << " " << a << " right " << how << " " << b);
        c.label("left " + std::to_string(left)); c.label("right " + std::to_string(how));
        VT_EQ(trace, expectTrace, "the operators that ran");
        VT_EQ(held->v, refused ? a : plain.v, "the object afterwards");
        if (left == 1) VT_EQ(obj.v, a, "some other object");
        check("at the end");
    }
    VT_EQ(life().left(), size_t(0), "objects left");
}

// A type whose operators tell apart what they are given: 6 overloads of each, by the constness of the object and
// the kind of the operand. What ran is left in `ran`.
namespace p26 {
struct Operand { std::string s; explicit Operand(std::string s) : s(std::move(s)) {} };
struct Picky { int v; };
std::string& ran() { static std::string s; return s; }
static const char* const pickyNames[] = { "operator+=", "operator-=", "operator*=", "operator/=", "operator%=", "operator&=", "operator|=", "operator^=", "operator<<=", "operator>>=",
    "operator+", "operator-", "operator*", "operator/", "operator%", "operator&", "operator|", "operator^", "operator<<", "operator>>", "operator&&", "operator||",
    "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator[]" };
template<typename R> R pickyRet(int n) { return R(n); }
template<typename R> void pickyOp(Type* type_, const std::string& name)
{
    type_->addFunction(name, [name] (const Picky&, const Operand& o) -> R { ran() += name + " const const " + o.s + ";"; return pickyRet<R>(0); });
    type_->addFunction(name, [name] (const Picky&, Operand& o) -> R { ran() += name + " const ref " + o.s + ";"; o.s += "!"; return pickyRet<R>(1); });
    type_->addFunction(name, [name] (const Picky&, Operand&& o) -> R { Operand in(std::move(o)); ran() += name + " const temp " + in.s + ";"; return pickyRet<R>(0); });
    type_->addFunction(name, [name] (Picky& p, const Operand& o) -> R { ran() += name + " mutable const " + o.s + ";"; p.v++; return pickyRet<R>(1); });
    type_->addFunction(name, [name] (Picky& p, Operand& o) -> R { ran() += name + " mutable ref " + o.s + ";"; p.v++; o.s += "!"; return pickyRet<R>(0); });
    type_->addFunction(name, [name] (Picky& p, Operand&& o) -> R { Operand in(std::move(o)); ran() += name + " mutable temp " + in.s + ";"; p.v++; return pickyRet<R>(1); });
}
template<typename P, typename A, typename B> void pickyCall(Type* type_, const std::string& what)
{
    type_->addFunction("operator()", [what] (P&, A a, B b) -> int { typename std::decay<A>::type x(std::forward<A>(a)); typename std::decay<B>::type y(std::forward<B>(b)); ran() += "() " + what + " " + x.s + " " + y.s + ";"; return 7; });
}
template<typename P> void pickyCalls(Type* type_, const std::string& o)
{
    typedef Operand O;
    pickyCall<P, const O&, const O&>(type_, o + " cc"); pickyCall<P, const O&, O&>(type_, o + " cr"); pickyCall<P, const O&, O&&>(type_, o + " ct");
    pickyCall<P, O&, const O&>(type_, o + " rc"); pickyCall<P, O&, O&>(type_, o + " rr"); pickyCall<P, O&, O&&>(type_, o + " rt");
    pickyCall<P, O&&, const O&>(type_, o + " tc"); pickyCall<P, O&&, O&>(type_, o + " tr"); pickyCall<P, O&&, O&&>(type_, o + " tt");
}
}
reflectType(p26::Operand) { reflectPlumbing(); }
reflectType(p26::Picky)
{
    size_t i = 0;
    for (auto name : p26::pickyNames) { if (i < 20 || i == 28) p26::pickyOp<int>(type_, name); else p26::pickyOp<bool>(type_, name); ++i; }
    p26::pickyCalls<p26::Picky>(type_, "mutable"); p26::pickyCalls<const p26::Picky>(type_, "const");
}

namespace {

// An operand that arrives as an lvalue, a const lvalue or a temporary; as it is or in a Value.
template<typename Fn> void withOperand(int how, const std::string& text, std::string& kind, std::string& left, const Fn& fn)
{
    p26::Operand o(text);
    switch (how) {
    case 0: kind = "ref"; fn(o); break;
    case 1: kind = "const"; fn((const p26::Operand&)o); break;
    case 2: kind = "temp"; fn(std::move(o)); break;
    case 3: { kind = "temp"; left = ""; fn(p26::Operand(text)); return; }
    case 4: { kind = "ref"; Value x(o); fn(x); break; }
    case 5: { kind = "const"; const Value x((const p26::Operand&)o); fn(x); break; }
    case 6: { kind = "temp"; Value x = Value(o).rvalue(); fn(x); break; }
    case 7: { kind = "ref"; Value x(o); fn(std::move(x)); break; }
    default: { kind = "temp"; fn(Value(o).rvalue()); break; }
    }
    left = o.s;
}

} // namespace

VT_PROP(operand_kinds, 24000, 600000, "the operand is a temporary or the object is const")
{
    vt::Gen& g = c.g;
    p26::ran().clear();
    p26::Picky obj{3}; bool isConst = g.coin();
    Value v; if (isConst) v = Value((const p26::Picky&)obj); else v = Value(obj);
    const int op = int(g.draw(29)), how = int(g.draw(8)); std::string kind, left, text = "t" + std::to_string(g.draw(99));
    if (g.coin()) text += std::string(40, 'x');
    const std::string o = isConst ? "const" : "mutable";
    if (op == 29) {
        int how2 = int(g.draw(8)); std::string kind2, left2, text2 = "u" + std::to_string(g.draw(99));
        VT_LOG("() " << o << " " << how << " " << how2);
        int r = 0;
        withOperand(how, text, kind, left, [&] (auto&& a) { withOperand(how2, text2, kind2, left2, [&] (auto&& b) { r = v(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)).template get<int>(); }); });
        VT_EQ(p26::ran(), "() " + o + " " + kind[0] + kind2[0] + " " + text + " " + text2 + ";", "what ran"); VT_EQ(r, 7, "result");
        VT_EQ(left, kind == "temp" ? "" : text, "the first operand"); VT_EQ(left2, kind2 == "temp" ? "" : text2, "the second operand");
        c.nontrivial(kind == "temp" || kind2 == "temp" || isConst);
        return;
    }
    const std::string name = p26::pickyNames[op];
    VT_LOG(o << " " << name << " " << how);
    int got = -1;
    withOperand(how, text, kind, left, [&] (auto&& a) {
        #define V_(id, o) case id: { Value r = (v o std::forward<decltype(a)>(a)); got = r.template get<int>(); VT_CHECK(r.isStored(), "a new object"); break; }
        #define P_(id, o) case id: got = (v o std::forward<decltype(a)>(a)); break;
        switch (op) {
        V_(0, +=) V_(1, -=) V_(2, *=) V_(3, /=) V_(4, %=) V_(5, &=) V_(6, |=) V_(7, ^=) V_(8, <<=) V_(9, >>=)
        V_(10, +) V_(11, -) V_(12, *) V_(13, /) V_(14, %) V_(15, &) V_(16, |) V_(17, ^) V_(18, <<) V_(19, >>)
        case 20: got = v.operator&&(std::forward<decltype(a)>(a)); break;
        case 21: got = v.operator||(std::forward<decltype(a)>(a)); break;
        P_(22, ==) P_(23, !=) P_(24, <) P_(25, >) P_(26, <=) P_(27, >=)
        default: got = v[std::forward<decltype(a)>(a)].template get<int>(); break;
        }
    });
    c.label(kind); c.nontrivial(kind == "temp" || isConst);
    VT_EQ(p26::ran(), name + " " + o + " " + kind + " " + text + ";", "what ran");
    VT_EQ(got, isConst ? int(kind == "ref") : int(kind != "ref"), "result");
    VT_EQ(left, kind == "temp" ? "" : kind == "ref" ? text + "!" : text, "the operand afterwards");
    VT_EQ(obj.v, isConst ? 3 : 4, "the object");
}

VT_PROP(partial_types, 8000, 200000, "every case")
{
    vt::Gen& g = c.g;
    int k = int(g.range(-50, 50)), other = int(g.range(-50, 50));
    c.nontrivial(); log().l.clear(); life().clear();
    VT_LOG(k << " ");
    switch (g.draw(4)) {
    case 0: { VT_LOG("fallback"); p26::Deref d(k); Value v(d); VT_EQ(!v, !(k % 2 == 0), "negation of the conversion"); VT_EQ(take(), "bool;", "ran"); Value r = *v; VT_CHECK(r.value() == (void*)&d.to, "dereference"); VT_EQ(take(), "*u;", "ran"); Value w = v.toConst(); VT_CHECK(raises([&] { *w; }), "dereference of a const"); VT_EQ(take(), "", "ran"); break; }
    case 1: { VT_LOG("only not"); p26::OnlyNot d{k}; Value v(d); VT_EQ(!v, k % 2 == 0, "!"); VT_EQ(take(), "!;", "ran"); VT_CHECK(raises([&] { (void)(bool)v; }), "no conversion to bool"); VT_EQ(take(), "", "ran"); break; }
    case 2: { VT_LOG("both"); p26::Both d{k}; Value v(d); VT_EQ(!v, k % 5 == 0, "!"); VT_EQ(take(), "!;", "ran"); VT_EQ((bool)v, k % 2 == 0, "bool"); VT_EQ(take(), "bool;", "ran"); break; }
    case 3: {
        VT_LOG("pointer"); int x = k; int* p = other & 1 ? &x : nullptr; Value v(p); VT_EQ((bool)v, p != nullptr, "bool"); VT_EQ(!v, p == nullptr, "!"); if (p) { Value r = *v; VT_CHECK(r.value() == (void*)&x, "dereference"); }
        Value n(x); Value s = n + other; VT_EQ(s.get<int>(), k + other, "int + int"); VT_CHECK(raises([&] { n - other; }) && raises([&] { ++n; }) && raises([&] { n += other; }), "int reflects no other operator"); VT_EQ(x, k, "unchanged");
        break; }
    default: {
        VT_LOG("none"); p26::None d{k}, e{other}; Value v(d), w(e);
        typedef std::function<void()> F;
        const F fs[] = { [&] { v + w; }, [&] { v - e; }, [&] { v * w; }, [&] { v / w; }, [&] { v % w; }, [&] { v & e; }, [&] { v | w; }, [&] { v ^ w; }, [&] { v << w; }, [&] { v >> e; }, [&] { v += w; }, [&] { v -= e; }, [&] { v *= w; },
            [&] { v /= w; }, [&] { v %= w; }, [&] { v &= w; }, [&] { v |= w; }, [&] { v ^= w; }, [&] { v <<= w; }, [&] { v >>= w; }, [&] { ++v; }, [&] { --v; }, [&] { v++; }, [&] { v--; }, [&] { ~v; }, [&] { (void)!v; }, [&] { (void)(bool)v; },
            [&] { (void)(v == w); }, [&] { (void)(v != e); }, [&] { (void)(v < w); }, [&] { (void)(v > w); }, [&] { (void)(v <= w); }, [&] { (void)(v >= w); }, [&] { v.operator&&(w); }, [&] { v.operator||(w); }, [&] { v(1, 2); }, [&] { v[w]; }, [&] { *v; } };
        size_t i = g.below(sizeof fs / sizeof *fs);
        VT_LOG(" " << i);
        VT_CHECK(raises(fs[i]), "an operator that isn't reflected"); VT_EQ(d.v, k, "unchanged"); VT_EQ(e.v, other, "unchanged");
        v.assign(w); VT_EQ(d.v, other, "operator= is reflected");
        break; }
    }
    check("at the end");
}
