// P14: primitive types reflect their C++ values, limits, aliases and classification.
#include "zoo.h"
#include "types/pointer.h"
#include "types/primitives.h"

#include <cstdint>
#include <limits>

using namespace reflect;
using namespace zoo;

namespace {

template<typename T> std::string str(T v) { std::ostringstream ss; ss.precision(25); ss << +v; return ss.str(); }
bool sameBits(long double a, long double b) { return a == b || (a != a && b != b); }

template<typename T> typename std::enable_if<std::numeric_limits<T>::is_integer, T>::type gen(vt::Gen& g)
{
    switch (g.draw(4)) {
    case 0: return T(g.small());
    case 1: return T(std::numeric_limits<T>::max() - T(g.draw(2)));
    case 2: return T(std::numeric_limits<T>::min() + T(g.draw(2)));
    default: return T(g.i64());
    }
}
template<> bool gen<bool>(vt::Gen& g) { return g.coin(); }
template<typename T> typename std::enable_if<!std::numeric_limits<T>::is_integer, T>::type gen(vt::Gen& g)
{
    switch (g.draw(6)) {
    case 0: return T(g.small()) / 4;
    case 1: return g.oneOf({ std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon() });
    case 2: return g.oneOf({ std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), T(-0.0) });
    case 3: return T(g.i64()) / 3;
    default: { double d = g.f64(); if (std::is_same<T, float>::value && (d > 3e38 || d < -3e38)) d = 1.5; return T(d); }
    }
}

// a + b where C++ defines it.
template<typename T> bool addable(T a, T b, std::true_type) { decltype(a + b) x = a, y = b; return std::is_unsigned<decltype(x)>::value ? true : !__builtin_add_overflow(x, y, &x); }
template<typename T> bool addable(T, T, std::false_type) { return true; }

template<typename T> void expect(const Value& v, T x, const char* what)
{
    VT_CHECK(v.type() == type<T>(), what);
    VT_CHECK(sameBits(v.get<T>(), x), what << ": " << str(v.get<T>()) << " instead of " << str(x));
}

// Leaves its mark on the stack, for what is constructed there next to show whether it was initialised.
__attribute__((noinline)) void dirtyStack() { volatile char b[16384]; for (size_t i = 0; i < sizeof(b); ++i) b[i] = 0x5A; }

template<typename T> void number(vt::Case& c)
{
    vt::Gen& g = c.g;
    typedef std::numeric_limits<T> L;
    const Type* t = type<T>();
    T x = gen<T>(g), y = gen<T>(g);
    VT_LOG(t->id() << " " << str(x) << " " << str(y));
    c.nontrivial(x != T() && y != T());
    c.label(t->id());

    // classification and limits
    VT_CHECK(t->is("primitive"), "primitive");
    VT_EQ(t->is("bool"), (std::is_same<T, bool>::value), "bool"); VT_EQ(t->is("integer"), (L::is_integer && !std::is_same<T, bool>::value), "integer");
    VT_EQ(t->is("signed"), (L::is_integer && L::is_signed), "signed"); VT_EQ(t->is("unsigned"), (L::is_integer && !L::is_signed && !std::is_same<T, bool>::value), "unsigned");
    VT_EQ(t->is("float"), !L::is_integer, "float"); VT_CHECK(!t->is("void") && !t->is("string") && !t->is("list") && !t->is("map") && !t->is("pointer") && !t->isPointer(), "other kinds");
    VT_CHECK(t->getValue<size_t>("sizeof") == sizeof(T) && sameBits(t->getValue<T>("min"), L::min()) && sameBits(t->getValue<T>("max"), L::max()), "limits");
    VT_CHECK(t->isCopiable() && t->isMovable() && !t->parent(), "plumbing");

    // values
    dirtyStack(); expect<T>(t->construct(), T(), "default construction");
    expect<T>(t->construct(x), x, "copy construction"); { const T k = x; expect<T>(t->construct(k), x, "copy construction"); } expect<T>(t->construct(T(x)), x, "move construction");
    Value v(x);
    VT_CHECK(v.value() == (void*)&x, "a reference"); expect<T>(v, x, "reference"); expect<T>(Value(T(x)), x, "stored"); expect<T>(v.copy(), x, "copy"); { Value w = v.copy(); expect<T>(w.move(), x, "move"); }
    VT_CHECK(sameBits(cast<T>(v), x) && sameBits(cast<const T&>(v), x) && &cast<T&>(v) == &x && sameBits(v.call<T>(t->id()), x), "cast");
    { Value w(x); Value u(x); u = Value(T(y)); u.assign(x); expect<T>(u, x, "assignment"); T z = x; Value zv(z); zv.assign(y); VT_CHECK(sameBits(z, y) && sameBits(x, v.get<T>()), "assignment"); zv.assign(w); VT_CHECK(sameBits(z, x), "assignment of a Value"); zv.assign(T(y)); VT_CHECK(sameBits(z, y), "assignment of a temporary"); VT_CHECK(raises([&] { zv.toConst().assign(x); }) && sameBits(z, y), "assignment to a const"); }
    typedef decltype(x + y) S;
    if (addable(x, y, std::integral_constant<bool, L::is_integer>())) {
        S sum = x + y;
        Value r = v + y; expect<S>(r, sum, "operator+"); expect<S>(v + Value(y), sum, "operator+ with a Value"); VT_CHECK(sameBits(t->template call<S>("operator+", x, y), sum), "operator+ by name");
    }
    { Value p = t->alloc(); VT_CHECK(p.type() == type<T*>(), "new"); std::unique_ptr<T> own(p.get<T*>()); *own = x; expect<T>(*p, x, "pointee"); }
}

template<typename T> void alias(const char* name) { VT_CHECK(type(name) == type<T>(), name << " is " << type(name)->id() << " rather than " << type<T>()->id()); VT_EQ(typeId<T>(), type(name)->id(), name); }

} // namespace

VT_PROP(numbers, 24000, 1500000, "both operands differ from zero")
{
    switch (c.g.draw(15)) {
    case 0: number<bool>(c); break; case 1: number<char>(c); break; case 2: number<signed char>(c); break; case 3: number<unsigned char>(c); break;
    case 4: number<short>(c); break; case 5: number<unsigned short>(c); break; case 6: number<int>(c); break; case 7: number<unsigned>(c); break;
    case 8: number<long>(c); break; case 9: number<unsigned long>(c); break; case 10: number<long long>(c); break; case 11: number<unsigned long long>(c); break;
    case 12: number<float>(c); break; case 13: number<double>(c); break; case 14: number<long double>(c); break; default: number<int>(c); break;
    }
}

// Every pair of distinct types is unrelated; every name of a type leads to it.
VT_PROP(names, 4000, 20000, "two different types")
{
    static const std::vector<const Type*> all = { type<bool>(), type<char>(), type<signed char>(), type<unsigned char>(), type<short>(), type<unsigned short>(), type<int>(), type<unsigned>(), type<long>(),
        type<unsigned long>(), type<long long>(), type<unsigned long long>(), type<float>(), type<double>(), type<long double>(), type<void>() };
    size_t i = c.g.below(all.size()), j = c.g.below(all.size());
    VT_LOG(all[i]->id() << " " << all[j]->id());
    c.nontrivial(i != j);
    VT_EQ(all[i] == all[j], i == j, "one type each"); VT_EQ(all[i]->isChildOf(all[j]), i == j, "no relation"); VT_CHECK(!all[i]->hasConverter(all[j]), "no conversion");
    VT_CHECK(type(all[i]->id()) == all[i], "by id");
    VT_CHECK(type<void>()->is("void") && type<void>()->is("primitive") && Value().type() == type<void>() && Value().isVoid(), "void");
    #define AL(T) alias<T>(#T)
    alias<void>("void"); AL(bool); AL(char); AL(signed char); AL(unsigned char); AL(short int); AL(unsigned short int); AL(int); AL(unsigned int); AL(long int); AL(unsigned long int); AL(long long int); AL(unsigned long long int); AL(float); AL(double); AL(long double);
    AL(short); AL(unsigned short); AL(long); AL(unsigned long); AL(long long); AL(unsigned long long); AL(size_t); AL(ssize_t); AL(intmax_t); AL(uintmax_t); AL(intptr_t); AL(uintptr_t);
    AL(int8_t); AL(uint8_t); AL(int16_t); AL(uint16_t); AL(int32_t); AL(uint32_t); AL(int64_t); AL(uint64_t);
    AL(int_fast8_t); AL(uint_fast8_t); AL(int_fast16_t); AL(uint_fast16_t); AL(int_fast32_t); AL(uint_fast32_t); AL(int_fast64_t); AL(uint_fast64_t);
    AL(int_least8_t); AL(uint_least8_t); AL(int_least16_t); AL(uint_least16_t); AL(int_least32_t); AL(uint_least32_t); AL(int_least64_t); AL(uint_least64_t);
    VT_CHECK(raises([&] { type("unsigned long long long"); }) && raises([&] { type("int9_t"); }), "unknown names");
}
