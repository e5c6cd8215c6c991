// P24: errors carry their whole message.
#include "zoo.h"
#include "types/pointer.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json/json.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace reflect;

namespace p24 {

struct NoCopy { int x; NoCopy() : x(1) {} NoCopy(const NoCopy&) = delete; NoCopy(NoCopy&&) = default; };
struct Sum { int64_t add(int64_t a, int64_t b) { return a + b; } };
struct Blob { int64_t x[2]; };
Type*& blobType() { static Type* t; return t; }
int alive = 0;
struct Counted { Counted() { ++alive; } Counted(const Counted&) { ++alive; } ~Counted() { --alive; } };

} // namespace p24

reflectType(p24::NoCopy) { reflectPlumbing(); reflectField(x); }
reflectType(p24::Sum) { reflectPlumbing(); reflectFn(add); reflectCustom(over) (p24::Sum&, float) {}; reflectCustom(over) (p24::Sum&, const char*) {}; }
reflectType(p24::Blob) { p24::blobType() = type_; }
reflectType(p24::Counted) { reflectPlumbing(); }

using namespace p24;

namespace {

// A name of any length and any characters except nil.
std::string genName(vt::Gen& g)
{
    std::string unit;
    switch (g.draw(5)) {
    case 0: unit = g.word(3); break;
    case 1: unit = g.oneOf<const char*>({ "%s", "%d", "%n", "%", "%%", "%lu", "%*.*f", "%1$s", "%s%s%s%s", "%100000d" }); break;
    case 2: unit = g.utf8String(3); break;
    case 3: do unit += char(g.range(1, 255)); while (g.more(6)); break;
    case 4: unit = g.oneOf<const char*>({ " ", "\n", "\"", "\\", "'", "\t", "\x7f", "\xff" }); break;
    default: unit = std::string(1, char('a' + g.draw(25))); break;
    }
    for (auto& x : unit) if (!x) x = '0';
    if (unit.empty()) unit = "e";
    std::string s = unit;
    if (g.chance(1, 2)) {
        size_t n = g.chance(1, 3) ? 1000 + g.draw(60) : g.chance(1, 4) ? g.draw(20000) : g.draw(300);
        while (s.size() < n) s += unit;
        s.resize(std::max<size_t>(1, n));
    }
    return s;
}

// Names that scopes take: separators and brackets have a meaning there.
std::string genId(vt::Gen& g) { std::string s = genName(g); for (auto& c : s) if (c == ':' || c == '<' || c == '>') c = '.'; return s; }
std::string unique(const std::string& s) { static unsigned long n; return "u" + std::to_string(++n) + s; }

struct Caught { bool raised, other; std::string what; int count; bool active; };

template<typename Fn> Caught run(const Fn& fn)
{
    Caught r{ false, false, "", 0, false };
    try { fn(); }
    catch (const Error& e) { r.raised = true; ++r.count; r.what = e.what(); r.active = bool(e); Error copy(e); Error assigned; assigned = copy; VT_EQ(std::string(copy.what()), r.what, "a copy"); VT_EQ(std::string(assigned.what()), r.what, "an assigned copy"); VT_CHECK(bool(copy) && bool(assigned), "copies are errors"); }
    catch (const std::exception& e) { r.raised = r.other = true; r.what = e.what(); }
    return r;
}

// file:line: message
void judge(const Caught& r, const std::vector<std::string>& names, size_t slack = 600)
{
    VT_CHECK(r.raised, "no error");
    VT_CHECK(!r.other, "not a reflect::Error: " << vt::quote(r.what, 300));
    VT_CHECK(r.active, "the error tests false");
    size_t i = 0;
    while (i < r.what.size() && r.what[i] != ':') ++i;
    VT_CHECK(i > 4 && i < 300 && i + 1 < r.what.size(), "no file: " << vt::quote(r.what, 200));
    std::string file = r.what.substr(0, i);
    VT_CHECK(file.find("src/") != std::string::npos || file.find("harness") != std::string::npos || file.find('.') != std::string::npos, "no file: " << vt::quote(r.what, 200));
    size_t j = ++i; while (j < r.what.size() && isdigit((unsigned char)r.what[j])) ++j;
    VT_CHECK(j > i && atol(r.what.c_str() + i) > 0 && r.what.compare(j, 2, ": ") == 0, "no line: " << vt::quote(r.what, 200));
    std::string msg = r.what.substr(j + 2);
    VT_CHECK(!msg.empty(), "no message");
    size_t total = slack;
    for (auto& n : names) { total += 3 * n.size() + 40; VT_CHECK(msg.find(n) != std::string::npos, "the name " << vt::quote(n, 60) << " (" << n.size() << ") is missing from " << vt::quote(msg, 600) << " (" << msg.size() << ")"); }
    VT_CHECK(msg.size() <= total, "too long: " << msg.size() << " for names of " << total - slack);
}

// The library still answers.
void sane()
{
    Sum s; Value v(s);
    VT_EQ(v.call<int64_t>("add", int64_t(40), int64_t(2)), int64_t(42), "a call after an error");
    VT_EQ(type<Sum>(), type("p24::Sum"), "a lookup after an error");
    std::vector<int> vec{ 1, 2, 3 }; VT_EQ(Value(vec).call<size_t>("size"), size_t(3), "a container after an error");
    VT_CHECK(zoo::raises([&] { type("p24::Sum::none at all"); }), "an error after an error");
}

struct Misuse { const char* name; std::function<void(vt::Case&)> run; };

// A Value of a made-up type over an object.
Value at(p24::Blob& o, Type* t)
{
    type<p24::Blob>();
    std::string entry = unique("entry");
    blobType()->addField(entry, Field(entry, Argument(t, RefType::Copy, false), 0));
    return Value(o).field(entry);
}

Type* fresh(const std::string& name) { return new Type(unique(name)); }

const std::vector<Misuse>& misuses()
{
    static const std::vector<Misuse> all = {
        { "unknown id", [] (vt::Case& c) { std::string n = unique(genName(c.g)); judge(run([&] { type(n); }), { n }); } },
        { "alias of taken", [] (vt::Case& c) { std::string a = unique(genName(c.g)), n = unique(genName(c.g)), m = unique(genName(c.g)); Registry::alias(n, a); judge(run([&] { Registry::alias(m, a); }), { a, n, m }); } },
        { "empty id", [] (vt::Case&) { judge(run([] { type(""); }), {}); judge(run([] { Registry::add("", [] (Type*) {}); }), {}); judge(run([] { Registry::alias("", "x"); }), {}); judge(run([] { Registry::alias("x", ""); }), {}); } },
        { "unknown field", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); const Type* ct = t; judge(run([&] { ct->field(n); }), { n, t->id() }); judge(run([&] { t->field(n); }), { n, t->id() }); delete t; } },
        { "unknown function", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); const Type* ct = t; judge(run([&] { ct->function(n); }), { n, t->id() }); judge(run([&] { t->function(n); }), { n, t->id() }); judge(run([&] { ct->call<int>(n, 3); }), { n, t->id() }); delete t; } },
        { "field of a value", [] (vt::Case& c) { std::string n = "no" + genName(c.g); NoCopy x; judge(run([&] { Value(x).field(n); }), { n, "p24::NoCopy" }); judge(run([&] { Value(x).call<void>(n); }), { n, "p24::NoCopy" }); } },
        { "field twice", [] (vt::Case& c) {
                std::string n = genName(c.g), t1 = genName(c.g), t2 = genName(c.g), trait = genName(c.g); Type* t = fresh(genName(c.g)); Type* a = fresh(t1); Type* b = c.g.coin() ? a : fresh(t2);
                Field first(n, Argument(a, RefType::Copy, c.g.coin()), c.g.draw(5000)), second(n, Argument(b, RefType::Copy, c.g.coin()), c.g.draw(5000));
                if (c.g.coin()) first.addTrait(trait);
                if (c.g.coin()) second.addTrait(trait, 3);
                std::string p1 = first.print(), p2 = second.print();
                t->addField(n, std::move(first)); judge(run([&] { t->addField(n, std::move(second)); }), { p1, p2, t->id() }); VT_EQ(t->field(n).print(), p1, "the first field");
                judge(run([&] { t->addFunction(n, [] {}); }), { n, p1, t->id() }); VT_CHECK(!t->hasFunction(n), "the refused function");
                if (b != a) delete b; delete a; delete t; } },
        { "field as function", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); t->addFunction(n, [] (int) {}); Field f(n, Argument(type<int>(), RefType::Copy, c.g.coin()), c.g.draw(5000)); std::string p = f.print(); judge(run([&] { t->addField(n, std::move(f)); }), { n, p, "void(int)", t->id() }); VT_CHECK(!t->hasField(n), "the refused field"); delete t; } },
        { "reference field", [] (vt::Case& c) { std::string n = genName(c.g), tn = genName(c.g); Type* t = fresh(tn); judge(run([&] { Field(n, Argument(t, RefType::LValue, false), 0); }), { n, t->id() }); delete t; } },
        { "ambiguous overload", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); t->addFunction(n, [] (int, const NoCopy&) {}); judge(run([&] { t->addFunction(n, [] (int, const NoCopy&) {}); }), { n, "void(int, p24::NoCopy const&)" }); delete t; } },
        { "no overload", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); t->addFunction(n, [] (int) {}); Sum s; judge(run([&] { t->call<void>(n, s, 3); }), { n, "p24::Sum" }); delete t; } },
        { "ambiguous call", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); t->addFunction(n, [] (const float&) {}); t->addFunction(n, [] (const double&) {}); int x = 3; bool ambiguous = false; Caught r = run([&] { t->call<void>(n, x); }); ambiguous = r.raised; if (ambiguous) judge(r, { n }); delete t; } },
        { "get overload", [] (vt::Case& c) { std::string n = genName(c.g); Type* t = fresh(genName(c.g)); t->addFunction(n, [] (int) {}); const Overloads& o = t->function(n); judge(run([&] { o.get<void(const std::string&, Sum)>(); }), { n, "p24::Sum" });
                judge(run([&] { o.get(Argument::make<void>(), { Argument::make<NoCopy&>() }); }), { n, "p24::NoCopy" }); delete t; } },
        { "not a pointer", [] (vt::Case& c) { Type* t = fresh(genName(c.g)); judge(run([&] { t->pointer(); }), { t->id() }); judge(run([&] { t->pointee(); }), { t->id() }); delete t; } },
        { "trait", [] (vt::Case& c) {
                std::string n = genName(c.g); Type* t = fresh(genName(c.g));
                judge(run([&] { t->getValue<int>(n); }), { n });
                t->addTrait(n, 5); judge(run([&] { t->addTrait(n, 6); }), { n }); judge(run([&] { t->addTrait(n); }), { n });
                judge(run([&] { t->getValue<std::string>(n); }), {});
                VT_EQ(t->getValue<int>(n), 5, "the trait"); delete t; } },
        { "scope", [] (vt::Case& c) {
                std::string a = unique(genId(c.g)), b = unique(genId(c.g)); Scope s(a); const Scope& cs = s;
                judge(run([&] { cs.scope(b); }), { a, b }); judge(run([&] { cs.function(b); }), { b }); judge(run([&] { s.type(b); }), { b }); judge(run([&] { s.function(b); }), { b }); judge(run([&] { s.call<void>(b); }), { b }); } },
        { "global scope", [] (vt::Case& c) { std::string b = unique(genId(c.g)); const Scope* g = scope(); judge(run([&] { g->scope(b); }), { b }); judge(run([&] { g->function(b); }), { b }); judge(run([&] { scope()->type(b); }), { b }); } },
        { "brackets", [] (vt::Case& c) { std::string n = genId(c.g) + "<" + genId(c.g); judge(run([&] { Scope::head(n); }), { n }); std::string o = genId(c.g) + ":x"; judge(run([&] { Scope::head(o); }), { o }); std::string m = genId(c.g) + ">x"; judge(run([&] { Scope::tail(m); }), { m }); std::string u = genId(c.g) + ":" + genId(c.g); judge(run([&] { Scope::tail(u); }), { u }); } },
        { "type and function", [] (vt::Case& c) { std::string a = unique(genId(c.g)); std::string b = unique(genId(c.g)); Scope s(a); s.addFunction(b, [] {}); judge(run([&] { s.addType(b + "::x"); }), { b }); } },
        { "cast", [] (vt::Case& c) {
                std::string text = genName(c.g); Value v(text);
                judge(run([&] { v.get<Sum>(); }), { "std::string", "p24::Sum" }); judge(run([&] { cast<Sum&>(v); }), { "std::string", "p24::Sum" });
                judge(run([&] { cast<int>(v); }), { "std::string", "int" });
                const NoCopy n{}; Value w(n); judge(run([&] { cast<NoCopy&>(w); }), { "p24::NoCopy" }); judge(run([&] { w.copy(); }), { "p24::NoCopy" });
                VT_EQ(v.get<std::string>(), text, "the value"); } },
        { "container", [] (vt::Case& c) {
                std::vector<int> vec(c.g.draw(5)); size_t i = vec.size() + c.g.draw(c.g.coin() ? 5 : 1000000000000ul); judge(run([&] { Value(vec).call<const int&>("at", i); }), { std::to_string(i), std::to_string(vec.size()) });
                const std::map<std::string, int> m{ { "a", 1 } }; std::string k = "k" + genName(c.g); judge(run([&] { Value(m).call<const int&>("at", k); }), {}); } },
        { "token", [] (vt::Case& c) {
                std::string text = genName(c.g); json::Token t(json::Token::String, text);
                judge(run([&] { t.asInt(); }), { text }); judge(run([&] { t.asBool(); }), { text }); judge(run([&] { t.asFloat(); }), { text });
                json::Token n(json::Token::Int, text); judge(run([&] { n.asString(); }), { text }); judge(run([&] { json::Token().asString(); }), {}); judge(run([&] { json::Token(json::Token::Null).asInt(); }), {}); } },
        { "json key", [] (vt::Case& c) {
                std::string a = genName(c.g), b = a + "2"; Type* t = fresh(genName(c.g)); t->addField<int64_t>(a, 0); t->addField<int64_t>(b, 8); json::Traits tr = json::alias(a); tr.skipEmpty = false; t->field(b).addTrait("json", tr);
                p24::Blob o{ { 1, 2 } }; Value v = at(o, t); std::ostringstream ss; json::Writer w(ss);
                judge(run([&] { json::print(w, v); }), { a, t->id() }); std::istringstream is("{}"); json::Reader r(is); judge(run([&] { json::parse(r, v); }), { a, t->id() }); } },
        { "json custom", [] (vt::Case& c) {
                std::string a = genName(c.g), b = genName(c.g); Type* t = fresh(genName(c.g)); t->addTrait("json", json::custom(a, b));
                p24::Blob o{ { 1, 2 } }; Value v = at(o, t); std::ostringstream ss; json::Writer w(ss);
                judge(run([&] { json::print(w, v); }), { b, t->id() }); std::istringstream is("{}"); json::Reader r(is); judge(run([&] { json::parse(r, v); }), { a, t->id() }); } },
        { "json void", [] (vt::Case&) { judge(run([&] { std::ostringstream ss; json::Writer w(ss); json::print(w, Value()); }), {}); } },
        { "operator", [] (vt::Case&) { Sum s; Value v(s); judge(run([&] { v + 3; }), { "p24::Sum" }); judge(run([&] { *v; }), { "p24::Sum" }); judge(run([&] { (bool) v; }), { "p24::Sum" }); } },
        { "inside a call", [] (vt::Case& c) {
                int before = alive; std::string n = unique(genName(c.g)); Type* t = fresh("x");
                t->addFunction("f", [n] (Counted, int) -> Counted { Counted local; type(n); return local; });
                t->addFunction("g", [t] (const Counted& c) { return t->call<Counted>("f", c, 3); });
                { Counted c1; judge(run([&] { t->call<Value>("g", c1); }), { n }); VT_EQ(alive, before + 1, "objects after an error"); }
                VT_EQ(alive, before, "objects after an error"); delete t; } },
    };
    return all;
}

} // namespace

VT_PROP(misuse, 8000, 400000, "always")
{
    vt::Gen& g = c.g;
    size_t n = 1 + g.draw(3);
    c.nontrivial(true);
    for (size_t i = 0; i < n; ++i) {
        const Misuse& m = i ? g.pick(misuses()) : misuses()[g.each(misuses().size())];
        VT_LOG(m.name << "\n"); c.label(m.name);
        m.run(c);
        if (g.chance(1, 4)) sane();
    }
    sane();
}

/* ------------------------------------------------------------------ formatting */

namespace {

// A format of up to six pieces with their arguments, and what it has to give.
struct Piece { int kind; std::string text; std::string lit; long num; };

std::string expected(const std::vector<Piece>& ps)
{
    std::string r;
    for (auto& p : ps) {
        r += p.lit;
        switch (p.kind) {
        case 0: case 1: case 2: case 3: r += p.text; break;
        case 4: r += std::to_string(int(p.num)); break;
        case 5: r += std::to_string((unsigned long)p.num); break;
        case 6: r += char('a' + (p.num & 15)); break;
        case 7: { char b[30]; snprintf(b, sizeof b, "%x", unsigned(p.num)); r += b; break; }
        default: r += "%"; break;
        }
    }
    return r;
}

std::string literal(const std::string& s) { std::string r; for (char c : s) { r += c; if (c == '%') r += c; } return r; }
std::string format(const std::vector<Piece>& ps)
{
    std::string r; static const char* specs[] = { "%s", "%s", "%s", "%s", "%d", "%lu", "%c", "%x", "%%" };
    for (auto& p : ps) { r += literal(p.lit); r += specs[p.kind]; }
    return r;
}

enum { ViaFormat, ViaError, ViaReader, ViaWriter };

template<typename... Args> std::string emit(int via, const std::string& fmt, Args&&... args)
{
    switch (via) {
    case ViaFormat: return errorFormat(fmt.c_str(), std::forward<Args>(args)...);
    case ViaError: try { reflect::error("some/file.x", 77, fmt.c_str(), std::forward<Args>(args)...); } catch (const Error& e) { std::string w = e.what(); VT_EQ(w.substr(0, 16), std::string("some/file.x:77: "), "prefix"); return w.substr(16); } VT_FAIL("no error");
    case ViaReader: { std::istringstream is("x"); json::Reader r(is); VT_CHECK(!r.error(), "no error yet"); r.error(fmt.c_str(), std::forward<Args>(args)...); VT_CHECK(bool(r.error()) && !r, "error"); std::string w = r.error().what(); VT_EQ(w.substr(0, 5), std::string("1:1: "), "prefix"); return w.substr(5); }
    default: { std::ostringstream os; json::Writer w(os); VT_CHECK(!w.error(), "no error yet"); w.error(fmt.c_str(), std::forward<Args>(args)...); VT_CHECK(bool(w.error()) && !w, "error"); return w.error().what(); }
    }
}

// Adds the pieces as arguments one at a time.
template<typename... Args> std::string build(int via, const std::string& fmt, const std::vector<Piece>& ps, size_t at, Args&&... args)
{
    constexpr size_t Max = 3;
    if (at == ps.size()) return emit(via, fmt, std::forward<Args>(args)...);
    if constexpr (sizeof...(Args) < Max) {
        const Piece& p = ps[at];
        std::string copy = p.text;
        switch (p.kind) {
        case 0: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., p.text);
        case 1: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., p.text.c_str());
        case 2: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., std::move(copy));
        case 3: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., copy);
        case 4: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., int(p.num));
        case 5: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., (unsigned long)p.num);
        case 6: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., char('a' + (p.num & 15)));
        case 7: return build(via, fmt, ps, at + 1, std::forward<Args>(args)..., unsigned(p.num));
        default: return build(via, fmt, ps, at + 1, std::forward<Args>(args)...);
        }
    }
    else { VT_FAIL("too many pieces"); }
}

} // namespace

VT_PROP(formats, 30000, 1500000, "two or more pieces, or over 100 bytes")
{
    vt::Gen& g = c.g;
    std::vector<Piece> ps;
    for (size_t n = g.draw(3); n > 0; --n) {
        Piece p; p.kind = int(g.draw(8)); p.num = long(g.i64()); if (g.coin()) p.lit = genName(g);
        if (p.kind <= 3 && g.chance(7, 8)) p.text = genName(g);
        ps.push_back(p);
    }
    std::string want = expected(ps);
    // lengths around the buffer's
    if (!ps.empty() && g.chance(1, 3)) {
        size_t to = g.oneOf<size_t>({ 1024, 1024, 2048, 4096, 128, 256, 512, 8192 }) + g.draw(6) - 3;
        if (want.size() < to) { ps[0].lit += std::string(to - want.size(), '.'); want = expected(ps); }
    }
    int via = int(g.draw(3));
    VT_LOG(via << " " << ps.size() << " pieces, " << want.size() << " bytes: " << vt::quote(want, 200) << "\n");
    c.nontrivial(ps.size() >= 2 || want.size() > 100);
    c.label(want.size() >= 1024 ? "1024 bytes or more" : "shorter");
    std::string got = build(via, format(ps), ps, 0);
    VT_EQ(got.size(), want.size(), "length of the message");
    VT_CHECK(got == want, "message: got " << vt::quote(got, 500) << " expected " << vt::quote(want, 500));
}

// Without exceptions the whole message is printed before the program aborts, wherever its output goes.
VT_PROP(aborted, 300, 6000, "a message over 100 bytes, or output before it")
{
    vt::Gen& g = c.g;
    std::string file = "src/" + g.word(8), msg = genName(g), before; int line = int(g.draw(5000));
    if (g.coin()) before = genName(g);
    bool regular = g.coin(), viaMacro = g.coin();
    c.nontrivial(msg.size() > 100 || !before.empty()); c.label(regular ? "file" : "pipe"); c.label(viaMacro ? "formatted" : "verror");
    VT_LOG((regular ? "to a file, " : "to a pipe, ") << before.size() << " bytes, then " << file << ":" << line << " " << vt::quote(msg, 200) << " " << msg.size() << "\n");
    int fds[2]; char path[] = "/tmp/vt-p24-XXXXXX";
    if (regular) { fds[0] = mkstemp(path); VT_CHECK(fds[0] >= 0, "no file"); fds[1] = open(path, O_WRONLY); unlink(path); }
    else VT_CHECK(pipe(fds) == 0, "no pipe");
    fflush(nullptr);
    pid_t pid = fork(); VT_CHECK(pid >= 0, "no fork");
    if (!pid) {
        struct rlimit none = { 0, 0 }; setrlimit(RLIMIT_CORE, &none); signal(SIGABRT, SIG_DFL);
        close(fds[0]); dup2(fds[1], 1); setvbuf(stdout, nullptr, _IOFBF, 1 << 12);
        fwrite(before.data(), 1, before.size(), stdout);
        if (viaMacro) verror(false, file.c_str(), line, errorFormat("%s", msg)); else verror(false, file.c_str(), line, msg);
        _exit(0);
    }
    close(fds[1]);
    std::string got; char buf[4096]; ssize_t n; int status = 0;
    if (regular) { waitpid(pid, &status, 0); lseek(fds[0], 0, SEEK_SET); }
    while ((n = read(fds[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(fds[0]);
    if (!regular) waitpid(pid, &status, 0);
    VT_CHECK(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "not aborted: " << status);
    std::string want = before + file + ":" + std::to_string(line) + ": " + msg + "\n";
    VT_CHECK(got == want, "printed " << vt::quote(got, 300) << " (" << got.size() << ") expected " << vt::quote(want, 300) << " (" << want.size() << ")");
}

// Errors as objects: copies, moves, slices, in containers, thrown again.
VT_PROP(objects, 10000, 500000, "at least 4 steps")
{
    vt::Gen& g = c.g;
    struct M { bool active; std::string text; };
    bool json = g.coin();
    std::vector<json::Error> es; std::vector<Error> bs; std::vector<M> ms;
    size_t steps = g.draw(12); c.nontrivial(steps >= 4);
    auto check = [&] {
        for (size_t i = 0; i < ms.size(); ++i) {
            VT_EQ(bool(es[i]), ms[i].active, "state " << i); VT_EQ(std::string(es[i].what()), ms[i].text, "text " << i);
            VT_EQ(bool(bs[i]), ms[i].active, "state of the base " << i); VT_EQ(std::string(bs[i].what()), ms[i].text, "text of the base " << i);
            const std::exception& e = es[i]; VT_EQ(std::string(e.what()), ms[i].text, "text as an exception");
        } };
    auto add = [&] (const json::Error& e, const M& m) { es.push_back(e); bs.push_back(e); ms.push_back(m); };
    for (size_t k = 0; k < steps; ++k) {
        size_t at = ms.empty() ? 0 : g.below(ms.size());
        switch (ms.empty() ? g.draw(1) : g.draw(6)) {
        case 0: add(json::Error(), M{ false, "" }); VT_LOG("none "); break;
        case 1: { std::string s = genName(g); add(json::Error(s), M{ true, s }); VT_LOG("new " << s.size() << " "); break; }
        case 2: { json::Error copy = es[at]; M m = ms[at]; add(copy, m); VT_LOG("copy " << at << " "); break; }
        case 3: { size_t to = g.below(ms.size()); es[to] = es[at]; bs[to] = bs[at]; ms[to] = M(ms[at]); VT_LOG("assign " << at << "->" << to << " "); break; }
        case 4: { size_t to = g.below(ms.size()); json::Error tmp = es[at]; es[to] = std::move(tmp); Error base = bs[at]; bs[to] = std::move(base); ms[to] = M(ms[at]); VT_LOG("move " << at << "->" << to << " "); break; }
        case 5:
            try { if (json) throw es[at]; throw bs[at]; }
            catch (Error& e) { VT_EQ(bool(e), ms[at].active, "thrown"); VT_EQ(std::string(e.what()), ms[at].text, "thrown"); Error copy = e; bs[at] = copy; }
            VT_LOG("throw " << at << " "); break;
        default: es.erase(es.begin() + at); bs.erase(bs.begin() + at); ms.erase(ms.begin() + at); VT_LOG("drop " << at << " "); break;
        }
        check();
    }
    json::Error none; VT_CHECK(!none && std::string(none.what()).empty(), "a default one"); Error base; VT_CHECK(!base, "a default one");
}

// The errors of json readers name the token.
VT_PROP(tokens, 10000, 500000, "a token of more than 20 bytes")
{
    vt::Gen& g = c.g;
    std::string s; bool number = !g.draw(2);
    switch (int(!number)) {
    case 0: { do s += char('1' + g.draw(8)); while (g.more(30)); s += std::string(g.chance(1, 4) ? 1000 + g.draw(60) : 0, '9'); break; }
    default: s = genName(g); for (auto& ch : s) if (ch == '"' || ch == '\\' || (unsigned char)ch >= 0x80 || (unsigned char)ch < 0x20) ch = '_'; break;
    }
    c.nontrivial(s.size() > 20); c.label(number ? "number" : "string");
    std::string doc = number ? s : "\"" + s + "\"";
    VT_LOG(vt::quote(doc, 300) << " " << doc.size() << "\n");
    auto check = [&] (const json::Error& e) {
        VT_CHECK(bool(e), "no error");
        std::string w = e.what(); VT_CHECK(w.compare(0, 2, "1:") == 0, "place: " << vt::quote(w, 100));
        VT_CHECK(w.find(s) != std::string::npos, "the token is missing from " << vt::quote(w, 300)); VT_CHECK(w.size() < s.size() + 200, "too long: " << w.size()); };
    bool b = false; int64_t i = 3; std::vector<bool> unused;
    check(json::parse(doc, b)); VT_CHECK(!b, "untouched");
    if (!number) { check(json::parse(doc, i)); VT_EQ(i, int64_t(3), "untouched"); double d = 1; check(json::parse(doc, d)); std::vector<int64_t> v; check(json::parse(doc, v)); }
    else { std::string str; check(json::parse(doc + " ", str)); if (s.size() > 19) { check(json::parse(doc + " ", i)); VT_EQ(i, int64_t(3), "untouched"); } }
}

// Fixed: messages of 1024 bytes and more were read past the end of the buffer (81bfe25).
VT_EXAMPLE(long_messages)
{
    for (size_t n : { 900, 1000, 1010, 1015, 1020, 1023, 1024, 1025, 2000, 100000 }) {
        std::string s(n, 'x'); VT_EQ(errorFormat("<%s>", s), "<" + s + ">", "message of " << n);
    }
}
