// P28 - print() and signature() describe exactly what is reflected.
//
// The descriptions are read back by a strict reader of their layout and compared with the history of
// additions that built the type, scope or overload set - and, for the classes of the zoo and for
// everything in the registry, with what the query API says.
#include "zoo.h"
#include "abroad.h"
#include "types/pointer.h"
#include "types/primitives.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"

using namespace reflect;
using namespace zoo;

namespace {

typedef std::multiset<std::string> Bag;

struct FieldText { std::string offset, type, name; Bag traits; };
struct FnText { Bag traits; std::vector<std::string> signatures; };
struct TypeText { std::string id; std::unique_ptr<TypeText> parent; Bag traits; std::vector<FieldText> fields; std::map<std::string, FnText> fns; };
struct ScopeText { std::string name; Bag traits; std::map<std::string, FnText> fns; Bag types; std::vector<std::unique_ptr<ScopeText>> scopes; };

std::string show(const Bag& b) { std::string s; for (auto& x : b) s += x + " "; return s; }

/* ------------------------------------------------------------------ the reader */

struct Lines
{
    std::vector<std::string> v; size_t i = 0; std::string all;
    explicit Lines(const std::string& text) : all(text)
    {
        std::stringstream ss(text); std::string l;
        while (std::getline(ss, l)) if (l.find_first_not_of(' ') != std::string::npos) v.push_back(l);     // blank lines separate
    }
    bool end() const { return i >= v.size(); }
    [[noreturn]] void bad(const std::string& why) const { VT_FAIL(why << (end() ? std::string(" at the end") : " in line " + vt::quote(v[i])) << " of\n" << all); std::abort(); }
    // The line without its indentation, if it is indented by n.
    bool at(size_t n, std::string& out) const
    {
        if (end()) return false;
        size_t pad = v[i].find_first_not_of(' ');
        if (pad != n) return false;
        out = v[i].substr(pad); return true;
    }
    std::string take(size_t n, const std::string& what) { std::string l; if (!at(n, l)) bad("expected " + what + " indented by " + std::to_string(n)); ++i; return l; }
    void expect(size_t n, const std::string& l) { if (take(n, vt::quote(l)) != l) { --i; bad("expected " + vt::quote(l)); } }
};

// "[ a b c ]"
Bag readTraits(const Lines& in, const std::string& s)
{
    if (s.size() < 3 || s.compare(0, 2, "[ ") || s.back() != ']') in.bad("bad trait list " + vt::quote(s));
    Bag b; std::stringstream ss(s.substr(2, s.size() - 3)); std::string t;
    while (ss >> t) b.insert(t);
    return b;
}
FieldText readField(const Lines& in, const std::string& l)
{
    FieldText f; std::string rest = l;
    size_t colon = rest.find(": ");
    if (colon == std::string::npos) in.bad("bad field");
    f.offset = rest.substr(0, colon); rest = rest.substr(colon + 2);
    size_t br = rest.find(" [ ");
    if (br != std::string::npos) { f.traits = readTraits(in, rest.substr(br + 1)); if (f.traits.empty()) in.bad("an empty trait list"); rest = rest.substr(0, br); }
    size_t sp = rest.rfind(' ');
    if (sp == std::string::npos) in.bad("bad field");
    f.type = rest.substr(0, sp); f.name = rest.substr(sp + 1);
    return f;
}
FnText readOverloads(Lines& in, size_t pad)
{
    FnText f; std::string l;
    if (in.at(pad, l) && l.compare(0, 2, "[ ") == 0) { f.traits = readTraits(in, l); ++in.i; }
    while (in.at(pad, l)) { f.signatures.push_back(l); ++in.i; }
    return f;
}
void readFn(Lines& in, size_t pad, const std::string& l, std::map<std::string, FnText>& fns)
{
    if (l.back() != ':') in.bad("expected a function");
    std::string name = l.substr(0, l.size() - 1);
    if (fns.count(name)) in.bad("function listed twice");
    ++in.i;
    fns[name] = readOverloads(in, pad + 4);
}
std::unique_ptr<TypeText> readType(Lines& in, size_t pad)
{
    std::unique_ptr<TypeText> t(new TypeText); std::string l = in.take(pad, "a type");
    if (l.compare(0, 5, "type ")) { --in.i; in.bad("expected a type"); }
    t->id = l.substr(5);
    in.expect(pad, "{");
    // parent, traits, fields, functions: in that order
    if (in.at(pad + 4, l) && l.compare(0, 5, "type ") == 0) t->parent = readType(in, pad + 4);
    if (in.at(pad + 4, l) && l.compare(0, 2, "[ ") == 0) { t->traits = readTraits(in, l); ++in.i; }
    while (in.at(pad + 4, l) && l.compare(0, 2, "0x") == 0) { t->fields.push_back(readField(in, l)); ++in.i; }
    while (in.at(pad + 4, l)) readFn(in, pad + 4, l, t->fns);
    in.expect(pad, "}");
    return t;
}
std::unique_ptr<ScopeText> readScope(Lines& in, size_t pad)
{
    std::unique_ptr<ScopeText> s(new ScopeText); std::string l = in.take(pad, "a scope");
    if (l != "scope" && l.compare(0, 6, "scope ")) { --in.i; in.bad("expected a scope"); }
    s->name = l.size() > 6 ? l.substr(6) : "";
    in.expect(pad, "{");
    if (in.at(pad + 4, l) && l.compare(0, 2, "[ ") == 0) { s->traits = readTraits(in, l); ++in.i; }
    while (in.at(pad + 4, l) && l.back() == ':') readFn(in, pad + 4, l, s->fns);
    while (in.at(pad + 4, l) && l.compare(0, 5, "type ") == 0) { if (l.back() != ';') in.bad("expected a type"); s->types.insert(l.substr(5, l.size() - 6)); ++in.i; }
    while (in.at(pad + 4, l)) s->scopes.push_back(readScope(in, pad + 4));
    in.expect(pad, "}");
    return s;
}

/* ------------------------------------------------------------------ what is built */

// Functions and the text of their signatures, written out by hand.
struct Sample { const char* text; std::function<Function(const std::string&)> make; };
template<typename Fn> Sample sample(const char* text, Fn fn) { return { text, [fn] (const std::string& n) { return Function(n, fn); } }; }

const std::vector<Sample>& samples()
{
    static const std::vector<Sample> v = {
        sample("void()", [] () {}),
        sample("int()", [] () { return 1; }),
        sample("int(int)", [] (int x) { return x; }),
        sample("void(int, std::string)", [] (int, std::string) {}),
        sample("void(std::string const&)", [] (const std::string&) {}),
        sample("void(std::string&)", [] (std::string&) {}),
        sample("void(std::string&&)", [] (std::string&&) {}),
        sample("std::string(double, bool, long int)", [] (double, bool, long) { return std::string(); }),
        sample("zoo::Obj&(zoo::Obj&)", [] (Obj& o) -> Obj& { return o; }),
        sample("zoo::Obj const&(zoo::Obj const&)", [] (const Obj& o) -> const Obj& { return o; }),
        sample("zoo::Obj&&(zoo::Obj&)", [] (Obj& o) -> Obj&& { return std::move(o); }),
        sample("void(zoo::Obj*, zoo::Base*&)", [] (Obj*, Base*&) {}),
        sample("zoo::Leaf(zoo::Base const&, zoo::Derived&&)", [] (const Base&, Derived&&) { return Leaf(); }),
        sample("reflect::Value(reflect::Value, reflect::Value&)", [] (Value v, Value&) { return v; }),
        sample("std::shared_ptr<zoo::Base>(std::vector<int> const&)", [] (const std::vector<int>&) { return std::shared_ptr<Base>(); }),
        sample("void(std::map<std::string,int>&&, float)", [] (std::map<std::string, int>&&, float) {}),
        sample("void(char, unsigned char, short int, unsigned long int)", [] (char, unsigned char, short, unsigned long) {}),
    };
    return v;
}

struct Ty { const char* text; const Type* type; };
const std::vector<Ty>& fieldTypes()
{
    static const std::vector<Ty> v = { {"int", type<int>()}, {"std::string", type<std::string>()}, {"zoo::Obj", type<Obj>()}, {"zoo::Base*", type<Base*>()}, {"std::vector<int>", type<std::vector<int>>()},
        {"bool", type<bool>()}, {"zoo::Leaf", type<Leaf>()}, {"unsigned long int", type<unsigned long>()}, {"std::shared_ptr<zoo::Leaf>", type<std::shared_ptr<Leaf>>()} };
    return v;
}

std::string hex(size_t x) { char b[40]; std::snprintf(b, sizeof b, "0x%zx", x); return b; }

struct MField { size_t offset; std::string type; Bag traits; };
struct MFn { Bag traits; Bag signatures; };
struct MType { std::string id; int parent = -1; Bag traits; std::map<std::string, MField> fields; std::map<std::string, MFn> fns; std::unique_ptr<Type> t; };

void compareFns(const std::map<std::string, FnText>& got, const std::map<std::string, MFn>& want, const std::string& of)
{
    std::string a, b;
    for (auto& f : got) a += f.first + ";"; for (auto& f : want) b += f.first + ";";
    VT_EQ(a, b, "functions printed for " << of);
    for (auto& f : want) {
        const FnText& g = got.at(f.first);
        VT_EQ(show(Bag(g.signatures.begin(), g.signatures.end())), show(f.second.signatures), "overloads printed for " << of << " / " << f.first);
        VT_EQ(show(g.traits), show(f.second.traits), "traits printed for " << of << " / " << f.first);
    }
}
void compareType(const TypeText* got, const std::vector<MType>& w, int i)
{
    const MType& m = w[i];
    VT_EQ(got->id, m.id, "type printed");
    VT_EQ(bool(got->parent), m.parent >= 0, "parent printed for " << m.id);
    if (m.parent >= 0) compareType(got->parent.get(), w, m.parent);
    VT_EQ(show(got->traits), show(m.traits), "traits printed for " << m.id);
    VT_EQ(got->fields.size(), m.fields.size(), "fields printed for " << m.id);
    size_t last = 0;
    std::set<std::string> seen;
    for (auto& f : got->fields) {
        auto it = m.fields.find(f.name);
        VT_CHECK(it != m.fields.end() && seen.insert(f.name).second, "field printed: " << f.name);
        VT_EQ(f.offset, hex(it->second.offset), "offset printed for " << f.name); VT_EQ(f.type, it->second.type, "type printed for " << f.name); VT_EQ(show(f.traits), show(it->second.traits), "traits printed for " << f.name);
        VT_CHECK(it->second.offset >= last, "fields of " << m.id << " are printed in the order of their offset"); last = it->second.offset;
    }
    compareFns(got->fns, m.fns, m.id);
}

const std::vector<std::string> traitNames = { "json", "smartPtr", "a", "primitive", "x::y", "t<int>", "lots_of_text" };

template<typename Entity> void someTrait(vt::Gen& g, Entity& e, Bag& model)
{
    const std::string& t = g.pick(traitNames);
    if (model.count(t)) return;
    if (g.coin()) e.addTrait(t); else e.addTrait(t, int(g.draw(9)));
    model.insert(t);
    VT_LOG("+[" << t << "] ");
}

template<typename Entity> void someFunction(vt::Gen& g, Entity& e, std::map<std::string, MFn>& fns, const std::vector<std::string>& names)
{
    const std::string& n = g.pick(names);
    const Sample& s = g.pick(samples());
    bool ok = true;
    try { e.addFunction(n, s.make(n)); } catch (const Error&) { ok = false; }     // whether ambiguous overloads are accepted is P03's business
    if (ok) fns[n].signatures.insert(s.text);
    VT_LOG(n << ": " << s.text << (ok ? "; " : " refused; "));
    if (ok && g.chance(1, 3)) someTrait(g, e.function(n), fns[n].traits);
}

} // namespace

VT_PROP(types, 20000, 600000, "a type with a parent that has fields or functions, and at least four members of its own")
{
    vt::Abroad::Case locale(c);
    std::vector<MType> w(1 + c.g.draw(3));
    for (size_t i = 0; i < w.size(); ++i) {
        w[i].id = c.g.oneOf<const char*>({ "T", "ns::T", "tmpl<a, b::c>::T", "T<x<y> >" }) + std::to_string(i);
        w[i].t.reset(new Type(w[i].id));
        if (i && c.g.chance(3, 4)) { w[i].parent = int(c.g.below(i)); w[i].t->parent(w[w[i].parent].t.get()); VT_LOG(i << " child of " << w[i].parent << "; "); }
    }
    const std::vector<std::string> names = { "f", "get", "operator++", "operator()", "operator int()", w[0].id, "x::y", "type", "}" };
    do {
        MType& m = w[c.g.below(w.size())];
        VT_LOG("[" << m.id << "] ");
        switch (c.g.draw(4)) {
        case 0: case 1: {
            std::string n = (c.g.coin() ? "field" : c.g.word(3) + "_") + std::to_string(c.g.draw(12));
            auto& ft = c.g.pick(fieldTypes()); size_t off = c.g.chance(1, 8) ? size_t(c.g.range(1 << 16, 1LL << 40)) : c.g.draw(300);
            bool have = false; for (int p = int(&m - &w[0]); p >= 0; p = w[p].parent) have = have || w[p].fields.count(n);
            for (auto& o : w) if (!have && o.fields.count(n)) { have = true; }      // a field that hides one of a child, or is hidden: P08
            if (have) break;
            m.t->addField(n, Field(n, Argument(ft.type, RefType::Copy, c.g.chance(1, 5)), off));
            m.fields[n] = { off, ft.text, {} };
            VT_LOG("field " << n << " " << ft.text << " @" << off << "; ");
            if (c.g.chance(1, 3)) { someTrait(c.g, m.t->field(n), m.fields[n].traits); if (c.g.coin()) someTrait(c.g, m.t->field(n), m.fields[n].traits); }
            break; }
        case 2: someTrait(c.g, *m.t, m.traits); break;
        default: someFunction(c.g, *m.t, m.fns, names); break;
        }
    } while (c.g.more(14));

    bool rich = false;
    for (size_t i = 0; i < w.size(); ++i) {
        size_t indent = c.g.chance(1, 4) ? c.g.draw(3) * 4 : 0;
        std::string text = [&] { vt::Abroad abroad; return w[i].t->print(indent); } ();
        Lines in(text);
        auto t = readType(in, indent);
        VT_CHECK(in.end(), "text after the type: " << text);
        compareType(t.get(), w, int(i));
        VT_EQ(w[i].t->print(indent), text, "printed again");
        int p = w[i].parent;
        if (p >= 0 && w[p].fields.size() + w[p].fns.size() && w[i].fields.size() + w[i].fns.size() >= 4) rich = true;
        for (auto& f : w[i].fns) {       // and one set at a time
            const Overloads& o = w[i].t->function(f.first);
            Lines lo(o.print(indent)); FnText ft = readOverloads(lo, indent);
            VT_CHECK(lo.end(), "overloads printed: " << o.print(indent));
            VT_EQ(show(Bag(ft.signatures.begin(), ft.signatures.end())), show(f.second.signatures), "Overloads::print of " << f.first);
            VT_EQ(show(ft.traits), show(f.second.traits), "Overloads::print of " << f.first);
        }
    }
    c.nontrivial(rich);
}

/* ------------------------------------------------------------------ scopes */

namespace {

struct MScope { std::string name; Bag traits, types; std::map<std::string, MFn> fns; std::map<std::string, std::unique_ptr<MScope>> scopes; Scope* real = nullptr; };

void compareScope(const ScopeText* got, const MScope& m)
{
    VT_EQ(got->name, m.name, "scope printed");
    VT_EQ(show(got->traits), show(m.traits), "traits printed for scope " << m.name);
    VT_EQ(show(got->types), show(m.types), "types printed for scope " << m.name);
    compareFns(got->fns, m.fns, m.name);
    VT_EQ(got->scopes.size(), m.scopes.size(), "scopes printed for " << m.name);
    std::set<std::string> seen;
    for (auto& s : got->scopes) {
        auto it = m.scopes.find(s->name);
        VT_CHECK(it != m.scopes.end() && seen.insert(s->name).second, "scope printed: " << s->name);
        compareScope(s.get(), *it->second);
    }
}

} // namespace

VT_PROP(scopes, 15000, 500000, "nested scopes with members of several kinds in one of them")
{
    vt::Abroad::Case locale(c);
    MScope root; std::unique_ptr<Scope> own(new Scope()); root.real = own.get();
    const std::vector<std::string> names = { "s0", "s1", "tmpl<a::b>", "x<y<z::w>,q::r>" }, types = { "T0", "T1", "T2<c::d>" }, fns = { "f0", "operator()", "g<h::i>" };
    std::vector<MScope*> all = { &root };
    do {
        MScope& m = *all[c.g.below(all.size())];
        VT_LOG("[" << m.name << "] ");
        switch (c.g.draw(3)) {
        case 0: {
            if (all.size() > 8) break;
            const std::string& n = c.g.pick(names); auto& s = m.scopes[n];
            if (!s) { s.reset(new MScope); s->name = n; s->real = m.real->scope(n); all.push_back(s.get()); VT_LOG("scope " << n << "; "); }
            break; }
        case 1: { const std::string& n = c.g.pick(types); if (!m.types.count(n)) { m.real->addType(n); m.types.insert(n); VT_LOG("type " << n << "; "); } break; }
        case 2: someFunction(c.g, *m.real, m.fns, fns); break;
        default: someTrait(c.g, *m.real, m.traits); break;
        }
    } while (c.g.more(14));
    bool rich = false;
    for (auto* m : all) {
        size_t indent = c.g.chance(1, 4) ? c.g.draw(3) * 4 : 0;
        std::string text = [&] { vt::Abroad abroad; return m->real->print(int(indent)); } ();
        Lines in(text);
        auto s = readScope(in, indent);
        VT_CHECK(in.end(), "text after the scope: " << text);
        compareScope(s.get(), *m);
        VT_EQ(m->real->print(int(indent)), text, "printed again");
        if (!m->scopes.empty() && m->types.size() && m->fns.size()) rich = true;
    }
    c.nontrivial(rich);
}

/* ------------------------------------------------------------------ signatures, arguments, fields, traits */

VT_PROP(signatures, 60000, 2000000, "two or more arguments, with a reference or const among them")
{
    vt::Abroad::Case locale(c);
    const char* suffix[2][3] = { { "", "&", "&&" }, { " const", " const&", " const&&" } };
    const RefType refs[] = { RefType::Copy, RefType::LValue, RefType::RValue };
    bool special = false;
    auto arg = [&] (std::string& text) {
        auto& t = c.g.pick(fieldTypes()); int r = int(c.g.draw(2)); bool k = c.g.coin();
        if (r || k) special = true;
        text = std::string(t.text) + suffix[k][r];
        Argument a(t.type, refs[r], k);
        VT_EQ(a.print(), text, "Argument::print"); VT_EQ(printArgument(t.type, refs[r], k), text, "printArgument");
        return a;
    };
    std::string want, text; Argument ret = arg(want); std::vector<Argument> args;
    want += "(";
    while (c.g.more(2) && args.size() < 9) { args.push_back(arg(text)); want += (args.size() > 1 ? ", " : "") + text; }
    want += ")";
    VT_LOG(want);
    c.nontrivial(args.size() >= 2 && special);
    VT_EQ(signature(ret, args), want, "signature");
    auto& s = c.g.pick(samples());
    VT_EQ(signature(s.make("f")), std::string(s.text), "signature of a function");

    // and a field
    auto& ft = c.g.pick(fieldTypes()); std::string n = c.g.word(4) + "_"; size_t off = size_t(c.g.range(0, c.g.coin() ? 64 : 1LL << 34));
    Field f(n, Argument(ft.type, RefType::Copy, c.g.coin()), off); Bag traits;
    while (c.g.more(1)) someTrait(c.g, f, traits);
    Lines none(""); FieldText got = readField(none, [&] { vt::Abroad abroad; return f.print(); } ());
    VT_EQ(got.offset, hex(off), "offset in " << f.print()); VT_EQ(got.type, std::string(ft.text), f.print()); VT_EQ(got.name, n, f.print()); VT_EQ(show(got.traits), show(traits), f.print());
}

/* ------------------------------------------------------------------ what the DSL declared */

namespace {

// The description against the queries: the type's own members are those its parent does not account for.
void describe(const TypeText* got, const Type* t)
{
    VT_EQ(got->id, t->id(), "type printed");
    VT_EQ(bool(got->parent), t->parent() != nullptr, "parent printed for " << t->id());
    auto bag = [] (const std::vector<std::string>& v) { return Bag(v.begin(), v.end()); };
    VT_EQ(show(got->traits), show(bag(t->traits())), "traits printed for " << t->id());
    std::set<std::string> fields, fns;
    for (auto& f : got->fields) {
        VT_CHECK(t->hasField(f.name), "field " << f.name << " printed for " << t->id());
        const Field& x = t->field(f.name);
        VT_EQ(f.offset, hex(x.offset()), f.name); VT_EQ(f.type, x.type()->id(), f.name); VT_EQ(show(f.traits), show(bag(x.traits())), f.name);
        VT_CHECK(fields.insert(f.name).second, f.name << " printed twice");
    }
    for (auto& f : got->fns) {
        VT_CHECK(t->hasFunction(f.first), "function " << f.first << " printed for " << t->id());
        const Overloads& o = t->function(f.first); Bag want;
        for (size_t i = 0; i < o.size(); ++i) {
            std::string s = o[i].returnType().print() + "(";
            for (size_t k = 0; k < o[i].arguments(); ++k) s += (k ? ", " : "") + o[i].argument(k).print();
            want.insert(s + ")");
        }
        VT_EQ(show(Bag(f.second.signatures.begin(), f.second.signatures.end())), show(want), "overloads printed for " << t->id() << " / " << f.first);
        VT_EQ(show(f.second.traits), show(bag(o.traits())), t->id() << " / " << f.first);
        fns.insert(f.first);
    }
    auto inherited = [&] (bool field, const std::string& n) { return t->parent() && (field ? t->parent()->hasField(n) && &t->field(n) == &t->parent()->field(n) : t->parent()->hasFunction(n) && &t->function(n) == &t->parent()->function(n)); };
    for (auto& f : t->fields()) VT_EQ(fields.count(f) == 1, !inherited(true, f), "field " << f << " is printed where it is declared: " << t->id());
    for (auto& f : t->functions()) VT_EQ(fns.count(f) == 1, !inherited(false, f), "function " << f << " is printed where it is declared: " << t->id());
    if (t->parent()) describe(got->parent.get(), t->parent());
}

} // namespace

VT_PROP(registered, 600, 6000, "a type that has a parent or at least six functions")
{
    static const std::vector<const Type*> all = [] {
        std::vector<const Type*> v = { type<int>(), type<double>(), type<bool>(), type<char>(), type<void>(), type<std::string>(), type<Obj>(), type<Base>(), type<Derived>(), type<Leaf>(), type<Other>(), type<Conv>(), type<MoveOnly>(),
            type<CopyOnly>(), type<Pinned>(), type<Obj*>(), type<Base**>(), type<std::shared_ptr<Leaf>>(), type<std::unique_ptr<Base>>(), type<std::vector<Obj>>(), type<std::map<std::string, Leaf>>(), type<std::vector<std::vector<int>>>() };
        for (auto& n : reflect::scope()->types(true)) try { v.push_back(reflect::scope()->type(n)); } catch (const Error&) {}
        return v;
    }();
    const Type* t = c.g.pick(all);
    VT_LOG(t->id());
    size_t indent = c.g.draw(2) * 4; Lines in(t->print(indent));
    auto got = readType(in, indent);
    VT_CHECK(in.end(), "text after the type");
    describe(got.get(), t);
    c.nontrivial(t->parent() || t->functions().size() >= 6);

    if (c.g.chance(1, 20)) {       // the global scope: its types are those the queries list
        const Scope* s = reflect::scope(); Lines ls(s->print()); auto st = readScope(ls, 0);
        VT_CHECK(ls.end(), "text after the scope");
        auto types = s->types(); VT_EQ(show(st->types), show(Bag(types.begin(), types.end())), "types of the global scope");
        VT_EQ(st->scopes.size(), s->scopes().size(), "scopes of the global scope");
        for (auto& sub : st->scopes) { VT_CHECK(s->hasScope(sub->name), sub->name); auto ty = s->scope(sub->name)->types(); VT_EQ(show(sub->types), show(Bag(ty.begin(), ty.end())), "types of " << sub->name); }
    }
}
