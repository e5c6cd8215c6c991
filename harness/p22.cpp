// P22: json traits map fields to keys, for printing and parsing alike.
#include "json_run.h"
#include "json_strict.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"

#include <deque>
#include <new>

using namespace jz;
using reflect::Type; using reflect::Value; using reflect::Field; using reflect::Argument; using reflect::RefType;
using reflect::json::Writer; using reflect::json::Reader; using reflect::json::Traits;
namespace json = reflect::json;

namespace p22 {

// Members that types made while testing lay their fields over.
struct Region
{
    int64_t i[3]; double d[2]; bool b[2]; std::string s[3]; std::vector<int64_t> v[2]; std::map<std::string, std::string> m; std::shared_ptr<int64_t> sp[2]; std::unique_ptr<std::string> up; int64_t* rp;
    Scalars sc; Derived der; Custom cu[2]; Traited tr; std::shared_ptr<Scalars> spc; std::vector<std::shared_ptr<Custom>> vc;
    Region() : i{ 0, 1, -2 }, d{ 0, 2.5 }, b{ false, true }, rp(nullptr) {}
    Region(const Region&) = delete; Region& operator=(const Region&) = delete;
};
struct Blob { Region r[3]; };

Type*& blobType() { static Type* t; return t; }

} // namespace p22

reflectType(p22::Blob) { p22::blobType() = type_; }

using namespace p22;

namespace {

template<typename Fn> bool raises(const Fn& fn) { try { fn(); } catch (const reflect::Error&) { return true; } return false; }

struct Slot
{
    size_t offset; const Shape* shape; std::function<JV(const Region&)> dump; std::function<void(Region&, const JV&)> fill; const Type* type;
};

template<typename T, typename Get> Slot slot(const Get& get)
{
    static Region probe;
    return Slot{ size_t((char*)&get(probe) - (char*)&probe), &shape<T>(), [get] (const Region& r) { return Jz<T>::dump(get(const_cast<Region&>(r))); },
            [get] (Region& r, const JV& v) { Jz<T>::fill(get(r), v); }, reflect::type<T>() };
}

#define SLOT(expr) slot<typename std::remove_reference<decltype(std::declval<Region>().expr)>::type>([] (Region& r) -> decltype((r.expr)) { return r.expr; })

const std::vector<Slot>& slots()
{
    static const std::vector<Slot> all = {
        SLOT(i[0]), SLOT(i[1]), SLOT(i[2]), SLOT(d[0]), SLOT(d[1]), SLOT(b[0]), SLOT(b[1]), SLOT(s[0]), SLOT(s[1]), SLOT(s[2]), SLOT(v[0]), SLOT(v[1]), SLOT(m),
        SLOT(sp[0]), SLOT(sp[1]), SLOT(up), SLOT(rp), SLOT(sc), SLOT(der), SLOT(cu[0]), SLOT(cu[1]), SLOT(tr), SLOT(spc), SLOT(vc) };
    return all;
}

// A type made for one case, over one region.
struct Made
{
    Type* t; int region; const Made* parent; std::string text;
    struct F { std::string name, key; bool skip, skipEmpty; int slot; const Made* made; };
    std::vector<F> fields;           // its own
    bool clash;                      // two fields claim one key, here or in a field's type
    Shape shape;
    std::vector<F> visible() const   // with what is inherited and not shadowed
    {
        std::vector<F> r = fields;
        if (parent) for (auto& f : parent->visible()) { bool shadowed = false; for (auto& x : fields) shadowed = shadowed || x.name == f.name; if (!shadowed) r.push_back(f); }
        return r;
    }
    JV dump(const Blob& b) const
    {
        JV r = JV::object();
        for (auto& f : visible()) r.o.emplace_back(f.name, f.made ? f.made->dump(b) : slots()[f.slot].dump(b.r[region]));
        return r;
    }
    void fill(Blob& b, const JV& v) const
    { for (auto& f : visible()) if (f.made) f.made->fill(b, *v.at(f.name)); else slots()[f.slot].fill(b.r[region], *v.at(f.name)); }
    void close(const Blob& b)
    {
        shape.k = Shape::Obj; shape.ready = true;
        std::set<std::string> keys; clash = false;
        for (auto& f : visible()) {
            const Shape* s = f.made ? &f.made->shape : slots()[f.slot].shape;
            JV init = f.made ? f.made->dump(b) : slots()[f.slot].dump(b.r[region]);
            shape.fields.push_back(ShapeField{ f.name, f.key, f.skip, f.skipEmpty, s, init });
            if (f.skip) continue;
            if (!keys.insert(f.key).second) clash = true;
            if (f.made && f.made->clash) clash = true;
        }
        shape.initial = dump(b);
    }
};

Traits clean(Traits t) { t.skipEmpty = false; return t; }      // see known_findings: alias_skipempty_uninit

struct Term { bool skip, skipEmpty; std::string alias, parser, printer; };
bool same(const Traits& t, const Term& m) { return t.skip == m.skip && t.skipEmpty == m.skipEmpty && t.alias == m.alias && t.parser == m.parser && t.printer == m.printer; }
Term combine(const Term& a, const Term& b) { return Term{ a.skip || b.skip, a.skipEmpty || b.skipEmpty, a.alias.empty() ? b.alias : a.alias, a.parser.empty() ? b.parser : a.parser, a.printer.empty() ? b.printer : a.printer }; }

// An expression over the traits, grouped in any way, and what it has to mean.
std::pair<Traits, Term> genTraits(vt::Gen& g, int n, const std::function<std::string()>& alias, bool customs, std::string& text)
{
    if (n > 1) {
        int left = 1 + int(g.below(n - 1));
        text += "(";
        auto a = genTraits(g, left, alias, customs, text); text += "|";
        auto b = genTraits(g, n - left, alias, customs, text); text += ")";
        return { a.first | b.first, combine(a.second, b.second) };
    }
    switch (g.draw(customs ? 4 : 3)) {
    case 0: { std::string a = alias(); text += "alias " + vt::quote(a, 20); return { clean(json::alias(a)), Term{ false, false, a, "", "" } }; }
    case 1: text += "skipEmpty"; return { json::skipEmpty(), Term{ false, true, "", "", "" } };
    case 2: if (g.chance(1, 2)) { text += "skip"; return { clean(json::skip()), Term{ true, false, "", "", "" } }; } else { text += "skipEmpty"; return { json::skipEmpty(), Term{ false, true, "", "", "" } }; }
    case 3: text += "none"; return { clean(Traits()), Term{ false, false, "", "", "" } };
    default: { std::string p = g.word(2), w = g.word(2); text += "custom"; return { clean(json::custom(p, w)), Term{ false, false, "", p, w } }; }
    }
}

struct World
{
    Blob blob; std::vector<std::unique_ptr<Made>> types; Value root; std::string entry;
    std::vector<int64_t*> raws;
    ~World() { for (auto& r : blob.r) delete r.rp; for (auto p : raws) delete p; }
};

void make(vt::Case& c, World& w)
{
    static unsigned long serial = 0;
    vt::Gen& g = c.g;
    Value whole(w.blob);         // loads the type
    std::string tag = std::to_string(serial++);
    std::vector<std::string> pool = { "a", "b", "c", "key", "an alias", "\xc3\xa9", "q\"uote\n", "a\\b" };
    size_t n = 1 + g.draw(3);
    for (size_t k = 0; k < n; ++k) {
        std::unique_ptr<Made> m(new Made);
        m->t = new Type("p22t" + tag + "_" + std::to_string(k)); m->parent = nullptr; m->clash = false;
        bool last = k + 1 == n;
        // a parent is over the same region, a field's type over another one
        m->region = last ? 0 : int(g.draw(2));
        std::vector<Made*> parents, members;
        for (auto& x : w.types) { if (x->region == m->region) parents.push_back(x.get()); else if (x->region > m->region) members.push_back(x.get()); }
        if (!parents.empty() && g.chance(2, 3)) { m->parent = parents[g.below(parents.size())]; m->t->parent(m->parent->t); }
        VT_LOG((k ? "; " : "") << "T" << k); if (m->parent) { VT_LOG(":T" << m->parent->t->id().back()); } VT_LOG("@" << m->region << " {");
        std::vector<int> free;        // a slot has one visible name only
        for (size_t s = 0; s < slots().size(); ++s) { bool used = false; for (const Made* p = m->parent; p; p = p->parent) for (auto& f : p->fields) used = used || (!f.made && f.slot == int(s)); if (!used) free.push_back(int(s)); }
        // regions of types used as fields are used once
        std::set<int> taken; std::function<void(const Made*)> take = [&] (const Made* x) { for (; x; x = x->parent) { taken.insert(x->region); for (auto& f : x->fields) if (f.made) take(f.made); } };
        take(m->parent);
        for (size_t fields = (last ? 1 : 0) + g.draw(7); fields > 0; --fields) {
            Made::F f; f.made = nullptr; f.slot = -1; f.skip = f.skipEmpty = false;
            f.name = g.chance(1, 3) ? g.pick(pool) : g.word(2);
            bool dup = false; for (auto& x : m->fields) dup = dup || x.name == f.name;
            if (dup) continue;
            std::vector<Made*> can; for (auto x : members) { std::set<int> before = taken; taken.clear(); take(x); bool ok = true; for (int r : taken) ok = ok && !before.count(r) && r != m->region; taken = before; if (ok) can.push_back(x); }
            if (!can.empty() && g.chance(1, 3)) { f.made = can[g.below(can.size())]; take(f.made); }
            else if (!free.empty()) { size_t at = g.below(free.size()); f.slot = free[at]; free.erase(free.begin() + at); }
            else continue;
            f.key = f.name;
            const Type* ft = f.made ? f.made->t : slots()[f.slot].type;
            size_t offset = f.made ? size_t(f.made->region - m->region) * sizeof(Region) : slots()[f.slot].offset;
            m->t->addField(f.name, Field(f.name, Argument(ft, RefType::Copy, false), offset));
            VT_LOG(" " << vt::quote(f.name, 20) << " " << ft->id());
            if (g.chance(3, 4)) {
                // mostly aliases of its own; sometimes the name or the alias of another one
                auto alias = [&] () -> std::string {
                    if (g.chance(1, 8)) return g.pick(pool);
                    if (g.chance(1, 10)) { auto vis = m->visible(); if (!vis.empty()) { auto& x = vis[g.below(vis.size())]; return g.coin() ? x.name : x.key; } }
                    return g.chance(1, 4) ? g.utf8String(2) + "k" : g.word(2); };
                std::string text; auto e = genTraits(g, 1 + int(g.draw(2)), alias, false, text);
                VT_LOG(" " << text);
                m->t->field(f.name).addTrait("json", std::move(e.first));
                f.skip = e.second.skip; f.skipEmpty = e.second.skipEmpty; if (!e.second.alias.empty()) f.key = e.second.alias;
            }
            if (g.chance(1, 10)) m->t->field(f.name).addTrait("other");
            m->fields.push_back(f);
        }
        VT_LOG(" }");
        m->close(w.blob);
        if (m->clash) VT_LOG(" clash");
        w.types.push_back(std::move(m));
    }
    w.entry = "e" + tag;
    blobType()->addField(w.entry, Field(w.entry, Argument(w.types.back()->t, RefType::Copy, false), 0));
    w.root = Value(w.blob).field(w.entry);
    VT_LOG("\n");
}

bool printRaises(World& w, unsigned opt, std::string* text = nullptr)
{
    std::ostringstream ss; Writer writer(ss, Writer::Options(opt));
    bool r = raises([&] { json::print(writer, w.root); });
    if (!r) VT_CHECK(!writer.error(), "print: " << writer.error().what());
    if (text) *text = ss.str();
    return r;
}
bool parseRaises(World& w, const std::string& text, std::string* error = nullptr)
{
    std::istringstream ss(text); Reader reader(ss);
    bool r = raises([&] { json::parse(reader, w.root); });
    if (error) *error = reader.error() ? reader.error().what() : "";
    return r;
}

JV denoted(const std::string& text)
{
    jr::Strict s(text, true); JV doc;
    bool ok = s.document(doc);
    VT_CHECK(ok, "not well-formed: " << s.why << ": " << vt::quote(text, 600));
    return doc;
}

std::set<std::string> keysOf(const JV& doc) { std::set<std::string> r; for (auto& x : doc.o) r.insert(x.first); return r; }

} // namespace

VT_PROP(made_types, 8000, 300000, "at least two fields with traits, one of them inherited, skipped or aliased, or a clash")
{
    vt::Gen& g = c.g;
    slots();
    long alive = Alive::n();
    {
        World w; make(c, w);
        const Made& m = *w.types.back();
        auto vis = m.visible();
        size_t traited = 0; bool special = false;
        for (auto& f : vis) { if (f.skip || f.skipEmpty || f.key != f.name) ++traited; if (f.skip || f.key != f.name) special = true; }
        c.nontrivial(m.clash || (traited >= 2 && special));
        if (m.clash) {
            c.label("clash");
            bool printFirst = g.coin();
            for (int i = 0; i < 4; ++i) {
                if ((i & 1) == printFirst) VT_CHECK(printRaises(w, unsigned(g.draw(15))), "printing with a duplicate key, attempt " << i / 2);
                else { std::string e; VT_CHECK(parseRaises(w, "{}", &e), "parsing with a duplicate key, attempt " << i / 2 << ", reader: " << e); }
            }
            // the types without a clash aren't affected
            for (auto& x : w.types) {
                if (x->clash || x->region != 0) continue;
                std::string entry = w.entry + x->t->id();
                blobType()->addField(entry, Field(entry, Argument(x->t, RefType::Copy, false), 0));
                w.root = Value(w.blob).field(entry);
                std::string text; VT_CHECK(!printRaises(w, 0, &text), "print of another type");
                auto d = jr::denotes(denoted(text), jr::denote(x->shape, x->dump(w.blob), false));
                VT_CHECK(d.empty(), "another type: " << d);
                c.label("another type");
            }
            return;
        }
        JV state = genState(g, m.shape, 3, true);
        m.fill(w.blob, state);
        auto d = jr::diff(m.dump(w.blob), state); VT_CHECK(d.empty(), "the harness does not fill: " << d);
        bool parsed = false;
        for (int step = 0; step < 4; ++step) {
            if (g.coin()) {
                unsigned opt = unsigned(g.draw(15)); std::string text;
                VT_CHECK(!printRaises(w, opt, &text), "print");
                VT_LOG(optText(opt) << " " << vt::quote(text, 800) << "\n");
                bool compact = opt & Writer::Compact;
                JV doc = denoted(text), want = jr::denote(m.shape, state, compact);
                std::set<std::string> keys, got = keysOf(doc);
                for (auto& f : m.shape.fields) if (!f.skip && !((compact || f.skipEmpty) && jr::isEmpty(*f.shape, *state.at(f.name)))) keys.insert(f.key);
                for (auto& k : keys) VT_CHECK(got.count(k), "key " << vt::quote(k, 40) << " is missing");
                for (auto& k : got) VT_CHECK(keys.count(k), "key " << vt::quote(k, 40) << " is printed");
                VT_EQ(doc.o.size(), keys.size(), "number of keys");
                auto dd = jr::denotes(doc, want); VT_CHECK(dd.empty(), "printed: " << dd);
                if (keys.size() < vis.size()) c.label(compact ? "left out, compact" : "left out");
            }
            else {
                // arrays append to what is there: start from empty ones
                JV doc = genDoc(g, m.shape, 3, jr::DocStyle{ true, true, true, g.coin() });
                std::string text = jr::render(g, doc, true, false, true);
                VT_LOG("parse " << vt::quote(text, 800) << "\n");
                for (auto& r : w.blob.r) if (r.rp) { w.raws.push_back(r.rp); }
                auto before = w.raws;
                std::string e; bool raised = parseRaises(w, text, &e);
                // pointers are overwritten by null only, so one that is still in place isn't collected
                w.raws.clear(); for (auto p : before) { bool live = false; for (auto& r : w.blob.r) live = live || r.rp == p; if (!live && std::find(w.raws.begin(), w.raws.end(), p) == w.raws.end()) w.raws.push_back(p); }
                VT_CHECK(!raised && e.empty(), "parse: " << e);
                jr::apply(m.shape, state, doc);
                auto dd = jr::diff(m.dump(w.blob), state, false); VT_CHECK(dd.empty(), "parsed: " << dd);
                parsed = true;
            }
        }
        c.label(m.parent ? "with a parent" : "without a parent");
        if (parsed) c.label("parsed");
    }
    VT_EQ(Alive::n(), alive, "objects left");
}

// The reflected classes, through all entry points.
VT_PROP(classes, 8000, 300000, "a document with at least 3 keys, some left out")
{
    vt::Gen& g = c.g;
    const Target* t = nullptr;
    const char* name = g.oneOf<const char*>({ "Traited", "Traited", "Leaf", "Derived", "Customs", "Uniq" });
    for (auto& x : targets()) if (x.name == std::string(name)) t = &x;
    VT_CHECK(t, "no target " << name);
    long alive = Alive::n();
    {
        Object o(*t);
        JV state = genState(g, *t->shape, 3, true);
        o.fill(state);
        JV doc = genDoc(g, *t->shape, 3, jr::DocStyle{ true, true, true, true });
        if (g.chance(1, 3)) for (auto& f : t->shape->fields) {      // names that an alias replaces, and skipped ones, are unknown
            if (!t->shape->byKey(f.name)) doc.o.emplace_back(f.name, jr::genAny(g, 2));
        }
        std::string text = jr::render(g, doc, true, false, true);
        VT_LOG(t->name << " " << jr::show(state) << "\n" << vt::quote(text, 900) << "\n");
        c.nontrivial(doc.o.size() >= 3 && keysOf(doc).size() < t->shape->fields.size()); c.label(t->name);
        Outcome q = parse(o, text, jr::Opts{ false, true, true }, int(g.draw(2)));
        VT_CHECK(!q.raised && !q.failed, "parse: " << q.error);
        jr::apply(*t->shape, state, doc);
        auto d = jr::diff(o.dump(), state); VT_CHECK(d.empty(), "parsed: " << d);
        unsigned w = unsigned(g.draw(15)); int how = int(g.draw(3));
        if (how == 1 || how == 2) w = Writer::Default;
        Outcome p = print(o, w, how);
        VT_CHECK(!p.raised && !p.failed, "print: " << p.error);
        VT_LOG(optText(w) << how << " " << vt::quote(p.text, 900) << "\n");
        d = jr::denotes(denoted(p.text), jr::denote(*t->shape, state, w & Writer::Compact));
        VT_CHECK(d.empty(), "printed: " << d);
    }
    VT_EQ(Alive::n(), alive, "objects left");
}

VT_PROP(algebra, 20000, 1000000, "at least two operands")
{
    vt::Gen& g = c.g;
    int n = 1 + int(g.draw(5)); std::string text;
    auto e = genTraits(g, n, [&] { return g.chance(1, 4) ? std::string() : g.utf8String(3); }, true, text);
    VT_LOG(text << "\n");
    c.nontrivial(n > 1);
    VT_CHECK(same(e.first, e.second), "skip " << e.first.skip << " skipEmpty " << e.first.skipEmpty << " alias " << vt::quote(e.first.alias, 40) << " parser " << e.first.parser << " printer " << e.first.printer);
    Traits copy = e.first; Traits other = clean(json::alias("zz")) ;
    Traits r = copy | other;
    VT_CHECK(same(copy, e.second) && other.alias == "zz", "operands are left alone");
    VT_EQ(r.alias, (e.second.alias.empty() ? "zz" : e.second.alias), "alias");
    VT_CHECK(json::skip().skip && json::skip().alias.empty() && json::skip().parser.empty() && json::skip().printer.empty(), "skip()");
    VT_CHECK(json::skipEmpty().skipEmpty && !json::skipEmpty().skip && json::skipEmpty().alias.empty(), "skipEmpty()");
}

// Custom functions, one or both, that count their calls.
VT_PROP(customs, 6000, 200000, "a custom parser or printer is called")
{
    vt::Gen& g = c.g;
    static unsigned long serial = 0;
    World w; Value whole(w.blob);
    std::string tag = std::to_string(serial++);
    bool parser = g.chance(2, 3), printer = g.chance(2, 3);
    std::string in = g.word(3) + "P", out = g.word(3) + "Q";
    Type* t = new Type("p22c" + tag);
    struct Calls { size_t parsed, printed; const void* at; };
    static Calls calls; calls = Calls{ 0, 0, nullptr };
    const Slot& slot = slots()[0];      // i[0]
    t->addField("x", Field("x", Argument(slot.type, RefType::Copy, false), slot.offset));
    auto parseFn = [] (Value v, Reader& r) { ++calls.parsed; calls.at = v.value(); int64_t x = json::parseInt(r); if (!r.error()) v.field("x").assign(x + 1); };
    auto printFn = [] (Value v, Writer& wr) { ++calls.printed; calls.at = v.value(); json::printInt(wr, v.field("x").get<int64_t>() * 2); };
    bool early = g.coin();
    Traits traits = clean(json::custom(parser ? in : "", printer ? out : ""));
    if (g.chance(1, 3)) traits = parser || !printer ? (clean(json::custom(parser ? in : "", "")) | clean(json::custom("other", printer ? out : ""))) : traits;
    if (!parser) traits.parser.clear();
    if (early) t->addTrait("json", traits);
    if (parser) t->addFunction(in, parseFn);
    if (printer) t->addFunction(out, printFn);
    if (!early) t->addTrait("json", std::move(traits));
    // it is the field of another type, between two plain ones
    Type* outer = new Type("p22o" + tag);
    outer->addField("a", Field("a", Argument(slots()[7].type, RefType::Copy, false), slots()[7].offset));
    outer->addField("c", Field("c", Argument(t, RefType::Copy, false), sizeof(Region)));
    outer->addField("z", Field("z", Argument(slots()[1].type, RefType::Copy, false), slots()[1].offset));
    bool alias = g.coin(), empty = g.coin();
    if (alias || empty) outer->field("c").addTrait("json", alias ? (empty ? json::skipEmpty() | clean(json::alias("cc")) : clean(json::alias("cc"))) : json::skipEmpty());
    std::string key = alias ? "cc" : "c";
    std::string entry = "c" + tag;
    blobType()->addField(entry, Field(entry, Argument(outer, RefType::Copy, false), 0));
    w.root = Value(w.blob).field(entry);
    int64_t x = g.range(-1000000, 1000000), y = g.range(-1000000, 1000000);
    w.blob.r[1].i[0] = x;
    VT_LOG((parser ? "parser " + in : "") << (printer ? " printer " + out : "") << " " << x << " " << y << (alias ? " alias" : "") << (empty ? " skipEmpty" : "") << "\n");
    c.nontrivial(parser || printer); c.label(std::string(parser ? "parser" : "") + (printer ? " printer" : ""));

    for (int round = 0; round < 2; ++round) {
        calls = Calls{ 0, 0, nullptr };
        std::string text; VT_CHECK(!printRaises(w, 0, &text), "print");
        int64_t now = w.blob.r[1].i[0];
        VT_EQ(text, "{\"a\":\"\",\"" + key + "\":" + (printer ? std::to_string(now * 2) : "{\"x\":" + std::to_string(now) + "}") + ",\"z\":1}", "printed");
        VT_EQ(calls.printed, size_t(printer), "calls of the printer"); VT_EQ(calls.parsed, size_t(0), "calls of the parser");
        if (printer) VT_EQ(calls.at, (const void*)&w.blob.r[1], "the object that was printed");

        calls = Calls{ 0, 0, nullptr };
        std::string item = parser ? std::to_string(y) : "{\"x\":" + std::to_string(y) + "}", e;
        bool twice = g.coin();
        std::string doc = "{\"z\":1,\"" + key + "\":" + (twice ? (parser ? std::string("77") : std::string("{}")) + ",\"" + key + "\":" : "") + item + ",\"nope\":" + item + (alias ? ",\"c\":[]" : "") + "}";
        VT_CHECK(!parseRaises(w, doc, &e) && e.empty(), "parse " << doc << ": " << e);
        VT_EQ(w.blob.r[1].i[0], parser ? y + 1 : y, "parsed"); VT_EQ(w.blob.r[0].i[0], int64_t(0), "next to it");
        VT_EQ(calls.parsed, size_t(parser) * (1 + twice), "calls of the parser"); VT_EQ(calls.printed, size_t(0), "calls of the printer");
        if (parser) VT_EQ(calls.at, (const void*)&w.blob.r[1], "the object that was parsed");
        y += 5;
    }
}

// Fields that hold Values, or objects that hold Values.
namespace {
struct Holder { int64_t a = 1; Value plain, sparse, other; int64_t z = 2; };
struct Dyn { Value v; std::string text; bool empty; };          // its compact text, or the whole one
Dyn genDyn(vt::Gen& g, bool compact, std::deque<Holder>& owners, std::deque<std::vector<Value>>& lists, std::deque<std::map<std::string, Value>>& maps, int depth);
std::string holderText(const Dyn* d, bool compact)
{
    // in the order of their keys
    std::string r = "{\"a\":1";
    auto put = [&] (const char* key, const Dyn& x, bool skip) { if (!(skip && x.empty)) r += std::string(",\"") + key + "\":" + x.text; };
    put("other", d[2], compact); put("plain", d[0], compact); put("sparse", d[1], true);
    return r + ",\"z\":2}";
}
Dyn genHolder(vt::Gen& g, bool compact, std::deque<Holder>& owners, std::deque<std::vector<Value>>& lists, std::deque<std::map<std::string, Value>>& maps, int depth, Holder*& h)
{
    Dyn d[3] = { genDyn(g, compact, owners, lists, maps, depth), genDyn(g, compact, owners, lists, maps, depth), genDyn(g, compact, owners, lists, maps, depth) };
    owners.emplace_back(); h = &owners.back();
    h->plain = d[0].v; h->sparse = d[1].v; h->other = d[2].v;
    return Dyn{ Value(*h), holderText(d, compact), false };
}
Dyn genDyn(vt::Gen& g, bool compact, std::deque<Holder>& owners, std::deque<std::vector<Value>>& lists, std::deque<std::map<std::string, Value>>& maps, int depth)
{
    switch (g.draw(depth > 0 ? 9 : 4)) {
    case 0: return Dyn{ Value(), "null", true };
    case 1: { int64_t x = g.coin() ? 0 : g.range(-9, 9); return Dyn{ Value(int64_t(x)), std::to_string(x), x == 0 }; }
    case 2: { std::string x = g.coin() ? "" : g.word(2); std::string t = "\"" + x + "\""; bool e = x.empty(); return Dyn{ Value(std::move(x)), t, e }; }
    case 3: { bool b = g.coin(); return Dyn{ Value(bool(b)), b ? "true" : "false", false }; }
    case 4: { std::vector<int64_t> x; std::string t; while (g.more(2)) { x.push_back(g.range(-9, 9)); t += (t.empty() ? "" : ",") + std::to_string(x.back()); } bool e = x.empty(); return Dyn{ Value(std::move(x)), "[" + t + "]", e }; }
    case 5: {       // a list of Values: its elements are all printed
        std::vector<Value> x; std::string t; bool first = true;
        while (g.more(2)) { Dyn d = genDyn(g, compact, owners, lists, maps, depth - 1); x.push_back(d.v); t += (first ? "" : ",") + d.text; first = false; }
        lists.push_back(x); return Dyn{ Value(lists.back()), "[" + t + "]", x.empty() }; }
    case 6: {
        std::map<std::string, Value> x; std::map<std::string, std::string> ts; std::string t;
        while (g.more(2)) { std::string k = g.word(2); Dyn d = genDyn(g, compact, owners, lists, maps, depth - 1); x[k] = d.v; ts[k] = d.text; }
        for (auto& kv : ts) t += (t.empty() ? "\"" : ",\"") + kv.first + "\":" + kv.second;
        maps.push_back(x); return Dyn{ Value(maps.back()), "{" + t + "}", x.empty() }; }
    case 7: { Holder* h; return genHolder(g, compact, owners, lists, maps, depth - 1, h); }
    case 8: {       // a Value that refers to a Value, once or more than once
        Dyn d = genDyn(g, compact, owners, lists, maps, depth - 1);
        for (int n = 1 + int(g.draw(2)); n > 0; --n) {
            owners.emplace_back(); owners.back().plain = d.v; d.v = Value(owners.back()).field("plain");
        }
        return d; }
    default: {      // an element of a list
        Dyn d = genDyn(g, compact, owners, lists, maps, depth - 1);
        lists.push_back({ d.v }); Value l(lists.back()); d.v = l[size_t(0)];
        return d; }
    }
}
}
reflectType(Holder) { reflectPlumbing(); reflectField(a); reflectField(plain); reflectField(sparse); reflectField(other); reflectField(z); reflectFieldValue(sparse, json, json::skipEmpty()); }

VT_PROP(values, 20000, 500000, "something is left out")
{
    vt::Gen& g = c.g;
    std::deque<Holder> owners; std::deque<std::vector<Value>> lists; std::deque<std::map<std::string, Value>> maps;
    bool compact = g.coin(); Holder* h;
    Dyn d = genHolder(g, compact, owners, lists, maps, 3, h);
    VT_LOG((compact ? "compact " : "") << d.text << "\n");
    c.nontrivial(std::count(d.text.begin(), d.text.end(), ':') < 5);
    std::ostringstream ss; Writer writer(ss, Writer::Options(compact ? Writer::Compact : Writer::Default));
    if (g.coin()) json::print(writer, *h); else { Value v(*h); json::print(writer, v); }
    VT_CHECK(!writer.error(), writer.error().what());
    VT_EQ(ss.str(), d.text, "printed");
}

namespace {
struct DupInner { int64_t a = 1, b = 2; };
struct DupOuter { DupInner in; int64_t z = 3; };
}
reflectType(DupInner) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(a, json, clean(json::alias("b"))); }
reflectType(DupOuter) { reflectPlumbing(); reflectField(in); reflectField(z); }

// Fixed: the printer didn't notice duplicate keys (d01d8f7), and a type whose initialization raised was used by the next call (b8646e5).
VT_EXAMPLE(duplicates)
{
    DupInner in; DupOuter out;
    for (int i = 0; i < 3; ++i) {
        VT_CHECK(raises([&] { json::print(in); }), "print " << i);
        VT_CHECK(raises([&] { json::print(out); }), "print of an outer object " << i);
        VT_CHECK(raises([&] { json::parse("{\"b\":5}", in); }), "parse " << i);
        VT_CHECK(raises([&] { json::parse("{\"in\":{\"b\":5}}", out); }), "parse of an outer object " << i);
        VT_CHECK(in.a == 1 && in.b == 2, "nothing is parsed");
    }
}

// Fixed: null didn't reset a raw pointer (15eaf6e).
VT_EXAMPLE(null_raw)
{
    Raw r; int64_t* p = r.i = new int64_t(4);
    VT_CHECK(!json::parse("{\"i\":null}", r), "parse"); VT_CHECK(!r.i, "reset"); delete p;
}

VT_KNOWN(alias_skipempty_uninit)
{
    alignas(Traits) unsigned char a[sizeof(Traits)], b[sizeof(Traits)];
    memset(a, 0, sizeof a); memset(b, 0xAA, sizeof b);
    Traits* ta = new (a) Traits(json::alias("x")); Traits* tb = new (b) Traits(json::alias("x"));
    size_t at = size_t((char*)&ta->skipEmpty - (char*)ta);
    unsigned char x, y; memcpy(&x, a + at, 1); memcpy(&y, b + at, 1);
    ta->~Traits(); tb->~Traits();
    VT_CHECK(x == 0 && y == 0, "skipEmpty of alias(\"x\") is " << int(x) << " or " << int(y));
}
