// P16: printing and parsing restores the object.
#include "json_run.h"

using namespace jz;
using reflect::json::Writer;

namespace {

void roundTrip(vt::Case& c, const Target& t, const JV& state, unsigned w, int printHow, int parseHow, const jr::Opts& ro)
{
    if (printHow == 1 || printHow == 2) w = Writer::Default;
    VT_LOG(t.name << " " << optText(w) << printHow << " " << optText(ro) << parseHow << " " << jr::show(state) << "\n");
    Object a(t);
    a.fill(state);
    auto d = jr::diff(a.dump(), state);
    VT_CHECK(d.empty(), "the harness does not fill and dump: " << d);

    Outcome p = print(a, w, printHow);
    VT_LOG(vt::quote(p.text, 800) << "\n");
    VT_CHECK(!p.raised && !p.failed, "print: " << p.error);
    d = jr::diff(a.dump(), state);
    VT_CHECK(d.empty(), "printing changed the object: " << d);

    JV want = jr::restored(*t.shape, state, w & Writer::Compact);
    Object b(t);
    Outcome q = parse(b, p.text, ro, parseHow);
    VT_CHECK(!q.raised && !q.failed, "parse: " << q.error);
    d = jr::diff(b.dump(), want, true);
    VT_CHECK(d.empty(), "the object that was read: " << d);

    // a second trip changes nothing anymore
    if (c.g.chance(1, 3)) {
        Outcome p2 = print(b, w, printHow);
        VT_CHECK(!p2.raised && !p2.failed, "second print: " << p2.error);
        Object e(t);
        Outcome q2 = parse(e, p2.text, ro, parseHow);
        VT_CHECK(!q2.raised && !q2.failed, "second parse: " << q2.error);
        d = jr::diff(e.dump(), b.dump());
        VT_CHECK(d.empty(), "the second trip: " << d);
    }
}

jr::Opts genReader(vt::Gen& g) { return jr::Opts{ g.coin(), true, g.coin() }; }      // what the writer escapes has to be unescaped

} // namespace

VT_PROP(round_trip, 30000, 1500000, "the state has at least 4 nodes")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    long alive = Alive::n();
    {
        const Target& t = targets()[pickTarget(g)];
        unsigned w = unsigned(g.draw(15));
        int how = g.chance(1, 4) ? int(g.draw(2)) : 0, phow = g.chance(1, 4) ? int(g.draw(2)) : 0;
        jr::Opts ro = genReader(g);
        JV state = genState(g, *t.shape, int(g.draw(4)), g.coin());
        // a void Value isn't a document of its own
        if (t.shape->k == Shape::Any && state.k == JV::Null) state = JV::integer(g.i64());
        c.nontrivial(sizeOf(state) >= 4);
        c.label(t.name); c.label("writer " + optText(w));
        roundTrip(c, t, state, w, how, phow, ro);
    }
    VT_EQ(Alive::n(), alive, "objects left");
}

VT_PROP(deep, 240, 8000, "nested more than 20 levels")
{
    vt::Gen& g = c.g;
    long alive = Alive::n();
    {
        bool dynamic = g.coin();
        size_t depth = g.chance(1, 3) ? g.draw(dynamic ? 1000 : 480) : g.draw(60);
        const Target* t = &targets()[DynamicTarget];
        if (!dynamic) for (auto& x : targets()) if (x.name == std::string("Tree")) t = &x;
        JV state = dynamic ? deepDynamic(g, depth) : deepTree(g, depth);
        if (dynamic && state.k == JV::Null) state = JV::integer(1);
        c.nontrivial(depth > 20);
        c.label(dynamic ? "dynamic" : "tree"); c.label(depth > 500 ? "over 500" : depth > 100 ? "over 100" : "up to 100");
        roundTrip(c, *t, state, unsigned(g.draw(15)), 0, 0, genReader(g));
    }
    VT_EQ(Alive::n(), alive, "objects left");
}

// One number, string or boolean in every kind of place.
VT_PROP(scalars, 40000, 2000000, "the value isn't the default one")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    unsigned w = unsigned(g.draw(15)); jr::Opts ro = genReader(g);
    JV state = shape<Scalars>().initial;
    switch (g.draw(3)) {
    case 0: { JV v = JV::integer(g.i64()); c.nontrivial(v.i != 0); *state.at("i") = v; break; }
    case 1: { JV v = JV::number(genDouble(g, g.coin())); c.nontrivial(v.d != 0); *state.at("d") = v; break; }
    case 2: { JV v = JV::str(g.utf8String()); c.nontrivial(!v.s.empty()); *state.at("s") = v; break; }
    default: *state.at("b") = JV::boolean(g.coin()); c.nontrivial(state.at("b")->b); break;
    }
    roundTrip(c, targets()[0], state, w, 0, 0, ro);
}

// Fixed: integers could not be read into floats (f27cdbc), null did not reset a raw pointer (15eaf6e), the
// items of dynamic arrays and objects were printed as {} (f988430).
VT_EXAMPLE(integral_float)
{
    double d = 5, r = 0; auto p = reflect::json::print(d);
    VT_EQ(p.first, std::string("5"), "printed"); VT_CHECK(!reflect::json::parse(p.first, r), "an integral double"); VT_EQ(r, d, "read");
}
VT_EXAMPLE(raw_null)
{
    Raw r; r.i = new int64_t(3); int64_t* old = r.i;
    auto e = reflect::json::parse("{\"i\":null}", r);
    VT_CHECK(!e && !r.i, "null resets a raw pointer"); delete old;
}
VT_EXAMPLE(dynamic_items)
{
    reflect::Value v; VT_CHECK(!reflect::json::parse("[1,{\"a\":[null,\"x\"]}]", v), "parse");
    auto p = reflect::json::print(v); VT_CHECK(!p.second, "print"); VT_EQ(p.first, std::string("[1,{\"a\":[null,\"x\"]}]"), "printed");
}
