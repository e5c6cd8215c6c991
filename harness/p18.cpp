// P18: parsing a valid document yields exactly what it denotes.
#include "json_run.h"
#include "json_events.h"

using namespace jz;
using reflect::json::Reader;

namespace {

const jr::Opts Full = { true, true, true };

std::string renderFor(vt::Gen& g, const JV& doc, jr::Opts& o, int& how)
{
    how = g.chance(1, 3) ? int(g.range(1, 2)) : 0;
    o = jr::Opts{ g.coin(), true, g.coin() };
    if (how) o = jr::Opts{ false, true, true };
    bool escapes = g.coin();
    // without unescaping, \u stays as it is: those are in P21
    return jr::render(g, doc, g.coin(), o.comments && g.coin(), escapes);
}

void expectParse(const Target& t, const std::string& text, const jr::Opts& o, int how, const JV& want)
{
    VT_LOG(t.name << " " << optText(o) << how << " " << vt::quote(text, 1000) << "\n");
    Object x(t);
    Outcome p = parse(x, text, o, how);
    VT_CHECK(!p.raised && !p.failed, "parse: " << p.error);
    auto d = jr::diff(x.dump(), want);
    VT_CHECK(d.empty(), d);
}

// Another order of the members, at every level. Only for documents without repeated keys.
JV shuffled(vt::Gen& g, JV v)
{
    for (auto& x : v.a) x = shuffled(g, x);
    for (auto& x : v.o) x.second = shuffled(g, x.second);
    for (size_t i = v.o.size(); i > 1; --i) std::swap(v.o[i - 1], v.o[g.below(i)]);
    return v;
}

JV cleared(JV v) { v.text.clear(); for (auto& x : v.a) x = cleared(x); for (auto& x : v.o) x.second = cleared(x.second); return v; }

} // namespace

VT_PROP(typed, 24000, 1200000, "the document has at least 4 nodes")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    long alive = Alive::n();
    {
        const Target& t = targets()[pickTarget(g)];
        jr::DocStyle st{ g.coin(), g.chance(1, 3), g.coin(), g.coin() };
        if (t.name == std::string("Raw")) st.repeat = false;      // what a raw pointer pointed to before isn't freed
        JV doc = jr::genDoc(g, *t.shape, int(g.draw(4)), st);
        c.nontrivial(sizeOf(doc) >= 4); c.label(t.name);
        JV want = jr::initial(*t.shape);
        jr::apply(*t.shape, want, doc);
        jr::Opts o; int how;
        std::string text = renderFor(g, doc, o, how);
        expectParse(t, text, o, how, want);
        if (g.chance(1, 3)) {        // the same in another guise
            JV other = st.repeat ? doc : shuffled(g, doc);
            std::string text2 = renderFor(g, other, o, how);
            expectParse(t, text2, o, how, want);
        }
    }
    VT_EQ(Alive::n(), alive, "objects left");
}

VT_PROP(events, 16000, 800000, "the document has at least 4 nodes")
{
    vt::Gen& g = c.g;
    JV doc = g.chance(1, 10) ? deepDynamic(g, g.draw(300)) : jr::genAny(g, int(1 + g.draw(5)));
    c.nontrivial(sizeOf(doc) >= 4);
    jr::Opts o; int how;
    std::string text = renderFor(g, doc, o, how);
    VT_LOG(optText(o) << " " << vt::quote(text, 1000) << "\n");
    std::istringstream ss(text); Reader r(ss, readerOptions(o));
    JV got = readEvents(r);
    VT_CHECK(!r.error(), "error: " << r.error().what());
    auto d = jr::diff(got, cleared(doc));
    VT_CHECK(d.empty(), d);
    // the members come in order
    std::string a = jr::show(got, 1 << 20), b = jr::show(cleared(doc), 1 << 20);
    VT_CHECK(a == b, "order: " << a.substr(0, 300) << " rather than " << b.substr(0, 300));
}

VT_PROP(deep, 240, 6000, "nested more than 20 levels")
{
    vt::Gen& g = c.g;
    size_t depth = g.chance(1, 3) ? g.draw(1020) : g.draw(60);
    JV doc = deepDynamic(g, depth);
    c.nontrivial(depth > 20); c.label(depth > 500 ? "over 500" : depth > 100 ? "over 100" : "up to 100");
    jr::Opts o; int how; std::string text = renderFor(g, doc, o, how);
    VT_LOG("depth " << depth << " ");
    expectParse(targets()[DynamicTarget], text, o, how, cleared(doc));
    // as an unknown member it is skipped
    std::string whole = "{\"b\":true,\"unknown\":" + text + ",\"i\":3}";
    JV want = shape<Scalars>().initial; *want.at("b") = JV::boolean(true); *want.at("i") = JV::integer(3);
    expectParse(targets()[0], whole, o, how, want);
}

VT_PROP(numbers, 40000, 2000000, "more than one digit")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    const Target* ti = nullptr; const Target* td = nullptr;
    for (auto& t : targets()) { if (t.name == std::string("int64_t")) ti = &t; if (t.name == std::string("double")) td = &t; }
    if (g.coin()) {
        int64_t n = g.i64(); std::string s = std::to_string(n);
        c.nontrivial(s.size() > 1); c.label("integer");
        expectParse(*ti, s, Full, 0, JV::integer(n));
        expectParse(targets()[DynamicTarget], s, Full, 0, JV::integer(n));
        expectParse(*td, s, Full, 0, JV::number(double(n)));
    } else {
        // enough digits of a double give it back, whatever the notation
        double d = g.f64(); char b[1200];
        switch (g.draw(4)) {
        case 0: snprintf(b, sizeof b, "%.17g", d); break;
        case 1: snprintf(b, sizeof b, "%.*e", int(g.range(16, 40)), d); break;
        case 2: if (std::fabs(d) < 1e300 && std::fabs(d) > 1e-290) { snprintf(b, sizeof b, "%.*f", int(g.range(330, 400)), d); break; }      // falls through
        case 3: snprintf(b, sizeof b, "%.16E", d); break;
        default: snprintf(b, sizeof b, "%.60g", d); break;
        }
        std::string s = b; bool integral = s.find_first_of(".eE") == std::string::npos;
        c.nontrivial(s.size() > 1); c.label(integral ? "integral double" : "double");
        if (integral && s.size() > 18) s += ".0";
        else if (integral && s == "-0") s = "-0.0";
        integral = s.find_first_of(".eE") == std::string::npos;
        expectParse(*td, s, Full, 0, JV::number(d));
        expectParse(targets()[DynamicTarget], s, Full, 0, integral ? JV::integer(int64_t(d)) : JV::number(d));
    }
}

// Fixed: f27cdbc.
VT_EXAMPLE(integer_to_float)
{
    JV want = JV::number(12); for (auto& t : targets()) if (t.name == std::string("double")) expectParse(t, "12", Full, 0, want);
}
