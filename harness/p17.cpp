// P17: what is printed is well-formed and denotes the object.
#include "json_run.h"
#include "json_strict.h"

#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"

#include <limits>

using namespace jz;
using reflect::json::Writer;

namespace {

JV judge(const std::string& text, bool pretty, bool rawBytes, std::string& stripped)
{
    jr::Strict s(text, rawBytes); JV doc;
    bool ok = s.document(doc);
    VT_CHECK(ok, "not well-formed: " << s.why);
    if (!pretty) VT_CHECK(s.spaces == 0, "whitespace between the tokens of a plain document");
    else VT_CHECK(s.layout.empty(), "layout: " << s.layout);
    stripped = s.stripped;
    return doc;
}

bool ascii(const std::string& s) { for (unsigned char c : s) if (c >= 0x80) return false; return true; }

// Puts something that json can't denote somewhere. Returns whether that is where it is printed.
std::string invalidUtf8(vt::Gen& g)
{
    std::string s = g.chance(1, 2) ? g.utf8String(2) : "";
    s += g.oneOf<const char*>({ "\x80", "\xbf", "\xff", "\xfe", "\xf8\x88\x80\x80\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xc3(", "\xe2(\xac", "\xe2\x82(", "\xf0(\x98\x80", "\xf0\x9f(\x80", "\xf0\x9f\x98(" });
    // ends the string, or is followed by what isn't a continuation
    if (g.coin()) s += g.word(2);
    return s;
}

bool poison(vt::Gen& g, const Shape& s, JV& v, bool compact, bool printed, bool strings, bool always, bool& done, bool& shows)
{
    // depth first; takes one of the places it comes across
    if (done) return true;
    unsigned d = always ? 1 : 2;
    switch (s.k) {
    case Shape::Float: if (!strings && g.chance(1, d)) { v = JV::number(g.oneOf<double>({ std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() })); done = true; shows = printed; } break;
    case Shape::Str: if (strings && g.chance(1, d)) { v = JV::str(invalidUtf8(g)); done = true; shows = printed; } break;
    case Shape::Ptr: if (v.k != JV::Null) poison(g, *s.inner, v.a[0], compact, printed, strings, always, done, shows); break;
    case Shape::Arr: for (auto& x : v.a) poison(g, *s.inner, x, compact, printed, strings, always, done, shows); break;
    case Shape::Map:
        for (auto& x : v.o) {
            if (!done && strings && g.chance(1, always ? 1 : 4)) { x.first = invalidUtf8(g); done = true; shows = printed; for (auto& y : v.o) if (&y != &x && y.first == x.first) x.first += "2"; break; }
            poison(g, *s.inner, x.second, compact, printed, strings, always, done, shows);
        }
        break;
    case Shape::Obj: for (auto& f : s.fields) poison(g, *f.shape, *v.at(f.name), compact, printed && !f.skip, strings, always, done, shows); break;
    case Shape::Any:
        if (v.k == JV::Float && !strings && g.chance(1, d)) { v = JV::number(std::numeric_limits<double>::quiet_NaN()); done = true; shows = printed; }
        else if (v.k == JV::Str && strings && g.chance(1, d)) { v = JV::str(invalidUtf8(g)); done = true; shows = printed; }
        else if (v.k == JV::Arr) for (auto& x : v.a) poison(g, s, x, compact, printed, strings, always, done, shows);
        else if (v.k == JV::Obj) for (auto& x : v.o) poison(g, s, x.second, compact, printed, strings, always, done, shows);
        break;
    default: break;
    }
    return done;
}

std::string checkPrint(const Target& t, Object& o, const JV& state, unsigned w, int how, bool rawBytes)
{
    Outcome p = print(o, w, how);
    VT_LOG(optText(w) << ": " << vt::quote(p.text, 1200) << "\n");
    VT_CHECK(!p.raised && !p.failed, "print: " << p.error);
    std::string stripped;
    JV doc = judge(p.text, w & Writer::Pretty, rawBytes, stripped);
    auto d = jr::denotes(doc, jr::denote(*t.shape, state, w & Writer::Compact));
    VT_CHECK(d.empty(), "what the text denotes: " << d);
    if (w & Writer::EscapeUnicode) VT_CHECK(ascii(p.text), "escaped text has bytes above 0x7F");
    if (w & Writer::Pretty) {
        Outcome q = print(o, w & ~Writer::Pretty, 0);
        VT_CHECK(!q.raised && !q.failed, "plain print: " << q.error);
        VT_CHECK(q.text == stripped, "plain layout differs by more than whitespace: " << vt::quote(q.text, 600));
    }
    return p.text;
}

} // namespace

VT_PROP(denotes, 24000, 1200000, "the state has at least 4 nodes")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    const Target& t = targets()[pickTarget(g)];
    unsigned w = unsigned(g.draw(15)); int how = g.chance(1, 4) ? int(g.range(1, 3)) : 0;
    if (how == 1 || how == 2) w = Writer::Default;
    JV state = genState(g, *t.shape, int(g.draw(4)));
    if (t.shape->k == Shape::Any && state.k == JV::Null) state = JV::integer(g.i64());
    c.nontrivial(sizeOf(state) >= 4);
    c.label(t.name); c.label("writer " + optText(w));
    VT_LOG(t.name << " " << how << " " << jr::show(state) << "\n");
    Object o(t); o.fill(state);
    checkPrint(t, o, state, w, how, false);
}

VT_PROP(deep_layout, 240, 6000, "nested more than 20 levels")
{
    vt::Gen& g = c.g;
    size_t depth = g.chance(1, 3) ? g.draw(1600) : g.draw(60);
    const Target& t = targets()[DynamicTarget];
    JV state = JV::integer(1);
    if (g.coin()) state = deepDynamic(g, depth);
    else for (size_t i = 0; i < depth; ++i) { JV up = JV::array(); up.a.push_back(JV::integer(int64_t(i))); up.a.push_back(std::move(state)); state = std::move(up); }      // all on lines of their own
    if (state.k == JV::Null) state = JV::integer(2);
    c.nontrivial(depth > 20); c.label(depth > 1000 ? "over 1000" : depth > 100 ? "over 100" : "up to 100");
    unsigned w = unsigned(g.draw(15));
    VT_LOG("depth " << depth << "\n");
    Object o(t); o.fill(state);
    checkPrint(t, o, state, w, 0, false);
}

VT_PROP(not_denotable, 16000, 600000, "the value would be printed")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    unsigned w = unsigned(g.draw(15)); bool strings = g.coin();
    bool compact = w & Writer::Compact, done = false, shows = false;
    JV state = genState(g, *t.shape, int(1 + g.draw(3)));
    if (t.shape->k == Shape::Any && state.k == JV::Null) state = JV::number(0.5);
    for (int always = 0; always < 2 && !done; ++always) poison(g, *t.shape, state, compact, true, strings, always, done, shows);
    if (!done) throw vt::Discard();
    // skipEmpty and compact leave out only what is empty, and neither a bad double nor a bad string is
    bool refuse = shows && (!strings || (w & (Writer::EscapeUnicode | Writer::ValidateUnicode)));
    c.nontrivial(refuse); c.label(strings ? "string" : "double"); c.label("writer " + optText(w)); c.label(refuse ? "refused" : "printed");
    VT_LOG(t.name << " " << optText(w) << " " << jr::show(state) << "\n");
    Object o(t); o.fill(state);
    if (!refuse) { checkPrint(t, o, state, w, 0, true); return; }
    Outcome p = print(o, w, g.coin() ? 0 : 3);
    VT_LOG(vt::quote(p.text, 600) << "\n");
    VT_CHECK(!p.raised, "raised " << p.error);
    VT_CHECK(p.failed, "something that json can't denote was printed without an error");
    VT_CHECK(!p.error.empty(), "the error says nothing");
    // the object and the type still print
    JV clean = jr::initial(*t.shape);
    if (t.shape->k == Shape::Any) clean = JV::integer(3);
    Object n(t); n.fill(clean);
    checkPrint(t, n, clean, w, 0, false);
}

// The existing test json_format::test_string demands it.
VT_KNOWN(raw_control_chars)
{
    auto p = reflect::json::print(std::string("\x01"));
    jr::Strict s(p.first); JV doc; s.document(doc);
    VT_CHECK(!s.rawControl, "control characters are printed as is: " << vt::quote(p.first, 40));
}

// Fixed: print to a stream called parse (1298d00), print of a Value did not compile (45632fe), non-finite
// floats were printed as inf and nan (48025c7), lines past 4096 columns read out of bounds (04ec28c).
VT_EXAMPLE(streams)
{
    std::ostringstream ss; std::vector<int64_t> v{ 1, 2 };
    VT_CHECK(!reflect::json::print(ss, v), "print"); VT_EQ(ss.str(), std::string("[1,2]"), "printed");
    reflect::Value d(v); VT_EQ(reflect::json::print(d).first, std::string("[1,2]"), "printed");
}
VT_EXAMPLE(not_finite)
{
    for (double d : { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() })
        VT_CHECK(bool(reflect::json::print(d).second), "a non-finite double is an error");
}
VT_EXAMPLE(far_right)
{
    std::ostringstream ss; Writer w(ss, Writer::Pretty);
    for (size_t i = 0; i < 5000; ++i) w.indent();
    w.newline();
    VT_EQ(ss.str(), "\n" + std::string(20000, ' '), "a new line");
}
