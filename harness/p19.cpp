// P19: any bytes are parsed or rejected with an Error.
#include "json_run.h"
#include "json_events.h"
#include "json_gen.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace jz;
using reflect::json::Reader;

namespace {

// One run over a fresh object that starts in some state.
Outcome run(const Target& t, const std::string& text, const jr::Opts& o, int how, const JV* start, JV* end)
{
    Object x(t);
    if (start) x.fill(*start);
    Outcome p = parse(x, text, o, how);
    if (end) *end = x.dump();
    return p;
}

void robust(vt::Case& c, const Target& t, const std::string& text, const jr::Opts& o, int how, const JV* start)
{
    VT_LOG(t.name << " " << optText(o) << how << (start ? " onto " + jr::show(*start, 400) : std::string()) << "\n" << vt::quote(text, 1200) << "\n");
    long alive = Alive::n();
    JV end;
    Outcome p = run(t, text, o, how, start, &end);
    VT_CHECK(!p.raised, "parse raised " << p.error);
    if (p.failed) VT_CHECK(!p.error.empty(), "an error without a text");
    c.label(p.failed ? "rejected" : "accepted");

    // what was rejected left its place as it was
    jr::Opts eff = how ? jr::Opts{ false, true, true } : o;
    jr::Ref ref(text, eff);
    std::vector<std::vector<std::string>> rejected; ref.rejected = &rejected;
    JV model = start ? *start : jr::initial(*t.shape);
    ref.value(*t.shape, model);
    if (ref.failed && !ref.unspecified)
        for (auto& path : rejected) {
            const JV* want = jr::follow(model, path);
            if (!want || want->k == JV::Arr || want->k == JV::Obj || want->k == JV::Ptr) continue;
            const JV* got = jr::follow(end, path);
            VT_CHECK(got, "the place of a rejected value is gone");
            auto d = jr::diff(*got, *want);
            std::string where; for (auto& x : path) where += "." + x;
            VT_CHECK(d.empty(), "a rejected value changed " << where << ": " << d);
            c.label("rejected scalar");
        }

    // once more: nothing stays behind
    if (t.name != std::string("Raw")) {        // doesn't free what its pointers pointed to before
        VT_EQ(Alive::n(), alive, "objects left");
        size_t before = __sanitizer_get_current_allocated_bytes();
        { Outcome q = run(t, text, o, how, start, nullptr); VT_EQ(q.failed, p.failed, "the same outcome once more"); VT_EQ(q.error, p.error, "the same error once more"); }
        size_t after = __sanitizer_get_current_allocated_bytes();
        VT_EQ(after, before, "bytes allocated after a second run");
    }
}

} // namespace

VT_PROP(targets, 120000, 4000000, "at least 4 bytes")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    int how = g.chance(1, 4) ? int(g.range(1, 2)) : 0;
    std::string text = anyText(g, t, c);
    c.nontrivial(text.size() >= 4); c.label(t.name);
    JV start; bool onto = t.shape->k != Shape::Any && t.name != std::string("Raw") && g.coin();
    if (onto) start = genState(g, *t.shape, 2);
    robust(c, t, text, genOpts(g), how, onto ? &start : nullptr);
}

VT_PROP(events, 80000, 2000000, "at least 4 bytes")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    std::string text = anyText(g, t, c); jr::Opts o = genOpts(g);
    int what = int(g.draw(3));
    c.nontrivial(text.size() >= 4);
    VT_LOG(what << " " << optText(o) << " " << vt::quote(text, 1200) << "\n");
    auto go = [&] () -> std::string {
        std::istringstream ss(text); Reader r(ss, readerOptions(o));
        switch (what) {
        case 0: { c.label("skip"); reflect::json::skip(r); break; }
        case 1: { c.label("events"); readEvents(r); break; }
        case 2: {     // the tokens: no more of them than bytes, and each can be printed
            c.label("tokens"); size_t n = 0;
            while (r && r.nextToken().type() != reflect::json::Token::EOS) VT_CHECK(++n <= text.size(), "more tokens than bytes");
            break; }
        default: {    // whatever fits the call of the moment
            c.label("calls");
            for (size_t n = 0; n < text.size() + 5; ++n)
                switch (g.draw(9)) {
                case 0: r.peekToken().print(); break; case 1: r.nextToken().print(); break;
                case 2: reflect::json::parseBool(r); break; case 3: reflect::json::parseInt(r); break; case 4: reflect::json::parseFloat(r); break;
                case 5: reflect::json::parseString(r); break; case 6: reflect::json::parseNull(r); break; case 7: reflect::json::skip(r); break;
                case 8: reflect::json::parseArray(r, [&] (size_t) { if (g.coin()) reflect::json::skip(r); }); break;
                default: reflect::json::parseObject(r, [&] (const std::string&) { if (g.coin()) reflect::json::skip(r); }); break;
                }
            break; }
        }
        return r.error() ? r.error().what() : std::string();
    };
    try { go(); }
    catch (const vt::Failure&) { throw; }
    catch (const std::exception& e) { VT_FAIL("raised " << e.what()); }
}

// Nested to any depth.
VT_PROP(nesting, 1000, 12000, "more than 100 levels")
{
    vt::Gen& g = c.g;
    size_t depth = g.chance(1, 4) ? g.draw(300000) : g.chance(1, 2) ? g.range(900, 1200) : g.draw(3000);
    const char* forms[][3] = { { "[", "1", "]" }, { "{\"a\":", "1", "}" }, { "[[", "", "]]" }, { "{\"next\":", "null", "}" }, { "{\"kids\":[", "{}", "]}" }, { "{\"named\":{\"k\":", "{}", "}}" }, { "[{\"a\":", "true", "}]" }, { "{\"bases\":[", "{}", "]}" }, { "{\"i\":1,\"next\":", "{}", "}" } };
    size_t f = g.below(sizeof forms / sizeof *forms);
    std::string text; bool close = g.coin();
    for (size_t i = 0; i < depth; ++i) text += forms[f][0];
    text += forms[f][1];
    if (close) for (size_t i = 0; i < depth; ++i) text += forms[f][2];
    if (g.chance(1, 4)) text = "{\"unknown\":" + text + "}";
    if (g.chance(1, 4)) text = "[" + text + "]";
    c.nontrivial(depth > 100); c.label(depth > 3000 ? "over 3000" : depth > 1024 ? "over 1024" : "up to 1024");
    const Target& t = targets()[g.coin() ? DynamicTarget : pickTarget(g)];
    int what = int(g.draw(3));
    VT_LOG(t.name << " " << what << " depth " << depth << " of " << forms[f][0] << (close ? "" : " unclosed") << "\n");
    jr::Opts o = genOpts(g);
    try {
        if (what < 2) { Outcome p = run(t, text, o, 0, nullptr, nullptr); VT_CHECK(!p.raised, "raised " << p.error); if (!close && !text.empty() && depth) VT_CHECK(p.failed, "truncated but accepted"); }
        else {
            std::istringstream ss(text); Reader r(ss, readerOptions(o));
            if (what == 2) reflect::json::skip(r); else readEvents(r);
            if (!close && depth) VT_CHECK(bool(r.error()), "truncated but accepted");
        }
    }
    catch (const vt::Failure&) { throw; }
    catch (const std::exception& e) { VT_FAIL("raised " << e.what()); }
}

namespace {

// A stream that breaks down: it ends, or its buffer throws, after some bytes. Reads in blocks.
struct Broken : public std::streambuf
{
    std::string s; size_t at, block; bool raises;
    Broken(std::string s, size_t block, bool raises) : s(std::move(s)), at(0), block(block), raises(raises) {}
    int_type underflow()
    {
        if (at >= s.size()) { if (raises) throw std::runtime_error("broken"); return traits_type::eof(); }
        size_t n = std::min(block, s.size() - at);
        setg(&s[at], &s[at], &s[at] + n); at += n;
        return traits_type::to_int_type(*gptr());
    }
};

} // namespace

VT_PROP(broken_streams, 40000, 400000, "something is cut off")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    std::string whole = validText(g, t); size_t keep = g.draw(whole.size());
    std::string text = whole.substr(0, keep); bool raises = g.coin(); size_t block = 1 + g.draw(20);
    jr::Opts o = genOpts(g);
    c.nontrivial(keep < whole.size()); c.label(raises ? "raises" : "ends");
    VT_LOG(t.name << " " << optText(o) << (raises ? " raises" : " ends") << " after " << vt::quote(text, 1000) << "\n");
    std::string a, b;
    for (int k = 0; k < 2; ++k) {
        Object x(t); std::string& e = k ? b : a;
        try {
            if (k) { std::istringstream ss(text); Reader r(ss, readerOptions(o)); t.parseReader(r, x.p); e = r.error().what(); }
            else { Broken buf(text, block, raises); std::istream ss(&buf); Reader r(ss, readerOptions(o)); t.parseReader(r, x.p); e = r.error().what(); }
        }
        catch (const std::exception& e) { VT_FAIL("raised " << e.what()); }
    }
    // a stream that ends is as good as a text that does
    VT_EQ(a.empty(), b.empty(), "a broken stream against the end of the text: " << vt::quote(a, 200) << " / " << vt::quote(b, 200));
    if (!raises) VT_EQ(a, b, "the error");
}

// Fixed: mismatched and out of range values raised (c20673d), skip passed an object to printf (68200ac),
// invalid UTF-8 shifted by a negative count (f25721e), deep nesting overflowed the stack (cea165f).
static void fine(const char* name, const std::string& text)
{
    for (auto& t : targets()) if (t.name == std::string(name)) {
        Object x(t); Outcome p = parse(x, text, jr::Opts{ false, true, true }, 0);
        VT_CHECK(!p.raised && p.failed, vt::quote(text, 60) << " is rejected with an error");
    }
}
VT_EXAMPLE(mismatches) { fine("int64_t", "\"x\""); fine("int64_t", "99999999999999999999"); fine("double", "1e999"); fine("string", "1"); fine("bool", "null"); fine("Scalars", "{\"i\":\"x\"}"); }
VT_EXAMPLE(skipped) { fine("Scalars", "{\"unknown\":}"); fine("Scalars", "{\"unknown\":,}"); }
VT_EXAMPLE(headers) { fine("string", "\"\xff\""); fine("string", "\"\x80\""); fine("Value", "\"\xf8\x80\""); }
VT_EXAMPLE(bottomless) { fine("Value", std::string(1000000, '[')); std::string s; for (int i = 0; i < 100000; ++i) s += "{\"next\":"; fine("Tree", s); }
