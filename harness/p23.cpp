// P23: errors and readers tell where they are.
#include "json_run.h"
#include "json_events.h"
#include "json_gen.h"

#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"

using namespace jz;
using reflect::json::Reader; using reflect::json::Token; using reflect::json::Error;

namespace {

const jr::Opts Default = { false, true, true };

// Whether an error is where the reference reader stops.
void checkPlace(const char* what, const std::string& error, const jr::Ref& ref)
{
    size_t line, col;
    VT_CHECK(jr::location(error, line, col), what << ": the error does not start with line:column: " << vt::quote(error, 200));
    VT_CHECK(line == ref.line, what << ": line " << line << " expected " << ref.line << ": " << vt::quote(error, 200) << " (" << ref.why << " at byte " << ref.i << ")");
    VT_CHECK(col == ref.col || (ref.atEnd && col == ref.col + 1), what << ": column " << col << " expected " << ref.col << ": " << vt::quote(error, 200) << " (" << ref.why << " at byte " << ref.i << ")");
}

// Line and column straight from the text: at is the number of bytes that were read, none inside of a string.
void countTo(const std::string& text, size_t at, size_t& line, size_t& col)
{
    line = 1; col = 1;
    for (size_t i = 0; i < at; ++i) { if (text[i] == '\n') { ++line; col = 1; } else ++col; }
}

void genText(vt::Case& c, const Target& t, std::string& text, jr::Opts& o)
{
    vt::Gen& g = c.g;
    o = genOpts(g);
    if (g.chance(1, 3)) {           // much of it on other lines
        jr::DocStyle st{ g.coin(), g.chance(1, 3), g.coin(), g.coin() };
        jr::Render r(g, true, true, g.coin());
        r.value(g.chance(1, 2) ? jr::genDoc(g, *t.shape, int(g.draw(3)), st) : mistyped(g, jr::genDoc(g, *t.shape, int(g.draw(3)), st)));
        text = g.chance(3, 4) ? jr::damage(g, r.out) : r.out; o.comments = g.chance(3, 4);
        c.label("spread out");
    }
    else text = anyText(g, t, c);
}

} // namespace

VT_PROP(errors, 120000, 5000000, "an error that isn't on the first line, or after column 10")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    const Target& t = targets()[pickTarget(g)];
    std::string text; jr::Opts o; genText(c, t, text, o);
    int how = g.chance(1, 4) ? int(g.range(1, 2)) : 0;
    VT_LOG(t.name << " " << optText(o) << how << " " << vt::quote(text, 1400) << "\n");
    jr::Ref ref(text, how ? Default : o);
    JV model = jr::initial(*t.shape);
    ref.value(*t.shape, model);
    if (ref.unspecified) { c.label("unspecified"); return; }
    if (!ref.failed) { c.label("no error"); return; }
    c.nontrivial(ref.line > 1 || ref.col > 10);
    c.label(ref.why); if (ref.atEnd) c.label("at the end");
    Object x(t);
    Outcome p = parse(x, text, o, how);
    VT_CHECK(!p.raised && p.failed, "no error: " << p.error);
    checkPlace("parse", p.error, ref);
}

VT_PROP(events, 60000, 2500000, "an error that isn't on the first line, or after column 10")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    std::string text; jr::Opts o; genText(c, t, text, o);
    VT_LOG(optText(o) << " " << vt::quote(text, 1400) << "\n");
    jr::Ref any(text, o); JV model; any.anyValue(model);
    if (any.failed) {
        c.nontrivial(any.line > 1 || any.col > 10); c.label(any.why);
        std::istringstream ss(text); Reader r(ss, readerOptions(o));
        readEvents(r);
        VT_CHECK(r.error(), "no error from events: " << any.why);
        checkPlace("events", r.error().what(), any);
        // whatever follows, the first error is kept
        std::string first = r.error().what();
        for (size_t n = 1 + g.draw(5); n > 0; --n) {
            switch (g.draw(7)) {
            case 0: r.nextToken(); break;
            case 1: r.peekToken(); break;
            case 2: r.error("another one %d", 3); break;
            case 3: r.expectToken(Token::String); break;
            case 4: reflect::json::skip(r); break;
            case 5: readEvents(r); break;
            case 6: { int64_t x = 0; reflect::json::parse(r, x); break; }
            default: r.pop(); r.newline(); break;
            }
            VT_EQ(std::string(r.error().what()), first, "the first error");
            VT_CHECK(!r.ok() && !r, "still failed");
        }
    }
    jr::Ref sk(text, o); sk.skip();
    if (sk.failed && !(sk.why == "token" && sk.i >= text.size())) {
        std::istringstream ss(text); Reader r(ss, readerOptions(o));
        reflect::json::skip(r);
        VT_CHECK(r.error(), "no error from skip: " << sk.why);
        checkPlace("skip", r.error().what(), sk);
    }
}

// Where the reader is at each token.
VT_PROP(boundaries, 30000, 1500000, "at least 5 tokens on at least 2 lines")
{
    vt::Gen& g = c.g;
    bool comments = g.coin();
    jr::Render r(g, true, comments, g.coin());
    r.value(g.chance(1, 3) ? jr::genAny(g, 4) : jr::genDoc(g, *targets()[pickTarget(g)].shape, int(g.draw(3)), jr::DocStyle{ true, true, true, true }));
    const std::string& text = r.out;
    size_t lines = 1 + std::count(text.begin(), text.end(), '\n');
    c.nontrivial(r.bounds.size() >= 5 && lines >= 2); c.label(comments ? "comments" : "no comments");
    VT_LOG(vt::quote(text, 1400) << "\n");
    std::istringstream ss(text); Reader reader(ss, readerOptions(jr::Opts{ comments, g.coin(), g.coin() }));
    VT_EQ(reader.line(), size_t(1), "first line"); VT_EQ(reader.pos(), size_t(1), "first column");
    size_t line = 1, col = 1;
    for (size_t k = 0; k < r.bounds.size(); ++k) {
        auto at = [&] (const char* what) {
            VT_EQ(reader.line(), line, "line " << what << " token " << k << " that ends at byte " << r.bounds[k]);
            VT_EQ(reader.pos(), col, "column " << what << " token " << k << " that ends at byte " << r.bounds[k]); };
        countTo(text, r.bounds[k], line, col);
        for (size_t n = g.draw(2); n > 0; --n) { reader.peekToken(); at("peeking at"); }
        if (g.chance(1, 20)) {      // an error right here, on a reader of its own
            std::istringstream s2(text); Reader other(s2, readerOptions(jr::Opts{ comments, true, true }));
            for (size_t i = 0; i <= k; ++i) other.nextToken();
            other.error("here");
            VT_EQ(std::string(other.error().what()), std::to_string(line) + ":" + std::to_string(col) + ": here", "error after token " << k);
        }
        Token t = reader.nextToken();
        VT_CHECK(!reader.error() && t.type() != Token::EOS, "token " << k << ": " << reader.error().what());
        at("after");
    }
}

// A word that doesn't belong at a known place, after any number of lines.
VT_PROP(planted, 30000, 1500000, "not on the first line")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    // an array with one wrong item; nothing else is wrong, so the place follows from the text alone
    jr::Render r(g, true, true, true);
    r.gap(); r.out += "[";
    for (size_t n = g.draw(5); n > 0; --n) { r.value(jr::genAny(g, 2)); r.tok(","); }
    r.gap();
    size_t at = r.out.size(), line, col;
    struct Wrong { const char* text; size_t read; };
    Wrong w = g.oneOf<Wrong>({ { "?", 1 }, { "nul!", 4 }, { "tRue", 2 }, { "falsE", 5 }, { ":", 1 }, { "}", 1 }, { ",", 1 }, { "\"ab\\q\"", 5 }, { "\"\\u12G4\"", 6 }, { "\"\xff\"", 2 }, { "-x", 1 }, { "1.x", 2 }, { "1ex", 2 }, { "1e+x", 3 } });
    r.out += w.text; r.gap(); r.out += "]";
    countTo(r.out, at, line, col); col += w.read;
    c.nontrivial(line > 1); c.label(w.text);
    VT_LOG(vt::quote(r.out, 1000) << "\n");
    Reader::Options opt = readerOptions(jr::Opts{ true, true, true });
    std::string expect = std::to_string(line) + ":" + std::to_string(col) + ": ";
    { std::istringstream ss(r.out); Reader reader(ss, opt); reflect::Value v; { vt::Abroad abroad; reflect::json::parse(reader, v); } VT_CHECK(reader.error(), "accepted"); std::string e = reader.error().what(); VT_CHECK(e.compare(0, expect.size(), expect) == 0, "expected " << expect << " but: " << e); }
    { std::istringstream ss(r.out); Reader reader(ss, opt); reflect::json::skip(reader); VT_CHECK(reader.error(), "skipped"); std::string e = reader.error().what(); VT_CHECK(e.compare(0, expect.size(), expect) == 0, "skip: expected " << expect << " but: " << e); }
}

// Fixed: the newline that ends a comment wasn't counted right (d8c1e73).
VT_EXAMPLE(comment_lines)
{
    std::istringstream ss("[ // one\n// two\n 1, // three\n  ?]"); Reader r(ss, readerOptions(jr::Opts{ true, true, true }));
    reflect::Value v; reflect::json::parse(r, v);
    VT_CHECK(r.error(), "an error"); VT_EQ(std::string(r.error().what()).substr(0, 5), std::string("4:4: "), "place");
}
