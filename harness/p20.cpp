// P20: what is malformed or doesn't fit is rejected, and nothing else.
#include "json_run.h"
#include "json_events.h"
#include "json_gen.h"

using namespace jz;
using reflect::json::Reader;

namespace {

const jr::Opts Default = { false, true, true };

void agree(vt::Case* c, const Target& t, const std::string& text, const jr::Opts& o, int how)
{
    jr::Opts eff = how ? Default : o;
    jr::Ref ref(text, eff);
    JV model = jr::initial(*t.shape);
    ref.value(*t.shape, model);
    if (ref.unspecified) { if (c) c->label("unspecified"); return; }
    if (c) c->label(ref.failed ? "to reject: " + ref.why : "to accept");

    Object x(t);
    Outcome p = parse(x, text, o, how);
    VT_CHECK(!p.raised, "raised " << p.error);
    if (ref.failed) VT_CHECK(p.failed, "accepted, and read " << jr::show(x.dump(), 300) << ", but should be rejected: " << ref.why << " at byte " << ref.i);
    else {
        VT_CHECK(!p.failed, "rejected: " << p.error);
        auto d = jr::diff(x.dump(), model);
        VT_CHECK(d.empty(), d);
    }
}

// The same for documents of any kind, through skip and through a hand-written parser.
void agreeEvents(vt::Case* c, const std::string& text, const jr::Opts& o)
{
    jr::Ref ref(text, o); ref.skip();
    std::istringstream ss(text); Reader r(ss, readerOptions(o));
    reflect::json::skip(r);
    // a skip of nothing at all isn't an error of the document
    bool nothing = ref.failed && ref.i >= text.size() && ref.why == "token" && !r.ok();
    if (!nothing) VT_EQ(bool(r.error()), ref.failed, "skip: " << (r.error() ? r.error().what() : "accepted") << " against " << ref.why);

    jr::Ref any(text, o); JV model; any.anyValue(model);
    if (any.failed && any.why == "range") return;
    std::istringstream ss2(text); Reader r2(ss2, readerOptions(o));
    readEvents(r2);
    VT_EQ(bool(r2.error()), any.failed, "events: " << (r2.error() ? r2.error().what() : "accepted") << " against " << any.why);
    if (c) c->label(ref.failed ? "rejected" : "accepted");
}

} // namespace

VT_PROP(agreement, 120000, 5000000, "at least 4 bytes")
{
    vt::Gen& g = c.g;
    vt::Abroad::Case locale(c);
    const Target& t = targets()[pickTarget(g)];
    std::string text = anyText(g, t, c);
    int how = g.chance(1, 4) ? int(g.range(1, 2)) : 0; jr::Opts o = genOpts(g);
    c.nontrivial(text.size() >= 4);
    VT_LOG(t.name << " " << optText(o) << how << " " << vt::quote(text, 1400) << "\n");
    agree(&c, t, text, o, how);
}

VT_PROP(events, 60000, 2000000, "at least 4 bytes")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    std::string text = anyText(g, t, c); jr::Opts o = genOpts(g);
    c.nontrivial(text.size() >= 4);
    VT_LOG(optText(o) << " " << vt::quote(text, 1400) << "\n");
    agreeEvents(&c, text, o);
}

// A document that was cut off anywhere is rejected, unless what remains is a number.
VT_PROP(truncated, 1500, 200000, "at least 10 bytes")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    jr::DocStyle st{ g.coin(), g.chance(1, 3), g.coin(), g.coin() };
    JV doc = jr::genDoc(g, *t.shape, int(g.draw(3)), st);
    std::string text = jr::render(g, doc, g.coin(), false, g.coin());
    while (!text.empty() && strchr(" \n\r\t", text.back())) text.pop_back();
    c.nontrivial(text.size() >= 10); c.label(t.name);
    VT_LOG(t.name << " " << vt::quote(text, 1400) << "\n");
    bool number = doc.k == JV::Int || doc.k == JV::Float;
    size_t step = text.size() > 300 ? text.size() / 150 : 1;
    for (size_t n = 0; n < text.size(); n += step) {
        std::string part = text.substr(0, n);
        if (!number) { Object x(t); Outcome p = parse(x, part, Default, 0); VT_CHECK(!p.raised && p.failed, "cut off after " << n << " bytes"); }
        else agree(nullptr, t, part, Default, 0);
    }
    agree(&c, t, text, Default, 0);
}

// One token too many, too few, or another.
VT_PROP(tokens, 60000, 3000000, "at least 3 tokens")
{
    vt::Gen& g = c.g;
    std::vector<const char*> all{ "{", "}", "[", "]", ",", ":", "\"a\"", "\"i\"", "1", "1.5", "true", "null", "\"b\"", "\"x/1\"", "\"1/2\"" };
    std::vector<std::string> ts;
    if (g.coin()) { while (g.more(6)) ts.push_back(g.pick(all)); }
    else {
        const Target& t = targets()[pickTarget(g)];
        jr::DocStyle st{ g.coin(), false, false, g.coin() };
        jr::Render r(g, false, false, false); r.value(jr::genDoc(g, *t.shape, int(g.draw(3)), st));
        size_t from = 0; for (size_t b : r.bounds) { ts.push_back(r.out.substr(from, b - from)); from = b; }
        for (size_t n = 1 + g.draw(1); n > 0 && !ts.empty(); --n) {
            size_t at = g.below(ts.size());
            switch (g.draw(3)) {
            case 0: ts.erase(ts.begin() + at); break;
            case 1: ts.insert(ts.begin() + at, g.pick(all)); break;
            case 2: ts[at] = g.pick(all); break;
            default: std::swap(ts[at], ts[g.below(ts.size())]); break;
            }
        }
    }
    std::string text; for (auto& x : ts) { if (!text.empty() && g.chance(1, 10)) text += " "; text += x; }
    c.nontrivial(ts.size() >= 3);
    const Target& t = targets()[pickTarget(g)];
    VT_LOG(t.name << " " << vt::quote(text, 1400) << "\n");
    agree(&c, t, text, Default, 0);
    agreeEvents(&c, text, Default);
}

// Every sequence of up to four tokens.
VT_EXAMPLE(all_short_sequences)
{
    const char* all[] = { "{", "}", "[", "]", ",", ":", "\"i\"", "1", "-1.5e2", "false", "null", "//\n", "\"1/2\"" };
    const size_t n = sizeof all / sizeof *all;
    for (size_t len = 0; len <= 4; ++len) {
        size_t total = 1; for (size_t i = 0; i < len; ++i) total *= n;
        for (size_t k = 0; k < total; ++k) {
            std::string text; size_t rest = k;
            for (size_t i = 0; i < len; ++i) { text += all[rest % n]; rest /= n; }
            agree(nullptr, targets()[DynamicTarget], text, Default, 0);
            agree(nullptr, targets()[0], text, Default, 0);
        }
    }
}

// Every number of up to five characters.
VT_EXAMPLE(all_short_numbers)
{
    const char all[] = "01-+.eE9";
    const Target* d = nullptr; for (auto& t : targets()) if (t.name == std::string("double")) d = &t;
    for (size_t len = 1; len <= 5; ++len) {
        size_t total = 1; for (size_t i = 0; i < len; ++i) total *= 8;
        for (size_t k = 0; k < total; ++k) {
            std::string text; size_t rest = k;
            for (size_t i = 0; i < len; ++i) { text += all[rest % 8]; rest /= 8; }
            agree(nullptr, *d, text, Default, 0);
            if (k % 7 == 0) { agree(nullptr, targets()[DynamicTarget], "[" + text + "]", Default, 0); agree(nullptr, targets()[0], "{\"i\":" + text + "}", Default, 0); }
        }
    }
}

// Fixed: numbers without digits (d182a16), truncated containers and keys that aren't strings (cf00238),
// mismatches raised (c20673d).
static void rejects(const char* name, const std::string& text)
{
    for (auto& t : targets()) if (t.name == std::string(name)) { Object x(t); Outcome p = parse(x, text, Default, 0); VT_CHECK(!p.raised && p.failed, vt::quote(text, 60) << " is to be rejected"); }
}
VT_EXAMPLE(digits) { for (auto s : { "-", "1.", "1e", "1e+", "-.5", "1.e5" }) { rejects("double", s); rejects("Value", std::string("[") + s + "]"); } }
VT_EXAMPLE(cut_off) { for (auto s : { "{", "{\"i\"", "{\"i\":", "{\"i\":1", "{\"i\":1,", "{1:2}", "{null:1}" }) rejects("Scalars", s); for (auto s : { "[", "[1", "[1,", "[1,]" }) rejects("vector<int64_t>", s); }
VT_EXAMPLE(kinds) { rejects("Scalars", "[]"); rejects("Scalars", "1"); rejects("vector<int64_t>", "{}"); rejects("string", "1"); rejects("int64_t", "1.5"); rejects("int64_t", "9223372036854775808"); rejects("bool", "0"); }
