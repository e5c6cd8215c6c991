// P27: the event api.
#include "json_run.h"
#include "json_strict.h"
#include "json_events.h"
#include "json_gen.h"

#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"

#include <list>

using namespace jz;
using reflect::json::Reader; using reflect::json::Writer; using reflect::json::Token;
namespace json = reflect::json;

namespace {

// Decisions, the same ones for both walks as long as they see the same events.
struct Dice { uint64_t s; unsigned operator()(unsigned n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return unsigned((s >> 33) % n); } };

struct Log
{
    std::vector<std::string> ev;
    void operator()(const std::string& s) { ev.push_back(s); }
    std::string show() const { std::string r; for (auto& x : ev) r += x + " "; return r.size() > 900 ? r.substr(0, 900) + "..." : r; }
};

std::string bits(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }

// A hand-written parser over the library.
struct Walk
{
    Reader& r; Dice dice; Log log; unsigned plant;       // plant: one in that many callbacks reports an error of its own

    void peeks() { for (unsigned n = dice(4) ? 0 : 3; n > 0; --n) { Token a = r.peekToken(); bool v = a.type() == Token::String; std::string s = v ? a.asString() : ""; Token b = r.peekToken(); VT_EQ(int(b.type()), int(a.type()), "peeking again"); if (v && b.type() == Token::String) VT_EQ(b.asString(), s, "peeking again"); } }

    void value(bool mayFail)
    {
        if (mayFail && plant && !dice(plant)) { log("planted"); r.error("planted"); return; }
        unsigned how = dice(10);
        peeks();
        if (how == 0) { json::skip(r); if (!r.error()) log("skipped"); return; }
        Token t = r.peekToken();
        if (r.error()) return;
        switch (t.type()) {
        case Token::Null:
            // null is an empty object or array as well
            if (how == 1) json::parseObject(r, [&] (const std::string&) { log("member of null"); });
            else if (how == 2) json::parseArray(r, [&] (size_t) { log("item of null"); });
            else json::parseNull(r);
            if (!r.error()) log("null");
            break;
        case Token::Bool: { bool b = how == 1 ? r.nextToken().asBool() : json::parseBool(r); if (!r.error()) log(b ? "true" : "false"); break; }
        case Token::Int: { int64_t i = json::parseInt(r); if (!r.error()) log(std::to_string(i)); break; }
        case Token::Float: { double d = how == 1 ? r.expectToken(Token::Float).asFloat() : json::parseFloat(r); if (!r.error()) log(bits(d)); break; }
        case Token::String: { std::string s = json::parseString(r); if (!r.error()) log(vt::quote(s, 60)); break; }
        case Token::ArrayStart: {
            log("[");
            json::parseArray(r, [&] (size_t i) { log("i" + std::to_string(i)); VT_CHECK(!r.error(), "an item after an error"); value(true); });
            if (!r.error()) log("]");
            break; }
        case Token::ObjectStart:
            log("{");
            json::parseObject(r, [&] (const std::string& k) { log("k" + vt::quote(k, 60)); VT_CHECK(!r.error(), "a member after an error"); value(true); });
            if (!r.error()) log("}");
            break;
        default: r.error("unexpected"); break;
        }
    }
};

// The same over the reference reader.
struct RefWalk
{
    jr::Ref& r; Dice dice; Log log; unsigned plant;

    void value(bool mayFail)
    {
        if (mayFail && plant && !dice(plant)) { log("planted"); r.fail("planted"); return; }
        unsigned how = dice(10);
        (void) dice(4);
        if (how == 0) { r.skip(); if (!r.failed) log("skipped"); return; }
        r.peek();
        if (r.failed) return;
        switch (r.tok) {
        case jr::Ref::TNull: r.next(); log("null"); break;
        case jr::Ref::TBool: r.next(); log(r.val); break;
        case jr::Ref::TInt: { r.next(); int64_t n = 0; if (!jr::Ref::fitsInt(r.val, n)) r.fail("range"); else log(std::to_string(n)); break; }
        case jr::Ref::TFloat: { r.next(); double d = strtod(r.val.c_str(), nullptr); if (how != 1 && std::isinf(d)) r.fail("range"); else log(bits(d)); break; }
        case jr::Ref::TStr: r.next(); log(vt::quote(r.val, 60)); break;
        case jr::Ref::TArr: log("["); r.array([&] (size_t i) { log("i" + std::to_string(i)); value(true); return !r.failed; }); if (!r.failed) log("]"); break;
        case jr::Ref::TObj: log("{"); r.object([&] (const std::string& k) { log("k" + vt::quote(k, 60)); value(true); return !r.failed; }); if (!r.failed) log("}"); break;
        default: r.fail("token"); break;
        }
    }
};

void compare(vt::Case& c, const std::string& text, const jr::Opts& o, size_t documents, unsigned plant, uint64_t seed)
{
    jr::Ref ref(text, o); RefWalk want{ ref, Dice{ seed }, Log(), plant };
    for (size_t i = 0; i < documents && !ref.failed; ++i) { want.log("doc"); want.value(false); }
    std::istringstream ss(text); Reader r(ss, readerOptions(o)); Walk got{ r, Dice{ seed }, Log(), plant };
    for (size_t i = 0; i < documents && !r.error() && (r || !i); ++i) { got.log("doc"); got.value(false); }
    c.label(ref.failed ? (ref.why == "planted" ? "error from a callback" : "malformed") : "complete");
    if (ref.unspecified) { c.label("unspecified"); return; }
    auto& a = got.log.ev; auto& b = want.log.ev;
    // skipping nothing at all is no error, and where the text ends the reader may be done
    if (ref.failed && ref.why == "token" && ref.i >= text.size()) { while (a.size() > b.size() && (a.back() == "skipped" || a.back() == "doc")) a.pop_back(); }
    else VT_EQ(bool(r.error()), ref.failed, "error: " << (r.error() ? r.error().what() : "none") << " against " << ref.why << "\ngot  " << got.log.show() << "\nwant " << want.log.show());
    bool same = a == b;
    // the callback for a member that isn't there may or may not be called
    if (!same && ref.failed && a.size() + 1 == b.size() && (b.back()[0] == 'i' || b.back() == "doc") && std::equal(a.begin(), a.end(), b.begin())) same = true;
    // a number that ends the text may not be passed on, since nothing tells that it is whole
    if (!same && ref.failed && ref.i >= text.size() && a.size() < b.size() && a.size() + 2 >= b.size() && b[a.size()][0] == 'i' && std::equal(a.begin(), a.end(), b.begin())) same = true;
    VT_CHECK(same, "events\ngot  " << got.log.show() << "\nwant " << want.log.show());
    if (ref.why == "planted" && ref.i < text.size()) VT_EQ(std::string(r.error().what()).substr(std::string(r.error().what()).rfind(' ') + 1), std::string("planted"), "the error");
}

} // namespace

VT_PROP(documents, 50000, 2000000, "at least 8 values")
{
    vt::Gen& g = c.g;
    std::string text; size_t n = 1 + g.draw(3), values = 0; bool comments = g.chance(1, 4);
    for (size_t i = 0; i < n; ++i) {
        JV doc = g.coin() ? jr::genAny(g, 4) : jr::genDoc(g, *targets()[pickTarget(g)].shape, int(g.draw(3)), jr::DocStyle{ true, true, true, true });
        values += sizeOf(doc);
        text += jr::render(g, doc, g.coin(), comments, g.coin()) + " ";
    }
    c.nontrivial(values >= 8);
    VT_LOG(n << " documents " << vt::quote(text, 1200) << "\n");
    compare(c, text, jr::Opts{ comments, true, g.coin() }, n, g.chance(1, 3) ? 1 + unsigned(g.draw(20)) : 0, g.draw(1000000000));
}

VT_PROP(damaged, 60000, 2500000, "at least 10 bytes")
{
    vt::Gen& g = c.g;
    const Target& t = targets()[pickTarget(g)];
    std::string text = anyText(g, t, c); jr::Opts o = genOpts(g);
    c.nontrivial(text.size() >= 10);
    VT_LOG(optText(o) << " " << vt::quote(text, 1200) << "\n");
    compare(c, text, o, 1, g.chance(1, 4) ? 1 + unsigned(g.draw(20)) : 0, g.draw(1000000000));
}

// Each scalar function takes one value of its kind and refuses the others.
VT_PROP(scalars, 40000, 1500000, "the kinds differ, or a value follows")
{
    vt::Gen& g = c.g;
    JV a = jr::genScalar(g), b = jr::genScalar(g);
    std::string ta = jr::render(g, a, true, false, true), text = ta + " " + jr::render(g, b, true, false, true) + " ";
    std::istringstream ss(text); Reader r(ss);
    int fn = int(g.draw(5));
    VT_LOG(fn << " " << vt::quote(text, 400) << "\n");
    bool fits; JV got;
    if (g.coin()) r.peekToken();
    switch (fn) {
    case 0: json::parseNull(r); fits = a.k == JV::Null; break;
    case 1: got = JV::boolean(json::parseBool(r)); fits = a.k == JV::Bool; break;
    case 2: got = JV::integer(json::parseInt(r)); fits = a.k == JV::Int; break;
    case 3: got = JV::number(json::parseFloat(r)); fits = a.k == JV::Float || a.k == JV::Int; break;
    case 4: got = JV::str(json::parseString(r)); fits = a.k == JV::Str; break;
    default: json::skip(r); got = a; fits = true; break;
    }
    c.nontrivial(true); c.label(fits ? "fits" : "another kind");
    VT_EQ(!r.error(), fits, "accepted: " << (r.error() ? r.error().what() : ""));
    if (!fits) {
        // nothing else is read
        VT_EQ(json::parseInt(r), int64_t(0), "after an error"); VT_EQ(json::parseString(r), std::string(), "after an error"); VT_CHECK(!json::parseBool(r), "after an error");
        bool called = false;
        json::parseObject(r, [&] (const std::string&) { called = true; }); json::parseArray(r, [&] (size_t) { called = true; });
        VT_CHECK(!called, "a callback after an error");
        return;
    }
    if (fn == 3 && a.k == JV::Int) a = JV::number(double(a.i));
    auto d = jr::diff(got, a); VT_CHECK(d.empty(), "read " << d);
    JV rest = readEvents(r);
    VT_CHECK(!r.error(), "the next value: " << r.error().what());
    d = jr::diff(rest, b); VT_CHECK(d.empty(), "the next value: " << d);
    VT_CHECK(r.nextToken().type() == Token::EOS, "the end");
}

/* ------------------------------------------------------------------ printing */

namespace {

// What to print: elements of objects and arrays may be skipped.
struct Plan { JV v; std::vector<bool> skip; std::vector<Plan> sub; bool useSkip; int keys; int fail; };

Plan genPlan(vt::Gen& g, int depth)
{
    Plan p; p.useSkip = g.chance(2, 3); p.keys = int(g.draw(2)); p.fail = -1;
    int kind = depth <= 0 ? 0 : int(g.draw(2));
    if (kind == 0) { p.v = jr::genScalar(g); if (p.v.k == JV::Float) { char b[40]; snprintf(b, sizeof b, "%.12g", p.v.d); p.v = JV::number(strtod(b, nullptr)); } return p; }
    p.v = kind == 1 ? JV::array() : JV::object();
    size_t n = g.draw(4);
    std::set<std::string> seen;
    for (size_t i = 0; i < n; ++i) {
        std::string k = jr::genKey(g);
        if (kind == 2) { if (!seen.insert(k).second) continue; p.v.o.emplace_back(k, JV()); }
        else p.v.a.emplace_back();
        p.skip.push_back(p.useSkip && g.chance(1, 3)); p.sub.push_back(genPlan(g, depth - 1));
    }
    if (kind == 2 && p.keys == 1) {      // sets are sorted
        std::vector<size_t> order; for (size_t i = 0; i < p.v.o.size(); ++i) order.push_back(i);
        std::sort(order.begin(), order.end(), [&] (size_t x, size_t y) { return p.v.o[x].first < p.v.o[y].first; });
        Plan q = p; for (size_t i = 0; i < order.size(); ++i) { q.v.o[i] = p.v.o[order[i]]; q.skip[i] = p.skip[order[i]]; q.sub[i] = p.sub[order[i]]; } p = q;
    }
    return p;
}

JV meaning(const Plan& p)
{
    JV r = p.v;
    if (r.k == JV::Arr) { r.a.clear(); for (size_t i = 0; i < p.sub.size(); ++i) if (!p.skip[i]) r.a.push_back(meaning(p.sub[i])); }
    if (r.k == JV::Obj) { r.o.clear(); for (size_t i = 0; i < p.sub.size(); ++i) if (!p.skip[i]) r.o.emplace_back(p.v.o[i].first, meaning(p.sub[i])); }
    return r;
}

// The events that printing has to make, up to failAt of them; each printed element counts.
void events(const Plan& p, Log& log, long& left)
{
    if (p.v.k != JV::Arr && p.v.k != JV::Obj) return;
    for (size_t i = 0; i < p.sub.size(); ++i) {
        if (left < 0) return;
        if (p.skip[i]) continue;
        log(p.v.k == JV::Arr ? std::to_string(i) : vt::quote(p.v.o[i].first, 60));
        if (left-- == 0) return;
        events(p.sub[i], log, left);
    }
}

struct Printing
{
    Writer& w; Log log; long left; std::ostringstream* broken;

    void fail() { if (broken) broken->setstate(std::ios::badbit); else w.error("planted %d", 7); }
    bool enter(const std::string& s) { VT_CHECK(bool(w), "an element after the writer failed"); log(s); if (left-- == 0) { fail(); return false; } return true; }

    template<typename Keys> void object(const Plan& p, const Keys& keys)
    {
        size_t at = 0;
        auto index = [&] (const std::string& k) { for (size_t i = 0; i < p.v.o.size(); ++i) if (p.v.o[i].first == k) return i; VT_FAIL("a key that isn't one: " << k); };
        auto printFn = [&] (const std::string& k) { size_t i = index(k); VT_CHECK(i >= at, "order"); at = i + 1; if (enter(vt::quote(k, 60))) print(p.sub[i]); };
        if (p.useSkip) json::printObject(w, keys, printFn, [&] (const std::string& k) { return bool(p.skip[index(k)]); });
        else json::printObject(w, keys, printFn);
    }

    void print(const Plan& p)
    {
        switch (p.v.k) {
        case JV::Null: json::printNull(w); break;
        case JV::Bool: if (p.keys) json::printBool(w, p.v.b); else json::printBool(w, reflect::Value(p.v.b)); break;
        case JV::Int: if (p.keys) json::printInt(w, p.v.i); else json::printInt(w, reflect::Value(p.v.i)); break;
        case JV::Float: if (p.keys) json::printFloat(w, p.v.d); else json::printFloat(w, reflect::Value(p.v.d)); break;
        case JV::Str: if (p.keys) json::printString(w, p.v.s); else json::printString(w, reflect::Value(p.v.s)); break;
        case JV::Arr: {
            auto printFn = [&] (size_t i) { VT_CHECK(i < p.sub.size(), "index " << i); if (enter(std::to_string(i))) print(p.sub[i]); };
            if (p.useSkip) json::printArray(w, p.sub.size(), printFn, [&] (size_t i) { return bool(p.skip[i]); });
            else json::printArray(w, p.sub.size(), printFn);
            break; }
        default: {
            std::vector<std::string> keys; for (auto& x : p.v.o) keys.push_back(x.first);
            if (p.keys == 0) object(p, keys);
            else if (p.keys == 1) object(p, std::set<std::string>(keys.begin(), keys.end()));
            else object(p, std::list<std::string>(keys.begin(), keys.end()));
            break; }
        }
    }
};

} // namespace

VT_PROP(printing, 60000, 2500000, "at least 4 elements, some skipped")
{
    vt::Gen& g = c.g;
    Plan p = genPlan(g, 4);
    JV want = meaning(p);
    size_t skipped = 0; std::function<void(const Plan&)> count = [&] (const Plan& q) { for (bool b : q.skip) skipped += b; for (auto& s : q.sub) count(s); }; count(p);
    c.nontrivial(sizeOf(want) >= 4 && skipped);
    unsigned opt = unsigned(g.draw(15));
    VT_LOG(optText(opt) << " " << jr::show(want) << " skipped " << skipped << "\n");
    std::ostringstream ss; Writer w(ss, Writer::Options(opt));
    Printing run{ w, Log(), 1L << 40, nullptr }; run.print(p);
    VT_CHECK(!w.error(), "print: " << w.error().what());
    Log all; long left = 1L << 40; events(p, all, left);
    VT_CHECK(run.log.ev == all.ev, "callbacks\ngot  " << run.log.show() << "\nwant " << all.show());
    VT_LOG(vt::quote(ss.str(), 900) << "\n");
    const std::string printed = ss.str(); jr::Strict s(printed, true); JV doc;
    bool ok = s.document(doc); VT_CHECK(ok, "not well-formed: " << s.why);
    auto d = jr::denotes(doc, want); VT_CHECK(d.empty(), "printed " << d);
    if (opt & Writer::Pretty) {
        VT_CHECK(s.layout.empty(), "layout: " << s.layout);
        std::ostringstream s2; Writer w2(s2, Writer::Options(opt & ~Writer::Pretty)); Printing r2{ w2, Log(), 1L << 40, nullptr }; r2.print(p);
        VT_EQ(s2.str(), s.stripped, "plain and pretty");
    }
    else VT_EQ(s.spaces, size_t(0), "whitespace in a plain document");

    // and with a failure at one of the elements
    if (!all.ev.empty()) {
        size_t at = g.below(all.ev.size()); bool stream = g.coin();
        std::ostringstream s3; Writer w3(s3, Writer::Options(opt)); Printing r3{ w3, Log(), long(at), stream ? &s3 : nullptr }; r3.print(p);
        Log part; long l = long(at); events(p, part, l);
        VT_CHECK(r3.log.ev == part.ev, "callbacks up to a failure\ngot  " << r3.log.show() << "\nwant " << part.show());
        VT_CHECK(!w3, "the writer has failed");
        if (!stream) { VT_CHECK(w3.error(), "the error"); VT_EQ(std::string(w3.error().what()), std::string("planted 7"), "the error"); }
    }
}

// Fixed: c20673d, cf00238 (callbacks after an error, truncated containers).
VT_EXAMPLE(stops)
{
    std::istringstream ss("{\"a\":1,\"b\":2,\"c\":3}"); Reader r(ss); std::string seen;
    json::parseObject(r, [&] (const std::string& k) { seen += k; json::parseInt(r); if (seen == "ab") r.error("stop"); });
    VT_EQ(seen, std::string("ab"), "keys"); VT_CHECK(r.error(), "error");
    std::istringstream s2("[1,2"); Reader r2(s2); size_t n = 0; json::parseArray(r2, [&] (size_t) { ++n; json::parseInt(r2); });
    VT_EQ(n, size_t(2), "items"); VT_CHECK(r2.error(), "truncated");
}

// The layout at depths that random documents don't reach; fixed: 04ec28c.
VT_EXAMPLE(deep_layout)
{
    const std::vector<std::string> keys{ "a", "k" };
    for (size_t depth : { 1, 31, 32, 33, 255, 256, 257, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 2050 }) {
        for (int how = 0; how < (depth < 2000 ? 4 : 1); ++how) {
            bool pretty = !(how & 1), list = !(how & 2);
            std::ostringstream ss; Writer w(ss, pretty ? Writer::Pretty : Writer::Default);
            std::function<void(size_t)> print = [&] (size_t d) {
                if (!d) json::printInt(w, 7);
                else if (list) json::printArray(w, 2, [&] (size_t i) { if (i) print(d - 1); else json::printInt(w, 0); });
                else json::printObject(w, keys, [&] (const std::string& k) { if (k == "k") print(d - 1); else json::printInt(w, 0); });
            };
            print(depth);
            auto line = [&] (size_t n) { return pretty ? "\n" + std::string(n * 4, ' ') : std::string(); };
            auto key = [&] (const char* k) { return list ? std::string() : '"' + std::string(k) + (pretty ? "\": " : "\":"); };
            std::string want;
            for (size_t d = 1; d <= depth; ++d) want += (list ? "[" : "{") + line(d) + key("a") + "0," + line(d) + key("k");
            want += "7";
            for (size_t d = depth; d--;) want += line(d) + (list ? "]" : "}");
            VT_CHECK(!w.error(), "depth " << depth);
            VT_CHECK(ss.str() == want, "the text at depth " << depth << (pretty ? ", pretty" : "") << (list ? ", arrays" : ", objects") << ": " << vt::quote(ss.str(), 200));
        }
    }
}
