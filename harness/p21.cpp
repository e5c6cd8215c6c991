// P21: strings carry valid UTF-8 exactly, and invalid UTF-8 is never passed on.
#include "json_run.h"
#include "json_strict.h"
#include "types/primitives.h"
#include "types/std/string.h"

using namespace jz;
using reflect::json::Reader;
using reflect::json::Writer;

namespace {

struct Written { std::string text; bool failed; };
Written write(const std::string& s, unsigned w)
{
    std::ostringstream ss; Writer writer(ss, Writer::Options(w));
    reflect::json::printString(writer, s);
    return Written{ ss.str(), bool(writer.error()) };
}

struct ReadBack { std::string s; bool failed; std::string error; };
ReadBack read(const std::string& text, const jr::Opts& o)
{
    std::istringstream ss(text); Reader r(ss, readerOptions(o));
    ReadBack b; b.s = reflect::json::parseString(r); b.failed = bool(r.error()); if (b.failed) b.error = r.error().what();
    return b;
}

// The length of the sequence at i, 0 when it isn't one. Code points past U+10FFFF and surrogates: odd.
size_t sequence(const std::string& s, size_t i, bool& odd)
{
    unsigned char c = s[i];
    if (c < 0x80) return 1;
    size_t n = c >= 0xC0 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF7 ? 4 : 0;
    if (!n || i + n > s.size()) return 0;
    uint32_t code = c & (0xFF >> (n + 1));
    for (size_t k = 1; k < n; ++k) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) return 0; code = code << 6 | (d & 0x3F); }
    if (code <= (n == 2 ? 0x7Fu : n == 3 ? 0x7FFu : 0xFFFFu)) return 0;
    if (code > 0x10FFFF || (code >= 0xD800 && code <= 0xDFFF)) odd = true;
    return n;
}

enum Kind { Valid, Invalid, Odd };
Kind classify(const std::string& s)
{
    bool odd = false;
    for (size_t i = 0; i < s.size();) { size_t n = sequence(s, i, odd); if (!n) return Invalid; i += n; }
    return odd ? Odd : Valid;
}

bool controls(const std::string& s) { for (unsigned char c : s) if (c < 0x20 && !strchr("\b\f\n\r\t", c)) return true; return false; }

void carries(const std::string& s, unsigned w, const jr::Opts& o)
{
    Written p = write(s, w);
    VT_CHECK(!p.failed, "a valid string is refused: " << vt::quote(s, 200));
    if (w & Writer::EscapeUnicode) for (unsigned char c : p.text) VT_CHECK(c < 0x80, "escaped text isn't ASCII: " << vt::quote(p.text, 300));
    jr::Strict strict(p.text); JV doc;
    bool ok = strict.document(doc);
    VT_CHECK(ok && doc.k == JV::Str, "not a json string: " << vt::quote(p.text, 300) << " " << strict.why);
    VT_CHECK(doc.s == s, "the text denotes " << vt::quote(doc.s, 200) << " rather than " << vt::quote(s, 200) << ": " << vt::quote(p.text, 300));
    if (!(w & Writer::EscapeUnicode)) for (size_t i = 0; i + 1 < p.text.size(); ++i) if (p.text[i] == '\\') { VT_CHECK(p.text[i + 1] != 'u' || controls(s), "escaped although not asked to"); ++i; }
    if (!o.unescape && p.text.find("\\u") != std::string::npos) return;
    ReadBack r = read(p.text, o);
    VT_CHECK(!r.failed, "read: " << r.error << " " << vt::quote(p.text, 300));
    VT_CHECK(r.s == s, "read " << vt::quote(r.s, 200) << " rather than " << vt::quote(s, 200) << " from " << vt::quote(p.text, 300));
}

std::string onlyAscii(vt::Gen& g) { std::string s; while (g.more(3)) s += char(g.draw(127)); return s; }

// Any bytes, mostly near valid UTF-8.
std::string bytes(vt::Gen& g)
{
    std::string s;
    while (g.more(4)) switch (g.draw(5)) {
    case 0: s += onlyAscii(g); break;
    case 1: vt::Gen::utf8(s, g.codepoint()); break;
    case 2: { std::string x; vt::Gen::utf8(x, g.codepoint()); size_t at = g.below(x.size()); if (g.coin()) x.erase(at, 1); else x[at] = char(g.draw(255)); s += x; break; }
    case 3: {      // any lead with any number of continuations
        s += char(0x80 + g.draw(0x7F)); size_t n = g.draw(4); for (size_t i = 0; i < n; ++i) s += char(0x80 + g.draw(0x3F)); break; }
    case 4: {      // a code point in more bytes than it needs, or past the end
        uint32_t c = uint32_t(g.draw(g.coin() ? 0x7FF : 0x1FFFFF)); size_t n = 2 + g.draw(2);
        if (n == 2) { s += char(0xC0 | ((c >> 6) & 0x1F)); s += char(0x80 | (c & 0x3F)); }
        if (n == 3) { s += char(0xE0 | ((c >> 12) & 0x0F)); s += char(0x80 | ((c >> 6) & 0x3F)); s += char(0x80 | (c & 0x3F)); }
        if (n == 4) { s += char(0xF0 | ((c >> 18) & 0x07)); s += char(0x80 | ((c >> 12) & 0x3F)); s += char(0x80 | ((c >> 6) & 0x3F)); s += char(0x80 | (c & 0x3F)); }
        break; }
    default: s += char(g.draw(255)); break;
    }
    return s;
}

// As a literal, with what must be escaped escaped and all other bytes as they are.
std::string literal(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) switch (c) {
    case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\n': r += "\\n"; break;
    default: r += c;
    }
    return r + "\"";
}

void bothSides(vt::Case* c, const std::string& s, bool escape, bool unescape)
{
    Kind k = classify(s);
    if (c) c->label(k == Valid ? "valid" : k == Invalid ? "invalid" : "odd");
    // unchecked, everything goes through as it is
    Written p = write(s, Writer::None);
    VT_CHECK(!p.failed, "without validation the writer refuses");
    ReadBack r = read(p.text, jr::Opts{ false, true, false });
    VT_CHECK(!r.failed, "without validation the reader refuses: " << r.error << " " << vt::quote(p.text, 300));
    VT_CHECK(r.s == s, "read " << vt::quote(r.s, 300) << " from " << vt::quote(p.text, 300));
    if (k == Odd) return;      // left open
    Written v = write(s, (escape ? Writer::EscapeUnicode : 0) | Writer::ValidateUnicode);
    VT_EQ(v.failed, k == Invalid, "the validating writer fails for " << vt::quote(s, 300));
    v = write(s, Writer::EscapeUnicode);
    VT_EQ(v.failed, k == Invalid, "the escaping writer fails for " << vt::quote(s, 300));
    ReadBack q = read(literal(s), jr::Opts{ false, unescape, true });
    VT_EQ(q.failed, k == Invalid, "the validating reader fails for " << vt::quote(literal(s), 300) << " " << q.error);
    if (k == Valid) VT_CHECK(q.s == s, "read " << vt::quote(q.s, 300));
}

} // namespace

VT_PROP(carries, 300000, 4000000, "something other than letters")
{
    vt::Gen& g = c.g;
    std::string s = g.utf8String();
    while (g.chance(1, 3)) vt::Gen::utf8(s, g.codepoint());
    bool plain = true; for (unsigned char x : s) if (!isalpha(x)) plain = false;
    c.nontrivial(!plain);
    unsigned w = unsigned(g.draw(15)); jr::Opts o{ g.coin(), g.chance(3, 4), g.coin() };
    VT_LOG(optText(w) << " " << optText(o) << " " << vt::quote(s, 1000) << "\n");
    carries(s, w, o);
}

// Each code point, alone and among others: 256 of them per case.
VT_PROP(every_code_point, 4352, 43520, "every case")
{
    vt::Gen& g = c.g;
    // the first 4352 cases of a run visit every block of 256 code points once
    uint32_t block = uint32_t(g.each(4352));
    c.nontrivial();
    unsigned w = unsigned(g.draw(15)); jr::Opts o{ g.coin(), true, g.coin() };
    VT_LOG("block " << block << " " << optText(w) << " " << optText(o) << "\n");
    std::string all;
    for (uint32_t i = 0; i < 256; ++i) {
        uint32_t code = block * 256 + i;
        if (code >= 0xD800 && code <= 0xDFFF) continue;
        std::string s; vt::Gen::utf8(s, code); all += s;
        carries(s, w, o);
    }
    carries(all, w, o);
    carries("a" + all + "\"", Writer::EscapeUnicode, o);
    carries("a" + all + "\"", Writer::ValidateUnicode, o);
}

// Every way to spell a character.
VT_PROP(escape_forms, 200000, 3000000, "a code point above U+007F")
{
    vt::Gen& g = c.g;
    std::string want, text = "\""; bool above = false;
    do {
        uint32_t code = g.chance(1, 3) ? uint32_t(g.draw(127)) : g.codepoint();
        vt::Gen::utf8(want, code);
        above = above || code > 0x7F;
        const char* shorts = "\"\"\\\\//b\bf\fn\nr\rt\t"; char e = 0;
        for (const char* p = shorts; *p; p += 2) if (p[1] == char(code) && code < 0x80) e = p[0];
        auto u = [&] (unsigned x) { char b[8]; snprintf(b, sizeof b, "%04x", x); text += "\\u"; for (char* p = b; *p; ++p) text += g.coin() ? char(toupper(*p)) : *p; };
        switch (g.draw(2)) {
        case 0: if (e) { text += '\\'; text += e; break; }      // falls through
        case 1: if (code != '"' && code != '\\' && code != '\n') { vt::Gen::utf8(text, code); break; }      // falls through
        default: if (code > 0xFFFF) { u(0xD800 + ((code - 0x10000) >> 10)); u(0xDC00 + (code & 0x3FF)); } else u(code); break;
        }
    } while (g.more(3));
    text += "\"";
    c.nontrivial(above);
    jr::Opts o{ g.coin(), true, g.coin() };
    VT_LOG(optText(o) << " " << vt::quote(text, 1000) << "\n");
    ReadBack r = read(text, o);
    VT_CHECK(!r.failed, "read: " << r.error);
    VT_CHECK(r.s == want, "read " << vt::quote(r.s, 300) << " rather than " << vt::quote(want, 300));
    // left as they are when they aren't to be decoded
    ReadBack k = read(text, jr::Opts{ false, false, o.validate });
    VT_CHECK(!k.failed, "read without decoding: " << k.error);
    std::string raw;
    for (size_t i = 1; i + 1 < text.size(); ++i) {
        if (text[i] != '\\') { raw += text[i]; continue; }
        char x = text[++i];
        switch (x) { case 'u': raw += "\\u"; break; case 'b': raw += '\b'; break; case 'f': raw += '\f'; break; case 'n': raw += '\n'; break; case 'r': raw += '\r'; break; case 't': raw += '\t'; break; default: raw += x; }
    }
    VT_CHECK(k.s == raw, "read without decoding " << vt::quote(k.s, 300) << " rather than " << vt::quote(raw, 300));
}

VT_PROP(bad_escapes, 100000, 1500000, "every case")
{
    vt::Gen& g = c.g;
    std::string text = "\"" + g.word(1); bool bad = true; bool unescape = g.chance(3, 4);
    auto u = [&] (uint32_t x) { char b[16]; snprintf(b, sizeof b, "\\u%04x", x); text += b; };
    switch (g.draw(5)) {
    case 0: { char x = char(g.draw(255)); if (strchr("\"\\/bfnrtu", x) && x) x = 'x'; text += '\\'; text += x; c.label("unknown"); break; }
    case 1: { text += "\\u"; for (size_t n = g.draw(3); n > 0; --n) text += "0123456789abcdefABCDEF"[g.draw(21)]; c.label("short"); break; }      // followed by the quote
    case 2: { std::string h; for (int i = 0; i < 4; ++i) h += "0123456789abcdefABCDEF"[g.draw(21)]; char x = char(g.draw(255)); if (jr::Ref::hex((unsigned char)x) >= 0) x = 'g'; h[g.below(4)] = x; text += "\\u" + h; c.label("not hex"); break; }
    case 3: u(uint32_t(g.range(0xDC00, 0xDFFF))); c.label("low surrogate"); bad = unescape; break;
    case 4: u(uint32_t(g.range(0xD800, 0xDBFF))); text += g.oneOf<const char*>({ "", "x", "\\n", "u", "\\\\", "\xc3\xa9" }); c.label("high surrogate alone"); bad = unescape; break;
    default: u(uint32_t(g.range(0xD800, 0xDBFF))); u(uint32_t(g.coin() ? g.draw(0xDBFF) : g.range(0xE000, 0xFFFF))); c.label("high surrogate and another"); bad = unescape; break;
    }
    text += g.coin() ? "" : "z" + g.word(1); text += "\"";
    c.nontrivial();
    VT_LOG((unescape ? "unescape " : "") << vt::quote(text, 500) << "\n");
    jr::Opts o{ false, unescape, g.coin() };
    ReadBack r = read(text, o);
    VT_EQ(r.failed, bad, "rejected");
}

// Every code unit escaped, alone and behind high surrogates; every byte in place of each hex digit.
VT_PROP(all_escapes, 256, 2560, "every case")
{
    c.nontrivial();
    unsigned i = unsigned(c.g.each(256));
    VT_LOG("units " << i << "00 to " << i << "ff\n");
    auto esc = [] (uint32_t x) { char b[16]; snprintf(b, sizeof b, "\\u%04X", x); return std::string(b); };
    auto check = [] (const std::string& body, bool good, const std::string& want) {
        ReadBack r = read("\"" + body + "\"", jr::Opts{ false, true, true });
        VT_EQ(r.failed, !good, body << ": " << r.error);
        if (good) VT_CHECK(r.s == want, body << " read as " << vt::quote(r.s, 100));
        ReadBack k = read("\"" + body + "\"", jr::Opts{ false, false, true });
        VT_CHECK(!k.failed && k.s == body, body << " passed on as " << vt::quote(k.s, 100));
    };
    for (uint32_t x = i << 8; x < (i + 1) << 8; ++x) {
        std::string w; bool low = x >= 0xDC00 && x <= 0xDFFF, high = x >= 0xD800 && x <= 0xDBFF;
        if (!low && !high) vt::Gen::utf8(w, x);
        check(esc(x), !low && !high, w);
        for (uint32_t h : { 0xD800, 0xD9AB, 0xDBFF }) {
            std::string p; if (low) vt::Gen::utf8(p, 0x10000 + ((h - 0xD800) << 10) + (x - 0xDC00));
            check(esc(h) + esc(x), low, p);
        }
        // a first unit next to the border of the high ones
        for (uint32_t h : { 0xDC00, 0xDFFF }) check(esc(h) + esc(x), false, "");
        for (uint32_t h : { 0xD7FF, 0xE000 }) { std::string p; vt::Gen::utf8(p, h); check(esc(h) + esc(x), !low && !high, p + w); }
        // 256 bytes in each of the places of the digits of a few units
        if (i < 8) {
            std::string e = esc(i < 4 ? 0x00e9 : 0xdead); char b = char(x & 0xFF); bool second = i >= 4;
            e[2 + (i & 3)] = b;
            if (jr::Ref::hex((unsigned char) b) < 0) {
                ReadBack r = read("\"" + (second ? esc(0xD800) : std::string()) + e + "\"", jr::Opts{ false, true, true });
                VT_CHECK(r.failed, vt::quote(e, 20) << " accepted");
            }
        }
    }
}

VT_PROP(validation, 300000, 5000000, "not valid UTF-8")
{
    vt::Gen& g = c.g;
    std::string s = bytes(g);
    c.nontrivial(classify(s) != Valid);
    VT_LOG(vt::quote(s, 1000) << "\n");
    bothSides(&c, s, g.coin(), g.coin());
}

// Every sequence of two bytes, and every lead followed by bytes at the borders of the classes.
VT_PROP(all_sequences, 512, 5120, "every case")
{
    c.nontrivial();
    unsigned i = unsigned(c.g.each(512)), lead = i & 0xFF;
    const unsigned char border[] = { 0x00, 0x22, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xF0, 0xF4, 0xFF };
    VT_LOG("lead " << lead << (i >> 8 ? " borders" : " pairs") << "\n");
    if (!(i >> 8)) for (unsigned b = 0; b < 256; ++b) { std::string s; s += char(lead); s += char(b); bothSides(nullptr, s, b & 1, b & 2); }
    else for (unsigned char b : border) for (unsigned char d : border) {
        std::string s; s += char(lead); s += char(b); s += char(d); bothSides(nullptr, s, b & 1, true);
        if (lead >= 0xE0) for (unsigned char e : border) bothSides(nullptr, s + char(e), false, true);
    }
}

// Fixed: surrogates were written and read as nonsense (2976935), overlong and invalid sequences passed the
// writer (6a9a9c6), headers shifted out of bounds in the reader (f25721e).
VT_EXAMPLE(emoji)
{
    VT_EQ(write("\xf0\x9f\x98\x80", Writer::EscapeUnicode).text, std::string("\"\\ud83d\\ude00\""), "written");
    VT_EQ(read("\"\\uD83D\\uDE00\"", jr::Opts{ false, true, true }).s, std::string("\xf0\x9f\x98\x80"), "read");
    VT_CHECK(read("\"\\uD83D\"", jr::Opts{ false, true, true }).failed, "half of one");
}
VT_EXAMPLE(overlong) { for (auto s : { "\xc0\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xff", "\x80", "\xc3", "\xf8\x88\x80\x80\x80" }) bothSides(nullptr, s, true, true), bothSides(nullptr, s, false, true); }
