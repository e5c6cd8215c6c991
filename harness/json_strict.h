/* json_strict.h - an independent reader for what the library prints: RFC 8259, nothing else. */
#pragma once

#include "json_ref.h"

namespace jr {

// Numbers keep their spelling in .text. Ok only when the whole text is one document.
struct Strict
{
    const std::string& t; size_t i; std::string why; bool rawControl;      // a control character in a string that isn't escaped
    bool rawBytes;                 // strings may hold any bytes above 0x7F
    std::string stripped;          // the text without the whitespace between tokens
    size_t spaces;                 // how many such characters there were
    std::string layout;            // what is wrong with the indentation
    struct Open { bool multi; bool any; }; std::vector<Open> open;

    Strict(const std::string& t, bool rawBytes = false) : t(t), i(0), rawControl(false), rawBytes(rawBytes), spaces(0) {}

    bool fail(const std::string& w) { if (why.empty()) why = w + " at " + std::to_string(i); return false; }

    size_t lines() const { size_t n = 0; for (auto& o : open) n += o.multi; return n; }

    // Whitespace between tokens: where it stands is judged by the token that follows.
    std::string gap()
    {
        size_t from = i;
        while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i;
        spaces += i - from;
        return t.substr(from, i - from);
    }
    void want(const std::string& got, const std::string& expect, const char* where)
    { if (got != expect && layout.empty()) layout = std::string(where) + " at " + std::to_string(i) + ": whitespace " + vt::quote(got, 60) + " rather than " + vt::quote(expect, 60); }
    std::string fresh() const { return "\n" + std::string(4 * lines(), ' '); }
    char take() { stripped += t[i]; return t[i++]; }

    bool string(std::string& out)
    {
        if (i >= t.size() || t[i] != '"') return fail("a string expected");
        size_t from = i++;
        for (;;) {
            if (i >= t.size()) return fail("unterminated string");
            unsigned char c = t[i++];
            if (c == '"') break;
            if (c < 0x20) rawControl = true;
            if (c == '\\') {
                if (i >= t.size()) return fail("unterminated escape");
                switch (t[i++]) {
                case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break;
                case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
                case 'u': {
                    uint32_t u; if (!hex4(u)) return false;
                    if (u >= 0xDC00 && u <= 0xDFFF) return fail("lone surrogate");
                    if (u >= 0xD800 && u <= 0xDBFF) {
                        uint32_t low;
                        if (t.compare(i, 2, "\\u")) return fail("lone surrogate");
                        i += 2; if (!hex4(low)) return false;
                        if (low < 0xDC00 || low > 0xDFFF) return fail("lone surrogate");
                        u = 0x10000 + ((u - 0xD800) << 10) + (low - 0xDC00);
                    }
                    vt::Gen::utf8(out, u); break; }
                default: return fail("bad escape");
                }
                continue;
            }
            if (c >= 0x80 && !rawBytes) {
                size_t n = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0;
                if (!n || i + n > t.size()) return fail("bad UTF-8");
                out += char(c);
                for (; n; --n) { if ((t[i] & 0xC0) != 0x80) return fail("bad UTF-8"); out += t[i++]; }
                continue;
            }
            out += char(c);
        }
        stripped += t.substr(from, i - from);
        return true;
    }

    bool hex4(uint32_t& u)
    {
        u = 0;
        if (i + 4 > t.size()) return fail("short \\u");
        for (int k = 0; k < 4; ++k) { int h = Ref::hex((unsigned char)t[i++]); if (h < 0) return fail("bad \\u"); u = u * 16 + h; }
        return true;
    }

    bool number(JV& v)
    {
        size_t from = i; bool real = false;
        auto digit = [&] { return i < t.size() && t[i] >= '0' && t[i] <= '9'; };
        if (i < t.size() && t[i] == '-') ++i;
        if (!digit()) return fail("a value expected");
        if (t[i] == '0') ++i; else while (digit()) ++i;
        if (digit()) return fail("leading zero");
        if (i < t.size() && t[i] == '.') { real = true; ++i; if (!digit()) return fail("digits expected"); while (digit()) ++i; }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { real = true; ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; if (!digit()) return fail("digits expected"); while (digit()) ++i; }
        v = JV(); v.text = t.substr(from, i - from);
        v.k = real ? JV::Float : JV::Int; v.d = strtod(v.text.c_str(), nullptr);
        if (!real) v.i = strtoll(v.text.c_str(), nullptr, 10);
        stripped += v.text;
        return true;
    }

    bool value(JV& v)
    {
        if (i >= t.size()) return fail("a value expected");
        char c = t[i];
        if (c == '"') { v = JV::str(""); return string(v.s); }
        if (c != '{' && c != '[') {
            for (const char* w : { "null", "true", "false" })
                if (!t.compare(i, strlen(w), w)) { stripped += w; i += strlen(w); v = *w == 'n' ? JV() : JV::boolean(*w == 't'); return true; }
            return number(v);
        }
        bool obj = c == '{'; char end = obj ? '}' : ']';
        v = obj ? JV::object() : JV::array();
        take();
        std::string g = gap();
        bool multi = !g.empty() && g[0] == '\n';
        open.push_back(Open{ multi, false });
        if (i < t.size() && t[i] == end) {     // empty; what was left out may still have given it lines
            if (multi) { size_t p = g.find('\n', 1); std::string first = g.substr(0, p), second = p == std::string::npos ? "" : g.substr(p); want(first, fresh(), "start"); open.pop_back(); want(second, fresh(), "end"); }
            else { open.pop_back(); if (g != "" && g != "  ") want(g, "  ", "empty"); }
            take();
            return true;
        }
        if (multi) want(g, fresh(), "start"); else if (g != "") want(g, " ", "start");
        bool pretty = !g.empty();
        for (;;) {
            JV item; std::string key;
            if (obj) {
                if (!string(key)) return false;
                if (v.at(key)) return fail("repeated key " + vt::quote(key, 60));
                g = gap(); want(g, "", "before the colon");
                if (i >= t.size() || t[i] != ':') return fail("a colon expected");
                take();
                g = gap(); want(g, pretty ? " " : "", "after the colon");
            }
            if (!value(item)) return false;
            if (obj) v.o.emplace_back(key, std::move(item)); else v.a.push_back(std::move(item));
            g = gap();
            if (i >= t.size()) return fail("the end of a container expected");
            if (t[i] == ',') {
                want(g, "", "before the comma"); take();
                g = gap(); want(g, pretty ? fresh() : "", "after the comma");
                continue;
            }
            if (t[i] != end) return fail("a separator or the end of a container expected");
            open.pop_back();
            if (multi) want(g, fresh(), "end"); else want(g, pretty ? " " : "", "end");
            take();
            return true;
        }
    }

    bool document(JV& v)
    {
        if (!value(v)) return false;
        return i == t.size() || fail("something follows the value");
    }
};

// Whether a document that was read denotes what was expected.
inline std::string denotes(const JV& got, const JV& want, const std::string& path = "")
{
    auto bad = [&] { return (path.empty() ? "." : path) + ": got " + (got.text.empty() ? show(got, 200) : got.text) + " expected " + show(want, 200); };
    switch (want.k) {
    case JV::Int: return got.k == JV::Int && got.text == std::to_string(want.i) ? "" : bad();
    case JV::Float:
        if (got.k != JV::Int && got.k != JV::Float) return bad();
        if (got.d == want.d || std::fabs(got.d - want.d) <= 5.0001e-12 * std::fabs(want.d)) return "";
        if (std::fabs(want.d) < 1e-300 && std::fabs(got.d - want.d) <= 1e-311) return "";
        return bad();
    case JV::Arr:
        if (got.k != JV::Arr || got.a.size() != want.a.size()) return bad();
        for (size_t i = 0; i < got.a.size(); ++i) { auto r = denotes(got.a[i], want.a[i], path + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
        return "";
    case JV::Obj:
        if (got.k != JV::Obj || got.o.size() != want.o.size()) return bad();
        for (auto& x : want.o) { const JV* g = got.at(x.first); if (!g) return path + ": no key " + vt::quote(x.first, 60); auto r = denotes(*g, x.second, path + "." + x.first); if (!r.empty()) return r; }
        return "";
    default: return diff(got, want);
    }
}

} // namespace jr
