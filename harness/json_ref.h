/* json_ref.h - documents, shapes, and a reference reader for json.

   A document is a JV. A Shape describes a reflected type as json sees it, and the content of an object of
   that type is a JV as well (its state). Ref reads text into a state and predicts whether and where reading
   fails; apply() gives the state that a document denotes, without text.
*/
#pragma once

#include "vt.h"

#include <cmath>
#include <memory>

namespace jr {

/* ------------------------------------------------------------------ documents and states */

struct JV
{
    enum K { Null, Bool, Int, Float, Str, Arr, Obj, Ptr };
    K k; bool b; int64_t i; double d; std::string s;
    std::vector<JV> a;                                   // Arr; Ptr: the pointee
    std::vector<std::pair<std::string, JV>> o;           // Obj, in order
    std::string text;                                    // how a number is spelled, when it isn't up to the renderer

    JV() : k(Null), b(false), i(0), d(0) {}
    static JV boolean(bool v) { JV j; j.k = Bool; j.b = v; return j; }
    static JV integer(int64_t v) { JV j; j.k = Int; j.i = v; return j; }
    static JV number(double v) { JV j; j.k = Float; j.d = v; return j; }
    static JV str(std::string v) { JV j; j.k = Str; j.s = std::move(v); return j; }
    static JV array() { JV j; j.k = Arr; return j; }
    static JV object() { JV j; j.k = Obj; return j; }
    static JV pointer(JV to) { JV j; j.k = Ptr; j.a.push_back(std::move(to)); return j; }
    JV* at(const std::string& key) { for (auto& x : o) if (x.first == key) return &x.second; return nullptr; }
    const JV* at(const std::string& key) const { for (auto& x : o) if (x.first == key) return &x.second; return nullptr; }
};

inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }

inline void show(std::string& r, const JV& v, size_t max)
{
    if (r.size() > max) { if (r.compare(r.size() - 3, 3, "...")) r += "..."; return; }
    switch (v.k) {
    case JV::Null: r += "null"; break;
    case JV::Bool: r += v.b ? "true" : "false"; break;
    case JV::Int: r += std::to_string(v.i); break;
    case JV::Float: r += "f" + num(v.d); break;
    case JV::Str: r += vt::quote(v.s, 80); break;
    case JV::Arr: r += "["; for (size_t i = 0; i < v.a.size(); ++i) { if (i) r += ","; show(r, v.a[i], max); } r += "]"; break;
    case JV::Ptr: r += "&"; show(r, v.a[0], max); break;
    case JV::Obj: r += "{"; for (size_t i = 0; i < v.o.size(); ++i) { if (i) r += ","; r += vt::quote(v.o[i].first, 40) + ":"; show(r, v.o[i].second, max); } r += "}"; break;
    }
}
inline std::string show(const JV& v, size_t max = 900) { std::string r; show(r, v, max); return r; }

// Where two states differ; empty when they don't. approx: doubles only to 12 significant digits.
inline std::string diff(const JV& got, const JV& want, bool approx = false, const std::string& path = "")
{
    auto bad = [&] { return (path.empty() ? "." : path) + ": got " + show(got, 200) + " expected " + show(want, 200); };
    if (got.k != want.k) return bad();
    switch (got.k) {
    case JV::Null: return "";
    case JV::Bool: return got.b == want.b ? "" : bad();
    case JV::Int: return got.i == want.i ? "" : bad();
    case JV::Float: {
        if (memcmp(&got.d, &want.d, sizeof got.d) == 0) return "";
        if (approx && std::fabs(got.d - want.d) <= 5.0001e-12 * std::fabs(want.d)) return "";
        if (approx && std::fabs(want.d) < 1e-300 && std::fabs(got.d - want.d) <= 1e-311) return "";
        return bad(); }
    case JV::Str: return got.s == want.s ? "" : bad();
    case JV::Ptr: return diff(got.a[0], want.a[0], approx, path + "*");
    case JV::Arr:
        if (got.a.size() != want.a.size()) return bad();
        for (size_t i = 0; i < got.a.size(); ++i) { auto r = diff(got.a[i], want.a[i], approx, path + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
        return "";
    case JV::Obj:      // order of keys doesn't matter
        if (got.o.size() != want.o.size()) return bad();
        for (auto& x : want.o) {
            const JV* g = got.at(x.first);
            if (!g) return bad();
            auto r = diff(*g, x.second, approx, path + "." + x.first); if (!r.empty()) return r;
        }
        return "";
    }
    return bad();
}

/* ------------------------------------------------------------------ shapes */

struct Shape;
struct ShapeField { std::string name, key; bool skip, skipEmpty; const Shape* shape; JV initial; };

struct Shape
{
    enum K { Bool, Int, Float, Str, Ptr, Arr, Map, Obj, CustomStr, CustomArr, Any };
    K k; const Shape* inner; std::vector<ShapeField> fields; JV initial; std::string name;
    bool ready;
    Shape() : k(Any), inner(nullptr), ready(false) {}
    const ShapeField* byKey(const std::string& key) const
    { for (auto& f : fields) if (!f.skip && f.key == key) return &f; return nullptr; }
};

// The content of an object that was never touched: pointers are null, containers empty.
inline JV initial(const Shape& s) { return s.initial; }

// The text of a CustomStr is "a/b", its state that string.
inline bool customOk(const std::string& s)
{
    size_t p = s.find('/');
    if (p == std::string::npos || p == 0 || p + 1 == s.size() || s.size() > 20) return false;
    for (size_t i = 0; i < s.size(); ++i) if (i != p && (s[i] < '0' || s[i] > '9')) return false;
    // without leading zeros, so that the state is the text
    return !(s[0] == '0' && p > 1) && !(s[p + 1] == '0' && p + 2 < s.size()) && p < 9 && s.size() - p < 10;
}

inline bool isEmpty(const Shape& s, const JV& v)
{
    switch (s.k) {
    case Shape::Int: return v.i == 0;
    case Shape::Float: return v.d == 0;
    case Shape::Str: return v.s.empty();
    case Shape::Arr: return v.a.empty();
    case Shape::Map: return v.o.empty();
    case Shape::Ptr: return v.k == JV::Null || isEmpty(*s.inner, v.a[0]);
    case Shape::Any:
        switch (v.k) {
        case JV::Null: return true;
        case JV::Int: return v.i == 0;
        case JV::Float: return v.d == 0;
        case JV::Str: return v.s.empty();
        case JV::Arr: return v.a.empty();
        case JV::Obj: return v.o.empty();
        default: return false;
        }
    default: return false;
    }
}

// The document that an object in this state denotes.
inline JV denote(const Shape& s, const JV& v, bool compact)
{
    switch (s.k) {
    case Shape::Ptr: return v.k == JV::Null ? JV() : denote(*s.inner, v.a[0], compact);
    case Shape::Arr: { JV r = JV::array(); for (auto& x : v.a) r.a.push_back(denote(*s.inner, x, compact)); return r; }
    case Shape::Map: { JV r = JV::object(); for (auto& x : v.o) r.o.emplace_back(x.first, denote(*s.inner, x.second, compact)); return r; }
    case Shape::Obj: {
        JV r = JV::object();
        for (auto& f : s.fields) {
            if (f.skip) continue;
            const JV& x = *v.at(f.name);
            if ((compact || f.skipEmpty) && isEmpty(*f.shape, x)) continue;
            r.o.emplace_back(f.key, denote(*f.shape, x, compact));
        }
        return r; }
    default: return v;
    }
}

// The state that comes back when an object in this state is printed and read again: what isn't printed is
// as in a new object, doubles have the 12 digits that are printed, and integral dynamic ones become integers.
inline JV restored(const Shape& s, const JV& v, bool compact)
{
    switch (s.k) {
    case Shape::Ptr: return v.k == JV::Null ? JV() : JV::pointer(restored(*s.inner, v.a[0], compact));
    case Shape::Arr: { JV r = JV::array(); for (auto& x : v.a) r.a.push_back(restored(*s.inner, x, compact)); return r; }
    case Shape::Map: { JV r = JV::object(); for (auto& x : v.o) r.o.emplace_back(x.first, restored(*s.inner, x.second, compact)); return r; }
    case Shape::Obj: {
        JV r = JV::object();
        for (auto& f : s.fields) {
            const JV& x = *v.at(f.name);
            bool out = f.skip || ((compact || f.skipEmpty) && isEmpty(*f.shape, x));
            r.o.emplace_back(f.name, out ? f.initial : restored(*f.shape, x, compact));
        }
        return r; }
    case Shape::Any:
        switch (v.k) {
        case JV::Float: {
            char b[40]; snprintf(b, sizeof b, "%.12g", v.d);
            return strpbrk(b, ".e") ? JV::number(strtod(b, nullptr)) : JV::integer(strtoll(b, nullptr, 10)); }
        case JV::Arr: { JV r = JV::array(); for (auto& x : v.a) r.a.push_back(restored(s, x, compact)); return r; }
        case JV::Obj: { JV r = JV::object(); for (auto& x : v.o) r.o.emplace_back(x.first, restored(s, x.second, compact)); return r; }
        default: return v;
        }
    default: return v;
    }
}

// What reading a valid document of fitting kinds does to a state.
inline bool fits(const Shape& s, const JV& doc);
inline void apply(const Shape& s, JV& v, const JV& doc)
{
    switch (s.k) {
    case Shape::Float: v = JV::number(doc.k == JV::Int ? (doc.text.empty() ? double(doc.i) : strtod(doc.text.c_str(), nullptr)) : doc.d); return;
    case Shape::Ptr:
        if (doc.k == JV::Null) { v = JV(); return; }
        if (v.k == JV::Null) v = JV::pointer(initial(*s.inner));
        apply(*s.inner, v.a[0], doc);
        return;
    case Shape::Arr:
        if (doc.k == JV::Null) return;
        for (auto& x : doc.a) { JV item = initial(*s.inner); apply(*s.inner, item, x); v.a.push_back(item); }
        return;
    case Shape::Map:
        if (doc.k == JV::Null) return;
        for (auto& x : doc.o) {
            JV item = initial(*s.inner); apply(*s.inner, item, x.second);
            if (JV* at = v.at(x.first)) *at = item; else v.o.emplace_back(x.first, item);
        }
        return;
    case Shape::Obj:
        if (doc.k == JV::Null) return;
        for (auto& x : doc.o) if (const ShapeField* f = s.byKey(x.first)) apply(*f->shape, *v.at(f->name), x.second);
        return;
    case Shape::Any:
        if (doc.k == JV::Null) return;
        v = doc; v.text.clear();
        return;
    default: v = doc; v.text.clear(); return;
    }
}

/* ------------------------------------------------------------------ the reference reader */

struct Opts { bool comments, unescape, validate; };

// Recursive descent over the bytes. Stops at the first error; line and col are where reading stands then.
struct Ref
{
    enum { MaxDepth = 1024 };
    const std::string& t; Opts o;
    size_t i, line, col, depth;
    bool failed, atEnd;          // atEnd: the text ended too early; whether the end itself is counted is left open
    bool unspecified;            // the outcome of something here isn't specified
    std::string why;
    size_t eventLimit;
    std::vector<std::vector<std::string>>* rejected;      // where scalars were whose value was rejected; "?" stands for something that is new
    std::vector<std::string> path;

    Ref(const std::string& t, Opts o) : t(t), o(o), i(0), line(1), col(1), depth(0), failed(false), atEnd(false), unspecified(false), eventLimit(0), rejected(nullptr), havePeek(false) {}

    enum Tok { TNone, TObj, TObjEnd, TArr, TArrEnd, TSep, TKey, TStr, TInt, TFloat, TBool, TNull, TEnd };
    Tok tok; std::string val;     // the token that was read, and its text

    bool fail(const char* w) { if (!failed) { failed = true; why = w; atEnd = i >= t.size() && hitEnd; } return false; }
    bool hitEnd = false;

    int get() { if (i >= t.size()) { hitEnd = true; return -1; } ++col; return (unsigned char)t[i++]; }
    int look() const { return i < t.size() ? (unsigned char)t[i] : -1; }

    static bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
    static bool digit(int c) { return c >= '0' && c <= '9'; }
    static int hex(int c) { return digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

    void literal(const char* rest, Tok as)
    {
        for (; *rest; ++rest) { if (get() != *rest) { fail("literal"); return; } }
        tok = as;
    }

    void digits() { while (digit(look())) val += char(get()); }
    void digits1() { if (!digit(look())) { if (look() < 0) hitEnd = true; fail("digit"); return; } digits(); }

    void number(int c)
    {
        tok = TInt; val = std::string(1, char(c));
        if (c == '-') digits1(); else digits();
        if (!failed && look() == '.') { tok = TFloat; val += char(get()); digits1(); }
        if (!failed && (look() == 'e' || look() == 'E')) {
            tok = TFloat; val += char(get());
            if (look() == '+' || look() == '-') val += char(get());
            digits1();
        }
    }

    bool unit(uint32_t& code, std::string* raw)
    {
        code = 0;
        for (int k = 0; k < 4; ++k) {
            int c = get();
            if (c < 0 || hex(c) < 0) return fail("hex digit");
            if (raw) *raw += char(c);
            code = code * 16 + hex(c);
        }
        return true;
    }

    void string()
    {
        tok = TStr; val.clear();
        while (!failed) {
            int c = get();
            if (c < 0) { fail("end of string"); return; }
            if (c == '\n') { fail("newline in string"); return; }
            if (c == '"') return;
            if (c >= 0x80 && o.validate) {
                size_t n = c >= 0xC0 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF7 ? 4 : 0;
                val += char(c);
                if (!n) { fail("lead byte"); return; }
                uint32_t code = c & (0x7F >> n);
                for (size_t k = 1; k < n; ++k) {
                    int d = get();
                    if (d < 0 || (d & 0xC0) != 0x80) { fail("continuation"); return; }
                    val += char(d); code = code << 6 | (d & 0x3F);
                }
                if (code <= (n == 2 ? 0x7Fu : n == 3 ? 0x7FFu : 0xFFFFu)) { fail("overlong"); return; }
                if (code > 0x10FFFF || (code >= 0xD800 && code <= 0xDFFF)) unspecified = true;
                continue;
            }
            if (c != '\\') { val += char(c); continue; }
            c = get();
            switch (c) {
            case '"': case '/': case '\\': val += char(c); break;
            case 'b': val += '\b'; break;
            case 'f': val += '\f'; break;
            case 'n': val += '\n'; break;
            case 'r': val += '\r'; break;
            case 't': val += '\t'; break;
            case 'u': {
                uint32_t u;
                if (!o.unescape) { val += "\\u"; unit(u, &val); break; }
                if (!unit(u, nullptr)) return;
                if (u >= 0xDC00 && u <= 0xDFFF) { fail("lone surrogate"); return; }
                if (u >= 0xD800 && u <= 0xDBFF) {
                    uint32_t low;
                    if (get() != '\\' || get() != 'u') { fail("lone surrogate"); return; }
                    if (!unit(low, nullptr)) return;
                    if (low < 0xDC00 || low > 0xDFFF) { fail("lone surrogate"); return; }
                    u = 0x10000 + ((u - 0xD800) << 10) + (low - 0xDC00);
                }
                vt::Gen::utf8(val, u);
                break; }
            default: fail("escape"); return;
            }
        }
    }

    bool havePeek;
    void peek() { if (!havePeek) { lex(); havePeek = true; } }
    void next() { if (havePeek) havePeek = false; else lex(); }

    void lex()
    {
        tok = TEnd; val.clear();
        if (failed) return;
        for (;;) {
            int c = get();
            if (c < 0) return;
            if (c == '\n') { ++line; col = 1; }
            if (space(c)) continue;
            if (c == '/' && look() == '/') {
                if (!o.comments) { fail("comment"); return; }
                for (;;) { c = get(); if (c < 0) return; if (c == '\n') break; }
                ++line; col = 1;
                continue;
            }
            switch (c) {
            case '{': tok = TObj; return;
            case '}': tok = TObjEnd; return;
            case '[': tok = TArr; return;
            case ']': tok = TArrEnd; return;
            case ',': tok = TSep; return;
            case ':': tok = TKey; return;
            case 'n': literal("ull", TNull); return;
            case 't': literal("rue", TBool); val = "true"; return;
            case 'f': literal("alse", TBool); val = "false"; return;
            case '"': string(); return;
            default:
                if (c == '-' || digit(c)) { number(c); return; }
                fail("character"); return;
            }
        }
    }

    bool expect(Tok want) { next(); if (failed) return false; return tok == want || fail("token"); }

    static bool fitsInt(const std::string& s, int64_t& v)
    {
        bool neg = s[0] == '-'; unsigned __int128 n = 0;
        for (size_t k = neg; k < s.size(); ++k) { n = n * 10 + (s[k] - '0'); if (n > ((unsigned __int128)1 << 64)) return false; }
        if (n > (unsigned __int128)INT64_MAX + neg) return false;
        v = int64_t(neg ? 0 - uint64_t(n) : uint64_t(n));
        return true;
    }

    // Calls field(key) for each member, positioned at its value.
    template<typename F> bool object(const F& field)
    {
        next(); if (failed) return false;
        if (tok == TNull) return true;
        if (tok != TObj) return fail("token");
        struct Depth { size_t& d; Depth(size_t& d) : d(d) { ++d; } ~Depth() { --d; } } in(depth);
        if (depth > MaxDepth) return fail("depth");
        peek(); if (failed) return false;
        if (tok == TObjEnd) { next(); return true; }
        for (;;) {
            if (!expect(TStr)) return false;
            std::string key = val;
            if (!expect(TKey)) return false;
            if (!field(key)) return false;
            next(); if (failed) return false;
            if (tok == TObjEnd) return true;
            if (tok != TSep) return fail("token");
        }
    }

    template<typename F> bool array(const F& item)
    {
        next(); if (failed) return false;
        if (tok == TNull) return true;
        if (tok != TArr) return fail("token");
        struct Depth { size_t& d; Depth(size_t& d) : d(d) { ++d; } ~Depth() { --d; } } in(depth);
        if (depth > MaxDepth) return fail("depth");
        peek(); if (failed) return false;
        if (tok == TArrEnd) { next(); return true; }
        for (size_t k = 0;; ++k) {
            if (!item(k)) return false;
            next(); if (failed) return false;
            if (tok == TArrEnd) return true;
            if (tok != TSep) return fail("token");
        }
    }

    bool skip()
    {
        peek(); if (failed) return false;
        switch (tok) {
        case TNull: case TBool: case TInt: case TFloat: case TStr: next(); return true;
        case TArr: return array([&] (size_t) { return skip(); });
        case TObj: return object([&] (const std::string&) { return skip(); });
        default: return fail("token");
        }
    }

    bool anyValue(JV& v)
    {
        peek(); if (failed) return false;
        switch (tok) {
        case TNull: next(); return true;
        case TBool: next(); v = JV::boolean(val == "true"); return true;
        case TInt: { next(); int64_t n; if (!fitsInt(val, n)) return fail("range"); v = JV::integer(n); return true; }
        case TFloat: { next(); double d = strtod(val.c_str(), nullptr); if (std::isinf(d)) return fail("range"); v = JV::number(d); return true; }
        case TStr: next(); v = JV::str(val); return true;
        case TArr: { JV r = JV::array(); bool ok = array([&] (size_t) { JV x; bool ok = anyValue(x); if (ok) r.a.push_back(std::move(x)); return ok; }); if (ok) v = std::move(r); return ok; }
        case TObj: { JV r = JV::object(); bool ok = object([&] (const std::string& key) {
                        JV x; if (!anyValue(x)) return false;
                        if (r.at(key)) unspecified = true; else r.o.emplace_back(key, std::move(x));      // which one wins isn't specified
                        return true; });
                     if (ok) v = std::move(r); return ok; }
        default: return fail("token");
        }
    }

    bool reject(bool ok) { if (!ok && rejected) rejected->push_back(path); return ok; }

    bool value(const Shape& s, JV& v)
    {
        switch (s.k) {
        case Shape::Bool: if (!expect(TBool)) return reject(false); v = JV::boolean(val == "true"); return true;
        case Shape::Int: { int64_t n = 0; if (!expect(TInt)) return reject(false); if (!fitsInt(val, n)) return reject(fail("range")); v = JV::integer(n); return true; }
        case Shape::Float: {
            next(); if (failed) return reject(false);
            if (tok != TInt && tok != TFloat) return reject(fail("token"));
            double d = strtod(val.c_str(), nullptr);
            if (std::isinf(d)) return reject(fail("range"));
            v = JV::number(d); return true; }
        case Shape::Str: if (!expect(TStr)) return reject(false); v = JV::str(val); return true;
        case Shape::CustomStr: if (!expect(TStr)) return reject(false); if (!customOk(val)) return reject(fail("custom")); v = JV::str(val); return true;
        case Shape::CustomArr: {
            JV r = JV::array();
            if (!array([&] (size_t) { int64_t n = 0; if (!expect(TInt)) return false; if (!fitsInt(val, n)) return fail("range"); r.a.push_back(JV::integer(n)); return true; })) return reject(false);
            v = r; return true; }
        case Shape::Ptr: {
            peek(); if (failed) return false;
            if (tok == TNull) { next(); v = JV(); return true; }
            bool fresh = v.k == JV::Null;
            if (fresh) v = JV::pointer(initial(*s.inner));
            path.push_back(fresh ? "?" : "*"); bool ok = value(*s.inner, v.a[0]); path.pop_back();
            return ok; }
        case Shape::Arr: return array([&] (size_t) { JV x = initial(*s.inner); path.push_back("?"); bool ok = value(*s.inner, x); path.pop_back(); if (!ok) return false; v.a.push_back(x); return true; });
        case Shape::Map: return object([&] (const std::string& key) {
                    JV x = initial(*s.inner); path.push_back("?"); bool ok = value(*s.inner, x); path.pop_back();
                    if (!ok) return false;
                    if (JV* at = v.at(key)) *at = x; else v.o.emplace_back(key, x);
                    return true; });
        case Shape::Obj: return object([&] (const std::string& key) {
                    const ShapeField* f = s.byKey(key);
                    if (!f) return skip();
                    path.push_back(f->name); bool ok = value(*f->shape, *v.at(f->name)); path.pop_back();
                    return ok; });
        default: return anyValue(v);
        }
    }
};

// What is at a path of Ref's; nothing when it leads through something new.
inline const JV* follow(const JV& v, const std::vector<std::string>& path)
{
    const JV* at = &v;
    for (auto& x : path) {
        if (x == "?") return nullptr;
        if (x == "*") { if (at->k != JV::Ptr) return nullptr; at = &at->a[0]; continue; }
        at = at->at(x);
        if (!at) return nullptr;
    }
    return at;
}

// "12:34: ..." -> line, column
inline bool location(const std::string& what, size_t& line, size_t& col)
{
    unsigned long a, b; int n = 0;
    if (sscanf(what.c_str(), "%lu:%lu:%n", &a, &b, &n) != 2 || !n) return false;
    line = a; col = b;
    return true;
}

/* ------------------------------------------------------------------ generating documents */

inline std::string doubleText(vt::Gen& g, JV& v)      // a float with a fraction or an exponent, and its value
{
    std::string s = g.coin() ? "-" : "";
    if (g.chance(1, 3)) { char b[40]; snprintf(b, sizeof b, "%.17g", g.f64()); s = b; if (s.find_first_of(".e") == std::string::npos) s += g.coin() ? ".0" : "e0"; }
    else {
        if (g.coin()) s += "0"; else { s += char('1' + g.draw(8)); while (g.more(3)) s += char('0' + g.draw(9)); }
        bool frac = g.chance(2, 3);
        if (frac) { s += "."; do s += char('0' + g.draw(9)); while (g.more(4)); }
        if (!frac || g.chance(1, 3)) {
            s += g.coin() ? "e" : "E"; switch (g.draw(2)) { case 1: s += "+"; break; case 2: s += "-"; break; }
            s += std::to_string(g.chance(1, 10) ? g.draw(290) : g.draw(25));
        }
    }
    double d = strtod(s.c_str(), nullptr);
    if (std::isinf(d)) { s = "1.5"; d = 1.5; }
    v = JV::number(d); v.text = s;
    return s;
}

inline JV genNumber(vt::Gen& g)
{
    if (g.coin()) return JV::integer(g.i64());
    JV v; doubleText(g, v); return v;
}

inline std::string genKey(vt::Gen& g) { return g.chance(1, 4) ? g.utf8String(3) : g.word(2); }

inline JV genScalar(vt::Gen& g)
{
    switch (g.draw(4)) {
    case 0: return JV::integer(g.i64());
    case 1: return JV::str(g.utf8String());
    case 2: return JV::boolean(g.coin());
    case 3: return JV();
    default: return genNumber(g);
    }
}

inline JV genAny(vt::Gen& g, int depth)
{
    if (depth <= 0 || g.chance(1, 3)) return genScalar(g);
    JV v;
    if (g.coin()) {
        v = JV::array();
        while (g.more(3)) v.a.push_back(genAny(g, depth - 1));
    } else {
        v = JV::object();
        while (g.more(3)) { std::string k = genKey(g); if (!v.at(k)) v.o.emplace_back(k, genAny(g, depth - 1)); }
    }
    return v;
}

// A document that fits a shape: fields in any order, some left out, unknown ones among them, some repeated.
struct DocStyle { bool unknown, repeat, nulls, partial; };

inline JV genDoc(vt::Gen& g, const Shape& s, int depth, const DocStyle& st)
{
    switch (s.k) {
    case Shape::Bool: return JV::boolean(g.coin());
    case Shape::Int: return JV::integer(g.i64());
    case Shape::Float: if (g.chance(1, 3)) return JV::integer(g.i64()); else { JV v; doubleText(g, v); return v; }
    case Shape::Str: return JV::str(g.utf8String());
    case Shape::CustomStr: return JV::str(std::to_string(g.draw(9999)) + "/" + std::to_string(g.draw(9999)));
    case Shape::CustomArr: { JV r = JV::array(); while (g.more(3)) r.a.push_back(JV::integer(g.i64())); return r; }
    case Shape::Ptr: return depth <= 0 || g.chance(1, 4) ? JV() : genDoc(g, *s.inner, depth - 1, st);
    case Shape::Arr: { if (st.nulls && g.chance(1, 20)) return JV(); JV r = JV::array(); if (depth > 0) while (g.more(2)) r.a.push_back(genDoc(g, *s.inner, depth - 1, st)); return r; }
    case Shape::Map: {
        if (st.nulls && g.chance(1, 20)) return JV();
        JV r = JV::object();
        if (depth > 0) while (g.more(2)) { std::string k = genKey(g); if (st.repeat || !r.at(k)) r.o.emplace_back(k, genDoc(g, *s.inner, depth - 1, st)); }
        return r; }
    case Shape::Obj: {
        if (st.nulls && g.chance(1, 20)) return JV();
        JV r = JV::object();
        if (depth < -3) return r;
        std::vector<const ShapeField*> fs; for (auto& f : s.fields) if (!f.skip) fs.push_back(&f);
        for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[i - 1 - g.below(i)]);
        unsigned skipOneIn = depth <= 0 ? 1 : st.partial ? 2 : 0;
        for (auto f : fs) {
            if (skipOneIn && g.chance(1, 1 + skipOneIn)) continue;
            r.o.emplace_back(f->key, genDoc(g, *f->shape, depth - 1, st));
            if (st.unknown && g.chance(1, 6)) { std::string k = g.chance(1, 3) ? f->key + "x" : genKey(g); if (!s.byKey(k)) r.o.emplace_back(k, genAny(g, 2)); }
            if (st.unknown) for (auto& x : s.fields) if ((x.skip || x.key != x.name) && !s.byKey(x.name) && g.chance(1, 6)) r.o.emplace_back(x.name, genAny(g, 1));
        }
        if (st.repeat && !fs.empty()) while (g.chance(1, 4)) { const ShapeField* f = fs[g.below(fs.size())]; r.o.emplace_back(f->key, genDoc(g, *f->shape, depth - 1, st)); }
        return r; }
    default: return genAny(g, depth);
    }
}

/* ------------------------------------------------------------------ rendering */

struct Render
{
    vt::Gen& g; bool spaces, comments, escapes;      // what may vary
    bool plainUtf8;                                  // never \u above U+007F
    std::string out; std::vector<size_t> bounds;     // where tokens end

    Render(vt::Gen& g, bool spaces, bool comments, bool escapes) : g(g), spaces(spaces), comments(comments), escapes(escapes), plainUtf8(false) {}

    void gap()
    {
        if (spaces) while (g.chance(1, 4)) out += g.oneOf<const char*>({ " ", "\n", "\t", "\r", "  ", "\n\n", "\r\n", "    " });
        if (comments && g.chance(1, 8)) { out += "//"; while (g.more(4)) { char c = char(g.range(0, 255)); if (c != '\n') out += c; } out += "\n"; gap(); }
    }
    void mark() { bounds.push_back(out.size()); }
    void tok(const char* s) { gap(); out += s; mark(); }

    void unicodeEscape(uint32_t c)
    {
        auto u = [&] (unsigned x) { char b[8]; snprintf(b, sizeof b, g.coin() ? "\\u%04x" : "\\u%04X", x); out += b; };
        if (c > 0xFFFF) { u(0xD800 + ((c - 0x10000) >> 10)); u(0xDC00 + (c & 0x3FF)); } else u(c);
    }

    void string(const std::string& s)
    {
        gap(); out += '"';
        for (size_t i = 0; i < s.size();) {
            unsigned char c = s[i];
            if (c < 0x80) {
                ++i;
                bool must = c < 0x20 || c == '"' || c == '\\';
                if (!must && !(escapes && g.chance(1, 5))) { out += char(c); continue; }
                const char* shorts = "\"\"\\\\//b\bf\fn\nr\rt\t";
                char e = 0;
                for (const char* p = shorts; *p; p += 2) if (p[1] == char(c)) e = p[0];
                if (e && !(escapes && g.coin())) { out += '\\'; out += e; }
                else if (must || escapes) unicodeEscape(c);
                else out += char(c);
                continue;
            }
            size_t n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
            if (escapes && !plainUtf8 && i + n <= s.size() && g.coin()) {
                uint32_t code = c & (0x7F >> n);
                for (size_t k = 1; k < n; ++k) code = code << 6 | (s[i + k] & 0x3F);
                unicodeEscape(code); i += n;
            }
            else { out.append(s, i, n); i += n; }
        }
        out += '"'; mark();
    }

    void value(const JV& v)
    {
        switch (v.k) {
        case JV::Null: tok("null"); break;
        case JV::Bool: tok(v.b ? "true" : "false"); break;
        case JV::Int: tok((v.text.empty() ? std::to_string(v.i) : v.text).c_str()); break;
        case JV::Float: tok((v.text.empty() ? num(v.d) : v.text).c_str()); break;
        case JV::Str: string(v.s); break;
        case JV::Ptr: value(v.a[0]); break;
        case JV::Arr: tok("["); for (size_t i = 0; i < v.a.size(); ++i) { if (i) tok(","); value(v.a[i]); } tok("]"); break;
        case JV::Obj: tok("{"); for (size_t i = 0; i < v.o.size(); ++i) { if (i) tok(","); string(v.o[i].first); tok(":"); value(v.o[i].second); } tok("}"); break;
        }
    }
};

inline std::string render(vt::Gen& g, const JV& v, bool spaces, bool comments, bool escapes)
{ Render r(g, spaces, comments, escapes); r.value(v); r.gap(); return r.out; }

/* ------------------------------------------------------------------ damaging text */

inline std::string fragment(vt::Gen& g)
{
    switch (g.draw(5)) {
    case 0: return g.oneOf<const char*>({ ",", ":", "{", "}", "[", "]", "\"", "\\", "/", "//", "-", ".", "e", "+", "0", "1", "\n", " ", "\t", "u", "n", "t", "f" });
    case 1: return g.oneOf<const char*>({ "null", "true", "false", "nul", "tru", "nulL", "{}", "[]", "\"\"", "\"a\"", "0", "-1", "1.5", "1e5", "1.", "-", "1e", "1e+", "-.5", ".5", "00", "01", "-0", "+1", "NaN", "Infinity", "99999999999999999999", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e999", "-1e999", "1e-999" });
    case 2: return g.oneOf<const char*>({ "\\u0041", "\\u00e9", "\\uD83D\\uDE00", "\\uD83D", "\\uDE00", "\\uD83D\\u0041", "\\uD83Dx", "\\u12", "\\u12g4", "\\x", "\\", "\\\"", "\\n", "\\u0000", "\\U0041", "'", "\x7f", "\x01", "\v", "\f" });
    case 3: return g.oneOf<const char*>({ "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\x80", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xff", "\xfe", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3\"", "\xc3(" });
    case 4: return g.oneOf<const char*>({ "// c\n", "//\n", "/* c */", "//", "/", "# c\n", "// \"{[\n" });
    default: return std::string(1, char(g.draw(255)));
    }
}

inline std::string damage(vt::Gen& g, std::string s)
{
    for (size_t n = 1 + g.draw(2); n > 0; --n) {
        size_t at = s.empty() ? 0 : g.draw(s.size());
        switch (g.draw(7)) {
        case 0: s.resize(at); break;
        case 1: if (at < s.size()) s.erase(at, 1 + (g.chance(1, 3) ? g.draw(10) : 0)); break;
        case 2: case 3: s.insert(at, fragment(g)); break;
        case 4: if (at < s.size()) s.replace(at, 1, fragment(g)); break;
        case 5: if (at < s.size()) s[at] = char(s[at] ^ (1 << g.draw(7))); break;
        case 6: if (at < s.size()) { std::string part = s.substr(at, 1 + g.draw(20)); s.insert(g.draw(s.size()), part); } break;
        default: {      // one structural character for another
            std::vector<size_t> ps; for (size_t i = 0; i < s.size(); ++i) if (strchr("{}[],:\"", s[i])) ps.push_back(i);
            if (!ps.empty()) { size_t p = ps[g.below(ps.size())]; if (g.chance(1, 3)) s.erase(p, 1); else s[p] = "{}[],:\""[g.draw(6)]; }
            break; }
        }
    }
    return s;
}

// Tokens in a row, most of the time not a document at all.
inline std::string soup(vt::Gen& g)
{
    std::string s;
    while (g.more(8)) { s += fragment(g); if (g.chance(1, 4)) s += " "; }
    return s;
}

} // namespace jr
