/* json_run.h - printing and parsing the targets of json_zoo.h through every entry point. */
#pragma once

#include "json_zoo.h"
#include "abroad.h"

namespace jz {

struct Outcome { bool raised, failed; std::string text, error; };

inline std::string optText(unsigned w)
{
    std::string s;
    if (w & reflect::json::Writer::Pretty) s += "P"; if (w & reflect::json::Writer::Compact) s += "C";
    if (w & reflect::json::Writer::EscapeUnicode) s += "E"; if (w & reflect::json::Writer::ValidateUnicode) s += "V";
    return s.empty() ? "-" : s;
}
inline std::string optText(const jr::Opts& o) { return std::string(o.comments ? "c" : "") + (o.unescape ? "u" : "") + (o.validate ? "v" : "") + "-"; }

// how: 0 a Writer with options w, 1 print(obj), 2 print(stream, obj), 3 print(writer, Value of the object)
inline Outcome printHere(Object& o, unsigned w, int how)
{
    using namespace reflect::json;
    Outcome r{ false, false, "", "" };
    std::ostringstream ss;
    try {
        if (how == 1) { auto p = o.t.printStr(o.p); r.text = p.first; r.failed = bool(p.second); if (r.failed) r.error = p.second.what(); return r; }
        if (how == 2) { Error e = o.t.printStream(ss, o.p); r.text = ss.str(); r.failed = bool(e); if (r.failed) r.error = e.what(); return r; }
        Writer writer(ss, Writer::Options(w));
        if (how == 0) o.t.printWriter(writer, o.p);
        else { reflect::Value v = o.t.value(o.p); print(writer, v); }
        r.text = ss.str(); r.failed = bool(writer.error()); if (r.failed) r.error = writer.error().what();
    }
    catch (const std::exception& e) { r.raised = true; r.error = e.what(); }
    return r;
}

// how: 0 a Reader with options, 1 parse(string), 2 parse(stream)
inline Outcome parseHere(Object& o, const std::string& text, const jr::Opts& opts, int how)
{
    using namespace reflect::json;
    Outcome r{ false, false, "", "" };
    try {
        if (how == 1) { Error e = o.t.parseStr(text, o.p); r.failed = bool(e); if (r.failed) r.error = e.what(); return r; }
        std::istringstream ss(text);
        if (how == 2) { Error e = o.t.parseStream(ss, o.p); r.failed = bool(e); if (r.failed) r.error = e.what(); return r; }
        Reader reader(ss, readerOptions(opts));
        o.t.parseReader(reader, o.p);
        r.failed = bool(reader.error()); if (r.failed) r.error = reader.error().what();
    }
    catch (const std::exception& e) { r.raised = true; r.error = e.what(); }
    return r;
}

// The same, in the locale of the case (see vt::Abroad).
inline Outcome print(Object& o, unsigned w, int how)
{
    vt::Abroad abroad; Outcome r = printHere(o, w, how);
    if (!abroad.unchanged()) { r.raised = true; r.error = "the locale of the program was changed"; }
    return r;
}
inline Outcome parse(Object& o, const std::string& text, const jr::Opts& opts, int how)
{
    vt::Abroad abroad; Outcome r = parseHere(o, text, opts, how);
    if (!abroad.unchanged()) { r.raised = true; r.error = "the locale of the program was changed"; }
    return r;
}

inline size_t pickTarget(vt::Gen& g) { return g.chance(1, 3) ? g.below(12) : g.below(targets().size()); }

// 1 in n for a chain that is deep rather than wide
inline JV deepDynamic(vt::Gen& g, size_t depth)
{
    JV v = jr::genScalar(g);
    for (size_t i = 0; i < depth; ++i) {
        JV up;
        if (g.coin()) { up = JV::array(); if (g.chance(1, 8)) up.a.push_back(jr::genScalar(g)); up.a.push_back(std::move(v)); if (g.chance(1, 8)) up.a.push_back(jr::genScalar(g)); }
        else { up = JV::object(); if (g.chance(1, 8)) up.o.emplace_back("before", jr::genScalar(g)); up.o.emplace_back(g.word(1), std::move(v)); if (up.o.size() == 2 && up.o[0].first == up.o[1].first) up.o.pop_back(); }
        v = std::move(up);
    }
    return v;
}

inline JV deepTree(vt::Gen& g, size_t depth)       // jz::Tree
{
    const Shape& s = shape<Tree>();
    JV v = s.initial;
    *v.at("id") = JV::integer(g.i64());
    for (size_t i = 0; i < depth; ++i) {
        JV up = s.initial; *up.at("id") = JV::integer(int64_t(i));
        switch (g.draw(2)) {
        case 0: *up.at("next") = JV::pointer(std::move(v)); break;
        case 1: up.at("kids")->a.push_back(std::move(v)); break;
        default: up.at("named")->o.emplace_back(g.word(1), std::move(v)); break;
        }
        v = std::move(up);
    }
    return v;
}

inline size_t depthOf(const JV& v)       // nesting of the document
{
    size_t d = 0;
    for (auto& x : v.a) d = std::max(d, depthOf(x));
    for (auto& x : v.o) d = std::max(d, depthOf(x.second));
    return d + (v.k == JV::Arr || v.k == JV::Obj);
}

inline size_t sizeOf(const JV& v) { size_t n = 1; for (auto& x : v.a) n += sizeOf(x); for (auto& x : v.o) n += sizeOf(x.second); return n; }

} // namespace jz
