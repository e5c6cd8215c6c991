/* json_events.h - documents through the event api of json. */
#pragma once

#include "json_zoo.h"

namespace jz {

// A hand-written parser: whatever comes next as a document.
inline JV readEvents(reflect::json::Reader& r)
{
    using namespace reflect::json;
    Token t = r.peekToken();
    switch (t.type()) {
    case Token::Null: parseNull(r); return JV();
    case Token::Bool: return JV::boolean(parseBool(r));
    case Token::Int: return JV::integer(parseInt(r));
    case Token::Float: return JV::number(parseFloat(r));
    case Token::String: return JV::str(parseString(r));
    case Token::ArrayStart: {
        JV v = JV::array();
        parseArray(r, [&] (size_t i) { VT_EQ(i, v.a.size(), "index of the item"); v.a.push_back(readEvents(r)); });
        return v; }
    case Token::ObjectStart: {
        JV v = JV::object();
        parseObject(r, [&] (const std::string& k) { std::string key = k; JV item = readEvents(r); v.o.emplace_back(key, std::move(item)); });
        return v; }
    default: r.error("an unexpected token: %s", t.print()); return JV();
    }
}

// Prints a document through the event api.
inline void writeEvents(reflect::json::Writer& w, const JV& v)
{
    using namespace reflect::json;
    switch (v.k) {
    case JV::Null: printNull(w); break;
    case JV::Bool: printBool(w, v.b); break;
    case JV::Int: printInt(w, v.i); break;
    case JV::Float: printFloat(w, v.d); break;
    case JV::Str: printString(w, v.s); break;
    case JV::Ptr: writeEvents(w, v.a[0]); break;
    case JV::Arr: printArray(w, v.a.size(), [&] (size_t i) { writeEvents(w, v.a[i]); }); break;
    case JV::Obj: {
        std::vector<std::string> keys; for (auto& x : v.o) keys.push_back(x.first);
        printObject(w, keys, [&] (const std::string& k) { writeEvents(w, *v.at(k)); });
        break; }
    }
}

} // namespace jz
