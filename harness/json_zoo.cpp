// The table of targets.
#define VT_NO_MAIN
#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

using namespace reflect;

namespace jz {

void Custom::parseJson(json::Reader& r) { std::string s = json::parseString(r); if (r.error()) return; if (!set(s)) r.error("not a custom <%s>", s); }
void Custom::printJson(json::Writer& w) const { json::printString(w, text()); }
void CustomList::parseJson(json::Reader& r)
{
    std::vector<int64_t> read;
    json::parseArray(r, [&] (size_t i) { int64_t x = json::parseInt(r); if (i == read.size()) read.push_back(x); });
    if (!r.error()) v = read;
}
void CustomList::printJson(json::Writer& w) const { json::printArray(w, v.size(), [&] (size_t i) { json::printInt(w, v[i]); }); }

JV Jz<Value>::dump(const Value& v)
{
    if (v.isVoid()) return JV();
    if (v.type() == type<Value>()) return dump(v.get<Value>());
    if (v.is("bool")) return JV::boolean(v.get<bool>());
    if (v.is("integer")) return JV::integer(v.get<int64_t>());
    if (v.is("float")) return JV::number(v.get<double>());
    if (v.is("string")) return JV::str(v.get<std::string>());
    if (v.type() == type<ArrayT>()) { JV r = JV::array(); for (auto& x : v.get<ArrayT>()) r.a.push_back(dump(x)); return r; }
    if (v.type() == type<ObjectT>()) { JV r = JV::object(); for (auto& x : v.get<ObjectT>()) r.o.emplace_back(x.first, dump(x.second)); return r; }
    VT_FAIL("a dynamic value of type " << v.type()->id());
}

void Jz<Value>::fill(Value& t, const JV& v)
{
    switch (v.k) {
    case JV::Null: t = Value(); break;
    case JV::Bool: { bool x = v.b; t = Value(std::move(x)); break; }
    case JV::Int: { int64_t x = v.i; t = Value(std::move(x)); break; }
    case JV::Float: { double x = v.d; t = Value(std::move(x)); break; }
    case JV::Str: { std::string x = v.s; t = Value(std::move(x)); break; }
    case JV::Arr: { ArrayT a; for (auto& x : v.a) { Value i; fill(i, x); a.push_back(i); } t = Value(std::move(a)); break; }
    case JV::Obj: { ObjectT m; for (auto& x : v.o) { Value i; fill(i, x.second); m[x.first] = i; } t = Value(std::move(m)); break; }
    default: VT_FAIL("no such dynamic value");
    }
}

void targets1(std::vector<Target>& v); void targets2(std::vector<Target>& v); void targets3(std::vector<Target>& v);
const std::vector<Target>& targets() { static std::vector<Target> v; if (v.empty()) { targets1(v); targets2(v); targets3(v); } return v; }
const size_t DynamicTarget = 1;

json::Reader::Options readerOptions(const jr::Opts& o)
{ return json::Reader::Options((o.comments ? json::Reader::AllowComments : 0) | (o.unescape ? json::Reader::UnescapeUnicode : 0) | (o.validate ? json::Reader::ValidateUnicode : 0)); }

} // namespace jz
