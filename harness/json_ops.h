/* json_ops.h - the operations of the targets. */
#pragma once

#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

namespace jz {

using namespace reflect;

template<typename T> struct Ops
{
    static void* make() { return new T(); }
    static void destroy(void* p) { delete static_cast<T*>(p); }
    static JV dump(const void* p) { return Jz<T>::dump(*static_cast<const T*>(p)); }
    static void fill(void* p, const JV& v) { Jz<T>::fill(*static_cast<T*>(p), v); }
    static json::Error parseStr(const std::string& s, void* p) { return json::parse(s, *static_cast<T*>(p)); }
    static json::Error parseStream(std::istream& s, void* p) { return json::parse(s, *static_cast<T*>(p)); }
    static void parseReader(json::Reader& r, void* p) { json::parse(r, *static_cast<T*>(p)); }
    static void printWriter(json::Writer& w, const void* p) { json::print(w, *static_cast<const T*>(p)); }
    static std::pair<std::string, json::Error> printStr(const void* p) { return json::print(*static_cast<const T*>(p)); }
    static json::Error printStream(std::ostream& s, const void* p) { return json::print(s, *static_cast<const T*>(p)); }
    static Value value(void* p) { return Value(*static_cast<T*>(p)); }
};

template<typename T> void add(std::vector<Target>& v, const char* name)
{ v.push_back(Target{ name, &shape<T>(), Ops<T>::make, Ops<T>::destroy, Ops<T>::dump, Ops<T>::fill, Ops<T>::parseStr, Ops<T>::parseStream, Ops<T>::parseReader, Ops<T>::printWriter, Ops<T>::printStr, Ops<T>::printStream, Ops<T>::value }); }

} // namespace jz
