// Reflection of Custom, CustomList, Customs, Traited.
#define VT_NO_MAIN
#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

using namespace reflect;

reflectTypeImpl(jz::Custom) { reflectAllocPlumbing(); reflectPlumbing(); reflectFn(parseJson); reflectFn(printJson); reflectTypeValue(json, json::custom("parseJson", "printJson")); }
reflectTypeImpl(jz::CustomList) { reflectPlumbing(); reflectFn(parseJson); reflectFn(printJson); reflectTypeValue(json, json::custom("parseJson", "printJson")); }
reflectTypeImpl(jz::Customs) { reflectPlumbing(); reflectField(one); reflectField(many); reflectField(lists); reflectField(ptr); reflectField(list); }
reflectTypeImpl(jz::Traited)
{
    reflectParent(jz::Base); reflectAllocPlumbing(); reflectPlumbing();
    reflectField(skipped); reflectField(renamed); reflectField(sparse); reflectField(both); reflectField(text); reflectField(swapB); reflectField(swapA);
    reflectField(list); reflectField(ptr); reflectField(next); reflectField(num); reflectField(flag); reflectField(custom); reflectField(map);
    auto clean = [] (json::Traits t) { t.skipEmpty = false; return t; };      // see known_findings: alias_skipempty_uninit
    reflectFieldValue(skipped, json, json::skip());
    reflectFieldValue(renamed, json, clean(json::alias("an alias \"\xc3\xa9\"")));
    reflectFieldValue(sparse, json, json::skipEmpty());
    reflectFieldValue(both, json, json::alias("BOTH") | json::skipEmpty());
    reflectFieldValue(text, json, json::skipEmpty() | json::alias("txt"));
    reflectFieldValue(swapB, json, clean(json::alias("swapA")));
    reflectFieldValue(swapA, json, clean(json::alias("swapB")));
    reflectFieldValue(list, json, json::skipEmpty()); reflectFieldValue(ptr, json, json::skipEmpty()); reflectFieldValue(next, json, json::skipEmpty());
    reflectFieldValue(num, json, json::skipEmpty()); reflectFieldValue(flag, json, json::skipEmpty()); reflectFieldValue(custom, json, json::skipEmpty()); reflectFieldValue(map, json, json::skipEmpty());
}
