// Reflection of Conts.
#define VT_NO_MAIN
#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

using namespace reflect;

reflectTypeImpl(jz::Conts)
{
    reflectPlumbing();
    reflectField(ints); reflectField(doubles); reflectField(strings); reflectField(grid); reflectField(dict); reflectField(hash); reflectField(series); reflectField(nest);
    reflectField(ptrs); reflectField(ptrMap); reflectField(rows);
}
