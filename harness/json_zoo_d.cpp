// Reflection of Uniq, Raw.
#define VT_NO_MAIN
#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

using namespace reflect;

reflectTypeImpl(jz::Uniq) { reflectAllocPlumbing(); reflectPlumbing(); reflectField(i); reflectField(sc); reflectField(s); reflectField(next); reflectField(d); }
reflectTypeImpl(jz::Raw) { reflectAllocPlumbing(); reflectPlumbing(); reflectField(i); reflectField(s); reflectField(sc); reflectField(next); reflectField(vec); reflectField(map); reflectField(d); }
