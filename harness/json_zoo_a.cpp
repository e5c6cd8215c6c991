// Reflection of Scalars, Tree.
#define VT_NO_MAIN
#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

using namespace reflect;

reflectTypeImpl(jz::Scalars) { reflectAllocPlumbing(); reflectPlumbing(); reflectField(b); reflectField(i); reflectField(d); reflectField(s); }
reflectTypeImpl(jz::Tree) { reflectAllocPlumbing(); reflectPlumbing(); reflectField(id); reflectField(name); reflectField(kids); reflectField(named); reflectField(next); }
