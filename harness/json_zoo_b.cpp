// Reflection of Base, Derived, Leaf.
#define VT_NO_MAIN
#include "json_zoo.h"

#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

using namespace reflect;

reflectTypeImpl(jz::Base) { reflectAllocPlumbing(); reflectPlumbing(); reflectField(base); reflectField(common); }
reflectTypeImpl(jz::Derived) { reflectParent(jz::Base); reflectAllocPlumbing(); reflectPlumbing(); reflectField(own); reflectField(nested); reflectField(bases); reflectField(maybe); }
reflectTypeImpl(jz::Leaf) { reflectParent(jz::Derived); reflectPlumbing(); reflectField(last); reflectField(flag); }
