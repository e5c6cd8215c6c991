// Some of the targets.
#define VT_NO_MAIN
#include "json_ops.h"

namespace jz { void targets1(std::vector<Target>& v)
{
    add<Scalars>(v, "Scalars"); add<Value>(v, "Value"); add<Tree>(v, "Tree"); add<Derived>(v, "Derived"); add<Leaf>(v, "Leaf"); add<Conts>(v, "Conts"); add<Uniq>(v, "Uniq"); add<Raw>(v, "Raw");
    add<Customs>(v, "Customs"); add<Traited>(v, "Traited"); add<Custom>(v, "Custom"); add<CustomList>(v, "CustomList");
} }
