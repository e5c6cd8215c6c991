// Some of the targets.
#define VT_NO_MAIN
#include "json_ops.h"

namespace jz { void targets2(std::vector<Target>& v)
{
    add<bool>(v, "bool"); add<int64_t>(v, "int64_t"); add<double>(v, "double"); add<std::string>(v, "string");
    add<std::vector<int64_t>>(v, "vector<int64_t>"); add<std::vector<std::string>>(v, "vector<string>"); add<std::map<std::string, double>>(v, "map<string,double>");
} }
