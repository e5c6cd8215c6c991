// Some of the targets.
#define VT_NO_MAIN
#include "json_ops.h"

namespace jz { void targets3(std::vector<Target>& v)
{
    add<std::unordered_map<std::string, Scalars>>(v, "unordered_map<string,Scalars>");
    add<std::shared_ptr<Scalars>>(v, "shared_ptr<Scalars>"); add<std::unique_ptr<std::string>>(v, "unique_ptr<string>"); add<std::vector<std::vector<double>>>(v, "vector<vector<double>>"); add<std::map<std::string, Tree>>(v, "map<string,Tree>");
} }
