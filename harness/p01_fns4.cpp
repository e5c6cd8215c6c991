#include "p01.h"
using namespace p01;

void p01::fns4()
{
    P01_FN(int, int, int&, const int&, int&&);
    P01_FNV(std::string, std::string&, Obj, const Base&, MoveOnly&&);
    P01_FN(std::string, int, int, int, int, int);
    P01_FNV(const Obj&, Obj&, const Obj&, Obj, Obj&&, int);
    P01_FN(std::string, std::string, int&, Obj&, Base&, const Pinned&, MoveOnly&);
    P01_FNV(std::string, int, std::string, Obj, Base, int, std::string);
    P01_FNV(void, Obj&&, Obj&&, MoveOnly&&, std::string&&, Base&&, int&&);
    P01_FNV(std::string, int, int, int, int, int, int, int);
    P01_FNV(std::string, Obj&, int, const Obj&, std::string, Base&, int&, const std::string&, Obj*);
    P01_FNV(std::string, int, std::string&, Obj, int&, std::string, const Obj&, int, Base&, int, Obj&);
    P01_LAMBDA(std::string, int&, Obj, const std::string&, MoveOnly&&);
}
