#include "p01.h"
using namespace p01;

void p01::fns3()
{
    P01_FN(int, int, int);
    P01_FN(int, int&, const int&);
    P01_FN(std::string, std::string, int);
    P01_FN(int, Obj&, Obj);
    P01_FN(Obj, const Obj&, Obj&&);
    P01_FN(void, Obj&&, MoveOnly&&);
    P01_FN(int, Base&, const Base&);
    P01_FN(Value, std::string&, Obj&);
    P01_FNV(int, Pinned&, const CopyOnly&);
    P01_FNV(void, Value, int);
    P01_FNV(int, Base, Derived&);
    P01_FNV(Obj, int&&, std::string&&);
    P01_FN(int&, Obj*, int&);
    P01_FN(int, int, std::string, Obj);
    P01_FNV(std::string, int&, const std::string&, Obj&&);
    P01_FNV(void, Base&, Base&, Base&);
    P01_LAMBDA(std::string, int, Obj&, std::string);
}
