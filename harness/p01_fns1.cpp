#include "p01.h"
using namespace p01;

void p01::fns1()
{
    P01_FN(void);
    P01_FN(int);
    P01_FN(Obj&);
    P01_FN(const Obj&);
    P01_FN(Obj);
    P01_FN(MoveOnly);
    P01_FN(Value);
    P01_LAMBDA(int);
    P01_FN(Obj&&);
    P01_FN(void, int);
    P01_FN(int, int&);
    P01_FN(int&, const int&);
    P01_FN(std::string, int&&);
    P01_FN(int, std::string);
    P01_FN(std::string&, std::string&);
    P01_FN(std::string, const std::string&);
    P01_FN(const std::string&, std::string&&);
    P01_FN(Obj, Obj);
    P01_FN(Obj&, Obj&);
    P01_FN(const Obj&, const Obj&);
    P01_FN(MoveOnly, Obj&&);
    P01_LAMBDA(Obj, Obj);
}
