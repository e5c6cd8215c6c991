#include "p01.h"
using namespace p01;

void p01::fns2()
{
    P01_FN(int, Base);
    P01_FN(Base&, Base&);
    P01_FN(int, const Base&);
    P01_FN(void, Base&&);
    P01_FN(MoveOnly&, MoveOnly&);
    P01_FN(int, const MoveOnly&);
    P01_FN(MoveOnly, MoveOnly&&);
    P01_FN(CopyOnly&, CopyOnly&);
    P01_FN(int, const CopyOnly&);
    P01_FN(int, Pinned&);
    P01_FN(Pinned&, const Pinned&);
    P01_FN(int, Obj*);
    P01_FN(int, Obj*&);
    P01_FN(void, Value);
    P01_FN(Derived, Derived);
    P01_FN(Derived&, Derived&);
    P01_FN(int, const Derived&);
    P01_FN(void, Derived&&);
    P01_LAMBDA(Obj&, Obj&);
    P01_LAMBDA(int, MoveOnly&&);
    P01_LAMBDA(std::string, const std::string&, Base&);
}
