/* abroad.h - calling the library in a program whose locale is not the C one. */
#pragma once

#include "vt.h"

#include <locale>
#include <locale.h>

namespace vt {

// While one lives, numbers have a decimal comma (in C, with the locale that check.py made) and
// separators between all digits (in C++). The harness itself is never abroad.
class Abroad
{
    struct Punct : public std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return std::string(1, 1); }
    };
    static locale_t german() { static locale_t l = newlocale(LC_ALL_MASK, "de_DE.UTF-8", locale_t(0)); return l; }
    static const std::locale& grouping() { static const std::locale l(std::locale::classic(), new Punct); return l; }
    static int& cases() { static int n = 0; return n; }

    bool on; locale_t old; std::locale before;

public:
    // In one case out of some, the calls are made abroad.
    struct Case
    {
        explicit Case(vt::Case& c, unsigned n = 4)
        {
            if (!c.g.chance(1, n)) return;
            cases() = 1; c.label(german() ? "abroad" : "abroad, without a C locale");
            VT_LOG("abroad\n");
        }
        ~Case() { cases() = 0; }
    };

    Abroad() : on(cases())
    {
        if (!on) return;
        old = uselocale(german() ? german() : locale_t(0));
        before = std::locale::global(grouping());
    }
    ~Abroad() { if (on) { uselocale(old); std::locale::global(before); } }

    // Whether the library left the locale as it was.
    bool unchanged() const { return !on || ((!german() || uselocale(locale_t(0)) == german()) && std::locale() == grouping()); }
};

} // namespace vt
