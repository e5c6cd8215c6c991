/* json_gen.h - texts for the targets: valid, mistyped, damaged, or none at all. */
#pragma once

#include "json_run.h"

namespace jz {

inline jr::Opts genOpts(vt::Gen& g) { return jr::Opts{ g.coin(), g.chance(3, 4), g.chance(3, 4) }; }

inline std::string validText(vt::Gen& g, const Target& t)
{
    jr::DocStyle st{ g.coin(), g.chance(1, 3), g.coin(), g.coin() };
    JV doc = g.chance(1, 8) ? jr::genAny(g, 3) : jr::genDoc(g, *t.shape, int(g.draw(4)), st);
    return jr::render(g, doc, g.coin(), g.chance(1, 4), g.coin());
}

// A document for another type, or with values of other kinds here and there.
inline JV mistyped(vt::Gen& g, JV doc)
{
    if (g.chance(1, 6)) return g.coin() ? jr::genScalar(g) : jr::genAny(g, 2);
    for (auto& x : doc.a) x = mistyped(g, x);
    for (auto& x : doc.o) x.second = mistyped(g, x.second);
    return doc;
}

inline std::string anyText(vt::Gen& g, const Target& t, vt::Case& c)
{
    switch (g.draw(9)) {
    case 0: c.label("soup"); return jr::soup(g);
    case 1: { c.label("bytes"); std::string s; while (g.more(12)) s += char(g.draw(255)); return s; }
    case 2: case 3: { c.label("mistyped"); jr::DocStyle st{ g.coin(), g.chance(1, 3), g.coin(), g.coin() }; return jr::render(g, mistyped(g, jr::genDoc(g, *t.shape, int(g.draw(4)), st)), g.coin(), false, g.coin()); }
    case 4: c.label("another type"); return validText(g, targets()[pickTarget(g)]);
    case 5: { c.label("truncated"); std::string s = validText(g, t); s.resize(g.draw(s.size())); return s; }
    default: c.label("damaged"); return jr::damage(g, validText(g, t));
    }
}

} // namespace jz
