// P10 - Scoped names split and join losslessly, treating template brackets as opaque.
#include "vt.h"
#include "reflect.h"

using namespace reflect;
typedef std::pair<std::string, std::string> Split;

namespace {

// A component: an identifier followed by any number of template argument lists, whose content is
// arbitrary balanced text, including :: and : at any depth.
std::string genArgs(vt::Gen& g, int depth)
{
    std::string s = "<";
    while (g.more(3)) {
        switch (g.draw(depth < 5 ? 5 : 3)) {
        case 0: s += g.word(2); break;
        case 1: s += "::"; break;
        case 2: s += g.oneOf<const char*>({ ",", " ", ":", "*", "&", ":::", "const ", "(", ")" }); break;
        case 3: s += g.word(1) + "::" + g.word(1); break;
        default: s += genArgs(g, depth + 1); break;
        }
    }
    return s + ">";
}

std::string genComponent(vt::Gen& g)
{
    std::string s = g.word(3);
    if (g.chance(1, 60)) s += std::string(g.range(50, 400), 'x');
    while (g.chance(1, 3)) {
        s += genArgs(g, 0);
        if (g.coin()) s += g.word(2);
    }
    if (g.chance(1, 10)) s = genArgs(g, 0);
    if (g.chance(1, 10)) s += g.oneOf<const char*>({ "*", "&", " const", "~", "_9", "[]", "()", "\xC3\xA9", "%s" });
    return s;
}

std::string joinAll(const std::vector<std::string>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += "::"; s += v[i]; }
    return s;
}

bool split(bool head, const std::string& name, Split& out)
{
    try { out = head ? Scope::head(name) : Scope::tail(name); return true; }
    catch (const reflect::Error&) { return false; }
}

} // namespace

VT_PROP(well_formed, 250000, 4000000, "name with at least two components, at least one of them with a template list")
{
    std::vector<std::string> comps;
    comps.push_back(genComponent(c.g));
    while (c.g.more(2)) comps.push_back(genComponent(c.g));
    std::string name = joinAll(comps);
    VT_LOG(vt::quote(name));
    bool brackets = name.find('<') != std::string::npos;
    c.nontrivial(comps.size() > 1 && brackets);
    c.label("components " + std::to_string(std::min<size_t>(comps.size(), 6)));
    if (brackets) c.label("template");

    const std::string keep = name;

    // One step, against the construction.
    Split h, t;
    VT_CHECK(split(true, name, h), "head raised");
    VT_CHECK(split(false, name, t), "tail raised");
    VT_EQ(h.first, comps.front(), "head component");
    VT_EQ(h.second, joinAll(std::vector<std::string>(comps.begin() + 1, comps.end())), "head rest");
    VT_EQ(t.first, comps.back(), "tail component");
    VT_EQ(t.second, joinAll(std::vector<std::string>(comps.begin(), comps.end() - 1)), "tail rest");
    if (comps.size() > 1) {
        VT_EQ(Scope::join(h.first, h.second), name, "join(head)");
        VT_EQ(Scope::join(t.second, t.first), name, "join(tail)");
    }
    else VT_EQ(Scope::join(t.second, t.first), name, "join(tail)");
    VT_EQ(Scope::join("", name), name, "join with an empty head");

    // To the end, both ways.
    std::vector<std::string> hs, ts;
    for (std::string rest = name; !rest.empty();) {
        VT_CHECK(split(true, rest, h), "head raised");
        hs.push_back(h.first); rest = h.second;
        VT_CHECK(hs.size() <= comps.size(), "repeated head");
    }
    for (std::string rest = name; !rest.empty();) {
        VT_CHECK(split(false, rest, t), "tail raised");
        ts.insert(ts.begin(), t.first); rest = t.second;
        VT_CHECK(ts.size() <= comps.size(), "repeated tail");
    }
    VT_CHECK(hs == comps, "repeated head: " << joinAll(hs));
    VT_CHECK(ts == comps, "repeated tail: " << joinAll(ts));
    VT_EQ(name, keep, "name changed");

    // Joining from any cut.
    for (size_t i = 1; i < comps.size(); ++i)
        VT_EQ(Scope::join(joinAll(std::vector<std::string>(comps.begin(), comps.begin() + i)),
                          joinAll(std::vector<std::string>(comps.begin() + i, comps.end()))), name, "join at " << i);
}

// Any string: an error or a lossless cut at a top-level separator.
static void anyName(vt::Case& c, const std::string& name)
{
    VT_LOG(vt::quote(name));
    c.nontrivial(name.find_first_of(":<>") != std::string::npos);

    // Depth before each character, counted from the left and from the right. Names in which a bracket
    // closes before it is opened are only held to the lossless law, and to raising without any colon.
    std::vector<long> depth(name.size() + 1, 0), rdepth(name.size() + 1, 0);
    bool ordered = true, rordered = true;
    for (size_t i = 0; i < name.size(); ++i) {
        depth[i + 1] = depth[i] + (name[i] == '<' ? 1 : name[i] == '>' ? -1 : 0);
        if (depth[i + 1] < 0) ordered = false;
    }
    for (size_t i = name.size(); i-- > 0;) {
        rdepth[i] = rdepth[i + 1] + (name[i] == '>' ? 1 : name[i] == '<' ? -1 : 0);
        if (rdepth[i] < 0) rordered = false;
    }
    const long total = depth[name.size()];

    Split h, t;
    bool hOk = split(true, name, h), tOk = split(false, name, t);
    c.label(hOk ? "head ok" : "head error"); c.label(tOk ? "tail ok" : "tail error");

    if (hOk)
        VT_CHECK(name == h.first + "::" + h.second || (h.second.empty() && name == h.first),
                "head lost text: " << vt::quote(h.first) << " " << vt::quote(h.second));
    if (tOk)
        VT_CHECK(name == t.second + "::" + t.first || (t.second.empty() && name == t.first),
                "tail lost text: " << vt::quote(t.first) << " " << vt::quote(t.second));
    if (total && name.find(':') == std::string::npos)
        VT_CHECK(!hOk && !tOk, "unbalanced name accepted");

    if (ordered) {
        size_t first = std::string::npos;
        for (size_t i = 0; i < name.size(); ++i)
            if (name[i] == ':' && depth[i] == 0) { first = i; break; }
        if (first == std::string::npos) {
            VT_EQ(hOk, total == 0, "head without separator accepts exactly the balanced names");
            if (hOk) VT_EQ(h.first, name, "head");
        }
        else if (first + 1 >= name.size() || name[first + 1] != ':') VT_CHECK(!hOk, "head accepted a single colon");
        else { VT_CHECK(hOk, "head rejected " << vt::quote(name)); VT_EQ(h.first, name.substr(0, first), "head"); }
    }
    if (rordered) {
        size_t last = std::string::npos;
        for (size_t i = name.size(); i-- > 0;)
            if (name[i] == ':' && rdepth[i + 1] == 0) { last = i; break; }
        if (last == std::string::npos) {
            VT_EQ(tOk, total == 0, "tail without separator accepts exactly the balanced names");
            if (tOk) VT_EQ(t.first, name, "tail");
        }
        else if (!last || name[last - 1] != ':') VT_CHECK(!tOk, "tail accepted a single colon");
        else { VT_CHECK(tOk, "tail rejected " << vt::quote(name)); VT_EQ(t.first, name.substr(last + 1), "tail"); }
    }
}

VT_PROP(any_string, 400000, 12000000, "contains a bracket or a colon")
{
    std::string name;
    unsigned mode = c.g.draw(3);
    if (mode == 0) { while (c.g.more(8)) name += c.g.oneOf<char>({ 'a', ':', '<', '>', 'b', ':', ' ' }); }
    else if (mode == 1) { while (c.g.more(8)) name += char(c.g.draw(255)); }
    else {
        name = genComponent(c.g);
        while (c.g.more(2)) name += "::" + genComponent(c.g);
        unsigned edits = 1 + c.g.draw(2);
        while (edits--) {
            size_t i = c.g.below(name.size() + 1);
            if (c.g.coin() && i < name.size()) name.erase(i, 1 + c.g.draw(1));
            else name.insert(i, 1, c.g.oneOf<char>({ ':', '<', '>', 'a' }));
        }
    }
    anyName(c, name);
}

// Every string of up to 8 characters over these four.
VT_PROP(all_short, 87381, 1398101, "contains a bracket or a colon")
{
    const uint64_t upTo10 = 1398101;         // (4^11 - 1) / 3: the first 87381 are those of up to 8 characters
    uint64_t i = c.g.each(upTo10), n = 1;
    std::string name;
    for (; i >= n; n *= 4) { i -= n; name += 'a'; }
    for (auto& x : name) { x = "a:<>"[i % 4]; i /= 4; }
    anyName(c, name);
}

VT_EXAMPLE(boundaries)
{
    VT_CHECK(Scope::head("") == Split("", ""), "empty");
    VT_CHECK(Scope::tail("") == Split("", ""), "empty");
    VT_CHECK(Scope::head("a::b::c") == Split("a", "b::c"), "");
    VT_CHECK(Scope::tail("a::b::c") == Split("c", "a::b"), "");
    VT_CHECK(Scope::head("a<b::c>::d<e::f>") == Split("a<b::c>", "d<e::f>"), "");
    VT_CHECK(Scope::tail("a<b::c>::d<e::f>") == Split("d<e::f>", "a<b::c>"), "");
    Split s;
    for (const char* n : { ":", "a:", ":a", "a:b", "a<", "a>", "a<<>", "a<b::c" }) {
        VT_CHECK(!split(true, n, s), "head accepted " << n);
    }
    for (const char* n : { ":", "a:", ":a", "a:b", "a<", "a>", "a<>>", "a::b>" }) VT_CHECK(!split(false, n, s), "tail accepted " << n);
}
