// P11: scopes behave as a tree of names; queries never change it.
#include "zoo.h"
#include "types/primitives.h"

using namespace reflect;
using namespace zoo;

namespace {

struct Node
{
    std::string name; Node* parent = nullptr; Scope* real = nullptr;
    std::map<std::string, std::unique_ptr<Node>> scopes; std::set<std::string> types; std::map<std::string, std::vector<int>> fns;

    Node* child(const std::string& n) { auto& c = scopes[n]; if (!c) { c.reset(new Node); c->name = n; c->parent = this; } return c.get(); }
    Node* find(const std::vector<std::string>& path) { Node* n = this; for (auto& p : path) { auto it = n->scopes.find(p); if (it == n->scopes.end()) return nullptr; n = it->second.get(); } return n; }
    Node* make(const std::vector<std::string>& path) { Node* n = this; for (auto& p : path) n = n->child(p); return n; }
};

typedef std::vector<std::string> Path;
std::string join(const Path& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += (i ? "::" : "") + p[i]; return s; }
std::string idOf(const Node* n, const std::string& prefix) { if (!n->parent) return prefix; std::string p = idOf(n->parent, prefix); return p.empty() ? n->name : p + "::" + n->name; }
template<typename F> void each(Node* n, const F& f) { f(n); for (auto& c : n->scopes) each(c.second.get(), f); }

const std::vector<std::string> scopeNames = { "s0", "s1", "s2", "tmpl<a::b>", "x<y<z::w>,q::r>" };
const std::vector<std::string> typeNames = { "T0", "T1", "T2<c::d>", "T3" };
const std::vector<std::string> fnNames = { "f0", "f1", "operator()", "f2<g::h>" };

std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
std::string str(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }

void listTypes(Node* n, const std::string& pre, std::vector<std::string>& out) { for (auto& t : n->types) out.push_back(pre + t); for (auto& c : n->scopes) listTypes(c.second.get(), pre + c.first + "::", out); }
void listFns(Node* n, const std::string& pre, std::vector<std::string>& out) { for (auto& t : n->fns) out.push_back(pre + t.first); for (auto& c : n->scopes) listFns(c.second.get(), pre + c.first + "::", out); }

Function fnWith(int kind, int answer)
{
    switch (kind) {
    case 0: return Function("f", [answer] () { return answer; });
    case 1: return Function("f", [answer] (int) { return answer; });
    case 2: return Function("f", [answer] (const std::string&) { return answer; });
    default: return Function("f", [answer] (Obj&, int) { return answer; });
    }
}
int callFn(const Scope* s, const std::string& name, int kind)
{
    Obj x(1);
    switch (kind) {
    case 0: return s->call<int>(name); case 1: return s->call<int>(name, 5); case 2: return s->call<int>(name, std::string("x")); default: return s->call<int>(name, x, 5);
    }
}
void addRaw(Scope* s, const std::string& name, int kind, int answer)      // the templated form
{
    switch (kind) {
    case 0: s->addFunction(name, [answer] () { return answer; }); break;
    case 1: s->addFunction(name, [answer] (int) { return answer; }); break;
    case 2: s->addFunction(name, [answer] (const std::string&) { return answer; }); break;
    default: s->addFunction(name, [answer] (Obj&, int) { return answer; }); break;
    }
}

// Everything that can be asked about one scope.
void compare(Node* n, const std::string& prefix, bool globalTree)
{
    const Scope* s = n->real;
    VT_EQ(s->name(), n->name, "name"); VT_EQ(s->id(), idOf(n, prefix), "id");
    if (n->parent) VT_CHECK(s->parent() == n->parent->real, "parent of " << s->id());
    VT_EQ(s->isGlobal(), !n->parent && !globalTree, "isGlobal");
    std::vector<std::string> want;
    for (auto& c : n->scopes) want.push_back(c.first);
    VT_EQ(str(sorted(s->scopes())), str(sorted(want)), "scopes() of " << s->id());
    VT_EQ(str(sorted(s->types())), str(sorted(std::vector<std::string>(n->types.begin(), n->types.end()))), "types() of " << s->id());
    want.clear(); listTypes(n, "", want); VT_EQ(str(sorted(s->types(true))), str(sorted(want)), "types(true) of " << s->id());
    want.clear(); for (auto& f : n->fns) want.push_back(f.first); VT_EQ(str(sorted(s->functions())), str(sorted(want)), "functions() of " << s->id());
    want.clear(); listFns(n, "", want); VT_EQ(str(sorted(s->functions(true))), str(sorted(want)), "functions(true) of " << s->id());
}

// A name relative to n: an existing path, a partly existing one, or a missing one.
Path genPath(vt::Gen& g, Node* n, bool existing)
{
    Path p;
    while (g.more(existing ? 3 : 1) && p.size() < 4) {
        if (existing && !n->scopes.empty()) { auto it = n->scopes.begin(); std::advance(it, g.below(n->scopes.size())); p.push_back(it->first); n = it->second.get(); }
        else if (!existing) p.push_back(g.pick(scopeNames));
        else break;
    }
    if (existing && g.chance(1, 5) && p.size() < 4) p.push_back(g.pick(scopeNames));
    return p;
}

} // namespace

VT_PROP(trees, 2500, 120000, "a scope of depth two or more, with a query that misses")
{
    static unsigned long serial = 0;
    const bool globalTree = c.g.coin();
    Node root; std::unique_ptr<Scope> own; std::string prefix;
    if (globalTree) { prefix = "p11_" + std::to_string(serial++); root.real = reflect::scope()->scope(prefix); root.name = prefix; }
    else { own.reset(new Scope()); root.real = own.get(); }
    const Scope* global = reflect::scope();
    std::set<std::string> registered;
    std::map<std::string, const Type*> objects;
    int answers = 0; bool deep = false, missed = false;
    VT_LOG((globalTree ? "global; " : "own; "));
    do {
        std::vector<Node*> nodes; each(&root, [&] (Node* n) { nodes.push_back(n); });
        Node* n = nodes[c.g.below(nodes.size())];
        Scope* s = n->real;
        const std::string here = idOf(n, "");
        if (nodes.size() < 24) switch (c.g.draw(3)) {
        case 0: {
            Path p = genPath(c.g, n, c.g.coin()); if (p.empty()) p.push_back(c.g.pick(scopeNames));
            VT_LOG("scope(" << here << " | " << join(p) << "); ");
            n->make(p); s->scope(join(p));
            if (p.size() > 1) deep = true;
            break; }
        case 1: {
            Path p = genPath(c.g, n, c.g.chance(3, 4)); std::string t = c.g.pick(typeNames);
            Path q = p; q.push_back(t);
            VT_LOG("type(" << here << " | " << join(q) << "); ");
            std::string id = idOf(n, prefix) + (idOf(n, prefix).empty() ? "" : "::") + join(q);
            if (globalTree && c.g.coin()) {
                registered.insert(id);
                Registry::add(id, [] (Type* t) { t->addTrait("p11"); });      // registration puts it in the global scope
            }
            else s->addType(join(q));
            n->make(p)->types.insert(t);
            break; }
        case 2: {
            Path p = genPath(c.g, n, c.g.chance(3, 4)); std::string f = c.g.pick(fnNames);
            Path q = p; q.push_back(f);
            int kind = int(c.g.draw(3)), answer = ++answers * 10 + kind;
            Node* target = n->make(p);
            auto& have = target->fns[f];
            bool dup = false; for (int a : have) if (a % 10 == kind) dup = true;
            VT_LOG("fn(" << here << " | " << join(q) << "/" << kind << (dup ? " refused" : "") << "); ");
            bool raw = c.g.coin();
            VT_EQ(raises([&] { if (raw) addRaw(s, join(q), kind, answer); else s->addFunction(join(q), fnWith(kind, answer)); }), dup, "addFunction " << join(q));
            if (!dup) have.push_back(answer);
            break; }
        default: {          // a type inside of a function is refused
            if (n->fns.empty()) break;
            std::string f = n->fns.begin()->first;
            bool isScope = n->scopes.count(f);
            if (isScope) break;
            VT_CHECK(raises([&] { s->addType(f + "::T0"); }), "a type inside of a function");
            break; }
        }
        each(&root, [&] (Node* m) { if (!m->real) { m->real = m->parent->real->scope(m->name); } });      // the creating form finds what is there

        // Queries, each by the names of some scope, relative to it.
        for (int k = 0; k < 3; ++k) {
            nodes.clear(); each(&root, [&] (Node* n) { nodes.push_back(n); });
            n = nodes[c.g.below(nodes.size())];
            bool fromGlobal = globalTree && c.g.chance(1, 4);
            if (fromGlobal) n = &root;
            const Scope* cs = n->real; Scope* ms = n->real;
            Path p = genPath(c.g, n, c.g.chance(3, 4));
            Node* at = n->find(p);
            std::string pre = join(p);
            if (fromGlobal) { cs = ms = const_cast<Scope*>(global); pre = pre.empty() ? prefix : prefix + "::" + pre; }
            if (!at) missed = true;
            if (!pre.empty()) {
                VT_EQ(cs->hasScope(pre), at != nullptr, "hasScope " << pre);
                if (at) VT_CHECK(cs->scope(pre) == at->real, "scope " << pre);
                else VT_CHECK(raises([&] { cs->scope(pre); }), "scope " << pre << " which is absent");
                if (globalTree && fromGlobal) { if (at) VT_CHECK(reflect::scope(pre) == at->real, "reflect::scope"); else VT_CHECK(raises([&] { reflect::scope(pre); }), "reflect::scope of a missing one"); }
            }
            std::string q = pre.empty() ? "" : pre + "::";
            {
                std::string t = c.g.pick(typeNames);
                bool has = at && at->types.count(t);
                VT_EQ(ms->hasType(q + t), has, "hasType " << q + t);
                std::string id = at ? idOf(at, prefix) + (idOf(at, prefix).empty() ? "" : "::") + t : "";
                if (has && registered.count(id)) {
                    const Type* ty = ms->type(q + t);
                    VT_EQ(ty->id(), id, "type " << q + t);
                    auto& o = objects[id]; VT_CHECK(!o || o == ty, "another object for " << id); o = ty;
                    VT_CHECK(reflect::type(id) == ty && ty->is("p11"), "the registry's object of " << id);
                }
                else { missed = true; VT_CHECK(raises([&] { ms->type(q + t); }), "type " << q + t << " which is absent or not registered"); }
            }
            {
                std::string f = c.g.pick(fnNames);
                auto it = at ? at->fns.find(f) : decltype(at->fns.find(f))();
                bool has = at && it != at->fns.end();
                VT_EQ(cs->hasFunction(q + f), has, "hasFunction " << q + f);
                if (has) {
                    VT_EQ(cs->function(q + f).size(), it->second.size(), "overloads of " << q + f);
                    VT_CHECK(&ms->function(q + f) == &cs->function(q + f), "both forms of function()");
                    for (int a : it->second) VT_EQ(callFn(cs, q + f, a % 10), a, "call " << q + f);
                }
                else {
                    missed = true;
                    VT_CHECK(raises([&] { cs->function(q + f); }) && raises([&] { ms->function(q + f); }) && raises([&] { callFn(cs, q + f, 0); }), "function " << q + f << " which is absent");
                }
            }
            if (c.g.chance(1, 6)) {       // names that are not names
                std::string bad = q + c.g.oneOf<const char*>({ "a:b", "s0:x", "a<b", "a>b", "s0<", ":" });
                auto no = [&] (const std::function<bool()>& f) { try { return !f(); } catch (const Error&) { return true; } };      // false, or an error
                VT_CHECK(no([&] { return cs->hasScope(bad); }) && no([&] { return ms->hasType(bad); }) && no([&] { return cs->hasFunction(bad); }), "malformed name " << bad);
                VT_CHECK(raises([&] { cs->scope(bad); }) && raises([&] { ms->type(bad); }) && raises([&] { ms->function(bad); }), "malformed name " << bad);
                if (pre.empty()) VT_CHECK(raises([&] { cs->hasScope(bad); }) && raises([&] { ms->hasType(bad); }) && raises([&] { cs->hasFunction(bad); }), "malformed local name " << bad);
            }
            if (c.g.chance(1, 10)) VT_CHECK(!n->real->print().empty(), "print");
            compare(n, prefix, globalTree);
        }
    } while (c.g.more(18));
    each(&root, [&] (Node* n) {
            compare(n, prefix, globalTree);
            for (auto& f : n->fns) for (int a : f.second) VT_EQ(callFn(n->real, f.first, a % 10), a, "at the end: call " << f.first);
        });
    if (globalTree) {      // and seen from the global scope
        std::vector<std::string> want, got;
        listTypes(&root, prefix + "::", want); for (auto& t : global->types(true)) if (t.find(prefix + "::") == 0) got.push_back(t);
        VT_EQ(str(sorted(got)), str(sorted(want)), "types(true) of the global scope");
        want.clear(); got.clear();
        listFns(&root, prefix + "::", want); for (auto& t : global->functions(true)) if (t.find(prefix + "::") == 0) got.push_back(t);
        VT_EQ(str(sorted(got)), str(sorted(want)), "functions(true) of the global scope");
    }
    c.nontrivial(deep && missed);
    if (deep) c.label("deep"); if (globalTree) c.label("global");
}

/* ------------------------------------------------------------------ what the macros declare */

namespace p11 { int var = 3; const int cvar = 4; int fn(int x) { return x * 2; } int over(int x) { return x; } int over(const std::string& s) { return int(s.size()); }
    struct In { int x; }; namespace deep { int fn() { return 9; } struct In2 {}; } }
namespace p11other { int fn() { return 1; } }

reflectType(p11::In) {}
reflectType(p11::deep::In2) {}
reflectScope(p11)
{
    reflectScopeTrait(flag); reflectScopeValue(num, 12);
    reflectGlobalFn(p11::fn); reflectGlobalVar(p11::var); reflectGlobalVar(p11::cvar);
    reflectGlobalFnTyped(p11::over, int (*) (int)); reflectGlobalFnTyped(p11::over, int (*) (const std::string&));
}
reflectScope(p11::deep) { reflectGlobalFn(p11::deep::fn); }
reflectScope(p11other) { reflectGlobalFn(p11other::fn); }

VT_PROP(declared, 400, 4000, "every case")
{
    const Scope* g = reflect::scope();
    const Scope* s = reflect::scope("p11");
    c.nontrivial();
    int x = int(c.g.range(-1000, 1000)); std::string str = c.g.word(9);
    VT_LOG(x << " " << str);
    VT_EQ(g->call<int>("p11::fn", x), x * 2, ""); VT_EQ(s->call<int>("fn", x), x * 2, "");
    VT_EQ(s->call<int>("over", x), x, ""); VT_EQ(g->call<int>("p11::over", str), int(str.size()), "");
    VT_EQ(s->call<int>("deep::fn"), 9, ""); VT_EQ(reflect::scope("p11::deep")->call<int>("fn"), 9, ""); VT_EQ(g->call<int>("p11other::fn"), 1, "");
    p11::var = x; VT_EQ(s->call<int>("var"), x, "variable read"); s->call<void>("var", x + 1); VT_EQ(p11::var, x + 1, "variable written");
    VT_EQ(s->call<int>("cvar"), 4, ""); VT_CHECK(raises([&] { s->call<void>("cvar", x); }), "a const variable is not written");
    VT_CHECK(reflect::scope("p11")->type("In") == type<p11::In>() && reflect::scope("p11::deep")->type("In2") == type<p11::deep::In2>() && reflect::scope()->type("p11::deep::In2") == type<p11::deep::In2>(), "types");
    VT_CHECK(s->is("flag") && s->getValue<int>("num") == 12 && !g->is("flag") && !reflect::scope("p11other")->is("flag"), "traits");
    VT_CHECK(reflect::scope()->hasType("int") && reflect::scope()->type("int") == type<int>(), "primitives are in the global scope");
    VT_CHECK(reflect::scope("p11::deep")->parent() == s && s->parent() == g && g->isGlobal() && !s->isGlobal() && g->id() == "" && s->id() == "p11" && reflect::scope("p11::deep")->id() == "p11::deep", "tree");
}
