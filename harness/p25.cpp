// P25: lookups, calls and json from several threads at once.
#include "json_run.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"

#include <pthread.h>
#include <sched.h>
#include <thread>

using namespace reflect;

/* ------------------------------------------------------------------ classes */

namespace p25 {

// Loaders: how often each ran, and how long they take.
struct Loads { std::string id; std::atomic<int> n; };
enum { MaxLoads = 600 };
static Loads loads[MaxLoads]; static std::atomic<int> nLoads(0);
static std::atomic<unsigned> slow(0);              // how much loaders dawdle

void dawdle(unsigned n) { for (unsigned i = 0; i < n; ++i) sched_yield(); }

void loading(Type* t)
{
    int i = nLoads++;
    if (i < MaxLoads) { loads[i].id = t->id(); loads[i].n = 1; }
    dawdle(slow);
}

template<typename T> struct Box { T t; int n; Box() : t(), n(0) {} const T& get() const { return t; } int twice(int x) const { return x * 2; } };
template<typename T> struct Ring { Box<Ring<T>>* next; Ring<T>* self; T* item; Ring() : next(), self(), item() {} int length() const { return 1; } };
template<typename T> struct Kid : public Box<T> { Box<T*> more; std::vector<Kid<T>*> kids; };
struct One { int i = 1; }; struct Two { double d = 2; One one; }; struct Three : public Two { std::string s = "3"; std::vector<Two> twos; };
struct Calc
{
    int64_t sum = 0; std::string text;
    Calc() {} Calc(int64_t x) : sum(x) {}
    int64_t add(int64_t x) { return sum += x; }
    void append(const std::string& s) { text += s; }
    std::string both() const { return text + "#" + std::to_string(sum); }
    Calc& self() { return *this; }
    operator std::string() const { return both(); }
    int64_t over(int64_t x) const { return x + 1; } std::string over(const std::string& s) const { return s + "!"; }
    void take(Calc* p) { p->sum++; }
};
struct SubCalc : public Calc { Two two; };
std::string describe(const Calc& c) { return "calc " + c.both(); }

} // namespace p25

reflectTypeDecl(p25::One) reflectTypeDecl(p25::Two) reflectTypeDecl(p25::Three) reflectTypeDecl(p25::Calc) reflectTypeDecl(p25::SubCalc)

reflectTypeImpl(p25::One) { p25::loading(type_); reflectPlumbing(); reflectField(i); }
reflectTypeImpl(p25::Two) { p25::loading(type_); reflectPlumbing(); reflectField(d); reflectField(one); }
reflectTypeImpl(p25::Three) { reflectParent(p25::Two); p25::loading(type_); reflectPlumbing(); reflectField(s); reflectField(twos); }
reflectTypeImpl(p25::Calc)
{
    p25::loading(type_);
    reflectPlumbing(); reflectCons(int64_t); reflectField(sum); reflectField(text); reflectFn(add); reflectFn(append); reflectFn(both); reflectFn(self); reflectOpCast(std::string);
    reflectFnTyped(over, int64_t (p25::Calc::*)(int64_t) const); reflectFnTyped(over, std::string (p25::Calc::*)(const std::string&) const); reflectFn(take);
}
reflectTypeImpl(p25::SubCalc) { reflectParent(p25::Calc); p25::loading(type_); reflectPlumbing(); reflectField(two); }

reflectTemplate(p25::Box, T) { p25::loading(type_); reflectTypeValue(inner, type<T>()); reflectField(t); p25::dawdle(p25::slow); reflectField(n); reflectFn(get); reflectFn(twice); reflectTypeTrait(box); }
reflectTemplate(p25::Ring, T) { p25::loading(type_); reflectField(next); p25::dawdle(p25::slow); reflectField(self); reflectField(item); reflectFn(length); reflectTypeTrait(ring); }
reflectTemplate(p25::Kid, T) { reflectParent(p25::Box<T>); p25::loading(type_); reflectField(more); p25::dawdle(p25::slow); reflectField(kids); reflectTypeTrait(kid); }

namespace p25 {

/* ------------------------------------------------------------------ what a type looks like */

std::string traitsOf(const Traits& t)
{
    auto v = t.traits(); std::sort(v.begin(), v.end());
    std::string s; for (auto& x : v) s += x + ",";
    return s;
}

std::string idOf(const Type* t) { return t ? t->id() : "-"; }

std::string look(const Type* t)
{
    std::ostringstream ss;
    ss << t->id() << " parent " << idOf(t->parent()) << " pointer " << t->isPointer() << " " << (t->isPointer() ? t->pointer() : "") << " " << idOf(t->isPointer() ? t->pointee() : nullptr) << " traits " << traitsOf(*t);
    if (t->is("list") || t->is("map")) ss << " of " << idOf(t->getValue<const Type*>("valueType"));
    ss << " fields ";
    auto fs = t->fields(); std::sort(fs.begin(), fs.end());
    for (auto& f : fs) { const Field& x = t->field(f); ss << f << "=" << idOf(x.type()) << "@" << x.offset() << "(" << traitsOf(x) << ") "; }
    ss << " functions ";
    auto ns = t->functions(); std::sort(ns.begin(), ns.end());
    for (auto& n : ns) {
        const Overloads& o = t->function(n);
        ss << n;
        for (size_t i = 0; i < o.size(); ++i) { ss << "/" << o[i].returnType().print() << "("; for (size_t k = 0; k < o[i].arguments(); ++k) ss << o[i].argument(k).print() << ","; ss << ")"; }
        ss << " ";
    }
    ss << (t->isCopiable() ? "copiable " : "") << (t->isMovable() ? "movable" : "");
    return ss.str();
}

struct Ty { std::string id; const Type* (*get)(); bool byId; };
template<typename T> const Type* getType() { return type<T>(); }

std::vector<Ty> types()
{
    std::vector<Ty> v;
    #define TY(T, byId) do { typedef T X; v.push_back(Ty{ typeId<X>(), getType<X>, byId }); } while (0)
    #define FAMILY(T) do { TY(Box<T>, false); TY(Ring<T>, false); TY(Kid<T>, false); TY(Box<Box<T>>, false); TY(Ring<Box<T>>, false); TY(Box<Ring<T>>, false); TY(T*, false); TY(T**, false); TY(Box<T>*, false); TY(Kid<Box<T>>, false); TY(Box<Kid<T>>, false); } while (0)
    #define CONTS(T) do { TY(std::vector<T>, false); TY(std::shared_ptr<T>, false); TY(std::unique_ptr<T>, false); typedef std::map<std::string, T> M; TY(M, false); TY(std::vector<std::shared_ptr<T>>, false); TY(Box<std::vector<T>>, false); } while (0)
    FAMILY(One); FAMILY(Three); FAMILY(int); FAMILY(std::string);
    CONTS(One); CONTS(int); CONTS(std::string);
    TY(One, true); TY(Two, true); TY(Three, true); TY(Calc, true); TY(SubCalc, true); TY(int, true); TY(std::string, true); TY(double, true); TY(long, true); TY(bool, true); TY(char, true); TY(Value, true); TY(void, true);
    TY(jz::Tree, true); TY(jz::Leaf, true); TY(jz::Conts, true); TY(jz::Traited, true);
    return v;
}
const std::vector<Ty>& allTypes() { static const std::vector<Ty> v = types(); return v; }

/* ------------------------------------------------------------------ scripts */

struct Dyn { std::string id; std::vector<int> refs; int fields; unsigned lag; bool calls; };      // a dynamic id, and what its loader does

struct Op { int kind; size_t a, b; int64_t n; std::string s; jr::JV state; unsigned lag; };
enum { ByType, ById, Dynamic, Alias, Unknown, Call, Print, Parse, Wrap, Cast, Scoped };

struct Plan
{
    std::vector<Dyn> dyn;
    std::vector<std::vector<std::vector<Op>>> threads;    // thread, round, ops
    unsigned slow;
};

struct Shared            // between the threads of a case
{
    std::vector<std::atomic<const Type*>> seen, dynSeen; std::vector<std::atomic<int>> dynLoads, aliased; std::atomic<int> wrong;
    Shared() : seen(allTypes().size()), dynSeen(16), dynLoads(16), aliased(16), wrong(0)
    { for (auto& x : seen) x = nullptr; for (auto& x : dynSeen) x = nullptr; for (auto& x : dynLoads) x = 0; for (auto& x : aliased) x = 0; }
};

void same(std::atomic<const Type*>& slot, const Type* t, const std::string& what)
{
    if (!t) VT_FAIL("no type for " << what);
    const Type* none = nullptr;
    if (!slot.compare_exchange_strong(none, t) && none != t) VT_FAIL("two Type objects for " << what);
}

void addDyn(const Plan& p, Shared& sh, int d)
{
    const Dyn& x = p.dyn[d];
    Registry::add(x.id, [&p, &sh, d] (Type* t) {
        const Dyn& x = p.dyn[d];
        sh.dynLoads[d]++;
        dawdle(x.lag);
        for (int r : x.refs) addDyn(p, sh, r);
        for (size_t i = 0; i < x.refs.size(); ++i) {
            dawdle(x.lag);
            const Type* ref = type(p.dyn[x.refs[i]].id);
            t->addField("ref" + std::to_string(i), Field("ref" + std::to_string(i), Argument(ref, RefType::Copy, false), i * 8));
        }
        for (int i = 0; i < x.fields; ++i) { t->addField<int>("f" + std::to_string(i), size_t(100 + i * 4)); dawdle(x.lag); }
        t->addFunction("fn", [] (int v) { return v + 1; });
        if (x.calls) { dawdle(x.lag); int one = 1; if (t->call<int>("fn", one) != 2) sh.wrong++; }
        t->addTrait("complete");
    });
}

void lookDyn(const Plan& p, Shared& sh, int d, const Type* t, std::ostream& log)
{
    const Dyn& x = p.dyn[d];
    same(sh.dynSeen[d], t, x.id);
    if (!t->is("complete") || t->fields().size() != x.refs.size() + size_t(x.fields) || !t->hasFunction("fn")) VT_FAIL("a partial type for " << x.id << ": " << look(t));
    for (size_t i = 0; i < x.refs.size(); ++i) {
        const Type* ref = t->field("ref" + std::to_string(i)).type();
        same(sh.dynSeen[x.refs[i]], ref, p.dyn[x.refs[i]].id);
        if (!ref->is("complete")) VT_FAIL("a partial type for " << ref->id() << ", a field of " << x.id);
    }
    log << look(t);
}

void completeTemplates(const Type* t)
{
    const std::string& id = t->id();
    if (id.back() == '*') return;
    if (id.compare(0, 9, "p25::Box<") == 0) { if (!t->is("box") || t->fields().size() != 2 || t->functions().size() < 2) VT_FAIL("a partial type for " << id << ": " << look(t)); }
    if (id.compare(0, 10, "p25::Ring<") == 0) { if (!t->is("ring") || t->fields().size() != 3 || t->functions().size() < 1) VT_FAIL("a partial type for " << id << ": " << look(t)); }
    if (id.compare(0, 9, "p25::Kid<") == 0) { if (!t->is("kid") || t->fields().size() != 4 || !t->parent()) VT_FAIL("a partial type for " << id << ": " << look(t)); }
}

struct Own        // what a thread owns
{
    std::string ns; int fns = 0;      // the scope of its own, and the functions there
    Calc calc; SubCalc sub; Value value; std::map<size_t, std::unique_ptr<jz::Object>> objs;
    jz::Object& obj(size_t t) { auto& x = objs[t]; if (!x) x.reset(new jz::Object(jz::targets()[t])); return *x; }
};

void runOp(const Plan& p, Shared& sh, Own& own, const Op& op, std::ostream& log)
{
    dawdle(op.lag);
    switch (op.kind) {
    case ByType: { const Ty& t = allTypes()[op.a]; const Type* x = t.get(); same(sh.seen[op.a], x, t.id); completeTemplates(x); if (op.n & 1) log << look(x); else log << x->id(); break; }
    case ById: {
        const Ty& t = allTypes()[op.a];
        if (!t.byId) t.get();
        const Type* x = type(t.id); same(sh.seen[op.a], x, t.id); log << look(x); break; }
    case Dynamic: { int d = int(op.a); if (op.n & 1) addDyn(p, sh, d); addDyn(p, sh, d); lookDyn(p, sh, d, type(p.dyn[d].id), log); break; }
    case Alias: {
        const Ty& t = allTypes()[op.a]; std::string alias = "alias::" + std::to_string(op.a);
        t.get();
        bool refused = false; try { Registry::alias(t.id, alias); sh.aliased[op.a % 16]++; } catch (const reflect::Error&) { refused = true; }
        const Type* x = type(alias); same(sh.seen[op.a], x, alias); log << x->id(); break; }
    case Unknown: try { type(op.s); log << "found"; } catch (const reflect::Error& e) { log << e.what(); } break;
    case Call: {
        switch (op.b % 9) {
        case 0: log << type<Calc>()->call<int64_t>("add", own.calc, op.n); break;
        case 1: { Value v(own.calc); v.call<void>("append", op.s); log << v.call<std::string>("both"); break; }
        case 2: { Value v = type<Calc>()->construct(op.n); log << v.field<int64_t>("sum") << v.call<std::string>("both"); break; }
        case 3: { Value v(own.sub); log << v.call<int64_t>("over", op.n) << v.call<std::string>("over", op.s); break; }
        case 4: { Value v(own.sub); v.field("sum").assign(op.n); v.field("two").field("one").field("i").assign(int(op.n)); log << own.sub.sum << own.sub.two.one.i; break; }
        case 5: { Function f("describe", describe); log << f.call<std::string>(own.calc); try { f.call<std::string>(op.n); log << "called"; } catch (const reflect::Error& e) { log << e.what(); } break; }
        case 6: { Calc* q = &own.calc; Value v(own.calc); v.call<void>("take", q); v.call<void>("take", &own.sub); log << own.calc.sum << own.sub.sum; break; }
        case 7: { std::vector<Calc> vec; Value v(vec); v.call<void>("push_back", own.calc); v.call<void>("push_back", own.sub); log << v.call<size_t>("size") << vec.back().both(); break; }
        default: { std::map<std::string, int64_t> m; Value v(m); v[op.s].assign(op.n); log << m.size() << m[op.s]; try { v.call<void>("nothing"); } catch (const reflect::Error& e) { log << e.what(); } break; }
        }
        break; }
    case Print: {
        jz::Object& o = own.obj(op.a);
        o.fill(op.state);
        jz::Outcome r = jz::print(o, unsigned(op.n), int(op.b));
        log << r.raised << r.failed << r.text << r.error; break; }
    case Parse: {
        if (op.a == jz::DynamicTarget) own.objs.erase(op.a);
        jz::Object& o = own.obj(op.a);
        jz::Outcome r = jz::parse(o, op.s, jr::Opts{ true, true, true }, int(op.b));
        log << r.raised << r.failed << r.error; log << (r.raised || r.failed ? "" : jr::show(o.dump(), 4000)); break; }
    case Wrap: {
        const Type* x = nullptr;
        switch (op.b % 6) {
        case 0: { Box<One> b; own.value = Value(std::move(b)); x = own.value.type(); break; }
        case 1: { Kid<int> b; Value v(b); x = v.type(); log << v.field("n").get<int>(); break; }
        case 2: { std::vector<One> b(3); own.value = Value(std::move(b)); x = own.value.type(); log << own.value.call<size_t>("size"); break; }
        case 3: { std::shared_ptr<One> b(new One); Value v(b); x = v.type(); log << (*v).field<int>("i"); break; }
        case 4: { Three b; Value v(b); x = v.type(); log << v.is("nothing") << v.field("one").field<int>("i"); break; }
        default: { int i = int(op.n); int* b = &i; Value v(b); x = v.type(); log << (*v).get<int>(); break; }
        }
        log << look(x); break; }
    case Scoped: {      // scopes are looked at, and added to, while types are registered in them
        const Ty& t = allTypes()[op.a];
        Scope* global = scope(); const Scope* cglobal = global;
        switch (op.b) {
        case 0: { t.get(); const Type* x = global->type(t.id); same(sh.seen[op.a], x, t.id + " in the global scope"); completeTemplates(x); log << x->id() << global->hasType(t.id); break; }
        case 1: {
            t.get(); auto split = Scope::head(t.id);
            if (split.second.empty()) { log << global->hasType(t.id); break; }
            Scope* s = scope(split.first); const Type* x = s->type(split.second); same(sh.seen[op.a], x, split.second + " in " + split.first); log << s->hasType(split.second) << s->id() << (s->parent() == global);
            break; }
        case 2: { t.get(); auto all = global->types(true); log << std::count(all.begin(), all.end(), t.id); break; }
        case 3: { std::string name = own.ns + "::deep::f" + std::to_string(own.fns); int k = own.fns++; global->addFunction(name, [k] (int v) { return v + k; }); log << cglobal->call<int>(name, int(op.n)) << cglobal->hasFunction(name); break; }
        case 4: {
            Scope* s = global->scope(own.ns); s->scope("inner")->addFunction("g" + std::to_string(own.fns++), [] (int v) { return v * 2; });
            auto all = s->functions(true); std::sort(all.begin(), all.end()); log << all.size(); for (auto& f : all) log << f << cglobal->hasFunction(own.ns + "::" + f) << s->call<int>(f, 3);
            break; }
        case 5: { log << cglobal->hasScope("p25") << cglobal->hasScope(own.ns + "::absent") << global->hasType("p25::Absent") << cglobal->hasFunction("absent::f"); try { scope(own.ns + "::absent"); log << "found"; } catch (const reflect::Error& e) { log << e.what(); } break; }
        case 6: { auto all = global->scopes(); log << std::count(all.begin(), all.end(), "p25") << std::count(all.begin(), all.end(), "std"); break; }
        case 7: { std::string text = scope("p25")->print(); log << text.substr(0, 9); break; }
        default: { t.get(); auto a = global->functions(true); auto b = global->types(); log << (std::set<std::string>(a.begin(), a.end()).size() == a.size()) << (std::set<std::string>(b.begin(), b.end()).size() == b.size()); break; }
        }
        break; }
    case Cast: {
        Value v(own.sub); const Calc& c = v.get<Calc>(); log << c.sum << cast<std::string>(Value(own.calc));
        log << type<SubCalc>()->isChildOf<Calc>() << type<Calc>()->isChildOf<SubCalc>() << type<int>()->hasConverter<long>() << cast<int64_t>(Value(own.calc.sum));
        try { v.get<One>(); log << "one"; } catch (const reflect::Error& e) { log << e.what(); }
        break; }
    }
    log << "\n";
}

struct Barrier { pthread_barrier_t b; explicit Barrier(unsigned n) { pthread_barrier_init(&b, nullptr, n); } ~Barrier() { pthread_barrier_destroy(&b); } void wait() { pthread_barrier_wait(&b); } };

// The log of a thread; fault is what went wrong, which ends its script.
void runThread(const Plan& p, Shared& sh, size_t t, Barrier* bar, std::string& log, std::string& fault)
{
    Own own; own.ns = "thread" + std::to_string(t);
    std::ostringstream ss;
    for (auto& round : p.threads[t]) {
        if (bar) bar->wait();
        if (!fault.empty()) continue;
        for (size_t i = 0; i < round.size() && fault.empty(); ++i) {
            try { runOp(p, sh, own, round[i], ss); }
            catch (const vt::Failure& f) { fault = f.msg; }
            catch (const std::exception& e) { fault = std::string("unexpected exception: ") + e.what(); }
        }
    }
    log = ss.str();
}

std::string alone(const Plan& p, size_t from, size_t to)      // the logs of threads run one after the other in a fresh process
{
    int fd[2];
    if (pipe(fd)) VT_FAIL("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Shared sh; std::string all;
        for (size_t t = from; t < to; ++t) { std::string log, fault; runThread(p, sh, t, nullptr, log, fault); all += log + "\1" + fault + "\2"; }
        for (size_t at = 0; at < all.size();) { ssize_t n = write(fd[1], all.data() + at, all.size() - at); if (n <= 0) _exit(3); at += size_t(n); }
        _exit(0);
    }
    close(fd[1]);
    std::string r; char buf[65536]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, size_t(n));
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) VT_FAIL("the scripts fail on their own: " << st);
    return r;
}

const char* kinds[] = { "type", "id", "dynamic", "alias", "unknown", "call", "print", "parse", "wrap", "cast", "scope" };

std::string opText(const Plan& p, const Op& op)
{
    std::ostringstream ss;
    ss << kinds[op.kind] << "(";
    if (op.kind == ByType || op.kind == ById || op.kind == Alias || op.kind == Scoped) ss << allTypes()[op.a].id << (op.kind == Scoped ? " " + std::to_string(op.b) : "");
    else if (op.kind == Dynamic) { ss << p.dyn[op.a].id; for (int r : p.dyn[op.a].refs) ss << ">" << r; }
    else if (op.kind == Print) ss << jz::targets()[op.a].name << " " << op.b << " " << vt::quote(jr::show(op.state, 60), 60);
    else if (op.kind == Parse) ss << jz::targets()[op.a].name << " " << op.b << " " << vt::quote(op.s, 60);
    else if (op.kind == Unknown) ss << op.s;
    else ss << op.b;
    ss << ")";
    return ss.str();
}

Op genOp(vt::Gen& g, const Plan& p, const std::vector<size_t>& hot, const std::vector<size_t>& jsons)
{
    Op op{ 0, 0, 0, 0, "", jr::JV(), 0 };
    unsigned k = unsigned(g.draw(18));
    op.kind = k < 5 ? ByType : k == 5 ? ById : k < 8 ? Dynamic : k == 8 ? Alias : k == 9 ? Unknown : k == 10 ? Call : k == 11 || k == 12 ? Print : k == 13 ? Parse : k == 14 ? Wrap : k > 15 ? Scoped : g.coin() ? Cast : Call;
    op.n = g.small(); op.b = g.below(9);
    switch (op.kind) {
    case ByType: case ById: case Alias: case Scoped: op.a = g.pick(hot); break;
    case Dynamic: op.a = g.below(p.dyn.size()); break;
    case Unknown: op.s = g.oneOf<const char*>({ "no::such", "zzz", "Box<int>", "p25::Nothing" }); break;
    case Call: op.s = g.word(); break;
    case Print: op.a = g.pick(jsons); op.b = g.draw(3); op.n = int64_t(g.draw(15)); op.state = jz::genState(g, *jz::targets()[op.a].shape, 2); break;
    case Parse: {
        op.a = g.pick(jsons); op.b = g.draw(2);
        const jz::Target& t = jz::targets()[op.a];
        jr::DocStyle st; st.unknown = st.repeat = st.nulls = false; st.partial = g.coin();
        op.s = g.chance(1, 8) ? jr::soup(g) : jr::render(g, jr::genDoc(g, *t.shape, 2, st), g.coin(), false, g.coin());
        break; }
    default: break;
    }
    if (g.chance(1, 3)) op.lag = unsigned(g.draw(6));
    return op;
}

} // namespace p25

using namespace p25;

/* ------------------------------------------------------------------ the property */

VT_PROP_SCHED(threads, 1500, 24000, "two or more threads first look up or use the same type in the same round")
{
    allTypes(); jz::targets();
    auto& g = c.g;
    Plan p;
    p.slow = unsigned(g.draw(4));
    size_t nd = 1 + g.draw(9);
    for (size_t i = 0; i < nd; ++i) {
        Dyn d{ "dyn::d" + std::to_string(i), {}, int(g.draw(3)), unsigned(g.draw(4)), g.coin() };
        while (g.more(2)) { int r = int(g.below(nd)); if (std::find(d.refs.begin(), d.refs.end(), r) == d.refs.end()) d.refs.push_back(r); }
        p.dyn.push_back(d);
    }
    size_t threads = 2 + g.draw(6), rounds = 1 + g.draw(3);
    p.threads.resize(threads);
    std::set<std::string> used; bool shared = false;
    for (size_t r = 0; r < rounds; ++r) {
        std::vector<size_t> hot, jsons;
        for (size_t n = 1 + g.draw(4); n; --n) hot.push_back(g.below(allTypes().size()));
        for (size_t n = 1 + g.draw(1); n; --n) jsons.push_back(jz::pickTarget(g));
        std::vector<Op> all;                      // every thread begins with the same ones
        if (g.coin()) { size_t n = 1 + g.draw(3); while (n--) all.push_back(genOp(g, p, hot, jsons)); }
        std::map<std::string, int> who;
        for (size_t t = 0; t < threads; ++t) {
            std::vector<Op> ops = all;
            for (size_t n = g.draw(5); n; --n) ops.push_back(genOp(g, p, hot, jsons));
            if (all.size() > 1 && g.chance(1, 3)) std::swap(ops[0], ops[1]);
            VT_LOG("round " << r << " thread " << t << ":");
            std::set<std::string> mine;
            for (auto& op : ops) { std::string x = opText(p, op); VT_LOG(" " << x); c.label(kinds[op.kind]); mine.insert(x.substr(0, x.find(' '))); }
            VT_LOG("\n");
            for (auto& x : mine) if (!used.count(x)) who[x]++;
            p.threads[t].push_back(ops);
        }
        for (auto& x : who) { used.insert(x.first); if (x.second > 1) shared = true; }
    }
    c.nontrivial(shared);
    c.label(std::to_string(threads) + " threads");

    // On their own first, in other processes.
    slow = 0;
    std::string expected;
    if (g.chance(1, 4)) for (size_t t = 0; t < threads; ++t) expected += alone(p, t, t + 1);
    else expected = alone(p, 0, threads);

    slow = p.slow;
    Shared sh; Barrier bar{ unsigned(threads) };
    std::vector<std::string> logs(threads), faults(threads);
    {
        std::vector<std::thread> ths;
        for (size_t t = 0; t < threads; ++t) ths.emplace_back([&, t] { runThread(p, sh, t, &bar, logs[t], faults[t]); });
        for (auto& t : ths) t.join();
    }
    std::string got;
    for (size_t t = 0; t < threads; ++t) { VT_CHECK(faults[t].empty(), "thread " << t << ": " << faults[t]); got += logs[t] + "\1" + faults[t] + "\2"; }
    if (got != expected) {
        size_t i = 0; while (i < got.size() && i < expected.size() && got[i] == expected[i]) ++i;
        size_t b = i < 150 ? 0 : i - 150;
        VT_FAIL("together " << vt::quote(got.substr(b, 400)) << " alone " << vt::quote(expected.substr(b, 400)));
    }

    // Loaders ran once.
    std::set<std::string> ids;
    VT_CHECK(nLoads < MaxLoads, "loaders ran " << nLoads << " times");
    for (int i = 0; i < nLoads; ++i) VT_CHECK(ids.insert(loads[i].id).second, "the loader of " << loads[i].id << " ran twice");
    for (size_t d = 0; d < p.dyn.size(); ++d) {
        VT_CHECK(sh.dynLoads[d] <= 1, "the loader of " << p.dyn[d].id << " ran " << sh.dynLoads[d] << " times");
        if (sh.dynSeen[d]) VT_EQ(sh.dynLoads[d].load(), 1, "loads of " << p.dyn[d].id);
    }
    VT_EQ(sh.wrong.load(), 0, "wrong calls");
    // And what was seen is what there is now.
    for (size_t i = 0; i < allTypes().size(); ++i) if (sh.seen[i]) VT_CHECK(allTypes()[i].get() == sh.seen[i] && type(allTypes()[i].id) == sh.seen[i], "another type for " << allTypes()[i].id);
    for (size_t d = 0; d < p.dyn.size(); ++d) if (sh.dynSeen[d]) VT_CHECK(type(p.dyn[d].id) == sh.dynSeen[d], "another type for " << p.dyn[d].id);
}

// The first calls of a process, while loaders call too.
VT_PROP_SCHED(first_calls, 1500, 30000, "a loader that calls, and a thread that calls")
{
    auto& g = c.g;
    size_t threads = 3 + g.draw(5);
    std::vector<unsigned> role(threads), lag(threads), inner(threads);
    bool l = false, f = false;
    for (size_t t = 0; t < threads; ++t) { role[t] = unsigned(g.draw(2)); lag[t] = unsigned(g.draw(3)); inner[t] = unsigned(g.draw(3)); (role[t] ? l : f) = true; VT_LOG((role[t] ? "loader " : "call ") << lag[t] << " " << inner[t] << "\n"); }
    c.nontrivial(l && f);
    // Types without functions, made beforehand: matching them takes no lookup.
    static Type one("first::one"), two("first::two");
    const Argument arg(&one, RefType::Copy, false), other(&two, RefType::Copy, false);
    auto match = [&] { return arg.isConvertibleTo(arg) != Match::None && arg.isConvertibleTo(other) == Match::None; };
    std::atomic<int> loads(0), wrong(0);
    Barrier bar{ unsigned(threads) };
    std::vector<std::thread> ths;
    for (size_t t = 0; t < threads; ++t) ths.emplace_back([&, t] {
        std::string id = "first::t" + std::to_string(t);
        try {
            bar.wait();
            dawdle(lag[t]);
            if (role[t]) {
                Registry::add(id, [&] (Type* x) { loads++; dawdle(inner[t]); if (!match()) wrong++; if (inner[t] & 1) x->addFunction("plus", [] (int v) { return v + 1; }); x->addTrait("done"); });
                if (!type(id)->is("done")) wrong++;
            }
            else {
                if (!match()) wrong++;
                if (inner[t] == 2) { int v = 1; Function fn("plus", [] (int v) { return v + 1; }); if (fn.call<int>(v) != 2) wrong++; }
            }
        }
        catch (const std::exception& e) { wrong++; }
    });
    for (auto& t : ths) t.join();
    VT_EQ(wrong.load(), 0, "wrong results");
    VT_EQ(loads.load(), int(std::count_if(role.begin(), role.end(), [] (unsigned r) { return r != 0; })), "loaders run");
}
