/* vt.h - a small property-based-testing engine.

   A case is a pure function of a list of bounded integers ("choices").  While searching, choices come
   from a splitmix64 stream seeded by (VERIF_SEED, property name, case index); while shrinking or
   replaying they come from a recorded list (0 once it is exhausted, and 0 is always the simplest
   alternative).  Cases run in forked workers so that crashes and hangs are failures like any other, and
   shrink like any other.
*/
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <stdexcept>
#include <atomic>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vt {

/* ------------------------------------------------------------------ shared memory */

enum { MaxChoices = 1 << 18, MaxMsg = 1 << 14, MaxLog = 1 << 16, MaxWorkers = 16,
       MaxLabels = 400, MaxSamples = 6, HashBits = 22 };

enum Status { Running = 0, Pass, Fail, Crash, Hang };

struct Slot
{
    std::atomic<uint64_t> index;      // case being run
    std::atomic<uint64_t> started;    // monotonic ms at its start
    std::atomic<int> status;
    std::atomic<int> wait;            // wait status of an isolated case that died
    std::atomic<uint64_t> n;
    uint64_t choices[MaxChoices];
    char msg[MaxMsg];
    char log[MaxLog];
};

struct Label { char name[80]; std::atomic<uint64_t> count; };

struct Shared
{
    std::atomic<uint64_t> evaluations, nontrivial, distinct, discarded;
    std::atomic<uint64_t> minFail;    // lowest failing index seen so far
    std::atomic<int> labelLock;
    std::atomic<int> nLabels;
    Label labels[MaxLabels];
    std::atomic<int> nSamples;
    char samples[MaxSamples][1400];
    std::atomic<uint64_t> hashes[1 << HashBits];
};

template<typename T> T* shared()
{
    void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<T*>(p);
}

inline uint64_t nowMs()
{
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return uint64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

inline uint64_t mix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    uint64_t x = h; return mix(x) | 1;
}

/* ------------------------------------------------------------------ generation */

struct Failure { std::string msg; };
struct Discard {};

struct Gen
{
    Gen(Slot* slot, uint64_t seed, uint64_t index) : slot(slot), replay(nullptr), state(seed), index(index) { slot->n = 0; }
    Gen(Slot* slot, const std::vector<uint64_t>& in) : slot(slot), replay(&in), state(0), index(0) { slot->n = 0; }

    uint64_t draw(uint64_t max)                    // uniform in [0, max]
    {
        uint64_t n = slot->n;
        uint64_t v;
        if (n >= MaxChoices) return 0;
        if (replay) v = n < replay->size() ? std::min((*replay)[n], max) : 0;
        else {
            uint64_t r = mix(state);
            v = max == ~0ULL ? r : (max + 1 ? uint64_t((unsigned __int128)(r) * (max + 1) >> 64) : r);
        }
        slot->choices[n] = v;
        slot->n = n + 1;
        return v;
    }

    // In [0, n): each in turn over the cases of a run, for what is to be covered completely.
    uint64_t each(uint64_t n)
    {
        uint64_t v = draw(n - 1);
        if (!replay) slot->choices[slot->n - 1] = v = index % n;
        return v;
    }

    int64_t range(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + draw(uint64_t(hi) - uint64_t(lo))); }
    size_t below(size_t n) { return draw(n - 1); }
    bool coin() { return draw(1); }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool more(unsigned avg) { return draw(avg) > 0; }     // geometric list continuation, 0 stops

    template<typename C> auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
    template<typename T> T oneOf(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }

    int64_t small() { int64_t v = draw(20); return v & 1 ? -(v + 1) / 2 : v / 2; }

    int64_t i64()
    {
        switch (draw(5)) {
        case 0: case 1: return small();
        case 2: return range(-1000, 1000);
        case 3: {                                  // near a power of two
            int64_t base = int64_t(1ULL << draw(63));
            return int64_t(uint64_t(base) + uint64_t(int64_t(draw(2)) - 1)) ;
        }
        case 4: { static const int64_t s[] = { INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1,
                      INT32_MIN, INT32_MAX, -1, 1, 0, 255, 256, 65535, 65536, (int64_t)UINT32_MAX, 4294967296LL };
            return s[below(sizeof s / sizeof *s)]; }
        default: return int64_t(draw(~0ULL));
        }
    }

    double f64()                                   // finite
    {
        switch (draw(6)) {
        case 0: return double(small());
        case 1: return double(range(-1000000, 1000000)) / 1000;
        case 2: return double(i64());
        case 3: { double m = double(range(-999999999999LL, 999999999999LL)); int e = int(range(-30, 30));
                  double p = 1; for (int i = 0; i < (e < 0 ? -e : e); ++i) p *= 10; return e < 0 ? m / p : m * p; }
        case 4: { static const double s[] = { 0.0, -0.0, 0.1, -0.1, 1e15, 1e16, 1e17, 123456789012.0, 1234567890123.0,
                      999999999999.5, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324,
                      -1.7976931348623157e308, 1e-5, 0.0001, 1e-4, 1e12, 9.99999999999e11, 1e21, 1.5, 0.5, 1.0/3 };
            return s[below(sizeof s / sizeof *s)]; }
        default: {
            for (;;) {
                uint64_t b = draw(~0ULL); double d; memcpy(&d, &b, 8);
                if (d == d && d - d == 0) return d;
                if (slot->n >= MaxChoices - 8) return 0;
            } }
        }
    }

    static void utf8(std::string& out, uint32_t c)
    {
        if (c <= 0x7F) out += char(c);
        else if (c <= 0x7FF) { out += char(0xC0 | (c >> 6)); out += char(0x80 | (c & 0x3F)); }
        else if (c <= 0xFFFF) { out += char(0xE0 | (c >> 12)); out += char(0x80 | ((c >> 6) & 0x3F)); out += char(0x80 | (c & 0x3F)); }
        else { out += char(0xF0 | (c >> 18)); out += char(0x80 | ((c >> 12) & 0x3F)); out += char(0x80 | ((c >> 6) & 0x3F)); out += char(0x80 | (c & 0x3F)); }
    }

    uint32_t codepoint()                           // any Unicode scalar value, boundaries favoured
    {
        uint32_t c;
        switch (draw(6)) {
        case 0: c = uint32_t('a' + draw(25)); break;
        case 1: c = uint32_t(draw(0x7F)); break;
        case 2: { static const uint32_t s[] = { 0x22, 0x5C, 0x2F, 0x08, 0x0C, 0x0A, 0x0D, 0x09, 0x7F, 0x1F, 0x00, 0x80, 0xFF,
                     0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFFF, 0x100000, 0x1F600 };
                  c = s[below(sizeof s / sizeof *s)]; break; }
        case 3: c = uint32_t(range(0x80, 0x7FF)); break;
        case 4: c = uint32_t(range(0x800, 0xFFFF)); break;
        default: c = uint32_t(range(0x10000, 0x10FFFF)); break;
        }
        if (c >= 0xD800 && c <= 0xDFFF) c = 0xE000 + (c & 0x7FF);
        return c;
    }

    std::string utf8String(unsigned avg = 5)
    {
        std::string s;
        if (chance(1, 40)) { size_t n = range(100, 600); for (size_t i = 0; i < n; ++i) s += char('a' + i % 26); }
        while (more(avg)) utf8(s, codepoint());
        return s;
    }

    std::string word(unsigned avg = 3)
    {
        std::string s(1, char('a' + draw(25)));
        while (more(avg)) s += char('a' + draw(25));
        return s;
    }

    Slot* slot;
private:
    const std::vector<uint64_t>* replay;
    uint64_t state, index;
};

/* ------------------------------------------------------------------ case context */

struct Case
{
    Case(Gen& g) : g(g), counted(false) {}
    Gen& g;
    std::string text;            // readable description of the case: log, sample and distinctness key
    std::vector<std::string> labels;
    bool counted;                // non-trivial by the rule of the property

    void label(const std::string& l) { labels.push_back(l); }
    void nontrivial(bool b = true) { counted = counted || b; }
};

inline Case*& cur() { static Case* c = nullptr; return c; }

inline void say(const std::string& s)
{
    Case* c = cur();
    if (!c) return;
    if (c->text.size() < MaxLog - 8) c->text += s;
    // keep the shared log up to date so that it survives a crash
    size_t n = std::min(c->text.size(), size_t(MaxLog - 1));
    size_t off = n > s.size() ? n - s.size() : 0;
    memcpy(c->g.slot->log + off, c->text.data() + off, n - off);
    c->g.slot->log[n] = 0;
}

struct Say { std::ostringstream ss; ~Say() { say(ss.str()); } };
#define VT_LOG(expr) do { ::vt::Say vt_say_; vt_say_.ss << expr; } while (false)
#define VT_FAIL(expr) do { std::ostringstream vt_ss_; vt_ss_ << __FILE__ << ":" << __LINE__ << ": " << expr; \
        throw ::vt::Failure{vt_ss_.str()}; } while (false)
#define VT_CHECK(cond, expr) do { if (!(cond)) VT_FAIL("(" #cond ") " << expr); } while (false)
#define VT_EQ(a, b, expr) do { const auto vt_a_ = (a); const auto vt_b_ = (b); if (!(vt_a_ == vt_b_)) \
        VT_FAIL(#a " == " #b ": got <" << vt_a_ << "> expected <" << vt_b_ << "> " << expr); } while (false)

inline std::string quote(const std::string& s, size_t max = 400)
{
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        if (r.size() > max) { r += "..."; r += std::to_string(s.size()); break; }
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

/* ------------------------------------------------------------------ properties */

typedef void (*PropFn)(Case&);

struct Prop
{
    std::string name;
    PropFn fn;
    uint64_t quick, thorough;   // number of cases
    bool isolate;               // fork for every case: the case changes process-global state
    bool sched;                 // depends on the scheduling of threads: one failure is enough, replays try many times
    std::string rule;           // what makes a case non-trivial
};
struct Example { std::string name; void (*fn)(); };
struct Known { std::string key; void (*fn)(); };      // fails (throws or crashes) while the defect is there

inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
inline std::vector<Example>& examples() { static std::vector<Example> v; return v; }
inline std::vector<Known>& knowns() { static std::vector<Known> v; return v; }
inline std::vector<std::string>& assumptions() { static std::vector<std::string> v; return v; }

struct AddProp { AddProp(const char* n, PropFn f, uint64_t q, uint64_t t, bool iso, const char* rule)
    { props().push_back(Prop{n, f, q, t, iso, false, rule}); } };
struct AddSched { AddSched(const char* n, PropFn f, uint64_t q, uint64_t t, const char* rule)
    { props().push_back(Prop{n, f, q, t, true, true, rule}); } };
struct AddExample { AddExample(const char* n, void (*f)()) { examples().push_back(Example{n, f}); } };
struct AddKnown { AddKnown(const char* n, void (*f)()) { knowns().push_back(Known{n, f}); } };
struct AddAssume { AddAssume(const char* n) { assumptions().push_back(n); } };

#define VT_PROP(name, quick, thorough, rule) \
    static void prop_##name(vt::Case& c); \
    static vt::AddProp addprop_##name(#name, prop_##name, quick, thorough, false, rule); \
    static void prop_##name(vt::Case& c)
#define VT_PROP_ISO(name, quick, thorough, rule) \
    static void prop_##name(vt::Case& c); \
    static vt::AddProp addprop_##name(#name, prop_##name, quick, thorough, true, rule); \
    static void prop_##name(vt::Case& c)
#define VT_PROP_SCHED(name, quick, thorough, rule) \
    static void prop_##name(vt::Case& c); \
    static vt::AddSched addprop_##name(#name, prop_##name, quick, thorough, rule); \
    static void prop_##name(vt::Case& c)
#define VT_EXAMPLE(name) \
    static void ex_##name(); \
    static vt::AddExample addex_##name(#name, ex_##name); \
    static void ex_##name()
#define VT_KNOWN(name) \
    static void kn_##name(); \
    static vt::AddKnown addkn_##name(#name, kn_##name); \
    static void kn_##name()
#define VT_ASSUME(id, text) static vt::AddAssume addas_##id(text);

/* ------------------------------------------------------------------ running cases */

inline void setMsg(Slot* slot, const std::string& m)
{
    size_t n = std::min(m.size(), size_t(MaxMsg - 1));
    memcpy(slot->msg, m.data(), n); slot->msg[n] = 0;
}

// Hook run after each case: leak accounting and the like.
inline std::function<void(Case&)>& afterCase() { static std::function<void(Case&)> f; return f; }

inline Status runBody(const std::function<void()>& body, Slot* slot)
{
    try { body(); return Pass; }
    catch (const Failure& f) { setMsg(slot, f.msg); }
    catch (const std::exception& e) { setMsg(slot, std::string("unexpected exception: ") + e.what()); }
    catch (...) { setMsg(slot, "unexpected exception of unknown type"); }
    return Fail;
}

inline Status runCase(const Prop& p, Gen& g, Shared* sh)
{
    Case c(g);
    cur() = &c;
    g.slot->log[0] = 0;
    bool discarded = false;
    Status st = runBody([&] {
                try { p.fn(c); if (afterCase()) afterCase()(c); }
                catch (const Discard&) { discarded = true; }
            }, g.slot);
    cur() = nullptr;

    if (sh) {
        sh->evaluations++;
        if (discarded) sh->discarded++;
        else {
            if (c.counted) {
                sh->nontrivial++;
                uint64_t h = hashStr(c.text, hashStr(p.name));
                uint64_t i = h >> (64 - HashBits);
                for (int probes = 0; probes < 64; ++probes, i = (i + 1) & ((1 << HashBits) - 1)) {
                    uint64_t zero = 0;
                    if (sh->hashes[i].compare_exchange_strong(zero, h)) { sh->distinct++; break; }
                    if (zero == h) break;
                }
                if (sh->nSamples < MaxSamples && c.text.size() > 20 && c.text.size() < 1300) {
                    int k = sh->nSamples++;
                    if (k < MaxSamples) { memcpy(sh->samples[k], c.text.data(), c.text.size()); sh->samples[k][c.text.size()] = 0; }
                }
            }
            for (auto& l : c.labels) {
                while (sh->labelLock.exchange(1)) {}
                int i = 0, n = sh->nLabels;
                for (; i < n; ++i) if (l.compare(0, 79, sh->labels[i].name) == 0) break;
                if (i == n && n < MaxLabels) { strncpy(sh->labels[i].name, l.c_str(), 79); sh->nLabels = n + 1; }
                if (i < MaxLabels) sh->labels[i].count++;
                sh->labelLock = 0;
            }
        }
    }
    return st;
}

struct Result { Status status; std::vector<uint64_t> choices; std::string msg, log, err; };

inline void quietChild(const char* errPath)
{
    int fd = open(errPath ? errPath : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    prctl(PR_SET_PDEATHSIG, SIGKILL);        // no case outlives the check
}

// Runs body in a fork, with a wall-clock limit.
inline Result inFork(Slot* slot, const std::function<void()>& body, unsigned limitMs, bool wantErr = false)
{
    Result r;
    slot->status = Running; slot->msg[0] = 0; slot->log[0] = 0; slot->n = 0;
    std::string errPath;
    if (wantErr) { errPath = "/tmp/vt." + std::to_string(getpid()) + ".err"; }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        quietChild(wantErr ? errPath.c_str() : nullptr);
        body();
        _exit(slot->status == Pass ? 0 : 77);
    }
    uint64_t t0 = nowMs();
    int st = 0;
    bool hung = false;
    for (unsigned spin = 0;; ++spin) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (nowMs() - t0 > limitMs) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(spin < 200 ? 50 : 1000);
    }
    r.choices.assign(slot->choices, slot->choices + slot->n.load());
    r.msg = slot->msg; r.log = slot->log;
    if (hung) { r.status = Hang; r.msg = "the case did not finish within " + std::to_string(limitMs / 1000) + " s"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->status == Pass) r.status = Pass;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && slot->status == Fail) r.status = Fail;
    else {
        r.status = Crash;
        std::ostringstream ss;
        if (WIFSIGNALED(st)) ss << "the process died on signal " << WTERMSIG(st);
        else ss << "the process was terminated (exit status " << WEXITSTATUS(st) << ", sanitizer report or exit)";
        r.msg = ss.str();
    }
    if (wantErr) {
        std::ifstream f(errPath); std::string line; int n = 0;
        while (n++ < 60 && std::getline(f, line)) r.err += line + "\n";
        unlink(errPath.c_str());
    }
    return r;
}

enum { CaseLimitMs = 30000 };

inline Result runOnce(const Prop& p, Slot* slot, const std::vector<uint64_t>& choices, unsigned limitMs, bool wantErr)
{
    return inFork(slot, [&] { Gen g(slot, choices); slot->status = runCase(p, g, nullptr); }, limitMs, wantErr);
}

// With tries, until it fails.
inline Result runChoices(const Prop& p, Slot* slot, const std::vector<uint64_t>& choices, unsigned limitMs, bool wantErr = false, unsigned tries = 1)
{
    Result r;
    do r = runOnce(p, slot, choices, limitMs, wantErr);
    while (p.sched && --tries && r.status == Pass);
    return r;
}

inline uint64_t caseSeed(uint64_t seed, const Prop& p, uint64_t i)
{
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL + hashStr(p.name) + i * 0xD1B54A32D192ED03ULL;
    mix(s); return mix(s);
}

/* ------------------------------------------------------------------ shrinking */

inline bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline Result shrink(const Prop& p, Slot* slot, Result best, unsigned tries = 1)
{
    const uint64_t t0 = nowMs();
    const bool hang = best.status == Hang;
    unsigned budget = hang ? 25 : 3000, used = 0;
    const unsigned limit = hang ? 4000 : 10000;
    auto attempt = [&] (std::vector<uint64_t> cand) {
        if (used >= budget || nowMs() - t0 > 60000) return false;
        ++used;
        Result r = runChoices(p, slot, cand, limit, p.sched, tries);
        if (r.status == Pass || r.status == Running) return false;
        if (!hang && r.status == Hang) return false;
        std::vector<uint64_t> c = r.choices;
        while (!c.empty() && c.back() == 0) c.pop_back();     // trailing zeros are implied
        r.choices = c;
        if (!simpler(c, best.choices)) return false;
        best = r;
        return true;
    };
    while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();

    for (bool progress = true; progress && used < budget && nowMs() - t0 < 60000;) {
        progress = false;
        // delete chunks
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size();) {
                auto c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += std::max<size_t>(1, len / 2);
                if (used >= budget || nowMs() - t0 > 60000) break;
            }
            if (len == 1) break;
        }
        // zero chunks, then minimise single choices
        for (size_t len : {8, 4, 2})
            for (size_t i = 0; i + len <= best.choices.size(); i += len) {
                auto c = best.choices;
                bool any = false;
                for (size_t j = i; j < i + len; ++j) { any = any || c[j]; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.choices.size(); ++i) {
            if (best.choices[i] == 0) continue;
            auto c = best.choices; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            if (i >= best.choices.size()) break;
            uint64_t lo = 0, hi = best.choices[i];
            while (hi - lo > 1) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best.choices; if (i >= c.size()) break;
                c[i] = mid;
                if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
                if (used >= budget || i >= best.choices.size()) break;
            }
            // lower this one while deleting one later choice (list lengths)
        }
    }
    return best;
}

/* ------------------------------------------------------------------ driver */

struct Options
{
    std::string id, tier, evidence, replayDir, replay, known, only, programs;
    uint64_t seed, scale; unsigned workers; unsigned wallLimit;
};

inline std::string jsonStr(const std::string& s)
{
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

inline void writeReplay(const Options& o, const std::string& path, const std::string& prop,
        const Result& r)
{
    std::ofstream f(path);
    f << "property " << o.id << "\n" << "prop " << prop << "\n";
    if (!o.programs.empty()) f << "programs " << o.programs << "\n";      // seed and number of the generated programs
    f << "choices";
    for (uint64_t c : r.choices) f << ' ' << c;
    f << "\n# failure: " << r.msg << "\n";
    std::istringstream ss(r.log + "\n" + r.err);
    for (std::string l; std::getline(ss, l);) f << "# " << l << "\n";
}

inline int report(const Options& o, const std::string& prop, const Result& r)
{
    mkdir(o.replayDir.c_str(), 0755);
    std::string key = prop; for (uint64_t c : r.choices) key += "," + std::to_string(c);
    char name[64]; snprintf(name, sizeof name, "%016lx.replay", (unsigned long)hashStr(key + r.msg));
    std::string path = o.replayDir + "/" + prop + "-" + name;
    writeReplay(o, path, prop, r);
    std::string log = r.log.size() > 6000 ? r.log.substr(0, 6000) + "..." : r.log;
    printf("\n[%s/%s] %s\n--- case\n%s\n", o.id.c_str(), prop.c_str(), r.msg.c_str(), log.c_str());
    if (!r.err.empty()) printf("--- output\n%s\n", r.err.substr(0, 5000).c_str());
    printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), path.c_str());
    fflush(stdout);
    return 1;
}

// Searches one property. Returns true and the first failing case if there is one.
inline bool search(const Options& o, const Prop& p, Shared* sh, std::vector<Slot*>& slots, uint64_t total, Result& out)
{
    sh->minFail = ~0ULL;
    const unsigned W = o.workers;
    const uint64_t t0 = nowMs();
    std::vector<pid_t> pids(W, 0);
    std::vector<Result> fails;
    uint64_t failIdx = ~0ULL; bool crashed = false, hung = false; std::string first;

    auto errPath = [&] (unsigned w) { return "/tmp/vt." + std::to_string(getpid()) + "." + std::to_string(w) + ".err"; };
    auto start = [&] (unsigned w, uint64_t from) {
        Slot* slot = slots[w];
        slot->status = Running; slot->index = from; slot->started = nowMs();
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid > 0) { pids[w] = pid; return; }
        quietChild(p.sched ? errPath(w).c_str() : nullptr);
        for (uint64_t i = from; i < total && i < sh->minFail; i += W) {
            if (nowMs() - t0 > uint64_t(o.wallLimit) * 1000) break;
            slot->index = i; slot->started = nowMs();
            Status st;
            if (p.isolate) {
                slot->status = Running;
                pid_t k = fork();
                if (k == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    Gen g(slot, caseSeed(o.seed, p, i), i);
                    slot->status = runCase(p, g, sh);
                    _exit(0);
                }
                int ws = 0; waitpid(k, &ws, 0);
                slot->wait = ws;
                if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) _exit(1);   // the parent sees a crash at this index
                st = Status(slot->status.load());
            }
            else {
                Gen g(slot, caseSeed(o.seed, p, i), i);
                st = runCase(p, g, sh);
            }
            if (st != Pass) {
                uint64_t m = sh->minFail;
                while (i < m && !sh->minFail.compare_exchange_weak(m, i)) {}
                slot->status = Fail;
                _exit(77);
            }
        }
        slot->status = Pass;
        _exit(0);
    };
    for (unsigned w = 0; w < W; ++w) start(w, w);

    unsigned live = W;
    while (live) {
        bool any = false;
        for (unsigned w = 0; w < W; ++w) {
            if (!pids[w]) continue;
            int st = 0;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool bad = false, killed = false;
            if (r == pids[w]) {
                any = true; pids[w] = 0; --live;
                bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                if (bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 77)) crashed = true;
            }
            else if (nowMs() > slots[w]->started + CaseLimitMs + 15000) {      // started may be later than now: no difference
                // kill the whole family of this worker: isolated cases are its children
                kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
                any = true; pids[w] = 0; --live; bad = true; crashed = true; killed = true;
            }
            if (bad) {
                uint64_t i = slots[w]->index;
                uint64_t m = sh->minFail;
                while (i < m && !sh->minFail.compare_exchange_weak(m, i)) {}
                if (i < failIdx) { failIdx = i; hung = killed; first = "exit status " + std::to_string(st) + " at case " + std::to_string(i) + ": " + slots[w]->msg + "\n" + slots[w]->log; }
            }
        }
        if (!any) usleep(2000);
    }
    (void) crashed;
    if (p.sched) {
        // What one schedule showed is a failure, whether or not the next schedule shows it again; only a
        // case that was killed, for lack of memory say, showed nothing.
        out.status = Running;
        for (unsigned w = 0; w < W; ++w) {
            Slot* s = slots[w];
            if (failIdx != ~0ULL && s->index == failIdx) {
                out.choices.assign(s->choices, s->choices + s->n.load());
                out.log = s->log; out.msg = s->msg;
                int ws = s->wait;
                if (s->status == Fail) out.status = Fail;
                else if (hung) { out.status = Hang; out.msg = "the case did not finish within " + std::to_string(CaseLimitMs / 1000) + " s"; }
                else if (WIFSIGNALED(ws) ? WTERMSIG(ws) != SIGKILL : WEXITSTATUS(ws) != 0) {
                    out.status = Crash;
                    out.msg = WIFSIGNALED(ws) ? "the process died on signal " + std::to_string(WTERMSIG(ws)) : "the process was terminated (exit status " + std::to_string(WEXITSTATUS(ws)) + ", sanitizer report or exit)";
                }
                else out.msg = "a case was killed";
                std::ifstream f(errPath(w)); std::string line; int n = 0;
                while (n++ < 80 && std::getline(f, line)) out.err += line + "\n";
            }
        }
        for (unsigned w = 0; w < W; ++w) unlink(errPath(w).c_str());
        return failIdx != ~0ULL;
    }
    if (failIdx == ~0ULL) return false;

    uint64_t s = caseSeed(o.seed, p, failIdx);
    Slot* slot = slots[0];
    out = inFork(slot, [&] { Gen g(slot, s, failIdx); slot->status = runCase(p, g, nullptr); }, CaseLimitMs);
    if (out.status == Pass) {
        // The failure needs what earlier cases of the same worker left behind: rerun that prefix.
        unsigned w = unsigned(failIdx % W);
        out = inFork(slot, [&] {
                    for (uint64_t i = w; i <= failIdx; i += W) {
                        Gen g(slot, caseSeed(o.seed, p, i), i);
                        Status st = runCase(p, g, nullptr);
                        slot->status = st;
                        if (st != Pass) return;
                    }
                }, 4 * 60000);
        if (out.status == Pass) { out.msg = first; out.status = Running; return true; }
        out.choices.clear();
        out.choices.push_back(failIdx); out.choices.push_back(W); out.choices.push_back(o.seed);
        out.log = "(depends on the preceding cases of the same process; replayed as a sequence)\n" + out.log;
        out.status = Crash; out.err = "sequence";
    }
    return true;
}

inline std::set<std::string> knownKeys(const Options& o)
{
    std::set<std::string> r;
    std::ifstream f(o.known);
    for (std::string l; std::getline(f, l);) {
        // known: property=P22 key=alias-skipempty <text>
        if (l.compare(0, 6, "known:") != 0) continue;
        size_t a = l.find("property=" + o.id + " ");
        size_t k = l.find("key=");
        if (a == std::string::npos || k == std::string::npos) continue;
        size_t e = l.find(' ', k);
        r.insert(l.substr(k + 4, e - k - 4) + "\n" + (e == std::string::npos ? "" : l.substr(e + 1)));
    }
    return r;
}

inline int runMain(int argc, char** argv)
{
    Options o; o.seed = 1; o.scale = 100; o.workers = 8; o.wallLimit = 0; o.tier = "quick"; o.id = "P00";
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--id") o.id = v; else if (a == "--tier") o.tier = v; else if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--evidence") o.evidence = v; else if (a == "--replays") o.replayDir = v;
        else if (a == "--replay") o.replay = v; else if (a == "--known") o.known = v; else if (a == "--only") o.only = v;
        else if (a == "--scale") o.scale = strtoull(v.c_str(), 0, 10); else if (a == "--workers") o.workers = atoi(v.c_str());
        else if (a == "--programs") o.programs = v;
        else if (a == "--wall") o.wallLimit = atoi(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    const bool thorough = o.tier == "thorough";
    if (!o.wallLimit) o.wallLimit = thorough ? 700 / int(std::max<size_t>(1, props().size())) : 90;
    if (o.workers < 1 || o.workers > MaxWorkers) o.workers = 8;

    std::vector<Slot*> slots;
    for (unsigned i = 0; i < o.workers; ++i) slots.push_back(shared<Slot>());

    if (!o.replay.empty()) {
        std::ifstream f(o.replay); std::string word, prop, line; std::vector<uint64_t> choices; bool seq = false;
        while (std::getline(f, line)) {
            std::istringstream ss(line); ss >> word;
            if (word == "prop") ss >> prop;
            else if (word == "choices") { uint64_t c; while (ss >> c) choices.push_back(c); }
            else if (word == "#" && line == "# sequence") seq = true;
        }
        Result r; r.status = Running;
        for (auto& p : props()) if (p.name == prop) {
            if (seq) {
                Slot* slot = slots[0];
                r = inFork(slot, [&] {
                            for (uint64_t i = choices[0] % choices[1]; i <= choices[0]; i += choices[1]) {
                                Gen g(slot, caseSeed(choices[2], p, i), i);
                                Status st = runCase(p, g, nullptr);
                                slot->status = st;
                                if (st != Pass) return;
                            }
                        }, 4 * 60000, true);
            }
            else r = runChoices(p, slots[0], choices, CaseLimitMs, true, 200);
        }
        for (auto& e : examples()) if ("example-" + e.name == prop)
            r = inFork(slots[0], [&] { slots[0]->status = runBody(e.fn, slots[0]); }, CaseLimitMs, true);
        for (auto& e : knowns()) if ("known-" + e.key == prop)
            r = inFork(slots[0], [&] { slots[0]->status = runBody(e.fn, slots[0]); }, CaseLimitMs, true);
        if (r.status == Running) { fprintf(stderr, "no such property: %s\n", prop.c_str()); return 2; }
        printf("%s\n%s\n%s%s\n", r.log.c_str(), r.msg.c_str(), r.err.c_str(), r.status == Pass ? "PASS" : "FAIL");
        if (r.status != Pass) { printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), o.replay.c_str()); return 1; }
        return 0;
    }

    const uint64_t t0 = nowMs();
    int violations = 0, rc = 0;
    std::ostringstream ev; uint64_t evals = 0, distinct = 0; std::string samples, rules, breakdown;

    // Fixed examples: regression inputs of repaired defects and boundary cases.
    for (auto& e : examples()) {
        if (!o.only.empty() && o.only != "examples") break;
        Result r; int bad = 0;
        for (int k = 0; k < 3; ++k) {
            r = inFork(slots[0], [&] { slots[0]->status = runBody(e.fn, slots[0]); }, CaseLimitMs, true);
            if (r.status == Pass) break;
            ++bad;
        }
        ++evals;
        if (bad == 3) { ++violations; r.choices.clear(); rc = report(o, "example-" + e.name, r); }
        else if (bad) { fprintf(stderr, "example %s is unstable\n", e.name.c_str()); }
    }

    // Known findings: still there?
    std::set<std::string> keys = knownKeys(o);
    std::string knownSeen;
    for (auto& e : knowns()) {
        Result r = inFork(slots[0], [&] { slots[0]->status = runBody(e.fn, slots[0]); }, 60000, true);
        if (r.status == Pass) continue;
        bool listed = false; std::string text;
        for (auto& k : keys) if (k.compare(0, e.key.size() + 1, e.key + "\n") == 0) { listed = true; text = k.substr(e.key.size() + 1); }
        if (listed) { printf("KNOWN-FINDING: property=%s %s: %s\n", o.id.c_str(), e.key.c_str(), text.c_str()); knownSeen += (knownSeen.empty() ? "" : ",") + jsonStr(e.key); }
        else { ++violations; r.choices.clear(); rc = report(o, "known-" + e.key, r); }
    }
    fflush(stdout);

    for (auto& p : props()) {
        if (!o.only.empty() && o.only != p.name) continue;
        if (rc) break;
        uint64_t total = std::max<uint64_t>(1, (thorough ? p.thorough : p.quick) * o.scale / 100);
        Shared* sh = shared<Shared>();
        uint64_t p0 = nowMs();
        Result r;
        if (search(o, p, sh, slots, total, r)) {
            if (r.status == Running) {
                fprintf(stderr, "[%s/%s] a failure did not reproduce, ignored: %s\n", o.id.c_str(), p.name.c_str(), r.msg.c_str());
                printf("[%s/%s] unreproducible failure\n", o.id.c_str(), p.name.c_str());
            }
            else if (r.err == "sequence") { ++violations; rc = report(o, p.name, r); }
            else if (p.sched) {
                // How often does it fail again?
                unsigned runs = r.status == Hang ? 5 : 40, again = 0;
                Result seen;
                for (unsigned k = 0; k < runs; ++k) {
                    Result x = runOnce(p, slots[0], r.choices, CaseLimitMs, true);
                    if (x.status == Pass) continue;
                    if (!again++) { seen = x; seen.choices = r.choices; }
                    if (again == 5) { runs = k + 1; break; }
                }
                Result best = again ? seen : r;
                if (again >= 3) best = shrink(p, slots[0], seen, std::min(20u, 3 * runs / again));
                best.msg += " [failed again in " + std::to_string(again) + " of " + std::to_string(runs) + " more runs of the same case]";
                if (r.status == Hang && !again) printf("[%s/%s] a case hung once, not reported\n", o.id.c_str(), p.name.c_str());
                else { ++violations; rc = report(o, p.name, best); }
            }
            else {
                Result best = shrink(p, slots[0], r);
                int bad = 0;
                for (int k = 0; k < 3; ++k) {
                    Result again = runChoices(p, slots[0], best.choices, CaseLimitMs, true);
                    if (again.status == Pass) break;
                    ++bad; again.choices = best.choices; if (k == 2) best = again;
                }
                if (bad < 3) {
                    // the shrunk case is unstable: fall back on the original one
                    best = r; bad = 0;
                    for (int k = 0; k < 3; ++k) {
                        Result again = runChoices(p, slots[0], r.choices, CaseLimitMs, true);
                        if (again.status == Pass) break;
                        ++bad; again.choices = r.choices; best = again;
                    }
                }
                if (bad == 3) { ++violations; rc = report(o, p.name, best); }
                else printf("[%s/%s] unstable failure, not reported: %s\n", o.id.c_str(), p.name.c_str(), r.msg.c_str());
            }
        }
        evals += sh->evaluations; distinct += sh->distinct;
        double wall = (nowMs() - p0) / 1000.0;
        printf("[%s/%s] %lu cases, %lu non-trivial, %lu distinct, %lu discarded, %.1f s\n", o.id.c_str(), p.name.c_str(),
                (unsigned long)sh->evaluations, (unsigned long)sh->nontrivial, (unsigned long)sh->distinct, (unsigned long)sh->discarded, wall);
        std::ostringstream b;
        b << jsonStr(p.name) << ": {\"cases\": " << sh->evaluations << ", \"requested\": " << total << ", \"nontrivial\": " << sh->nontrivial
          << ", \"distinct_nontrivial\": " << sh->distinct << ", \"discarded\": " << sh->discarded << ", \"wall_s\": " << wall << ", \"labels\": {";
        std::vector<std::pair<std::string, uint64_t>> ls;
        for (int i = 0; i < sh->nLabels && i < MaxLabels; ++i) ls.push_back(std::make_pair(std::string(sh->labels[i].name), sh->labels[i].count.load()));
        std::sort(ls.begin(), ls.end());
        for (size_t i = 0; i < ls.size(); ++i) b << (i ? ", " : "") << jsonStr(ls[i].first) << ": " << ls[i].second;
        b << "}}";
        breakdown += (breakdown.empty() ? "" : ",\n   ") + b.str();
        rules += (rules.empty() ? "" : " | ") + p.name + ": " + p.rule;
        for (int i = 0; i < sh->nSamples && i < MaxSamples && i < 3; ++i)
            samples += (samples.empty() ? "" : ",\n   ") + jsonStr("[" + p.name + "] " + sh->samples[i]);
        fflush(stdout);
        munmap(sh, sizeof(Shared));
    }

    if (!o.evidence.empty()) {
        std::ofstream f(o.evidence);
        f << "{\"property\": " << jsonStr(o.id) << ", \"tier\": " << jsonStr(o.tier) << ", \"seed\": " << o.seed
          << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct
          << ",\n  \"rule\": " << jsonStr(rules) << ",\n  \"samples\": [" << samples << "],\n  \"fixed_examples\": " << examples().size()
          << ", \"known_findings_seen\": [" << knownSeen << "],\n  \"breakdown\": {" << breakdown << "}},\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions().size(); ++i) f << (i ? ", " : "") << jsonStr(assumptions()[i]);
        f << "],\n \"wall_s\": " << (nowMs() - t0) / 1000.0 << ", \"violations\": " << violations << "}\n";
    }
    return rc;
}

} // namespace vt

#ifndef VT_NO_MAIN
int main(int argc, char** argv) { return vt::runMain(argc, argv); }
#endif
