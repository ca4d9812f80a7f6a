// Common monitor framework: seeded case generation, counters, verdict recording.
// Every driver links mon.cpp (which has main) and registers the properties it can judge.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cfloat>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

struct Rng {                       // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }                 // [0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); } // log-uniform
    int    i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }            // [a,b]
    bool   p(double pr) { return u() < pr; }
    double sgn() { return p(0.5) ? 1.0 : -1.0; }
    double gauss() { double t = 0; for (int k = 0; k < 12; ++k) t += u(); return t - 6.0; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template<class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL + 0x7f4a7c15)); r.next(); return r.next(); }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
inline uint64_t hd(double d) { uint64_t x; std::memcpy(&x, &d, 8); return x; }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Ctx {
    Rng r;
    uint64_t caseSeed = 0;
    long     caseIndex = 0;
    bool     thorough = false;
    std::string note;                               // description of the current case (goes to replay and samples)
    // a monitored observation that was compared against the oracle
    void eval(long n = 1) { evals += n; }
    // one distinct non-trivial situation (by the check's rule); key need not be unique
    void hit(uint64_t key) { if (distinct.size() < 4000000u) distinct.insert(key); }
    void hit(const std::string& key) { hit(hstr(key)); }
    void count(const std::string& name, long n = 1) { counts[name] += n; }
    void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
    // a violation; `key` identifies the failing input class / call site (matched with known findings)
    void fail(const std::string& key, const std::string& msg);
    bool check(bool ok, const std::string& key, const std::string& msg) { ++evals; if (!ok) fail(key, msg); return ok; }
    // |a-b| <= rel*max(|a|,|b|)+abs ; NaN fails
    bool near(double a, double b, double rel, double abs, const std::string& key, const std::string& what);
    // finite?
    bool finite(double a, const std::string& key, const std::string& what);
    bool failed() const { return caseFailed; }

    long evals = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, long> counts;
    std::vector<std::string> samples; bool caseFailed = false;
    struct V { std::string key, msg; uint64_t seed; long index; };
    std::vector<V> violations; std::map<std::string, long> vkeys;
};

// Lazy forms: message and key expressions are evaluated on failure only.  `c` must be the context.
#define CHK(cond, key, msg) ({ ++c.evals; bool ok_ = bool(cond); if (__builtin_expect(!ok_, 0)) c.fail((key), (msg)); ok_; })
#define NEAR(a, b, rel, abs_, key, what) ({ ++c.evals; const double a_ = (a), b_ = (b); const double t_ = (rel) * std::max(std::fabs(a_), std::fabs(b_)) + (abs_); \
    bool ok_ = std::fabs(a_ - b_) <= t_; if (__builtin_expect(!ok_, 0)) c.fail((key), std::string(what) + mon::fmt(": got %.17g expected %.17g (tol %.3g)", a_, b_, t_)); ok_; })
#define FIN(a, key, what) ({ ++c.evals; const double a_ = (a); bool ok_ = std::isfinite(a_); if (!ok_) c.fail((key), std::string(what) + mon::fmt(" is not finite: %g", a_)); ok_; })

typedef void (*CaseFn)(Ctx&);
struct Reg { Reg(const char* prop, CaseFn fn, const char* rule); };
#define MON_PROP(ID, RULE) static void prop_##ID(mon::Ctx&); static mon::Reg reg_##ID(#ID, prop_##ID, RULE); static void prop_##ID(mon::Ctx& c)
// Sub-cases: one property may have several case functions, run round-robin by case index.
#define MON_PROP2(ID, TAG, RULE) static void prop_##ID##_##TAG(mon::Ctx&); static mon::Reg reg_##ID##_##TAG(#ID, prop_##ID##_##TAG, RULE); static void prop_##ID##_##TAG(mon::Ctx& c)
}
#endif
