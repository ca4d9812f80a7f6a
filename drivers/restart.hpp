// Twin runs for restart transparency (L01).  A bench's solver derives from rst::Net; in twin mode the k-th step of a case
// is preceded by a restart of the whole network (or not), the network then runs on alone for some steps while every
// potential and content is recorded, and the case ends.
#ifndef VERIF_RESTART_HPP
#define VERIF_RESTART_HPP
#include "mon.hpp"
#include <cxxabi.h>
#include <set>
#include "core/Gunns.hh"
#include "core/GunnsBasicLink.hh"
#include "core/GunnsBasicNode.hh"
namespace mon { struct Other { CaseFn fn; std::string name; }; std::vector<Other> otherCases(const std::string& except); }
namespace rst {
struct Stop { };
struct Twin {
    bool on = false, restart = false, done = false, moved = false, veto = false; double lag = 0; int at = 0, after = 0, n = 0, fails = 0; std::string err, kinds;
    std::vector<std::vector<double> > trace;   // [0] before, [1] after the restart, then after each step
    std::vector<std::string> names;
};
inline Twin& twin() { static Twin t; return t; }
// inputs that a restart documents as cleared (refreshed by the simulation): called before and after it; false vetoes the case
typedef bool (*Hook)(GunnsBasicLink* l, bool after);
inline Hook& hook() { static Hook h = 0; return h; }
// a link under test which names terms that its class documents as not checkpointed although they lag one pass, or refuses the case
struct Keep { virtual ~Keep() {} virtual std::vector<double*> kept() { return std::vector<double*>(); } virtual std::function<void()> snapshot() { return std::function<void()>(); } virtual bool refuse() { return false; } };
struct Net : Gunns {
    virtual double lag(int) { return 0.0; }   // relative difference between what a node holds and what it hands on
    virtual void content(int node, std::vector<double>& v, std::vector<std::string>* names) { (void)node; (void)v; (void)names; }
    std::vector<double> state(std::vector<std::string>* names) { std::vector<double> v;
        for (int i = 0; i < mNumNodes - 1; ++i) { v.push_back(mNodes[i]->getPotential()); if (names) names->push_back(mon::fmt("potential of node %d", i)); content(i, v, names); }
        for (int i = 0; i < mNumLinks; ++i) { v.push_back(mLinks[i]->getFlux()); if (names) names->push_back(mon::fmt("flux of link %s", mLinks[i]->getName())); }
        return v; }
    GunnsBasicNode* nodeAt(int i) { return mNodes[i]; }
    void step(const double dt) {
        Twin& t = twin(); if (!t.on) return Gunns::step(dt);
        if (t.done) throw Stop();
        if (t.n++ < t.at) return Gunns::step(dt);
        t.done = true; t.names.clear(); t.trace.push_back(state(&t.names));
        std::vector<int> a; for (int i = 0; i < mNumLinks; ++i) for (int p = 0; p < mLinks[i]->getNumberPorts(); ++p) a.push_back(mLinks[i]->getNodeMap()[p]);
        for (int i = 0; i < mNumNodes - 1; ++i) t.lag = std::max(t.lag, lag(i));
        for (int i = 0; i < mNumLinks; ++i) { char* d = abi::__cxa_demangle(typeid(*mLinks[i]).name(), 0, 0, 0); const std::string k = d ? d : ""; free(d); if (k.find("Capacitor") == std::string::npos && k != "GunnsFluidSource" && t.kinds.find(k) == std::string::npos) t.kinds += " " + k; }
        try {
            if (hook()) for (int i = 0; i < mNumLinks; ++i) if (!hook()(mLinks[i], false)) t.veto = true;
            std::vector<std::pair<double*, double> > kept; std::vector<std::function<void()> > undo; for (int i = 0; i < mNumLinks; ++i) if (Keep* k = dynamic_cast<Keep*>(mLinks[i])) { if (k->refuse()) t.veto = true; if (std::function<void()> f = k->snapshot()) undo.push_back(f); for (double* q : k->kept()) kept.emplace_back(q, *q); }
            if (t.restart) { restart(); if (hook()) for (int i = 0; i < mNumLinks; ++i) hook()(mLinks[i], true); for (auto& q : kept) *q.first = q.second; for (auto& f : undo) f(); }
            size_t q = 0; for (int i = 0; i < mNumLinks; ++i) for (int p = 0; p < mLinks[i]->getNumberPorts(); ++p) if (a[q++] != mLinks[i]->getNodeMap()[p]) t.moved = true;
            t.trace.push_back(state(0)); const int f = t.restart ? 0 : getConvergenceFailCount();
            for (int i = 0; i < t.after; ++i) { Gunns::step(dt); t.trace.push_back(state(0)); }
            t.fails = getConvergenceFailCount() - f;
        } catch (std::exception& e) { t.err = e.what(); } catch (...) { t.err = "exception"; }
        throw Stop();
    }
};
// one execution of a case function up to the restart point
inline Twin run(mon::CaseFn fn, const mon::Ctx& from, uint64_t seed, bool restart, int at, int after) {
    mon::Ctx c; c.r = mon::Rng(seed); c.caseSeed = seed; c.caseIndex = from.caseIndex; c.thorough = false;
    Twin& t = twin(); t = Twin(); t.on = true; t.restart = restart; t.at = at; t.after = after;
    try { fn(c); } catch (Stop&) { } catch (...) { }
    Twin r = t; t = Twin(); return r;
}
// without: case functions left out, because their networks have several solutions (see DESIGN.md)
inline std::vector<mon::Other> cases(const std::set<std::string>& without) { std::vector<mon::Other> v; for (const mon::Other& o : mon::otherCases("L01")) if (!without.count(o.name)) v.push_back(o); return v; }
inline void judge(mon::Ctx& c, const std::set<std::string>& without = {}, double tolNow = 1e-9, double tol = 1e-6) {
    static const std::vector<mon::Other> all = cases(without); const mon::Other& o = all[c.caseIndex % all.size()];
    const uint64_t seed = c.r.next(); const int at = c.r.p(0.3) ? c.r.i(0, 3) : c.r.i(1, 15), after = 5;
    const Twin a = run(o.fn, c, seed, false, at, after), b = run(o.fn, c, seed, true, at, after);
    c.note = mon::fmt("%s seed %llu restart before step %d", o.name.c_str(), (unsigned long long)seed, at);
    if (!a.done || a.trace.size() < 2 || a.trace.size() < size_t(after + 2)) { c.count("cases_without_restart"); return; }
    if (b.trace.empty() || b.trace[0] != a.trace[0]) { c.count("noisy_cases"); return; }   // e.g. global random noise
    if (!CHK(b.done && b.trace.size() == a.trace.size(), "restart-" + o.name + "-fail", "the restarted network failed (" + b.err + ") where the other went on")) return;
    c.note += a.kinds;
    if (a.veto) { c.count("vetoed"); return; }
    if (b.moved) { c.count("ports_moved"); return; }
    if (a.fails) { c.count("unconverged"); return; }
    auto quiet = [&] { for (int q = 0; q < 8; ++q) if (run(o.fn, c, seed, false, at, after).trace != a.trace) return false; return true; };
    // scale of each kind of quantity: names up to " of"
    std::map<std::string, double> scale; auto kind = [](const std::string& s) { return s.substr(0, s.find(" of")); };
    for (size_t i = 0; i < a.names.size(); ++i) for (auto& v : a.trace) { double& s = scale[kind(a.names[i])]; if (std::isfinite(v[i])) s = std::max(s, std::fabs(v[i])); }
    for (size_t k = 1; k < a.trace.size(); ++k) for (size_t i = 0; i < a.names.size(); ++i) { const bool now = k == 1; const double s = scale[kind(a.names[i])];
        if (now && kind(a.names[i]) == "flux") continue;
        const double want = a.trace[k][i], tolA = (now ? tolNow : tol + 10 * a.lag) * std::max(std::fabs(want), std::fabs(b.trace[k][i])) + s * (now ? 1e-12 : tol * 1e-2) + 1e-12;
        if (!(std::fabs(b.trace[k][i] - want) <= tolA) && !quiet()) { c.count("noisy_cases"); return; }   // global random noise, e.g. cavitation
        if (!NEAR(b.trace[k][i], want, 0, tolA, mon::fmt("restart-%s", o.name.c_str()), now ? a.names[i] + " right after the restart" : a.names[i] + mon::fmt(" %zu steps after the restart (lag %.3g)", k - 1, a.lag))) return; }
    c.count("twins"); if (c.r.p(0.05)) c.sample(c.note); for (double v : a.trace.back()) c.hit(mon::mix(mon::hstr(o.name), mon::hd(v)));
}
}
#define RESTART_PROP(TAG, ...) MON_PROP2(L01, TAG, "a twin pair of one of this driver's cases (" #TAG "), restarted before a random step, keyed by the final state") { rst::judge(c, { __VA_ARGS__ }); }
#endif
