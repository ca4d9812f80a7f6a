// A random basic (non-fluid) network built from the real link classes, with an independent
// description of it kept beside the objects for the oracles.
#ifndef VERIF_BNET_HPP
#define VERIF_BNET_HPP
#include "mon.hpp"
#include <memory>
#include "software/exceptions/TsNumericalException.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicPotential.hh"

namespace bnet {
enum Kind { COND, POT, SRC, CAP };
struct Spec { Kind k; int a, b; double v, pot; bool blkFlag; double blk; };  // v: conductance / flux / capacitance

struct Cond : GunnsBasicConductor {           // the user's port command, set from input files or a display in practice
    void cmd(int port, int node, int m) { mUserPortSelect = port; mUserPortSelectNode = node; mUserPortSetControl = UserPortControl(m); }
    int ctl() const { return mUserPortSetControl; }
    static int execute() { return EXECUTE; } static int ground() { return GROUND; } static int deflt() { return DEFAULT; } static int ready() { return READY; } static int refused() { return FAILED; }
};
struct Solver : Gunns {       // reach to user-visible options that have no setter (set from input files in practice)
    void sor(bool on, float w = 1.2f, int maxIter = 20000, double tol = 1e-13) { mSorActive = on; mSorWeight = w; mSorMaxIter = maxIter; mSorTolerance = tol; }
    int lastMinor() const { return mLastMinorStep; }
    int islandCount() const { return mIslandCount; }
};

struct Net;
inline std::string describe(const std::vector<Spec>& s, int n);
struct Net {
    bool floatExact = false;                          // the floating islands have exact row sums: the finding does not apply
    bool reportFloating = false;                      // only C01 reports the floating-island finding; elsewhere it ends the case
    int n;                                            // non-ground nodes; ground index == n
    std::vector<Spec> s;
    std::unique_ptr<GunnsBasicNode[]> nodes;
    GunnsNodeList list;
    std::vector<GunnsBasicLink*> links;
    std::vector<std::unique_ptr<GunnsBasicLink> > own;
    Solver net;
    double capDp0(int i) const { return capDp[i]; }
    std::vector<double> capDp;                        // capacitor dp before the step
    Net(int nn, const std::vector<Spec>& specs, double tol = 1e-6, int minor = 50, int decomp = 100, bool initNow = true)
        : n(nn), s(specs), nodes(new GunnsBasicNode[nn + 1]) {
        list.mNumNodes = n + 1; list.mNodes = nodes.get();
        for (int i = 0; i <= n; ++i) nodes[i].initialize(mon::fmt("node%d", i), 0.0);
        net.initializeNodes(list);
        for (size_t i = 0; i < s.size(); ++i) add(int(i));
        if (initNow) { GunnsConfigData cfg("net", tol, 1e-8, minor, decomp); net.initialize(cfg, links); }
        capDp.assign(s.size(), 0.0);
    }
    void add(int i) {
        const Spec& q = s[i]; const std::string nm = mon::fmt("link%d", i);
        switch (q.k) {
            case COND: { GunnsBasicConductor* l = new Cond; own.emplace_back(l);
                l->initialize(GunnsBasicConductorConfigData(nm, &list, q.v), GunnsBasicConductorInputData(q.blkFlag, q.blk), links, q.a, q.b); break; }
            case POT: { GunnsBasicPotential* l = new GunnsBasicPotential; own.emplace_back(l);
                l->initialize(GunnsBasicPotentialConfigData(nm, &list, q.v), GunnsBasicPotentialInputData(q.blkFlag, q.blk, q.pot), links, q.a, q.b); break; }
            case SRC: { GunnsBasicSource* l = new GunnsBasicSource; own.emplace_back(l);
                l->initialize(GunnsBasicSourceConfigData(nm, &list), GunnsBasicSourceInputData(q.blkFlag, q.blk, q.v), links, q.a, q.b); break; }
            case CAP: { GunnsBasicCapacitor* l = new GunnsBasicCapacitor; own.emplace_back(l);
                l->initialize(GunnsBasicCapacitorConfigData(nm, &list), GunnsBasicCapacitorInputData(q.blkFlag, q.blk, q.v, q.pot), links, q.a, q.b); break; }
        }
    }
    GunnsBasicConductor* cond(int i) { return static_cast<GunnsBasicConductor*>(own[i].get()); }
    GunnsBasicPotential* pot(int i) { return static_cast<GunnsBasicPotential*>(own[i].get()); }
    GunnsBasicSource* src(int i) { return static_cast<GunnsBasicSource*>(own[i].get()); }
    GunnsBasicCapacitor* cap(int i) { return static_cast<GunnsBasicCapacitor*>(own[i].get()); }
    // Commands, applied to the objects and to the description.
    void setV(int i, double v) { s[i].v = v; switch (s[i].k) { case COND: case POT: cond(i)->setDefaultConductivity(v); break;
        case SRC: src(i)->setFluxDemand(v); break; case CAP: cap(i)->editCapacitance(true, v); break; } }
    void setPot(int i, double v) { s[i].pot = v; pot(i)->setSourcePotential(v); }
    void setBlk(int i, bool f, double v) { s[i].blkFlag = f; s[i].blk = v; own[i]->setMalfBlockage(f, v); }
    bool setPort(int i, int port, int node) { bool ok = own[i]->setPort(port, node, "test", true); if (ok) (port ? s[i].b : s[i].a) = node; return ok; }
    double P(int node) const { return node == n ? 0.0 : nodes[node].getPotential(); }
    void preStep() { for (size_t i = 0; i < s.size(); ++i) if (s[i].k == CAP) capDp[i] = own[i]->getPotentialVector()[0] - own[i]->getPotentialVector()[1]; }
    double G(int i) const { double g = s[i].v * (s[i].blkFlag ? 1.0 - s[i].blk : 1.0); return g < 0 ? 0 : (g > 1e15 ? 1e15 : g); }
    // expected flux a->b given present node potentials
    double flux(int i, double dt) const { const Spec& q = s[i]; const double dp = P(q.a) - P(q.b);
        switch (q.k) { case COND: return G(i) * dp; case POT: return G(i) * (dp + q.pot); case SRC: return q.v * (q.blkFlag ? 1.0 - q.blk : 1.0);
            case CAP: return q.v / dt * (dp - capDp[i]); } return 0; }
    // connected components over conducting links; grounded flag per component
    void islands(double dt, std::vector<int>& comp, std::vector<bool>& grounded) const {
        comp.resize(n + 1); for (int i = 0; i <= n; ++i) comp[i] = i;
        bool ch = true; (void)dt;
        while (ch) { ch = false; for (size_t i = 0; i < s.size(); ++i) { const Spec& q = s[i]; if (q.a == n || q.b == n) continue;
            double g = q.k == CAP ? q.v : q.k == SRC ? 0 : G(int(i)); if (!(g > 0)) continue;
            if (comp[q.a] != comp[q.b]) { int m = std::min(comp[q.a], comp[q.b]); comp[q.a] = comp[q.b] = m; ch = true; } } }
        grounded.assign(n + 1, false);
        for (size_t i = 0; i < s.size(); ++i) { const Spec& q = s[i]; double g = q.k == CAP ? q.v : q.k == SRC ? 0 : G(int(i));
            if (g > 0 && (q.a == n) != (q.b == n)) grounded[comp[q.a == n ? q.b : q.a]] = true; }
    }
    // Independent dense solution in long double with partial pivoting; false when singular.
    bool reference(double dt, std::vector<double>& p, std::vector<int>& comp, std::vector<bool>& grounded) const {
        islands(dt, comp, grounded);
        const int m = n; std::vector<long double> A(m * (m + 1), 0.0L);
        for (size_t i = 0; i < s.size(); ++i) { const Spec& q = s[i]; long double g = 0, w = 0;   // flux a->b = g*(pa-pb) + w
            switch (q.k) { case COND: g = G(int(i)); break; case POT: g = G(int(i)); w = g * q.pot; break; case SRC: w = q.v * (q.blkFlag ? 1.0L - q.blk : 1.0L); break;
                case CAP: g = (long double)q.v / dt; w = -g * capDp[i]; break; }
            if (q.a < m) { A[q.a * (m + 1) + q.a] += g; if (q.b < m) A[q.a * (m + 1) + q.b] -= g; A[q.a * (m + 1) + m] -= w; }
            if (q.b < m) { A[q.b * (m + 1) + q.b] += g; if (q.a < m) A[q.b * (m + 1) + q.a] -= g; A[q.b * (m + 1) + m] += w; } }
        for (int i = 0; i < m; ++i) if (!grounded[comp[i]]) { for (int j = 0; j <= m; ++j) A[i * (m + 1) + j] = 0; A[i * (m + 1) + i] = 1; }
        for (int i = 0; i < m; ++i) if (grounded[comp[i]]) for (int j = 0; j < m; ++j) if (j != i && !grounded[comp[j]]) A[i * (m + 1) + j] = 0;
        for (int c = 0; c < m; ++c) { int pv = c; for (int r = c + 1; r < m; ++r) if (fabsl(A[r * (m + 1) + c]) > fabsl(A[pv * (m + 1) + c])) pv = r;
            if (A[pv * (m + 1) + c] == 0) return false;
            if (pv != c) for (int j = 0; j <= m; ++j) std::swap(A[c * (m + 1) + j], A[pv * (m + 1) + j]);
            for (int r = 0; r < m; ++r) if (r != c && A[r * (m + 1) + c] != 0) { long double f = A[r * (m + 1) + c] / A[c * (m + 1) + c]; for (int j = c; j <= m; ++j) A[r * (m + 1) + j] -= f * A[c * (m + 1) + j]; } }
        p.resize(m); for (int i = 0; i < m; ++i) p[i] = double(A[i * (m + 1) + m] / A[i * (m + 1) + i]);
        return true;
    }
    // Attainable accuracy of node i in double arithmetic: the backward-error bound |M^-1| (e |M| |p|), for a
    // grounded M-matrix, where p is the reference solution.  Matters only for nearly floating groups of nodes.
    double roundoff(double dt, const std::vector<double>& p, int i) const {
        std::vector<int> comp; std::vector<bool> gr; islands(dt, comp, gr); if (i >= n || !gr[comp[i]] || int(p.size()) < n) return 0;
        const int m = n; std::vector<long double> A(m * (m + 1), 0.0L);
        for (size_t k = 0; k < s.size(); ++k) { const Spec& q = s[k]; long double g = 0, w = 0;
            switch (q.k) { case COND: g = G(int(k)); break; case POT: g = G(int(k)); w = fabsl(g * q.pot); break; case SRC: w = std::fabs(q.v); break; case CAP: g = (long double)q.v / dt; w = fabsl(g * capDp[k]); break; }
            const long double d = 1e-14L * (w + g * (fabsl(q.a < m ? p[q.a] : 0) + fabsl(q.b < m ? p[q.b] : 0)));
            if (q.a < m) { A[q.a * (m + 1) + q.a] += g; if (q.b < m) A[q.a * (m + 1) + q.b] -= g; A[q.a * (m + 1) + m] += d; }
            if (q.b < m) { A[q.b * (m + 1) + q.b] += g; if (q.a < m) A[q.b * (m + 1) + q.a] -= g; A[q.b * (m + 1) + m] += d; } }
        for (int r = 0; r < m; ++r) if (comp[r] != comp[i]) { for (int j = 0; j <= m; ++j) A[r * (m + 1) + j] = 0; A[r * (m + 1) + r] = 1; }
        for (int r = 0; r < m; ++r) if (comp[r] == comp[i]) for (int j = 0; j < m; ++j) if (comp[j] != comp[i]) A[r * (m + 1) + j] = 0;
        for (int c = 0; c < m; ++c) { if (!(A[c * (m + 1) + c] > 0)) return 0;   // diagonally dominant: no pivoting needed
            for (int r = 0; r < m; ++r) if (r != c && A[r * (m + 1) + c] != 0) { long double f = A[r * (m + 1) + c] / A[c * (m + 1) + c]; for (int j = c; j <= m; ++j) A[r * (m + 1) + j] -= f * A[c * (m + 1) + j]; } }
        const double e = double(A[i * (m + 1) + m] / A[i * (m + 1) + i]); return e > 0 && e < 1e300 ? e : 0;
    }
    // Tolerance for a potential: the given one, widened by the attainable accuracy only where it would be exceeded.
    double tol(double base, double rel, double got, double want, double dt, const std::vector<double>& p, int i, double passes = 1) const {
        return std::fabs(got - want) > base + rel * std::fabs(want) ? base + passes * std::min(roundoff(dt, p, i), 1e-4 * std::fabs(want)) : base; }
    // Steps the solver.  False when it threw a numerical exception: that is a violation unless the
    // network holds a floating (ungrounded) multi-node island, a recorded finding with its own key.
    bool step(mon::Ctx& c, double dt) {
        try { net.step(dt); return true; }
        catch (const TsNumericalException& e) {
            std::vector<int> comp; std::vector<bool> gr; islands(dt, comp, gr); bool floating = false;
            for (int i = 0; i < n; ++i) if (!gr[comp[i]]) for (int j = 0; j < i; ++j) if (comp[j] == comp[i]) floating = true;
            if (floating && !reportFloating) { c.count("floating_island_aborts"); return false; }
            c.fail(floatExact ? "floating-exact-decompose" : floating ? "floating-island-decompose" : "grounded-decompose", std::string("the step threw: ") + e.what() + " " + describe(s, n)); return false; }
    }
    double scale() const { double m = 1e-3; for (int i = 0; i < n; ++i) m = std::max(m, std::fabs(P(i))); for (auto& q : s) if (q.k == POT) m = std::max(m, std::fabs(q.pot)); return m; }
};

inline std::vector<Spec> randomSpecs(mon::Rng& r, int n, int nl, double gLo, double gHi, bool caps, bool grounded) {
    std::vector<Spec> v;
    auto ports = [&](int& a, int& b, bool allowGround) { a = r.i(0, allowGround ? n : n - 1); do b = r.i(0, allowGround ? n : n - 1); while (b == a); };
    if (grounded) for (int i = 0; i < n; ++i) if (i == 0 || r.p(0.25)) v.push_back(Spec{COND, i, n, r.logu(gLo, gHi), 0, false, 0});
    if (grounded) for (int i = 1; i < n; ++i) v.push_back(Spec{COND, i, r.i(0, i - 1), r.logu(gLo, gHi), 0, false, 0});
    for (int i = 0; i < nl; ++i) {
        Spec q{COND, 0, 0, 0, 0, false, 0}; double t = r.u();
        ports(q.a, q.b, true);
        if (n == 1) { q.a = r.p(0.5) ? 0 : 1; q.b = 1 - q.a; }
        if (t < 0.4) { q.k = COND; q.v = r.p(0.1) ? 0.0 : r.logu(gLo, gHi); }
        else if (t < 0.6) { q.k = POT; q.v = r.p(0.1) ? 0.0 : r.logu(gLo, gHi); q.pot = r.sgn() * r.logu(0.01, 1000); }
        else if (t < 0.8 || !caps) { q.k = SRC; q.v = r.p(0.1) ? 0.0 : r.sgn() * r.logu(0.01, 100); }
        else { q.k = CAP; q.v = r.p(0.1) ? 0.0 : r.logu(0.01, 100); q.pot = r.uni(-50, 50); }
        if (r.p(0.15)) { q.blkFlag = r.p(0.7); q.blk = r.p(0.2) ? 1.0 : r.u(); }
        v.push_back(q);
    }
    return v;
}
inline std::string describe(const std::vector<Spec>& s, int n) {
    std::string o = mon::fmt("n=%d", n); for (auto& q : s) o += mon::fmt(" %c(%d,%d,%.4g,%.4g%s)", "GPSC"[q.k], q.a, q.b, q.v, q.pot, q.blkFlag ? mon::fmt(",blk%.3g", q.blk).c_str() : ""); return o.substr(0, 900);
}
}
#endif
