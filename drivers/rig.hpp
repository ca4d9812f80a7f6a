// A small bench: tanks of one fluid mixture around one device under test, with random pressure disturbances
// and an exact ledger of mass, species, trace compounds and energy.
#ifndef VERIF_RIG_HPP
#define VERIF_RIG_HPP
#include "fnet.hpp"
namespace rig {
using namespace fnet;
struct HeatTank : GunnsFluidCapacitor { };
struct Rig {
    Mix mix; int n; std::unique_ptr<GunnsFluidNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links;
    std::vector<std::unique_ptr<GunnsBasicLink> > own; std::vector<double> vol; std::vector<GunnsFluidSource*> src; FNet net; bool dist;
    // nodes are [0, tanks) with a volume, then `pure` nodes without, then ground
    Rig(mon::Rng& r, int tanks, int nTypes, int nTc, bool liquid = false, bool disturb = true, double vlo = 0.2, double vhi = 20, double tSpread = 1e9, double pSpread = 1e9, int pure = 0)
        : mix(r, nTypes, nTc, liquid), n(tanks), dist(disturb) { build(r, vlo, vhi, tSpread, pSpread, pure); }
    Rig(mon::Rng& r, int tanks, const std::vector<FP::FluidType>& t, int nTc, bool liquid = false, bool disturb = true, double vlo = 0.2, double vhi = 20, double tSpread = 1e9, double pSpread = 1e9, int pure = 0)
        : mix(r, t, nTc, liquid), n(tanks), dist(disturb) { build(r, vlo, vhi, tSpread, pSpread, pure); }
    std::vector<State> init;
    void build(mon::Rng& r, double vlo, double vhi, double tSpread, double pSpread, int pure) {
        const int all = n + pure; nodes.reset(new GunnsFluidNode[all + 1]); list.mNumNodes = all + 1; list.mNodes = nodes.get(); nNodes = all;
        const double T0 = mix.liquid ? r.uni(285, 340) : r.uni(250, 400), P0 = mix.liquid ? r.uni(100, 500) : r.logu(20, 600);
        for (int i = 0; i <= all; ++i) { State s = randomState(r, mix);
            if (tSpread < 1e8) s.T = T0 + r.uni(-1, 1) * tSpread; if (pSpread < 1e8) s.P = std::max(1.0, P0 + r.uni(-1, 1) * pSpread); if (mix.liquid) s.P = std::max(s.P, 80.0 + r.u()); init.push_back(s); }
        vLo = vlo; vHi = vhi; vol.assign(n, 0.0); for (auto& v : vol) v = r.logu(vlo, vhi); if (mix.liquid) for (auto& v : vol) v = std::min(v, 1.0);
    }
    int nNodes; double vLo, vHi; bool nodeInit = false;   // nodeInit: give the nodes their initial fluid (and thus phase) before the tanks do
    // call after adjusting `init` and `vol`, before adding devices
    void make(mon::Rng& r) {
        for (int i = 0; i <= nNodes; ++i) { Input in(init[i]); nodes[i].initialize(mon::fmt("node%d", i), mix.cfg.get(), (i == nNodes || nodeInit) ? &in.in : 0); }
        net.initializeFluidNodes(list);
        for (int i = 0; i < n; ++i) { Input in(init[i]); GunnsFluidCapacitor* l = new GunnsFluidCapacitor; own.emplace_back(l);
            l->initialize(GunnsFluidCapacitorConfigData(mon::fmt("tank%d", i), &list, 0.0), GunnsFluidCapacitorInputData(false, 0.0, vol[i], &in.in), links, i, nNodes); }
        if (dist) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { GunnsFluidSource* s = new GunnsFluidSource; own.emplace_back(s); src.push_back(s);
            s->initialize(GunnsFluidSourceConfigData(mon::fmt("dist%d%d", i, j), &list), GunnsFluidSourceInputData(false, 0, 0.0), links, i, j); srcA.push_back(i); srcB.push_back(j); }
    }
    std::vector<int> srcA, srcB;
    template<class T> T* add(T* l) { own.emplace_back(l); return l; }
    int ground() const { return nNodes; }
    void start(int minor = 30) { GunnsConfigData cfg("net", 1e-6, 1e-12, minor, 100); net.initialize(cfg, links); }
    // choose new disturbance flows (fraction of the tank's content per step); `amp` scales them
    void disturb(mon::Rng& r, double dt, double amp = 0.03) { for (size_t k = 0; k < src.size(); ++k) { double q = 0; if (r.p(0.6)) { q = mix.liquid ? r.sgn() * r.logu(1e-9, 2e-6) : r.sgn() * r.logu(1e-5, amp);
        const int from = q > 0 ? srcA[k] : srcB[k]; q *= std::min(nodes[srcA[k]].getContent()->getMass(), nodes[srcB[k]].getContent()->getMass()) / (dt * n); (void)from; } src[k]->setFlowDemand(q); } }
    GunnsFluidNode& node(int i) { return nodes[i]; }
    PolyFluid* fl(int i) { return nodes[i].getContent(); }
    double P(int i) { return nodes[i].getPotential(); }
    struct Ledger { double m = 0, e = 0, eAbs = 0; std::vector<double> s, t, mol; };
    Ledger ledger() { Ledger L; L.s.assign(mix.n(), 0.0); L.t.assign(mix.nTc(), 0.0);
        for (int i = 0; i < n; ++i) { PolyFluid* f = fl(i); L.mol.push_back(f->getMole()); L.m += f->getMass(); const double e = f->getMass() * f->getSpecificEnthalpy(); L.e += e; L.eAbs += std::fabs(e);
            for (int k = 0; k < mix.n(); ++k) L.s[k] += massOf(f, k); for (int k = 0; k < mix.nTc(); ++k) L.t[k] += f->getTraceCompounds()->getMasses()[k]; }
        return L; }
    double eps(double dt) { double t = 0, pm = 0, mw = 0; for (int i = 0; i < nNodes; ++i) { pm = std::max(pm, std::fabs(P(i))); mw = std::max(mw, fl(i)->getMWeight()); }
        for (auto* l : links) t += std::fabs(l->getAdmittanceMatrix()[0]) * pm * 2e-13 + 1e-13; return t * dt * std::max(mw, 1.0); }
    // some tank gave away (nearly) all it held in this step: the library then only approximates, nothing is judged
    bool over(mon::Ctx& c, const Ledger& a, double dt) { std::vector<double> out(nNodes + 1, 0.0);
        for (auto* l : links) { if (dynamic_cast<GunnsFluidCapacitor*>(l)) continue; const double fx = l->getFlux(); if (l->getNumberPorts() < 2) { if (fx < 0) out[l->getNodeMap()[0]] -= fx * dt; continue; } out[l->getNodeMap()[fx > 0 ? 0 : 1]] += std::fabs(fx) * dt; }
        for (int i = 0; i < n; ++i) if (out[i] > 0.95 * a.mol[i]) { c.count("overdrawn_steps"); return true; } return false; }
    // compare two ledgers; `heat` is energy added (J) and dm/ds mass added
    void same(mon::Ctx& c, const char* key, const Ledger& a, const Ledger& b, double dt, double heat, double heatTol = 0, bool species = true, bool energy = true, double mAdd = 0) {
        const double e = eps(dt), tol = 1e-9, etol = 3e-7;
        NEAR(b.m, a.m + mAdd, tol, e, std::string(key) + "-mass", mon::fmt("%s: total mass", key));
        if (species) for (int k = 0; k < mix.n(); ++k) NEAR(b.s[k], a.s[k], 0, tol * a.m + e, std::string(key) + "-species", mon::fmt("%s: mass of constituent %d", key, k));
        for (int k = 0; k < mix.nTc(); ++k) NEAR(b.t[k], a.t[k], 1e-8, 1e-6 * e + 1e-13 * a.m, std::string(key) + "-trace", mon::fmt("%s: mass of trace compound %d", key, k));
        if (energy) { const double h = a.m > 0 ? a.eAbs / a.m : 0; NEAR(b.e, a.e + heat, 0, etol * a.eAbs + e * (h + 1e6) + 1e-9 * std::fabs(heat) + heatTol, std::string(key) + "-energy", mon::fmt("%s: total energy (heat added %.6g)", key, heat)); }
    }
};
}
#endif
