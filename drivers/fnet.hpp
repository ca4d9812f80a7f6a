// Random fluid networks built from the real fluid nodes and links, and an independent ledger of
// their contents (mass, species, trace compounds, energy).
#ifndef VERIF_FNET_HPP
#define VERIF_FNET_HPP
#include "mon.hpp"
#include "restart.hpp"
#include <memory>
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidUtils.hh"
#include "core/GunnsFluidConductor.hh"
#include "core/GunnsFluidPotential.hh"
#include "core/GunnsFluidSource.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "aspects/fluid/fluid/PolyFluid.hh"
#include "aspects/fluid/fluid/GunnsFluidTraceCompounds.hh"
#include "aspects/fluid/capacitor/GunnsFluidTank.hh"
#include "aspects/fluid/conductor/GunnsFluidValve.hh"
#include "aspects/fluid/conductor/GunnsFluidCheckValve.hh"

namespace fnet {
struct FNet : rst::Net {
    double lag(int i) override { GunnsFluidNode* n = dynamic_cast<GunnsFluidNode*>(nodeAt(i)); if (!n) return 0.0; PolyFluid* a = n->getContent(); PolyFluid* b = n->getOutflow();
        auto rel = [](double x, double y) { return std::fabs(x - y) / std::max(1e-30, std::max(std::fabs(x), std::fabs(y))); };
        return std::max(rel(a->getPressure(), b->getPressure()), std::max(rel(a->getDensity(), b->getDensity()), std::max(rel(a->getTemperature(), b->getTemperature()), rel(a->getPressure(), n->getPotential())))); }
    void content(int i, std::vector<double>& v, std::vector<std::string>* names) override {
        GunnsFluidNode* n = dynamic_cast<GunnsFluidNode*>(nodeAt(i)); if (!n) return; PolyFluid* f = n->getContent(); const double m = f->getMass();
        auto put = [&](double x, const char* k) { v.push_back(x); if (names) names->push_back(mon::fmt("%s of node %d", k, i)); };
        put(m, "mass"); put(f->getTemperature(), "temperature"); for (int k = 0; k < f->getNConstituents(); ++k) put(f->getMassFraction(k), "fraction");
        if (f->getTraceCompounds()) for (int k = 0; k < f->getTraceCompounds()->getConfig()->mNTypes; ++k) put(f->getTraceCompounds()->getMasses()[k], "trace compound"); } };
typedef FluidProperties FP;
inline const std::vector<FP::FluidType>& gases() { static const std::vector<FP::FluidType> g = { FP::GUNNS_CO2, FP::GUNNS_H2O, FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_HE, FP::GUNNS_H2, FP::GUNNS_CH4, FP::GUNNS_CO, FP::GUNNS_AR, FP::GUNNS_NH3 }; return g; }
inline const std::vector<FP::FluidType>& liquids() { static const std::vector<FP::FluidType> g = { FP::GUNNS_WATER, FP::GUNNS_HFE7000, FP::GUNNS_PG50 }; return g; }

// Owns the description of the fluid mixture.
struct Mix {
    DefinedFluidProperties props; DefinedChemicalCompounds comps;
    std::vector<FP::FluidType> types; std::vector<ChemicalCompound::Type> tcTypes;
    std::unique_ptr<GunnsFluidTraceCompoundsConfigData> tcCfg;
    std::unique_ptr<PolyFluidConfigData> cfg;
    bool liquid;
    Mix(mon::Rng& r, int nTypes, int nTc, bool liq) : liquid(liq) {
        std::vector<FP::FluidType> pool = liq ? liquids() : gases(); r.shuffle(pool);
        types.assign(pool.begin(), pool.begin() + std::min(size_t(nTypes), pool.size()));
        finish(r, nTc);
    }
    Mix(mon::Rng& r, const std::vector<FP::FluidType>& t, int nTc, bool liq = false) : types(t), liquid(liq) { finish(r, nTc); }
    void finish(mon::Rng& r, int nTc) {
        if (nTc > 0) {
            std::vector<ChemicalCompound::Type> all;
            for (int i = 0; i < 20; ++i) { ChemicalCompound::Type t = ChemicalCompound::Type(i); const ChemicalCompound* q = comps.getCompound(t);
                bool clash = false; for (auto f : types) if (q->mFluidType == f && !overlap()) clash = true; if (!clash) all.push_back(t); }
            r.shuffle(all); tcTypes.assign(all.begin(), all.begin() + std::min<size_t>(nTc, all.size()));
            tcCfg.reset(new GunnsFluidTraceCompoundsConfigData(tcTypes.data(), int(tcTypes.size()), "tc"));
        }
        cfg.reset(new PolyFluidConfigData(&props, types.data(), int(types.size()), tcCfg.get()));
    }
    static bool& overlap() { static bool b = false; return b; }   // trace compounds may also be a main constituent
    int n() const { return int(types.size()); }
    int nTc() const { return int(tcTypes.size()); }
    std::vector<double> fractions(mon::Rng& r) const {
        std::vector<double> f(n()); double t = 0; for (auto& v : f) { v = r.p(0.2) ? 0.0 : r.p(0.2) ? r.logu(1e-8, 1e-2) : r.u(); t += v; }
        if (t <= 0) { f[r.i(0, n() - 1)] = 1; t = 1; } for (auto& v : f) v /= t; return f; }
};
struct State { double T, P; std::vector<double> x; std::vector<double> tc; };   // x mass fractions, tc mole fractions
inline State randomState(mon::Rng& r, const Mix& m) {
    State s; s.T = m.liquid ? r.uni(280, 350) : r.uni(220, 480); s.P = r.p(0.15) ? r.logu(0.01, 5.0) : r.logu(5.0, 1000.0); s.x = m.fractions(r);
    for (int i = 0; i < m.nTc(); ++i) s.tc.push_back(r.p(0.3) ? 0.0 : r.logu(1e-9, 1e-4)); return s; }
// input data objects with owned arrays
struct Input { State s; GunnsFluidTraceCompoundsInputData tc; PolyFluidInputData in;
    explicit Input(const State& q) : s(q), tc(s.tc.empty() ? 0 : s.tc.data()), in(s.T, s.P, 0.0, 0.0, s.x.data(), s.tc.empty() ? 0 : &tc) {} };

inline double massOf(PolyFluid* f, int i) { return f->getMass() * f->getMassFraction(i); }

// Validity of one fluid state, judged from its public reads only.
inline void validFluid(mon::Ctx& c, const PolyFluid* f, const char* where, bool massed, bool passive = false) {
    const int n = f->getNConstituents(); double sx = 0, sy = 0, mw = 0, pp = 0, xm = 0;
    if (!FIN(f->getTemperature(), "fluid-finite", std::string(where) + " temperature")) return;
    if (!FIN(f->getPressure(), "fluid-finite", std::string(where) + " pressure")) return;
    FIN(f->getDensity(), "fluid-finite", std::string(where) + " density"); FIN(f->getSpecificEnthalpy(), "fluid-finite", std::string(where) + " enthalpy");
    FIN(f->getMass(), "fluid-finite", std::string(where) + " mass"); FIN(f->getMole(), "fluid-finite", std::string(where) + " mole"); FIN(f->getViscosity(), "fluid-finite", std::string(where) + " viscosity");
    CHK(f->getTemperature() > 0.0, "fluid-temperature", mon::fmt("%s temperature %g", where, f->getTemperature()));
    if (passive) CHK(f->getPressure() >= -1e-9, "fluid-pressure", mon::fmt("%s pressure %g", where, f->getPressure()));
    CHK(f->getMass() >= 0.0 && f->getMole() >= 0.0, "fluid-mass-sign", mon::fmt("%s mass %g mole %g", where, f->getMass(), f->getMole()));
    for (int i = 0; i < n; ++i) { const double x = f->getMassFraction(i), y = f->getMoleFraction(i); const FP* p = f->getProperties(f->getType(i));
        CHK(x >= 0.0 && x <= 1.0 + 1e-12 && y >= 0.0 && y <= 1.0 + 1e-12, "fluid-fraction-range", mon::fmt("%s fraction %d: mass %.17g mole %.17g", where, i, x, y));
        sx += x; sy += y; mw += y * p->getMWeight(); xm += x / p->getMWeight(); pp += f->getPartialPressure(f->getType(i)); }
    NEAR(sx, 1.0, 0, 1e-9, "fluid-fraction-sum", std::string(where) + " mass fraction sum"); NEAR(sy, 1.0, 0, 1e-9, "fluid-fraction-sum", std::string(where) + " mole fraction sum");
    NEAR(f->getMWeight(), mw, 1e-9, 0, "fluid-mweight", std::string(where) + " molecular weight against mole fractions");
    NEAR(f->getMWeight() * xm, 1.0, 1e-9, 0, "fluid-mweight-mass", std::string(where) + " molecular weight against mass fractions");
    for (int i = 0; i < n; ++i) { const FP* p = f->getProperties(f->getType(i));
        NEAR(f->getMassFraction(i) * f->getMWeight(), f->getMoleFraction(i) * p->getMWeight(), 1e-9, 1e-12, "fluid-mass-mole", std::string(where) + " mass/mole fraction agreement"); }
    if (massed && f->getPhase() == FP::GAS) NEAR(pp, f->getPressure(), 1e-9, 1e-12, "fluid-dalton", std::string(where) + " partial pressure sum");
    if (massed) NEAR(f->getMole() * f->getMWeight(), f->getMass(), 1e-9, 1e-18, "fluid-mass-moles", std::string(where) + " mass = mole * molecular weight");
}

// Spy that counts transports and remembers what went through.
struct BiasTank : GunnsFluidTank { void bias(float q) { mBiasHeatFlux = q; } };
struct SpyCond : GunnsFluidConductor { int transports = 0; void transportFlows(const double dt) { ++transports; GunnsFluidConductor::transportFlows(dt); } };

enum Kind { TANK, CAP, COND, POT, SRC, VALVE, CHECK };
struct FLink { Kind k; int a, b; double v, w; };
struct Opt { int tanks = 3, pure = 2, extra = 6; int nTypes = 3, nTc = 0; bool liquid = false; double expansion = 0; bool ground = false, sources = true, potentials = true, internalFluid = false; double maxG = 1e-2; double volLo = 0.1, volHi = 20; };

struct Net {
    Mix mix; Opt o; int n; std::unique_ptr<GunnsFluidNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links;
    std::vector<std::unique_ptr<GunnsBasicLink> > own; std::vector<FLink> f; FNet net; std::vector<double> vol;
    static Opt norm(Opt q) { if (q.liquid) q.volHi = 1.0; return q; }
    Net(mon::Rng& r, const Opt& opt) : mix(r, opt.nTypes, opt.nTc, opt.liquid), o(norm(opt)), n(opt.tanks + opt.pure), nodes(new GunnsFluidNode[n + 1]) {
        list.mNumNodes = n + 1; list.mNodes = nodes.get();
        for (int i = 0; i <= n; ++i) { Input in(randomState(r, mix)); nodes[i].initialize(mon::fmt("node%d", i), mix.cfg.get(), i == n ? &in.in : 0); }
        
        net.initializeFluidNodes(list);
        vol.assign(n, 0.0);
        for (int i = 0; i < o.tanks; ++i) { vol[i] = r.logu(o.volLo, o.volHi); FLink q{r.p(0.5) ? TANK : CAP, i, n, vol[i], 0}; add(r, q); }
        for (int i = 1; i < n; ++i) { FLink q{COND, i, r.i(0, i - 1), r.logu(o.maxG * 1e-4, o.maxG), 0}; if (r.p(0.5)) std::swap(q.a, q.b); add(r, q); }
        for (int i = o.tanks; i < n; ++i) if (r.p(0.8)) { FLink q{COND, r.i(0, i - 1), i, r.logu(o.maxG * 1e-4, o.maxG), 0}; add(r, q); }
        for (int i = 0; i < o.extra; ++i) { FLink q{COND, 0, 0, 0, 0}; if (n < 2) break; q.a = r.i(0, n - 1); do q.b = r.i(0, n - 1); while (q.b == q.a);
            q.v = r.logu(o.maxG * 1e-4, o.maxG); double t = r.u();
            if (t < 0.25 && o.potentials) { q.k = POT; q.w = r.sgn() * r.logu(0.1, 50); }
            else if (t < 0.45 && o.sources) { q.k = SRC; if (o.pure && q.a >= o.tanks) q.a = r.i(0, o.tanks - 1); if (q.b >= o.tanks) q.b = r.i(0, o.tanks - 1); if (q.a == q.b) continue; q.v = r.sgn() * r.logu(1e-6, 1e-3); }
            else if (t < 0.6) { q.k = VALVE; q.w = r.u(); } else if (t < 0.75) { q.k = CHECK; }
            add(r, q); }
        if (o.ground) { FLink q{r.p(0.5) ? COND : VALVE, r.i(0, n - 1), n, r.logu(o.maxG * 1e-5, o.maxG * 0.1), 1.0}; add(r, q); if (r.p(0.4)) { FLink s{SRC, n, r.i(0, o.tanks - 1), r.logu(1e-6, 1e-3), 0}; add(r, s); } }
    }
    void start(int minor = 30) { GunnsConfigData cfg("net", 1e-6, 1e-12, minor, 100); net.initialize(cfg, links); }
    void add(mon::Rng& r, FLink q) {
        const std::string nm = mon::fmt("link%d", int(f.size()));
        switch (q.k) {
            case TANK: { Input in(randomState(r, mix)); GunnsFluidTank* l = new BiasTank; own.emplace_back(l);
                GunnsFluidTankConfigData cd(nm, &list, o.expansion, r.u(), 0.0, 1e-6, 0.0f, 0.0f); GunnsFluidTankInputData id(false, 0.0, q.v, &in.in, 0.0f, 0.0f); l->initialize(cd, id, links, q.a, q.b); break; }
            case CAP: { Input in(randomState(r, mix)); GunnsFluidCapacitor* l = new GunnsFluidCapacitor; own.emplace_back(l);
                GunnsFluidCapacitorConfigData cd(nm, &list, o.expansion); GunnsFluidCapacitorInputData id(false, 0.0, q.v, &in.in); l->initialize(cd, id, links, q.a, q.b); break; }
            case COND: { SpyCond* l = new SpyCond; own.emplace_back(l); GunnsFluidConductorConfigData cd(nm, &list, q.v, 0.0, r.p(0.5) ? 0.5 : r.uni(0.5, 1.0)); l->initialize(cd, GunnsFluidConductorInputData(), links, q.a, q.b); break; }
            case POT: { GunnsFluidPotential* l = new GunnsFluidPotential; own.emplace_back(l); GunnsFluidPotentialConfigData cd(nm, &list, q.v, 0.0); l->initialize(cd, GunnsFluidPotentialInputData(false, 0, q.w), links, q.a, q.b); break; }
            case SRC: { GunnsFluidSource* l = new GunnsFluidSource; own.emplace_back(l); l->initialize(GunnsFluidSourceConfigData(nm, &list), GunnsFluidSourceInputData(false, 0, q.v), links, q.a, q.b); break; }
            case VALVE: { GunnsFluidValve* l = new GunnsFluidValve; own.emplace_back(l); l->initialize(GunnsFluidValveConfigData(nm, &list, q.v, 0.0), GunnsFluidValveInputData(false, 0, q.w), links, q.a, q.b); break; }
            case CHECK: { GunnsFluidCheckValve* l = new GunnsFluidCheckValve; own.emplace_back(l); l->initialize(GunnsFluidCheckValveConfigData(nm, &list, q.v, 0, 0, 0, 0, 0.3, 0.1, 0.5), GunnsFluidCheckValveInputData(), links, q.a, q.b); break; }
        }
        f.push_back(q);
    }
    GunnsFluidLink* fl(int i) { return static_cast<GunnsFluidLink*>(own[i].get()); }
    double mass() { double m = 0; for (int i = 0; i < n; ++i) if (vol[i] > 0) m += nodes[i].getContent()->getMass(); return m; }
    double species(int s) { double m = 0; for (int i = 0; i < n; ++i) if (vol[i] > 0) m += massOf(nodes[i].getContent(), s); return m; }
    double tc(int t) { double m = 0; for (int i = 0; i < n; ++i) if (vol[i] > 0) m += nodes[i].getContent()->getTraceCompounds()->getMasses()[t]; return m; }
    double energy() { double m = 0; for (int i = 0; i < n; ++i) if (vol[i] > 0) m += nodes[i].getContent()->getMass() * nodes[i].getContent()->getSpecificEnthalpy(); return m; }
    std::vector<double> molOld; std::vector<bool> overflowed;
    void before() { molOld.resize(n); for (int i = 0; i < n; ++i) molOld[i] = nodes[i].getContent()->getMole(); }
    // The step drew more from some node than it held and received, or the overflowing nodes form a directed flow
    // cycle (the orchestrator documents that it then approximates): conservation is not promised.
    bool unjudgeable(double dt) {
        std::vector<double> out(n + 1, 0.0), in(n + 1, 0.0); std::vector<std::pair<int, int> > g;
        for (size_t i = 0; i < f.size(); ++i) { if (f[i].k == TANK || f[i].k == CAP) continue; const double fx = own[i]->getFlux(); if (fx == 0) continue; const int* m = own[i]->getNodeMap(); const int a = fx > 0 ? m[0] : m[1], b = fx > 0 ? m[1] : m[0];
            out[a] += std::fabs(fx) * dt; in[b] += std::fabs(fx) * dt; g.push_back({a, b}); }
        std::vector<bool>& over = overflowed; over.assign(n + 1, false); for (int i = 0; i < n; ++i) { over[i] = out[i] > molOld[i] * (1 - 1e-9); if (vol[i] > 0 && over[i] && out[i] > molOld[i] + in[i] * 0.999) return true; }
        std::vector<int> indeg(n + 1, 0); std::vector<std::pair<int, int> > h; for (auto& e : g) if (e.first < n && e.second < n && over[e.first] && over[e.second]) { h.push_back(e); ++indeg[e.second]; }
        std::vector<int> st; int seen = 0; for (int i = 0; i < n; ++i) if (!indeg[i]) st.push_back(i);
        while (!st.empty()) { int x = st.back(); st.pop_back(); ++seen; for (auto& e : h) if (e.first == x && --indeg[e.second] == 0) st.push_back(e.second); }
        return seen < n;
    }
    // Mass that the documented minimum-flow limits may lose or gain in one step (kg).
    double epsMass(double dt) { double t = 0, pm = 0, mw = 0; for (int i = 0; i < n; ++i) { pm = std::max(pm, std::fabs(nodes[i].getPotential())); mw = std::max(mw, nodes[i].getContent()->getMWeight()); }
        for (size_t i = 0; i < f.size(); ++i) t += std::fabs(own[i]->getAdmittanceMatrix()[0]) * pm * 2e-13 + 1e-13; return t * dt * std::max(mw, 1.0); }
    std::string describe() const { std::string s = mon::fmt("n=%d types=%d tc=%d %s", n, mix.n(), mix.nTc(), mix.liquid ? "liquid" : "gas"); for (auto& q : f) s += mon::fmt(" %c(%d,%d,%.3g,%.3g)", "TKGPSVC"[q.k], q.a, q.b, q.v, q.w); return s.substr(0, 700); }
};
}
#endif
