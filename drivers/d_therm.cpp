// Thermal aspect monitors (T01 networks, T02 configured networks, T03 phase change battery and thermoelectric device).
#include "erig.hpp"
#include <cfloat>
#include <functional>
#include "aspects/thermal/GunnsThermalCapacitor.hh"
#include "aspects/thermal/GunnsThermalCapacitorHeatQueues.hh"
#include "aspects/thermal/GunnsThermalHeater.hh"
#include "aspects/thermal/GunnsThermalPanel.hh"
#include "aspects/thermal/GunnsThermalMultiPanel.hh"
#include "aspects/thermal/GunnsThermalPotential.hh"
#include "aspects/thermal/GunnsThermalRadiation.hh"
#include "aspects/thermal/GunnsThermalSource.hh"
#include "aspects/thermal/GunnsThermalPhaseChangeBattery.hh"
#include "aspects/thermal/GunnsThermoelectricDevice.hh"
#include "aspects/thermal/network/ThermalNetwork.hh"
#include "core/network/GunnsBasicSuperNetwork.hh"
#include <fstream>
#include <map>
#include <unistd.h>

namespace {
using erig::Rig;
const double SB = 5.670400e-8, kGmax = 1e15;
struct Cap : GunnsThermalCapacitor { double ext() const { return mSumExternalHeatFluxes; } double extAt(int i) const { return mExternalHeatFlux[i]; } bool editing() const { return mEditCapacitanceFlag; } };
struct Rad : GunnsThermalRadiation { double eff() const { return mEffectiveConductivity; } };
struct Src : GunnsThermalSource { double& demand() { return mDemandedFlux; } bool& ovr() { return mTemperatureOverrideFlag; } double& ovrT() { return mTemperatureOverrideValue; } double avg() const { return mAvgPortTemperature; } };
struct Htr : GunnsThermalHeater { double avg() const { return mAvgPortTemperature; } };
struct Pan : GunnsThermalPanel { static double GunnsThermalPanel::* field() { return &Pan::mIncidentHeatFluxPerArea; } double& inc() { return mIncidentHeatFluxPerArea; } double avg() const { return mAvgPortTemperature; } };
struct MPan : GunnsThermalMultiPanel { double* inc() { return mIncidentFlux; } double* view() { return mViewScalar; } };
struct HQ : GunnsThermalCapacitorHeatQueues { HQ(GunnsThermalCapacitor& c) : GunnsThermalCapacitorHeatQueues(c) {} GunnsThermalCapacitorHeatQueueData* q() { return mQueues; } };
double rin(Rig& g, GunnsBasicLink* l, int p) { if (l->getAdmittanceMatrix()) return g.into(l, p); return -l->getSourceVector()[p]; }
std::vector<double> fracs(mon::Ctx& c, int k) { std::vector<double> f; double s = 0; for (int i = 0; i < k; ++i) { f.push_back(c.r.p(0.1) && k > 1 ? 0.0 : c.r.u() + 1e-3); s += f.back(); } if (s <= 0) { f[0] = 1; s = 1; } for (auto& x : f) x /= s; return f; }
struct C { Cap* l; int n; double cap; std::vector<double> ext; bool ovr = false; double ovrT = 0; bool taint = false; double T = 0; HQ* hq = 0; std::vector<std::vector<double> > q; };
struct G { GunnsBasicConductor* l; int a, b; double g; Rad* rad = 0; double vs = 1; bool bf = false; double bv = 0; double eff = 0; };
struct Q { GunnsThermalSource* l; std::vector<int> p; std::vector<double> f; double scalar; int kind; Src* s = 0; Htr* h = 0; Pan* pn = 0; MPan* mp = 0; double demand = 0; double k = 0; double ab[5], area = 0; bool bf = false; double bv = 0; bool of = false; double ov = 0; };
struct Pt { GunnsThermalPotential* l; int n; double g, T; bool bf = false; double bv = 0; };
double block(bool f, double v) { return f ? 1.0 - std::min(1.0, std::max(0.0, v)) : 1.0; }
}

MON_PROP2(T01, network, "random networks of capacitors, conductors, radiation, sources, heaters, panels and boundaries against heat balances") {
    const int n = c.r.i(1, 6); Rig g(n, 1e-10); std::vector<C> cs; std::vector<G> gs; std::vector<Q> qs; std::vector<Pt> ps; std::vector<std::shared_ptr<HQ> > hqs; const auto nm = [&](const char* s) { return mon::fmt("%s%zu", s, g.own.size()); };
    const double Tg = 0; (void)Tg; std::vector<double> T0;
    for (int i = 0; i < n; ++i) { T0.push_back(c.r.uni(150, 450)); const int k = c.r.p(0.75) ? (c.r.p(0.15) ? 2 : 1) : 0; for (int j = 0; j < k; ++j) { C x; x.l = g.mk<Cap>(); x.n = i; x.cap = c.r.p(0.05) ? 0.0 : c.r.logu(10, 1e5); const double Ti = j == 0 ? T0[size_t(i)] : T0[size_t(i)]; x.ext.assign(15, 0.0); x.l->initialize(GunnsThermalCapacitorConfigData(nm("cap"), &g.list, i), GunnsThermalCapacitorInputData(false, 0.0, x.cap, Ti), g.links, i, n); x.T = Ti; CHK(x.l->getTemperature() == Ti && x.l->getEditCapacitanceGroup() == i, "cap-init", "capacitor initial temperature or group"); cs.push_back(x); } }
    const auto cond = [&](int a, int b, double G_) { G x; x.l = g.mk<GunnsBasicConductor>(); x.a = a; x.b = b; x.g = G_; x.l->initialize(GunnsBasicConductorConfigData(nm("cond"), &g.list, G_), GunnsBasicConductorInputData(), g.links, a, b); gs.push_back(x); };
    for (int i = 1; i < n; ++i) cond(i, c.r.i(0, i - 1), c.r.logu(1e-2, 50)); for (int i = 0; i < c.r.i(0, n); ++i) { const int a = c.r.i(0, n - 1), b = c.r.i(0, n); if (a != b) cond(a, b, b == n ? c.r.logu(1e-4, 0.1) : c.r.logu(1e-3, 50)); }
    for (int i = 0, k = c.r.i(0, n + 1); i < k; ++i) { const int a = c.r.i(0, n - 1), b = c.r.i(0, n); if (a == b) continue; G x; x.rad = g.mk<Rad>(); x.l = x.rad; x.a = a; x.b = b; if (c.r.p(0.5)) std::swap(x.a, x.b); x.g = c.r.logu(1e-2, 30) * SB; x.vs = c.r.p(0.3) ? c.r.u() : 1.0; x.rad->initialize(GunnsThermalRadiationConfigData(nm("rad"), &g.list, x.g), GunnsThermalRadiationInputData(false, 0.0, x.vs), g.links, x.a, x.b); gs.push_back(x); }
    for (int i = 0; i < n; ++i) if (c.r.p(0.3) || (n == 1 && cs.empty())) { Pt x; x.l = g.mk<GunnsThermalPotential>(); x.n = i; x.g = c.r.p(0.2) ? 1e8 : c.r.logu(0.1, 1000); x.T = c.r.uni(100, 500); x.l->initialize(GunnsThermalPotentialConfigData(nm("pot"), &g.list, x.g), GunnsThermalPotentialInputData(false, 0.0, x.T), g.links, n, i); ps.push_back(x); }
    if (ps.empty()) { Pt x; x.l = g.mk<GunnsThermalPotential>(); x.n = c.r.i(0, n - 1); x.g = c.r.logu(0.01, 10); x.T = c.r.uni(100, 500); x.l->initialize(GunnsThermalPotentialConfigData(nm("pot"), &g.list, x.g), GunnsThermalPotentialInputData(false, 0.0, x.T), g.links, n, x.n); ps.push_back(x); }
    for (int i = 0, k = c.r.i(0, 4); i < k; ++i) { Q x; const int m = c.r.i(1, std::min(n, 4)); std::vector<int> all; for (int j = 0; j < n; ++j) all.push_back(j); c.r.shuffle(all); x.p.assign(all.begin(), all.begin() + m); x.f = fracs(c, m); x.scalar = c.r.p(0.5) ? 1.0 : c.r.uni(0.2, 1.2); x.kind = c.r.i(0, 3); x.demand = x.kind ? 0.0 : c.r.uni(0, 200);
        if (x.kind == 0) { x.l = x.s = g.mk<Src>(); x.s->initialize(GunnsThermalSourceConfigData(nm("src"), &g.list, x.scalar, &x.f), GunnsThermalSourceInputData(false, 0.0, x.demand), g.links, &x.p); }
        else if (x.kind == 1) { x.l = x.h = g.mk<Htr>(); x.h->initialize(GunnsThermalHeaterConfigData(nm("htr"), &g.list, x.scalar, &x.f), GunnsThermalHeaterInputData(), g.links, &x.p); }
        else if (x.kind == 2) { x.l = x.pn = g.mk<Pan>(); const double al = c.r.p(0.1) ? 0.0 : c.r.uni(0.01, 1), ar = c.r.p(0.1) ? 0.0 : c.r.logu(0.01, 10); x.k = al * ar; x.pn->initialize(GunnsThermalPanelConfigData(nm("pan"), &g.list, x.scalar, &x.f, al, ar), GunnsThermalPanelInputData(), g.links, &x.p); if (c.r.p(0.5)) x.pn->inc() = 0; CHK(std::isfinite(x.pn->getIncidentFlux()), "panel-nan", mon::fmt("incident flux of a panel with absorptivity %.3g and area %.3g is not a number", al, ar)); if (!std::isfinite(x.pn->getIncidentFlux())) return; }
        else { x.l = x.mp = g.mk<MPan>(); x.area = c.r.logu(0.01, 10); for (double& a : x.ab) a = c.r.u(); x.mp->initialize(GunnsThermalMultiPanelConfigData(nm("mpan"), &g.list, x.scalar, &x.f, x.ab[0], x.ab[1], x.ab[2], x.ab[3], x.ab[4], x.area), GunnsThermalMultiPanelInputData(), g.links, &x.p); }
        qs.push_back(x); }
    g.start(20); c.note += mon::fmt("%d nodes, %zu capacitors, %zu conductors, %zu sources, %zu boundaries", n, cs.size(), gs.size(), qs.size(), ps.size());
    for (auto& x : cs) if (c.r.p(0.25)) { std::shared_ptr<HQ> h(new HQ(*x.l)); GunnsThermalCapacitorHeatQueuesConfigData qc(nm("hq")); GunnsThermalCapacitorHeatQueuesInputData qi; h->initialize(&qc, &qi); x.hq = h.get(); x.q.assign(15, std::vector<double>()); hqs.push_back(h); }
    std::vector<double> Vp(size_t(n) + 1, 0.0); for (int i = 0; i < n; ++i) Vp[size_t(i)] = g.V(i); double dt = c.r.pick(std::vector<double>{0.1, 1.0, 10.0}); const int steps = c.r.i(3, 15);
    for (int t = 0; t < steps; ++t) {
        if (c.r.p(0.1)) dt = c.r.pick(std::vector<double>{0.1, 1.0, 10.0, 60.0}); bool anyOvr = false;
        for (auto& x : cs) { if (c.r.p(0.3)) { const int k = c.r.i(0, 14); x.ext[size_t(k)] = c.r.p(0.3) ? 0.0 : c.r.uni(-100, 300); x.l->setExternalHeatFlux(unsigned(k), x.ext[size_t(k)]); }
            if (c.r.p(0.1)) { const double nc = c.r.logu(10, 1e5); if (c.r.p(0.5)) { x.cap = nc; x.l->setCapacitance(nc); } else { x.l->editCapacitance(true, nc); x.cap = nc; } }
            if (x.hq) { for (int k = 0; k < 15; ++k) { auto& q = x.q[size_t(k)]; if (c.r.p(0.1)) { q.clear(); for (int j = 0, m = c.r.i(0, 5); j < m; ++j) q.push_back(c.r.uni(-100, 100)); x.hq->q()[k].mHeat_queue = q.empty() ? 0 : &q[0]; x.hq->q()[k].mHeat_queue_size = int(q.size()); } if (!q.empty()) { double s = 0; for (double y : q) s += y; x.ext[size_t(k)] = s / double(q.size()); } } x.hq->stepPreSolver(dt); c.hit("queue"); }
            if (c.r.p(0.05)) { x.ovr = c.r.p(0.5); if (x.ovr) { x.ovrT = c.r.uni(100, 500); x.taint = false; x.l->setPortOverride(0, x.ovrT); } else x.l->resetPortOverride(0); } }
        for (auto& x : gs) { if (c.r.p(0.1)) { x.bf = c.r.p(0.6); x.bv = c.r.p(0.2) ? 1.0 : c.r.u(); x.l->setMalfBlockage(x.bf, x.bv); } if (x.rad && c.r.p(0.15)) x.rad->setViewScalar(x.vs = c.r.u()); if (c.r.p(0.05)) { x.g *= c.r.uni(0.5, 2); x.l->setDefaultConductivity(x.g); } }
        for (auto& x : ps) { if (c.r.p(0.15)) x.l->setSourcePotential(x.T = c.r.uni(100, 500)); if (c.r.p(0.05)) { x.bf = c.r.p(0.6); x.bv = c.r.u(); x.l->setMalfBlockage(x.bf, x.bv); } }
        for (auto& x : qs) { if (c.r.p(0.3)) { if (x.s) x.s->demand() = x.demand = c.r.uni(-50, 200); else if (x.h) x.h->setPowerElectrical(x.demand = c.r.uni(0, 200)); else if (x.pn) { const double y = c.r.uni(0, 1400); x.pn->inc() = y; x.demand = x.k * y; } else { x.demand = 0; for (int k = 0; k < 5; ++k) { const double w = c.r.u(), y = c.r.p(0.2) ? 0.0 : c.r.uni(0, 1400); x.mp->view()[k] = w; x.mp->inc()[k] = y; x.demand += x.ab[k] * w * y * x.area; } } }
            if (c.r.p(0.1)) { x.bf = c.r.p(0.6); x.bv = c.r.p(0.2) ? 1.0 : c.r.u(); x.l->setMalfBlockage(x.bf, x.bv); } if (c.r.p(0.1)) { x.of = c.r.p(0.5); x.ov = c.r.uni(-100, 200); x.l->setMalfFluxOverride(x.of, x.ov); } if (x.s && c.r.p(0.05)) { x.s->ovr() = c.r.p(0.5); x.s->ovrT() = c.r.uni(100, 500); } if (x.s && x.s->ovr()) anyOvr = true; }
        std::vector<int> no(size_t(n) + 1, 0); for (auto& x : cs) if (x.ovr) { anyOvr = true; ++no[size_t(x.n)]; } for (auto& x : qs) if (x.s && x.s->ovr()) for (int k : x.p) ++no[size_t(k)]; for (auto& x : cs) if (x.ovr && no[size_t(x.n)] > 1) x.taint = true;   // overlapping overrides of one node overwrite each other
        std::vector<int> isl(size_t(n), 0); std::vector<char> gd(size_t(n), 0); for (int i = 0; i < n; ++i) isl[size_t(i)] = i; std::function<int(int)> root = [&](int k) { return isl[size_t(k)] == k ? k : root(isl[size_t(k)]); }; for (auto& x : gs) if (x.g * block(x.bf, x.bv) > (x.rad ? 1e-10 : 1e-4) && (!x.rad || x.vs > 0.01)) { if (x.a < n && x.b < n) isl[size_t(root(x.a))] = root(x.b); } for (auto& x : gs) if (!x.rad && (x.a == n || x.b == n) && x.g * block(x.bf, x.bv) > 1e-5) gd[size_t(root(std::min(x.a, x.b)))] = 1; for (auto& x : ps) if (x.g * block(x.bf, x.bv) > 1e-3) gd[size_t(root(x.n))] = 1; for (auto& x : cs) if (x.cap > 1) gd[size_t(root(x.n))] = 1; for (int i = 0; i < n; ++i) if (!gd[size_t(root(i))]) { c.count("floating"); return; }
        const bool conv = g.step(dt); if (!CHK(conv, "converged", "a thermal network did not solve")) return; c.count("steps"); for (int i = 0; i < n; ++i) if (!(std::fabs(g.V(i)) < 1e5)) return;
        std::vector<double> in(size_t(n) + 1, 0.0), mag(size_t(n) + 1, 0.0), infl(size_t(n) + 1, 0.0); const auto add = [&](int k, double q) { in[size_t(k)] += q; mag[size_t(k)] = std::max(mag[size_t(k)], std::fabs(q)); };   // heat leaving the node into links, by law
        for (auto& x : gs) { if (x.rad) { const double a = Vp[size_t(x.a)], b = Vp[size_t(x.b)]; if (t > 0 && std::fabs(a - b) > DBL_EPSILON) x.eff = x.vs * x.g * (a * a * a * a - b * b * b * b) / (a - b); else if (t == 0) x.eff = x.rad->eff(); else { x.eff = x.vs * x.g * 4 * a * a * a; const double q = x.eff * block(x.bf, x.bv) * (g.V(x.a) - g.V(x.b)); NEAR(x.l->getFlux(), q, 1e-6, 1e-6, "radiation-equal-temperature", mon::fmt("radiation over a step that began with both surfaces at exactly %.9g K", a)); add(x.a, rin(g, x.l, 0)); add(x.b, -rin(g, x.l, 0)); continue; } } else x.eff = x.g; const double G_ = std::min(kGmax, x.eff * block(x.bf, x.bv)), q = G_ * (g.V(x.a) - g.V(x.b));
            if (x.rad && t == 0) { add(x.a, rin(g, x.l, 0)); add(x.b, -rin(g, x.l, 0)); continue; } const char* k = x.rad ? "radiation" : "conduction"; if (std::fabs(g.V(x.a)) + std::fabs(g.V(x.b)) < 1e6) { NEAR(x.l->getFlux(), q, 1e-9, 1e-9 + 1e-12 * G_ * 500, k, mon::fmt("%s between %.9g K and %.9g K", k, g.V(x.a), g.V(x.b))); NEAR(rin(g, x.l, 0), q, 1e-9, 1e-9 + 1e-12 * G_ * 500, k, "heat in the system of equations"); } add(x.a, q); add(x.b, -q); const double m = 1e-3 * G_ * (std::fabs(g.V(x.a)) + std::fabs(g.V(x.b))); mag[size_t(x.a)] = std::max(mag[size_t(x.a)], m); mag[size_t(x.b)] = std::max(mag[size_t(x.b)], m); c.hit(mon::fmt("%s-%d", k, x.bf)); }
        for (auto& x : ps) { const double G_ = x.g * block(x.bf, x.bv), q = G_ * (g.V(x.n) - x.T); NEAR(-x.l->getFlux(), q, 1e-9, 1e-9 + 1e-11 * G_ * 500, "boundary", mon::fmt("heat to a boundary at %.9g K from %.9g K", x.T, g.V(x.n))); add(x.n, q); mag[size_t(x.n)] = std::max(mag[size_t(x.n)], 1e-3 * G_ * std::fabs(g.V(x.n))); }
        for (auto& x : qs) { const double F = x.of ? x.ov : x.scalar * x.demand * block(x.bf, x.bv); const char* kind[] = {"source", "heater", "panel", "multi-panel"}; NEAR(x.l->getFlux(), F, 1e-12, 1e-12, kind[x.kind], mon::fmt("heat of a %s (demand %.6g W, scalar %.4g, override %d)", kind[x.kind], x.demand, x.scalar, x.of)); for (size_t k = 0; k < x.p.size(); ++k) { NEAR(-rin(g, x.l, int(k)), F * x.f[k], 1e-12, 1e-12, "distribution", mon::fmt("share %zu of a %s", k, kind[x.kind])); add(x.p[k], -F * x.f[k]); } c.hit(mon::fmt("%s-%d%d", kind[x.kind], x.of, x.bf)); double av = 0; for (int k : x.p) av += Vp[size_t(k)]; if (x.s && t > 0) { (void)av; } }
        double stored = 0; for (auto& x : cs) { double e = 0; for (double y : x.ext) e += y; NEAR(x.l->ext(), e, 1e-12, 1e-9, "external", "sum of external heat fluxes"); const double q = x.cap / dt * (g.V(x.n) - x.T) - (x.cap > DBL_EPSILON && !x.ovr ? e : 0.0); if (!x.ovr) add(x.n, q); stored += x.cap * (g.V(x.n) - x.T); mag[size_t(x.n)] = std::max(mag[size_t(x.n)], 1e-3 * x.cap / dt * std::fabs(g.V(x.n)));
            x.l->processOutputs(); NEAR(x.l->getTemperature(), g.V(x.n), 1e-12, 0, "temperature", "capacitor temperature output"); if (x.ovr) { if (!x.taint) NEAR(g.V(x.n), x.ovrT, 1e-9, 0, "override", "temperature override"); c.hit("override"); } x.T = g.V(x.n); }
        for (auto& x : qs) if (x.s && x.s->ovr()) { for (int k : x.p) if (no[size_t(k)] == 1) NEAR(g.V(k), x.s->ovrT(), 1e-9, 0, "source-override", "temperature override of a source"); c.hit("source-override"); }
        if (!anyOvr) for (int k = 0; k < n; ++k) { CHK(std::fabs(in[size_t(k)]) <= 1e-8 * mag[size_t(k)] + 1e-7, "heat-balance", mon::fmt("heat leaving node %d sums to %.6g W (largest %.6g W)", k, in[size_t(k)], mag[size_t(k)])); c.count("balances"); if (std::fabs(in[size_t(k)]) < 1e-9 * mag[size_t(k)] + 1e-6) NEAR(g.nodes[k].getInflux(), g.nodes[k].getOutflux(), 1e-7, 1e-6 + 1e-8 * mag[size_t(k)], "node-flux", mon::fmt("influx and outflux collected by node %d", k)); }
        for (int i = 0; i < n; ++i) Vp[size_t(i)] = g.V(i); bool neg = false; for (int i = 0; i < n; ++i) if (g.V(i) < 1 || g.V(i) > 1e5) neg = true; if (neg) return; }
}

// ---- T02: networks configured from files ----
namespace {
struct TN : ThermalNetwork { TN(const std::string& n) : ThermalNetwork(n) {} using ThermalNetwork::mHtrPowerElectrical; using ThermalNetwork::mCapEditScaleFactor; using ThermalNetwork::numLinksCap; using ThermalNetwork::numLinksCond; using ThermalNetwork::numLinksRad; using ThermalNetwork::numLinksHtr; using ThermalNetwork::numLinksPan; using ThermalNetwork::numLinksPot; using ThermalNetwork::numLinksSrc; using ThermalNetwork::numCapEditGroups; using GunnsNetworkBase::netNodeList; using GunnsNetworkBase::netSolver; };
struct NodeM { std::string name; double T, cap; int group; };
struct PairM { std::string name; int a, b; double g, vs; };
struct MultiM { std::string name; std::vector<int> p; std::vector<double> f; double scalar, init, area, alpha; };
struct PotM { std::string name; int n; double T, g; };
struct NetM { std::vector<std::string> groups; std::vector<NodeM> nodes; bool ground; std::vector<PairM> cond, rad; std::vector<MultiM> htr, pan, src; std::vector<PotM> pot; int nRadInput = -1; };
std::string num(mon::Ctx& c, double x) { std::string s = mon::fmt("%.17g", x); return c.r.p(0.1) ? " " + s : s; }
std::string esc(const std::string& s) { std::string r; for (char ch : s) if (ch == '&') r += "&amp;"; else r += ch; return r; }
struct Scratch { std::string dir; std::vector<std::string> files; Scratch() { char b[] = "/tmp/verif_t02_XXXXXX"; dir = mkdtemp(b); } ~Scratch() { for (auto& f : files) unlink(f.c_str()); rmdir(dir.c_str()); } std::string put(const std::string& n, const std::string& t) { const std::string p = dir + "/" + n; std::ofstream(p) << t; files.push_back(p); return p; } };
std::string tag(mon::Ctx& c, const char* t, const std::string& v) { return (c.r.p(0.1) ? std::string("<!-- note -->") : std::string()) + "<" + t + (c.r.p(0.3) ? " units='x'>" : ">") + v + "</" + t + ">\n"; }
std::string doc(mon::Ctx& c, std::vector<std::string> items) { std::string s = "<?xml version=\"1.0\" ?>\n<!-- generated -->\n<list>\n"; for (auto& i : items) { if (c.r.p(0.1)) s += "<other><name>x</name></other>\n"; s += i; } return s + "</list>\n"; }
// builds a random network, writes its files and points the network's configuration at them
NetM build(mon::Ctx& c, Scratch& sc, const std::string& pre, TN& net, bool ground, int badness) {
    NetM m; m.ground = ground; const auto& N = m.nodes; const auto bad = [&]() { return badness && c.r.p(0.15); }; const auto nm = [&](const char* k, size_t i) { return mon::fmt("%s%s %s%zu%s", pre.c_str(), c.r.p(0.1) ? " & co" : "", k, i, c.r.p(0.2) ? "-x" : ""); };
    for (int i = 0, k = c.r.i(0, 3); i < k; ++i) m.groups.push_back(mon::fmt("grp%d", i));
    const int n = c.r.i(2, 8); std::vector<std::string> it; if (!m.groups.empty()) { std::string s = "<capEditing>\n"; for (auto& g : m.groups) s += "<group>" + g + "</group>\n"; s += "</capEditing>\n"; it.push_back(s); }
    for (int i = 0; i < n; ++i) { const bool last = ground && i == n - 1; NodeM x{nm("node", size_t(i)), last ? 0.0 : c.r.uni(150, 450), last ? 0.0 : c.r.p(0.2) && i < n - 1 && (i > 0) ? 0.0 : c.r.logu(10, 1e5), -99}; const bool named = !m.groups.empty() && c.r.p(0.5); if (named) x.group = c.r.i(0, int(m.groups.size()) - 1); if (bad()) { const int k = c.r.i(0, 3); it.push_back(k == 0 ? std::string("<node><name></name><temperature>3</temperature><capacitance>1</capacitance></node>\n") : k == 1 ? std::string("<node><name>bad</name><capacitance>1</capacitance></node>\n") : k == 2 ? std::string("<node><name>bad</name><temperature>300</temperature></node>\n") : m.nodes.empty() ? std::string() : "<node><name>" + esc(m.nodes[0].name) + "</name><temperature>3</temperature><capacitance>1</capacitance></node>\n"); c.hit(mon::fmt("bad-node-%d", k)); }
        std::vector<std::string> t{tag(c, "name", esc(x.name)), tag(c, "temperature", num(c, x.T)), tag(c, "capacitance", num(c, x.cap))}; if (named) t.push_back(tag(c, "editGroup", m.groups[size_t(x.group)])); if (c.r.p(0.3)) c.r.shuffle(t); std::string s = "<node>\n"; for (auto& y : t) s += y; it.push_back(s + "</node>\n"); m.nodes.push_back(x); }
    net.mConfig.cNodeFile = sc.put(pre + "nodes.xml", doc(c, it)); const int nn = n; const auto pair = [&](std::vector<PairM>& v, const char* kind, const char* val, int a, int b, double g) { PairM x{c.r.p(0.5) ? nm(kind, v.size()) : "", a, b, g, 1.0}; v.push_back(x); std::string s = std::string("<") + kind + ">\n"; if (!x.name.empty()) s += tag(c, "name", esc(x.name)); s += tag(c, "node0", esc(N[size_t(a)].name)) + tag(c, "node1", esc(N[size_t(b)].name)) + tag(c, val, num(c, g)) + "</" + kind + ">\n"; it.push_back(s); if (bad()) { const int k = c.r.i(0, 2); it.push_back(std::string("<") + kind + ">" + tag(c, "node0", k == 0 ? "nowhere" : esc(N[0].name)) + (k == 1 ? std::string() : tag(c, "node1", esc(N[1].name))) + tag(c, val, k == 2 ? "1.25abc" : "5") + "</" + kind + ">\n"); if (k == 2) v.push_back(PairM{"", 0, 1, 1.25, 1.0}); c.hit(mon::fmt("bad-%s-%d", kind, k)); } };
    it.clear(); for (int i = 1; i < nn; ++i) { const int b = c.r.i(0, i - 1); pair(m.cond, "conduction", "conductivity", i, b, i == nn - 1 && ground ? c.r.logu(1e-4, 0.1) : c.r.logu(1e-2, 50)); } for (int i = 0, k = c.r.i(0, nn); i < k; ++i) { const int a = c.r.i(0, nn - 1), b = c.r.i(0, nn - 1); if (a != b) pair(m.cond, "conduction", "conductivity", a, b, (ground && (a == nn - 1 || b == nn - 1)) ? c.r.logu(1e-4, 0.1) : c.r.logu(1e-2, 50)); } net.mConfig.cCondFile = sc.put(pre + "cond.xml", doc(c, it));
    it.clear(); if (c.r.p(0.7)) for (int i = 0, k = c.r.i(1, nn + 1); i < k; ++i) { const int a = c.r.i(0, nn - 1), b = (a + c.r.i(1, nn - 1)) % nn; pair(m.rad, "radiation", "coefficient", a, b, c.r.logu(1e-2, 5)); } if (!m.rad.empty()) net.mConfig.cRadFile = sc.put(pre + "rad.xml", doc(c, it)); else net.mConfig.cRadFile = "";
    net.mInput.iInputRadFile = ""; if (!m.rad.empty() && c.r.p(0.4)) { it.clear(); const size_t k = m.rad.size(); m.nRadInput = int(k); for (size_t i = 0; i < k; ++i) { PairM& x = m.rad[i]; x.vs = c.r.u(); it.push_back("<radiation>" + (x.name.empty() ? std::string() : tag(c, "name", esc(x.name))) + tag(c, "node0", esc(N[size_t(x.a)].name)) + tag(c, "node1", esc(N[size_t(x.b)].name)) + tag(c, "viewScalar", num(c, x.vs)) + "</radiation>\n"); } net.mInput.iInputRadFile = sc.put(pre + "radin.xml", doc(c, it)); c.hit("rad-input"); }
    const auto multi = [&](std::vector<MultiM>& v, const char* kind) { MultiM x; x.name = nm(kind, v.size()); const int lim = ground ? nn - 1 : nn, k = c.r.i(1, std::min(4, lim)); std::vector<int> all; for (int j = 0; j < lim; ++j) all.push_back(j); c.r.shuffle(all); x.p.assign(all.begin(), all.begin() + k); x.f = fracs(c, k); x.scalar = 1; x.init = 0; x.area = x.alpha = 0; std::string s = std::string("<") + kind + " name='" + esc(x.name) + "'>\n"; for (int j = 0; j < k; ++j) s += "<node>" + esc(N[size_t(x.p[size_t(j)])].name) + (k > 1 || c.r.p(0.2) ? mon::fmt("<frac>%.17g</frac>", k > 1 ? x.f[size_t(j)] : 0.5) : "") + "</node>\n"; const std::string K = kind; if (K != "panel" && c.r.p(0.6)) { x.scalar = c.r.uni(0.2, 1.2); s += tag(c, "scalar", num(c, x.scalar)); } if (K == "source" && c.r.p(0.7)) { x.init = c.r.uni(0, 200); s += tag(c, "initFlux", num(c, x.init)); } if (K == "panel") { x.area = c.r.p(0.1) ? 0.0 : c.r.logu(0.01, 10); x.alpha = c.r.u(); s += tag(c, "area", num(c, x.area)) + tag(c, "absorp", num(c, x.alpha)); } it.push_back(s + "</" + kind + ">\n"); v.push_back(x); if (bad()) { it.push_back(std::string("<") + kind + " name='broken'><node>nowhere</node><area>1</area><absorp>1</absorp></" + kind + ">\n"); if (nn > 2) it.push_back(std::string("<") + kind + " name='nofrac'><node>" + esc(N[0].name) + "</node><node>" + esc(N[1].name) + "<frac>1.0</frac></node><area>1</area><absorp>1</absorp></" + kind + ">\n"); c.hit(std::string("bad-") + kind); } };
    it.clear(); if (c.r.p(0.8)) { for (int i = 0, k = c.r.i(0, 3); i < k; ++i) multi(m.htr, "heater"); for (int i = 0, k = c.r.i(m.htr.empty() ? 1 : 0, 3); i < k; ++i) multi(m.src, "source"); if (c.r.p(0.5)) c.r.shuffle(it); net.mConfig.cHtrFile = sc.put(pre + "htr.xml", doc(c, it)); if (!it.empty()) { // entries of each kind keep the order they have in the file
            const auto reorder = [&](std::vector<MultiM>& v) { std::vector<MultiM> o; for (auto& s : it) for (auto& x : v) if (s.find("name='" + esc(x.name) + "'") != std::string::npos) o.push_back(x); v = o; }; reorder(m.htr); reorder(m.src); } } else net.mConfig.cHtrFile = "";
    it.clear(); if (c.r.p(0.6)) { for (int i = 0, k = c.r.i(1, 3); i < k; ++i) multi(m.pan, "panel"); net.mConfig.cPanFile = sc.put(pre + "pan.xml", doc(c, it)); } else net.mConfig.cPanFile = "";
    it.clear(); if (c.r.p(0.6)) { for (int i = 0, k = c.r.i(1, 3); i < k; ++i) { PotM x{nm("pot", size_t(i)), c.r.i(0, (ground ? nn - 1 : nn) - 1), c.r.uni(100, 500), c.r.p(0.2) ? 1e8 : c.r.logu(0.1, 1000)}; m.pot.push_back(x); it.push_back("<potential>" + tag(c, "name", esc(x.name)) + tag(c, "node", esc(N[size_t(x.n)].name)) + tag(c, "temperature", num(c, x.T)) + tag(c, "conductivity", num(c, x.g)) + "</potential>\n"); } net.mConfig.cEtcFile = sc.put(pre + "etc.xml", doc(c, it)); } else net.mConfig.cEtcFile = "";
    it.clear(); net.mInput.iThermInputFile = ""; if (c.r.p(0.5)) { for (int i = 0; i < nn; ++i) if (c.r.p(0.4) && !(ground && i == nn - 1)) { NodeM& x = m.nodes[size_t(i)]; if (c.r.p(0.8)) { x.T = c.r.uni(150, 450); it.push_back("<node name='" + esc(x.name) + "'>" + tag(c, "initTemp", num(c, x.T)) + "</node>\n"); } else { x.T = 300; it.push_back("<node name='" + esc(x.name) + "'>" + tag(c, "initTemp", "300K") + "</node>\n"); } } if (c.r.p(0.3)) it.push_back("<node name='nowhere'><initTemp>3</initTemp></node>\n"); net.mInput.iThermInputFile = sc.put(pre + "in.xml", doc(c, it)); }
    return m;
}
struct Flat { std::vector<GunnsThermalCapacitor*> cap; std::vector<Rad*> rad; std::vector<Htr*> htr; std::vector<Pan*> pan; std::vector<double> cap0; };
// the same network built link by link
Flat flat(Rig& g, const NetM& m, int off) { Flat f; const int gnd = g.n; int q = 0; const auto at = [&](int k) { return m.ground && k == int(m.nodes.size()) - 1 ? gnd : k + off; }; const auto nm = [&](const char* k) { return mon::fmt("%s%d_%d", k, off, q++); }; const auto ports = [&](const MultiM& x) { std::vector<int> p; for (int k : x.p) p.push_back(at(k)); return p; };
    for (size_t i = 0; i < m.nodes.size(); ++i) { const NodeM& x = m.nodes[i]; if (at(int(i)) == gnd) continue; GunnsThermalCapacitor* l = g.mk<GunnsThermalCapacitor>(); l->initialize(GunnsThermalCapacitorConfigData(nm("cap"), &g.list, x.group), GunnsThermalCapacitorInputData(false, 0.0, x.cap, x.T), g.links, at(int(i)), gnd); f.cap.push_back(l); f.cap0.push_back(x.cap); }
    for (auto& x : m.cond) { GunnsBasicConductor* l = g.mk<GunnsBasicConductor>(); l->initialize(GunnsBasicConductorConfigData(nm("cond"), &g.list, x.g), GunnsBasicConductorInputData(), g.links, at(x.a), at(x.b)); }
    for (auto& x : m.rad) { Rad* l = g.mk<Rad>(); l->initialize(GunnsThermalRadiationConfigData(nm("rad"), &g.list, x.g * SB), GunnsThermalRadiationInputData(false, 0.0, x.vs), g.links, at(x.a), at(x.b)); f.rad.push_back(l); }
    for (auto& x : m.htr) { Htr* l = g.mk<Htr>(); std::vector<int> p = ports(x); std::vector<double> fr = x.p.size() > 1 ? x.f : std::vector<double>(1, 1.0); l->initialize(GunnsThermalHeaterConfigData(nm("htr"), &g.list, x.scalar, &fr), GunnsThermalHeaterInputData(), g.links, &p); f.htr.push_back(l); }
    for (auto& x : m.pan) { Pan* l = g.mk<Pan>(); std::vector<int> p = ports(x); std::vector<double> fr = x.p.size() > 1 ? x.f : std::vector<double>(1, 1.0); l->initialize(GunnsThermalPanelConfigData(nm("pan"), &g.list, 1.0, &fr, x.alpha, x.area), GunnsThermalPanelInputData(), g.links, &p); f.pan.push_back(l); }
    for (auto& x : m.pot) { GunnsThermalPotential* l = g.mk<GunnsThermalPotential>(); l->initialize(GunnsThermalPotentialConfigData(nm("pot"), &g.list, x.g), GunnsThermalPotentialInputData(false, 0.0, x.T), g.links, gnd, at(x.n)); }
    for (auto& x : m.src) { Src* l = g.mk<Src>(); std::vector<int> p = ports(x); std::vector<double> fr = x.p.size() > 1 ? x.f : std::vector<double>(1, 1.0); l->initialize(GunnsThermalSourceConfigData(nm("src"), &g.list, x.scalar, &fr), GunnsThermalSourceInputData(false, 0.0, x.init), g.links, &p); }
    return f; }
}

MON_PROP2(T02, files, "networks built from generated files against the same network built link by link") {
    Scratch sc; const bool super = c.r.p(0.3); const int k = super ? c.r.i(2, 3) : 1; std::vector<std::unique_ptr<TN> > nets; std::vector<NetM> ms; const int badness = c.r.p(0.5);
    for (int i = 0; i < k; ++i) nets.emplace_back(new TN(mon::fmt("net%d", i)));
    std::unique_ptr<GunnsBasicSuperNetwork> sup; 
    for (int i = 0; i < k; ++i) ms.push_back(build(c, sc, mon::fmt("n%d", i), *nets[size_t(i)], true, badness));
    if (super) { sup.reset(new GunnsBasicSuperNetwork("super")); for (auto& t : nets) sup->addSubNetwork(t.get()); sup->registerSuperNodes(); sup->initialize(); c.hit("super"); } else nets[0]->initialize();
    int total = 0, badNodes = 0; std::vector<int> off, offN; for (int i = 0; i < k; ++i) { const NetM& m = ms[size_t(i)]; TN& t = *nets[size_t(i)]; const int nn = int(m.nodes.size()) - (m.ground ? 1 : 0); off.push_back(total); total += nn;
        CHK(t.numLinksCap == nn && t.numLinksCond == int(m.cond.size()) && t.numLinksRad == int(m.rad.size()) && t.numLinksHtr == int(m.htr.size()) && t.numLinksPan == int(m.pan.size()) && t.numLinksPot == int(m.pot.size()) && t.numLinksSrc == int(m.src.size()) && t.numCapEditGroups == int(m.groups.size()), "counts", mon::fmt("network %d has %d/%d/%d/%d/%d/%d/%d links and %d groups of %d/%zu/%zu/%zu/%zu/%zu/%zu and %zu in its files", i, t.numLinksCap, t.numLinksCond, t.numLinksRad, t.numLinksHtr, t.numLinksPan, t.numLinksPot, t.numLinksSrc, t.numCapEditGroups, nn, m.cond.size(), m.rad.size(), m.htr.size(), m.pan.size(), m.pot.size(), m.src.size(), m.groups.size())); if (c.failed()) return; }
    (void)badNodes; Rig g(total, 1e-10); std::vector<Flat> fs; for (int i = 0; i < k; ++i) fs.push_back(flat(g, ms[size_t(i)], off[size_t(i)])); g.start(20); c.note = mon::fmt("%d networks, %d nodes, %s", k, total, super ? "super network" : "alone");
    GunnsNodeList& L = super ? sup->netNodeList : nets[0]->netNodeList; std::map<std::string, int> byName; for (int i = 0; i < L.mNumNodes; ++i) byName[L.mNodes[i].getName()] = i;
    std::vector<int> where(size_t(total), -1); for (int i = 0; i < k; ++i) for (size_t j = 0; j < ms[size_t(i)].nodes.size(); ++j) { if (ms[size_t(i)].ground && j + 1 == ms[size_t(i)].nodes.size()) continue; const int w = nets[size_t(i)]->mCapacitanceLinks[j].getNodeMap()[0]; where[size_t(off[size_t(i)]) + j] = w; CHK(std::string(L.mNodes[w].getName()) == ms[size_t(i)].nodes[j].name, "node-name", "node name '" + std::string(L.mNodes[w].getName()) + "' of '" + ms[size_t(i)].nodes[j].name + "'"); NEAR(L.mNodes[w].getPotential(), ms[size_t(i)].nodes[j].T, 1e-12, 0, "initial", "initial temperature of node " + ms[size_t(i)].nodes[j].name); }
    std::vector<std::vector<double> > sf(ms.size()); for (int i = 0; i < k; ++i) sf[size_t(i)].assign(ms[size_t(i)].groups.size(), 1.0); bool mis = false; std::vector<std::vector<int> > wire(ms.size()); for (int i = 0; i < k; ++i) for (size_t j = 0; j < ms[size_t(i)].htr.size(); ++j) wire[size_t(i)].push_back(int(j)); std::vector<std::vector<double> > pw(ms.size()); for (int i = 0; i < k; ++i) pw[size_t(i)].assign(ms[size_t(i)].htr.size(), 0.0);
    const int steps = c.r.i(2, 8); const double dt = c.r.pick(std::vector<double>{0.1, 1.0, 10.0}); std::vector<char> misf(size_t(k), 0); (void)mis;
    for (int t = 0; t < steps; ++t) {
        for (int i = 0; i < k; ++i) { TN& T = *nets[size_t(i)]; NetM& m = ms[size_t(i)]; Flat& f = fs[size_t(i)];
            for (size_t j = 0; j < sf[size_t(i)].size(); ++j) if (c.r.p(0.2)) { T.mCapEditScaleFactor[j] = sf[size_t(i)][j] = c.r.p(0.1) ? 1.0 : c.r.logu(0.1, 10); c.hit("scale"); }
            for (size_t j = 0; j < pw[size_t(i)].size(); ++j) if (c.r.p(0.4)) T.mHtrPowerElectrical[j] = pw[size_t(i)][j] = c.r.uni(0, 200);
            if (!pw[size_t(i)].empty() && c.r.p(0.2)) { misf[size_t(i)] = c.r.p(0.6); std::vector<int> ix; for (size_t j = 0; j < pw[size_t(i)].size(); ++j) ix.push_back(c.r.i(-1, int(pw[size_t(i)].size()))); const bool given = c.r.p(0.8); T.setMalfHtrMiswire(misf[size_t(i)], given ? &ix[0] : 0); for (size_t j = 0; j < ix.size(); ++j) wire[size_t(i)][j] = given && ix[j] >= 0 && ix[j] < int(ix.size()) ? ix[j] : int(j); c.hit("miswire"); }
            for (size_t j = 0; j < m.htr.size(); ++j) { f.htr[j]->setPowerElectrical(pw[size_t(i)][size_t(misf[size_t(i)] ? wire[size_t(i)][j] : int(j))]); }
            for (size_t j = 0; j < f.cap.size(); ++j) { const int gr = m.nodes[j].group; f.cap[j]->setCapacitance(f.cap0[j] * (gr >= 0 ? sf[size_t(i)][size_t(gr)] : 1.0)); }
            for (size_t j = 0; j < m.rad.size(); ++j) if (c.r.p(0.1)) { const double v = c.r.u(); T.mRadiationLinks[j].setViewScalar(v); f.rad[j]->setViewScalar(v); }
            for (size_t j = 0; j < m.pan.size(); ++j) if (c.r.p(0.3)) { const double v = c.r.uni(0, 1400); T.mPanels[j].*Pan::field() = v; f.pan[j]->inc() = v; } }
        // a radiation link whose ends agree to round-off has two possible coefficients (see T01), so the two networks may rightly part there
        for (int i = 0; i < k; ++i) for (size_t j = 0; j < ms[size_t(i)].rad.size(); ++j) { const PairM& x = ms[size_t(i)].rad[j]; const int last = int(ms[size_t(i)].nodes.size()) - 1; const auto at = [&](int q) { return q == last ? 0.0 : g.V(q + off[size_t(i)]); }; const double d = std::fabs(at(x.a) - at(x.b)); if (d < 1e-8 * (1 + std::fabs(at(x.a)))) { c.hit("radiation-level"); return; } }
        if (super) sup->update(dt); else nets[0]->update(dt); if (!CHK(g.step(dt), "solved", "reference network did not solve")) return; c.count("steps");
        for (int i = 0; i < total; ++i) { if (!(std::fabs(g.V(i)) < 1e6)) return; NEAR(L.mNodes[where[size_t(i)]].getPotential(), g.V(i), 1e-8, 1e-8, super ? "super-temperature" : "temperature", mon::fmt("temperature of node %d at step %d", i, t)); }
        for (int i = 0; i < k; ++i) for (size_t j = 0; j < fs[size_t(i)].cap.size(); ++j) NEAR(nets[size_t(i)]->mCapacitanceLinks[j].getCapacitance(), fs[size_t(i)].cap[j]->getCapacitance(), 1e-12, 0, "capacitance", mon::fmt("capacitance %zu (group %d)", j, ms[size_t(i)].nodes[j].group)); if (c.failed()) return;
        if (c.r.p(0.1)) { for (auto& n : nets) n->preloadCheckpoint(); for (int i = 0; i < k; ++i) for (size_t j = 0; j < fs[size_t(i)].cap.size(); ++j) NEAR(nets[size_t(i)]->mCapacitanceLinks[j].getCapacitance(), fs[size_t(i)].cap0[j], 1e-12, 0, "preload", "capacitance before a checkpoint is loaded"); if (super) sup->restart(); for (auto& n : nets) n->restart(); g.net.restart(); c.hit("restart"); } }
}

namespace {
struct Pcb : GunnsThermalPhaseChangeBattery { double mass() const { return mMass; } double& ext(int i) { return mExternalHeatFlux[i]; } };
struct BatM { Pcb* l; int n; double Tpc, h, ch, cc, st; std::vector<double> ext; double T = 0, f = 0, m = 0; bool leak = false; double rate = 0, ovrT = 0; bool ovr = false; };
struct TedM { GunnsThermoelectricDevice* l; int a, b; double n, g, r[2], s[3], k[3], end, tmin, tmax; bool bf = false, mf = false; double bv = 0, mv = 0, I = 0; };
// mean of a quadratic over an interval, by Simpson's rule (exact)
double meanq(const double* q, double x, double y) { const auto f = [&](double t) { return q[0] + t * (q[1] + t * q[2]); }; return (f(x) + 4 * f(0.5 * (x + y)) + f(y)) / 6.0; }
}
MON_PROP2(T03, devices, "networks with phase change batteries and thermoelectric devices against energy balances") {
    const int n = c.r.i(1, 5); Rig g(n, 1e-10); const auto nm = [&](const char* s) { return mon::fmt("%s%zu", s, g.own.size()); }; std::vector<BatM> bs; std::vector<TedM> ts; std::vector<int> free; for (int i = 0; i < n; ++i) free.push_back(i); c.r.shuffle(free);
    const double centre = c.r.uni(200, 400); struct CapM { Cap* l; int n; double C, T; }; std::vector<CapM> caps;
    for (int i = 0, k = c.r.i(n < 2 ? 1 : 0, std::min(n, 3)); i < k; ++i) { BatM x; x.n = free[size_t(i)]; x.Tpc = centre + c.r.uni(-20, 20); x.h = c.r.logu(0.05, 400); x.ch = c.r.logu(0.2, 5); x.cc = c.r.logu(0.2, 5); x.st = c.r.logu(1, 1e4); x.m = c.r.logu(0.01, 50); x.f = c.r.p(0.3) ? 0.0 : c.r.p(0.4) ? 1.0 : c.r.u(); x.T = x.f > 0 && x.f < 1 ? x.Tpc : x.f > 0 ? x.Tpc + c.r.uni(0, 30) : x.Tpc - c.r.uni(0, 30); x.leak = c.r.p(0.15); x.rate = c.r.logu(1e-5, 1); x.ext.assign(GunnsThermalCapacitor::NUM_EXT_HEATFLUXES, 0.0);
        x.l = g.mk<Pcb>(); x.l->initialize(GunnsThermalPhaseChangeBatteryConfigData(nm("pcb"), &g.list, x.Tpc, x.h, x.ch, x.cc, x.st), GunnsThermalPhaseChangeBatteryInputData(x.m, x.T, x.f, x.leak, x.rate), g.links, x.n); NEAR(x.l->getTemperature(), x.T, 1e-14, 0, "initial", "initial battery temperature"); NEAR(g.V(x.n), x.T, 1e-14, 0, "initial", "initial node temperature"); NEAR(x.l->getHotPhaseFraction(), x.f, 0, 0, "initial", "initial hot fraction"); bs.push_back(x); }
    for (size_t i = bs.size(); i < free.size(); ++i) { CapM x; x.n = free[i]; x.C = c.r.logu(50, 1e5); x.T = c.r.uni(150, 450); x.l = g.mk<Cap>(); x.l->initialize(GunnsThermalCapacitorConfigData(nm("cap"), &g.list, 0), GunnsThermalCapacitorInputData(false, 0.0, x.C, x.T), g.links, x.n, n); caps.push_back(x); }
    for (int i = 1; i < n; ++i) if (c.r.p(0.7)) g.cond(i, c.r.i(0, i - 1), c.r.logu(1e-2, 50));
    if (n > 1) for (int i = 0, k = c.r.i(bs.empty() ? 1 : 0, 3); i < k; ++i) { TedM x; x.a = c.r.i(0, n - 1); x.b = (x.a + c.r.i(1, n - 1)) % n; x.n = c.r.pick(std::vector<double>{0.5, 1, 10, 127}); x.g = c.r.logu(1e-4, 1e-2); x.r[0] = c.r.logu(1e-6, 1e-4); x.r[1] = c.r.p(0.5) ? 0.0 : x.r[0] * c.r.uni(0, 0.01); for (int j = 0; j < 3; ++j) { const double sc = j == 0 ? 1.0 : j == 1 ? 1e-3 : 1e-6; x.s[j] = (j && c.r.p(0.4)) ? 0.0 : c.r.uni(j ? -1 : 0.2, 1) * 2e-4 * sc; x.k[j] = (j && c.r.p(0.4)) ? 0.0 : c.r.uni(0.2, 1) * 2.0 * sc; } x.end = c.r.p(0.4) ? 0.0 : c.r.logu(0.1, 1000); x.tmin = c.r.p(0.7) ? 1.0 : c.r.uni(200, 300); x.tmax = c.r.p(0.7) ? 2000.0 : x.tmin + c.r.uni(10, 150); x.mf = c.r.p(0.1); x.mv = c.r.uni(0, 1.5);
        x.l = g.mk<GunnsThermoelectricDevice>(); GunnsThermoelectricDeviceInputData in(x.bf, x.bv, x.mf, x.mv); x.l->initialize(GunnsThermoelectricDeviceConfigData(nm("ted"), &g.list, x.n, x.g, x.r[0], x.r[1], x.s[0], x.s[1], x.s[2], x.k[0], x.k[1], x.k[2], x.end, x.tmin, x.tmax), in, g.links, x.a, x.b); ts.push_back(x); }
    const int kp = c.r.i(1, 2); std::vector<Pt> ps; for (int i = 0; i < kp; ++i) { Pt x; x.n = c.r.i(0, n - 1); x.g = c.r.logu(0.01, 100); x.T = centre + c.r.uni(-80, 80); x.l = g.mk<GunnsThermalPotential>(); x.l->initialize(GunnsThermalPotentialConfigData(nm("pot"), &g.list, x.g), GunnsThermalPotentialInputData(false, 0.0, x.T), g.links, n, x.n); ps.push_back(x); }
    struct SrcM { GunnsBasicSource* l; int n; double q; }; std::vector<SrcM> ss; for (int i = 0, k = c.r.i(0, 2); i < k; ++i) { SrcM x; x.n = c.r.i(0, n - 1); x.q = c.r.uni(-100, 200); x.l = g.src(n, x.n, x.q); ss.push_back(x); }
    g.start(20); c.note = mon::fmt("%d nodes, %zu batteries, %zu devices", n, bs.size(), ts.size()); double dt = c.r.pick(std::vector<double>{0.1, 1.0, 10.0, 60.0});
    for (int t = 0, steps = c.r.i(5, 40); t < steps; ++t) {
        if (c.r.p(0.05)) dt = c.r.pick(std::vector<double>{0.1, 1.0, 10.0, 60.0});
        for (auto& x : ps) if (c.r.p(0.1)) { x.T = centre + c.r.uni(-80, 80); x.l->setSourcePotential(x.T); } for (auto& x : ss) if (c.r.p(0.1)) { x.q = c.r.uni(-100, 200); x.l->setFluxDemand(x.q); }
        for (auto& x : bs) { if (c.r.p(0.15)) { const int k = c.r.i(0, int(x.ext.size()) - 1); x.ext[size_t(k)] = c.r.p(0.3) ? 0.0 : c.r.uni(-200, 300); x.l->ext(k) = x.ext[size_t(k)]; } if (c.r.p(0.05)) { x.leak = c.r.p(0.5); x.rate = c.r.p(0.1) ? -1.0 : c.r.logu(1e-5, 1); x.l->setMalfHotPhaseLeak(x.leak, x.rate); } if (c.r.p(0.02)) { x.ovr = c.r.p(0.4); if (x.ovr) { x.ovrT = x.Tpc + c.r.uni(-20, 20); x.l->setPortOverride(0, x.ovrT); } else x.l->resetPortOverride(0); } }
        for (auto& x : ts) { if (c.r.p(0.3)) { x.I = c.r.p(0.2) ? 0.0 : c.r.uni(-5, 5); x.l->mThermoelectricEffect.setCurrent(x.I); } if (c.r.p(0.05)) { x.bf = c.r.p(0.6); x.bv = c.r.u(); x.l->setMalfBlockage(x.bf, x.bv); } if (c.r.p(0.05)) { x.mf = c.r.p(0.6); x.mv = c.r.p(0.1) ? -0.5 : c.r.uni(0, 1.5); x.l->mThermoelectricEffect.setMalfThermoelectricEffects(x.mf, x.mv); } }
        std::vector<double> V0; for (int i = 0; i < n; ++i) V0.push_back(g.V(i)); if (!g.step(dt)) return; c.count("steps"); for (int i = 0; i < n; ++i) if (!(std::fabs(g.V(i)) < 1e5)) return; bool anyOvr = false; for (auto& x : bs) anyOvr = anyOvr || x.ovr;
        for (auto& x : bs) { double e = 0; for (double y : x.ext) e += y; const double T = g.V(x.n), q = g.into(x.l, 0), f1 = x.l->getHotPhaseFraction(), m1 = x.l->mass(), qe = q + e; const std::string w = mon::fmt("battery at %.6g K (change at %.6g K), fraction %.9g, mass %.6g, heat %.6g W, dt %g", T, x.Tpc, x.f, x.m, qe, dt);
            CHK(f1 >= 0 && f1 <= 1, "fraction-range", w + mon::fmt(" becomes hot fraction %.17g", f1)); NEAR(x.l->getTemperature(), T, 1e-12, 0, "battery-temperature", "temperature output of " + w); NEAR(x.l->getActualLeakRate() * dt, x.m - m1, 1e-9, 1e-13 * (x.m + 1), "leak-ledger", "reported leak times step of " + w); double ft = x.f; const bool pure = x.f == 0.0 || x.f == 1.0; 
            if (x.ovr) { NEAR(T, x.ovrT, 1e-9, 0, "battery-override", "overridden temperature of " + w); c.hit("override"); }
            else if (pure) { const double C = x.st + 1000 * x.m * (x.f == 0.0 ? x.cc : x.ch), tolq = 1e-9 * C / dt * (std::fabs(T) + x.T) + 1e-7 * (std::fabs(q) + std::fabs(e)); NEAR(q, C / dt * (T - V0[size_t(x.n)]) - e, 0, tolq, "battery-capacity", "heat taken by " + w); c.hit(x.f == 0.0 ? "cold" : "hot");
                if (x.f == 0.0 && T > x.Tpc) { ft = x.cc * (T - x.Tpc) / x.h; c.hit("melt-start"); } else if (x.f == 1.0 && T < x.Tpc) { ft = 1 + x.ch * (T - x.Tpc) / x.h; c.hit("freeze-start"); } }
            else { NEAR(T, x.Tpc, 1e-9, 1e-6 * std::fabs(qe) * 1.001 + 1e-9 * std::fabs(q), "battery-plateau", "temperature while changing phase of " + w); ft = x.f + qe * dt / (1000 * x.h * x.m); c.hit(ft > x.f ? "melting" : "freezing"); if (ft >= 1 || ft <= 0) c.hit("change-complete"); c.count("phase_steps"); }
            double L = 0; if (x.leak && ft > 0) { L = std::min(std::max(0.0, x.rate) * dt, std::max(0.0, std::min(x.m * ft, x.m))); c.hit("leak"); }
            if (!x.ovr) { const double tolm = 1e-8 * L + 1e-13 * (x.m + 1) + 1e-9 * std::fabs(qe) * dt / (1000 * x.h); NEAR(m1, x.m - L, 1e-12, tolm, "leak", "mass after leak of " + w); const double tolf = (std::fabs(qe) * 1e-7 + 1e-9 * 1e6 * (pure ? 0 : T)) * dt / (1000 * x.h * x.m) + 1e-9 * (x.cc + x.ch) * (std::fabs(T) + 1) / x.h + 1e-9; if (m1 > 1e-9 * x.m + 1e-12) { double fe = std::min(1.0, std::max(0.0, (x.m * ft - L) / (x.m - L))); NEAR(f1, fe, 0, tolf * x.m / m1, pure ? "phase-start" : "phase-change", "hot fraction after " + w); } }
            x.f = f1; x.m = m1; x.T = T; if (m1 < 1e-6) return; }
        for (auto& x : ts) { const GunnsThermoelectricEffect& E = x.l->mThermoelectricEffect; const double T0 = V0[size_t(x.a)], T1 = V0[size_t(x.b)], h = std::min(x.tmax, std::max(x.tmin, T0)), k = std::min(x.tmax, std::max(x.tmin, T1)), N = 2 * x.n; const std::string w = mon::fmt("device between %.9g and %.9g K (limits %g, %g), %g A", T0, T1, x.tmin, x.tmax, x.I); double K[3], S[3]; for (int j = 0; j < 3; ++j) { K[j] = N * x.g * x.k[j]; S[j] = N * x.s[j]; } if (x.end > 0) K[0] = 1 / (1 / K[0] + 2 / x.end);
            const double sc = x.mf ? std::max(0.0, x.mv) : 1.0, R = N / x.g * (x.r[0] + x.r[1] * 0.5 * (h + k)), Ka = meanq(K, k, h), Sa = sc * meanq(S, k, h); const auto Sat = [&](double T) { return sc * (S[0] + T * (S[1] + T * S[2])); }; const bool level = h == k, near = std::fabs(h - k) < 1e-4; c.count("devices"); c.hit(level ? "level" : "sloped");
            const double rd = near ? 1e-9 / std::max(1e-14, std::fabs(h - k)) * h : 1e-9; if (level) { if (!(std::fabs(E.getThermalConductance() - K[0]) <= 1e-9 * K[0])) NEAR(E.getThermalConductance(), Ka, 1e-9, 0, "ted-level", "thermal conductance of " + w); NEAR(E.getThermalConductance(), Ka, 1e-9, 0, "teg-equal-temperature", "thermal conductance of " + w); } else if (rd < 1e-2) { NEAR(E.getThermalConductance(), Ka, rd, 0, "ted-conductance", "thermal conductance of " + w); NEAR(E.getVoltage(), Sa * (h - k), 1e-9, 1e-12 * (std::fabs(S[0]) + std::fabs(S[1]) * h + std::fabs(S[2]) * h * h) * h, "ted-voltage", "voltage of " + w); } else { c.hit("nearly-level"); }
            NEAR(E.getElectricalConductance(), 1 / R, 1e-9, 0, "ted-resistance", "electrical conductance of " + w); const double J = x.I * x.I * R, hot = J / 2 - x.I * h * Sat(h), cold = J / 2 + x.I * k * Sat(k), tolh = 1e-9 * (J + std::fabs(x.I) * N * 1e-3 * (h + k)); NEAR(E.getHeatFluxHot(), hot, 0, tolh, "ted-hot", "heat given to the hot side by " + w); NEAR(E.getHeatFluxCold(), cold, 0, tolh, "ted-cold", "heat given to the cold side by " + w);
            if (S[1] == 0 && S[2] == 0 && !near) NEAR(E.getHeatFluxHot() + E.getHeatFluxCold(), x.I * (x.I * R - E.getVoltage()), 0, 10 * tolh, "ted-energy", "net heat against electrical energy of " + w);
            const double G = E.getThermalConductance() * block(x.bf, x.bv), dT = g.V(x.a) - g.V(x.b), tol = 1e-8 * (std::fabs(G * dT) + std::fabs(hot) + std::fabs(cold)) + 1e-12 * G * 500; NEAR(g.into(x.l, 0), G * dT - hot, 0, tol, "ted-flow", "heat taken from the hot node by " + w); NEAR(g.into(x.l, 1), -G * dT - cold, 0, tol, "ted-flow", "heat taken from the cold node by " + w); NEAR(x.l->getFlux(), G * dT, 1e-8, 1e-12 * G * 500, "ted-flux", "conducted flux of " + w); }
        for (auto& x : caps) NEAR(g.into(x.l, 0), x.C / dt * (g.V(x.n) - V0[size_t(x.n)]), 1e-7, 1e-9 * x.C / dt * 500, "capacitor", "heat taken by a capacitor"); 
        if (!anyOvr) { g.kcl(c, "heat", 1e-6, 1e-7); for (int k = 0; k < n; ++k) { double mag = 0; for (auto* l : g.links) for (int p = 0; p < l->getNumberPorts(); ++p) if (l->getNodeMap()[p] == k) mag += std::fabs(g.into(l, p)); NEAR(g.nodes[k].getInflux(), g.nodes[k].getOutflux(), 1e-7, 1e-5 + 1e-7 * mag, "node-flux", mon::fmt("influx and outflux collected by node %d", k)); }
            for (auto& x : bs) NEAR(x.l->getFlux(), g.into(x.l, 0), 1e-8, 1e-6, "battery-flux", "reported flux of a battery"); }
        if (c.failed()) return; if (c.r.p(0.03)) { g.net.restart(); for (auto& x : bs) { x.ext.assign(x.ext.size(), 0.0); } c.hit("restart"); } }
}
// external heat fluxes are inputs that a restart clears and the simulation provides again
static bool keepInputs(GunnsBasicLink* l, bool after) { static std::map<GunnsBasicLink*, std::vector<double> > kept; const int n = GunnsThermalCapacitor::NUM_EXT_HEATFLUXES; std::vector<double>& v = kept[l]; if (!after) v.assign(size_t(n), 0.0);
    for (int i = 0; i < n; ++i) { if (Cap* x = dynamic_cast<Cap*>(l)) { if (after) x->setExternalHeatFlux(unsigned(i), v[size_t(i)]); else v[size_t(i)] = x->extAt(i); }
        if (Pcb* x = dynamic_cast<Pcb*>(l)) { if (after) x->ext(i) = v[size_t(i)]; else v[size_t(i)] = x->ext(i); } }
    if (Cap* x = dynamic_cast<Cap*>(l)) if (x->editing()) return false;
    return true; }
MON_PROP2(L01, therm, "a twin pair of one of this driver's cases (therm), restarted before a random step, keyed by the final state") { rst::hook() = keepInputs; rst::judge(c); }
