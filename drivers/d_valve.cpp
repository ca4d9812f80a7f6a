// Valves, leaks, hatches, sensors (F10) and self-actuated pressure valves (F11).
#include "rig.hpp"
#include "aspects/fluid/conductor/GunnsFluidPipe.hh"
#include "aspects/fluid/conductor/GunnsFluidLeak.hh"
#include "aspects/fluid/conductor/GunnsFluidHatch.hh"
#include "aspects/fluid/conductor/GunnsFluidSimpleQd.hh"
#include "aspects/fluid/conductor/GunnsFluidSensor.hh"
#include "aspects/fluid/conductor/GunnsFluidLiquidWaterSensor.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayValve.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluidReliefValve.hh"
#include "aspects/fluid/conductor/GunnsFluidRegulatorValve.hh"
#include "aspects/fluid/conductor/GunnsFluidBalancedPrv.hh"
using namespace rig;
namespace {
const double MINLIN = 1e-12;   // as configured by Rig::start
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }
struct XValve : GunnsFluidValve { double ml() const { return mMinLinearizationPotential; } };
struct XPipe : GunnsFluidPipe { double q() const { return mWallHeatFlux; } };
struct XLwS : GunnsFluidLiquidWaterSensor { double dew() const { return mDewPoint; } double psat() const { return mSaturationPressure; } };
struct XHatch : GunnsFluidHatch { double q() const { return mConductiveHeatFlux; } double diff() const { return mDiffusiveFlowRate; } };
double admit(Rig& g, int a, int b, double k, double exponent = 0.5) { return clamp(0.0, GunnsFluidUtils::computeAdmittance(k, MINLIN, g.fl(a), g.fl(b), exponent), 1.0E+15); }
double predict(Rig& g, int a, int b, double mdot) { return GunnsFluidUtils::predictConductivity(mdot, MINLIN, g.fl(a), g.fl(b)); }

// flow follows the potential drop and the admittance
void judgeFlow(mon::Ctx& c, Rig& g, const char* what, GunnsFluidLink* l, int a, int b, double G, double rel = 1e-9) {
    const double Gg = l->getAdmittanceMatrix()[0]; NEAR(Gg, G, rel, 1e-300, std::string(what) + "-conductance", mon::fmt("%s conductance", what));
    const double dp = g.P(a) - g.P(b), fx = l->getFlux();
    CHK(fx * dp >= 0.0 || std::fabs(fx) < 1e-12, std::string(what) + "-direction", mon::fmt("%s flux %g against the drop %g", what, fx, dp));
    NEAR(fx, G * dp, 1e-9, 1e-11 * G * std::max(std::fabs(g.P(a)), std::fabs(g.P(b))) + 1e-13, std::string(what) + "-flux", mon::fmt("%s flux at conductance %g, drop %g", what, G, dp));
    if (G == 0.0) CHK(fx == 0.0 && l->getFlowRate() == 0.0, std::string(what) + "-closed-flow", mon::fmt("%s closed or blocked but flux is %g", what, fx));
}
}

MON_PROP2(F10, line, "device kind, commands in force, flow direction, heat sign") {
    mon::Rng& r = c.r; const int kind = r.i(0, 7); static const char* names[] = {"valve", "pipe", "qd", "leak", "hatch", "sensor", "water-sensor", "valve-liquid"};
    const bool liq = kind == 7; std::vector<FP::FluidType> types = gases(); r.shuffle(types); types.resize(r.i(1, 4));
    if (kind == 6) { types.erase(std::remove(types.begin(), types.end(), FP::GUNNS_H2O), types.end()); types.push_back(FP::GUNNS_H2O); }
    if (liq) { types = liquids(); r.shuffle(types); types.resize(1); }
    const bool hatchMild = kind == 4 && r.p(0.7);
    Rig g(r, 2, types, r.p(0.4) ? r.i(1, 3) : 0, liq, r.p(0.8) && !hatchMild, 0.2, 20, hatchMild ? 12 : 1e9, hatchMild ? (r.p(0.5) ? 0.004 : 0.2) : 1e9);
    if (kind == 6) { for (auto& s : g.init) { s.T = r.uni(278, 340); s.P = r.logu(1, 200); } }
    g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a;
    const double k = r.logu(1e-6, 1e-2) * (liq ? 0.1 : 1); const double len = r.p(0.7) ? r.logu(0.1, 10) : 0, dia = r.logu(0.005, 0.2), rough = dia * r.logu(1e-5, 1e-2); double wallT = r.uni(220, 450); if (liq) wallT = r.uni(285, 350);
    XValve* v = 0; XPipe* p = 0; GunnsFluidSimpleQd* qd = 0; GunnsFluidLeak* lk = 0; XHatch* h = 0; GunnsFluidSensor* s = 0; XLwS* ws = 0; GunnsFluidLink* dev = 0; double L0 = r.logu(0.1, 3), L1 = r.logu(0.1, 3);
    double pos = r.p(0.2) ? (r.p(0.5) ? 0.0 : 1.0) : r.u(); bool conn = r.p(0.5);
    switch (kind) {
        case 0: case 7: v = g.add(new XValve); v->initialize(GunnsFluidValveConfigData("v", &g.list, k, 0.0, len, dia, rough), GunnsFluidValveInputData(false, 0, pos, false, 0, wallT), g.links, a, b); dev = v; break;
        case 1: p = g.add(new XPipe); p->initialize(GunnsFluidPipeConfigData("p", &g.list, k, 0.0, len > 0 ? len : 1, dia, rough), GunnsFluidPipeInputData(false, 0, wallT), g.links, a, b); dev = p; break;
        case 2: qd = g.add(new GunnsFluidSimpleQd); qd->initialize(GunnsFluidSimpleQdConfigData("q", &g.list, k, 0.0, len, dia, rough), GunnsFluidSimpleQdInputData(false, 0, conn ? GunnsFluidSimpleQd::CONNECTED : GunnsFluidSimpleQd::DISCONNECTED, wallT), g.links, a, b); dev = qd; break;
        case 3: lk = g.add(new GunnsFluidLeak); lk->initialize(GunnsFluidLeakConfigData("l", &g.list, k), GunnsFluidLeakInputData(), g.links, a, b); dev = lk; break;
        case 4: h = g.add(new XHatch); h->initialize(GunnsFluidHatchConfigData("h", &g.list, k * 100, 0.0, 0, 0, 0, L0, L1), GunnsFluidHatchInputData(false, 0, pos), g.links, a, b); dev = h; break;
        case 5: s = g.add(new GunnsFluidSensor); s->initialize(GunnsFluidSensorConfigData("s", &g.list, k), GunnsFluidSensorInputData(), g.links, a, b); dev = s; break;
        case 6: ws = g.add(new XLwS); ws->initialize(GunnsFluidLiquidWaterSensorConfigData("w", &g.list, k), GunnsFluidLiquidWaterSensorInputData(), g.links, a, b); dev = ws; break; }
    g.start();
    c.note = mon::fmt("%s k=%.3g pos=%.3g wall=%.4g len=%.3g dia=%.3g T=(%.4g,%.4g) P=(%.5g,%.5g) V=(%.3g,%.3g)", names[kind], k, pos, wallT, len, dia, g.init[0].T, g.init[1].T, g.init[0].P, g.init[1].P, g.vol[0], g.vol[1]);
    const double dt = r.p(0.2) ? r.logu(0.01, 2) : 0.1; const int steps = r.i(5, c.thorough ? 60 : 25); bool leakFlag = false; double leakVal = 0, leakPrev = 0, leakK = 0; bool blk = false; double blkV = 0; bool holeF = false, rateF = false; double holeV = 0, rateV = 0, prevHole = 0, prevRate = 0;
    for (int t = 0; t < steps && !c.failed(); ++t) {
        g.disturb(r, dt);
        if (r.p(0.2)) { blk = r.p(0.5); blkV = r.p(0.3) ? 1.0 : r.u(); dev->setMalfBlockage(blk, blkV); }
        double kEff = k;
        if (v || h) { GunnsFluidValve* w = v ? static_cast<GunnsFluidValve*>(v) : h; if (r.p(0.3)) { pos = r.p(0.3) ? (r.p(0.5) ? 0.0 : 1.0) : r.u(); w->setPosition(pos); }
            if (r.p(0.2)) { leakFlag = r.p(0.6); leakVal = r.p(0.15) ? 0.0 : r.logu(1e-6, 1e-3); w->setMalfLeakThru(leakFlag, leakVal); }
            if (v && r.p(0.2)) { wallT = r.p(0.05) ? -5 : liq ? r.uni(285, 350) : r.uni(220, 450); v->setWallTemperature(wallT); wallT = std::max(0.0, wallT); if (wallT == 0.0) { wallT = 300; v->setWallTemperature(300); } }
            if (leakFlag) { if (leakPrev != leakVal) { leakK = predict(g, a, b, leakVal); leakPrev = leakVal; } } else { leakPrev = 0; leakK = 0; }
            kEff = std::max(k * (h ? 100 : 1) * pos, leakK); }
        if (qd) { if (r.p(0.3)) { conn = !conn; qd->setState(conn ? GunnsFluidSimpleQd::CONNECTED : GunnsFluidSimpleQd::DISCONNECTED); } kEff = conn ? k : 0.0; }
        if (lk) { if (r.p(0.3)) { holeF = r.p(0.4); holeV = r.logu(1e-7, 1e-3); lk->setMalfLeakHole(holeF, holeV); } if (r.p(0.3)) { rateF = r.p(0.6); rateV = r.logu(1e-6, 1e-3); lk->setMalfLeakRate(rateF, rateV); }
            if (holeF) kEff = holeV; else if (rateF) { if (prevRate != rateV) leakK = predict(g, a, b, rateV); prevRate = rateV; kEff = leakK; } else { prevRate = 0; kEff = leakK = 0; }
            if (holeF) { if (prevHole != holeV) { leakK = holeV; prevHole = holeV; } kEff = leakK; } else if (!rateF) prevHole = 0; }
        if (blk) kEff *= 1 - blkV;
        const double G = admit(g, a, b, kEff); double expCond = 0; const double T0 = g.fl(a)->getTemperature(), T1 = g.fl(b)->getTemperature();
        const double mwA = g.fl(a)->getMWeight(), mwB = g.fl(b)->getMWeight(), hwA = std::fabs(g.fl(a)->computeSpecificEnthalpy(wallT) - g.fl(a)->getSpecificEnthalpy()), hwB = std::fabs(g.fl(b)->computeSpecificEnthalpy(wallT) - g.fl(b)->getSpecificEnthalpy()); const double y0 = g.fl(a)->getMoleFraction(0), y1 = g.fl(b)->getMoleFraction(0);
        if (h) expCond = GunnsFluidUtils::computeConductiveHeatFlux(kEff, g.fl(a), g.fl(b), L0, L1);
        double rh = 0, dew = 0, psat = 0; bool sense = false;
        if (ws) { PolyFluid* f = g.fl(a); const FP* pr = f->getProperties(FP::GUNNS_H2O); psat = pr->getSaturationPressure(f->getTemperature()); const double pp = f->getPartialPressure(FP::GUNNS_H2O); dew = pr->getSaturationTemperature(pp); rh = psat > 1e-15 ? pp / psat : 0; sense = psat > 1e-15; }
        std::vector<double> ppOld; for (auto q : g.mix.types) ppOld.push_back(g.fl(a)->getPartialPressure(q));
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break;
        judgeFlow(c, g, names[kind], dev, a, b, G);
        const double fr = dev->getFlowRate(); double heat = 0; const double inT = fr > 0 ? T0 : T1;
        if (v) heat = v->getWallHeatFlux(); if (p) heat = p->q(); if (qd) heat = qd->getWallHeatFlux();
        if (len == 0 && !p) CHK(heat == 0, "line-no-surface-heat", mon::fmt("%s without surface reports wall heat %g", names[kind], heat));
        if (fr == 0) CHK(heat == 0, "line-no-flow-heat", mon::fmt("%s without flow reports wall heat %g", names[kind], heat));
        if (std::fabs(fr) > 1e-9 && std::fabs(inT - wallT) > 1e-3 && std::fabs(heat) > 1e-6) { CHK(heat * (inT - wallT) >= 0, "line-heat-direction", mon::fmt("%s wall heat %g with fluid at %g and wall at %g", names[kind], heat, inT, wallT));
            const double qmax = std::fabs(fr) * (fr > 0 ? hwA : hwB) * (1 + 1e-9); CHK(std::fabs(heat) <= qmax, "line-heat-bound", mon::fmt("%s wall heat %g exceeds the heat to reach the wall temperature %g", names[kind], heat, qmax)); c.hit(mon::mix(kind, heat > 0)); }
        if (h && (std::fabs(h->diff()) * dt > 0.3 * std::min(g.fl(a)->getMass(), g.fl(b)->getMass()) || std::fabs(h->q()) * dt > 0.3 * std::min(g.fl(a)->getMass() * g.fl(a)->getSpecificEnthalpy(), g.fl(b)->getMass() * g.fl(b)->getSpecificEnthalpy()))) { c.count("overdrawn_steps"); break; }
        g.same(c, names[kind], A, B, dt, -heat * dt);
        if (h) { const bool still = std::fabs(g.P(a) - g.P(b)) < 0.01 && std::fabs(T0 - T1) < 20.0; NEAR(h->q(), expCond, 1e-9, 1e-15, "hatch-conduction", "hatch conductive heat");
            if (!still) CHK(h->diff() == 0, "hatch-diffusion-off", mon::fmt("diffusion %g with drop %g and temperature difference %g", h->diff(), g.P(a) - g.P(b), T0 - T1));
            if (h->diff() != 0) { c.count("hatch_diffusion_steps"); c.hit(mon::mix(77, h->diff() > 0)); }
            if (kEff == 0) CHK(h->q() == 0 && h->diff() == 0, "hatch-closed", mon::fmt("closed hatch conducts %g W, diffuses %g kg/s", h->q(), h->diff()));
            const double z0 = g.fl(a)->getMoleFraction(0), z1 = g.fl(b)->getMoleFraction(0); if (std::min(g.P(0), g.P(1)) > 2.0) CHK(std::fabs(z0 - z1) <= std::fabs(y0 - y1) + 1e-7, "hatch-mixing", mon::fmt("mole fractions %g %g moved apart to %g %g", y0, y1, z0, z1)); }
        if (s) { auto between = [&](double v, double x, double y, const char* w) { const double m = 1e-9 * std::max(std::fabs(x), std::fabs(y)); CHK(v >= std::min(x, y) - m && v <= std::max(x, y) + m, std::string("sensor-") + w, mon::fmt("sensed %s %.12g, node has %.12g (was %.12g)", w, v, y, x)); };
            between(s->getTemperature(), T0, g.fl(a)->getTemperature(), "temperature"); NEAR(s->getPressure(), g.P(a), 1e-12, 0, "sensor-pressure", "sensed pressure"); NEAR(s->getDeltaPressure(), g.P(a) - g.P(b), 1e-12, 1e-9, "sensor-delta", "sensed pressure difference");
            CHK(s->getMassFlowRate() == s->getFlowRate() && s->getVolumetricFlowRate() == s->getVolFlowRate(), "sensor-flow", "sensed flows");
            for (int q = 0; q < g.mix.n(); ++q) between(s->getPartialPressure()[g.mix.types[q]], ppOld[q], g.fl(a)->getPartialPressure(g.mix.types[q]), "partial"); }
        if (ws && sense) { NEAR(ws->getRelativeHumidity(), rh, 1e-12, 0, "water-humidity", "relative humidity"); NEAR(ws->dew(), dew, 1e-12, 0, "water-dewpoint", "dew point"); CHK(ws->getLiquidPresent() == (rh >= 1.0), "water-liquid", mon::fmt("liquid %d at relative humidity %g", int(ws->getLiquidPresent()), rh)); c.hit(mon::mix(66, rh >= 1)); }
        NEAR(dev->getFlowRate(), dev->getFlux() * (dev->getFlux() > 0 ? mwA : mwB), 1e-9, 1e-15, "line-flowrate", "mass flow against molar flow");
        c.hit(mon::mix(mon::mix(kind, fr > 0 ? 1 : fr < 0 ? 2 : 0), mon::mix(blk + 2 * leakFlag + 4 * conn, holeF + 2 * rateF)));
    }
}

MON_PROP2(F10, threeway, "mix side, position band, flow directions") {
    mon::Rng& r = c.r; Rig g(r, 3, r.i(1, 4), r.p(0.3) ? 2 : 0, false); g.make(r);
    const double kA = r.logu(1e-6, 1e-2), kB = r.logu(1e-6, 1e-2), band = r.p(0.4) ? 0 : r.p(0.1) ? 0.999 : r.u() * 0.99; const bool pathB = r.p(0.5); double pos = r.u();
    GunnsFluid3WayValve* v = g.add(new GunnsFluid3WayValve); v->initialize(GunnsFluid3WayValveConfigData("t", &g.list, pathB, kA, kB, 0, 0, 0, 0, 0, 0, 0, 0, band), GunnsFluid3WayValveInputData(pos, 300, 300), g.links, 0, 1, 2); g.start();
    c.note = mon::fmt("3way kA=%.3g kB=%.3g band=%.3g pathB=%d", kA, kB, band, int(pathB)); const double dt = 0.1; double pA = -1, pB = -1; const int steps = r.i(5, 25);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.7)) { pos = r.p(0.2) ? double(r.i(0, 2)) * 0.5 : r.u(); v->setPosition(pos); }
        // the valve is stepped after or before its paths; use whichever position the paths hold now for this step's conductance
        const double p0A = v->getPathA()->getPosition(), p0B = v->getPathB()->getPosition(); const Rig::Ledger A = g.ledger(); const double g0A = admit(g, 0, 2, kA * p0A), g0B = admit(g, 1, 2, kB * p0B);
        const double w = 0.5 - 0.5 * band, lo = band > 0 ? std::max(0.0, (w - pos) / w) : 1 - pos, hi = band > 0 ? std::max(0.0, (pos - (1 - w)) / w) : pos; const double eA = pathB ? lo : hi, eB = pathB ? hi : lo; const double g1A = admit(g, 0, 2, kA * eA), g1B = admit(g, 1, 2, kB * eB);
        g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; pA = v->getPathA()->getPosition(); pB = v->getPathB()->getPosition();
        NEAR(pA, eA, 1e-9, 1e-9, "3way-position-a", mon::fmt("path A position at %g", pos)); NEAR(pB, eB, 1e-9, 1e-9, "3way-position-b", mon::fmt("path B position at %g", pos));
        CHK(pA >= 0 && pB >= 0 && pA + pB <= 1 + 1e-9, "3way-sum", mon::fmt("path positions %g + %g", pA, pB)); if (band > 0 && pA > 0 && pB > 0) CHK(false, "3way-band", mon::fmt("both paths open (%g, %g) with a non-mixing band %g", pA, pB, band));
        const double GA = v->getPathA()->getAdmittanceMatrix()[0], GB = v->getPathB()->getAdmittanceMatrix()[0];
        const bool oldA = std::fabs(GA - g0A) <= 1e-9 * g0A + 1e-18, newA = std::fabs(GA - g1A) <= 1e-8 * (g1A + kA * 1e-9) + 1e-18, oldB = std::fabs(GB - g0B) <= 1e-9 * g0B + 1e-18, newB = std::fabs(GB - g1B) <= 1e-8 * (g1B + kB * 1e-9) + 1e-18;
        CHK((oldA && oldB) || (newA && newB), "3way-conductance", mon::fmt("conductances %g %g; expected %g %g (or previous %g %g)", GA, GB, g1A, g1B, g0A, g0B));
        CHK(v->getFlux() == 0.0, "3way-own-flux", mon::fmt("three way valve body flux %g", v->getFlux())); g.same(c, "3way", A, B, dt, 0.0);
        c.hit(mon::mix(mon::mix(pathB, band > 0), mon::mix(pA > 0, pB > 0) ^ mon::mix(v->getPathA()->getFlux() > 0, v->getPathB()->getFlux() > 0))); }
}

namespace {
// A self-actuated valve's two position curves.
struct Curve { double p0, full, pop, scale;          // position 0 at p0, 1 at full (full may be below p0)
    double at(double P) const { const double m = scale / (full - p0), pp = p0 + pop / m; const bool before = full > p0 ? P <= pp : P >= pp;
        return before ? m * (P - p0) : pop + (1 - pop) * (P - pp) / (full - pp); } };
}
MON_PROP2(F11, pressure, "valve kind, curve zone, malfunction, direction") {
    mon::Rng& r = c.r; const bool relief = r.p(0.5); Rig g(r, r.i(2, 4), r.i(1, 3), r.p(0.3) ? 2 : 0, false, true, 0.2, 5, 30, 1e9); const double ref = r.logu(5, 300); for (auto& s : g.init) s.P = ref * r.uni(0.5, 1.5); g.make(r);
    int pp0, pp1; do { pp0 = r.i(0, g.n); pp1 = r.p(0.5) ? g.ground() : r.i(0, g.n - 1); if (pp0 == g.n) pp0 = g.ground(); } while (pp0 == pp1);
    const double off = (pp0 == g.ground() ? 0 : g.init[pp0].P) - (pp1 == g.ground() ? 0 : g.init[pp1].P);
    if (pp0 == g.ground() && pp1 != g.ground()) std::swap(pp0, pp1);
    double base = std::max(std::fabs(off), 0.05 * ref) * r.uni(0.8, 1.2); const double span = base * r.logu(0.01, 0.3);
    double reseat, crack, full; if (relief) { reseat = base; crack = base + span * r.uni(0.1, 0.9); full = base + span * r.uni(1.0, 1.5); } else { full = base; crack = base + span * r.uni(0.3, 0.9); reseat = base + span; }
    const double pop = r.uni(0.05, 0.9), scale = r.uni(1.0, 4.0), k = r.logu(1e-6, 1e-2); const double dt = 0.1, rate = r.p(0.5) ? 1000.0 : r.logu(0.05, 20); const double c0 = r.p(0.6) ? 0 : r.uni(-1, 1) * span * 0.2, c1 = r.p(0.6) ? 0 : r.uni(-1, 1) * 0.01;
    const bool start = relief ? false : false; double pos = start; const double setBias = r.p(0.6) ? 0 : r.uni(-1, 1) * span * 0.3; const double wallT = r.uni(230, 400); const bool surf = r.p(0.5);
    GunnsFluidPressureSensitiveValve* v; int a = 0, b = 1;
    struct XRel : GunnsFluidReliefValve { double q() const { return mWallHeatFlux; } }; struct XReg : GunnsFluidRegulatorValve { double q() const { return mWallHeatFlux; } }; XRel* vr = 0; XReg* vg = 0;
    const double len = surf ? r.logu(0.1, 3) : 0, dia = surf ? 0.05 : 0, rough = surf ? 1e-5 : 0;
    if (relief) { vr = g.add(new XRel); v = vr; vr->initialize(GunnsFluidReliefValveConfigData("r", &g.list, k, 0.0, rate, len, dia, rough, reseat, crack, full, pop, scale, c0, c1), GunnsFluidReliefValveInputData(false, 0, pos, false, 0, false, 0, setBias, wallT), g.links, a, b, pp0, pp1); }
    else { vg = g.add(new XReg); v = vg; vg->initialize(GunnsFluidRegulatorValveConfigData("r", &g.list, k, 0.0, rate, len, dia, rough, reseat, crack, full, pop, scale, c0, c1), GunnsFluidRegulatorValveInputData(false, 0, pos, false, 0, false, 0, setBias, wallT), g.links, a, b, pp0, pp1); }
    g.start(); c.note = mon::fmt("%s reseat=%.5g crack=%.5g full=%.5g pop=%.3g x%.3g rate=%.3g k=%.3g ports %d-%d", relief ? "relief" : "regulator", reseat, crack, full, pop, scale, rate, k, pp0, pp1);
    const Curve op{crack, full, pop, scale}, cl{reseat, full, pop, scale}; const int steps = r.i(10, c.thorough ? 150 : 60); bool bias = false, stuck = false, fail = false, clean = true, blk = false, leak = false; double biasV = 0, failV = 0, blkV = 0, leakV = 0, leakPrev = 0, leakK = 0, prevP = 0; int zone = 0;
    auto pr = [&](int i) { return i == g.ground() ? 0.0 : g.P(i); };
    double drift = r.sgn();
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt, 0.01);
        // sweep the control pressure over the curves with the pressure bias malfunction
        if (r.p(0.1)) drift = -drift; if (r.p(0.85)) { const double target = base + span * (0.6 + drift * r.u()); const double raw = pr(pp0) - pr(pp1) - setBias - c0 - c1 * pr(a); bias = true; biasV = (target - raw) * (r.p(0.5) ? 1.0 : r.u()); } else bias = false;
        v->setMalfPressureBias(bias, biasV);
        if (r.p(0.05)) { stuck = r.p(0.5); v->setMalfStuck(stuck); } if (r.p(0.05)) { fail = r.p(0.5); failV = r.p(0.2) ? r.uni(-1, 2) : r.u(); v->setMalfFailTo(fail, failV); } if (r.p(0.1)) { blk = r.p(0.5); blkV = r.u(); v->setMalfBlockage(blk, blkV); } if (r.p(0.1)) { leak = r.p(0.5); leakV = r.logu(1e-6, 1e-3); v->setMalfLeakThru(leak, leakV); }
        // potentials as the valve will see them this step: the solution of the previous step
        const double P = pr(pp0) - pr(pp1) + (bias ? biasV : 0) - setBias - (c0 + c1 * pr(a)); const double before = v->getPosition();
        if (leak) { if (leakPrev != leakV) { leakK = predict(g, a, b, leakV); leakPrev = leakV; } } else { leakPrev = 0; leakK = 0; }
        const double O = clamp(0, op.at(P), 1), C = clamp(0, cl.at(P), 1), lo = std::min(O, C), hi = std::max(O, C); double kO = k;
        // expected position and conductance need the post-step position (position moves first, then conductance)
        GunnsFluidNode& na = g.node(a); (void)na; std::unique_ptr<PolyFluid> fa(new PolyFluid(*g.fl(a), "fa")), fb(new PolyFluid(*g.fl(b), "fb"));
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; const double now = v->getPosition();
        CHK(now >= 0 && now <= 1, "psv-range", mon::fmt("position %g", now));
        if (stuck) { CHK(now == before, "psv-stuck", mon::fmt("stuck valve moved %g to %g", before, now)); clean = false; }
        else if (fail) { NEAR(now, clamp(0, failV, 1), 0, 0, "psv-fail-to", "failed valve position"); clean = false; }
        else { const double md = rate * dt; CHK(std::fabs(now - before) <= md * (1 + 1e-12) + 1e-12, "psv-rate", mon::fmt("position moved %g, limit %g", now - before, md));
            // play operator between the two curves, rate limited
            const double want = clamp(std::max(0.0, before - md), clamp(lo, before, hi), std::min(1.0, before + md));
            if (t > 0 || P != 0) {
                if (clean) NEAR(now, want, 0, 1e-6, relief ? "relief-position" : "regulator-position", mon::fmt("control pressure %.9g (reseat %.9g crack %.9g full %.9g) curves %.6g/%.6g from %.6g, position", P, reseat, crack, full, O, C, before));
                else { const double wlo = clamp(std::max(0.0, before - md), lo, std::min(1.0, before + md)), whi = clamp(std::max(0.0, before - md), hi, std::min(1.0, before + md)); (void)wlo; (void)whi;
                    if (before >= lo - 1e-9 && before <= hi + 1e-9) CHK(now >= lo - 1e-6 && now <= hi + 1e-6, "psv-between", mon::fmt("position %g outside the curves %g..%g", now, lo, hi)); } }
            zone = now <= 0 ? 0 : now >= 1 ? 1 : P > prevP ? 2 : 3; if (now > lo + 1e-6 && now < hi - 1e-6) zone += 4; }
        kO = std::max(k * now, leakK); if (blk) kO *= 1 - blkV; const double G = clamp(0.0, GunnsFluidUtils::computeAdmittance(kO, MINLIN, fa.get(), fb.get()), 1e15);
        judgeFlow(c, g, "psv", v, a, b, G); const double q = relief ? vr->q() : vg->q(); if (!surf) CHK(q == 0, "psv-heat", mon::fmt("wall heat %g without surface", q)); g.same(c, "psv", A, B, dt, -q * dt); fa->cleanup(); fb->cleanup();
        c.hit(mon::mix(mon::mix(relief, zone), mon::mix(stuck + 2 * fail + 4 * clean, bias + 2 * leak + 4 * blk))); prevP = P; }
}

MON_PROP2(F11, check, "opening zone, malfunction, flow direction") {
    mon::Rng& r = c.r; Rig g(r, 2, r.i(1, 3), r.p(0.3) ? 2 : 0, false); g.make(r); const double k = r.logu(1e-6, 1e-2), cp = r.p(0.3) ? 0 : r.uni(-0.1, 5), opn = r.p(0.1) ? cp : cp + r.logu(0.01, 20), rate = r.p(0.5) ? 1000 : r.logu(0.05, 20), dt = 0.1; double pos = r.p(0.5) ? 0 : r.u();
    GunnsFluidCheckValve* v = g.add(new GunnsFluidCheckValve); v->initialize(GunnsFluidCheckValveConfigData("c", &g.list, k, 0, 0, 0, 0, rate, cp, opn), GunnsFluidCheckValveInputData(false, 0, pos), g.links, 0, 1); g.start();
    c.note = mon::fmt("check k=%.3g close=%.3g open=%.3g rate=%.3g", k, cp, opn, rate); bool stuck = false, fail = false; double failV = 0; double drop = v->getPotentialDrop(); const int steps = r.i(5, 40);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.1)) { stuck = r.p(0.5); v->setMalfStuck(stuck); } if (r.p(0.1)) { fail = r.p(0.5); failV = r.p(0.2) ? r.uni(-1, 2) : r.u(); v->setMalfFailTo(fail, failV); }
        const double before = v->getPosition(), md = rate * dt; double want = drop >= opn ? 1 : drop <= cp ? 0 : (drop - cp) / (opn - cp); want = clamp(std::max(0.0, before - md), want, std::min(1.0, before + md)); if (fail) want = clamp(0, failV, 1); if (stuck) want = before;
        const double G = admit(g, 0, 1, k * want); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break;
        NEAR(v->getPosition(), want, 1e-12, 1e-15, "check-position", mon::fmt("check valve position from %g at drop %g (close %g open %g)", before, drop, cp, opn)); judgeFlow(c, g, "check", v, 0, 1, G); g.same(c, "check", A, B, dt, 0.0);
        drop = g.P(0) - g.P(1); c.hit(mon::mix(mon::mix(stuck + 2 * fail, want <= 0 ? 0 : want >= 1 ? 1 : 2), v->getFlux() > 0 ? 1 : v->getFlux() < 0 ? 2 : 3)); }
}

MON_PROP2(F11, check3, "side open, malfunction, mounting") {
    mon::Rng& r = c.r; Rig g(r, 3, r.i(1, 3), 0, false, true, 0.2, 20, 1e9, r.logu(1, 60)); g.make(r); const double kA = r.logu(1e-6, 1e-3), kB = r.logu(1e-6, 1e-3), mn = r.logu(0.01, 5), oA = mn + r.logu(0.05, 30), oB = mn + r.logu(0.05, 30), rate = r.p(0.5) ? 1000 : r.logu(0.05, 20), dt = 0.1; const bool pathB = r.p(0.5); const double pos0 = r.u();
    GunnsFluid3WayCheckValve* v = g.add(new GunnsFluid3WayCheckValve); v->initialize(GunnsFluid3WayCheckValveConfigData("t", &g.list, pathB, kA, kB, 0, 0, 0, 0, 0, 0, 0, 0, rate, oA, oB, mn), GunnsFluid3WayCheckValveInputData(pos0, 300, 300), g.links, 0, 1, 2); g.start();
    c.note = mon::fmt("3way check kA=%.3g kB=%.3g min=%.3g openA=%.3g openB=%.3g pathB=%d", kA, kB, mn, oA, oB, int(pathB)); bool stuck = false, fail = false; double failV = 0, dA = 0, dB = 0; const int steps = r.i(5, 40);
    dA = v->getPathA()->getPotentialDrop(); dB = v->getPathB()->getPotentialDrop();
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.1)) { stuck = r.p(0.5); v->setMalfStuck(stuck); } if (r.p(0.1)) { fail = r.p(0.5); failV = r.p(0.2) ? r.uni(-1, 2) : r.u(); v->setMalfFailTo(fail, failV); }
        const double before = v->getPosition(), md = rate * dt; double want; const double d = dA - dB;
        if (dA < 0 && dB < 0) want = before; else { if (std::fabs(d) < mn) want = 0.5; else if (d > 0) want = clamp(0.5, 0.5 + 0.5 * (d - mn) / (oA - mn), 1.0); else want = clamp(0.0, 0.5 - 0.5 * (-d - mn) / (oB - mn), 0.5); if (pathB) want = 1 - want; }
        want = clamp(std::max(0.0, before - md), want, std::min(1.0, before + md)); if (fail) want = clamp(0, failV, 1); if (stuck) want = before;
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break;
        NEAR(v->getPosition(), want, 1e-9, 1e-12, "check3-position", mon::fmt("position from %g at drops %g %g", before, dA, dB)); const double pA = v->getPathA()->getPosition(), pB = v->getPathB()->getPosition();
        NEAR(pA, pathB ? 1 - want : want, 1e-9, 1e-12, "check3-path", "path A position"); NEAR(pA + pB, 1.0, 1e-9, 0, "check3-sum", "path positions"); g.same(c, "check3", A, B, dt, 0.0);
        dA = g.P(0) - g.P(2); dB = g.P(1) - g.P(2); c.hit(mon::mix(mon::mix(stuck + 2 * fail, pathB), want < 0.5 ? 0 : want > 0.5 ? 1 : 2) + (dA < 0) + 2 * (dB < 0)); }
}

MON_PROP2(F11, prv, "regulating, cutoff, malfunction") {
    mon::Rng& r = c.r; Rig g(r, 3, r.i(1, 3), 0, false, false, 0.2, 20, 1e9, 1e9); g.init[0].P = r.logu(50, 1000); g.init[1].P = r.logu(1, 300); g.init[2].P = r.p(0.7) ? 101 : r.logu(1, 200); const bool refGround = r.p(0.3); g.make(r);
    double set = r.logu(5, 300); const double droop = r.logu(10, 1e4); double dt = 0.1; const int ref = refGround ? g.ground() : 2;
    struct X : GunnsFluidBalancedPrv { double buf() const { return mInletMassBuffer; } double inlet() const { return mInletFlowRate; } }; X* v = g.add(new X); v->initialize(GunnsFluidBalancedPrvConfigData("p", &g.list, droop), GunnsFluidBalancedPrvInputData(false, 0, false, 0, set), g.links, 0, 1, ref);
    GunnsFluidValve* dr = g.add(new GunnsFluidValve); double kd = r.logu(1e-6, 1e-3); dr->initialize(GunnsFluidValveConfigData("d", &g.list, kd), GunnsFluidValveInputData(false, 0, r.u()), g.links, 1, 2); g.start();
    c.note = mon::fmt("prv set=%.4g droop=%.4g ref=%d P=(%.4g,%.4g,%.4g)", set, droop, ref, g.init[0].P, g.init[1].P, g.init[2].P); bool bias = false, blk = false; double bv = 0, blv = 0; const int steps = r.i(10, 80); bool cut = false;
    for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.1)) dr->setPosition(r.p(0.3) ? 0 : r.u()); if (r.p(0.1)) { bias = r.p(0.5); bv = r.uni(-1, 1) * set; v->setMalfPressureBias(bias, bv); } if (r.p(0.1)) { blk = r.p(0.5); blv = r.p(0.3) ? 1 : r.u(); v->setMalfBlockage(blk, blv); } if (r.p(0.05)) { set = r.p(0.1) ? r.uni(-50, 0) : r.logu(5, 300); v->setPressureSetpoint(set); set = std::max(0.0, set); }
        const double P0 = g.P(0), P1 = g.P(1), Pr = ref == g.ground() ? 0.0 : g.P(2), mw = g.fl(0)->getMWeight(), buf0 = v->buf(); if (P1 > P0) cut = true; else if (P1 < set) cut = false;
        const double reg = std::min(set + Pr + (bias ? bv : 0), P0); double G = cut ? 0 : 1 / mw / clamp(1.1920929e-7, droop, 1 / 1.1920929e-7) * (blk ? 1 - blv : 1);
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; const double fx = v->getFlux();
        CHK(fx >= 0, "prv-backflow", mon::fmt("PRV flows backward: %g", fx)); const double want = std::max(0.0, G * (reg - g.P(1))); NEAR(fx, want, 1e-8, 1e-12 * (1 + G * P0), "prv-regulation", mon::fmt("PRV flux at exit %.6g, regulated %.6g, droop %.3g, cutoff %d", g.P(1), reg, droop, int(cut)));
        if (v->buf() > 0 || buf0 == 0) { const double e = g.eps(dt); NEAR(B.m - v->buf(), A.m - buf0, 1e-9, e + 1e-12, "prv-mass", "network mass against the inlet buffer"); } 
        NEAR(v->getFlowRate(), fx * mw, 1e-9, 1e-15, "prv-flowrate", "PRV mass flow");
        c.hit(mon::mix(mon::mix(cut, fx > 0), bias + 2 * blk + 4 * (v->inlet() > 0) + 8 * (P0 < set))); }
}
RESTART_PROP(valve)
