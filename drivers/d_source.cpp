// Sources, heaters, evaporation and metabolic links (F16): what they put into or take out of the network is what was demanded.
#include "rig.hpp"
#include "aspects/fluid/source/GunnsFluidHeater.hh"
#include "aspects/fluid/source/GunnsFluidSourceBoundary.hh"
#include "aspects/fluid/source/GunnsFluidEvaporation.hh"
#include "aspects/fluid/source/GunnsFluidPhaseChangeSource.hh"
#include "aspects/fluid/source/GunnsFluidFireSource.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic2.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic3.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include "software/exceptions/TsInitializationException.hh"
using namespace rig;
namespace {
struct XEv : GunnsFluidEvaporation { double drop() const { return mPotentialDrop; } double pool() const { return mLiquidPoolMass; } void rate(double v) { mFlowRate = v; } };
struct XAc : GunnsFluidAccum { PolyFluid* in() { return mInternalFluid; } };
struct XPs : GunnsFluidPhaseChangeSource { void power(double v) { mPowerInput = v; } };
struct XSb : GunnsFluidSourceBoundary { PolyFluid* in() { return mInternalFluid; } double* rates() { return mTraceCompoundRates; } };
void judge(mon::Ctx& c, Rig& g, const char* key, const Rig::Ledger& A, const Rig::Ledger& B, double dt, const std::vector<double>& ds, const std::vector<double>& dtc, double dE, double tolE = 0) {
    const double e = g.eps(dt); double dm = 0, da = 0; for (double v : ds) { dm += v; da += std::fabs(v); }
    NEAR(B.m, A.m + dm, 1e-9, e + 1e-10 * da, std::string(key) + "-mass", mon::fmt("%s: total mass (device added %.6g of %.6g)", key, dm, A.m));
    for (int k = 0; k < g.mix.n(); ++k) NEAR(B.s[k], A.s[k] + ds[k], 0, 1e-9 * A.m + e + 1e-10 * da, std::string(key) + "-species", mon::fmt("%s: mass of constituent %d (device added %.6g)", key, k, ds[k]));
    for (int k = 0; k < g.mix.nTc(); ++k) NEAR(B.t[k], A.t[k] + dtc[k], 1e-8, 1e-6 * e + 1e-13 * A.m + 1e-8 * std::fabs(dtc[k]), std::string(key) + "-trace", mon::fmt("%s: mass of trace compound %d (device added %.6g)", key, k, dtc[k]));
    NEAR(B.e, A.e + dE, 0, 3e-7 * A.eAbs + e * ((A.m > 0 ? A.eAbs / A.m : 0) + 1e6) + 1e-9 * std::fabs(dE) + tolE, std::string(key) + "-energy", mon::fmt("%s: total energy (added %.6g)", key, dE));
}
double hOf(Rig& g, const std::vector<double>& m, double T) { double h = 0; for (int k = 0; k < g.mix.n(); ++k) h += m[k] * g.fl(0)->getProperties(g.mix.types[k])->getSpecificEnthalpy(T); return h; }
// content temperature small enough a change for a one-step energy judgement
bool big(const Rig::Ledger& A, const std::vector<double>& ds) { double s = 0; for (size_t k = 0; k < ds.size(); ++k) { s += std::fabs(ds[k]); if (-ds[k] > 0.5 * A.s[k]) return true; } return s > 0.2 * A.m; }
}

MON_PROP2(F16, heater, "heater: ports, power sign, efficiency, blockage") {
    mon::Rng& r = c.r; const bool gnd = r.p(0.4); Rig g(r, 2, r.i(1, 3), r.p(0.3) ? 1 : 0, r.p(0.2), r.p(0.7)); g.make(r); double eff = r.p(0.1) ? -0.01 : r.p(0.1) ? 1.01 : r.p(0.2) ? 0 : r.p(0.2) ? 1 : r.u(), P = r.p(0.1) ? 0 : r.sgn() * r.logu(0.1, 1e4);
    GunnsFluidHeater* x = g.add(new GunnsFluidHeater); const int a = gnd && r.p(0.5) ? g.ground() : 0, b = gnd && a == 0 ? g.ground() : 1; const int p0 = r.p(0.5) ? a : b, p1 = p0 == a ? b : a; bool threw = false; bool mf = r.p(0.2); double mv = r.u();
    try { x->initialize(GunnsFluidHeaterConfigData("x", &g.list, eff), GunnsFluidHeaterInputData(mf, mv, P), g.links, p0, p1); } catch (const TsInitializationException&) { threw = true; }
    CHK(threw == (eff < 0 || eff > 1), "heater-refuse", mon::fmt("efficiency %g %s", eff, threw ? "refused" : "accepted")); if (threw) { c.hit(1); return; } g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1;
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.2)) { P = r.p(0.2) ? 0 : r.sgn() * r.logu(0.1, 1e4); x->setHeaterPower(P); } if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); }
        const double q = P * eff * (mf ? 1 - mv : 1); double T0[2] = { g.fl(0)->getTemperature(), g.fl(1)->getTemperature() }; bool ok = true; for (int i = 0; i < 2; ++i) if (std::fabs(q) * dt > 50 * g.fl(i)->getMass() * g.fl(i)->getSpecificHeat() || T0[i] < 150 || T0[i] > 700) ok = false; if (!ok) break;
        const double e0 = g.fl(0)->getMass() * g.fl(0)->getSpecificEnthalpy(), e1 = g.fl(1)->getMass() * g.fl(1)->getSpecificEnthalpy(); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps");
        double dE = 0; if (p0 != g.ground()) dE -= q * dt; if (p1 != g.ground()) dE += q * dt; std::vector<double> ds(g.mix.n(), 0.0), dtc(g.mix.nTc(), 0.0); judge(c, g, "heater", A, B, dt, ds, dtc, dE); CHK(x->getFlux() == 0 && x->getFlowRate() == 0, "heater-flow", "a heater moves no fluid");
        if (!g.dist) for (int i = 0; i < 2; ++i) { const double w = p0 == i ? -q * dt : p1 == i ? q * dt : 0, e = g.fl(i)->getMass() * g.fl(i)->getSpecificEnthalpy(), s = i ? e1 : e0; NEAR(e, s + w, 0, 3e-7 * std::fabs(s) + g.eps(dt) * 1e6 + 1e-9 * std::fabs(w), "heater-node", mon::fmt("energy of node %d (heat %.6g)", i, w)); }
        c.hit(10 + mon::mix((p0 == g.ground()) + 2 * (p1 == g.ground()), (q > 0) - (q < 0) + 4 * mf)); }
}

MON_PROP2(F16, boundary, "source boundary: mode, sign, trace compounds, override") {
    mon::Rng& r = c.r; const bool liq = r.p(0.15); Rig g(r, 2, liq ? 1 : r.i(1, 4), r.p(0.6) ? r.i(1, 4) : 0, liq, r.p(0.6)); g.make(r); const int nt = g.mix.nTc(), n = g.mix.n(); State s = randomState(r, g.mix); std::vector<double> rate(nt, 0.0); for (auto& v : rate) v = r.p(0.3) ? 0 : r.logu(1e-8, 1e-3);
    const bool tcOnly = nt && r.p(0.25), flip = r.p(0.4), noTc = nt && !tcOnly && r.p(0.2), bad = r.p(0.05); double q = r.p(0.15) ? 0 : (r.p(0.75) ? 1 : -1) * r.logu(1e-6, 1e-2); bool mf = r.p(0.15); double mv = r.p(0.2) ? 1 : r.u();
    GunnsFluidTraceCompoundsInputData ti(nt ? rate.data() : 0); std::vector<double> fr = s.x; PolyFluidInputData in(s.T, s.P, 0.0, 1.0, fr.data(), nt && !noTc ? &ti : 0); if (noTc) rate.assign(nt, 0.0);
    XSb* x = g.add(new XSb); const int nd = r.i(0, 1); const int kind = bad ? r.i(0, 2) : -1; bool threw = false;
    try { x->initialize(GunnsFluidSourceBoundaryConfigData("x", &g.list, flip, kind == 1 ? true : kind == 2 ? true : tcOnly), GunnsFluidSourceBoundaryInputData(mf, mv, q, kind == 0 ? 0 : &in), g.links, nd); } catch (const TsInitializationException&) { threw = true; }
    const bool expect = kind == 0 || ((kind >= 1) && (nt == 0 || noTc)); CHK(threw == expect, "source-refuse", mon::fmt("source boundary %s (internal fluid %d, trace compounds of network %d, given %d)", threw ? "refused" : "accepted", kind != 0, nt, !noTc)); if (threw || kind >= 1) { c.hit(2); return; }
    g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; c.note = mon::fmt("flow %.3g T %.4g flip %d tconly %d block %d %.3g noTc %d", q, s.T, flip, tcOnly, mf, mv, noTc); bool ov = false; std::vector<double> oq(n, 0.0), ot(nt, 0.0); double oT = 0, oH = 0; bool wasOv = false;
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.2)) { q = r.p(0.2) ? 0 : (r.p(0.75) ? 1 : -1) * r.logu(1e-6, 1e-2); if (!ov) x->setFlowDemand(q); } if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); }
        if (!tcOnly && !liq && r.p(0.15)) { ov = !ov; x->mOverrideMode = ov; if (!ov) break; wasOv = true; }
        if (ov && r.p(0.6)) { for (auto& v : oq) v = r.p(0.3) ? 0 : (r.p(0.7) ? 1 : -1) * r.logu(1e-6, 3e-3); double tot = 0; for (double v : oq) tot += v; bool mixed = false; for (double v : oq) if (v * tot < 0) mixed = true; if (mixed) for (auto& v : oq) v = std::fabs(v); for (auto& v : ot) v = r.p(0.3) ? 0 : r.logu(1e-9, 1e-5); oT = r.p(0.4) ? 0 : r.uni(220, 450); oH = r.p(0.4) ? 0 : r.sgn() * r.logu(0.1, 100); x->mOverrideTemperature = oT; x->mOverrideHeat = oH; }
        if (ov) { for (int k = 0; k < n; ++k) x->mOverrideFlowRates[k] = oq[k]; for (int k = 0; k < nt; ++k) x->mOverrideTcFlowRates[k] = ot[k]; }
        const double sg = (flip ? -1 : 1), sc = sg * (mf ? 1 - mv : 1), Tn = g.fl(nd)->getTemperature(); std::vector<double> ds(n, 0.0), dtc(nt, 0.0); double dE = 0, want = 0;
        if (ov) { for (int k = 0; k < n; ++k) { want += oq[k]; ds[k] = sc * oq[k] * dt; } for (int k = 0; k < nt; ++k) dtc[k] = sg * ot[k] * dt; want *= sc; dE = sg * oH * dt + hOf(g, ds, oT > 0 ? oT : Tn); }
        else { want = sc * q; for (int k = 0; k < n; ++k) ds[k] = tcOnly ? 0 : want * s.x[k] * dt; for (int k = 0; k < nt; ++k) dtc[k] = want * rate[k] * dt; dE = tcOnly ? 0 : hOf(g, ds, x->in()->getTemperature()); if (!wasOv && !tcOnly) NEAR(x->in()->getTemperature(), s.T, 1e-9, 0, "source-temperature", "temperature of the source fluid"); }
        const Rig::Ledger A = g.ledger(); double na = g.fl(nd)->getMass(), tw = 0; std::vector<double> own(n); for (int k = 0; k < n; ++k) own[k] = massOf(g.fl(nd), k); bool skip = false; for (int k = 0; k < n; ++k) if (-ds[k] > 0.3 * own[k] || std::fabs(ds[k]) > 0.2 * na) skip = true; for (int k = 0; k < nt; ++k) { tw += dtc[k]; if (-dtc[k] > 0.3 * g.fl(nd)->getTraceCompounds()->getMasses()[k]) skip = true; } if (tw > 1e-3 * na) skip = true; if (std::fabs(oH) * dt > 5 * na * g.fl(nd)->getSpecificHeat()) skip = true; if (skip) { c.count("too_large"); break; }
        g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps"); if (std::fabs(want) < 1e-13) for (auto& v : ds) v = 0;
        NEAR(x->getFlowRate(), want, 1e-12, 0, "source-rate", "flow rate of the source"); judge(c, g, ov ? "override" : tcOnly ? "traceonly" : "source", A, B, dt, ds, dtc, dE); c.hit(mon::mix(100 + ov + 2 * tcOnly + 4 * flip, (want > 0) - (want < 0) + 4 * mf + 8 * (nt > 0) + 16 * (oT > 0))); if (tcOnly) CHK(x->getFlux() == 0, "source-traceonly-flux", "trace compounds only mode moves moles"); }
}

MON_PROP2(F16, evaporation, "evaporation: both ports, pool limit, vapour potential, given rate") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> types{FP::GUNNS_N2, FP::GUNNS_O2}; if (r.p(0.5)) types.pop_back(); types.insert(types.begin() + r.i(0, int(types.size())), FP::GUNNS_H2O); types.insert(types.begin() + r.i(0, int(types.size())), FP::GUNNS_WATER); const int wi = int(std::find(types.begin(), types.end(), FP::GUNNS_WATER) - types.begin()), hi = int(std::find(types.begin(), types.end(), FP::GUNNS_H2O) - types.begin());
    const bool full = r.p(0.65); Rig g(r, 1, types, r.p(0.3) ? 1 : 0, false, false, 1, 50, 1e9, 1e9, 1);
    { State& s = g.init[0]; s.T = r.uni(278, 345); s.P = r.uni(20, 300); double t = 0; s.x[wi] = 0; s.x[hi] = r.p(0.2) ? 0 : r.uni(0, 0.05); for (int k = 0; k < g.mix.n(); ++k) if (k != wi && k != hi) { s.x[k] = r.u() + 0.01; t += s.x[k]; } for (int k = 0; k < g.mix.n(); ++k) if (k != wi && k != hi) s.x[k] *= (1 - s.x[hi]) / t; }
    { State& s = g.init[1]; s.T = r.uni(278, 345); s.P = r.uni(100, 300); for (auto& v : s.x) v = 0; s.x[wi] = 1; for (auto& v : s.tc) v = 0; } g.init[2] = g.init[0]; g.nodeInit = true; g.make(r);
    XAc* ac = 0; Input li(g.init[1]); if (full) { ac = g.add(new XAc); ac->initialize(GunnsFluidAccumConfigData("ac", &g.list, 0.1, 0.01, r.logu(1e-3, 0.1), 2.0, 5.0, 0.1, 1.0, 274, 373, 700, 100, 50, 0, 0, 1), GunnsFluidAccumInputData(false, 0, r.uni(0.05, 0.95), &li.in, 0.0), g.links, g.ground(), 1); }
    const double k = r.p(0.1) ? 0 : r.logu(1e-9, 1e-3), ex = r.p(0.4) ? 0 : r.uni(-1, 2); double rate = r.p(0.3) ? 0 : r.logu(1e-8, 1e-4); XEv* x = g.add(new XEv); bool mf = r.p(0.2); double mv = r.p(0.2) ? 1.0 : r.u(); const bool badC = r.p(0.06); bool threw = false; const double exx = badC && r.p(0.5) ? 11 : ex, kk = badC && exx < 11 ? -1e-9 : k;
    try { x->initialize(GunnsFluidEvaporationConfigData("x", &g.list, FP::GUNNS_H2O, kk, exx, ac), GunnsFluidEvaporationInputData(mf, mv, 101.0, 0.0, rate), g.links, full ? 1 : g.ground(), 0); } catch (const TsInitializationException&) { threw = true; } CHK(threw == badC, "evaporation-refuse", mon::fmt("coefficient %g exponent %g %s", kk, exx, threw ? "refused" : "accepted")); if (threw) { c.hit(3); return; }
    g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; c.note = mon::fmt("full %d k %.3g ex %.3g T %.4g P %.4g", full, k, ex, g.init[0].T, g.init[0].P); const FP* hp = g.fl(0)->getProperties(FP::GUNNS_H2O); const double Mg = hp->getMWeight(), Ml = g.fl(1)->getMWeight();
    for (int t = 0; t < r.i(3, 30) && !c.failed(); ++t) { if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (!full && r.p(0.3)) { rate = r.p(0.3) ? 0 : r.logu(1e-8, 1e-4); x->rate(rate); }
        const double T = g.fl(0)->getTemperature(), pp = g.P(0) * g.fl(0)->getMoleFraction(FP::GUNNS_H2O), drop = hp->getSaturationPressure(T) - pp; if (T < 274 || T > 370) break; const Rig::Ledger A = g.ledger(); const double l0 = full ? ac->in()->getMass() : 0, pool = full ? ac->getUsableMass() : 0; double want = rate;
        if (full) { want = pool > 1.2e-7 ? std::min(std::max(drop, 0.0) * k * std::pow(pool, ex) * (mf ? 1 - std::min(1.0, mv) : 1), pool / dt * Mg / Ml) : 0; } std::vector<double> ds(g.mix.n(), 0.0), dtc(g.mix.nTc(), 0.0); ds[hi] = want * dt; if (big(A, ds)) { c.count("too_large"); break; } const double Tg = g.node(0).getOutflow()->getTemperature(); (void)Tg;
        g.net.step(dt); const Rig::Ledger B = g.ledger(); c.count("steps"); NEAR(x->drop(), drop, 1e-9, 1e-10 * g.P(0) + 1e-9, "evaporation-potential", "vapour potential"); NEAR(x->getFlowRate(), want, 1e-7 , 1e-13 * k * g.P(0) + 1e-18, "evaporation-rate", mon::fmt("evaporation rate with pool %.6g potential %.6g", pool, drop)); want = x->getFlowRate(); if (want <= 2.3e-14) want = 0; ds[hi] = want * dt;
        judge(c, g, "evaporation", A, B, dt, ds, dtc, want * dt * hp->getSpecificEnthalpy(T)); NEAR(x->getPower(), hp->getHeatOfVaporization(T) * 1000 * x->getFlowRate(), 1e-9, 1e-12, "evaporation-power", "power of evaporation"); CHK(x->getFlowRate() >= 0, "evaporation-sign", "negative evaporation");
        if (full) { NEAR(ac->in()->getMass(), l0 - want * dt * Ml / Mg, 1e-9, g.eps(dt) + 1e-9 * want * dt, "evaporation-liquid", mon::fmt("liquid left in the pool after %.6g kg evaporated", want * dt)); c.hit(mon::mix(200 + (drop > 0), (want > 0) + 2 * (pool / dt < want * 1.0001) + 4 * mf)); } else c.hit(300 + (want > 0)); }
}

MON_PROP2(F16, phasechange, "phase change source: boil or condense, pure or mixed gas, blockage") {
    mon::Rng& r = c.r; const bool mixGas = r.p(0.5); std::vector<FP::FluidType> types{FP::GUNNS_WATER, FP::GUNNS_H2O}; if (mixGas) types.push_back(FP::GUNNS_N2); r.shuffle(types); const int wi = int(std::find(types.begin(), types.end(), FP::GUNNS_WATER) - types.begin()), hi = int(std::find(types.begin(), types.end(), FP::GUNNS_H2O) - types.begin());
    Rig g(r, 2, types, 0, false, false, 0.05, 5); { State& s = g.init[0]; s.T = r.uni(280, 360); s.P = r.uni(100, 300); for (auto& v : s.x) v = 0; s.x[wi] = 1; } { State& s = g.init[1]; s.T = r.uni(320, 420); s.P = mixGas ? r.uni(30, 200) : r.uni(5, 120); for (auto& v : s.x) v = 0; const double w = mixGas ? r.uni(0.2, 0.95) : 1; s.x[hi] = w; for (int k = 0; k < g.mix.n(); ++k) if (k != wi && k != hi) s.x[k] = 1 - w; } g.init[2] = g.init[1]; g.nodeInit = true; g.vol[0] = r.uni(0.05, 0.5); g.make(r);
    double eff = r.p(0.2) ? 1 : r.uni(-1, 1), P = r.p(0.1) ? 0 : r.sgn() * r.logu(1, 3e3); bool mf = r.p(0.2); double mv = r.u(); const int bad = r.p(0.08) ? r.i(0, 3) : -1; XPs* x = g.add(new XPs); bool threw = false;
    const FP::FluidType lt = bad == 0 ? FP::GUNNS_AMMONIA : bad == 1 ? FP::GUNNS_H2O : FP::GUNNS_WATER, gt = bad == 2 ? FP::GUNNS_WATER : FP::GUNNS_H2O; if (bad == 3) eff = r.sgn() * 1.01;
    try { x->initialize(GunnsFluidPhaseChangeSourceConfigData("x", &g.list, lt, gt, eff), GunnsFluidPhaseChangeSourceInputData(mf, mv, P), g.links, 0, 1); } catch (const TsInitializationException&) { threw = true; } CHK(threw == (bad >= 0), "phase-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); if (threw) { c.hit(4 + bad); return; }
    g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; c.note = mon::fmt("mixed %d eff %.3g P %.3g", mixGas, eff, P); const FP *lp = g.fl(0)->getProperties(FP::GUNNS_WATER), *gp = g.fl(0)->getProperties(FP::GUNNS_H2O);
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { if (r.p(0.2)) { P = r.p(0.2) ? 0 : r.sgn() * r.logu(1, 3e3); x->power(P); } if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); }
        const double q = P * eff * (mf ? 1 - mv : 1), P0 = g.P(0), P1 = g.P(1), Tl = g.fl(0)->getTemperature(), Tg = g.fl(1)->getTemperature(); if (P1 < 2 || P1 > 500 || P0 < 2 || P0 > 1500 || Tl < 274 || Tl > 400 || Tg < 280 || Tg > 600) break; double want; double Ts;
        if (q > 0) { Ts = gp->getSaturationTemperature(P1); want = q / std::max(lp->getSpecificEnthalpy(Ts) - lp->getSpecificEnthalpy(Tl) + lp->getHeatOfVaporization(Ts) * 1000, 1.2e-7); } else { Ts = lp->getSaturationTemperature(P0); want = q / std::max(g.fl(1)->computeSpecificEnthalpy(Tg, P1) - g.fl(1)->computeSpecificEnthalpy(Ts, P1) + gp->getHeatOfVaporization(Ts) * 1000, 1.2e-7); }
        const Rig::Ledger A = g.ledger(); std::vector<double> ds(g.mix.n(), 0.0), dtc; const double wt = std::fabs(want) > 2.3e-14 ? want : 0; if (std::fabs(want) * dt > 0.1 * g.fl(1)->getMass() || want < 0 ? -want * dt > 0.3 * A.s[hi] : want * dt > 0.3 * A.s[wi]) { c.count("too_large"); break; } ds[wi] = -wt * dt; ds[hi] = wt * dt;
        const bool pure = g.fl(1)->getMassFraction(hi) == 1.0; const double Tsg = gp->getSaturationTemperature(P1), Tsl = lp->getSaturationTemperature(P0); (void)Tsg; (void)Tsl; g.net.step(dt); const Rig::Ledger B = g.ledger(); c.count("steps"); NEAR(x->getFlowRate(), want, 1e-9, 1e-18, "phase-rate", mon::fmt("phase change rate for %.6g W", q)); const double e = g.eps(dt);
        for (int k = 0; k < g.mix.n(); ++k) NEAR(B.s[k], A.s[k] + ds[k], 0, 1e-9 * A.m + e, "phase-species", mon::fmt("mass of constituent %d (moved %.6g)", k, ds[k])); NEAR(B.m, A.m, 1e-9, e, "phase-mass", "total mass");
        // the liquid side keeps its temperature as it boils, and receives saturated liquid when it condenses; the gas side likewise
        double dE = 0; if (wt > 0) dE = -wt * lp->getSpecificEnthalpy(Tl) + wt * gp->getSpecificEnthalpy(gp->getSaturationTemperature(g.P(1))); else if (wt < 0) dE = -wt * lp->getSpecificEnthalpy(lp->getSaturationTemperature(g.P(0))) + wt * gp->getSpecificEnthalpy(Tg);
        NEAR(B.e, A.e + dE * dt, 0, 3e-7 * A.eAbs + e * 1e6 + 1e-4 * std::fabs(dE * dt), "phase-energy", mon::fmt("energy of both nodes (moved %.6g)", wt * dt)); CHK(q == 0 || want * q > 0, "phase-sign", "direction of the phase change"); c.hit(400 + (q > 0) - (q < 0) + 4 * mf + 8 * pure); }
}

MON_PROP2(F16, fire, "fire: burning, starved, blocked, trace compounds") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> types{FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}; if (r.p(0.7)) types.push_back(FP::GUNNS_N2); r.shuffle(types); Rig g(r, 1, types, r.p(0.6) ? r.i(1, 4) : 0, false, false, 0.5, 100); auto ix = [&](FP::FluidType t) { return int(std::find(types.begin(), types.end(), t) - types.begin()); }; const int io = ix(FP::GUNNS_O2), ic = ix(FP::GUNNS_CO2), ih = ix(FP::GUNNS_H2O), nt = g.mix.nTc();
    for (auto& s : g.init) { s.T = r.uni(270, 450); s.P = r.uni(20, 200); } g.make(r); std::vector<double> tcr(nt); for (auto& v : tcr) v = r.p(0.3) ? 0 : r.logu(1e-13, 1e-9); const double o2 = r.logu(1e-9, 1e-7), co2 = r.p(0.1) ? 0 : r.logu(1e-9, 1e-7), h2o = r.p(0.1) ? 0 : r.logu(1e-9, 1e-7); const double minO2 = r.p(0.3) ? 0 : r.uni(0, 60); bool on = r.p(0.7), mf = r.p(0.15); double heat = r.p(0.1) ? 0 : r.logu(1, 5e3), mv = r.u(); if (std::fabs(co2 + h2o - o2) < 1e-3 * (co2 + h2o + o2) || (co2 + h2o - o2) * (co2 / 44 + h2o / 18 - o2 / 32) <= 0 || std::fabs(co2 / 44 + h2o / 18 - o2 / 32) < 1e-4 * (co2 + h2o + o2)) return; const bool bad = r.p(0.03);
    GunnsFluidFireSource* x = g.add(new GunnsFluidFireSource); bool threw = false; try { x->initialize(GunnsFluidFireSourceConfigData("x", &g.list, bad ? 0 : o2, bad ? 0 : co2, bad ? 0 : h2o, minO2, nt ? tcr.data() : 0), GunnsFluidFireSourceInputData(mf, mv, on, heat), g.links, 0); } catch (const TsInitializationException&) { threw = true; } CHK(threw == bad, "fire-refuse", "fire without any products or consumption"); if (threw) { c.hit(9); return; } g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1;
    c.note = mon::fmt("O2 %.3g CO2 %.3g H2O %.3g min %.3g heat %.3g", o2, co2, h2o, minO2, heat);
    for (int t = 0; t < r.i(3, 40) && !c.failed(); ++t) { if (r.p(0.15)) { on = r.p(0.6); heat = r.p(0.1) ? 0 : r.logu(1, 5e3); x->setMalfFire(on, heat); } if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); }
        const double pO2 = g.fl(0)->getPartialPressure(FP::GUNNS_O2), T = g.fl(0)->getTemperature(); if (std::fabs(pO2 - minO2) < 1e-9 * (1 + minO2) || T > 1500 || T < 200) break; const bool burn = on && pO2 > minO2; const double sc = burn ? heat * (mf ? 1 - mv : 1) : 0; const Rig::Ledger A = g.ledger(); std::vector<double> ds(g.mix.n(), 0.0), dtc(nt, 0.0); ds[io] = -o2 * sc * dt; ds[ic] = co2 * sc * dt; ds[ih] = h2o * sc * dt; double net = ds[io] + ds[ic] + ds[ih]; const bool moves = std::fabs(net / dt) > 2.3e-14; if (!moves) for (auto& v : ds) v = 0;
        // trace compounds are per unit of unblocked fire, carried by the bulk flow
        for (int k = 0; k < nt; ++k) dtc[k] = moves ? tcr[k] * sc * dt : 0; if (big(A, ds) || sc * dt > 100 * g.fl(0)->getMass() * g.fl(0)->getSpecificHeat()) { c.count("too_large"); break; } if (burn && heat * dt > 100 * g.fl(0)->getMass() * g.fl(0)->getSpecificHeat()) break;
        g.net.step(dt); const Rig::Ledger B = g.ledger(); c.count("steps"); c.note = mon::fmt("O2 %.3g CO2 %.3g H2O %.3g min %.3g heat %.3g scale %.3g block %d %.3g net %.3g", o2, co2, h2o, minO2, heat, sc, mf, mv, net); CHK(x->mMalfFireFlag == burn, "fire-extinguish", mon::fmt("fire %d with O2 %.6g of %.6g kPa", x->mMalfFireFlag, pO2, minO2)); judge(c, g, "fire", A, B, dt, ds, nt && mf ? std::vector<double>(dtc) : dtc, hOf(g, ds, T) + (burn ? heat * dt : 0)); on = burn; c.hit(500 + burn + 2 * mf + 4 * (net > 0) + 8 * (nt > 0)); }
}

namespace {
struct Crew { std::vector<double> n, o2, co2, h2o, q; };
template<class M> void live(mon::Ctx& c, Rig& g, M* x, Crew& w, int ver, const std::vector<double>& organics, const std::vector<ChemicalCompound::Type>& orgT, const std::vector<FP::FluidType>& orgF, double* bias, bool* useBias) {
    mon::Rng& r = c.r; const int ns = int(w.n.size()), n = g.mix.n(), nt = g.mix.nTc(); auto ix = [&](FP::FluidType t) { auto it = std::find(g.mix.types.begin(), g.mix.types.end(), t); return it == g.mix.types.end() ? -1 : int(it - g.mix.types.begin()); }; const int io = ix(FP::GUNNS_O2), ic = ix(FP::GUNNS_CO2), ih = ix(FP::GUNNS_H2O);
    bool mf = false; double mv = 0; const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1;
    for (int t = 0; t < r.i(3, 30) && !c.failed(); ++t) {
        if (r.p(0.3)) { const int a = r.i(0, ns), b = r.i(0, ns); const double k = r.p(0.15) ? -1.0 : r.p(0.5) ? r.i(0, 4) : r.u() * 3; x->transition(k, typename M::MetabolicType(a), typename M::MetabolicType(b)); if (k >= 0) { double m = k; if (a < ns) { m = std::min(k, w.n[a]); w.n[a] -= m; } if (b < ns) w.n[b] += m; } }
        if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (bias && r.p(0.1)) *useBias = !*useBias;
        for (int i = 0; i < ns; ++i) { NEAR(x->getNCrew()[i], w.n[i], 1e-12, 1e-12, "crew-number", mon::fmt("crew members in state %d", i)); w.n[i] = x->getNCrew()[i]; }
        double o2 = 0, co2 = 0, h2o = 0, q = 0, crew = 0; for (int i = 0; i < ns; ++i) { o2 += w.n[i] * w.o2[i]; co2 += w.n[i] * w.co2[i]; h2o += w.n[i] * w.h2o[i]; q += w.n[i] * w.q[i]; crew += w.n[i]; } if (bias && *useBias) { o2 += bias[0]; co2 += bias[1]; h2o += bias[2]; q += bias[3]; }
        const Rig::Ledger A = g.ledger(); const double T = g.fl(0)->getTemperature(); if (T < 200 || T > 600) break; const double have = massOf(g.fl(0), io) / dt; o2 = std::min(o2, have); std::vector<double> ds(n, 0.0), dtc(nt, 0.0); ds[io] -= o2; ds[ic] += co2; ds[ih] += h2o;
        for (size_t k = 0; k < organics.size(); ++k) { const int f = orgF[k] == FP::NO_FLUID ? -1 : ix(orgF[k]); if (f >= 0) ds[f] += crew * organics[k]; for (int j = 0; j < nt; ++j) if (g.mix.tcTypes[j] == orgT[k]) dtc[j] += crew * organics[k]; }
        double net = 0, mol = 0; for (int k = 0; k < n; ++k) { net += ds[k]; mol += ds[k] / g.fl(0)->getProperties(g.mix.types[k])->getMWeight(); } const double sc = mf ? 1 - mv : 1; if (mol <= 1e-12 || mol * 1e3 < net) { c.count("no_net_moles"); break; } if (net <= 1e-14 || (std::fabs(net) < 1e-6 * (o2 + co2 + h2o))) { c.count("no_net_production"); break; } if (net * sc < 1e-13 && sc > 0) { c.count("tiny"); break; } for (auto& v : ds) v *= sc * dt; for (auto& v : dtc) v *= sc * dt;
        if (big(A, ds) || q * dt > 20 * g.fl(0)->getMass() * g.fl(0)->getSpecificHeat()) { c.count("too_large"); if (o2 < have) break; }
        const bool lim = o2 == have; g.net.step(dt); const Rig::Ledger B = g.ledger(); c.count("steps"); NEAR(x->getConsumedO2(), o2, 1e-9, 1e-20, "crew-oxygen", mon::fmt("oxygen consumption (available %.6g)", have)); NEAR(x->getProducedCO2(), co2, 1e-12, 1e-20, "crew-carbon-dioxide", "carbon dioxide production"); NEAR(x->getProducedH2O(), h2o, 1e-12, 1e-20, "crew-water", "water production"); NEAR(x->getProducedHeat(), q, 1e-12, 1e-12, "crew-heat", "heat production");
        if (lim) { c.hit(700 + ver); c.count("oxygen_limited"); break; } judge(c, g, "crew", A, B, dt, ds, dtc, hOf(g, ds, T) + q * dt); c.hit(600 + mon::mix(ver, mf + 2 * (bias && *useBias) + 4 * (nt > 0) + 8 * (crew > 0)));
    }
}
Crew crewOf(mon::Rng& r, int ns) { Crew w; for (int i = 0; i < ns; ++i) { w.n.push_back(r.p(0.4) ? 0 : r.p(0.7) ? r.i(0, 6) : r.uni(0, 5)); const double k = r.uni(0.5, 3); w.o2.push_back(r.p(0.1) ? 0 : 8e-6 * k); w.co2.push_back(1e-5 * k * r.uni(0.9, 1.5)); w.h2o.push_back(r.p(0.1) ? 0 : 1.5e-5 * k); w.q.push_back(70 * k); } return w; }
}
MON_PROP2(F16, crew, "metabolic model 1, 2 or 3: crew states, oxygen limit, blockage, bias, organics") {
    mon::Rng& r = c.r; const int ver = r.i(1, 3); std::vector<FP::FluidType> types{FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O, FP::GUNNS_N2}; if (ver > 1) { for (auto t : {FP::GUNNS_NH3, FP::GUNNS_CO, FP::GUNNS_H2, FP::GUNNS_CH4}) if (r.p(0.3)) types.push_back(t); } r.shuffle(types); Rig g(r, 1, types, r.p(0.6) ? r.i(1, 8) : 0, false, false, 0.5, 100); for (auto& s : g.init) { s.T = r.uni(270, 350); s.P = r.uni(50, 120); }
    if (r.p(0.12)) { State& s = g.init[0]; const size_t io = size_t(std::find(types.begin(), types.end(), FP::GUNNS_O2) - types.begin()); double t = 0; s.x[io] = 0; for (double v : s.x) t += v; if (t <= 0) { s.x[io ? 0 : 1] = 1; t = 1; } const double f = r.p(0.3) ? 0 : r.logu(1e-9, 1e-6); for (auto& v : s.x) v *= (1 - f) / t; s.x[io] = f; } g.make(r);
    bool mf = false; c.note = mon::fmt("model %d crew", ver); (void)mf;
    if (ver == 1) { Crew w = crewOf(r, 4); const double ss = r.u(), sr = 1 + r.u(), se = sr + r.u() * 3; const double sc[4] = {1, ss, sr, se}; for (int i = 0; i < 4; ++i) { w.o2[i] = w.o2[0] * sc[i]; w.co2[i] = w.co2[0] * sc[i]; w.h2o[i] = w.h2o[0] * sc[i]; w.q[i] = w.q[0] * sc[i]; } GunnsFluidMetabolic* x = g.add(new GunnsFluidMetabolic);
        const int bad = r.p(0.05) ? r.i(0, 3) : -1; bool threw = false; try { x->initialize(GunnsFluidMetabolicConfigData("x", &g.list, bad == 0 ? -1e-6 : w.o2[0], w.co2[0], w.h2o[0], w.q[0], bad == 1 ? 1.1 : ss, sr, bad == 2 ? sr * 0.9 : se), GunnsFluidMetabolicInputData(false, 0, 0, w.n[0], w.n[1], w.n[2], bad == 3 ? -1.0 : w.n[3]), g.links, g.ground(), 0); } catch (const TsInitializationException&) { threw = true; } CHK(threw == (bad >= 0), "crew-refuse", mon::fmt("bad configuration %d", bad)); if (threw) return; g.start(); live(c, g, x, w, 1, {}, {}, {}, 0, 0); return; }
    std::vector<double> org; for (int i = 0; i < 14; ++i) org.push_back(r.p(0.3) ? 0 : r.logu(1e-12, 1e-9)); typedef ChemicalCompound CC; const std::vector<CC::Type> orgT{CC::CH4O, CC::C2H6O, CC::C4H10O, CC::CH2O, CC::C2H4O, CC::C6H6, CC::C7H8, CC::C8H10, CC::CH2CL2, CC::C3H6O, CC::NH3, CC::CO, CC::H2, CC::CH4}; std::vector<FP::FluidType> orgF(14, FP::NO_FLUID); orgF[10] = FP::GUNNS_NH3; orgF[11] = FP::GUNNS_CO; orgF[12] = FP::GUNNS_H2; orgF[13] = FP::GUNNS_CH4; double bias[4] = { r.uni(-1e-6, 3e-6), r.uni(-1e-6, 3e-6), r.uni(-1e-6, 3e-6), r.uni(-10, 20) }; bool ub = false;
#define ORG(f) { f.mCH4OProductionRate = org[0]; f.mC2H6OProductionRate = org[1]; f.mC4H10OProductionRate = org[2]; f.mCH2OProductionRate = org[3]; f.mC2H4OProductionRate = org[4]; f.mC6H6ProductionRate = org[5]; f.mC7H8ProductionRate = org[6]; f.mC8H10ProductionRate = org[7]; f.mCH2CL2ProductionRate = org[8]; f.mC3H6OProductionRate = org[9]; f.mNH3ProductionRate = org[10]; f.mCOProductionRate = org[11]; f.mH2ProductionRate = org[12]; f.mCH4ProductionRate = org[13]; }
#define ST(f, i, S) { f.mO2ConsumptionRate_##S = w.o2[i]; f.mCO2ProductionRate_##S = w.co2[i]; f.mH2OProductionRate_##S = w.h2o[i]; f.mHeatProductionRate_##S = w.q[i]; }
    if (ver == 2) { struct X2 : GunnsFluidMetabolic2 { double* b(int i) { double* p[4] = {&mO2ConsumptionBias, &mCO2ProductionBias, &mH2OProductionBias, &mHeatProductionBias}; return p[i]; } bool* ub() { return &mShouldApplyBias; } }; Crew w = crewOf(r, 8); X2* x = g.add(new X2); GunnsFluidMetabolic2ConfigData cf("x", &g.list); ORG(cf) ST(cf, 0, Nominal) ST(cf, 1, Sleep) ST(cf, 2, Recovery0) ST(cf, 3, Recovery1) ST(cf, 4, Recovery2) ST(cf, 5, Recovery3) ST(cf, 6, Exercise0) ST(cf, 7, Exercise1)
        x->initialize(cf, GunnsFluidMetabolic2InputData(false, 0, 0, w.n[0], w.n[1], w.n[2], w.n[3], w.n[4], w.n[5], w.n[6], w.n[7]), g.links, g.ground(), 0); for (int i = 0; i < 4; ++i) *x->b(i) = bias[i]; g.start(); (void)ub; live(c, g, static_cast<GunnsFluidMetabolic2*>(x), w, 2, org, orgT, orgF, bias, x->ub()); }
    else { Crew w = crewOf(r, 12); GunnsFluidMetabolic3* x = g.add(new GunnsFluidMetabolic3); GunnsFluidMetabolic3ConfigData cf("x", &g.list); ORG(cf) ST(cf, 0, Nominal) ST(cf, 1, Sleep) ST(cf, 2, Recovery0) ST(cf, 3, Recovery1) ST(cf, 4, Recovery2) ST(cf, 5, Recovery3) ST(cf, 6, Aerobic0) ST(cf, 7, Aerobic1) ST(cf, 8, Resistive0) ST(cf, 9, Resistive1) ST(cf, 10, Resistive2) ST(cf, 11, Resistive3)
        x->initialize(cf, GunnsFluidMetabolic3InputData(false, 0, 0, w.n[0], w.n[1], w.n[2], w.n[3], w.n[4], w.n[5], w.n[6], w.n[7], w.n[8], w.n[9], w.n[10], w.n[11]), g.links, g.ground(), 0); g.start(); live(c, g, x, w, 3, org, orgT, orgF, 0, 0); }
}
RESTART_PROP(source)
