// Separators, adsorbers and membranes (F14): what they take from the flow is what they hold or hand on.
#include "rig.hpp"
#include "aspects/fluid/source/GunnsFluidSeparatorGas.hh"
#include "aspects/fluid/source/GunnsFluidSeparatorLiquid.hh"
#include "aspects/fluid/source/GunnsFluidHotAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidMultiAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidSelectiveMembrane.hh"
#include "core/GunnsFluidUtils.hh"
using namespace rig;
namespace {
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }
struct XSg : GunnsFluidSeparatorGas { double err() const { return mLiquidMassError; } double rate() const { return mSeparationRate; } double rh() const { return mRelativeHumidity; } double dp() const { return mLiquidDeltaP; } PolyFluid* in() { return mInternalFluid; } void speed(double v) { mSeparatorSpeed = v; } void transfer(double v) { mTransferFlowRate = v; } double sv(int i) const { return mSourceVector[i]; } };
struct XSl : GunnsFluidSeparatorLiquid { void press(double v) { mSourcePressure = v; } void temp(double v) { mTransferTemperature = v; } };
template<class B> struct XA : B { double rate() const { return this->mSorbtionFlowRate; } double heat() const { return this->mWallHeatFlux; } double* tc() { return this->mTcAdsorbedMass; } double sv(int i) const { return this->mSourceVector[i]; } bool cyc() const { return this->mDesorbtionCycle; } void cyc(bool v) { this->mDesorbtionCycle = v; } PolyFluid* in() { return this->mInternalFluid; } };
struct XM : GunnsFluidMultiAdsorber { double heat() const { return mWallHeatFlux; } double sorb() const { return mSorptionHeat; } double sv(int i) const { return mSourceVector[i]; } PolyFluid* in() { return mInternalFluid; } double pot(int i) const { return mPotentialVector[i]; } unsigned n() const { return mNCompounds; } };
struct XMem : GunnsFluidSelectiveMembrane { double rate() const { return mMembraneFlowRate; } double heat() const { return mPhaseChangeHeat; } double sv(int i) const { return mSourceVector[i]; } bool pc() const { return mPhaseChange; } };
// judge a step against explicit changes of each species (kg), trace compound (kg) and energy (J)
void judge(mon::Ctx& c, Rig& g, const char* key, const Rig::Ledger& A, const Rig::Ledger& B, double dt, const std::vector<double>& ds, const std::vector<double>& dtc, double dE, double tolE = 0) {
    const double e = g.eps(dt); double dm = 0; for (double v : ds) dm += v;
    NEAR(B.m, A.m + dm, 1e-9, e, std::string(key) + "-mass", mon::fmt("%s: total mass", key));
    for (int k = 0; k < g.mix.n(); ++k) NEAR(B.s[k], A.s[k] + ds[k], 0, 1e-9 * A.m + e, std::string(key) + "-species", mon::fmt("%s: mass of constituent %d (device took %.6g)", key, k, -ds[k]));
    for (int k = 0; k < g.mix.nTc(); ++k) NEAR(B.t[k], A.t[k] + dtc[k], 1e-8, 1e-6 * e + 1e-13 * A.m + 1e-8 * std::fabs(dtc[k]), std::string(key) + "-trace", mon::fmt("%s: mass of trace compound %d (device took %.6g)", key, k, -dtc[k]));
    NEAR(B.e, A.e + dE, 0, 3e-7 * A.eAbs + e * ((A.m > 0 ? A.eAbs / A.m : 0) + 1e6) + 1e-9 * std::fabs(dE) + tolE, std::string(key) + "-energy", mon::fmt("%s: total energy (added %.6g)", key, dE));
}
bool over(mon::Ctx& c, Rig& g, const Rig::Ledger& A, double dt, double lim) {   // any tank moved too much of its content for a one-step judgement
    if (g.over(c, A, dt)) return true; for (auto* l : g.links) { (void)l; } (void)lim; return false; }
}

MON_PROP2(F14, gassep, "gas water separator: flow direction, condensing, overflow, transfer") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> types = gases(); r.shuffle(types); types.erase(std::remove(types.begin(), types.end(), FP::GUNNS_H2O), types.end()); types.resize(size_t(r.i(1, 3))); types.insert(types.begin() + r.i(0, int(types.size())), FP::GUNNS_H2O);
    Rig g(r, 2, types, r.p(0.5) ? r.i(1, 3) : 0, false, r.p(0.8)); const int wi = int(std::find(types.begin(), types.end(), FP::GUNNS_H2O) - types.begin());
    for (auto& s : g.init) if (r.p(0.6)) { s.T = r.uni(280, 340); s.P = r.uni(20, 300); double t = 0; for (size_t k = 0; k < s.x.size(); ++k) if (int(k) != wi) t += s.x[k]; const double w = r.uni(0, 0.3); if (t > 0) { for (size_t k = 0; k < s.x.size(); ++k) s.x[k] = int(k) == wi ? w : s.x[k] / t * (1 - w); } }
    g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a; const double G = r.logu(1e-5, 1e-2), exp = r.uni(0.1, 3), cap = r.logu(1e-4, 5), sref = r.logu(1, 1e4), pref = r.logu(0.1, 500), rref = r.logu(1e-6, 1e-1);
    double speed = r.p(0.2) ? 0 : sref * r.uni(0.1, 1.5), tr = r.p(0.5) ? 0 : r.logu(1e-7, 1e-2), liq = r.p(0.4) ? 0 : r.p(0.1) ? cap * 1.0 : cap * r.u();
    XSg* x = g.add(new XSg); x->initialize(GunnsFluidSeparatorGasConfigData("x", &g.list, G, FP::GUNNS_H2O, exp, cap, sref, pref, rref), GunnsFluidSeparatorGasInputData(false, 0, speed, tr, liq), g.links, a, b); g.start();
    c.note = mon::fmt("G %.3g exp %.3g cap %.3g ref (%.3g, %.3g, %.3g) P (%.4g, %.4g)", G, exp, cap, sref, pref, rref, g.init[a].P, g.init[b].P); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; const int steps = r.i(5, 40); bool blk = false;
    const FP* pr = g.fl(0)->getProperties(FP::GUNNS_H2O);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.1)) { speed = r.p(0.2) ? 0 : sref * r.uni(0.1, 2); x->speed(speed); } if (r.p(0.1)) { tr = r.p(0.4) ? 0 : r.logu(1e-7, 1e-2); x->transfer(tr); } if (r.p(0.05)) { blk = !blk; x->setMalfBlockage(blk, r.p(0.5) ? 1.0 : r.u()); }
        const double l0 = x->getLiquidMass(), e0 = x->err(); const Rig::Ledger A = g.ledger(); const double svx = x->sv(1); (void)svx; g.net.step(dt); const Rig::Ledger B = g.ledger(); const double fr = x->getFlowRate(), sep = x->rate(), l1 = x->getLiquidMass(), e1 = x->err();
        if (over(c, g, A, dt, 0)) break; c.count("steps");
        if (g.mix.nTc() && sep > 0 && fr - sep < 1e-6 * fr) { c.count("nothing_carries_trace"); break; } std::vector<double> ds(g.mix.n(), 0.0), dtc(g.mix.nTc(), 0.0); ds[wi] = -sep * dt; judge(c, g, "separator", A, B, dt, ds, dtc, -sep * dt * pr->getSpecificEnthalpy(x->in()->getTemperature()));
        NEAR(l1, l0 + sep * dt - tr * dt + (e1 - e0), 1e-12, 1e-14, "separator-liquid", mon::fmt("liquid held: was %.6g, separated %.6g, transferred %.6g, shortage %.6g", l0, sep * dt, tr * dt, e1 - e0)); CHK(l1 >= 0 && e1 >= e0, "separator-liquid", mon::fmt("liquid %g error %g", l1, e1)); NEAR(e1 - e0, std::max(0.0, tr * dt - l0), 1e-9, 1e-12, "separator-shortage", "liquid mass shortage");
        const double rh = x->in()->getPartialPressure(FP::GUNNS_H2O) / pr->getSaturationPressure(x->in()->getTemperature()); NEAR(x->rh(), rh, 1e-9, 1e-12, "separator-humidity", "relative humidity of the flow");
        const double avail = x->in()->getMassFraction(wi) * fr, cond = std::min(avail, rref * speed / sref), lLeft = std::max(0.0, l0 - tr * dt), room = cap - lLeft; const bool dry = fr < 2.3e-14 || x->rh() < 1;
        if (dry) { CHK(sep == 0, "separator-dry", mon::fmt("separates %g with flow %g and humidity %g", sep, fr, x->rh())); CHK(!x->getLiquidOverflow(), "separator-overflow", "overflow without condensation"); }
        else { const double want = std::min(cond, room / dt); NEAR(sep, want, 1e-9, 1e-15, "separator-rate", mon::fmt("separation rate with %.6g available, removal limit %.6g, room %.6g", avail, rref * speed / sref, room)); if (std::fabs(cond * dt - room) > 1e-12) CHK(x->getLiquidOverflow() == (cond * dt > room), "separator-overflow", mon::fmt("overflow flag %d with %g condensed and room for %g", x->getLiquidOverflow(), cond * dt, room)); if (sep > 0) { c.count("condensing"); c.hit(mon::mix(cond * dt > room, avail < rref * speed / sref) * 2 + (tr > 0)); } }
        NEAR(x->dp(), pref * speed / sref * std::pow(l1 / cap, exp), 1e-9, 1e-12, "separator-head", "pressure head of the liquid"); NEAR(x->getTransferPressure(), g.P(a) + x->dp(), 1e-9, 1e-9, "separator-transfer-pressure", "transfer pressure"); NEAR(x->getTransferTemperature(), g.fl(a)->getTemperature(), 1e-9, 0, "separator-transfer-temperature", "transfer temperature");
        c.hit(mon::mix(dry, fr > 0) + 100); }
}

MON_PROP2(F14, liqsep, "liquid side of a separator: in and out flow, pressures") {
    mon::Rng& r = c.r; const bool amm = false; const FP::FluidType lt = amm ? FP::GUNNS_AMMONIA : FP::GUNNS_WATER; Rig g(r, 1, std::vector<FP::FluidType>{lt}, r.p(0.3) ? 1 : 0, true, false); g.make(r); const double G = r.logu(1e-7, 1e-3); double P = r.uni(50, 1000), T = r.uni(285, 345);
    XSl* x = g.add(new XSl); x->initialize(GunnsFluidSeparatorLiquidConfigData("x", &g.list, G, 0.0, lt), GunnsFluidSeparatorLiquidInputData(false, 0, P, T), g.links, g.ground(), 0); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; const FP* pr = g.fl(0)->getProperties(lt);
    for (int t = 0; t < r.i(5, 25) && !c.failed(); ++t) { if (r.p(0.3)) { P = r.p(0.2) ? 0 : r.uni(50, 1000); x->press(P); } if (r.p(0.3)) { T = r.uni(285, 345); x->temp(T); } const double Tt = g.fl(0)->getTemperature(); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; const double fr = x->getFlowRate();
        CHK(fr * (P - g.P(0)) >= 0 || std::fabs(P - g.P(0)) < 1e-6 * (P + g.P(0)), "liquid-direction", mon::fmt("flow %g from source pressure %g into tank at %g", fr, P, g.P(0)));
        const double e = g.eps(dt); NEAR(B.m, A.m + fr * dt, 1e-9, e, "liquid-mass", "liquid mass delivered"); NEAR(B.e, A.e + fr * dt * pr->getSpecificEnthalpy(fr > 0 ? T : Tt), 0, 3e-7 * A.eAbs + e * 1e6, "liquid-energy", "energy delivered at the transfer temperature"); c.hit(200 + (fr > 0) + 2 * (P == 0)); }
}

MON_PROP2(F14, adsorber, "adsorber or temperature driven adsorber: direction, cycle, limits, malfunction") {
    mon::Rng& r = c.r; const bool hot = r.p(0.4); Rig g(r, 2, r.i(2, 4), r.p(0.6) ? r.i(1, 4) : 0, false, r.p(0.8)); g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a, gi = r.i(0, g.mix.n() - 1), nt = g.mix.nTc(); const double G = r.logu(1e-5, 1e-2);
    const double eff = r.p(0.2) ? 1.0 : r.u(), maxRate = r.p(0.3) ? 10.0 : r.logu(1e-6, 1e-2), cap = r.logu(1e-4, 10), des = r.logu(1e-6, 1e-2), ads = cap * (r.p(0.3) ? 0.0 : r.u()), len = r.p(0.4) ? 0 : r.logu(0.01, 2), dia = r.uni(0.01, 0.1), wall = r.uni(250, 400); bool cyc = r.p(0.4);
    std::vector<double> te(nt), tm(nt), ta(nt); for (int i = 0; i < nt; ++i) { te[i] = r.p(0.3) ? 0 : r.p(0.2) ? 1.0 : r.u(); tm[i] = r.p(0.3) ? 0 : r.logu(1e-7, 1); ta[i] = r.p(0.5) ? 0 : tm[i] * r.u(); } GunnsFluidTraceCompoundsInputData ti(te.data()), tj(tm.data()), tk(ta.data()); const bool tcs = nt > 0;
    double bias = r.uni(-3, 3), scl = r.sgn() * r.logu(1e-4, 2e-2); if (hot && r.p(0.5)) { scl = -r.logu(1e-3, 2e-2); bias = -scl * r.uni(280, 360); }
    XA<GunnsFluidAdsorber>* xa = 0; XA<GunnsFluidHotAdsorber>* xh = 0; GunnsFluidAdsorber* x = 0; const FP::FluidType gt = g.mix.types[gi];
    if (!hot) { x = xa = g.add(new XA<GunnsFluidAdsorber>); xa->initialize(GunnsFluidAdsorberConfigData("x", &g.list, G, 0.0, gt, eff, maxRate, cap, des, len, dia, 1e-6), GunnsFluidAdsorberInputData(false, 0, cyc, ads, wall, tcs ? &ti : 0, tcs ? &tj : 0, tcs ? &tk : 0), g.links, a, b); }
    else { x = xh = g.add(new XA<GunnsFluidHotAdsorber>); xh->initialize(GunnsFluidHotAdsorberConfigData("x", &g.list, G, 0.0, gt, eff, maxRate, cap, des, len, dia, 1e-6, bias, scl), GunnsFluidHotAdsorberInputData(false, 0, cyc, ads, wall, tcs ? &ti : 0, tcs ? &tj : 0, tcs ? &tk : 0), g.links, a, b); }
    g.start(); c.note = mon::fmt("%s %d eff %.3g rate %.3g cap %.3g des %.3g held %.3g len %.3g bias %.3g scale %.3g P (%.4g, %.4g)", hot ? "hot" : "plain", gi, eff, maxRate, cap, des, ads, len, bias, scl, g.init[a].P, g.init[b].P);
#define GX(m) (xa ? xa->m : xh->m)
    const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; const int steps = r.i(5, 40); bool mf = false; double mv = 0, wT = wall; const FP* pr = g.fl(0)->getProperties(gt);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (!hot && r.p(0.15)) { cyc = !cyc; xa->cyc(cyc); } if (r.p(0.1)) { mf = !mf; mv = r.p(0.2) ? 0 : r.u() * ((hot ? r.p(0.5) : cyc) ? -1 : 1); x->setMalfEfficiency(mf, mv); } if (!hot && mf && (mv < 0) != cyc) { mv = -mv; x->setMalfEfficiency(mf, mv); } if (r.p(0.1)) { wT = r.uni(250, 400); x->setWallTemperature(wT); } if (r.p(0.05)) x->setMalfBlockage(r.p(0.5), r.p(0.5) ? 1.0 : r.u());
        const double m0 = x->getAdsorbedMass(); std::vector<double> t0(nt); for (int i = 0; i < nt; ++i) t0[i] = GX(tc())[i]; const Rig::Ledger A = g.ledger(); std::vector<double> y0(nt), y1(nt); for (int i = 0; i < nt; ++i) { y0[i] = g.fl(a)->getTraceCompounds()->getMoleFractions()[i]; y1[i] = g.fl(b)->getTraceCompounds()->getMoleFractions()[i]; }
        g.net.step(dt); const Rig::Ledger B = g.ledger(); if (over(c, g, A, dt, 0)) break; const double fr = x->getFlowRate(), rate = GX(rate()), m1 = x->getAdsorbedMass(), q = GX(heat()); c.count("steps"); const bool idle = std::fabs(rate) <= 2.3e-14;
        if (nt && std::fabs(fr) - (m1 - m0) / dt < 1e-6 * std::fabs(fr)) { c.count("nothing_carries_trace"); break; } std::vector<double> ds(g.mix.n(), 0.0), dtc(nt, 0.0); ds[gi] = -(m1 - m0); for (int i = 0; i < nt; ++i) dtc[i] = -(GX(tc())[i] - t0[i]);
        judge(c, g, "adsorber", A, B, dt, ds, dtc, -q * dt - (m1 - m0) * pr->getSpecificEnthalpy(GX(in())->getTemperature()));
        NEAR(rate, -(m1 - m0) / dt, 1e-9, 1e-13 * cap / dt, "adsorber-rate", "sorption flow rate against the change of adsorbed mass"); CHK(m1 >= 0 && m1 <= std::max(cap, m0) * (1 + 1e-12), "adsorber-range", mon::fmt("adsorbed mass %g of %g", m1, cap));
        double ef = hot ? clamp(-1, bias + scl * GX(in())->getTemperature(), 1) : cyc ? -1 : eff; if (mf) ef = mv; const bool desorb = hot ? ef < 0 : cyc;
        const double want = desorb ? -std::max(0.0, std::min(m0, -ef * des * dt)) : std::max(0.0, std::min(GX(in())->getMassFraction(gi) * std::fabs(fr) * dt * ef, std::min(maxRate * dt, cap - m0)));
        NEAR(m1 - m0, want, 1e-9, 1e-13 * cap, "adsorber-amount", mon::fmt("mass %s in the step (flow %.6g, efficiency %.4g)", desorb ? "desorbed" : "adsorbed", fr, ef));
        const int ex = fr >= 0 ? 1 : 0; if (idle) CHK(std::fabs(GX(sv(0))) < 1e-12 && std::fabs(GX(sv(1))) < 1e-12, "adsorber-source-stale", mon::fmt("no sorption but the network is still given a source of (%g, %g) mol", GX(sv(0)), GX(sv(1)))); else { NEAR(GX(sv(ex)), rate / pr->getMWeight(), 1e-9, 1e-13, "adsorber-source", "molar source at the exit port"); CHK(GX(sv(1 - ex)) == 0, "adsorber-source", "molar source at the inlet port"); }
        for (int i = 0; i < nt; ++i) { double w = 0; if (!desorb && std::fabs(fr) > 3e-14) { double e2 = te[i]; if (tm[i] > 2.3e-16) e2 *= std::max(0.0, (tm[i] - t0[i]) / tm[i]); if (e2 > 2.3e-16) w = e2 * (fr > 0 ? y0[i] : y1[i]) * std::fabs(x->getFlux()) * g.mix.comps.getCompound(g.mix.tcTypes[i])->mMWeight * dt; } NEAR(GX(tc())[i] - t0[i], w, 1e-7, 1e-15 + 1e-13 * t0[i], "adsorber-trace-amount", mon::fmt("trace compound %d adsorbed (flow %.4g)", i, fr)); }
        c.hit(mon::mix(hot * 2 + desorb, (fr > 0) * 4 + idle * 2 + mf) * 2 + (nt > 0)); if (!idle) c.count("sorbing"); }
}

MON_PROP2(F14, multi, "multi compound adsorber: fluid and trace compounds, adsorb or desorb, direction") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> pool{FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O, FP::GUNNS_NH3}; r.shuffle(pool); pool.resize(size_t(r.i(2, 4))); Rig g(r, 2, pool, r.p(0.6) ? r.i(1, 4) : 0, false, r.p(0.8)); g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a, nt = g.mix.nTc();
    std::vector<ChemicalCompound::Type> ct; DefinedChemicalCompounds dc; for (int i = 0; i < ChemicalCompound::NO_COMPOUND; ++i) { const ChemicalCompound* q = dc.getCompound(ChemicalCompound::Type(i)); if (!q) continue; for (auto f : pool) if (q->mFluidType == f && r.p(0.6)) ct.push_back(q->mType); } for (auto q : g.mix.tcTypes) if (r.p(0.6)) ct.push_back(q);
    if (ct.empty()) for (int i = 0; i < ChemicalCompound::NO_COMPOUND; ++i) { const ChemicalCompound* q = dc.getCompound(ChemicalCompound::Type(i)); if (q && q->mFluidType == pool[0]) { ct.push_back(q->mType); break; } } if (ct.empty()) { g.start(); return; } r.shuffle(ct);
    GunnsFluidMultiAdsorberConfigData cf("x", &g.list, r.logu(1e-5, 1e-2), 0.0, r.p(0.4) ? 0 : r.logu(0.01, 2), r.uni(0.01, 0.1), 1e-6);
    std::vector<GunnsFluidAdsorptionCompound> k(ct.size()); for (size_t i = 0; i < ct.size(); ++i) { auto& q = k[i]; q.mType = ct[i]; q.mEfficiencyCoeff1 = r.p(0.5) ? 0 : r.sgn() * r.logu(1e-4, 1e-2); q.mEfficiencyCoeff0 = r.uni(-0.2, 1.1) - q.mEfficiencyCoeff1 * 300; q.mMaxAdsorbedMass = r.logu(1e-5, 5); q.mAdsorbedMass = r.p(0.3) ? 0 : r.p(0.1) ? q.mMaxAdsorbedMass : q.mMaxAdsorbedMass * r.u(); q.mDesorbPartialPressure = r.p(0.3) ? 0 : r.logu(1e-4, 50); q.mDesorbRateFactor = r.p(0.1) ? 0 : r.logu(1e-7, 1e-3); q.mHeatOfAdsorption = r.sgn() * r.logu(1e-3, 100); q.mTaperOffFlag = r.p(0.5); q.mBreakthroughExp = r.p(0.4) ? 1 : r.uni(1, 50); q.mMalfEfficiencyFlag = r.p(0.1); q.mMalfEfficiencyValue = r.u(); if (i && r.p(0.25)) q.mDependentType = ct[size_t(r.i(0, int(i) - 1))]; else q.mDependentType = ChemicalCompound::NO_COMPOUND; cf.addCompound(q.mType, q.mMaxAdsorbedMass, q.mEfficiencyCoeff0, q.mEfficiencyCoeff1, q.mDesorbPartialPressure, q.mDesorbRateFactor, q.mHeatOfAdsorption, q.mTaperOffFlag, q.mDependentType, q.mMalfEfficiencyFlag, q.mMalfEfficiencyValue, q.mAdsorbedMass, q.mBreakthroughExp); }
    XM* x = g.add(new XM); double wall = r.uni(250, 400); x->initialize(cf, GunnsFluidMultiAdsorberInputData(false, 0, wall), g.links, a, b); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; const int steps = r.i(5, 40); c.note = mon::fmt("%d compounds of %d fluids %d tc", int(k.size()), g.mix.n(), nt);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.1)) { const size_t i = size_t(r.i(0, int(k.size()) - 1)); x->mCompounds[i].setMalfEfficiency(r.p(0.5), r.u()); } if (r.p(0.05)) x->setMalfBlockage(r.p(0.5), r.p(0.5) ? 1.0 : r.u());
        std::vector<double> m0, f0; for (size_t i = 0; i < k.size(); ++i) { m0.push_back(x->mCompounds[i].mAdsorbedMass); f0.push_back(x->mCompounds[i].mFillFraction); NEAR(f0[i], m0[i] / k[i].mMaxAdsorbedMass, 1e-12, 0, "multi-fill", "fill fraction"); } const double Ta = g.fl(a)->getTemperature(), Tb = g.fl(b)->getTemperature(); std::vector<double> tya, tyb, ya, yb; for (int i = 0; i < nt; ++i) { tya.push_back(g.fl(a)->getTraceCompounds()->getMoleFractions()[i]); tyb.push_back(g.fl(b)->getTraceCompounds()->getMoleFractions()[i]); } for (int i = 0; i < g.mix.n(); ++i) { ya.push_back(g.fl(a)->getMoleFraction(i)); yb.push_back(g.fl(b)->getMoleFraction(i)); }
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); double des = 0; for (size_t i = 0; i < k.size(); ++i) if (!x->mCompounds[i].isTraceCompound()) des += std::fabs(x->mCompounds[i].mAdsorptionRate) * dt; if (over(c, g, A, dt, 0) || des > 0.3 * A.m) break; c.count("steps"); const double fr = x->getFlowRate();
        std::vector<double> ds(g.mix.n(), 0.0), dtc(nt, 0.0); double dE = 0, heat = 0, mol = 0; bool mixed = false; int sgn = 0, nf = 0; const double Tin = x->in()->getTemperature();
        const double tAvg = 0.5 * ((fr < 0 ? Tb : Ta) + Tin), pAvg = 0.5 * (x->pot(0) + x->pot(1));
        for (size_t i = 0; i < k.size(); ++i) { const GunnsFluidAdsorptionCompound& q = x->mCompounds[i]; const double mw = dc.getCompound(q.mType)->mMWeight, got = q.mAdsorbedMass - m0[i]; const int ix = q.getIndex(); const bool tr = q.isTraceCompound(); CHK(q.mAdsorbedMass >= 0 && q.mAdsorbedMass <= q.mMaxAdsorbedMass, "multi-range", mon::fmt("adsorbed mass %g of %g", q.mAdsorbedMass, q.mMaxAdsorbedMass));
            NEAR(got, q.mAdsorptionRate * dt, 1e-9, 3e-16 + 1e-13 * q.mMaxAdsorbedMass, "multi-rate", "adsorbed mass against the adsorption rate"); if (tr) dtc[ix] -= q.mAdsorptionRate * dt; else { ds[ix] -= q.mAdsorptionRate * dt; dE -= q.mAdsorptionRate * dt * g.fl(0)->getProperties(g.mix.types[ix])->getSpecificEnthalpy(Tin); mol -= q.mAdsorptionRate / g.fl(0)->getProperties(g.mix.types[ix])->getMWeight(); ++nf; if (q.mAdsorptionRate != 0) { const int sg = q.mAdsorptionRate > 0 ? 1 : -1; if (sgn && sg != sgn) mixed = true; sgn = sg; } } heat += q.mSorptionHeat; NEAR(q.mSorptionHeat, -q.mHeatOfAdsorption * q.mAdsorptionRate * 1e6 / mw, 1e-9, 0, "multi-heat", "sorption heat");
            // the documented rate
            const double eff = clamp(-1, q.mEfficiencyCoeff0 + q.mEfficiencyCoeff1 * tAvg, 1); const double yy = tr ? (fr < 0 ? tyb : tya)[size_t(ix)] : x->in()->getMoleFraction(ix); const double pp = pAvg * yy; double rate;
            const bool still = std::fabs(fr) <= 2.3e-14; if (still && tr) continue;
            if (pp < q.mDesorbPartialPressure || eff < 0) rate = std::min(0.0, pp - q.mDesorbPartialPressure) * q.mDesorbRateFactor * std::fabs(eff); else rate = eff * (tr ? yy * std::fabs(x->getFlux()) * mw : x->in()->getMassFraction(ix) * std::fabs(fr));
            if (q.mTaperOffFlag) rate *= rate > 0 ? 1 - std::pow(std::max(0.1, f0[i]), clamp(1, q.mBreakthroughExp, 100)) : f0[i];
            if (q.mDependentType != ChemicalCompound::NO_COMPOUND) for (size_t j = 0; j < k.size(); ++j) if (k[j].mType == q.mDependentType) { const double f = j < i ? x->mCompounds[j].mFillFraction : f0[j]; rate *= rate > 0 ? f : 1 - f; }
            if (q.mMalfEfficiencyFlag) rate *= q.mMalfEfficiencyValue; rate = rate > 0 ? std::min(rate, (q.mMaxAdsorbedMass - m0[i]) / dt) : std::max(rate, -m0[i] / dt);
            const bool edge = std::fabs(pp - q.mDesorbPartialPressure) < 1e-9 * pp || std::fabs(eff) < 1e-9; if (!edge) NEAR(q.mAdsorptionRate, rate, 1e-6, 1e-15, tr ? "multi-trace-law" : "multi-law", mon::fmt("adsorption rate of compound %d (efficiency %.4g, partial pressure %.4g of %.4g, fill %.4g)", int(i), eff, pp, q.mDesorbPartialPressure, f0[i])); c.hit(mon::mix(tr * 2 + (rate > 0), q.mTaperOffFlag * 4 + (q.mDependentType != ChemicalCompound::NO_COMPOUND) * 2 + (fr > 0)) * 3 + (rate == 0)); }
        NEAR(x->sorb(), heat, 1e-9, 1e-12, "multi-heat", "total sorption heat"); const double conv = x->heat() - heat;
        if (mixed) c.count("mixed_steps");
        { double tot = 0; for (double v : ds) tot += v / dt; if (nt && std::fabs(fr) > 0 && std::fabs(fr) + tot < 1e-6 * std::fabs(fr)) { c.count("nothing_carries_trace"); break; } }
        judge(c, g, "multi", A, B, dt, ds, dtc, dE - conv * dt, 1e-12 * std::fabs(heat) * dt);
        const int ex = fr < 0 ? 0 : 1; double tot = 0; for (double v : ds) tot += v / dt; if (std::fabs(tot) < 3e-14 && std::fabs(tot) > 1e-14) {} else if (std::fabs(tot) > 2.3e-14) { NEAR(x->sv(ex), mol, 1e-9, 1e-18, "multi-source", "molar source at the exit port"); CHK(x->sv(1 - ex) == 0, "multi-source", "molar source at the inlet"); } else if (nf == 0 || !mixed) CHK(x->sv(0) == 0 && x->sv(1) == 0, "multi-source", "source without sorption"); }
}

MON_PROP2(F14, membrane, "selective membrane: internal flow direction, membrane flow direction, saturation") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> types = gases(); r.shuffle(types); types.resize(size_t(r.i(2, 4))); if (r.p(0.6) && std::find(types.begin(), types.end(), FP::GUNNS_H2O) == types.end()) types[0] = FP::GUNNS_H2O; const int k = r.p(0.6) ? 0 : r.i(0, int(types.size()) - 1); const FP::FluidType mt = types[size_t(k)];
    Rig g(r, 3, types, r.p(0.4) ? r.i(1, 3) : 0, false, r.p(0.8)); if (r.p(0.6)) for (auto& s : g.init) s.T = r.uni(275, 340); g.make(r); const double G = r.logu(1e-6, 1e-3), ab = r.logu(1e-9, 1e-4);
    XMem* x = g.add(new XMem); x->initialize(GunnsFluidSelectiveMembraneConfigData("x", &g.list, G, ab, mt, mt), GunnsFluidSelectiveMembraneInputData(false, 0), g.links, 0, 1, 2); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; const int steps = r.i(5, 40); bool md = false; double mv = 0; const FP* pr = g.fl(0)->getProperties(mt); c.note = mon::fmt("type %d G %.3g coefficient %.3g P (%.4g %.4g %.4g)", int(mt), G, ab, g.init[0].P, g.init[1].P, g.init[2].P);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.1)) { md = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfMembraneDegrade(md, mv); } if (r.p(0.05)) x->setMalfBlockage(r.p(0.5), r.p(0.5) ? 1.0 : r.u());
        const double fx0 = x->getFlux(), fr0 = x->getFlowRate(); double pp[3], T[3]; for (int i = 0; i < 3; ++i) { pp[i] = g.fl(i)->getPartialPressure(mt); T[i] = g.fl(i)->getTemperature(); } (void)fx0;
        double xf[3]; std::vector<double> yt; for (int i = 0; i < 3; ++i) { xf[i] = g.fl(i)->getMassFraction(k); for (int q = 0; q < g.mix.nTc(); ++q) yt.push_back(g.fl(i)->getTraceCompounds()->getMoleFractions()[q]); } const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (over(c, g, A, dt, 0)) break; const double mf = x->rate(); if (std::fabs(mf) * dt > 0.2 * std::min(A.s[k], std::min(massOf(g.fl(0), k) + massOf(g.fl(1), k), massOf(g.fl(2), k)))) break; c.count("steps");
        const double fx = x->getFlux(); const int up = fx >= 0 ? 0 : 1;
        if (mf != 0) { const double hi = std::max(pp[0], pp[1]), lo = std::min(pp[0], pp[1]); CHK(mf > 0 ? lo >= pp[2] * (1 - 1e-9) : hi <= pp[2] * (1 + 1e-9), "membrane-direction", mon::fmt("membrane flow %g with partial pressures inside (%g, %g) outside %g", mf, pp[0], pp[1], pp[2])); const double dp = mf > 0 ? hi - pp[2] : pp[2] - lo; CHK(std::fabs(mf) <= ab * dp * (1 + 1e-9) * (md ? 1 - mv : 1) + 1e-18, "membrane-bound", mon::fmt("membrane flow %g with coefficient %g, difference %g", mf, ab, dp)); if (mf > 0) CHK(mf <= 0.99 * std::fabs(fr0) * std::max(xf[0], xf[1]) * (1 + 1e-9) + 1e-18, "membrane-available", mon::fmt("membrane flow %g with internal flow %g", mf, fr0)); }
        if (!md && pp[0] > pp[2] * (1 + 1e-6) + 1e-9 && pp[1] > pp[2] * (1 + 1e-6) + 1e-9 && std::fabs(fr0) > 1e-9 && std::min(xf[0], xf[1]) > 1e-6) CHK(mf > 0, "membrane-works", mon::fmt("no membrane flow with partial pressures (%g, %g) inside and %g outside and flow %g", pp[0], pp[1], pp[2], fr0)); if (!md && pp[0] < pp[2] * (1 - 1e-6) - 1e-9 && pp[1] < pp[2] * (1 - 1e-6) - 1e-9 && pp[2] > 1e-9) CHK(mf < 0, "membrane-works", mon::fmt("no return flow with partial pressures (%g, %g) inside and %g outside", pp[0], pp[1], pp[2]));
        const double e = g.eps(dt); std::vector<double> ds(g.mix.n(), 0.0), dtc(g.mix.nTc(), 0.0); const bool act = std::fabs(mf) > 2.3e-14; const double Tin = mf > 0 ? T[up] : T[2]; (void)Tin; (void)e; const int sp = mf > 0 ? up : 2; if (act && xf[sp] == 1.0) for (int i = 0; i < g.mix.nTc(); ++i) { const double lost = std::fabs(mf) / pr->getMWeight() * yt[size_t(sp * g.mix.nTc() + i)] * g.mix.comps.getCompound(g.mix.tcTypes[size_t(i)])->mMWeight * dt; dtc[size_t(i)] -= lost; if (lost > 1e-6 * A.t[size_t(i)]) c.fail("membrane-pure-trace", mon::fmt("membrane flow out of a node of pure membrane fluid takes %g kg of trace compound %d which nothing receives", lost, i)); }
        if (std::min(g.fl(0)->getTemperature(), std::min(g.fl(1)->getTemperature(), g.fl(2)->getTemperature())) < 130) { c.count("too_cold"); break; } // below the property fits
        { double small = 1e99; for (int i = 0; i < 3; ++i) small = std::min(small, g.fl(i)->getMass() * g.fl(i)->getSpecificHeat() * T[i]); if (std::fabs(x->heat()) * dt > 0.3 * small) { c.count("heat_exceeds_tank"); break; } }
        judge(c, g, "membrane", A, B, dt, ds, dtc, act && x->pc() ? x->heat() * dt : 0.0);
        double s = 0; for (int i = 0; i < 3; ++i) s += x->sv(i); NEAR(s, 0, 0, 1e-12 * std::fabs(x->sv(2)), "membrane-source", "molar sources of the membrane cancel"); NEAR(x->sv(2), mf / pr->getMWeight(), 1e-9, 0, "membrane-source", "molar source outside");
        // outside tank gains exactly the membrane flow and the disturbances
        c.hit(mon::mix(mf > 0 ? 2 : mf < 0 ? 1 : 0, fx > 0 ? 1 : 0) * 4 + x->pc() * 2 + md); }
}
RESTART_PROP(sorb)
