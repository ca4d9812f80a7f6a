// Heat exchangers, condensing heat exchangers, phase and type changing conductors (F12).
#include "rig.hpp"
#include "aspects/fluid/conductor/GunnsFluidHeatExchanger.hh"
#include "aspects/fluid/conductor/GunnsFluidHxDynHtc.hh"
#include "aspects/fluid/conductor/GunnsFluidCondensingHx.hh"
#include "aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.hh"
#include "aspects/fluid/conductor/GunnsFluidPhaseChangeConductor.hh"
#include "aspects/fluid/conductor/GunnsFluidTypeChangeConductor.hh"
using namespace rig;
namespace {
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }
template<class B> struct XHx : B { double gain(int i) const { return this->mSegEnergyGain[i]; } double htc(int i) const { return this->mSegHtc[i]; } double segT(int i) const { return this->mSegTemperature[i]; } PolyFluid* in() { return this->mInternalFluid; } };
template<class B> struct XChx : B { double heat(int i) const { return this->mSegmentHeat[i]; } double sens() const { return this->mSensibleHeat; } double lat() const { return this->mLatentHeat; } double* seg() { return this->mSegmentTemperature; } double htc() const { return this->mSegmentHtc; } PolyFluid* in() { return this->mInternalFluid; } double src(int i) const { return this->mSourceVector[i]; } };
struct XSep : XChx<GunnsFluidCondensingHxSeparator>, rst::Keep { std::vector<double*> kept() override { return { &mSlurperFlowRate }; } double pool() const { return mHxCondensateMass; } double ws() const { return mWsCondensateMass; } double slurp() const { return mSlurperFlowRate; } SlurperStates st() const { return mSlurperState; } double evap() const { return mWsEvaporationRate; } double drum() const { return mWsDrumSpeed; } double dP() const { return mWsDeltaPressure; } bool over() const { return mLiquidOverflow; } void xfer(double v) { mTransferFlowRate = v; } void motor(double v) { mWsMotorSpeed = v; } double tP() const { return mTransferPressure; } double tT() const { return mTransferTemperature; } };
struct XPc : GunnsFluidPhaseChangeConductor { };
}

MON_PROP2(F12, hx, "kind, flow direction, degrade malfunctions, override") {
    mon::Rng& r = c.r; const bool dyn = r.p(0.5), liq = r.p(0.2); std::vector<FP::FluidType> types = liq ? liquids() : gases(); r.shuffle(types); types.resize(liq ? 1 : r.i(1, 4));
    Rig g(r, 2, types, r.p(0.4) ? r.i(1, 3) : 0, liq, r.p(0.8)); g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a; const double k = r.logu(1e-6, 1e-2) * (liq ? 0.1 : 1); const int n = r.i(1, 6);
    auto temp = [&]() { return liq ? r.uni(285, 350) : r.uni(230, 450); };
    std::vector<double> def(n), segT(n); double T0 = temp(); for (auto& v : segT) v = T0;
    GunnsFluidHxDynHtcConfigData dc("x", &g.list, k, 0.0, n); std::vector<GunnsFluidHxDynHtcSegment> sg(n);
    GunnsFluidHeatExchanger* dev = 0; XHx<GunnsFluidHeatExchanger>* hs = 0; XHx<GunnsFluidHxDynHtc>* hd = 0; double ovr = 0;
    if (!dyn) { const double h = r.logu(0.1, 1000); std::vector<double> over(n); for (int i = 0; i < n; ++i) { over[i] = r.p(0.5) ? -1.0 : r.p(0.1) ? 0.0 : r.logu(0.1, 1000); }
        GunnsFluidHeatExchangerInputData in(false, 0, h, T0); const bool useOver = r.p(0.5); if (useOver) in.mSegmentHtcOverrides = over.data(); if (r.p(0.1)) in.mTemperatureOverride = ovr = temp();
        for (int i = 0; i < n; ++i) def[i] = useOver && over[i] >= 0 ? over[i] : h / n; dev = hs = g.add(new XHx<GunnsFluidHeatExchanger>); hs->initialize(GunnsFluidHeatExchangerConfigData("x", &g.list, k, 0.0, n), in, g.links, a, b); }
    else { const double c0 = r.p(0.3) ? 0 : r.logu(0.1, 500), c1 = r.p(0.2) ? 0 : r.logu(1, 1e5), e = r.p(0.2) ? (r.p(0.5) ? 0.05 : 20) : r.uni(0.1, 3), lim = r.logu(1, 2000);
        for (int i = 0; i < n; ++i) { sg[i].mCoeff0 = c0 / n; sg[i].mCoeff1 = c1 / n; sg[i].mExponent = e; sg[i].mLimit = lim / n; }
        if (r.p(0.5)) for (int i = 0; i < n; ++i) { sg[i].mCoeff0 = r.p(0.3) ? 0 : r.uni(-5, 100); sg[i].mCoeff1 = r.logu(1, 1e5); sg[i].mExponent = r.uni(0.05, 4); sg[i].mLimit = r.logu(1, 2000); dc.addSegment(sg[i].mCoeff0, sg[i].mCoeff1, sg[i].mExponent, sg[i].mLimit); }
        else { dc.mHtcCoeff0 = c0; dc.mHtcCoeff1 = c1; dc.mHtcExponent = e; dc.mHtcLimit = lim; }
        dev = hd = g.add(new XHx<GunnsFluidHxDynHtc>); hd->initialize(dc, GunnsFluidHxDynHtcInputData(false, 0, T0), g.links, a, b); }
    g.start(); c.note = mon::fmt("%s n=%d k=%.3g T=(%.4g,%.4g) P=(%.5g,%.5g) seg %.4g ovr %.4g", dyn ? "dyn" : "hx", n, k, g.init[0].T, g.init[1].T, g.init[0].P, g.init[1].P, T0, ovr);
    const double dt = r.p(0.2) ? r.logu(0.01, 2) : 0.1; const int steps = r.i(5, c.thorough ? 60 : 25); bool blk = false; double blkV = 0, dgV = 0; bool dg = false; std::vector<char> sf(n, 0); std::vector<double> sv(n, 0.0);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt);
        if (r.p(0.1)) { blk = r.p(0.5); blkV = r.p(0.3) ? 1.0 : r.u(); dev->setMalfBlockage(blk, blkV); } if (r.p(0.2)) { dg = r.p(0.6); dgV = r.p(0.2) ? r.uni(-1, 3) : r.u(); dev->setMalfHxDegrade(dg, dgV); }
        if (r.p(0.2)) { const int i = r.i(-1, n); const bool f = r.p(0.6); const double v = r.p(0.2) ? r.uni(-1, 3) : r.u(); dev->setMalfSegDegrade(i, f, v); if (i >= 0 && i < n) { sf[i] = f; sv[i] = v; } }
        if (r.p(0.3)) { const int i = r.i(-1, n); const double v = temp(); dev->setSegTemperature(i, v); if (i >= 0 && i < n) segT[i] = v; } if (r.p(0.05)) { ovr = r.p(0.5) ? 0 : temp(); dev->setTemperatureOverride(ovr); }
        if (g.P(a) < 0.01 || g.P(b) < 0.01) break; std::unique_ptr<PolyFluid> fa(new PolyFluid(*g.fl(a), "fa")), fb(new PolyFluid(*g.fl(b), "fb")); const double Ta = fa->getTemperature(), Tb = fb->getTemperature();
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) { fa->cleanup(); fb->cleanup(); break; }
        const double fr = dev->getFlowRate(); PolyFluid* f = fr >= 0 ? fa.get() : fb.get(); const double Tin = fr >= 0 ? Ta : Tb; double total = 0, expT = Tin;
        const bool flowing = std::fabs(fr) > 2.3e-16; if (flowing && ovr > 1.2e-7) f->setTemperature(ovr); double lo = ovr > 0 ? ovr : Tin, hi = lo;
        for (int q = 0; q < n; ++q) { const int i = fr >= 0 ? q : n - 1 - q; double h; const double d = sf[i] ? sv[i] : dg ? dgV : 1.0;
            if (!dyn) h = clamp(0.0, def[i] * d, def[i]); else { const double m = std::min(10.0, std::fabs(fr)); h = sg[i].mCoeff0; if (m > 1.1920929e-7) h += sg[i].mCoeff1 * std::pow(m, clamp(0.05, sg[i].mExponent, 20.0)); h = clamp(0.0, h * clamp(0.0, d, 1.0), sg[i].mLimit); }
            NEAR(hs ? hs->htc(i) : hd->htc(i), h, 1e-9, 1e-12, "hx-htc", mon::fmt("segment %d heat transfer coefficient at %g kg/s", i, fr)); NEAR(hs ? hs->segT(i) : hd->segT(i), segT[i], 0, 0, "hx-segment-temperature", "segment temperature"); double want = 0;
            if (flowing) { // stream cooled towards the segment temperature: Q = m cp (T - Ts) (1 - exp(-UA/(m cp)))
                const double cp = f->getSpecificHeat(), mc = std::fabs(fr) * cp, T = f->getTemperature(); const double ntu = h / mc; const double Tout = segT[i] + (T - segT[i]) * std::exp(-ntu); want = GunnsFluidUtils::computeConvectiveHeatFlux(f, fr, h, segT[i]);
                if (std::fabs(T - Tout) > 1e-6 && std::fabs(want) > 1e-9) CHK(want * (T - segT[i]) > 0, "hx-sign", mon::fmt("segment heat %g with the stream at %g and the segment at %g", want, T, segT[i]));
                if (ovr > 1.2e-7) f->setTemperature(ovr); lo = std::min(lo, segT[i]); hi = std::max(hi, segT[i]); }
            const double got = hs ? hs->gain(i) : hd->gain(i); NEAR(got, want, 1e-7, 1e-9, "hx-segment-heat", mon::fmt("segment %d of %d heat (flow %g, htc %g, segment %g K)", i, n, fr, h, segT[i])); total += want; if (h == 0) CHK(got == 0, "hx-no-htc-heat", "heat without heat transfer coefficient"); }
        expT = flowing ? f->getTemperature() : Tin; (void)expT; PolyFluid* in = hs ? hs->in() : hd->in();
        NEAR(dev->getTotalEnergyGain(), total, 1e-7, 1e-9, "hx-total", "total heat"); if (flowing) { NEAR(in->getTemperature(), expT, 1e-8, 1e-6, "hx-exit-temperature", "exit temperature"); CHK(in->getTemperature() >= lo - 1e-6 && in->getTemperature() <= hi + 1e-6, "hx-exit-bound", mon::fmt("exit temperature %g outside %g..%g", in->getTemperature(), lo, hi)); }
        if (fr > 0) NEAR(dev->getDeltaTemperature(), in->getTemperature() - Ta, 0, 1e-6, "hx-delta-temperature", "temperature change");
        const double dp = g.P(a) - g.P(b); CHK(dev->getFlux() * dp >= 0 || std::fabs(dev->getFlux()) < 1e-12, "hx-direction", "flow against the drop");
        g.same(c, "hx", A, B, dt, -total * dt, 0, true, ovr == 0);
        c.hit(mon::mix(mon::mix(dyn + 2 * liq, fr > 0 ? 1 : fr < 0 ? 2 : 0), mon::mix(dg + 2 * (std::count(sf.begin(), sf.end(), 1) > 0) + 4 * (ovr > 0), total > 0 ? 1 : total < 0 ? 2 : 0))); fa->cleanup(); fb->cleanup(); }
}

MON_PROP2(F12, condense, "condensing, evaporating, dry, reverse, degraded; slurper state") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> types = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_AR, FP::GUNNS_HE}; r.shuffle(types); types.resize(r.i(1, 3)); const int w = r.i(0, int(types.size())); types.insert(types.begin() + w, FP::GUNNS_H2O);
    Rig g(r, 2, types, r.p(0.4) ? r.i(1, 3) : 0, false, r.p(0.7), 0.5, 20); const bool sep = r.p(0.5);
    for (auto& s : g.init) { s.P = r.uni(40, 200); s.T = r.uni(282, 330); double rh = r.p(0.15) ? 0 : r.u(); const double psat = g.mix.props.getProperties(FP::GUNNS_H2O)->getSaturationPressure(s.T); double y = std::min(0.6, rh * psat / s.P); double t = 0; for (size_t i = 0; i < s.x.size(); ++i) if (int(i) != w) { s.x[i] = r.uni(0.1, 1) * g.mix.props.getProperties(types[i])->getMWeight(); t += s.x[i] / g.mix.props.getProperties(types[i])->getMWeight(); }
        for (size_t i = 0; i < s.x.size(); ++i) if (int(i) != w) s.x[i] *= (1 - y) / t; s.x[w] = y * 18.0153; double sum = 0; for (double v : s.x) sum += v; for (double& v : s.x) v /= sum; }
    g.make(r); const double k = r.logu(1e-6, 1e-3); const int n = r.i(1, 6); const double wall = r.uni(270, 330); const double c0 = r.p(0.2) ? 0 : r.logu(0.1, 200), c1 = r.p(0.2) ? 0 : r.logu(1, 1e4), ex = r.uni(0.05, 2), lim = r.logu(10, 2000);
    const double wetF = r.p(0.5) ? 0 : r.uni(-2, 10), flowF = r.p(0.5) ? 0 : r.logu(0.01, 5), evC = r.p(0.3) ? 0 : r.logu(1e-8, 1e-5), dry = r.logu(1e-6, 1e-2), wet = r.logu(1e-6, 1e-2), ref = r.logu(1e-6, 1e-3), mexp = r.uni(0.2, 2), maxC = r.logu(1e-3, 1), spd = 600, ratio = r.p(0.1) ? 0.0 : r.uni(0.5, 3), wev = r.p(0.5) ? 0 : r.logu(1e-9, 1e-6); double xfer = 0, motor = 0;
    XChx<GunnsFluidCondensingHx>* h = 0; XSep* s = 0; GunnsFluidCondensingHx* dev = 0;
    if (!sep) { dev = h = g.add(new XChx<GunnsFluidCondensingHx>); h->initialize(GunnsFluidCondensingHxConfigData("x", &g.list, k, n, c0, c1, ex, lim), GunnsFluidCondensingHxInputData(false, 0, wall), g.links, 0, 1); }
    else { s = g.add(new XSep); dev = s; motor = r.p(0.2) ? 0 : r.uni(0, 1200); GunnsFluidCondensingHxSeparatorInputData in; in.mWallTemperature = wall; in.mWsMotorSpeed = motor; in.mWsCondensateMass = r.logu(1e-6, 1); in.mHxCondensateMass = r.p(0.3) ? 0 : r.logu(1e-6, 0.1);
        GunnsFluidCondensingHxSeparatorConfigData cf("x", &g.list, k, n, c0, wetF, flowF, evC, dry, wet, ref, mexp, maxC, spd, 20, -1, ratio, wev); cf.mHtcCoeff1 = c1; cf.mHtcExponent = ex; cf.mHtcLimit = lim; s->initialize(cf, in, g.links, 0, 1); }
    double* seg = h ? h->seg() : s->seg(); g.start(); c.note = mon::fmt("%s n=%d k=%.3g T=(%.4g,%.4g) P=(%.5g,%.5g) y=(%.3g,%.3g) wall %.4g c0=%.3g c1=%.3g lim=%.3g", sep ? "separator" : "chx", n, k, g.init[0].T, g.init[1].T, g.init[0].P, g.init[1].P, g.fl(0)->getMoleFraction(w), g.fl(1)->getMoleFraction(w), wall, c0, c1, lim);
    const double dt = 0.1; const int steps = r.i(5, c.thorough ? 60 : 25); bool dg = false, pm = false; double dgV = 0, pmV = 0; const FP* pr = g.mix.props.getProperties(FP::GUNNS_H2O);
    for (int t = 0; t < steps && !c.failed(); ++t) { g.disturb(r, dt, 0.01); if (r.p(0.2)) { dg = r.p(0.5); dgV = r.p(0.3) ? (r.p(0.5) ? 0 : -1) : r.uni(0, 1.5); dev->setMalfHxDegrade(dg, dgV); } if (r.p(0.3)) seg[r.i(0, n - 1)] = r.uni(268, 335); if (r.p(0.1)) { const double T = r.uni(275, 320); for (int i = 0; i < n; ++i) seg[i] = T; }
        if (s) { if (r.p(0.1)) { motor = r.p(0.3) ? 0 : r.uni(0, 1200); s->motor(motor); } if (r.p(0.2)) { xfer = r.uni(-1, 1) * 1e-4; s->xfer(xfer); } if (r.p(0.1)) { pm = r.p(0.5); pmV = r.uni(-1, 1) * 1e-3; s->setMalfHxCondensate(pm, pmV); } }
        const double pool0 = s ? s->pool() : 0, ws0 = s ? s->ws() : 0, slurp0 = s ? s->slurp() : 0; const int st0 = s ? s->st() : 0; const double T0 = g.fl(0)->getTemperature(), x0 = g.fl(0)->getMassFraction(w), pp0 = g.fl(0)->getPartialPressure(FP::GUNNS_H2O), dew = pr->getSaturationTemperature(pp0), y0 = g.fl(0)->getMoleFraction(w), h0 = g.fl(0)->getSpecificEnthalpy();
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; const double fr = dev->getFlowRate(), rate = dev->getCondensationRate(), lat = h ? h->lat() : s->lat(), sens = h ? h->sens() : s->sens(), tot = dev->getTotalHeat(); PolyFluid* in = h ? h->in() : s->in();
        const double e = g.eps(dt), m100 = 100 * 2.3e-16; const bool fwd = fr > 2.3e-16; const char* kd = sep ? "separator" : "chx";
        if (std::fabs(fr) > m100) { NEAR(B.m, A.m - rate * dt, 1e-11, e + 1e-12 * std::fabs(fr) * dt, "chx-mass", "gas mass after condensation"); NEAR(B.s[w], A.s[w] - rate * dt, 1e-10, e + 1e-10 * A.m, "chx-water", "water mass after condensation"); for (int q = 0; q < g.mix.n(); ++q) if (q != w) NEAR(B.s[q], A.s[q], 0, 1e-9 * A.m + e, "chx-species", "other constituents"); for (int q = 0; q < g.mix.nTc(); ++q) NEAR(B.t[q], A.t[q], 1e-8, 1e-6 * e + 1e-13 * A.m, "chx-trace", "trace compounds"); }
        NEAR(tot, sens + lat, 1e-12, 1e-12, "chx-total", "total heat"); double sum = 0; bool above = true, below = true, falls = true, rises = true; double mn = 1e9, mx = 0; for (int i = 0; i < n; ++i) { sum += h ? h->heat(i) : s->heat(i); if (seg[i] < dew + 1e-6) above = false; if (seg[i] > T0) below = false; mn = std::min(mn, seg[i]); mx = std::max(mx, seg[i]); if (i > 0 && seg[i] > seg[i - 1]) falls = false; if (i > 0 && seg[i] < seg[i - 1]) rises = false; } NEAR(sum, tot, 1e-9, 1e-9, "chx-segments", "sum of segment heat");
        double H = c0; { const double m = std::min(10.0, std::fabs(fr)); if (m > 1.1920929e-7) H += c1 * std::pow(m, ex); } H = clamp(0, H, lim) / n; if (s) H *= std::max(0.0, 1 + wetF * pool0); if (dg) H *= std::max(0.0, dgV); NEAR(h ? h->htc() : s->htc(), H, 1e-9, 1e-12, "chx-htc", "segment heat transfer coefficient");
        if (!fwd) { CHK(rate == 0 && sens == 0 && lat == 0 && tot == 0, "chx-reverse", mon::fmt("%s: heat %g or condensation %g without forward flow (%g)", kd, tot, rate, fr)); }
        else { const double wIn = fr * x0; CHK(rate <= wIn * (1 + 1e-9), "chx-limit", mon::fmt("condensation %g exceeds the water flow %g", rate, wIn)); if (!s) CHK(rate >= 0, "chx-sign", mon::fmt("condensation rate %g", rate)); if (above) CHK(rate <= 0, "chx-dry", mon::fmt("condensation %g with all segments above the dew point %g", rate, dew)); if (H == 0) CHK(sens == 0 && rate <= 0, "chx-degraded", mon::fmt("heat %g without heat transfer", sens));
            if (rate > 0) { CHK(lat >= rate * 1.9e6 && lat <= rate * 2.6e6, "chx-latent", mon::fmt("latent heat %g for condensation %g", lat, rate)); CHK(mn < dew, "chx-dew", "condensation above the dew point"); c.count("condensing_steps"); } else if (rate == 0) CHK(lat == 0, "chx-latent-zero", "latent heat without condensation");
            if (below && falls) CHK(sens >= -1e-9, "chx-sensible-sign", mon::fmt("sensible heat %g with segments colder than the inlet", sens)); if (mn > T0 && rises) CHK(sens <= 1e-9, "chx-sensible-sign", mon::fmt("sensible heat %g with segments hotter than the inlet", sens));
            const double Te = in->getTemperature(); CHK(Te >= std::min(mn, T0) - 1.0 && Te <= std::max(mx, T0) + 1.0, "chx-exit", mon::fmt("exit temperature %g, inlet %g, segments %g..%g", Te, T0, mn, mx));
            if (rate == 0 && std::fabs(sens) > 1e-6 && ((below && falls) || (mn > T0 && rises))) { const double dh = fr * (h0 - in->getSpecificEnthalpy()); CHK(sens * dh > 0, "chx-sensible", mon::fmt("sensible heat %g, stream enthalpy loss %g", sens, dh)); }
            // enough cold surface leaves the exit saturated at the last segments: exit vapour pressure not above saturation at the warmest possible surface
            if (rate > 0) CHK(in->getMoleFraction(w) <= y0 * (1 + 1e-6), "chx-exit-vapour", "exit vapour fraction above the inlet's"); }
        if (std::fabs(rate) > m100) NEAR((h ? h->src(1) : s->src(1)), -rate / 18.0153, 1e-9, 0, "chx-source", "condensate source term");
        if (s) { NEAR(s->pool(), std::max(0.0, pool0 + ((pm ? pmV : rate) - slurp0) * dt), 1e-9, 1e-15, "sep-pool", "condensate pool"); NEAR(s->ws(), std::max(0.0, ws0 + (s->slurp() - s->evap() - std::max(0.0, xfer)) * dt), 1e-9, 1e-15, "sep-separator", "separator content"); CHK(s->over() == (s->ws() > maxC), "sep-overflow", "overflow flag");
            CHK(rate >= 0 || (pool0 > 0 && evC > 0 && fwd), "sep-evaporation", mon::fmt("evaporation %g without condensate pool %g", rate, pool0)); if (rate < 0) { NEAR(lat, rate * pr->getHeatOfVaporization(in->getTemperature()) * 1000, 1e-9, 0, "sep-evaporation-heat", "evaporation heat"); c.count("evaporating_steps"); }
            const double drum = ratio > 2.3e-16 ? motor / ratio : 0; NEAR(s->drum(), drum, 1e-12, 0, "sep-drum", "drum speed"); NEAR(s->dP(), 20.0 / spd / std::pow(maxC, mexp) * drum * std::pow(s->ws(), mexp), 1e-9, 1e-15, "sep-pressure", "separator pressure");
            const bool pooled = s->pool() > 1.1920929e-7, cond = rate > 1.1920929e-7, spin = drum > 1.1920929e-7; int want = st0; if (st0 == XSep::FLOWING) { if (!spin || !pooled) want = cond ? XSep::PAUSED_WET : XSep::PAUSED_DRY; } else if (st0 == XSep::PAUSED_WET) { if ((!spin || !pooled) && !cond) want = XSep::PAUSED_DRY; else if (s->pool() > wet) want = XSep::FLOWING; } else if (s->pool() > dry) want = XSep::FLOWING;
            CHK(s->st() == want, "sep-state", mon::fmt("slurper state %d from %d, expected %d", int(s->st()), st0, want)); NEAR(s->slurp(), want == XSep::FLOWING ? ref / spd * drum : 0.0, 1e-12, 0, "sep-slurper", "slurper flow"); NEAR(s->tP(), g.P(1) + s->dP(), 1e-9, 1e-9, "sep-transfer", "transfer pressure");
            if (std::fabs(dev->getAdmittanceMatrix()[0]) > 0) CHK(flowF * pool0 < 1, "sep-blocked", "flow through a flooded exchanger"); c.hit(mon::mix(st0, want) + 1000); }
        c.hit(mon::mix(mon::mix(sep, fwd ? (rate > 0 ? 1 : rate < 0 ? 2 : 3) : 4), mon::mix(dg, sens > 0 ? 1 : sens < 0 ? 2 : 0))); }
}

MON_PROP2(F12, phase, "compound, flow direction, efficiency, wall side") {
    mon::Rng& r = c.r; static const FP::FluidType pairs[][2] = {{FP::GUNNS_WATER, FP::GUNNS_H2O}, {FP::GUNNS_AMMONIA, FP::GUNNS_NH3}, {FP::GUNNS_WATER, FP::GUNNS_H2O}};
    const int pi = r.i(0, 2); const FP::FluidType lt = pairs[pi][0], gt = pairs[pi][1]; std::vector<FP::FluidType> types = {lt, gt}; if (r.p(0.5)) std::swap(types[0], types[1]); if (r.p(0.4)) types.push_back(FP::GUNNS_N2); if (r.p(0.3)) types.push_back(FP::GUNNS_CO2);
    Rig g(r, 4, types, 0, false, false, 0.05, 2); const int il = types[0] == lt ? 0 : 1, ig = 1 - il; const bool nh3 = lt == FP::GUNNS_AMMONIA; const double T0 = nh3 ? r.uni(230, 300) : r.uni(285, 400); const FP *lp = g.mix.props.getProperties(lt), *gp = g.mix.props.getProperties(gt); const double Pc = std::max(1.0, gp->getSaturationPressure(T0));
    for (int i = 0; i < 5; ++i) { auto& s = g.init[i]; std::fill(s.x.begin(), s.x.end(), 0.0); s.x[i < 2 ? il : ig] = 1; s.T = clamp(nh3 ? 215 : 275, T0 + r.uni(-15, 15), nh3 ? 330 : 450); s.P = Pc * r.uni(0.5, 2); if (i < 2) { s.P = std::max(s.P, 1.0); } }
    g.nodeInit = true; g.make(r); XPc* d = g.add(new XPc); const double eff = r.p(0.2) ? 0 : r.p(0.3) ? 1 : r.u(), k = r.logu(1e-8, 1e-4); double wall = r.p(0.5) ? T0 + r.uni(-40, 40) : r.uni(200, 500); d->initialize(GunnsFluidPhaseChangeConductorConfigData("x", &g.list, k, lt, gt, eff), GunnsFluidPhaseChangeConductorInputData(false, 0, wall), g.links, 0, 2);
    GunnsFluidSource* sl = g.add(new GunnsFluidSource); sl->initialize(GunnsFluidSourceConfigData("sl", &g.list), GunnsFluidSourceInputData(false, 0, 0.0), g.links, 0, 1); GunnsFluidSource* sg = g.add(new GunnsFluidSource); sg->initialize(GunnsFluidSourceConfigData("sg", &g.list), GunnsFluidSourceInputData(false, 0, 0.0), g.links, 2, 3);
    g.start(); c.note = mon::fmt("phase change %s k=%.3g eff=%.3g wall %.4g T=%.4g/%.4g P=%.4g/%.4g", nh3 ? "ammonia" : "water", k, eff, wall, g.init[0].T, g.init[2].T, g.init[0].P, g.init[2].P);
    const double dt = 0.1; bool blk = false; double bv = 0; const int steps = r.i(5, 20); for (int t = 0; t < steps && !c.failed(); ++t) { sl->setFlowDemand(r.p(0.5) ? 0 : r.sgn() * r.logu(1e-9, 1e-6) * g.fl(0)->getMass() / dt); sg->setFlowDemand(r.p(0.5) ? 0 : r.sgn() * r.logu(1e-5, 1e-2) * std::min(g.fl(2)->getMass(), g.fl(3)->getMass()) / dt); if (r.p(0.3)) { wall = r.p(0.5) ? T0 + r.uni(-40, 40) : r.uni(200, 500); d->setWallTemperature(wall); } if (r.p(0.1)) { blk = r.p(0.5); bv = r.p(0.5) ? 1 : r.u(); d->setMalfBlockage(blk, bv); }
        const double Tl = g.fl(0)->getTemperature(), Tg = g.fl(2)->getTemperature(); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; const double fr = d->getFlowRate(); if (g.P(0) < 0.01 || g.P(2) < 0.01) break;
        const double lm = g.fl(0)->getMass() + g.fl(1)->getMass(), gm = g.fl(2)->getMass() + g.fl(3)->getMass(); const double e = g.eps(dt); NEAR(lm + gm, A.m, 1e-11, e, "phase-mass", "total mass"); if (std::fabs(fr) > 1e-13) { NEAR(B.s[il], A.s[il] - fr * dt, 1e-9, e + 1e-9 * A.s[il], "phase-liquid", "liquid mass"); NEAR(B.s[ig], A.s[ig] + fr * dt, 1e-9, e + 1e-9 * A.s[ig], "phase-gas", "gas mass"); }
        NEAR(B.s[il], lm, 1e-12, 0, "phase-purity", "gas in the liquid tanks"); NEAR(B.s[ig], gm, 1e-12, 0, "phase-purity", "liquid in the gas tanks"); if (blk && bv == 1) CHK(fr == 0, "phase-blocked", "flow through a blocked conductor"); CHK(fr * (g.P(0) - g.P(2)) >= 0 || std::fabs(fr) < 1e-12, "phase-direction", "flow against the drop");
        double want = 0, exitT = 0, dH = 0; if (eff > 0) { if (fr >= 0) { exitT = gp->getSaturationTemperature(g.P(2)); dH = lp->getSpecificEnthalpy(Tl) - lp->getSpecificEnthalpy(exitT) - 1000 * lp->getHeatOfVaporization(exitT); } else { exitT = lp->getSaturationTemperature(g.P(0)); dH = gp->getSpecificEnthalpy(Tg) - gp->getSpecificEnthalpy(exitT) + 1000 * gp->getHeatOfVaporization(exitT); } }
        want = eff * dH * std::fabs(fr); if ((want < 0 && wall < exitT) || (want > 0 && wall > exitT)) want = 0; NEAR(d->getWallHeatFlux(), want, 1e-6, 1e-9, "phase-heat", mon::fmt("wall heat, flow %g, exit %g K, wall %g K", fr, exitT, wall)); if (want < 0) CHK(fr >= 0 || dH < 0, "phase-heat-sign", "heat sign"); c.hit(mon::mix(mon::mix(pi, fr > 0 ? 1 : fr < 0 ? 2 : 0), mon::mix(eff > 0, want > 0 ? 1 : want < 0 ? 2 : 0))); }
}

MON_PROP2(F12, type, "conversions, flow direction, target present upstream") {
    mon::Rng& r = c.r; std::vector<std::pair<FP::FluidType, FP::FluidType> > conv = {{FP::GUNNS_O2, FP::GUNNS_O2_REAL_GAS}, {FP::GUNNS_H2, FP::GUNNS_H2_REAL_GAS}, {FP::GUNNS_N2, FP::GUNNS_N2_REAL_GAS}}; for (auto& q : conv) if (r.p(0.5)) std::swap(q.first, q.second); r.shuffle(conv); conv.resize(r.i(0, 3));
    std::vector<FP::FluidType> types; for (auto& q : conv) { types.push_back(q.first); types.push_back(q.second); } if (conv.empty() || r.p(0.7)) types.push_back(FP::GUNNS_CO2); if (r.p(0.3)) types.push_back(FP::GUNNS_HE); r.shuffle(types); auto idx = [&](FP::FluidType f) { return int(std::find(types.begin(), types.end(), f) - types.begin()); };
    Rig g(r, 2, types, r.p(0.4) ? 2 : 0, false, false, 0.2, 20); const bool clean = r.p(0.4); for (int i = 0; i < 2; ++i) { auto& s = g.init[i]; s.T = r.uni(250, 400); s.P = r.uni(50, 500); if (clean) { for (auto& q : conv) s.x[idx(i == 0 ? q.second : q.first)] = 0; double t = 0; for (double v : s.x) t += v; if (t <= 0) { std::fill(s.x.begin(), s.x.end(), 0.0); if (conv.empty()) s.x[0] = 1; else s.x[idx(i == 0 ? conv[0].first : conv[0].second)] = 1; t = 1; } for (double& v : s.x) v /= t; } }
    g.make(r); std::vector<FP::FluidType> t0, t1; for (auto& q : conv) { t0.push_back(q.first); t1.push_back(q.second); } GunnsFluidTypeChangeConductor* d = g.add(new GunnsFluidTypeChangeConductor); const double k = r.logu(1e-6, 1e-3); d->initialize(GunnsFluidTypeChangeConductorConfigData("x", &g.list, k, &t0, &t1), GunnsFluidTypeChangeConductorInputData(), g.links, 0, 1); g.start(); const double dt = 0.1; c.note = mon::fmt("type change %d of %d k=%.3g P=%.4g/%.4g clean %d", int(conv.size()), int(types.size()), k, g.init[0].P, g.init[1].P, int(clean));
    for (int t = 0; t < 12 && !c.failed(); ++t) { std::vector<double> x[2]; for (int i = 0; i < 2; ++i) for (int q = 0; q < g.mix.n(); ++q) x[i].push_back(g.fl(i)->getMassFraction(q)); std::vector<double> m0[2]; for (int i = 0; i < 2; ++i) for (int q = 0; q < g.mix.n(); ++q) m0[i].push_back(massOf(g.fl(i), q)); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; const double fr = d->getFlowRate(), e = g.eps(dt); const int from = fr >= 0 ? 0 : 1, to = 1 - from;
        NEAR(B.m, A.m, 1e-11, e, "type-mass", "total mass"); for (int q = 0; q < g.mix.nTc(); ++q) NEAR(B.t[q], A.t[q], 1e-8, 1e-6 * e + 1e-13 * A.m, "type-trace", "trace compounds"); bool present = false; const double mv = std::fabs(fr) * dt;
        for (int q = 0; q < g.mix.n(); ++q) { double in = x[from][q]; for (auto& cv : conv) { const int s = idx(fr >= 0 ? cv.first : cv.second), d2 = idx(fr >= 0 ? cv.second : cv.first); if (q == s) in = 0; if (q == d2) { if (x[from][q] > 0) present = true; in += x[from][s]; } }
            NEAR(massOf(g.fl(from), q), m0[from][q] - mv * x[from][q], 0, 1e-9 * A.m + e, "type-source", mon::fmt("constituent %d upstream", q)); NEAR(massOf(g.fl(to), q), m0[to][q] + mv * in, 0, 1e-9 * A.m + e, "type-target", mon::fmt("constituent %d downstream (flow %g kg, upstream fraction %g, converted %g)", q, mv, x[from][q], in)); }
        c.hit(mon::mix(mon::mix(conv.size(), from), present)); }
}
RESTART_PROP(hx)
