// Fans, pumps, cavitation and pressure heads (F13).
#include "rig.hpp"
#include "aspects/fluid/potential/GunnsGasFan.hh"
#include "aspects/fluid/potential/GunnsLiquidCentrifugalPump.hh"
#include "aspects/fluid/potential/GunnsFluidPressureHead.hh"
#include "aspects/fluid/source/GunnsGasDisplacementPump.hh"
#include "aspects/fluid/source/GunnsLiquidDisplacementPump.hh"
#include "software/exceptions/TsInitializationException.hh"
using namespace rig;
namespace {
struct XCav : GunnsPumpCavitation { static double GunnsPumpCavitation::* frac() { return &XCav::mCavitationFraction; } static double GunnsPumpCavitation::* vap() { return &XCav::mInletVaporPressure; } static bool GunnsPumpCavitation::* autoOn() { return &XCav::mEnableAutoCavitation; } };
template<class B> struct XF : B { double src() const { return this->mSourcePressure; } double q() const { return this->mSourceQ; } double vol() const { return this->mVolFlowRate; } double power() const { return this->mImpellerPower; } double torque() const { return this->mImpellerTorque; } double heat() const { return this->mWallHeatFlux; }
    double speed() const { return this->mImpellerSpeed; } double refQ() const { return this->mReferenceQ; } double cv() const { return this->mCheckValvePosition; } double ns() const { return this->mSpecificSpeed; } double refc(int i) const { return this->mReferenceCoeffs[i]; } double cond() const { return this->mEffectiveConductivity; } };
template<class B> struct XD : B { double vol() const { return this->mVolFlowRate; } double power() const { return this->mImpellerPower; } double torque() const { return this->mImpellerTorque; } double heat() const { return this->mWallHeatFlux; } double speed() const { return this->mImpellerSpeed; } double cv() const { return this->mCheckValvePosition; } double demand() const { return this->mFlowDemand; } double drop() const { return this->mPotentialDrop; } };
double poly(const double* k, double q) { double s = 0; for (int i = 5; i >= 0; --i) s = s * q + k[i]; return s; }
struct Cav { bool on = false, full = false, part = false; double dur = 0, fd = 0, pd = 0, pa = 0, amp = 0, f = 0;   // reference cavitation growth: f = (t/D)^2 rising, 1 - (1-t/D)^2 falling
    double D = 0; bool act = false;
    void step(bool low, double dt) { act = true; bool grow = false; if (full) { grow = true; D = fd; } else if (on && low) { grow = true; D = dur; } else if (part) D = pd; D = std::max(D, 2.220446049250313e-16);
        f += grow ? 2 * std::sqrt(std::max(f, 0.01)) * dt / D : -2 * std::sqrt(1 - std::min(f, 0.99)) * dt / D; f = std::min(1.0, std::max(0.0, f)); if (!grow) act = false; growing = grow; }
    bool growing = false; };
}

MON_PROP2(F13, fan, "gas or liquid, curve form, check valve, speed changes, steady or not") {
    mon::Rng& r = c.r; const bool liq = r.p(0.4), steady = r.p(0.5); std::vector<FP::FluidType> types = liq ? std::vector<FP::FluidType>(1, r.p(0.6) ? FP::GUNNS_WATER : liquids()[size_t(r.i(0, 2))]) : gases(); if (!liq) { r.shuffle(types); types.resize(size_t(r.i(1, 3))); }
    Rig g(r, 2, types, r.p(0.3) ? r.i(1, 2) : 0, liq, !steady, steady ? 1e3 : 0.5, steady ? 1e5 : 20, steady ? 5 : 1e9, steady ? 2 : 1e9); if (liq && r.p(0.5)) for (auto& s : g.init) s.T = r.uni(285, types[0] == FP::GUNNS_WATER ? 420 : 340); if (liq && steady) for (double& v : g.vol) v = r.uni(50, 500);
    const int a = r.p(0.5) ? 0 : 1, b = 1 - a; const bool pump = liq; const double rho = liq ? r.uni(500, 1500) : r.logu(0.1, 5), N = r.logu(500, 50000), ratio = r.p(0.5) ? 1.0 : r.uni(0.2, 5), P0 = liq ? r.logu(10, 500) : r.logu(0.05, 5), Q0 = liq ? r.logu(1e-5, 1e-3) : r.logu(1e-4, 0.1); if (steady) { g.init[size_t(b)].T = g.init[size_t(a)].T; g.init[size_t(b)].P = std::max(1.0, g.init[size_t(a)].P + r.uni(-0.05, 0.5) * P0); } g.make(r);
    const int form = r.i(0, 2); double k[6] = {P0, 0, 0, 0, 0, 0}; double eff = 0, qb = 0;   // 0: given curve; 1: best efficiency point only; 2: curve and best efficiency point
    if (form != 1) { double w[6], t = 0; const int must = r.p(0.6) ? 2 : r.i(1, 5); const double more = r.p(0.2) ? 0 : 0.4; for (int i = 1; i < 6; ++i) { w[i] = (i == must || r.p(more)) ? r.u() + 0.01 : 0.0; t += w[i]; } for (int i = 1; i < 6; ++i) k[i] = -P0 * w[i] / t / std::pow(Q0, i); if (k[1] != 0 && must != 1 && r.p(0.2)) k[1] = 0; }
    if (form) { eff = r.uni(0.2, 1.0); qb = Q0 * r.uni(0.3, 0.8); } const double gain = r.p(0.3) ? 1.0 : r.uni(0.05, 1), G = liq ? r.logu(1e-4, 1e-2) * Q0 / 1e-4 : r.logu(0.1, 10) * Q0; const bool cvOn = r.p(0.3); double speed = r.p(0.2) ? 0.0 : N * ratio * r.uni(0.2, 1.3);
    const double len = r.p(0.5) ? 0 : r.uni(0.1, 2), dia = r.p(0.1) ? 0 : r.uni(0.01, 0.2), rough = r.logu(1e-6, 1e-4), wall = liq ? r.uni(285, 340) : r.uni(250, 400); Cav cav; cav.on = pump && r.p(0.5); cav.dur = r.logu(0.1, 20); cav.amp = r.p(0.7) ? 0.0 : r.uni(0, 0.3);
    XF<GunnsGasFan>* fan = 0; XF<GunnsLiquidCentrifugalPump>* pp = 0; GunnsGasFan* dev; const double expf = r.p(0.7) ? 0.0 : r.u();
    try {
        if (!pump) { dev = fan = g.add(new XF<GunnsGasFan>); fan->initialize(GunnsGasFanConfigData("x", &g.list, G, expf, rho, N, k[0], k[1], k[2], k[3], k[4], k[5], eff, qb, gain, ratio, len, dia, rough, cvOn), GunnsGasFanInputData(false, 0, 0, speed, wall), g.links, a, b); }
        else { dev = pp = g.add(new XF<GunnsLiquidCentrifugalPump>); pp->initialize(GunnsLiquidCentrifugalPumpConfigData("x", &g.list, G, expf, rho, N, k[0], k[1], k[2], k[3], k[4], k[5], eff, qb, gain, ratio, len, dia, rough, cvOn, types[0], cav.dur, cav.amp), GunnsLiquidCentrifugalPumpInputData(false, 0, 0, speed, wall, cav.on), g.links, a, b); }
    } catch (const TsInitializationException&) { c.hit(form == 1 ? "refused-bep" : "refused"); return; }
    const auto X = [&](auto get) { return fan ? get(*fan) : get(*pp); };
#define GETX(m) (fan ? fan->m : pp->m)
    double kk[6]; for (int i = 0; i < 6; ++i) kk[i] = GETX(refc(i)); const double Qm = GETX(refQ()); NEAR(poly(kk, Qm), 0, 0, 2e-3 * std::fabs(kk[0]) + std::fabs(poly(kk, Qm + 1e-6) - poly(kk, Qm - 1e-6)), "fan-max-flow", "reference curve at its maximum flow"); if (form != 1) for (int i = 0; i < 6; ++i) NEAR(kk[i], k[i], 1e-14, 0, "fan-curve", "reference curve as configured"); else { NEAR(poly(kk, qb), P0, 3e-2, 0, "fan-bep-curve", "built reference curve passes the best efficiency point"); }
    g.start(); c.note = mon::fmt("%s form %d P0 %.4g Q %.4g speed %.4g/%g ratio %.3g G %.4g cv %d P (%.5g,%.5g) %s", pump ? "pump" : "fan", form, P0, Qm, speed, N, ratio, G, cvOn, g.init[size_t(a)].P, g.init[size_t(b)].P, steady ? "steady" : ""); (void)X;
    const double dt = r.p(0.2) ? r.logu(0.02, 1) : 0.1; const int steps = steady ? r.i(100, 300) : r.i(5, 30); bool blk = false; double blkV = 0; bool cv = cvOn; double volPrev = 0, wallT = wall; int still = 0; double prevVol = 0, prevS = 0; bool cavActive = false; const double lowQ = 1e-9; (void)lowQ;
    for (int t = 0; t < steps && !c.failed(); ++t) { if (!steady) g.disturb(r, dt);
        const double chg = steady ? (t < 20 ? 0.1 : 0.0) : 0.15; if (r.p(chg)) { speed = r.p(0.2) ? 0.0 : N * ratio * r.uni(0.1, 1.3); dev->setMotorSpeed(speed); } if (r.p(chg * 0.5)) { blk = r.p(0.5); blkV = r.p(0.3) ? 1.0 : r.u(); dev->setMalfBlockage(blk, blkV); } if (r.p(chg * 0.3)) { cv = !cv; dev->setCheckValveFlag(cv); } if (r.p(chg)) { wallT = liq ? r.uni(285, 340) : r.uni(250, 400); dev->setWallTemperature(wallT); }
        if (pump && r.p(chg * 0.7)) { cav.full = r.p(0.4); cav.fd = r.logu(0.1, 20); pp->mCavitation.setMalfFullCavitation(cav.full, cav.fd); } if (pump && r.p(chg * 0.5)) { cav.part = r.p(0.4); cav.pd = r.logu(0.1, 20); cav.pa = r.p(0.6) ? 0.0 : r.uni(0, 0.3); pp->mCavitation.setMalfPartialCavitation(cav.part, cav.pd, cav.pa); }
        if (g.P(a) < 0.01 || g.P(b) < 0.01) break; const double rho0 = g.fl(a)->getDensity(), rho1 = g.fl(b)->getDensity(), Pa = g.fl(a)->getPressure(), Pb = g.fl(b)->getPressure(), fluxPrev = dev->getFlux(), sPrev = GETX(src()), Pin = g.fl(a)->getPressure(), Tin = g.fl(a)->getTemperature(); (void)volPrev; (void)sPrev;
        const Rig::Ledger A = g.ledger(); const double qPrev = GETX(q()); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps");
        const double sp = speed / ratio, S = GETX(src()), sf = sp / N, dens = fluxPrev < 0 ? rho1 : rho0, Q = GETX(vol()); NEAR(GETX(speed()), sp, 1e-12, 0, "fan-speed", "impeller speed"); CHK(std::isfinite(S) && S >= 0, "fan-finite", mon::fmt("source pressure %g", S)); double aff[6]; for (int i = 0; i < 6; ++i) aff[i] = kk[i] * dens / rho * std::pow(sf, 2.0 - i); const bool runs = sp > 1.2e-7 && dens > 1.2e-7; double want = 0; 
        if (runs) { want = std::max(0.0, poly(aff, GETX(q()))); CHK(GETX(q()) >= 0 && (!(sf > 0) || GETX(q()) == qPrev || GETX(q()) <= Qm * sf * (1 + 1e-3) + 2e-7), "fan-flow-range", mon::fmt("operating flow %g of at most %g", GETX(q()), Qm * sf)); }
        double f = 0; bool noise = false; if (pump) { const double pv = g.mix.props.getProperties(types[0])->getSaturationPressure(Tin); const double f0 = cav.f; cav.step(Pin < pv, dt); NEAR(pp->mCavitation.*XCav::vap(), pv, 1e-9, 1e-12, "cavitation-vapor", "vapor pressure at the inlet"); if (std::fabs(Pin - pv) < 1e-9 * pv) cav.f = pp->mCavitation.*XCav::frac(); f = pp->mCavitation.*XCav::frac(); NEAR(f, cav.f, 1e-9, 1e-12, "cavitation-fraction", mon::fmt("cavitation fraction from %g (inlet %g kPa, vapor %g kPa, %s)", f0, Pin, pv, cav.growing ? "growing" : "recovering")); noise = cav.amp > 0 || cav.pa > 0; cavActive = f > 0; if (cav.growing) c.hit(cav.full ? "cav-malf" : "cav-auto"); if (f >= 1) c.hit("cav-complete"); }
        if (!noise) { NEAR(S, want * (1 - f), 1e-9, 1e-10 * (P0 * dens / rho * sf * sf) + 1e-12 * P0, "fan-pressure", mon::fmt("pressure rise at flow %g, density %g, speed %g", GETX(q()), dens, sp)); if (f >= 1) CHK(S == 0, "cavitation-complete", mon::fmt("pressure rise %g although fully cavitated", S)); } else if (f == 0 && !cav.part && !cav.growing) NEAR(S, want, 1e-9, 1e-12 * P0, "fan-pressure", "pressure rise without cavitation");
        const double raw = pump ? want : S; (void)raw; bool open = !cv; if (!noise) { const double dp = want + Pa - Pb; if (std::fabs(dp) > 1e-9 * (Pa + Pb)) { open = dp > 0 || !cv; CHK((GETX(cv()) > 0.5) == open, "fan-check-valve", mon::fmt("check valve %g with total drop %g kPa", GETX(cv()), dp)); if (!open) { CHK(GETX(cond()) == 0 && std::fabs(dev->getFlux()) < 1e-15, "fan-check-valve-flow", mon::fmt("flow %g through the closed check valve", dev->getFlux())); c.hit("cv-closed"); } } }
        const double dP = g.P(a) + S - g.P(b), Am = dev->getAdmittanceMatrix()[0], fx = dev->getFlux(); NEAR(fx, Am * dP, 1e-7, 1e-13 + Am * 1e-12 * (g.P(a) + g.P(b) + S), "fan-flux", mon::fmt("flow for the drop and pressure rise (%g + %g - %g)", g.P(a), S, g.P(b))); if (blk && blkV >= 1) CHK(std::fabs(fx) < 1e-15, "fan-blocked", mon::fmt("blocked fan flows %g", fx));
        // impeller power and torque
        double pw; if (form && sp > 1.2e-7) {   // power curve between the published radial and axial curves by specific speed, scaled by the affinity laws
            static const double rad[4] = {0.42, 0.69, -0.11, 0.0}, axi[4] = {2.0, -5.98, 8.78, -3.8}; const double Pb0 = form == 1 ? P0 : poly(kk, qb), ns = std::min(5.0, std::max(0.2, N * 2 * M_PI / 60 * std::sqrt(qb) * std::pow(rho / 1000 / Pb0, 0.75))), fr = (ns - 0.2) / 4.8, x = std::min(Qm * sf, std::max(0.0, Q)) / (qb * sf); double v = 0; for (int i = 3; i >= 0; --i) v = v * x + rad[i] + fr * (axi[i] - rad[i]);
            const double base = 1000 * Pb0 * qb / eff * sf * sf * sf * v / rho, d1 = g.node(a).getOutflow()->getDensity(), l1 = base * std::min(rho0, d1), l2 = base * std::max(rho0, d1), lo = std::min(l1, l2), hi = std::max(l1, l2), tolp = 1e-8 * std::fabs(l2) + 1e-12; NEAR(GETX(ns()), ns, 1e-9, 0, "fan-specific-speed", "specific speed"); CHK(GETX(power()) >= lo - tolp && GETX(power()) <= hi + tolp, "fan-shaft-power", mon::fmt("shaft power %.9g at %g of best efficiency flow, expected %.9g to %.9g", GETX(power()), x, lo, hi)); if (std::fabs(x - 1) < 2e-2) c.hit("at-bep"); (void)pw;
        } else { pw = 1000 * std::fabs(Q) * S; NEAR(GETX(power()), pw, 1e-9, 1e-12, "fan-power", "fluid power"); }
        if (speed > 1.2e-7) NEAR(GETX(torque()) * speed * 2 * M_PI / 60, -GETX(power()), 1e-9, 1e-15, "fan-torque", "torque times motor speed against impeller power"); else CHK(GETX(torque()) == 0, "fan-torque", "torque at rest");
        const double heat = GETX(heat()); if (len * dia == 0) CHK(heat == 0, "fan-heat", mon::fmt("wall heat %g without a surface", heat)); g.same(c, "fan", A, B, dt, -heat * dt, 0, true, expf == 0); PolyFluid* in = dev->getInternalFluid(); if (std::fabs(heat) > 1e-6 && in) CHK(heat * (in->getTemperature() - wallT) >= -1e-6, "fan-heat-sign", mon::fmt("wall heat %g with the fluid at %g K and the wall at %g K", heat, in->getTemperature(), wallT));
        // steady running: the pressure rise is the affinity-scaled curve at the flow itself
        still = (steady && t > 20 && std::fabs(Q - prevVol) <= 1e-4 * std::fabs(Q) && std::fabs(S - prevS) <= 1e-4 * S) ? still + 1 : 0; prevVol = Q; prevS = S; if (still > 15 && runs && fx > 0 && !cavActive && !noise && Q > 1e-3 * Qm * sf && Q < Qm * sf) { const double at = std::max(0.0, poly(aff, Q)); NEAR(S, at, 1e-2, 1e-2 * aff[0], "fan-operating-point", mon::fmt("steady pressure rise at flow %g (maximum %g), speed ratio %g", Q, Qm * sf, sf)); c.count("steady_points"); c.hit(mon::mix(7, mon::hd(int(10 * Q / (Qm * sf))))); }
        c.hit(mon::mix(mon::mix(pump + 2 * form + 8 * cv, fx > 0 ? 1 : fx < 0 ? 2 : 0), runs + 2 * blk + 4 * (f > 0)));
    }
#undef GETX
}

MON_PROP2(F13, displacement, "gas or liquid displacement pump: speed both ways, check valve, cavitation, blockage") {
    mon::Rng& r = c.r; const bool liq = r.p(0.4); std::vector<FP::FluidType> types = liq ? std::vector<FP::FluidType>(1, r.p(0.6) ? FP::GUNNS_WATER : liquids()[size_t(r.i(0, 2))]) : gases(); if (!liq) { r.shuffle(types); types.resize(size_t(r.i(1, 3))); }
    Rig g(r, 2, types, r.p(0.3) ? r.i(1, 2) : 0, liq, r.p(0.8), 0.5, 20); if (liq && r.p(0.5)) for (auto& s : g.init) s.T = r.uni(285, types[0] == FP::GUNNS_WATER ? 420 : 340); g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a; const double ratio = r.p(0.5) ? 1.0 : r.uni(0.2, 5), cyc = liq ? r.logu(1e-9, 1e-7) : r.logu(1e-6, 1e-4); bool cv = r.p(0.3); double speed = r.uni(0, 1000);
    const double len = r.p(0.5) ? 0 : r.uni(0.1, 2), dia = r.p(0.1) ? 0 : r.uni(0.01, 0.2), rough = r.logu(1e-6, 1e-4), wall = liq ? r.uni(285, 340) : r.uni(250, 400); Cav cav; cav.on = liq && r.p(0.5); cav.dur = r.logu(0.1, 20); cav.amp = r.p(0.7) ? 0.0 : r.uni(0, 0.3);
    XD<GunnsGasDisplacementPump>* gp = 0; XD<GunnsLiquidDisplacementPump>* lp = 0; GunnsGasDisplacementPump* dev;
    if (!liq) { dev = gp = g.add(new XD<GunnsGasDisplacementPump>); gp->initialize(GunnsGasDisplacementPumpConfigData("x", &g.list, cyc, ratio, len, dia, rough, cv), GunnsGasDisplacementPumpInputData(false, 0, 0, speed, wall), g.links, a, b); }
    else { dev = lp = g.add(new XD<GunnsLiquidDisplacementPump>); lp->initialize(GunnsLiquidDisplacementPumpConfigData("x", &g.list, cyc, ratio, len, dia, rough, cv, types[0], cav.dur, cav.amp), GunnsLiquidDisplacementPumpInputData(false, 0, 0, speed, wall, cav.on), g.links, a, b); }
#define GETX(m) (gp ? gp->m : lp->m)
    g.start(); c.note = mon::fmt("%s displacement cycle %.4g ratio %.3g cv %d", liq ? "liquid" : "gas", cyc, ratio, cv); const double dt = r.p(0.2) ? r.logu(0.02, 1) : 0.1; bool blk = false; double blkV = 0, wallT = wall;
    for (int t = 0, steps = r.i(5, 40); t < steps && !c.failed(); ++t) { g.disturb(r, dt);
        if (r.p(0.2)) { speed = r.p(0.2) ? 0.0 : r.sgn() * r.uni(0, 1000); dev->setMotorSpeed(speed); } if (r.p(0.1)) { blk = r.p(0.5); blkV = r.p(0.3) ? 1.0 : r.u(); dev->setMalfBlockage(blk, blkV); } if (r.p(0.05)) { cv = !cv; dev->setCheckValveFlag(cv); } if (r.p(0.2)) { wallT = liq ? r.uni(285, 340) : r.uni(250, 400); dev->setWallTemperature(wallT); }
        if (liq && r.p(0.1)) { cav.full = r.p(0.4); cav.fd = r.logu(0.1, 20); lp->mCavitation.setMalfFullCavitation(cav.full, cav.fd); } if (liq && r.p(0.1)) { cav.part = r.p(0.4); cav.pd = r.logu(0.1, 20); cav.pa = r.p(0.6) ? 0.0 : r.uni(0, 0.3); lp->mCavitation.setMalfPartialCavitation(cav.part, cav.pd, cav.pa); }
        if (g.P(a) < 0.01 || g.P(b) < 0.01) break; const double ra = g.fl(a)->getDensity(), rb = g.fl(b)->getDensity(); const int inl = speed >= 0 || cv ? a : b; const double mwIn = dev->getInternalFluid()->getMWeight(); const double Pin = g.fl(inl)->getPressure(), Tin = g.fl(inl)->getTemperature();
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps"); double q = speed / ratio * cyc / 60; const bool open = q > 0 || !cv; if (!open) { q = 0; c.hit("cv-closed"); } NEAR(GETX(cv()), open ? 1.0 : 0.0, 0, 0, "pump-check-valve", "check valve position"); NEAR(GETX(speed()), speed / ratio, 1e-12, 0, "pump-speed", "impeller speed");
        double f = 0; bool noise = false; if (liq) { const double pv = g.mix.props.getProperties(types[0])->getSaturationPressure(Tin); cav.step(Pin < pv, dt); if (std::fabs(Pin - pv) < 1e-9 * pv) cav.f = lp->mCavitation.*XCav::frac(); f = lp->mCavitation.*XCav::frac(); NEAR(f, cav.f, 1e-9, 1e-12, "pump-cavitation", "cavitation fraction"); noise = cav.amp > 0 || cav.pa > 0; if (cav.growing) c.hit(cav.full ? "cav-malf" : "cav-auto"); }
        const double want = q * (1 - f) * (speed > 0 ? ra : rb), w = blk ? want * (1 - blkV) : want; if (!noise || (f == 0 && !cav.part && !cav.growing)) { NEAR(GETX(demand()), want, 1e-9, 1e-15, "pump-demand", mon::fmt("flow demand at %g rpm, densities %g, %g", speed, ra, rb)); const double lag = g.node(w > 0 ? a : b).getOutflow()->getMWeight() / mwIn;   // the flow is converted by the fluid of the step before
            if (types.size() == 1) NEAR(lag, 1.0, 1e-9, 0, "pump-weight", "molecular weight of the pumped fluid"); NEAR(dev->getFlowRate(), w * lag, 1e-6, 1e-13, "pump-flow", mon::fmt("delivered flow at %g rpm", speed)); }
        if (std::fabs(speed) > 1.2e-7) NEAR(GETX(torque()) * speed * 2 * M_PI / 60, -GETX(power()), 1e-9, 1e-15, "pump-torque", "torque times motor speed against power"); else CHK(GETX(torque()) == 0, "pump-torque", "torque at rest"); NEAR(GETX(power()), 1000 * std::fabs(GETX(vol()) * GETX(drop())), 1e-9, 1e-12, "pump-power", "fluid power"); NEAR(GETX(drop()), g.P(a) - g.P(b), 1e-9, 1e-9 * (g.P(a) + g.P(b)), "pump-drop", "pressure drop");
        const double heat = GETX(heat()); if (len * dia == 0) CHK(heat == 0, "pump-heat", mon::fmt("wall heat %g without a surface", heat)); g.same(c, "pump", A, B, dt, -heat * dt); PolyFluid* in = dev->getInternalFluid(); if (std::fabs(heat) > 1e-6 && in) CHK(heat * (in->getTemperature() - wallT) >= -1e-6, "pump-heat-sign", mon::fmt("wall heat %g with the fluid at %g K and the wall at %g K", heat, in->getTemperature(), wallT));
        c.hit(mon::mix(mon::mix(liq + 2 * cv, w > 0 ? 1 : w < 0 ? 2 : 0), blk + 2 * (f > 0) + 4 * (heat != 0)));
    }
#undef GETX
}

MON_PROP2(F13, head, "pressure head of an accelerated fluid column in a potential link") {
    mon::Rng& r = c.r; const bool liq = r.p(0.6); Rig g(r, 2, liq ? 1 : r.i(1, 3), 0, liq, r.p(0.7), 0.5, 20); g.make(r); const int a = r.p(0.5) ? 0 : 1, b = 1 - a;
    GunnsFluidPotential* l = g.add(new GunnsFluidPotential); l->initialize(GunnsFluidPotentialConfigData("x", &g.list, liq ? r.logu(1e-7, 1e-5) : r.logu(1e-5, 1e-2), 0.0), GunnsFluidPotentialInputData(false, 0, 0.0), g.links, a, b);
    double acc[3], R[9]; for (double& v : acc) v = r.uni(-20, 20); { double w = r.uni(-1, 1), x = r.uni(-1, 1), y = r.uni(-1, 1), z = r.uni(-1, 1); const double n = std::sqrt(w * w + x * x + y * y + z * z) + 1e-9; w /= n; x /= n; y /= n; z /= n; const double m[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}; std::copy(m, m + 9, R); }
    const bool rev = r.p(0.5), rot = r.p(0.6), tr = r.p(0.5); const double col[3] = {r.uni(-3, 3), r.p(0.3) ? 0.0 : r.uni(-3, 3), r.uni(-3, 3)}; struct XS : GunnsFluidPressureHead { explicit XS(GunnsFluidLink& k) : GunnsFluidPressureHead(k) {} double head() const { return mPressureHead; } } s(*l);
    GunnsFluidPressureHeadConfigData cf("s", col[0], col[1], col[2], acc, rev, rot ? R : 0, tr); GunnsFluidPressureHeadInputData in; s.initialize(&cf, &in); g.start(); c.note = mon::fmt("column (%.3g,%.3g,%.3g) rev %d rot %d transpose %d", col[0], col[1], col[2], rev, rot, tr);
    for (int t = 0, n = r.i(3, 20); t < n && !c.failed(); ++t) { g.disturb(r, 0.1); if (r.p(0.4)) for (double& v : acc) v = r.uni(-20, 20); const double rho = std::min(g.fl(a)->getDensity(), g.fl(b)->getDensity()); double A3[3]; for (int i = 0; i < 3; ++i) { double v = 0; if (rot) for (int j = 0; j < 3; ++j) v += (tr ? R[3 * j + i] : R[3 * i + j]) * acc[j]; else v = acc[i]; A3[i] = rev ? -v : v; } const double want = rho * (A3[0] * col[0] + A3[1] * col[1] + A3[2] * col[2]) * 1e-3;
        s.stepPreSolver(0.1); NEAR(s.head(), want, 1e-10, 1e-10 * rho, "head", mon::fmt("pressure head of density %g", rho)); const Rig::Ledger A = g.ledger(); g.net.step(0.1); s.stepPostSolver(0.1); const Rig::Ledger B = g.ledger(); if (g.over(c, A, 0.1)) break; const double Am = l->getAdmittanceMatrix()[0]; NEAR(l->getFlux(), Am * (g.P(a) + want - g.P(b)), 1e-7, 1e-13 + 1e-11 * Am * (g.P(a) + g.P(b) + std::fabs(want)), "head-flux", "flow driven by pressures and head"); g.same(c, "head", A, B, 0.1, 0); c.hit(mon::mix(rev + 2 * rot + 4 * tr, want > 0)); }
}
RESTART_PROP(pump)
