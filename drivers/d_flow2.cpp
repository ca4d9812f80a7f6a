// Turbines, drive shafts, rockets, high fidelity orifices and valves, equivalent circuit conductors (F18).
#include "rig.hpp"
#include "aspects/fluid/conductor/GunnsGasTurbine.hh"
#include "aspects/fluid/conductor/GunnsDriveShaftSpotter.hh"
#include "aspects/fluid/conductor/GunnsFluidSimpleRocket.hh"
#include "aspects/fluid/conductor/GunnsFluidEqConductor.hh"
#include "aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.hh"
#include "aspects/fluid/hi-fi/GunnsFluidHiFiValve.hh"
#include "aspects/fluid/potential/GunnsGasFan.hh"
#include "core/GunnsFluidUtils.hh"
#include "properties/CombustCH4.hh"
#include "software/exceptions/TsInitializationException.hh"
using namespace rig;
namespace {
// state of a link's two nodes when its step begins
struct End { double P = 0, T = 0, rho = 0, mw = 0, g = 0, mu = 0; FP::FluidPhase ph = FP::NO_PHASE; std::vector<double> x; };
End grab(PolyFluid* f) { End e; e.P = f->getPressure(); e.T = f->getTemperature(); e.rho = f->getDensity(); e.mw = f->getMWeight(); e.ph = f->getPhase(); e.mu = f->getViscosity(); if (e.ph == FP::GAS && e.T > 0) e.g = f->getAdiabaticIndex(); for (int k = 0; k < f->getNConstituents(); ++k) e.x.push_back(f->getMoleFraction(k)); return e; }
template<class B> struct Cap : B { End in[2], out[2]; double p[2] = { 0, 0 }, flow0 = 0; void step(const double dt) { for (int i = 0; i < 2; ++i) { in[i] = grab(this->mNodes[i]->getOutflow()); p[i] = this->mPotentialVector[i]; } flow0 = this->mFlowRate; B::step(dt); }
    void transportFlows(const double dt) { for (int i = 0; i < 2; ++i) out[i] = grab(this->mNodes[i]->getOutflow()); B::transportFlows(dt); } };
struct XT : Cap<GunnsGasTurbine>, rst::Keep { std::vector<double*> kept() override { return { &mPressureDrop }; } double pred() const { return mPredictedFlowRate; } double cond() const { return mEffectiveConductivity; } double ratio() const { return mPressureRatio; } double drop() const { return mPressureDrop; } double vol() const { return mVolFlowRate; } double motor() const { return mMotorSpeed; } double area() const { return mThermalSurfaceArea; } };
struct XFan : GunnsGasFan { double motor() const { return mMotorSpeed; } };
struct XSh : GunnsDriveShaftSpotter { double speed() const { return mMotorSpeed; } double load() const { return mTotalExternalLoad; } double fric() const { return mFrictionTorque; } double pt() const { return mPowerOutTurb; } double pf() const { return mPowerInFan; } bool init() const { return mInitFlag; } };
struct XR : Cap<GunnsFluidSimpleRocket> { double mach() const { return mExitMach; } double pe() const { return mExitPressure; } double te() const { return mExitTemperature; } double ue() const { return mExitVelocity; } double isp() const { return mSpecificImpulse; } double g() const { return mSystemConductance; } bool comb() const { return mCombustion; } double gam() const { return mChamberGamma; } double mwc() const { return mChamberMWeight; } double cs() const { return mCharacteristicVelocity; } double ge() const { return mExitGamma; } double mwe() const { return mExitMWeight; } };
struct XC : CombustCH4 { bool burns() const { return mCombustionOccurs; } };
template<class B> struct Hf : Cap<B>, rst::Keep { std::vector<double*> kept() override { return { &this->mCdActual, &this->mPressureRatio }; } double g() const { return this->mSystemConductance; } double cd() const { return this->mCdActual; } double re() const { return this->mReActual; } double area() const { return this->getEffectiveArea(); } };
struct XE : Cap<GunnsFluidEqConductor> { void in(double a, double b, double ta, double tb) { mPort0DemandFlux = a; mPort1DemandFlux = b; mPort0DemandTemperature = ta; mPort1DemandTemperature = tb; } double eq() const { return mEquivalentConductance; } double l0() const { return mPort0LeakConductance; } double l1() const { return mPort1LeakConductance; } void outputs(double* o, std::vector<double>& a, std::vector<double>& b) { o[0] = mPort0SupplyPressure; o[1] = mPort1SupplyPressure; o[2] = mPort0SupplyTemperature; o[3] = mPort1SupplyTemperature; const int n = mNodes[0]->getFluidConfig()->mNTypes; a.assign(mPort0SupplyMassFractions, mPort0SupplyMassFractions + n); b.assign(mPort1SupplyMassFractions, mPort1SupplyMassFractions + n); } };
struct Tb { double Tr, Pr, f[2], a[2], b[2], e[2][6], lo[2], hi[2], s[2], gain, ratio, len, dia; };
Tb turb(mon::Rng& r) { Tb t; t.Tr = r.uni(200, 600); t.Pr = r.uni(50, 300); for (int i = 0; i < 2; ++i) { t.f[i] = r.logu(1e-4, 0.5); t.a[i] = r.uni(0, 3); t.b[i] = r.uni(-0.5, 3); for (int k = 0; k < 6; ++k) t.e[i][k] = r.uni(-1, 1) / (1 + k * k); t.lo[i] = r.uni(0.1, 1.3); t.hi[i] = t.lo[i] + r.uni(0, 5); } t.s[0] = r.uni(100, 20000); t.s[1] = t.s[0] * r.uni(1.05, 5); t.gain = r.p(0.5) ? 1 : r.uni(0.05, 1); t.ratio = r.logu(0.1, 10); const bool th = r.p(0.5); t.len = th ? r.logu(0.1, 10) : 0; t.dia = th ? r.logu(0.01, 0.3) : 0; return t; }
double lerp(const double* v, double f) { return v[0] + f * (v[1] - v[0]); }
double clampd(double a, double x, double b) { return std::min(b, std::max(a, x)); }
const double W2 = 60 / (2 * M_PI);
GunnsGasTurbineConfigData tcfg(const std::string& n, GunnsNodeList* l, double G, double ex, const Tb& t) { return GunnsGasTurbineConfigData(n, l, G, ex, t.Tr, t.Pr, t.f[0], t.f[1], t.a[0], t.a[1], t.b[0], t.b[1], t.e[0][0], t.e[0][1], t.e[0][2], t.e[0][3], t.e[0][4], t.e[0][5], t.e[1][0], t.e[1][1], t.e[1][2], t.e[1][3], t.e[1][4], t.e[1][5], t.lo[0], t.lo[1], t.hi[0], t.hi[1], t.s[0], t.s[1], t.gain, t.ratio, t.len, t.dia, t.dia * 1e-3); }
// reference turbine at one step
struct Rt { double pd = 0, pr = 0, flow = 0, cond = 0;
    double frac(const Tb& t, double motor, double T) const { return (clampd(t.s[0], motor / t.ratio / (std::max(DBL_EPSILON, T) / t.Tr), t.s[1]) - t.s[0]) / (t.s[1] - t.s[0]); }
    void pre(const Tb& t, double motor, const End& s, double dp) { if (s.rho > 1.1920929e-7) { const double f = frac(t, motor, s.T), P = std::max(DBL_EPSILON, s.P); pd = t.gain * dp + (1 - t.gain) * pd; pr = std::max(1.0, P / std::max(DBL_EPSILON, P - pd)); flow = lerp(t.f, f) * ((pr - 1) * (pr - 1) + lerp(t.a, f) * (pr - 1)) / std::max(DBL_EPSILON, pr * pr + lerp(t.b, f)) * (P / t.Pr) / std::sqrt(s.T / t.Tr); } else flow = 0; }
    double eff(const Tb& t, double motor, double T) const { const double f = frac(t, motor, T); if (pr < lerp(t.lo, f) || pr > lerp(t.hi, f)) return 0; double v = 0; for (int k = 5; k >= 0; --k) v = v * pr + t.e[0][k] + f * (t.e[1][k] - t.e[0][k]); return clampd(0, v, 1); } };
std::vector<FP::FluidType> gasMix(mon::Rng& r) { std::vector<FP::FluidType> t = gases(); r.shuffle(t); t.resize(size_t(r.i(1, 4))); return t; }
}

MON_PROP2(F18, turbine, "turbine: curves, corrected speed, filter, efficiency window, wall heat, blockage; optional drive shaft with fans and turbines, jam, speed override") {
    mon::Rng& r = c.r; const int tanks = r.i(2, 3); Rig g(r, tanks, gasMix(r), r.p(0.4) ? r.i(1, 3) : 0, false, r.p(0.5), 0.2, 20); for (auto& s : g.init) s.P = r.logu(20, 1000); g.make(r); const Tb t = turb(r); const bool shaft = r.p(0.5), second = shaft && r.p(0.4); const double ex = r.p(0.7) ? 0 : r.u(), Gmax = r.logu(1e-6, 1e-2);
    Tb bt = t; double bm = r.p(0.1) ? 0 : r.uni(0, 40000), bw = r.uni(250, 500); const int bad = r.p(0.08) ? r.i(0, 8) : -1; switch (bad) { case 0: bt.Pr = 0; break; case 1: bt.Tr = -1; break; case 2: bt.ratio = 0; break; case 3: bt.f[r.i(0, 1)] = 0; break; case 4: bt.s[1] = bt.s[0]; break; case 5: bt.lo[1] = bt.hi[1] + 0.1; break; case 6: bt.lo[0] = bt.hi[0] = 0; break; case 7: bm = -1; break; case 8: bw = -1; break; default: break; }
    const int p0 = r.p(0.1) ? g.ground() : 0, p1 = p0 == 0 && r.p(0.15) ? g.ground() : 1; XT* x = g.add(new XT), * y = 0; bool mf = r.p(0.1); double mv = r.p(0.3) ? 1 : r.u(); bool threw = false; try { x->initialize(tcfg("t", &g.list, Gmax, ex, bt), GunnsGasTurbineInputData(mf, mv, bm, bw), g.links, p0, p1); } catch (const TsInitializationException& e) { threw = true; c.note = e.what(); }
    CHK(threw == (bad >= 0), "turbine-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "turbine-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(1 + bad); return; }
    if (second) { y = g.add(new XT); y->initialize(tcfg("t2", &g.list, Gmax, 0, t), GunnsGasTurbineInputData(false, 0, bm, bw), g.links, tanks - 1, 0); }
    XFan* fan = 0; if (shaft && r.p(0.7)) { fan = g.add(new XFan); const double q0 = r.uni(5, 40), q = r.logu(0.001, 0.1); fan->initialize(GunnsGasFanConfigData("fan", &g.list, r.logu(1e-5, 1e-2), 0, r.uni(0.5, 5), r.uni(1000, 20000), q0, 0, -q0 / (q * q), 0, 0, 0, r.uni(0.3, 0.9), q * 0.5, 0.5, r.logu(0.3, 3), 0, 0, 0, false), GunnsGasFanInputData(false, 0, 0, bm, 0), g.links, 1, 0); }
    XSh sh; double fc = r.p(0.2) ? 0 : r.logu(1e-6, 1e-2), fm = r.p(0.3) ? 0 : r.uni(1, 500), I = r.logu(0.01, 100), speed = bm, load = 0, fr = 0, jam = 0; bool jf = false, so = false; double sv = 0;
    if (shaft) { GunnsDriveShaftSpotterConfigData cf("shaft", fc, fm, I); GunnsDriveShaftSpotterInputData in(bm); const int b2 = r.p(0.1) ? r.i(0, 3) : -1; if (b2 == 0) cf.mFrictionConstant = -1; if (b2 == 1) cf.mFrictionMinSpeed = -1; if (b2 == 2) cf.mInertia = 0; if (b2 == 3) in.mMalfJamValue = -1; bool th = false; try { sh.initialize(&cf, &in); } catch (const TsInitializationException&) { th = true; } CHK(th == (b2 >= 0), "shaft-refuse", mon::fmt("bad shaft configuration %d", b2)); CHK(sh.init() == !th, "shaft-flag", "shaft initialization flag"); if (th) return; sh.addImpeller(x); if (y) sh.addImpeller(y); if (fan) sh.addImpeller(fan); bool no = false; GunnsFluidConductor other; try { sh.addImpeller(&other); } catch (const TsInitializationException&) { no = true; } CHK(no, "shaft-impeller", "a shaft accepts a link that is no impeller"); }
    const double lin = r.p(0.5) ? 0 : r.logu(1e-3, 2); g.start(); x->setMinLinearizationPotential(lin); const double dt = r.p(0.3) ? r.logu(0.01, 1) : 0.1; Rt ref, ref2; double wall = bw, area = t.len * M_PI * t.dia; double motor = bm;
    c.note = mon::fmt("%s%s ports %d %d", shaft ? "shaft " : "", second ? "two " : "", p0, p1);
    for (int k = 0; k < r.i(3, 25) && !c.failed(); ++k) { g.disturb(r, dt); if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (r.p(0.1)) { const double v = r.uni(-50, 600); x->setWallTemperature(v); wall = std::max(0.0, v); } if (r.p(0.05)) { const double v = r.uni(-1, 3); x->setThermalSurfaceArea(v); area = std::max(0.0, v); } if (!shaft && r.p(0.2)) { motor = r.p(0.2) ? 0 : r.uni(0, 60000); x->setMotorSpeed(motor); }
        if (shaft) { if (r.p(0.1)) { jf = r.p(0.5); jam = r.uni(0, 1.2); sh.mMalfJamFlag = jf; sh.mMalfJamValue = jam; } if (r.p(0.1)) { so = r.p(0.5); sv = r.uni(0, 50000); sh.mMalfSpeedOverrideFlag = so; sh.mMalfSpeedOverrideValue = sv; }
            fr = -fc * std::max(speed, fm); speed = std::max(DBL_EPSILON, speed + (load + fr) * dt * W2 / I); if (so) speed = sv; sh.stepPreSolver(dt); NEAR(sh.speed(), speed, 1e-11, 1e-12 * (std::fabs(load) + std::fabs(fr)) * dt * W2 / I + 1e-300, "shaft-speed", "shaft speed from the torques"); speed = sh.speed(); motor = speed; CHK(x->motor() == speed && (!y || y->motor() == speed) && (!fan || fan->motor() == speed), "shaft-impellers", "every impeller turns with the shaft"); }
        const Rig::Ledger A = g.ledger(); const double pf0 = x->getFlux(); const bool s1 = p0 == g.ground() || (p1 != g.ground() && pf0 < 0); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (shaft) sh.stepPostSolver(dt); if (g.over(c, A, dt)) break; c.count("steps"); (void)s1;
        // source of the previous flux; the ground is only the source when the flow comes from it (library rule)
        const End& src = x->in[pf0 < 0 ? 1 : 0]; const End& alt = x->in[(pf0 < 0 && p1 != g.ground()) || (pf0 > 0 && p0 == g.ground()) ? 1 : 0]; (void)src; const double dp = x->p[0] - x->p[1]; ref.pre(t, motor, alt, dp);
        NEAR(x->drop(), ref.pd, 1e-9, 1e-12, "turbine-filter", "filtered pressure drop"); NEAR(x->pred(), ref.flow, 1e-8, 1e-15, "turbine-curve", mon::fmt("predicted flow at pressure ratio %.6g", ref.pr)); if (c.failed()) break;
        double cond = Gmax; if (ref.flow >= 0) { cond = 0; const double d = std::fabs(x->in[0].P - x->in[1].P), rho = 0.5 * (x->in[0].rho + x->in[1].rho); if (d > DBL_EPSILON && rho > DBL_EPSILON) cond = ref.flow / std::sqrt(1000 * std::max(d, lin) * rho); } if (mf) cond *= 1 - mv; NEAR(x->cond(), cond, 1e-7, 1e-15, "turbine-conductivity", "conductivity that gives the predicted flow");
        if (mf && mv == 1) CHK(std::fabs(x->getFlux()) < 1e-12, "turbine-blocked", mon::fmt("flow %g through a fully blocked turbine", x->getFlux()));
        const End& so2 = x->out[(x->getFlux() < 0 && p1 != g.ground()) || (x->getFlux() > 0 && p0 == g.ground()) ? 1 : 0]; const double e = ref.eff(t, motor, so2.T); if (std::fabs(x->getEfficiency() - e) > 1e-6) { const double f = ref.frac(t, motor, so2.T); CHK(std::fabs(ref.pr - lerp(t.lo, f)) < 1e-6 || std::fabs(ref.pr - lerp(t.hi, f)) < 1e-6, "turbine-efficiency", mon::fmt("efficiency %g expected %g at pressure ratio %g", x->getEfficiency(), e, ref.pr)); } CHK(x->getEfficiency() >= 0 && x->getEfficiency() <= 1, "turbine-efficiency", "efficiency out of range");
        double pw = -1000 * std::fabs(x->vol()) * x->drop() * x->getEfficiency(); if (motor <= 1.1920929e-7) pw = 0; NEAR(x->getImpellerPower(), pw, 1e-9, 1e-12, "turbine-power", "impeller power"); NEAR(x->getImpellerTorque() * motor / W2, -pw, 1e-9, 1e-12, "turbine-torque", "torque times speed is the power"); if (!shaft || true) NEAR(x->getImpellerSpeed(), motor / t.ratio, 1e-12, 0, "turbine-speed", "impeller speed");
        const double q = x->getWallHeatFlux(), Ts = so2.T; if (area == 0 || x->getFlux() == 0) CHK(q == 0, "turbine-wall", mon::fmt("wall heat %g without area or flow", q)); else if (ex == 0 && Ts > 0 && std::fabs(Ts - wall) > 0.1 && std::fabs(x->getFlowRate()) > 1e-10) CHK(q * (Ts - wall) >= -1e-6 * std::fabs(q), "turbine-wall", mon::fmt("wall heat %g between fluid %g and wall %g", q, Ts, wall));
        if (shaft) { double L = x->getImpellerTorque() + (y ? y->getImpellerTorque() : 0) + (fan ? fan->getImpellerTorque() : 0); load = jf ? L * (1 - jam) : L; NEAR(sh.load(), load, 1e-11, 1e-12 * std::fabs(L), "shaft-load", "load on the shaft"); load = sh.load(); auto h = [&](GunnsFluidLink* l, int p) { return g.nodes[l->getNodeMap()[p]].getContent()->getSpecificEnthalpy(); };
            double pt = x->getEfficiency() * x->getFlowRate() * (h(x, 0) - h(x, 1)) - x->getWallHeatFlux(); if (y) pt += y->getEfficiency() * y->getFlowRate() * (h(y, 0) - h(y, 1)) - y->getWallHeatFlux(); const double pf = fan ? fan->getFlowRate() * (h(fan, 1) - h(fan, 0)) - fan->getWallHeatFlux() : 0; NEAR(sh.pt(), pt, 1e-9, 1e-9, "shaft-power", "turbine power"); NEAR(sh.pf(), pf, 1e-9, 1e-9, "shaft-power", "fan power"); NEAR(sh.getPowerExcess(), pt - pf, 1e-9, 1e-9 * (std::fabs(pt) + std::fabs(pf)), "shaft-power", "excess power"); }
        if (p0 < tanks && p1 < tanks && !shaft) g.same(c, "turbine", A, B, dt, -q * dt, std::fabs(q) * dt * 1e-6, true, ex == 0);
        c.hit(20 + mon::mix((x->getFlux() > 0) - (x->getFlux() < 0) + 4 * (e > 0) + 8 * shaft + 16 * mf, (p0 != 0) + 2 * (p1 != 1) + 4 * (area > 0) + 8 * so + 16 * jf)); }
}

MON_PROP2(F18, rocket, "rocket: throat, area ratio, gamma, ignition, combustion, tuning, pressures, both directions") {
    mon::Rng& r = c.r; Rig g(r, 2, gasMix(r), r.p(0.3) ? r.i(1, 3) : 0, false, r.p(0.4), 0.5, 50); g.init[0].P = r.logu(50, 8000); g.init[1].P = r.p(0.7) ? r.logu(1, 100) : r.logu(1, 9000); for (auto& s : g.init) s.T = r.uni(260, 450); g.make(r);
    double At = r.logu(1e-7, 1e-3), AR = r.p(0.15) ? 1 : r.p(0.3) ? r.uni(1, 1.3) : r.logu(1, 200), cs = r.uni(600, 2500), Tc = r.uni(600, 3800), gm = r.uni(1.08, 1.45), tt = r.p(0.3) ? 1 : r.uni(0, 1.2), rt = r.p(0.5) ? 0 : r.u(); const bool ign = r.p(0.5);
    double b[7] = { At, AR, cs, Tc, gm, tt, rt }; const int bad = r.p(0.08) ? r.i(0, 6) : -1; const double bv[7] = { 0, 0.999, 0, 0, 1, -0.1, r.p(0.5) ? -0.1 : 1.1 }; if (bad >= 0) b[bad] = bv[bad]; bool on = r.p(0.3), lit = r.p(0.3), threw = false; const int p1 = r.p(0.3) ? g.ground() : 1; XR* x = g.add(new XR); GunnsFluidSimpleRocketConfigData cf("r", &g.list, b[0], b[1], b[2], b[3], b[4], b[5], b[6], ign); GunnsFluidSimpleRocketInputData in(false, 0, on, lit);
    try { x->initialize(cf, in, g.links, 0, p1); } catch (const TsInitializationException& e) { threw = true; c.note = e.what(); } CHK(threw == (bad >= 0), "rocket-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "rocket-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(400 + bad); return; }
    const double lin = r.p(0.5) ? 0 : r.logu(1e-3, 2); g.start(); x->setMinLinearizationPotential(lin); const double dt = r.p(0.3) ? r.logu(0.005, 0.3) : 0.05; const double R = 8.314472, mwc = 1000 * R * Tc / gm * std::pow((gm + 1) / 2, (gm + 1) / (gm - 1)) / (cs * cs); int count = 0; bool comb = lit; c.note = mon::fmt("area ratio %g gamma %g%s", AR, gm, ign ? " ignited" : "");
    for (int k = 0; k < r.i(3, 25) && !c.failed(); ++k) { g.disturb(r, dt); if (r.p(0.15)) { on = r.p(0.6); x->setIgnition(on); } const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps");
        const bool run = x->flow0 > 1.1920929e-7; comb = ign ? run && (comb || on) : run; count = comb ? count + 1 : 0; CHK(x->comb() == comb, "rocket-combustion", mon::fmt("combustion %d expected %d (flow %g ignition %d)", x->comb(), comb, x->flow0, on));
        const double Pc = x->p[0], Tch = std::max(1.0, comb ? Tc : x->in[0].T), mw = std::max(2.0, comb ? mwc : x->in[0].mw), gc = std::max(1.0 + 1.1920929e-7, comb ? gm : x->in[0].g); NEAR(x->getChamberPressure(), Pc, 1e-12, 0, "rocket-chamber", "chamber pressure"); NEAR(x->getChamberTemperature(), Tch, 1e-9, 0, "rocket-chamber", "chamber temperature"); NEAR(x->mwc(), mw, 1e-6, 0, "rocket-chamber", "chamber molecular weight"); NEAR(x->gam(), gc, 1e-9, 0, "rocket-chamber", "chamber gamma");
        // nozzle: supersonic solution of the area relation, isentropic
        const double M = x->mach(), fm = 1 + 0.5 * (gc - 1) * M * M; auto ar = [&](double m) { return std::pow(2 / (gc + 1) * (1 + 0.5 * (gc - 1) * m * m), (gc + 1) / (2 * (gc - 1))) / m; }; CHK(M >= 1 - 2e-4, "rocket-mach", mon::fmt("exit Mach %g of a nozzle with area ratio %g", M, AR)); CHK(ar(std::max(1.0, M - 3e-4)) <= AR * (1 + 1e-9) + 1e-9 && ar(std::max(1.0, M) + 3e-4) >= AR * (1 - 1e-9) - 1e-6, "rocket-mach", mon::fmt("exit Mach %g gives area ratio %g, not %g", M, ar(M), AR)); if (c.failed()) break;
        NEAR(x->pe(), Pc * std::pow(fm, -gc / (gc - 1)), 1e-9, 1e-300, "rocket-exit", "exit pressure"); NEAR(x->te(), Tch / fm, 1e-9, 0, "rocket-exit", "exit temperature"); NEAR(x->ue(), M * std::sqrt(gc * 1000 * R / mw * Tch / fm), 1e-5, 0, "rocket-exit", "exit velocity is Mach times the speed of sound"); NEAR(x->isp(), comb ? x->ue() / 9.80665 : 0, 1e-6, 0, "rocket-isp", "specific impulse");
        // mass flow of the choked throat
        const double choke = At * Pc * 1000 * std::sqrt(gc * mw / (1000 * R * Tch)) * std::pow(2 / (gc + 1), (gc + 1) / (2 * (gc - 1))), pa = x->in[1].P, p0 = std::max(x->in[0].P, pa + lin); double G = 0; if (x->in[0].mw > 0 && x->p[0] > x->p[1] - 1.1920929e-7) G = (count == 1 ? At * 1000 / cs : choke / (p0 - pa)) / x->in[0].mw; NEAR(x->g(), G, count == 1 ? 1e-9 : 2e-3 + std::fabs(ar(M) - AR) / AR * 2, 1e-18, "rocket-choked", mon::fmt("conductance (combustion step %d, chamber %g kPa)", count, Pc));
        NEAR(x->getFlowRate(), x->getFlux() * x->out[x->getFlux() < 0 && p1 == 1 ? 1 : 0].mw, 1e-9, 1e-18, "rocket-flow", "mass flow"); NEAR(x->getThrust(), tt * x->getFlowRate() * x->isp() * 9.80665, 1e-9, 1e-12, "rocket-thrust", "thrust"); if (x->getFlowRate() > 1e-6) { NEAR(x->cs() * x->getFlowRate(), x->getPotentialVector()[0] * 1000 * At, 1e-9, 0, "rocket-cstar", "characteristic velocity"); } if (p1 == 1) g.same(c, "rocket", A, B, dt, 0);
        c.hit(420 + mon::mix(comb + 2 * ign + 4 * on + 8 * (x->getFlux() > 0), int(std::log2(AR)) + 8 * (p1 == 1) + 16 * std::min(count, 3))); }
}

MON_PROP2(F18, burner, "rocket with the methane combustion model: mixtures in and out of the flammable range, helium, ignition, recombination tuning; a second model fed the chamber conditions tells what must come out") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> ty; ty.push_back(FP::GUNNS_O2); ty.push_back(FP::GUNNS_CH4); if (r.p(0.3)) ty.push_back(FP::GUNNS_HE); r.shuffle(ty); const int n = int(ty.size()); Rig g(r, 2, ty, 0, false, false, 0.5, 50);
    // tank 0 is given by its mole fraction of methane
    const double fu = r.p(0.2) ? r.uni(0.0, 0.05) : r.uni(0.06, 0.62), he = n == 3 ? r.uni(0, 0.1) : 0; double ms = 0; for (int i = 0; i < n; ++i) { const double xm = ty[size_t(i)] == FP::GUNNS_CH4 ? fu * 16.0426 : ty[size_t(i)] == FP::GUNNS_HE ? he * 4.0026 : (1 - fu - he) * 31.9988; g.init[0].x[size_t(i)] = xm; ms += xm; } for (int i = 0; i < n; ++i) g.init[0].x[size_t(i)] /= ms;
    g.init[0].P = r.logu(100, 8000); g.init[1].P = r.p(0.85) ? r.logu(1, 80) : r.logu(100, 9000); for (auto& s : g.init) s.T = r.uni(260, 600); g.make(r); const double At = r.logu(1e-6, 1e-4), AR = r.p(0.2) ? 1 : r.logu(1, 100), cs = r.uni(1000, 2200), tt = r.p(0.3) ? 1 : r.uni(0, 1.2), rt = r.p(0.25) ? 0 : r.p(0.25) ? 1 : r.u(); double Tc = r.uni(1800, 3600), gm = r.uni(1.1, 1.3); const bool ign = r.p(0.5); bool on = r.p(0.5), lit = r.p(0.3), comb = lit;
    const int p1 = r.p(0.3) ? g.ground() : 1; XR* x = g.add(new XR); x->initialize(GunnsFluidSimpleRocketConfigData("r", &g.list, At, AR, cs, Tc, gm, tt, rt, ign, CombustFactory::CH4), GunnsFluidSimpleRocketInputData(false, 0, on, lit), g.links, 0, p1); g.start(); const double dt = 0.05, R = 8.314472; double mwc = 1000 * R * Tc / gm * std::pow((gm + 1) / 2, (gm + 1) / (gm - 1)) / (cs * cs); XC k; int count = 0; c.note = mon::fmt("methane %.4f helium %.4f tuning %g area ratio %g%s", fu, he, rt, AR, ign ? " ignited" : "");
    for (int s = 0, N = r.i(3, 12); s < N && !c.failed(); ++s) { if (r.p(0.15)) { on = r.p(0.7); x->setIgnition(on); } const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("burner_steps"); const End& in = x->in[0]; const double Pc = x->p[0]; if (!(x->flow0 > 1.1920929e-7) && x->flow0 > 1.19e-7) break;
        const bool run = x->flow0 > 1.1920929e-7; comb = ign ? run && (comb || on) : run; bool threw = false;
        if (comb) { std::vector<double> f = in.x; std::vector<FP::FluidType> t = ty; try { k.updateCombustionMixture(Tc, Pc, in.T, f.data(), t.data(), n); if (k.getTemp() <= in.T) comb = false; else { Tc = k.getTemp(); gm = k.getGamma(); mwc = k.getMolecWeight(); } } catch (const TsInitializationException&) { threw = true; c.count("burner_refused"); } }
        count = comb ? count + 1 : 0; CHK(x->comb() == comb, "burner-combustion", mon::fmt("combustion %d expected %d (flow %g ignition %d)", x->comb(), comb, x->flow0, on)); const double T = std::max(1.0, comb ? Tc : in.T), mw = std::max(2.0, comb ? mwc : in.mw), gc = std::max(1.0 + 1.1920929e-7, comb ? gm : in.g);
        NEAR(x->getChamberTemperature(), T, 1e-9, 0, "burner-chamber", "chamber temperature is the flame's"); NEAR(x->mwc(), mw, 1e-6, 0, "burner-chamber", "chamber molecular weight"); NEAR(x->gam(), gc, 1e-9, 0, "burner-chamber", "chamber gamma"); if (c.failed()) break;
        const double M = x->mach(), fm = 1 + 0.5 * (gc - 1) * M * M, Pe = Pc * std::pow(fm, -gc / (gc - 1)); double Te = T / fm, Ue = M * std::sqrt(gc * 1000 * R / mw * T / fm), ge = gc, mwe = mw; NEAR(x->pe(), Pe, 1e-9, 1e-300, "burner-exit", "exit pressure"); bool rec = false;
        if (comb && rt > 1.1920929e-7) { try { double dH = k.getEnth() * 1e6; k.updateRecombinationMixture(Te, x->pe()); dH -= k.getEnth() * 1e6; if (dH > 0) { rec = true; Ue += rt * (std::sqrt(2 * dH) - Ue); Te += rt * (k.getTemp() - Te); ge += rt * (k.getGamma() - ge); mwe += rt * (k.getMolecWeight() - mwe); } } catch (const TsInitializationException&) { c.count("burner_frozen"); } }
        NEAR(x->te(), Te, 1e-7, 0, "burner-exit", "exit temperature"); NEAR(x->ue(), Ue, 1e-5, 0, "burner-exit", "exit velocity"); NEAR(x->ge(), ge, 1e-7, 0, "burner-exit", "exit gamma"); NEAR(x->mwe(), mwe, 1e-6, 0, "burner-exit", "exit molecular weight"); NEAR(x->isp(), comb ? x->ue() / 9.80665 : 0, 1e-6, 0, "burner-isp", "specific impulse"); if (c.failed()) break;
        const double pa = x->in[1].P, p0 = std::max(in.P, pa), md = At * AR * x->ue() * x->pe() * x->mwe() / (R * x->te()); if (p0 - pa > 1e-3) { double G = 0; if (in.mw > 0 && x->p[0] > x->p[1] - 1.1920929e-7) G = (count == 1 ? At * 1000 / cs : md / (p0 - pa)) / in.mw; NEAR(x->g(), G, 1e-6, 1e-18, "burner-conductance", mon::fmt("conductance (combustion step %d)", count)); }
        NEAR(x->getThrust(), tt * x->getFlowRate() * x->isp() * 9.80665, 1e-9, 1e-12, "burner-thrust", "thrust"); if (p1 == 1) g.same(c, "burner", A, B, dt, 0); c.count(comb ? "burner_burning" : "burner_out");
        c.hit(1300 + mon::mix(comb + 2 * ign + 4 * on + 8 * rec + 16 * threw, int(std::log2(AR)) + 8 * (p1 == 1) + 16 * std::min(count, 3) + 64 * int(fu * 16))); }
}

MON_PROP2(F18, hifi, "high fidelity orifice or valve: gas or liquid, critical or not, coefficient types, Reynolds limit, blockage, position, leak through") {
    mon::Rng& r = c.r; const bool liq = r.p(0.3), valve = r.p(0.6); std::vector<FP::FluidType> ty = liq ? std::vector<FP::FluidType>(1, r.p(0.6) ? FP::GUNNS_WATER : liquids()[size_t(r.i(0, 2))]) : gasMix(r); Rig g(r, 2, ty, r.p(0.3) ? r.i(1, 3) : 0, liq, r.p(0.5), 0.2, 20, liq ? 20 : 1e9); if (!liq) { const double P = r.logu(10, 2000); for (auto& s : g.init) s.P = P * (r.p(0.5) ? r.uni(0.3, 1) : r.uni(0.95, 1)); } g.make(r);
    typedef GunnsFluidHiFiOrificeConfigData C; const double D = liq ? r.logu(1e-4, 5e-3) : r.logu(1e-4, 0.03), A0 = M_PI / 4 * D * D, rec = r.p(0.2) ? 0 : r.logu(10, 1e4), Cd = r.uni(0.05, 1), tun = r.p(0.5) ? 1 : r.uni(0.2, 2), ex = r.p(0.7) ? 0 : r.u(); const int type = r.i(0, 2); double val = type == 0 ? Cd : type == 1 ? Cd * A0 * C::mConvertKvToCd : Cd * A0 * C::mConvertCvToCd; double pos = r.p(0.2) ? 0 : r.u(), leak = r.p(0.5) ? 0 : r.logu(1e-8, 1e-3); bool lf = leak > 0 && r.p(0.3);
    double bD = D, br = rec, be = ex, bt = tun, bp = pos, bl = leak; const int bad = r.p(0.08) ? r.i(0, 7) : -1; switch (bad) { case 0: bD = 0; break; case 1: val *= r.p(0.5) ? 0 : 1.01 / Cd; break; case 2: br = -1; break; case 3: be = r.p(0.5) ? 1.1 : -0.1; break; case 4: bt = -0.1; break; case 5: bp = r.p(0.5) ? -0.1 : 1.1; break; case 6: bl = -1; break; case 7: break; default: break; } const bool expect = bad >= 0 && (valve || (bad != 5 && bad != 6));
    bool mf = r.p(0.1); double mv = r.p(0.3) ? 1 : r.u(); int p0 = r.p(0.1) && !liq ? g.ground() : 0, p1 = p0 == 0 && !liq && r.p(0.15) ? g.ground() : 1; bool threw = false; const C::CoeffTypes ct = bad == 7 ? C::CoeffTypes(3) : type == 0 ? C::DISCHARGE_COEFF : type == 1 ? C::FLOW_FACTOR : C::FLOW_COEFF; Hf<GunnsFluidHiFiOrifice>* o = valve ? 0 : g.add(new Hf<GunnsFluidHiFiOrifice>); Hf<GunnsFluidHiFiValve>* v = valve ? g.add(new Hf<GunnsFluidHiFiValve>) : 0; GunnsFluidHiFiOrifice* x = o; if (v) x = v;
    try { if (v) v->initialize(GunnsFluidHiFiValveConfigData("v", &g.list, ct, val, bD, br, be, bt), GunnsFluidHiFiValveInputData(mf, mv, bp, lf, bl), g.links, p0, p1); else o->initialize(C("o", &g.list, ct, val, bD, br, be, bt), GunnsFluidHiFiOrificeInputData(mf, mv), g.links, p0, p1); } catch (const TsInitializationException& e) { threw = true; c.note = e.what(); }
    CHK(threw == expect, "hifi-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "hifi-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(600 + bad); return; }
    const double lin = r.p(0.5) ? 0 : r.logu(1e-3, 2); g.start(); x->setMinLinearizationPotential(lin); const double dt = r.p(0.3) ? r.logu(0.01, 1) : 0.1; double last = 0, lar = 0, alt = 0; c.note = mon::fmt("%s %s Cd %.3g D %.3g ports %d %d", valve ? "valve" : "orifice", liq ? "liquid" : "gas", Cd, D, p0, p1);
    for (int k = 0; k < r.i(3, 25) && !c.failed(); ++k) { g.disturb(r, dt); if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (v && r.p(0.2)) { pos = r.p(0.3) ? 0 : r.u(); v->setPosition(pos); } if (v && r.p(0.1)) { lf = r.p(0.6); leak = r.logu(1e-8, 1e-3); v->setMalfLeakThru(lf, leak); }
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps"); const End* in = v ? v->in : o->in; const double* P = v ? v->p : o->p; const double f0 = v ? v->flow0 : o->flow0; const int i = p0 == g.ground() || P[1] > P[0] ? 1 : 0, e = 1 - i; const End& s = in[i], & d = in[e]; if ((i == 0 ? p0 : p1) == g.ground() || s.rho < 1e-12 || s.mu <= 0 || (lin == 0 && s.P - d.P < 1e-6)) { c.count("ground_inlet"); if (v && lf && last != leak) break; continue; }
        const double re = s.rho * (std::fabs(f0) / s.rho / A0) * D / s.mu; NEAR(v ? v->re() : o->re(), re, 1e-6, 1e-300, "hifi-reynolds", "Reynolds number"); double cd = Cd * std::sqrt(std::min(rec, re) / std::max(rec, DBL_EPSILON)); if (cd < DBL_EPSILON) cd = Cd; NEAR(v ? v->cd() : o->cd(), cd, 1e-6, 0, "hifi-cd", mon::fmt("discharge coefficient at Reynolds %g of %g", re, rec));
        const double pd = std::max(0.0, d.P), pu = std::max(s.P, pd + lin), dp = pu - pd; double flux = 0; if (!liq) { const double gm = s.g, cr = std::pow(2 / (gm + 1), gm / (gm - 1)), pr = std::max(pd / pu, cr); flux = std::sqrt(2 * pu * 1000 * s.rho * gm / (gm - 1) * (std::pow(pr, 2 / gm) - std::pow(pr, (gm + 1) / gm))); } else flux = std::sqrt(2 * 0.5 * (s.rho + d.rho) * dp * 1000);
        double area = A0 * (mf ? 1 - mv : 1) * (valve ? pos : 1); if (v && lf) { if (last != leak) { last = leak; const double fx = flux * cd * tun; if (fx > 0) lar = std::min(A0, leak / fx); alt = 0; if (!liq) { /* the regime is that of the previous pass, taken as critical on the first */ const double gm = s.g, cr = std::pow(2 / (gm + 1), gm / (gm - 1)), pq = pd / pu; for (double q : { cr, pq }) { const double fq = std::sqrt(std::max(0.0, 2 * pu * 1000 * s.rho * gm / (gm - 1) * (std::pow(q, 2 / gm) - std::pow(q, (gm + 1) / gm)))) * cd * tun; if (fq > 0 && std::fabs(q - std::max(pq, cr)) > 1e-9) alt = std::min(A0, leak / fq); } } const double pt = P[i] - P[e]; if (pt <= lin || std::fabs(pt - dp) > 1e-3 * pt) { c.count("leak_low_pressure"); break; } } if (alt > 0 && std::fabs(v->area() - std::max(area, lar)) > 2e-3 * std::max(area, lar) && std::fabs(v->area() - std::max(area, alt)) <= 2e-3 * v->area()) { lar = alt; alt = 0; c.count("leak_last_regime"); } area = std::max(area, lar); } else { last = lar = alt = 0; }
        NEAR(v ? v->area() : o->area(), area, 2e-3, 1e-18, "hifi-area", mon::fmt("effective area (position %g leak %d %g kg/s)", pos, lf, leak)); const double mw = s.mw < DBL_EPSILON ? d.mw : d.mw < DBL_EPSILON ? s.mw : 0.5 * (s.mw + d.mw), G = tun * cd * flux * (v ? v->area() : o->area()) / dp / mw; NEAR(v ? v->g() : o->g(), G, 1e-6, 1e-20, "hifi-conductance", mon::fmt("conductance from %g to %g kPa", s.P, d.P));
        if (area == 0) CHK(std::fabs(x->getFlux()) < 1e-12, "hifi-closed", mon::fmt("flow %g through no area", x->getFlux())); if (x->getFlux()) CHK((x->getFlux() > 0) == (x->getPotentialVector()[0] > x->getPotentialVector()[1]), "hifi-direction", "flow against the pressure"); if (p0 == 0 && p1 == 1) g.same(c, "hifi", A, B, dt, 0, 0, true, ex == 0 || liq);
        c.hit(620 + mon::mix((x->getFlux() > 0) + 2 * liq + 4 * valve + 8 * lf + 16 * mf, (re < rec) + 2 * (pd / pu < 0.52) + 4 * (p0 != 0) + 8 * (p1 != 1) + 16 * type)); }
}

MON_PROP2(F18, equivalent, "equivalent circuit conductor: demand fluxes of both signs, leaks, temperatures, mixtures that change") {
    mon::Rng& r = c.r; const bool liq = r.p(0.2); Rig g(r, 2, liq ? std::vector<FP::FluidType>(1, FP::GUNNS_WATER) : gasMix(r), r.p(0.3) ? r.i(1, 3) : 0, liq, r.p(0.7), 0.2, 20); g.make(r); XE* x = g.add(new XE); const bool cap = r.p(0.4); x->initialize(GunnsFluidEqConductorConfigData("e", &g.list, cap), GunnsFluidEqConductorInputData(), g.links, 0, 1); CHK(x->isInitialized(), "equivalent-flag", "not initialized"); g.start(); const double dt = 0.1; const int n = g.mix.n(); double drop = 0, last = 0; int mode = r.i(0, 5);
    for (int k = 0; k < r.i(4, 30) && !c.failed(); ++k) { g.disturb(r, dt); if (r.p(0.15)) mode = r.i(0, 5); const double f = std::min(g.fl(0)->getMole(), g.fl(1)->getMole()) / dt * r.logu(1e-6, 0.02); double a = 0, b = 0; const double lk = r.p(0.5) ? 0 : r.u() * 0.5; switch (mode) { case 0: a = f; b = -f * (1 - lk); break; case 1: b = f; a = -f * (1 - lk); break; case 2: a = f; b = f * r.u(); break; case 3: a = f; break; case 4: b = f; break; default: a = -f; b = -f; break; } const double ta = g.fl(0)->getTemperature(), tb = g.fl(1)->getTemperature(), D0 = ta + r.uni(-20, 20), D1 = tb + r.uni(-20, 20); x->in(a, b, D0, D1);
        const Rig::Ledger A = g.ledger(); std::vector<double> s0(n), x0(n), x1(n); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps");
        double avg = 0, l0 = 0, l1 = 0; if (mode == 0) { avg = (a - b) / 2; l1 = a + b; } else if (mode == 1) { avg = (b - a) / 2; l0 = a + b; } else if (mode == 2) { l0 = a; l1 = b; } else if (mode == 3) l0 = a; else if (mode == 4) l1 = b; (void)drop; NEAR(x->eq(), std::fabs(last) > DBL_EPSILON ? std::min(1e15, avg / std::fabs(last)) : 0, 1e-9, 1e-20, "equivalent-conductance", mon::fmt("equivalent conductance (mode %d)", mode)); NEAR(x->l0(), x->p[0] > DBL_EPSILON ? l0 / x->p[0] : 0, 1e-9, 1e-20, "equivalent-leak", "leak conductance of port 0"); NEAR(x->l1(), x->p[1] > DBL_EPSILON ? l1 / x->p[1] : 0, 1e-9, 1e-20, "equivalent-leak", "leak conductance of port 1"); last = drop; drop = x->getPotentialDrop(); NEAR(x->getFlux(), x->eq() * (x->getPotentialVector()[0] - x->getPotentialVector()[1]), 1e-9, 1e-15, "equivalent-flux", "flux");
        // content changes by the leaks only; the section keeps the mixture that flows into it
        if (x->getPotentialVector()[0] <= 0 || x->getPotentialVector()[1] <= 0) { c.count("drained"); break; } const double q0 = x->l0() * x->getPotentialVector()[0], q1 = x->l1() * x->getPotentialVector()[1], e = g.eps(dt); double dm = 0; for (int i = 0; i < n; ++i) { const double M = g.fl(0)->getProperties(g.mix.types[i])->getMWeight(), ds = -(q0 * x->out[0].x[i] + q1 * x->out[1].x[i]) * M * dt; dm += ds; NEAR(B.s[i], A.s[i] + ds, 0, (liq ? 1e-8 : 1e-9) * A.m + e + 1e-9 * std::fabs(ds), "equivalent-species", mon::fmt("mass of constituent %d (leaks %g)", i, ds)); } NEAR(B.m, A.m + dm, liq ? 1e-8 : 1e-9, e, "equivalent-mass", mon::fmt("total mass (leaks %g)", dm));
        if (q0 == 0 && q1 == 0) for (int i = 0; i < g.mix.nTc(); ++i) NEAR(B.t[i], A.t[i], 1e-8, 1e-6 * e + 1e-13 * A.m, "equivalent-trace", mon::fmt("mass of trace compound %d", i));
        x->processOutputs(); double o[4]; std::vector<double> m0, m1; x->outputs(o, m0, m1); for (int i = 0; i < 2; ++i) { NEAR(o[i], g.P(i), 1e-12, 0, "equivalent-output", "supply pressure"); NEAR(o[2 + i], g.fl(i)->getTemperature(), 1e-12, 0, "equivalent-output", "supply temperature"); for (int j = 0; j < n; ++j) NEAR((i ? m1 : m0)[j], g.fl(i)->getMassFraction(j), 1e-12, 0, "equivalent-output", "supply mass fraction"); }
        c.hit(900 + mon::mix(mode + 8 * ((x->getFlux() > 0) - (x->getFlux() < 0)), (lk > 0) + 2 * cap + 4 * n)); }
}
RESTART_PROP(flow2)
