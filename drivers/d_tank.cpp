// Tanks, balloons and accumulators (F15).
#include "rig.hpp"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccumGas.hh"
#include "aspects/fluid/capacitor/GunnsFluidBalloon.hh"
#include "aspects/fluid/capacitor/GunnsFluidTank.hh"
using namespace rig;
namespace {
double clamp(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }
struct XT : GunnsFluidTank, rst::Keep { XT() {} bool refuse() override { bool e = mEditVolumeFlag || mEditTemperatureFlag || mEditTemperaturePressureFlag || mEditTemperaturePartialPressureFlag; for (int i = 0; i < mNConstituents; ++i) e = e || mEditPartialPressureRateFlag[i]; return e; } const double* pp() const { return mPartialPressure; } const double* mf() const { return mMassFraction; } const double* yf() const { return mMoleFraction; } double fromShell() const { return mHeatFluxFromShell; } double toShell() const { return mHeatFluxToShell; } void shell(double t) { mShellTemperature = t; } bool tp() const { return mEditTemperaturePressureFlag; } bool tpp() const { return mEditTemperaturePartialPressureFlag; } bool t1() const { return mEditTemperatureFlag; } bool rateOn(int i) const { return mEditPartialPressureRateFlag[i]; } void volEdit(double v) { mEditVolumeFlag = true; mEditVolume = v; } };
struct XB : GunnsFluidBalloon, rst::Keep { bool refuse() override { return true; }   // its volume is derived again from the pressure
    double infl() const { return mActualInflatability; } double p1() const { return mPotentialVector[1]; } double p0() const { return mPotentialVector[0]; } double maxV() const { return mMaxVolume; } double minV() const { return mMinVolume; } void volEdit(double v) { mEditVolumeFlag = true; mEditVolume = v; } bool tp() const { return mEditTemperaturePressureFlag; } };
template<class B> struct XA : B, rst::Keep {
    std::function<void()> snapshot() override { const auto z = this->mBellowsZone; const auto f = this->mFillMode; return [this, z, f] { this->mBellowsZone = z; this->mFillMode = f; }; }
    PolyFluid* liq() { return this->mInternalFluid; } double bel() const { return this->mBellowsPosition; } double lv() const { return this->mLiquidVolume; } double pv() const { return this->mPressurizerVolume; } double tot() const { return this->mTotalVolume; } double vmin() const { return this->mMinChamberVol; } double vmax() const { return this->mMaxChamberVol; } double vdb() const { return this->mMinDeadBandVol; }
    double spring() const { return this->mSpringPressure; } double A(int i) const { return this->mAdmittanceMatrix[i]; } double scale() const { return this->mEffConductivityScale; } double cap() const { return this->mLiqCapacitance; } double reading() const { return this->mLiquidPressureReading; } bool stuck() const { return this->mBellowsStuck; } double head() const { return this->mAccelPressureHead; } double flow() const { return this->mFlowRate; } double vol() const { return this->mVolFlowRate; }
    void edit(double pos, double rate) { this->mEditBellowsFlag = true; this->mEditBellowsPosition = pos; this->mEditBellowsRate = rate; } bool editing() const { return this->mEditBellowsFlag; } void editT(double t) { this->mEditTemperatureFlag = true; this->mEditTemperatureValue = t; } bool editingT() const { return this->mEditTemperatureFlag; } void hold(bool v) { this->mHoldAccumFlag = v; } void holdT(bool v) { this->mHoldTemperatureFlag = v; } };
struct XG : XA<GunnsFluidAccumGas> { PolyFluid* gas() { return mGasInternalFluid; } double gflux() const { return mGasFlux; } double gflow() const { return mGasFlowRate; } double gcap() const { return mGasCapacitance; } };
struct Dev { double m = 0, e = 0, ea = 0; std::vector<double> s, t; };
void put(Dev& d, Rig& g, PolyFluid* f) { d.m += f->getMass(); const double e = f->getMass() * f->getSpecificEnthalpy(); d.e += e; d.ea += std::fabs(e); for (int k = 0; k < g.mix.n(); ++k) d.s[k] += massOf(f, k); for (int k = 0; k < g.mix.nTc(); ++k) d.t[k] += f->getTraceCompounds()->getMasses()[k]; }
Dev zero(Rig& g) { Dev d; d.s.assign(g.mix.n(), 0.0); d.t.assign(g.mix.nTc(), 0.0); return d; }
void judge(mon::Ctx& c, Rig& g, const char* key, const Rig::Ledger& A, const Dev& a, const Rig::Ledger& B, const Dev& b, double dt, double heat) {
    const double e = g.eps(dt), M = A.m + a.m; NEAR(B.m + b.m, M, 1e-9, e, std::string(key) + "-mass", mon::fmt("%s: total mass of network and device", key));
    for (int k = 0; k < g.mix.n(); ++k) NEAR(B.s[k] + b.s[k], A.s[k] + a.s[k], 0, 1e-9 * M + e, std::string(key) + "-species", mon::fmt("%s: mass of constituent %d", key, k));
    for (int k = 0; k < g.mix.nTc(); ++k) NEAR(B.t[k] + b.t[k], A.t[k] + a.t[k], 1e-8, 1e-6 * e + 1e-13 * M, std::string(key) + "-trace", mon::fmt("%s: mass of trace compound %d", key, k));
    NEAR(B.e + b.e, A.e + a.e + heat, 0, 3e-7 * (A.eAbs + a.ea) + e * ((A.eAbs + a.ea) / M + 1e6), std::string(key) + "-energy", mon::fmt("%s: total energy (heat %.4g)", key, heat)); }
}

MON_PROP2(F15, tank, "tank edits, shell heat, pressure rate and outputs") {
    mon::Rng& r = c.r; const int nt = r.i(1, 4); Rig g(r, 2, nt, r.p(0.4) ? r.i(1, 3) : 0, false, r.p(0.7)); g.make(r);
    // replace tank 0's capacitor by a tank on an extra node is not needed: build the tank under test on node 0
    const double V = g.vol[0]; for (size_t i = 0; i < g.links.size(); ++i) if (g.links[i] == g.own[0].get()) { g.links.erase(g.links.begin() + long(i)); break; }
    XT* x = g.add(new XT); const double gain = r.p(0.3) ? 0 : r.u(), area = r.p(0.5) ? 0 : r.logu(0.01, 10), rad = r.logu(0.05, 2); Input in(g.init[0]); const double ts = r.uni(220, 420); x->initialize(GunnsFluidTankConfigData("x", &g.list, 0.0, gain, 0.0, r.p(0.5) ? 1e-6 : 1e-2, float(area), float(rad)), GunnsFluidTankInputData(false, 0, V, &in.in, float(ts), 0.0f), g.links, 0, g.ground());
    GunnsFluidConductor* q = g.add(new GunnsFluidConductor); q->initialize(GunnsFluidConductorConfigData("q", &g.list, r.logu(1e-7, 1e-4)), GunnsFluidConductorInputData(), g.links, 0, 1); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; const int n = g.mix.n(); double dpdt = 0, pPrev = g.P(0); int mode = 0; c.note = mon::fmt("V %.3g area %.3g types %d P %.4g", V, area, n, g.P(0)); double shell = double(float(ts));
    double hotPrev = 0; int kind = 0; double wantT = 0, wantP = 0, drift = 0; std::vector<double> wantPP(size_t(n), 0.0), rate(size_t(n), 0.0), tgt(size_t(n), 0.0); float bias = 0;
    const int steps = r.i(6, 40); for (int t = 0; t < steps && !c.failed(); ++t) { const bool quiet = kind != 0 || r.p(0.3); if (quiet) for (auto* s : g.src) s->setFlowDemand(0); else g.disturb(r, dt);
        if (r.p(0.2)) { shell = r.uni(220, 420); x->shell(shell); } if (r.p(0.1)) { bias = float(r.p(0.5) ? 0 : r.sgn() * r.logu(0.1, 50)); x->setBiasHeatFlux(bias); }
        if (!mode && r.p(0.15)) { mode = r.i(1, 5); wantT = r.uni(220, 420); wantP = r.logu(2, 800); if (mode == 1) x->editTemperaturePressure(true, wantT, wantP); else if (mode == 2) { for (auto& v : wantPP) v = r.p(0.2) && n > 1 ? 0 : r.logu(1, 300); double s = 0; for (double v : wantPP) s += v; if (s <= 0) wantPP[0] = 50; x->editTemperaturePartialPressure(true, wantT, wantPP.data()); } else if (mode == 3) x->editTemperature(true, wantT); else if (mode == 4) { wantP = V * r.uni(0.5, 2); x->volEdit(wantP); } else { for (int i = 0; i < n; ++i) { tgt[i] = x->pp()[i]; rate[i] = 0; } const int i = r.i(0, n - 1); rate[i] = r.logu(0.01, 20); tgt[i] = x->pp()[i] + r.sgn() * rate[i] * dt * r.i(1, 6); tgt[i] = std::max(0.05, tgt[i]); x->editPartialPressureRate(g.mix.types[size_t(i)], true, tgt[i], rate[i]); } kind = mode; drift = 0; }
        const double P0 = g.P(0), T0 = g.fl(0)->getTemperature(), V0 = g.node(0).getVolume(); std::vector<double> pp0(x->pp(), x->pp() + n), x0(x->mf(), x->mf() + n), y0(x->yf(), x->yf() + n); const Rig::Ledger A = g.ledger(); g.net.step(dt); x->processOutputs(); const Rig::Ledger B = g.ledger(); c.count("steps"); if (g.over(c, A, dt)) break; if (P0 < 1 || g.P(0) < 1) { c.count("near_vacuum"); break; }
        // outputs describe the node's content
        double s = 0, sx = 0; for (int i = 0; i < n; ++i) { s += x->pp()[i]; sx += x->mf()[i]; NEAR(x->pp()[i], g.fl(0)->getPressure() * g.fl(0)->getMoleFraction(i), 1e-9, 1e-12, "tank-outputs", "partial pressure output"); NEAR(x->mf()[i], g.fl(0)->getMassFraction(i), 1e-12, 0, "tank-outputs", "mass fraction output"); NEAR(x->yf()[i], g.fl(0)->getMoleFraction(i), 1e-12, 0, "tank-outputs", "mole fraction output"); } NEAR(s, g.fl(0)->getPressure(), 1e-9, 1e-12, "tank-outputs", "partial pressures add up"); NEAR(x->getTemperature(), g.fl(0)->getTemperature(), 0, 0, "tank-outputs", "temperature output"); NEAR(x->getDensity(), g.fl(0)->getDensity(), 0, 0, "tank-outputs", "density output");
        double moved = 0; for (auto* l : g.links) if (l != x && !dynamic_cast<GunnsFluidCapacitor*>(l)) { const int* m = l->getNodeMap(); if (m[0] == 0 || m[1] == 0) moved += std::fabs(l->getFlux()) * dt / std::max(1e-9, std::min(A.mol[0], g.fl(0)->getMole())); }
        const double hotNow = std::fabs(x->getHeatFlux()) * dt / std::max(1e-9, std::min(A.mol[0] * 2e-3, g.fl(0)->getMass()) * 600), hot = hotNow + hotPrev; hotPrev = hotNow;
        if (mode == 0) { const double want = (x->toShell() != 0 || x->fromShell() != 0) ? -x->toShell() : 0; NEAR(x->fromShell(), want, 1e-12, 0, "tank-shell", "shell heat to and from"); const double hb = double(bias); const double e = g.eps(dt); (void)e; NEAR(x->getHeatFlux(), x->fromShell() + hb, 1e-6, 1e-9, "tank-heat", "heat flux is shell plus bias");
            if (area > 1e-6 && rad > 1e-6) { if (x->fromShell() != 0) CHK((x->fromShell() > 0) == (shell > T0), "tank-shell", mon::fmt("shell at %g K gives %g W to fluid at %g K", shell, x->fromShell(), T0)); const double k = g.fl(0)->getThermalConductivity(); (void)k; if (std::fabs(shell - T0) > 1 && g.P(0) > 1.5 && P0 > 1.5) CHK(x->fromShell() != 0, "tank-shell", "no heat from a shell at another temperature"); } else CHK(x->fromShell() == 0, "tank-shell", "heat from a shell without area");
            judge(c, g, "tank", A, zero(g), B, zero(g), dt, x->getHeatFlux() * dt); c.hit(mon::mix(quiet, area > 0) * 4 + n); }
        else if (mode == 3) { c.hit(mon::mix(3, n)); NEAR(g.fl(0)->getTemperature(), wantT, 1e-3, 2 * hot + 20 * moved * 400, "tank-edit-temperature", mon::fmt("temperature edit from %g", T0)); CHK(!x->t1(), "tank-edit-ends", "temperature edit flag stays"); for (int i = 0; i < n && quiet; ++i) NEAR(x->mf()[i], x0[i], 1e-9, 60 * moved, "tank-edit-mixture", "mixture after a temperature edit"); mode = 0; kind = 0; }
        else if (mode == 4) { NEAR(g.node(0).getVolume(), wantP, 1e-12, 0, "tank-edit-volume", "volume edit"); c.hit(mon::mix(4, n)); mode = 0; kind = 0; }
        else if (mode == 1 || mode == 2) { if (mode == 2) { wantP = 0; for (double v : wantPP) wantP += v; } NEAR(g.fl(0)->getTemperature(), wantT, 1e-9 + 20 * moved, 2 * hot, "tank-edit-temperature", "temperature under an edit"); NEAR(g.fl(0)->getPressure(), wantP, 1e-7 + 3 * moved + hot / 200, 1e-9, "tank-edit-pressure", "pressure under an edit"); if (mode == 2) for (int i = 0; i < n; ++i) NEAR(x->pp()[i], wantPP[i], 1e-7, (1e-9 + 3 * moved + hot / 200) * (wantP + P0), "tank-edit-partial", mon::fmt("partial pressure %d under an edit", i)); else for (int i = 0; i < n; ++i) NEAR(x->mf()[i], x0[i], 0, 1e-9 + 60 * moved, "tank-edit-mixture", "mixture under an edit"); c.hit(mon::mix(mode, n) * 2 + (x->tp() || x->tpp())); if (!x->tp() && !x->tpp()) { mode = 0; kind = 0; c.count("edits_done"); } }
        else { bool on = false; drift += (10 * moved + hot / 100) * (P0 + g.P(0)); for (int i = 0; i < n; ++i) { const double was = pp0[i], is = x->pp()[i]; if (x->rateOn(i)) on = true; if (rate[i] > 0) { const double d = tgt[i] - was; if (std::fabs(d) > rate[i] * dt * (1 + 1e-9)) { const double got = (g.fl(0)->getMole() * x->yf()[i] - A.mol[0] * y0[size_t(i)]) * 8.314472 * T0 / V0; if (5 * moved * (P0 + g.P(0)) < 0.02 * rate[i] * dt) c.count("rates_judged"), CHK(std::fabs(got - (d > 0 ? 1 : -1) * rate[i] * dt) < 0.03 * rate[i] * dt + 1e-6 * was, "tank-rate", mon::fmt("partial pressure %d moved by %g, rate edit %g toward %g from %g", i, got, rate[i] * dt, tgt[i], was)); } } }
            c.hit(mon::mix(5, n) * 2 + on); if (!on) { for (int i = 0; i < n; ++i) if (rate[i] > 0) NEAR(x->pp()[i], tgt[i], 1e-3, 1.2 * rate[i] * dt + 0.08 * tgt[i] + drift, "tank-rate-target", mon::fmt("partial pressure %d at the end of a rate edit", i)); mode = 0; kind = 0; c.count("rate_edits_done"); } }
        { const double pn = x->getPreviousPressure(); if (gain > 0) dpdt += gain * ((pn - pPrev) / dt - dpdt); else dpdt = 0; NEAR(x->getDpdt(), dpdt, 1e-9, 1e-12 * (1 + std::fabs(pn) / dt) + 3e-16, "tank-dpdt", "filtered pressure rate"); dpdt = x->getDpdt(); NEAR(pn, g.P(0), 1e-12, 0, "tank-dpdt", "previous pressure"); pPrev = pn; } }
}

MON_PROP2(F15, balloon, "balloon: external pressure, deflated to full, stuck, inflatability, edits") {
    mon::Rng& r = c.r; const int nt = r.i(1, 3); Rig g(r, 3, nt, r.p(0.3) ? r.i(1, 3) : 0, false, r.p(0.7), 0.2, 20, 1e9, 1e9); const bool ext = r.p(0.4); if (ext) { g.init[0].P = std::max(g.init[0].P, 20.0); g.init[2].P = r.uni(0.02, 0.9) * g.init[0].P; } g.make(r);
    for (size_t i = 0; i < g.links.size(); ++i) if (g.links[i] == g.own[0].get()) { g.links.erase(g.links.begin() + long(i)); break; }
    XB* x = g.add(new XB); const double maxV = r.logu(0.2, 20), dp0 = ext ? g.init[0].P - g.init[2].P : g.init[0].P; const double infl = maxV / dp0 * r.logu(0.1, 5); Input in(g.init[0]); const int p1 = ext ? 2 : g.ground(); const bool st = r.p(0.1), sc = r.p(0.1); const double sv = r.uni(0.2, 2);
    x->initialize(GunnsFluidBalloonConfigData("x", &g.list, 0.0, 0.0, 0.0, 1e-6, 0.0f, 0.0f, infl, maxV), GunnsFluidBalloonInputData(st, sc, sv, &in.in, 0.0f, 0.0f), g.links, 0, p1);
    GunnsFluidConductor* q = g.add(new GunnsFluidConductor); q->initialize(GunnsFluidConductorConfigData("q", &g.list, r.logu(1e-7, 1e-4)), GunnsFluidConductorInputData(), g.links, 0, 1); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; c.note = mon::fmt("maxV %.3g infl %.3g dp %.3g ext %d types %d", maxV, infl, dp0, ext, nt); bool stuck = st, scale = sc; double f = sv, Tp = 0; int quietFor = 0;
    const int steps = r.i(6, 60); bool still = false; for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.05)) still = !still; if (still) for (auto* s : g.src) s->setFlowDemand(0); else g.disturb(r, dt, 0.02); if (r.p(0.05)) { stuck = r.p(0.5); x->setMalfStuck(stuck); quietFor = 0; } if (r.p(0.05)) { scale = r.p(0.5); f = r.uni(0.2, 2); x->setMalfInflatabilityScale(scale, f); quietFor = 0; }
        bool edit = false; double eT = 0, eP = 0; if (r.p(0.04) && !stuck) { edit = true; eT = r.uni(240, 400); eP = (ext ? x->p1() : 0) + r.logu(0.05, 2) * dp0; x->editTemperaturePressure(true, eT, eP); still = true; for (auto* s : g.src) s->setFlowDemand(0); }
        const double V0 = g.node(0).getVolume(), i0 = x->getInflation(), P0 = g.P(0), T0 = g.fl(0)->getTemperature(), n0 = g.fl(0)->getMole(), C0 = g.fl(0)->getDensity() / g.fl(0)->getMWeight() * V0 / P0, pc = g.fl(0)->computePressure(T0, g.fl(0)->getMass() / V0) - P0;
        const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); c.count("steps"); if (g.over(c, A, dt)) break;
        // a fixed volume's pressure follows the gas it holds: flow, the lagged heat of the last step and the standing correction
        if ((stuck || V0 == maxV) && P0 > 1e-3 && !edit && !x->tp() && Tp > 0 && !x->getHeatFlux()) { const double dn = g.fl(0)->getMole() - n0; if (V0 > 1e-3 * maxV && std::fabs(dn) < 0.05 * n0) { const double slack = 1.02 * std::fabs(pc) + 1.02 * n0 * std::fabs(T0 - Tp) / T0 / C0; if (slack < 0.03 * P0) NEAR(g.P(0), P0 + dn / C0, 0, 3e-3 * std::fabs(dn / C0) + slack + 1e-6 * P0, "balloon-fixed-pressure", mon::fmt("pressure of a balloon of fixed volume %g with %g mol in %g (from %g kPa)", V0, dn, n0, P0)); if (std::fabs(dn / C0) > 3 * slack + 1e-5 * P0) c.count("fixed_volume_steps"); } }
        Tp = edit || x->tp() ? 0 : T0; const double V = g.node(0).getVolume(), act = infl * (scale ? f : 1);
        NEAR(x->infl(), std::max(act, 2.3e-16), 1e-12, 0, "balloon-inflatability", "inflatability in force"); CHK(V >= x->minV() * (1 - 1e-12) && V <= maxV * (1 + 1e-12), "balloon-volume-range", mon::fmt("volume %g outside (%g, %g)", V, x->minV(), maxV)); CHK(x->getInflation() >= 0 && x->getInflation() <= 1, "balloon-inflation", mon::fmt("inflation %g", x->getInflation())); NEAR(x->getInflation(), (V - x->minV()) / (maxV - x->minV()), 1e-9, 1e-9, "balloon-inflation", "inflation is the filled part of the volume range");
        if (stuck) { NEAR(V, V0, 1e-9, 0, "balloon-stuck", "volume of a stuck balloon"); CHK(x->getInflation() == i0, "balloon-stuck", "inflation of a stuck balloon"); } else if (!x->tp()) NEAR(V, clamp(x->minV(), act * (x->p0() - x->p1()), maxV), 1e-9, 0, "balloon-law", mon::fmt("volume for pressures %g and %g", x->p0(), x->p1()));
        const int is = x->getInflationState(); if (edit || x->tp()) {} else if (V == maxV) CHK(is == GunnsFluidBalloon::INFLATED, "balloon-state", "full balloon not reported inflated"); else if (V == x->minV()) CHK(is == GunnsFluidBalloon::DEFLATED, "balloon-state", "empty balloon not reported deflated"); else if (V > V0 + 1.2e-7) CHK(is == GunnsFluidBalloon::INFLATING, "balloon-state", mon::fmt("growing balloon reports state %d", is)); else if (V < V0 - 1.2e-7) CHK(is == GunnsFluidBalloon::DEFLATING, "balloon-state", mon::fmt("shrinking balloon reports state %d", is)); c.hit(mon::mix(is, stuck) * 2 + ext);
        if (edit) { int k = 0; double moved = 0; for (; k < 30 && x->tp(); ++k) { g.net.step(dt); moved = 0; for (auto* l : g.links) if (l != x && !dynamic_cast<GunnsFluidCapacitor*>(l)) { const int* m = l->getNodeMap(); if (m[0] == 0 || m[1] == 0) moved += std::fabs(l->getFlux()) * dt / std::max(1e-9, g.fl(0)->getMole()); } } c.count(x->tp() ? "edits_open" : "edits_done"); if (g.over(c, A, dt) || moved > 0.01 || g.P(0) < 1) break; const double Ve = g.node(0).getVolume();
            NEAR(g.fl(0)->getTemperature(), eT, 1e-6 + 20 * moved, 0, "balloon-edit", "edited temperature"); NEAR(g.fl(0)->getPressure(), eP, 1e-6 + 20 * moved, 0, "balloon-edit", "edited pressure"); NEAR(Ve, clamp(x->minV(), act * (eP - x->p1()), maxV), 1e-5 + 20 * moved, 1e-9, "balloon-edit", "volume at the edited pressure"); NEAR(g.fl(0)->getMass(), g.fl(0)->getDensity() * Ve, 1e-2 + 20 * moved, 1e-12, "balloon-edit", "mass of an edited balloon"); if (x->tp()) break; }
        else if (!x->tp()) { judge(c, g, "balloon", A, zero(g), B, zero(g), dt, x->getHeatFlux() * dt); ++quietFor; }
    }
}

namespace {
// energy of one side only: nodes n0, n1 and one chamber
double side(Rig& g, int n0, int n1, PolyFluid* f) { return g.fl(n0)->getMass() * g.fl(n0)->getSpecificEnthalpy() + g.fl(n1)->getMass() * g.fl(n1)->getSpecificEnthalpy() + f->getMass() * f->getSpecificEnthalpy(); }
// checks common to both accumulators after an ordinary step
template<class X> void common(mon::Ctx& c, Rig& g, X* x, double s0, double s1, double s2, double maxP, double pressurizer) {
    CHK(x->bel() >= 0 && x->bel() <= 1, "accum-bellows-range", mon::fmt("bellows %g", x->bel())); CHK(x->lv() >= x->vmin() * (1 - 1e-12) && x->lv() <= x->vmax() * (1 + 1e-12) && x->pv() >= x->vmin() * (1 - 1e-12) && x->pv() <= x->vmax() * (1 + 1e-12), "accum-volume-range", mon::fmt("volumes %g and %g outside (%g, %g)", x->lv(), x->pv(), x->vmin(), x->vmax()));
    NEAR(x->lv() + x->pv(), x->tot(), 1e-9, 0, "accum-volume-sum", "the chambers fill the housing"); NEAR(x->bel(), (x->lv() - x->vmin()) / (x->vmax() - x->vmin()), 1e-9, 1e-12, "accum-bellows", "bellows position from the liquid volume"); NEAR(x->getBellowsPosition(), x->bel(), 0, 0, "accum-bellows", "reported bellows position");
    NEAR(x->spring(), s0 + x->bel() * (s1 + x->bel() * s2), 1e-9, 1e-9, "accum-spring", "spring pressure"); NEAR(x->liq()->getPressure(), clamp(2.3e-16, x->spring() + x->head() + pressurizer, maxP), 1e-9, 1e-9, "accum-pressure", "liquid pressure"); if (x->bel() > 0 && x->bel() < 1) NEAR(x->getUsableMass(), x->liq()->getMass() * (1 - x->vmin() / x->lv()), 1e-9, 1e-12, "accum-usable", "usable mass"); (void)g; }
}

MON_PROP2(F15, spring, "spring accumulator: fill, drain, deadbands, edits, stuck bellows, acceleration head") {
    mon::Rng& r = c.r; Rig g(r, 2, std::vector<FP::FluidType>{r.p(0.6) ? FP::GUNNS_WATER : r.p(0.5) ? FP::GUNNS_PG50 : FP::GUNNS_HFE7000}, r.p(0.3) ? r.i(1, 3) : 0, true, false, 0.05, 1.0); for (auto& s : g.init) s.P = r.uni(90, 500); g.make(r);
    XA<GunnsFluidAccum>* x = g.add(new XA<GunnsFluidAccum>); const double vol = r.logu(0.005, 0.2), minPct = r.uni(1, 15), dbPct = minPct + r.uni(2, 15); const double s0 = r.p(0.3) ? 100 : r.uni(20, 300), s1 = r.uni(1, 300), s2 = r.p(0.5) ? 0 : r.uni(0, 100); const double maxG = r.logu(1e-4, 1), mcs = r.logu(1e-3, 1), rateMax = r.logu(0.01, 0.5), hold = r.uni(0, 1), maxP = 700, thr = r.p(0.5) ? 0 : r.logu(0.01, 5), owr = r.logu(0.1, 10), b0 = r.p(0.15) ? 0 : r.p(0.15) ? 1 : r.u(), q = r.p(0.5) ? 0 : r.sgn() * r.logu(0.1, 20); State ls = g.init[0]; ls.T = r.uni(285, 340); ls.P = clamp(1, s0 + b0 * (s1 + b0 * s2), maxP); Input li(ls);
    x->initialize(GunnsFluidAccumConfigData("x", &g.list, maxG, mcs, vol, minPct, dbPct, rateMax, hold, 274, 373, maxP, s0, s1, s2, thr, owr), GunnsFluidAccumInputData(false, 0, b0, &li.in, q), g.links, g.ground(), 0);
    GunnsFluidConductor* k = g.add(new GunnsFluidConductor); k->initialize(GunnsFluidConductorConfigData("k", &g.list, r.logu(1e-7, 1e-3)), GunnsFluidConductorInputData(), g.links, 0, 1); GunnsFluidSource* sc = g.add(new GunnsFluidSource); sc->initialize(GunnsFluidSourceConfigData("s", &g.list), GunnsFluidSourceInputData(false, 0, 0.0), g.links, 0, 1); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1;
    c.note = mon::fmt("vol %.3g spring %.3g %.3g %.3g G %.3g bellows %.3g thr %.3g P %.4g", vol, s0, s1, s2, maxG, b0, thr, g.P(0)); double head = 0, qn = q; int mode = 0; double ePos = 0, eRate = 0, done = -1; int was = 0; const int steps = r.i(10, 80);
    for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.2)) sc->setFlowDemand(r.p(0.3) ? 0 : r.sgn() * r.logu(1e-4, 1) * vol * 50); if (r.p(0.05)) { head = r.p(0.5) ? 0 : r.uni(-10, 20); x->setAccelPressureHead(head); } if (r.p(0.1)) { qn = r.sgn() * r.logu(0.1, 20); x->setLiquidHousingQ(qn); }
        if (!mode && was) was = 0; else if (!mode && r.p(0.06)) { mode = r.i(1, 4); was = 1; ePos = r.p(0.1) ? r.uni(-0.3, 1.3) : r.u(); eRate = r.p(0.15) ? rateMax * 3 : rateMax * r.u(); done = -1; if (mode == 1) x->edit(ePos, eRate); else if (mode == 2) x->setMalfBellowsStick(true); else if (mode == 3) x->setMalfBellowsStickToPos(true, ePos, eRate); else x->editT(ePos = r.uni(260, 390)); }
        const bool wasStuck = x->stuck(); const double bp = x->bel(), lv0 = x->lv(), pv0 = x->pv(), pin = x->liq()->getPressure(), pn0 = g.P(0), cap0 = 0; (void)cap0; const double T0 = x->liq()->getTemperature(), m0 = x->liq()->getMass(), sc0 = x->scale(); const Rig::Ledger A = g.ledger(); Dev a = zero(g); put(a, g, x->liq()); g.net.step(dt); const Rig::Ledger B = g.ledger(); Dev b = zero(g); put(b, g, x->liq()); c.count("steps"); if (g.over(c, A, dt)) break;
        // conductance
        const bool mid = lv0 >= x->vdb() && lv0 <= x->vmax() - (x->vdb() - x->vmin()); const double db = x->vdb() - x->vmin(); CHK(x->scale() >= 0 && x->scale() <= 1, "accum-scale", mon::fmt("conductivity scale %g", x->scale())); double want = -1; const double lim = x->liq() ? std::min(maxG, 1e15) : 0; const bool empty = lv0 <= x->vmin(), full = lv0 >= x->vmax(); const bool fill = pn0 - pin > thr, drain = pin - pn0 > thr;
        if (wasStuck) want = 0; else if (mid || (mode == 1 && x->editing())) want = 1; else if (thr > 2.3e-16 && (fill || drain)) { if (fill && full) want = 0; else if (drain && empty) want = 0; else if (fill && pv0 < x->vdb()) want = clamp(0, (pv0 - x->vmin()) / db, 1); else if (drain && lv0 < x->vdb()) want = clamp(0, (lv0 - x->vmin()) / db, 1); else { want = std::min(1.0, sc0 + std::min(owr, 1 / dt) * dt); } } else if (empty) want = fill ? mcs : 0; else if (full) want = drain ? mcs : 0; else if (lv0 < x->vdb()) want = (lv0 - x->vmin()) / db; else want = (pv0 - x->vmin()) / db;
        if (mode != 1) NEAR(x->scale(), want, 1e-6, 1e-9, "accum-scale", mon::fmt("conductivity scale at volume %g of (%g, %g), node %g kPa, inside %g kPa", lv0, x->vmin(), x->vmax(), pn0, pin)); (void)lim;
        { const double G = want < 0 ? -1 : clamp(0, x->scale() * clamp(0, x->cap() / dt, maxG), maxG); if (G >= 0) NEAR(x->A(3), G, 1e-9, 1e-15, "accum-conductance", "admittance of the liquid port"); } CHK(x->A(0) == 0 && x->A(1) == 0 && x->A(2) == 0, "accum-conductance", "other admittances"); { const double fl = x->A(3) * (g.P(0) - pin); NEAR(x->getFlux(), fl, 1e-7, 1e-12 + x->A(3) * 1e-7, "accum-flow", mon::fmt("flux between node at %g and chamber at %g kPa", g.P(0), pin)); }
        common(c, g, x, s0, s1, s2, maxP, 0.0); NEAR(x->reading(), g.P(0), 1e-12, 0, "accum-reading", "pressure reading");
        c.hit(mon::mix(mode, empty + 2 * full + 4 * mid) * 3 + (x->flow() > 0 ? 1 : x->flow() < 0 ? 2 : 0));
        if (mode == 0) { const bool clampT = x->liq()->getTemperature() <= 274 || x->liq()->getTemperature() >= 373; if (!clampT) judge(c, g, "accum", A, a, B, b, dt, qn * dt); if (x->lv() > x->vmin() && x->lv() < x->vmax()) NEAR(x->lv() * x->liq()->getDensity(), x->liq()->getMass(), 4e-4, 0, "accum-state", "liquid volume holds the liquid mass"); }
        else if (mode == 1) { const double tg = clamp(0, ePos, 1), rt = clamp(0, eRate, rateMax), exp = tg > bp ? std::min(bp + rt * dt, tg) : std::max(bp - rt * dt, tg); NEAR(x->bel(), exp, 1e-12, 1e-15, "accum-edit", mon::fmt("bellows edit from %g to %g at %g/s", bp, tg, rt)); if (x->bel() == tg && done < 0) done = 0; else if (done >= 0) done += dt; if (!x->editing()) { CHK(x->bel() == tg, "accum-edit", "edit ended off its target"); CHK(done >= hold - dt * 1.001 - 1e-9 && done <= hold + dt * 2.001 + 1e-9, "accum-edit-hold", mon::fmt("edit held %g s, configured %g", done, hold)); mode = 0; c.count("edits_done"); } if (rt <= 0) { break; } }
        else if (mode == 2) { CHK(x->bel() == bp && x->lv() == lv0, "accum-stick", mon::fmt("stuck bellows moved from %g to %g", bp, x->bel())); CHK(x->stuck(), "accum-stick", "stuck bellows not reported"); if (wasStuck) CHK(x->flow() == 0, "accum-stick", mon::fmt("flow %g with stuck bellows", x->flow())); if (r.p(0.3)) { x->setMalfBellowsStick(false); mode = 0; } }
        else if (mode == 3) { const double tg = clamp(0, ePos, 1), rt = clamp(0, eRate, rateMax), exp = tg > bp ? std::min(bp + rt * dt, tg) : std::max(bp - rt * dt, tg); NEAR(x->bel(), exp, 1e-12, 1e-15, "accum-stickpos", mon::fmt("forced bellows from %g to %g at %g/s", bp, tg, rt)); CHK(x->stuck() == (x->bel() == tg), "accum-stickpos", "stuck at the position"); if (wasStuck && x->A(3) != 0) CHK(false, "accum-stickpos", "conductance with stuck bellows"); if (r.p(0.1)) { x->setMalfBellowsStickToPos(false, 0, 0); mode = 0; } }
        else { const double w = clamp(274, ePos, 373); CHK(!x->editingT(), "accum-edit-temperature", "temperature edit flag stays"); NEAR(x->liq()->getTemperature(), w, 1e-6, 1e-6 + 1.2 * std::fabs(x->flow()) * dt / m0 * (100 + std::fabs(T0 - w)) + std::fabs(qn) * dt / (m0 * 800), "accum-edit-temperature", "edited temperature"); mode = 0; }
    }
}

MON_PROP2(F15, gasaccum, "gas accumulator: gas and liquid flows both ways, gas mixtures and trace compounds, springs, bellows and pressure edits") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> types = gases(); r.shuffle(types); types.erase(std::remove(types.begin(), types.end(), FP::GUNNS_H2O), types.end()); types.resize(size_t(r.i(1, 3))); const int w = r.i(0, int(types.size())); types.insert(types.begin() + w, FP::GUNNS_WATER); Rig g(r, 4, types, r.p(0.4) ? r.i(1, 3) : 0, false, false, 0.05, 1.0); const bool same = r.p(0.3);
    for (int i = 0; i <= 4; ++i) { State& s = g.init[size_t(i)]; s.T = r.uni(285, 340); s.P = r.uni(90, 500); double t = 0; if (i == 2 || i == 3) { for (auto& v : s.x) v = 0; s.x[size_t(w)] = 1; } else { s.x[size_t(w)] = 0; for (double v : s.x) t += v; if (t <= 0) { s.x[size_t(w ? 0 : 1)] = 1; t = 1; } for (auto& v : s.x) v /= t; if (same && i == 1) { s.x = g.init[0].x; s.tc = g.init[0].tc; } } if (i >= 2) for (auto& v : s.tc) v = 0; } g.nodeInit = true; g.make(r);
    XG* x = g.add(new XG); const double vol = r.logu(0.005, 0.2), minPct = r.uni(3, 15), dbPct = minPct + r.uni(2, 15); const bool spr = r.p(0.5); const double s0 = spr ? r.uni(-50, 50) : 0, s1 = spr ? r.uni(1, 100) : 0, s2 = 0; const double maxG = r.logu(1e-4, 1), gG = r.logu(1e-9, 1e-2), mcs = r.logu(1e-3, 1), rateMax = r.logu(0.01, 0.3), pRate = r.uni(5, 50), hold = r.uni(0, 1), maxP = 1500, thr = r.p(0.5) ? 0 : r.logu(0.01, 5), owr = r.logu(0.1, 10), b0 = r.p(0.1) ? 0 : r.p(0.1) ? 1 : r.u();
    State gs = g.init[0]; gs.T = r.uni(285, 340); gs.P = r.uni(90, 500); if (!same && r.p(0.7)) { const State o = g.init[1]; gs.x = o.x; } State ls = g.init[2]; ls.T = r.uni(285, 340); ls.P = std::max(1.0, gs.P + s0 + b0 * s1); Input gi(gs), li(ls); const double q = r.p(0.5) ? 0 : r.sgn() * r.logu(0.1, 5);
    x->initialize(GunnsFluidAccumGasConfigData("x", &g.list, maxG, mcs, vol, minPct, dbPct, rateMax, hold, 274, 373, maxP, s0, s1, s2, gG, r.p(0.5) ? 1e-10 : gG * 0.1, pRate, thr, owr), GunnsFluidAccumGasInputData(false, 0, b0, &li.in, &gi.in, q), g.links, 0, 2);
    GunnsFluidSource* sg = g.add(new GunnsFluidSource); sg->initialize(GunnsFluidSourceConfigData("sg", &g.list), GunnsFluidSourceInputData(false, 0, 0.0), g.links, 0, 1); GunnsFluidSource* sl = g.add(new GunnsFluidSource); sl->initialize(GunnsFluidSourceConfigData("sl", &g.list), GunnsFluidSourceInputData(false, 0, 0.0), g.links, 2, 3); GunnsFluidConductor* k = g.add(new GunnsFluidConductor); k->initialize(GunnsFluidConductorConfigData("k", &g.list, r.logu(1e-7, 1e-3)), GunnsFluidConductorInputData(), g.links, 2, 3); if (r.p(0.5)) { r.shuffle(g.links); } g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1;
    c.note = mon::fmt("vol %.3g spring %.3g %.3g G %.3g gas G %.3g bellows %.3g P %.4g %.4g in %.4g types %d tc %d%s", vol, s0, s1, maxG, gG, b0, g.P(0), g.P(2), gs.P, g.mix.n(), g.mix.nTc(), same ? " same" : ""); double qn = q; int mode = 0; double ePos = 0, eRate = 0; const int steps = r.i(10, 60);
    for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.2)) sl->setFlowDemand(r.p(0.3) ? 0 : r.sgn() * r.logu(1e-4, 1) * vol * 50); if (r.p(0.3)) { const double mm = std::min(g.fl(0)->getMass(), g.fl(1)->getMass()); sg->setFlowDemand(r.p(0.3) ? 0 : r.sgn() * r.logu(1e-4, 0.1) * mm / dt / 4); } if (r.p(0.1)) { qn = r.sgn() * r.logu(0.1, 5); x->setLiquidHousingQ(qn); }
        if (!mode && r.p(0.04)) { mode = r.i(1, 2); ePos = r.u(); eRate = rateMax * r.uni(0.1, 1); if (mode == 1) x->edit(ePos, eRate); else x->setMalfBellowsStick(true); }
        const double bp = x->bel(), lv0 = x->lv(), pin = x->liq()->getPressure(), pg = x->gas()->getPressure(); const bool wasStuck = x->stuck(); (void)lv0; const Rig::Ledger A = g.ledger(); Dev a = zero(g); put(a, g, x->liq()); put(a, g, x->gas()); const double eg = side(g, 0, 1, x->gas()), el = side(g, 2, 3, x->liq()); g.net.step(dt); const Rig::Ledger B = g.ledger(); Dev b = zero(g); put(b, g, x->liq()); put(b, g, x->gas()); c.count("steps"); if (g.over(c, A, dt)) break; { double go = std::fabs(x->gflow()) * dt; if (x->gflow() > 0 ? go > 0.5 * massOf(g.fl(0), 0) + g.fl(0)->getMass() * 0.5 : go > 0.5 * x->gas()->getMass()) { c.count("overdrawn_steps"); break; } if (std::fabs(x->flow()) * dt > 0.5 * x->liq()->getMass()) { c.count("overdrawn_steps"); break; } }
        NEAR(x->getFlux(), x->A(3) * (g.P(2) - pin), 1e-7, 1e-12 + x->A(3) * 1e-7, "accum-flow", "liquid flux"); NEAR(x->gflux(), x->A(0) * (g.P(0) - pg), 1e-7, 1e-12 + x->A(0) * 1e-7, "accum-gas-flow", mon::fmt("gas flux between node at %g and chamber at %g kPa", g.P(0), pg)); CHK(x->A(0) >= 0 && x->A(0) <= gG * (1 + 1e-12), "accum-gas-conductance", mon::fmt("gas admittance %g of %g", x->A(0), gG)); CHK(x->A(3) >= 0 && x->A(3) <= maxG * (1 + 1e-12), "accum-conductance", "liquid admittance"); if (wasStuck) CHK(x->A(3) == 0, "accum-stick", "conductance with stuck bellows");
        common(c, g, x, s0, s1, s2, maxP, x->gas()->getPressure()); validFluid(c, x->gas(), "gas chamber", false); if (x->gas()->getPressure() < maxP * (1 - 1e-9)) NEAR(x->gas()->getPressure(), x->gas()->getMass() / x->gas()->getMWeight() * 8.314472 * x->gas()->getTemperature() / x->pv(), 1e-5, 1e-6, "accum-gas-law", "gas chamber obeys the gas law");
        c.hit(mon::mix(mode, x->gflow() > 0 ? 1 : x->gflow() < 0 ? 2 : 0) * 3 + (x->flow() > 0 ? 1 : x->flow() < 0 ? 2 : 0) + 16 * g.mix.n());
        if (mode == 0) { const double tl = x->liq()->getTemperature(), tg = x->gas()->getTemperature(); if (tl <= 274 || tl >= 373 || tg <= 274 || tg >= 373) { c.count("temperature_limited"); break; } if (x->gflow() > 0 && !same) { // known: the chamber mixes in what flows into the node, not what flows out of it
                bool off = false; const double gm = x->gflow() * dt; for (int i = 0; i < g.mix.n(); ++i) if (std::fabs(B.s[i] + b.s[i] - A.s[i] - a.s[i]) > 1e-9 * (A.m + a.m) + g.eps(dt)) off = true; for (int i = 0; i < g.mix.nTc(); ++i) if (!(std::fabs(B.t[i] + b.t[i] - A.t[i] - a.t[i]) <= 1e-8 * A.t[i] + 1e-6 * g.eps(dt) + 1e-13 * A.m)) off = true;
                NEAR(B.m + b.m, A.m + a.m, 1e-9, g.eps(dt), "gasaccum-mass", "gasaccum: total mass of network and device"); for (int i = 0; i < g.mix.n(); ++i) NEAR(b.s[i], a.s[i], 0, gm * (1 + 1e-9) + std::fabs(x->flow()) * dt * (1 + 1e-9) + 1e-9 * a.m, "gasaccum-bound", "the chambers gain no more of a constituent than flowed in"); if (off) { c.fail("gasaccum-inflow-mix", mon::fmt("gas flowing into the chamber (%g kg) does not have the composition of the node it comes from", gm)); break; } continue; }
            judge(c, g, "gasaccum", A, a, B, b, dt, qn * dt); NEAR(side(g, 0, 1, x->gas()), eg, 3e-7, g.eps(dt) * 1e7, "gasaccum-gas-energy", "energy of the gas side"); NEAR(side(g, 2, 3, x->liq()), el + qn * dt, 3e-7, g.eps(dt) * 1e7, "gasaccum-liquid-energy", "energy of the liquid side"); }
        else if (mode == 1) { const double exp = ePos > bp ? std::min(bp + eRate * dt, ePos) : std::max(bp - eRate * dt, ePos); NEAR(x->bel(), exp, 1e-12, 1e-15, "accum-edit", mon::fmt("bellows edit from %g to %g at %g/s", bp, ePos, eRate)); if (!x->editing()) mode = 0; }
        else { CHK(x->bel() == bp, "accum-stick", "stuck bellows moved"); if (r.p(0.3)) { x->setMalfBellowsStick(false); mode = 0; } }
    }
}
RESTART_PROP(tank)
