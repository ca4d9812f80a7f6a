// Electrical user monitors (E06): user loads, their switches, internal power supplies and power buses.
#include "erig.hpp"
#include <cfloat>
#include "aspects/electrical/UserLoad/GunnsElectResistiveUserLoad.hh"
#include "aspects/electrical/UserLoad/GunnsElectConstantPowerUserLoad.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh"
#include "aspects/electrical/IPS/GunnsElectIps.hh"
#include "aspects/electrical/PowerBus/PowerBusElect.hh"

namespace {
using erig::Rig;
const double kMaxR = 1e8, kMinR = 0.1;
struct RL : ResistiveLoad { double volts() const { return mVoltage; } };
struct CL : ConstantPowerLoad { double volts() const { return mVoltage; } };
struct URL : GunnsElectResistiveUserLoad { URL(GunnsElectResistiveUserLoadConfigData* a, GunnsElectResistiveUserLoadInputData* b) : GunnsElectResistiveUserLoad(a, b) {} double sv() const { return mSupplyVoltage; } double timer() const { return mDutyCycleTimer; } };
struct UCL : GunnsElectConstantPowerUserLoad { UCL(GunnsElectConstantPowerUserLoadConfigData* a, GunnsElectConstantPowerUserLoadInputData* b) : GunnsElectConstantPowerUserLoad(a, b) {} double sv() const { return mSupplyVoltage; } };
// What a load should do: its documented law, by mode, override, fuse and supply voltage.
struct LM { bool res = true; double on = 0, sby = 0, uv = 0, fuse = 0; int mode = LoadON; bool oc = false, op = false, magic = false, blow = false, blown = false; double vc = 0, vp = 0, vm = 0;
    bool neg(double v) const { const double x = volts(v); if (!(x > uv)) return false; return (oc && vc < 0) || (!oc && op && vp < 0); }
    double volts(double v) const { return magic ? vm : (blown || blow) ? 0.0 : v; }
    void law(double v, double& R, double& I, double& P, bool& valid) const { const double x = volts(v); valid = x > uv; R = kMaxR; I = P = 0; if (!valid) return;
        if (!oc && !op && mode == LoadOFF) return;
        if (res) { double r; if (oc) r = vc > 0 ? x / vc : kMaxR; else if (op) r = vp > 0 ? x * x / vp : kMaxR; else { const double k = mode == LoadON ? on : sby; r = k > 0 ? std::min(kMaxR, std::max(kMinR, k)) : kMaxR; } R = r; I = x / r; P = x * x / r; }
        else { P = oc ? x * vc : op ? vp : mode == LoadON ? on : sby; I = P / x; const double l = std::max(x, 0.99 * uv); R = P > 0 ? l * l / P : kMaxR; } } };
LM mkLoad(mon::Ctx& c, double vn) { LM m; m.res = c.r.p(0.5); m.uv = c.r.p(0.2) ? 0.0 : vn * c.r.uni(0.2, 0.85); m.fuse = c.r.p(0.5) ? 0.0 : c.r.logu(0.1, 30); if (m.res) { m.on = c.r.p(0.1) ? 0.0 : c.r.logu(0.05, 1e4); m.sby = c.r.p(0.2) ? 0.0 : c.r.logu(10, 1e6); } else { m.on = c.r.p(0.1) ? 0.0 : c.r.logu(0.1, 500); m.sby = c.r.p(0.2) ? 0.0 : c.r.logu(0.01, 10); } m.mode = c.r.p(0.7) ? LoadON : c.r.p(0.5) ? LoadSTANDBY : LoadOFF; return m; }
void poke(mon::Ctx& c, LM& m, UserLoadBase* l, double vn, bool negative) {
    if (c.r.p(0.3)) { m.mode = c.r.p(0.5) ? LoadON : c.r.p(0.5) ? LoadSTANDBY : LoadOFF; l->setLoadOperMode(UserLoadMode(m.mode)); }
    if (c.r.p(0.15)) { m.oc = c.r.p(0.5); m.vc = c.r.p(0.2) ? 0.0 : c.r.logu(0.01, 10) * (negative && c.r.p(0.1) ? -1 : 1); l->setMalfOverrideCurrent(m.oc, m.vc); }
    if (c.r.p(0.15)) { m.op = c.r.p(0.5); m.vp = c.r.p(0.2) ? 0.0 : c.r.logu(0.1, 300) * (negative && c.r.p(0.1) ? -1 : 1); l->setMalfOverridePower(m.op, m.vp); }
    if (c.r.p(0.08)) { m.magic = c.r.p(0.5); m.vm = vn * c.r.uni(0.1, 1.2); l->mMagicPowerFlag = m.magic; l->mMagicPowerValue = m.vm; }
    if (c.r.p(0.06)) { m.blow = !m.blow; l->setMalfBlowFuse(m.blow); }
    if (c.r.p(0.12)) { l->resetFuse(); m.blown = false; } }
}
MON_PROP2(E06, load, "single user loads: random modes, overrides, fuses and supply voltages against their law") {
    const double vn = c.r.uni(20, 150); LM m = mkLoad(c, vn); std::unique_ptr<RL> rl; std::unique_ptr<CL> cl; UserLoadBase* l; std::vector<UserLoadBase*> reg;
    if (m.res) { rl.reset(new RL); rl->initialize(ResistiveLoadConfigData("l", RESISTIVE_LOAD, m.uv, m.on, m.sby, m.fuse), ResistiveLoadInputData(false, 0.0, m.mode, 0.0), reg, 3, 4); l = rl.get(); } else { cl.reset(new CL); cl->initialize(ConstantPowerLoadConfigData("l", CONSTANT_POWER_LOAD, m.uv, m.on, m.sby, m.fuse), ConstantPowerLoadInputData(false, 0.0, m.mode, 0.0), reg, 3, 4); l = cl.get(); }
    CHK(reg.size() == 1 && reg[0] == l && l->getCardId() == 3 && l->getLoadSwitchId() == 4, "registered", "load not registered once with its card and switch");
    for (int t = 0; t < 30; ++t) { poke(c, m, l, vn, true); if (!m.res && c.r.p(0.1)) { const double p = c.r.uni(-10, 300); static_cast<CL*>(l)->setPowerNormal(p); m.on = std::max(0.0, p); }
        const double v = c.r.p(0.1) ? 0.0 : c.r.p(0.1) ? m.uv : vn * c.r.uni(0, 1.3); if (m.blow) m.blown = true; const bool neg = m.neg(v); bool threw = false; try { l->step(v); } catch (const TsNumericalException&) { threw = true; }
        CHK(threw == neg, "negative-override", mon::fmt("negative override (current %d %.6g, power %d %.6g) %s", m.oc, m.vc, m.op, m.vp, threw ? "refused" : "accepted")); if (threw) { c.hit("refused"); m.oc = m.op = false; l->setMalfOverrideCurrent(false, 0); l->setMalfOverridePower(false, 0); continue; }
        double R, I, P; bool valid; m.law(v, R, I, P, valid); const char* k = m.res ? "resistive" : "power"; c.hit(mon::fmt("%s-%d-%d%d%d%d%d", k, m.mode, valid, m.oc, m.op, m.magic, m.blown));
        CHK(l->getPowerValid() == valid, "power-valid", mon::fmt("power valid %d at %.9g V with limit %.9g V", l->getPowerValid(), m.volts(v), m.uv)); CHK(l->isFuseBlown() == m.blown, "fuse-state", "fuse state"); NEAR(l->getResistance(), R, 1e-12, 0, "resistance", mon::fmt("%s load resistance", k)); NEAR(l->getCurrent(), I, 1e-12, 1e-15, "current", mon::fmt("%s load current", k)); NEAR(l->getPower(), P, 1e-12, 1e-15, "power", mon::fmt("%s load power", k));
        const double fv = vn * c.r.uni(0, 1.5); const bool was = m.blown, want = m.fuse > 0 && !was && fv / R > m.fuse; const bool got = l->updateFuse(fv); CHK(got == want, "fuse", mon::fmt("fuse of %.6g A %s at %.9g A", m.fuse, got ? "blew" : "held", fv / R)); if (want) { m.blown = true; c.hit(mon::fmt("%s-fuse", k)); } CHK(l->isFuseBlown() == m.blown, "fuse-latch", "fuse did not latch"); c.count("loads"); }
}
namespace {
struct S2 : GunnsElectUserLoadSwitch2 { double vl() const { return mLoadsVoltage; } };
struct S1 : GunnsElectUserLoadSwitch { double vl() const { return mLoadsVoltage; } };
}
MON_PROP2(E06, loadswitch, "switches carrying user loads or feeding a bus in a network, with overrides, shorts, duty cycles and fuses") {
    Rig g(2, 1e-10); const double vn = c.r.uni(20, 150), gs = c.r.logu(2, 200); GunnsBasicPotential* feed = g.feed(0, vn, gs); g.cond(0, 2, 1e-3); GunnsBasicConductor* down = 0; const double gd = c.r.logu(1e-3, 1); g.cond(1, 2, gd); const bool back = c.r.p(0.5); const double vb = vn * c.r.uni(0.3, 1.2), gb = c.r.logu(0.1, 50); if (back) g.feed(1, vb, gb); (void)down;
    const bool gen2 = c.r.p(0.5); const int nl = c.r.p(0.25) ? 0 : c.r.i(1, 4); const bool toBus = nl == 0 && c.r.p(0.7); const float rs = float(c.r.logu(1e-3, 0.3)), lim = c.r.p(0.3) ? float(c.r.logu(0.5, 50)) : 0.0f; S2* s2 = 0; S1* s1 = 0; GunnsBasicConductor* sw; if (gen2) sw = s2 = g.mk<S2>(); else sw = s1 = g.mk<S1>();
    std::vector<LM> ms; std::vector<std::unique_ptr<GunnsElectUserLoad> > uls; std::vector<std::shared_ptr<void> > data; std::vector<double> period, frac, timer;
    for (int i = 0; i < nl; ++i) { LM m = mkLoad(c, vn); if (m.res && m.on > 0) m.on = std::max(m.on, vn / 30); if (m.res && m.sby > 0) m.sby = std::max(m.sby, vn / 30); const double f = c.r.u(), p = c.r.p(0.3) ? c.r.uni(0.2, 2) : 0.0, t0 = p * c.r.u(); period.push_back(p); frac.push_back(f); timer.push_back(t0);
        if (m.res) { std::shared_ptr<GunnsElectResistiveUserLoadConfigData> cd(new GunnsElectResistiveUserLoadConfigData(mon::fmt("ul%d", i), m.uv, m.on, m.sby, m.fuse, f, p)); std::shared_ptr<GunnsElectResistiveUserLoadInputData> id(new GunnsElectResistiveUserLoadInputData(m.mode, 0.0, t0)); data.push_back(cd); data.push_back(id); uls.emplace_back(new URL(cd.get(), id.get())); }
        else { std::shared_ptr<GunnsElectConstantPowerUserLoadConfigData> cd(new GunnsElectConstantPowerUserLoadConfigData(mon::fmt("ul%d", i), m.uv, m.on, m.sby, m.fuse, f, p)); std::shared_ptr<GunnsElectConstantPowerUserLoadInputData> id(new GunnsElectConstantPowerUserLoadInputData(m.mode, 0.0, t0)); data.push_back(cd); data.push_back(id); uls.emplace_back(new UCL(cd.get(), id.get())); }
        ms.push_back(m); if (gen2) s2->addUserLoad(uls.back().get()); else s1->addUserLoad(uls.back().get()); }
    const int p1 = toBus ? 1 : 2; if (gen2) s2->initialize(GunnsElectUserLoadSwitch2ConfigData("sw", &g.list, rs, 1, -1e6f, 1e6f, -1e6f, 1e6f, -1e6f, 1e6f), GunnsElectUserLoadSwitch2InputData(false, 0.0, true, 0.0f, 0.0f, 0.0f, 0.0f, lim, 0.0f), g.links, 0, p1); else s1->initialize(GunnsElectUserLoadSwitchConfigData("sw", &g.list, rs, 1), GunnsElectUserLoadSwitchInputData(false, 0.0, true, lim, 0.0), g.links, 0, p1);
    g.start(300); for (int i = 0; i < nl; ++i) { UserLoadBase* l = uls[size_t(i)]->getLoad(); g.spy->probes.push_back([l, &g] { return g.V(0) / l->getResistance(); }); }
    if (nl > 0) { sw->setPort(1, 1); CHK(sw->getNodeMap()[1] == 2, "port-rule", "a switch with user loads was moved off ground"); }
    bool over = false, cmd = true, cs = false; double vo = 0, short_ = 0; const int steps = c.r.i(5, 20); c.note += mon::fmt("gen %d, %d loads, feed %.4g V, switch %.3g ohm, limit %.3g A%s", gen2 ? 2 : 1, nl, vn, rs, lim, toBus ? ", feeding a bus" : ""); double v = vn; int since = 0; bool lastConv = true;
    int same = 0; for (int t = 0; t < steps; ++t) { ++since; ++same; const bool act = t % 5 == 0 || c.r.p(0.15); if (act) same = 0;
        if (act) { if (c.r.p(0.3)) { v = c.r.p(0.15) ? 0.0 : vn * c.r.uni(0.3, 1.2); feed->setSourcePotential(v); } for (int i = 0; i < nl; ++i) if (c.r.p(0.4)) poke(c, ms[size_t(i)], uls[size_t(i)]->getLoad(), vn, false);
        if (c.r.p(0.2)) { cmd = c.r.p(0.7); if (gen2) { s2->mSwitch.setPositionCommand(cmd); if (c.r.p(0.5)) s2->mSwitch.resetTrips(); } else { s1->mSwitch.setSwitchCommandedClosed(cmd); if (c.r.p(0.5)) s1->mSwitch.setTripReset(); } }
        if (c.r.p(0.1)) { over = !over; vo = vn * c.r.uni(0, 1.2); if (gen2) s2->setLoadsOverride(over, vo); else s1->setLoadsOverride(over, vo); since = 0; }
        if (nl && c.r.p(0.1)) { cs = c.r.p(0.5); short_ = c.r.logu(0.5, 50); (gen2 ? s2->mShort : s1->mShort).setMalfResistance(cs, short_); } }
        std::vector<bool> before; for (int i = 0; i < nl; ++i) { LM& m = ms[size_t(i)]; if (m.blow) m.blown = true; before.push_back(m.blown); }
        const double dt = 0.1; for (int i = 0; i < nl; ++i) if (period[size_t(i)] > 0) { double& q = timer[size_t(i)]; q += dt; if (q > period[size_t(i)]) q = 0; const int w = q / period[size_t(i)] > frac[size_t(i)] ? LoadOFF : LoadON; if (w != ms[size_t(i)].mode) same = 0; ms[size_t(i)].mode = w; }
        const bool conv = g.step(dt); c.count(conv ? "steps" : "unconverged"); const bool wasConv = lastConv; lastConv = conv; if (!conv || g.spy->rounds.size() > 1) same = 0; const double V0 = g.V(0), I = sw->getFlux(), VL = gen2 ? s2->vl() : s1->vl(), R = gen2 ? double(s2->mSwitch.getResistance()) : 1.0 / s1->mSwitch.getConductance(); const bool closed = gen2 ? s2->mSwitch.getPosition() : s1->mSwitch.isClosed();
        if (gen2) cmd = s2->mSwitch.getPositionCommand();
        // fuses blow for cause only, and an accepted solution leaves none beyond its limit
        for (int i = 0; i < nl; ++i) { LM& m = ms[size_t(i)]; UserLoadBase* l = uls[size_t(i)]->getLoad(); const bool b = l->isFuseBlown(); if (b && !before[size_t(i)]) { bool cause = false; for (const auto& q : g.spy->rounds) if (q.conv == 1 && q.q[size_t(i)] > m.fuse * (1 - 1e-9)) cause = true; CHK(cause && m.fuse > 0, "fuse-cause", mon::fmt("fuse of load %d (%.6g A) blew without passing its limit", i, m.fuse)); c.hit("net-fuse"); same = 0; } CHK(b || !before[size_t(i)], "fuse-reset", "a blown fuse reset itself"); m.blown = b;
            if (conv && closed && !over && m.fuse > 0 && !b) CHK(V0 / l->getResistance() <= m.fuse * (1 + 1e-6), "fuse-missed", mon::fmt("load %d carries %.9g A through a fuse of %.6g A (closed %d, override %d, mode %d, rounds %d)", i, V0 / l->getResistance(), m.fuse, closed, over, m.mode, int(g.spy->rounds.size())));
            if (m.mode != l->getLoadOperMode()) { CHK(false, "duty-cycle", mon::fmt("load %d in mode %d, expected %d (cycle %.5g of %.5g s, fraction %.5g)", i, l->getLoadOperMode(), m.mode, timer[size_t(i)], period[size_t(i)], frac[size_t(i)])); } }
        if (!conv || !wasConv) continue; if (!g.kcl(c, "load switch network", 1e-7, 1e-7)) return;
        double sumP = 0, sumI = 0, sumG = 0; for (int i = 0; i < nl; ++i) { UserLoadBase* l = uls[size_t(i)]->getLoad(); double r, a, p; bool ok; ms[size_t(i)].law(VL, r, a, p, ok); NEAR(l->getResistance(), r, 1e-9, 0, "net-resistance", mon::fmt("resistance of load %d at %.9g V", i, VL)); NEAR(l->getPower(), p, 1e-9, 1e-12, "net-power", mon::fmt("power of load %d at %.9g V", i, VL)); sumP += p; sumI += VL / r; sumG += 1 / r; }
        const double tol = 1e-5 * vn * std::max(sumG, 1.0 / vn) + 1e-6;
        if (over) { c.hit(toBus ? "override-bus" : nl ? "override-loads" : "override"); NEAR(VL, vo, 1e-12, 0, "override-voltage", "voltage given to overridden loads"); NEAR(g.into(sw, 0), 0, 0, 1e-9, "override-draw", "current drawn from the source side while loads are overridden"); if (toBus) { NEAR(g.V(1), vo, 1e-5, 1e-4, "override-bus-voltage", "bus voltage under an override"); NEAR(-g.into(sw, 1), I, 1e-5, 1e-4 + 1e-6 * vn, "override-bus-flux", "current given to an overridden bus"); NEAR(sw->getPower(), I * g.V(1), 1e-6, 1e-6, "override-bus-power", "link power under an override"); NEAR(gen2 ? s2->getLoadsPower() : s1->getLoadsPower(), I * g.V(1), 1e-6, 1e-6, "override-bus-power", "loads power under an override"); } else if (nl) { NEAR(gen2 ? s2->getLoadsPower() : s1->getLoadsPower(), sumP, 1e-9, 1e-9, "override-power", "power of overridden loads"); NEAR(I, sumP / std::max(vo, DBL_EPSILON), 1e-9, 1e-9, "override-flux", "current of overridden loads"); } continue; }
        if (!closed) { c.hit("open"); CHK(I == 0, "open-current", mon::fmt("an open switch carries %.9g A", I)); NEAR(g.into(sw, 0), 0, 0, 1e-12, "open-draw", "current drawn by an open switch"); NEAR(g.into(sw, 1), 0, 0, 1e-12, "open-draw-1", "current drawn by an open switch at its output"); if (toBus && since > 1) NEAR(g.V(1), back ? vb * gb / (gb + gd) : 0.0, 1e-6, 1e-9, "open-bus", "voltage behind an open switch"); continue; }
        if (toBus) { NEAR(I, (V0 - g.V(1)) / R, 1e-6, 1e-7, "bus-ohm", "current of a closed switch"); c.hit("bus"); continue; }
        if (!nl) continue;
        bool edge = false; for (auto& m : ms) if (std::fabs(VL - m.uv) < 1e-3 * vn || m.magic) edge = true; if (edge || I < 0 || same < 2) continue; c.hit(cs ? "loads-short" : "loads"); const double Is = cs && VL > 0 ? VL / short_ : 0.0;
        NEAR(VL, V0 - I * R, 1e-4, 1e-4 * vn, "loads-voltage", "voltage at the loads"); NEAR(I, sumI + Is, 1e-3, 10 * tol, "loads-current", mon::fmt("switch current against its loads at %.9g V", VL)); NEAR(gen2 ? s2->getLoadsPower() : s1->getLoadsPower(), I * (V0 - I * R), 1e-6, 1e-6, "loads-power", "total power of the loads"); NEAR(sw->getPower(), -I * V0, 1e-9, 1e-9, "switch-power", "link power"); if (lim > 0) CHK(I <= lim * (1 + 1e-6), "switch-trip", mon::fmt("a closed switch carries %.9g A beyond its trip limit %.6g A", I, lim)); }
}
namespace {
struct Ips : GunnsElectIps { int act() const { return mActivePowerSource; } double load() const { return mTotalPowerLoad; } double instr() const { return mLoadAddedFromInstructor; } void instr(double v) { mLoadAddedFromInstructor = v; } bool exhausted() const { return false; } double cur(int i) const { return mInputCurrent[i]; } double outp(int i) const { return mOutputPower[i]; } };
}
MON_PROP2(E06, ips, "internal power supplies choosing among sources, with backup, commands and malfunctions") {
    const int n = c.r.i(1, 4); Rig g(n, 1e-9); const double vn = c.r.uni(20, 150); std::vector<GunnsBasicPotential*> feeds; std::vector<double> v; std::vector<int> ports; for (int i = 0; i < n; ++i) { v.push_back(vn * c.r.uni(0.8, 1.1)); feeds.push_back(g.feed(i, v.back(), c.r.logu(1, 1000))); g.cond(i, n, 1e-3); ports.push_back(i); }
    const bool backup = n > 1 && c.r.p(0.5), cmdUsed = c.r.p(0.4); double p0 = c.r.logu(0.5, 100), p1 = c.r.p(0.5) ? 0.0 : c.r.logu(0.1, 20), p2 = c.r.p(0.5) ? 0.0 : c.r.logu(0.1, 20); const double uv = vn * c.r.uni(0.3, 0.8), thr = std::max(uv, vn * c.r.uni(0.6, 1.0)), tol = c.r.p(0.2) ? 0.0 : vn * c.r.uni(0, 0.1), tf = c.r.u(), bmin = vn * c.r.uni(0.2, 0.7), bmax = vn * c.r.uni(0.8, 1.3), un = c.r.p(0.5) ? 0.0 : c.r.logu(1e-9, 1e-4);
    GunnsElectIpsConfigData cfg("ips", &g.list, backup, p0, p1, p2, uv, thr, tol, tf, bmin, bmax, 1e-12, 3, 10, cmdUsed, un); Ips* s = g.mk<Ips>(); s->initialize(cfg, GunnsElectIpsInputData(), g.links, &ports); g.start(300); c.note += mon::fmt("%d sources%s, limit %.4g V, tolerance %.4g V, load %.4g W", n, backup ? " (last is backup)" : "", uv, tol, p0 + p1 + p2);
    std::vector<bool> malf(size_t(n), false); bool all = false, on = false, bias = false; double vb = 0, inst = 0, consumed = p0; bool was = true; const int steps = c.r.i(5, 20);
    for (int t = 0; t < steps; ++t) { if (c.r.p(0.5)) for (int i = 0; i < n; ++i) if (c.r.p(0.5)) { v[size_t(i)] = c.r.p(0.15) ? 0.0 : vn * c.r.uni(0.2, 1.2); feeds[size_t(i)]->setSourcePotential(v[size_t(i)]); } if (c.r.p(0.2)) { const int i = c.r.i(-1, n); const bool b = c.r.p(0.4); s->setMalfPowerInput(i, b); if (i >= 0 && i < n) malf[size_t(i)] = b; } if (c.r.p(0.08)) s->setMalfAllPowerInputs(all = c.r.p(0.4)); if (c.r.p(0.2)) { const bool b = c.r.p(0.75); if (b) s->commandOn(); else s->commandOff(); if (cmdUsed) on = b; }
        if (c.r.p(0.2)) { const double q = c.r.uni(-5, 20); s->setOutputPowerAuxiliaryOne(q); if (q >= 0) p1 = q; } if (c.r.p(0.2)) { const double q = c.r.uni(-5, 20); s->setOutputPowerAuxiliaryTwo(q); if (q >= 0) p2 = q; } if (c.r.p(0.1)) { bias = c.r.p(0.5); vb = c.r.uni(-0.5, 1) * p0; s->mMalfBiasPowerConsumedFlag = bias; s->mMalfBiasPowerConsumedValue = vb; } if (c.r.p(0.05)) s->instr(inst = c.r.p(0.5) ? 0.0 : c.r.logu(0.5, 100));
        const bool conv = g.step(0.1); const double used = inst > 0 ? inst : consumed + p1 + p2; consumed = bias ? p0 + vb : p0; c.count(conv ? "steps" : "unconverged"); if (!conv) { consumed = s->getOutputPower(); was = false; continue; } const bool prev = was; was = true; const double total = inst > 0 ? inst : consumed + p1 + p2; NEAR(s->load(), total, 1e-12, 1e-12, "ips-load", "total power load"); NEAR(s->getOutputPower(), consumed, 1e-12, 0, "ips-consumed", "power consumed");
        if (!prev) continue; if (!g.kcl(c, "power supply network", 1e-7, 1e-7)) return; const int a = s->act(); const bool cmd = !cmdUsed || on; bool edge = false;
        const auto ok = [&](int i) { return cmd && !malf[size_t(i)] && !all; }; for (int i = 0; i < n; ++i) for (double x : {uv, thr, bmin, bmax}) if (std::fabs(g.V(i) - x) < 1e-6 * vn) edge = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && std::fabs(g.V(i) - g.V(j) - tol) < 1e-6 * vn) edge = true;
        const bool lock = int(g.spy->rounds.size()) > 10; if (lock) c.hit("ips-locked"); if (edge) continue; c.hit(mon::fmt("ips-%s-%d-%d", backup ? "b" : "n", n, a)); if (a >= 0) { CHK(ok(a) && a < n, "ips-source", mon::fmt("draws from source %d (malfunctioned %d, all %d, commanded on %d)", a, int(malf[size_t(a)]), all, cmd)); CHK(lock || g.V(a) >= uv || (backup && a == n - 1 && g.V(a) >= bmin && g.V(a) <= bmax), "ips-undervoltage", mon::fmt("draws from source %d at %.9g V, limit %.9g V", a, g.V(a), uv)); }
        if (!backup) { for (int i = 0; i < n; ++i) if (ok(i) && g.V(i) >= uv && i != a) CHK(lock || (a >= 0 && g.V(i) - g.V(a) <= tol), "ips-better", mon::fmt("source %d at %.9g V left for source %d at %.9g V (tolerance %.6g V)", i, g.V(i), a, a >= 0 ? g.V(a) : 0.0, tol)); }
        else { const int b = n - 1; int want = -1; double best = 0; for (int i = 0; i < b; ++i) if (ok(i) && g.V(i) > thr && g.V(i) - best > tol) { want = i; best = g.V(i); } if (want < 0) { for (int i = 0; i < b; ++i) if (ok(i) && g.V(i) > uv && g.V(i) - best > tol) { want = i; best = g.V(i); } if (want >= 0) { if (ok(b) && g.V(b) - best > tol) want = b; } else if (ok(b) && g.V(b) >= bmin && g.V(b) <= bmax) want = b; }
            CHK(lock || a == want, "ips-backup-choice", mon::fmt("draws from source %d, expected %d", a, want)); }
        for (int i = 0; i < n; ++i) { const double I = g.into(s, i); if (i == a && g.V(i) > DBL_EPSILON) { NEAR(I, used / g.V(i), 1e-5, 1e-6, "ips-current", mon::fmt("current from the active source at %.9g V", g.V(i))); NEAR(s->getFlux(), I, 1e-9, 1e-9, "ips-flux", "link flux"); NEAR(s->getPower(), I * g.V(i), 1e-9, 1e-9, "ips-power", "link power"); NEAR(s->cur(i), used / g.V(i), 1e-9, 1e-9, "ips-input-current", "reported input current"); NEAR(s->outp(i), used, 1e-9, 0, "ips-output-power", "reported output power"); } else if (i != a) { NEAR(I, un * g.V(i), 1e-6, 1e-9, "ips-unselected", "current from an unselected source"); CHK(s->cur(i) == 0 && s->outp(i) == 0, "ips-idle", "an idle source reports power"); } }
        CHK(s->isPowerSupplyOn() == (a >= 0 && g.V(a) > uv), "ips-on", mon::fmt("supply on %d with active source %d", s->isPowerSupplyOn(), a)); NEAR(s->getPsHeatGenerated(), s->isPowerSupplyOn() ? consumed * tf : 0.0, 1e-9, 1e-12, "ips-heat", "heat generated"); if (a < 0) CHK(s->getFlux() == 0 && s->getPower() == 0, "ips-off-flux", "a supply without a source reports flux"); c.count("ips_checked"); }
}
MON_PROP2(E06, powerbus, "power bus carrying loads directly") {
    Rig g(1, 1e-10); const double vn = c.r.uni(20, 150); GunnsBasicPotential* feed = g.feed(0, vn, c.r.logu(2, 200)); g.cond(0, 1, 1e-3); const int nl = c.r.i(1, 5); std::vector<LM> ms; std::vector<std::unique_ptr<UserLoadBase> > ls; std::vector<UserLoadBase*> reg; bool anyCp = false;
    for (int i = 0; i < nl; ++i) { LM m = mkLoad(c, vn); if (m.res && m.on > 0) m.on = std::max(m.on, vn / 30); if (m.res && m.sby > 0) m.sby = std::max(m.sby, vn / 30); if (m.res) { RL* l = new RL; ls.emplace_back(l); l->initialize(ResistiveLoadConfigData(mon::fmt("l%d", i), RESISTIVE_LOAD, m.uv, m.on, m.sby, m.fuse), ResistiveLoadInputData(false, 0.0, m.mode, 0.0), reg, 0, i); } else { CL* l = new CL; ls.emplace_back(l); anyCp = true; l->initialize(ConstantPowerLoadConfigData(mon::fmt("l%d", i), CONSTANT_POWER_LOAD, m.uv, m.on, m.sby, m.fuse), ConstantPowerLoadInputData(false, 0.0, m.mode, 0.0), reg, 0, i); } ms.push_back(m); }
    PowerBusElectConfigData cfg("bus", &g.list, nl); int port = 0; PowerBusElect* b = g.mk<PowerBusElect>(); b->initialize(cfg, PowerBusElectInputData(), g.links, &reg[0], &port); g.start(300); CHK(b->isNonLinear() == anyCp, "bus-linearity", "power bus linearity"); int same = 0; double vp = -1;
    for (int t = 0; t < 20; ++t) { ++same; if (c.r.p(0.25)) { feed->setSourcePotential(c.r.p(0.1) ? 0.0 : vn * c.r.uni(0.3, 1.2)); same = 0; } for (int i = 0; i < nl; ++i) if (c.r.p(0.2)) { poke(c, ms[size_t(i)], ls[size_t(i)].get(), vn, false); same = 0; } for (auto& m : ms) if (m.blow) m.blown = true;
        const bool conv = g.step(0.1); c.count(conv ? "steps" : "unconverged"); if (!conv) { same = 0; continue; } if (!g.kcl(c, "power bus network", 1e-7, 1e-7)) return; const double V = g.V(0); NEAR(g.into(b, 0), b->getFlux(), 1e-9, 1e-9, "bus-flux", "flux of a power bus"); NEAR(b->getPower(), V * b->getFlux(), 1e-9, 1e-9, "bus-power", "power of a power bus");
        const bool steady = std::fabs(V - vp) < 1e-5 * vn; vp = V; if (same < 2 || !steady) continue; bool edge = false; double sum = 1e-9, g0 = 0; for (int i = 0; i < nl; ++i) { double r, a, p; bool ok; ms[size_t(i)].law(V, r, a, p, ok); if (ms[size_t(i)].magic) edge = true; if (std::fabs(V - ms[size_t(i)].uv) < 1e-2 * vn) edge = true; sum += ms[size_t(i)].res ? (r < kMaxR * 0.99 ? V / r : 0.0) : (V > DBL_EPSILON ? p / V : 0.0); g0 += 1 / r; } if (edge || V < 0.05 * vn) continue;
        NEAR(b->getFlux(), sum, 1e-3, 1e-4 * (1 + g0), "bus-loads", mon::fmt("bus current against its loads at %.9g V", V)); c.hit(anyCp ? "bus-power" : "bus-resistive"); c.count("bus_checked"); }
}
RESTART_PROP(eload, "E06.2")
