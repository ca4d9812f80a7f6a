// Electrical protection monitors: trip logic, switch state machines, and trips of switches and
// converters in solving networks (E03).
#include "erig.hpp"
#include <cfloat>
#include "aspects/electrical/TripLogic/GunnsTripLogic.hh"
#include "aspects/electrical/Switch/GunnsElectSwitchUtil.hh"
#include "aspects/electrical/Switch/GunnsElectSwitchUtil2.hh"
#include "aspects/electrical/Switch/Switch.hh"
#include "aspects/electrical/Switch/SwitchElect.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"

using erig::Rig;
typedef GunnsBasicLink L;

// One trip function: trips only at its own converged step (or at once when forced), asks for more
// converged steps while it waits, never weakens a rejection, latches, and is disabled by a zero limit.
MON_PROP2(E03, trip_logic, "random call sequences on greater-than and less-than trip functions against their rules; distinct = decision classes") {
    std::unique_ptr<GunnsTripLogic> t; const bool gt = c.r.p(0.5); if (gt) t.reset(new GunnsTripGreaterThan); else t.reset(new GunnsTripLessThan);
    float lim = c.r.p(0.15) ? 0.0f : float(c.r.sgn() * c.r.logu(1e-3, 1e3)); const unsigned prio = unsigned(c.r.p(0.1) ? 0 : c.r.i(1, 6)); bool tripped = c.r.p(0.2), inh = false, force = false;
    t->initialize(lim, prio, tripped); CHK(t->isTripped() == tripped && t->getLimit() == lim, "init", "initial trip state or limit");
    const int k = c.r.i(20, 60); c.note = mon::fmt("%s limit=%g priority=%u", gt ? ">" : "<", lim, prio);
    for (int i = 0; i < k; ++i) {
        if (c.r.p(0.08)) t->mMalfInhibitTrip = inh = !inh;
        if (c.r.p(0.08)) t->mMalfForceTrip = force = !force;
        if (c.r.p(0.15)) { t->resetTrip(); tripped = false; CHK(!t->isTripped(), "reset", "still tripped after a reset"); }
        if (c.r.p(0.1)) { lim = c.r.p(0.2) ? 0.0f : float(c.r.sgn() * c.r.logu(1e-3, 1e3)); t->setLimit(lim); }
        const L::SolutionResult in = L::SolutionResult(c.r.i(0, 2)); L::SolutionResult out = in; const int conv = c.r.i(0, 7);
        const float x = c.r.p(0.1) ? lim : c.r.p(0.3) ? std::nextafter(lim, c.r.p(0.5) ? FLT_MAX : -FLT_MAX) : float(c.r.sgn() * c.r.logu(1e-3, 1e3));
        const bool live = !tripped && !inh && lim != 0.0f && prio >= 1, cond = gt ? x > lim : x < lim; if (inh) tripped = false;
        L::SolutionResult want = in; bool just = false;
        if (live && force) { want = L::REJECT; just = true; } else if (live && cond && unsigned(conv) == prio) { want = L::REJECT; just = true; } else if (live && cond && in != L::REJECT) want = L::DELAY;
        if (just) tripped = true;
        const bool got = t->checkForTrip(out, x, conv); c.count("calls");
        CHK(got == just, "trips", mon::fmt("call %d: %strip at converged step %d, value %.9g (inhibit %d, force %d, limit %.9g, live %d)", i, got ? "" : "no ", conv, double(x), inh, force, double(lim), live));
        CHK(out == want, "result", mon::fmt("call %d: result %d -> %d, expected %d (converged step %d, value %.9g)", i, int(in), int(out), int(want), conv, double(x)));
        CHK(t->isTripped() == tripped, "state", mon::fmt("call %d: trip state %d", i, t->isTripped()));
        c.hit(mon::fmt("%d%d%d%d%d%d%d", gt, live, cond, force, inh, int(in), int(want)));
    }
}

// Second-generation switch: a model of its rules runs beside it.
MON_PROP2(E03, switch2, "random commands, malfunctions, resets and sensed values on the second-generation switch, several converged steps per major step, against a model of its rules; distinct = state classes") {
    struct U : GunnsElectSwitchUtil2 { void cmdReset() { mResetTripsCommand = true; } } s; const double vn = c.r.uni(20, 200), in = c.r.logu(0.1, 20); const unsigned prio = unsigned(c.r.p(0.05) ? 0 : c.r.i(1, 4));
    const float uv = c.r.p(0.3) ? 0.0f : float(vn * c.r.uni(0.5, 0.9)), uvr = uv == 0.0f ? 0.0f : float(uv * c.r.uni(1.0, 1.1)), ov = c.r.p(0.3) ? 0.0f : float(vn * c.r.uni(1.1, 1.5)), ovr = ov == 0.0f ? 0.0f : float(ov * c.r.uni(0.9, 1.0)), pc = c.r.p(0.3) ? 0.0f : float(in), nc = c.r.p(0.3) ? 0.0f : float(-in * c.r.uni(0.1, 1));
    bool pos = c.r.p(0.5), cmd = pos; const float res = float(c.r.logu(1e-4, 10));
    s.initialize(GunnsElectSwitchUtil2ConfigData(res, prio), GunnsElectSwitchUtil2InputData(pos, cmd, false, uv, uvr, ov, ovr, pc, nc), "sw");
    CHK(s.isInitialized() && s.getPosition() == pos && !s.isTripped() && (!pos || s.getResistance() == double(res)), "init", "state after initialization");
    bool tuv = false, tov = false, tpc = false, tnc = false, fc = false, fo = false, fuv = false, fov = false, fpc = false, fnc = false, wait = false, just = false; c.note = mon::fmt("priority=%u uv=%g ov=%g pc=%g nc=%g", prio, uv, ov, pc, nc);
    auto tripped = [&]() { return tuv || tov || tpc || tnc; };
    for (int t = 0, T = c.r.i(5, 25); t < T; ++t) {
        if (c.r.p(0.35)) { cmd = c.r.p(0.7); s.setPositionCommand(cmd); }
        if (c.r.p(0.1)) s.setMalfFailClosed(fc = !fc);
        if (c.r.p(0.1)) s.setMalfFailOpen(fo = !fo);
        bool rc = false; if (c.r.p(0.1)) { rc = true; s.cmdReset(); }
        if (c.r.p(0.05)) s.getInputUnderVoltageTrip()->mMalfForceTrip = fuv = !fuv;
        if (c.r.p(0.05)) s.getInputOverVoltageTrip()->mMalfForceTrip = fov = !fov;
        if (c.r.p(0.05)) s.getPosOverCurrentTrip()->mMalfForceTrip = fpc = !fpc;
        if (c.r.p(0.05)) s.getNegOverCurrentTrip()->mMalfForceTrip = fnc = !fnc;
        if (c.r.p(0.03)) { s.resetTrips(); tuv = tov = tpc = tnc = wait = just = false; }
        double v = c.r.p(0.5) ? vn : c.r.uni(0, 2 * vn), i = c.r.p(0.5) ? 0.5 * in * c.r.u() : c.r.uni(-1.5 * in, 2 * in);
        const int K = c.r.i(1, 6); int conv = 0;
        for (int k = 0; k < K; ++k) {
            // update of the position
            if ((tripped() && !cmd) || rc) tuv = tov = tpc = tnc = wait = just = false; rc = false;
            if (fc) pos = true; else if (fo || tripped()) pos = false; else if (!wait) pos = cmd;
            s.updateState(); c.count("updates");
            CHK(s.getPosition() == pos, "position", mon::fmt("step %d.%d: position %d, expected %d (command %d, tripped %d, waiting %d, fail closed %d open %d)", t, k, s.getPosition(), pos, cmd, tripped(), wait, fc, fo));
            CHK(s.isTripped() == tripped(), "tripped", mon::fmt("step %d.%d: tripped %d", t, k, s.isTripped()));
            if (s.isTripped() && !fc) CHK(!s.getPosition(), "tripped-closed", "a tripped switch is closed without a malfunction");
            if (c.r.p(0.3)) { v = c.r.uni(0, 2 * vn); i = c.r.uni(-1.5 * in, 2 * in); } if (c.r.p(0.05)) v = c.r.p(0.5) ? double(uv) : double(ov); if (c.r.p(0.05)) i = double(pc);
            const int cs = conv; wait = false; just = false;
            if (cs > 0 && prio > 0) {
                const float fv = float(v), fi = float(i); const bool at = unsigned(cs) == prio;
                if ((tuv || tov) && !fo && !tpc && !tnc) { bool rej = false, del = false;      // automatic reset of the voltage trips
                    if (tuv && uvr != 0.0f && fv > uvr) { if (at) { tuv = false; rej = true; } else del = true; }
                    if (tov && ovr != 0.0f && fv < ovr) { if (at) { tov = false; rej = true; } else del = true; }
                    if (rej) { just = true; if (cmd && !tripped()) pos = true; } else if (del) wait = true;
                } else if (cmd && !tripped() && !fc) { bool rej = false, del = false;
                    auto chk = [&](bool& tr, float lim, bool cond, bool force) { if (lim == 0.0f || !(force || cond)) return; if (force || at) { tr = true; rej = true; } else del = true; };
                    chk(tuv, uv, fv < uv, fuv); chk(tov, ov, fv > ov, fov); chk(tpc, pc, fi > pc, fpc); chk(tnc, nc, fi < nc, fnc);
                    if (rej) { just = true; pos = false; } else if (del) wait = true; } }
            s.updateTrips(i, v, cs);
            const std::string w = mon::fmt("step %d.%d converged step %d, V=%.9g I=%.9g", t, k, cs, v, i);
            CHK(s.isTripped() == tripped() && s.getInputUnderVoltageTrip()->isTripped() == tuv && s.getInputOverVoltageTrip()->isTripped() == tov && s.getPosOverCurrentTrip()->isTripped() == tpc && s.getNegOverCurrentTrip()->isTripped() == tnc, "trips", w + mon::fmt(": trips uv%d ov%d pos%d neg%d, expected %d%d%d%d", s.getInputUnderVoltageTrip()->isTripped(), s.getInputOverVoltageTrip()->isTripped(), s.getPosOverCurrentTrip()->isTripped(), s.getNegOverCurrentTrip()->isTripped(), tuv, tov, tpc, tnc));
            CHK(s.isWaitingToTrip() == wait, "waiting", w + mon::fmt(": waiting %d", s.isWaitingToTrip()));
            CHK(s.hasJustTripped() == just, "just", w + mon::fmt(": just tripped %d", s.hasJustTripped()));
            CHK(s.getPosition() == pos, "position-after", w + mon::fmt(": position %d, expected %d", s.getPosition(), pos));
            if (s.isTripped() && !fc) CHK(!s.getPosition(), "tripped-closed", w + ": a tripped switch is closed without a malfunction");
            c.hit(mon::fmt("%d%d%d%d%d%d%d%d%d%d", pos, cmd, tuv, tov, tpc, tnc, wait, just, fc, fo));
            conv = just ? 0 : conv + 1;
        }
        // the network accepts the solution: the switch is no longer waiting
        if (wait) { s.updateTrips(0.0, vn, 0); wait = just = false; }
    }
}

// First-generation switch (two copies of the class).
namespace {
template <class SW, class CD, class ID> void switch1(mon::Ctx& c) {
    const bool two = c.r.p(0.5); const int prio = two ? c.r.i(1, 4) : 1; const bool prot = c.r.p(0.85); const double r0 = c.r.logu(1e-4, 10); double pl = c.r.logu(0.1, 20), nl = -c.r.logu(0.01, 5); bool closed = c.r.p(0.5), cmd = closed;
    SW s; s.initialize(CD(r0, prot, true, 110.0, two, two ? 1 : 0, prio), ID(false, 0, closed, pl, nl)); c.note = mon::fmt("twoPort=%d priority=%d protection=%d", two, prio, prot);
    bool pt = false, nt = false, ext = false, wait = false, reset = false, fc = false, fo = false, fp = false, fn = false, fr = false, ign = false; double fpv = 0, fnv = 0, frv = 0, rr = r0; bool on = prot;
    auto tripped = [&]() { return pt || nt || ext; };
    for (int t = 0, T = c.r.i(5, 30); t < T; ++t) {
        if (c.r.p(0.35)) { cmd = c.r.p(0.7); s.setSwitchCommandedClosed(cmd); }
        if (c.r.p(0.07)) s.setMalfFailClosed(fc = !fc);
        if (c.r.p(0.07)) s.setMalfFailOpen(fo = !fo);
        if (c.r.p(0.07)) { fp = !fp; fpv = c.r.logu(0.05, 20); s.setMalfPosTripSetpoint(fp, fpv); }
        if (c.r.p(0.07)) { fn = !fn; fnv = -c.r.logu(0.01, 5); s.setMalfNegTripSetpoint(fn, fnv); }
        if (c.r.p(0.07)) { fr = !fr; frv = c.r.p(0.5) ? c.r.uni(0.01, 1.0) : c.r.uni(1.5, 100.0); s.setMalfFailResistance(fr, frv); }
        if (c.r.p(0.05)) { pl = c.r.logu(0.1, 20); s.setPosTripLimit(pl); }
        if (c.r.p(0.05)) { nl = -c.r.logu(0.01, 5); s.setNegTripLimit(nl); }
        if (c.r.p(0.1)) { s.setTripReset(); reset = true; }
        if (c.r.p(0.06)) { s.setExternalTrip(true); ext = true; }
        if (c.r.p(0.01)) { s.mMalfIgnoreCurrentTrip = true; ign = true; }
        const bool valid = c.r.p(0.93); int conv = c.r.i(0, 1); const double apl = fp ? fpv : pl, anl = fn ? fnv : nl; if (ign) on = false;
        for (int k = 0, K = c.r.i(1, 6); k < K; ++k) {
            rr = fr ? r0 * (frv > 1.0 ? frv / 100.0 : frv) : r0;
            if (valid && !tripped() && !wait) closed = cmd; else if (pt || nt) closed = false;
            if (!valid) { closed = false; cmd = false; reset = true; } else if (fc) closed = true; else if (fo) closed = false;
            if (tripped() && !cmd) reset = true;
            if (reset) pt = nt = ext = wait = reset = false;
            s.updateSwitchState(valid); c.count("updates");
            CHK(s.isClosed() == closed && s.isCommandedClosed() == cmd, "v1-closed", mon::fmt("step %d.%d: closed %d command %d, expected %d %d (supply valid %d, tripped %d, fail closed %d open %d)", t, k, s.isClosed(), s.isCommandedClosed(), closed, cmd, valid, tripped(), fc, fo));
            NEAR(s.getConductance(), closed ? std::min(1.0 / rr, 1e15) : 0.0, 1e-9, 1e-12, "v1-conductance", "conductance of a switch");
            CHK(s.isTripped() == tripped(), "v1-tripped", "trip state after an update");
            const double i = c.r.p(0.5) ? 0.5 * pl * c.r.u() : c.r.uni(-3, 30), is = c.r.p(0.7) ? i : c.r.uni(-3, 30), v = c.r.uni(0, 150); const bool was = tripped(), wasExt = ext; double act = closed ? i : 0.0, sen = closed ? is : 0.0;
            wait = false;
            if (!fc) { if (on) { if (sen > apl) { if (conv >= prio) { pt = true; closed = false; act = 0; } else wait = true; } if (sen < anl) { if (conv >= prio) { nt = true; closed = false; act = 0; } else wait = true; } }
                if (ext && closed) { closed = false; act = 0; wait = false; } }
            s.updateSwitchFlow(i, is, v, conv, false); const std::string w = mon::fmt("step %d.%d converged step %d, I=%.9g (limits %.9g %.9g)", t, k, conv, is, apl, anl);
            CHK(s.isPosTrip() == pt && s.isNegTrip() == nt && s.isTripped() == tripped(), "v1-trips", w + mon::fmt(": trips %d %d, expected %d %d", s.isPosTrip(), s.isNegTrip(), pt, nt));
            CHK(s.isClosed() == closed, "v1-after", w + mon::fmt(": closed %d, expected %d", s.isClosed(), closed)); CHK(s.isWaitingToTrip() == wait, "v1-waiting", w + mon::fmt(": waiting %d", s.isWaitingToTrip()));
            if (!wasExt) CHK(s.isJustTripped() == (tripped() && !was), "v1-just", w + ": just tripped");
            if (tripped() && !fc) CHK(!s.isClosed(), "v1-tripped-closed", w + ": tripped but closed");
            NEAR(s.getCurrent(), act, 1e-12, 1e-12, "v1-current", w + ": current through the switch"); NEAR(s.getPowerDissipation(), closed ? act * act * rr : 0.0, 1e-9, 1e-12, "v1-power", w + ": power dissipated");
            CHK(s.getInputVolts() == v && s.getOutputVolts() == (closed ? v : 0.0), "v1-volts", w + ": voltages");
            c.hit(mon::fmt("%d%d%d%d%d%d%d%d%d%d", closed, cmd, pt, nt, ext, wait, fc, fo, two, on)); conv = s.isJustTripped() ? 0 : conv + 1;
        }
    }
}
}
MON_PROP2(E03, switch1, "random commands, supply losses, malfunctions, resets and currents on the first-generation switch (and its older copy) against a model of its rules; distinct = state classes") {
    if (c.r.p(0.5)) switch1<GunnsElectSwitchUtil, GunnsElectSwitchUtilConfigData, GunnsElectSwitchUtilInputData>(c); else switch1<Switch, SwitchConfigData, SwitchInputData>(c); }

// Switches and converters with trips in solving networks.
namespace {
struct COut : GunnsElectConverterOutput { bool trips() const { return isAnyTrips(); } bool stuck() const { return mReverseBiasFlips >= mStateFlipsLimit; } };
struct Tree {                                   // one protected device in the network
    enum K { SW, UL2, CONV } k; SwitchElect* sw = 0; GunnsElectUserLoadSwitch2* u2 = 0; GunnsElectConverterInput* in = 0; COut* out = 0; int a = 0, b = 0; int p0 = -1;
    double pl = 0, nl = 0; float uv = 0, uvr = 0, ov = 0, ovr = 0, pc = 0, nc = 0, iuv = 0, iov = 0, oc = 0, oov = 0, ouv = 0; unsigned prio = 1; bool fc = false, fo = false, cmd = true, en = true, eo = true; bool rst = false; std::vector<bool> wasT;
    std::vector<bool> trips() const { std::vector<bool> r; if (k == SW) { r.push_back(sw->isSwitchPosTrip()); r.push_back(sw->isSwitchNegTrip()); }
        else if (k == UL2) { GunnsElectSwitchUtil2& s = u2->mSwitch; r.push_back(s.getInputUnderVoltageTrip()->isTripped()); r.push_back(s.getInputOverVoltageTrip()->isTripped()); r.push_back(s.getPosOverCurrentTrip()->isTripped()); r.push_back(s.getNegOverCurrentTrip()->isTripped()); }
        else { r.push_back(in->getInputUnderVoltageTrip()->isTripped()); r.push_back(in->getInputOverVoltageTrip()->isTripped()); r.push_back(out->getOutputOverVoltageTrip()->isTripped()); r.push_back(out->getOutputOverCurrentTrip()->isTripped()); r.push_back(out->getOutputUnderVoltageTrip()->isTripped()); } return r; }
    static const char* nm(K k, int i) { static const char* s[] = {"positive current", "negative current"}; static const char* u[] = {"input under-voltage", "input over-voltage", "positive over-current", "negative over-current"}; static const char* v[] = {"input under-voltage", "input over-voltage", "output over-voltage", "output over-current", "output under-voltage"}; return k == SW ? s[i] : k == UL2 ? u[i] : v[i]; }
    // the trip conditions for input voltage, output voltage and current through the device
    std::vector<bool> cond(double vi, double vo, double i) const { std::vector<bool> r; const float fvi = float(vi), fvo = float(vo), fi = float(i);
        if (k == SW) { r.push_back(i > pl); r.push_back(i < nl); } else if (k == UL2) { r.push_back(uv != 0 && fvi < uv); r.push_back(ov != 0 && fvi > ov); r.push_back(pc != 0 && fi > pc); r.push_back(nc != 0 && fi < nc); }
        else { r.push_back(iuv != 0 && fvi < iuv); r.push_back(iov != 0 && fvi > iov); r.push_back(oov != 0 && fvo > oov); r.push_back(oc != 0 && fi > oc); r.push_back(ouv != 0 && fvo < ouv); } return r; }
};
}
MON_PROP2(E03, networks, "trees of switches and converters with trips of different priorities, commands, malfunctions, load and supply changes: an accepted solution leaves no enabled, untripped protection beyond its limit, each trip was provoked at its own converged step, a tripped device carries nothing, node fluxes balance; distinct = trip classes") {
    const int nd = c.r.i(1, 4), n = nd + 1; Rig g(n, 1e-9); const double vs = c.r.uni(30, 160); GunnsBasicPotential* fd = g.feed(0, vs, c.r.logu(5, 500)); std::vector<Tree> d(nd); std::vector<GunnsBasicConductor*> load(n, (GunnsBasicConductor*)0); std::vector<double> lg(n, 0.0); c.note = mon::fmt("%d devices:", nd);
    for (int i = 0; i < nd; ++i) { Tree& t = d[i]; t.a = c.r.i(0, i); t.b = i + 1; t.k = Tree::K(c.r.i(0, 2)); const double il = c.r.logu(0.1, 5), vnom = vs * 0.8; lg[t.b] = il / vnom; t.prio = unsigned(c.r.p(0.04) ? 0 : c.r.i(1, 4)); c.note += mon::fmt(" %c(%d,%d;%u)", "SUC"[t.k], t.a, t.b, t.prio);
        if (t.k == Tree::SW) { t.sw = g.mk<SwitchElect>(); t.pl = il * c.r.uni(1.05, 4); t.nl = -il * c.r.uni(0.01, 1);
            t.sw->initialize(SwitchElectConfigData(mon::fmt("sw%d", i), &g.list, GunnsElectSwitchUtilConfigData(c.r.logu(1e-3, 0.3), true)), SwitchElectInputData(false, 0.0, GunnsElectSwitchUtilInputData(false, 0, true, t.pl, t.nl)), g.links, t.a, t.b); t.prio = 1; }
        else if (t.k == Tree::UL2) { t.u2 = g.mk<GunnsElectUserLoadSwitch2>(); if (c.r.p(0.5)) { t.uv = float(vs * c.r.uni(0.5, 0.9)); t.uvr = float(t.uv * c.r.uni(1.0, 1.08)); } if (c.r.p(0.5)) { t.ov = float(vs * c.r.uni(1.02, 1.4)); t.ovr = float(t.ov * c.r.uni(0.93, 1.0)); } if (c.r.p(0.7)) t.pc = float(il * c.r.uni(1.05, 4)); if (c.r.p(0.5)) t.nc = float(-il * c.r.uni(0.01, 1));
            t.u2->initialize(GunnsElectUserLoadSwitch2ConfigData(mon::fmt("ul%d", i), &g.list, float(c.r.logu(1e-3, 0.3)), int(t.prio), -1e6f, 1e6f, -1e6f, 1e6f, -1e6f, 1e6f), GunnsElectUserLoadSwitch2InputData(false, 0.0, true, t.uv, t.uvr, t.ov, t.ovr, t.pc, t.nc), g.links, t.a, t.b); t.cmd = true; }
        else { t.in = g.mk<GunnsElectConverterInput>(); t.out = g.mk<COut>(); const double set = c.r.uni(0.4, 1.2) * vs; lg[t.b] = il / set; if (c.r.p(0.5)) t.iuv = float(vs * c.r.uni(0.4, 0.9)); if (c.r.p(0.4)) t.iov = float(vs * c.r.uni(1.02, 1.5)); if (c.r.p(0.6)) t.oc = float(il * c.r.uni(1.05, 4)); if (c.r.p(0.4)) t.oov = float(set * c.r.uni(1.01, 1.5)); if (c.r.p(0.4)) t.ouv = float(set * c.r.uni(0.3, 0.97));
            GunnsElectConverterInputConfigData ci(mon::fmt("in%d", i), &g.list, 0, 0, t.prio, t.iuv, t.iov, 0); const bool tr = c.r.p(0.2); GunnsElectConverterOutputConfigData co(mon::fmt("out%d", i), &g.list, tr ? GunnsElectConverterOutput::TRANSFORMER : GunnsElectConverterOutput::VOLTAGE, c.r.logu(5, 500), c.r.uni(0.6, 1.0), 0, 0, t.prio, t.oov, t.oc, t.in, false, t.ouv);
            t.in->initialize(ci, GunnsElectConverterInputInputData(false, 0.0, true, vs, 0.0, 0.0), g.links, t.a); t.out->initialize(co, GunnsElectConverterOutputInputData(false, 0.0, true, vs, 0.0, tr ? set / vs : set), g.links, t.b); } }
    for (int i = 0; i < n; ++i) load[i] = g.cond(i, n, lg[i] > 0 ? lg[i] : 1e-3);
    GunnsBasicPotential* back = g.feed(n - 1, 0.0, 1.0, "back"); back->setDefaultConductivity(0.0);
    g.start(c.r.p(0.1) ? 30 : 300); for (int i = 0; i < nd; ++i) { Tree& t = d[i]; t.p0 = int(g.spy->probes.size());
        if (t.k == Tree::CONV) { COut* o = t.out; g.spy->probes.push_back([o]() { return o->getFlux(); }); } else { GunnsBasicLink* l = t.k == Tree::SW ? (GunnsBasicLink*)t.sw : (GunnsBasicLink*)t.u2; Rig* gp = &g; g.spy->probes.push_back([l, gp]() { return l->getAdmittanceMatrix()[0] * gp->dV(l); }); } t.wasT = t.trips(); }
    bool okNow = true; for (int s = 0, S = c.r.i(6, 20); s < S; ++s) {
        if (s && c.r.p(0.3)) fd->setSourcePotential(vs * (c.r.p(0.1) ? 0.0 : c.r.uni(0.6, 1.4)));
        if (s && c.r.p(0.4)) { const int k = c.r.i(1, n - 1); load[k]->setDefaultConductivity(lg[k] * (c.r.p(0.2) ? c.r.logu(5, 1e3) : c.r.uni(0.3, 2))); }
        if (s && c.r.p(0.15)) { const bool on = c.r.p(0.6); back->setDefaultConductivity(on ? c.r.logu(0.01, 5) : 0.0); back->setSourcePotential(vs * c.r.uni(0, 1.6)); }
        for (int i = 0; i < nd; ++i) { Tree& t = d[i]; t.rst = false; if (!s || !c.r.p(0.3)) continue;
            if (t.k == Tree::SW) { const int q = c.r.i(0, 4); if (q <= 1) t.sw->setSwitchCommandedClosed(t.cmd = c.r.p(0.75)); else if (q == 2) { t.rst = true; t.sw->setSwitchTripReset(); } else if (q == 3) t.sw->mSwitch.setMalfFailClosed(t.fc = c.r.p(0.3)); else t.sw->mSwitch.setMalfFailOpen(t.fo = c.r.p(0.3)); }
            else if (t.k == Tree::UL2) { const int q = c.r.i(0, 4); if (q <= 1) t.u2->mSwitch.setPositionCommand(t.cmd = c.r.p(0.75)); else if (q == 2) t.u2->mSwitch.resetTrips(); else if (q == 3) t.u2->mSwitch.setMalfFailClosed(t.fc = c.r.p(0.3)); else t.u2->mSwitch.setMalfFailOpen(t.fo = c.r.p(0.3)); }
            else { const int q = c.r.i(0, 4); if (q <= 1) t.out->setEnabled(t.eo = c.r.p(0.8)); else if (q == 2) t.in->setEnabled(t.en = c.r.p(0.8)); else if (q == 3) t.in->resetTrips(); else t.out->resetTrips(); } }
        for (int i = 0; i < nd; ++i) d[i].wasT = d[i].trips();
        const bool lastOk = okNow; const bool ok = okNow = g.step(0.1); c.count(ok ? "converged_steps" : "unconverged_steps");
        const std::vector<erig::Round>& R = g.spy->rounds;
        for (int i = 0; i < nd; ++i) { Tree& t = d[i]; const std::vector<bool> now = t.trips(); for (size_t q = 0; q < now.size(); ++q) if (now[q] && !t.wasT[q]) { bool prov = false; for (size_t k = 0; k < R.size() && !prov; ++k) { const double vi = R[k].v[t.a], vo = R[k].v[t.b]; prov = R[k].conv == int(t.prio) && t.cond(vi, vo, R[k].q[t.p0])[q]; }
                c.count("trips"); c.hit(mon::fmt("%d-%zu-p%u", int(t.k), q, t.prio)); CHK(prov, "unprovoked-trip", mon::fmt("step %d: device %d %s trip without the condition at converged step %u", s, i, Tree::nm(t.k, int(q)), t.prio)); } }
        if (!ok) continue;
        for (int i = 0; i < nd; ++i) { Tree& t = d[i]; const std::vector<bool> now = t.trips(); const double vi = g.V(t.a), vo = g.V(t.b); bool any = false; for (size_t q = 0; q < now.size(); ++q) any = any || now[q];
            const double I = t.k == Tree::CONV ? t.out->getFlux() : t.k == Tree::SW ? t.sw->getFlux() : t.u2->getFlux(); const std::vector<bool> cd = t.cond(vi, vo, I); const std::string w = mon::fmt("step %d device %d (Vin %.9g Vout %.9g I %.9g)", s, i, vi, vo, I); c.count("devices_checked");
            for (size_t q = 0; q < now.size(); ++q) { const bool en = t.k == Tree::CONV ? (q < 2 ? t.en : t.eo) && t.prio > 0 : t.k == Tree::SW ? !t.fc && t.sw->isSwitchClosed() : !t.fc && t.cmd && t.prio > 0; if (!en || any) continue;
                CHK(!cd[q], "limit-exceeded", w + mon::fmt(": accepted beyond its %s limit without a trip", Tree::nm(t.k, int(q)))); c.count("limits_checked"); }
            if (t.k == Tree::CONV) { if (now[0] || now[1]) { CHK(t.in->getFlux() == 0.0, "tripped-draws", w + ": input tripped but draws current"); if ((t.wasT[0] && now[0]) || (t.wasT[1] && now[1])) CHK(I == 0.0, "tripped-delivers", w + ": input tripped but the output delivers"); } if (now[2] || now[3] || now[4]) CHK(I == 0.0, "tripped-delivers", w + ": output tripped but delivers"); if (!t.en || !t.eo) CHK(I == 0.0, "disabled-delivers", w + ": disabled but delivers"); }
            else { const bool closed = t.k == Tree::SW ? t.sw->isSwitchClosed() : t.u2->mSwitch.getPosition(); if (any && !t.fc) CHK(!closed, "tripped-closed", w + ": tripped but closed"); if (!closed) CHK(I == 0.0, "open-conducts", w + ": open but carries current"); else { const double r = t.k == Tree::SW ? 1.0 / t.sw->mSwitch.getConductance() : t.u2->mSwitch.getResistance(); NEAR(I, (vi - vo) / r, 1e-6, 1e-6 / r * 1e-2 + 1e-8, "switch-law", w + ": current through a closed switch"); }
                if (t.fc) CHK(closed, "fail-closed", w + ": failed closed but open"); else if (t.fo) CHK(!closed, "fail-open", w + ": failed open but closed"); else if (!any && !t.rst && lastOk) CHK(closed == t.cmd, "command", w + mon::fmt(": command %d, closed %d, not tripped", t.cmd, closed));
                c.hit(mon::fmt("s%d%d%d%d", closed, any, t.fc, t.fo)); }
        }
        bool hunt = false; for (int i = 0; i < nd; ++i) if (d[i].k == Tree::CONV && d[i].out->stuck()) hunt = true;   // a switch hunting between trip and automatic reset used up the changes of bias
        if (hunt) { c.count("hunting"); continue; }
        if (!g.kcl(c, "switch network", 1e-5, 1e-5)) return;
        for (int k = 0; k < n; ++k) { double mag = 0; for (size_t i = 0; i < g.links.size(); ++i) mag = std::max(mag, std::fabs(g.links[i]->getFlux())); NEAR(g.nodes[k].getNetFlux(), 0.0, 0, 1e-5 * mag + 1e-5, "node-net-flux", mon::fmt("step %d: net flux at node %d without capacitance", s, k)); }
    }
}
