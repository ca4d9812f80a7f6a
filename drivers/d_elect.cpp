// Electrical aspect monitors: resistive elements, diode, constant power load, short and selector
// against their constitutive laws in random networks (E01).
#include "erig.hpp"
#include "aspects/electrical/resistive/GunnsElectricalResistor.hh"
#include "aspects/electrical/resistive/GunnsResistiveLoad.hh"
#include "aspects/electrical/resistive/GunnsResistorPowerFunction.hh"
#include "aspects/electrical/resistive/GunnsElectShort.hh"
#include "aspects/electrical/Diode/GunnsElectRealDiode.hh"
#include "aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.hh"
#include "aspects/electrical/Switch/GunnsElectSelector.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"
#include "math/approximation/TsLinearInterpolator.hh"

namespace {
using erig::Rig;
// The user's direct data, set from input files or a malfunction panel in practice.
struct ULoad : GunnsResistiveLoad { };
struct UCpl : EpsConstantPowerLoad { void bias(double b) { mBiasPowerLoadValue = b; } };
// a selector left without a connection keeps its last contributions (known finding), which a restart drops
struct USel : GunnsElectSelector, rst::Keep { bool refuse() { return getConnectedPort() <= 0 || !(mSelector > 0 && mSelector < getNumberPorts()); } };
struct UDiode : GunnsElectRealDiode { bool revBias() const { return mReverseBias; } };

double blkFactor(GunnsBasicLink* l) { return l->mMalfBlockageFlag ? 1.0 - l->mMalfBlockageValue : 1.0; }

// One element under watch: its law gives the current leaving port 0 of the element's nodes.
struct El {
    enum K { RES, LOAD, POWF, SHORT, DIODE, CPL, SEL } k; GunnsBasicLink* l = 0;
    double r = 0, eff = 0, uv = 0, ex = 1, gf = 0, gr = 0, vd = 0, pd = 0, bias = 0, minV = 0; bool closed = true, tangent = false; int sel = 0, lastPort = -1; int closedSteps = 0;
    bool cp = false, cc = false, ip = false, ic = false, rs = false; double vcp = 0, vcc = 0, vip = 0, vic = 0, vrs = 0;   // short modes
    int latched = 0; double latchG = 0, latchVal = 0; bool latchJudge = false;                                                // 1 power, 2 current
};
// A load that asks for more than its supply can give pulls its voltage to nothing, and its conductance
// exceeds what the solver can resolve beside the others.
bool collapsed(Rig& g) { for (size_t i = 0; i < g.links.size(); ++i) if (std::fabs(g.links[i]->getAdmittanceMatrix()[0]) > 1e6) return true; return false; }
const char* kn(El::K k) { static const char* n[] = {"resistor", "resistive-load", "power-function", "short", "diode", "power-load", "selector"}; return n[k]; }
}
MON_PROP(E01, "elements") {
    const int n = c.r.i(2, 5); Rig g(n, 1e-9);
    std::vector<GunnsBasicPotential*> feeds; std::vector<double> fv;
    for (int i = 0; i < n; ++i) g.cond(i, n, c.r.logu(1e-4, 1e-1));
    const int nf = c.r.i(1, 2); for (int i = 0; i < nf; ++i) { double v = c.r.p(0.8) ? c.r.uni(5, 150) : c.r.uni(-150, 150); fv.push_back(v); feeds.push_back(g.feed(i == 0 ? 0 : c.r.i(0, n - 1), v, c.r.logu(0.5, 200))); }
    if (n > 2 && c.r.p(0.7)) for (int i = 0; i < n - 1; ++i) if (c.r.p(0.6)) g.cond(i, i + 1, c.r.logu(1e-2, 50));
    const int ne = c.r.i(1, 4); std::vector<El> es(ne); std::string desc = mon::fmt("n=%d", n);
    for (int i = 0; i < ne; ++i) {
        El& e = es[i]; e.k = El::K(c.r.i(0, 6)); int a = c.r.i(0, n - 1), b = c.r.p(0.55) ? n : c.r.i(0, n - 1); if (a == b) b = n; if (e.k != El::CPL && c.r.p(0.2)) std::swap(a, b);
        const std::string nm = mon::fmt("el%d", i); desc += mon::fmt(" %s(%d,%d)", kn(e.k), a, b);
        switch (e.k) {
            case El::RES: { GunnsElectricalResistor* l = g.mk<GunnsElectricalResistor>(); e.r = c.r.logu(0.05, 1e5); e.eff = c.r.uni(0.01, 0.99);
                l->initialize(GunnsElectricalResistorConfigData(nm, &g.list, e.r, e.eff), GunnsElectricalResistorInputData(), g.links, a, b); e.l = l; break; }
            case El::LOAD: { ULoad* l = g.mk<ULoad>(); e.r = c.r.logu(0.05, 1e5); e.eff = c.r.uni(0.01, 0.99); e.uv = c.r.uni(1, 120);
                GunnsResistiveLoadInputData id(false, 0.0, true); l->initialize(GunnsResistiveLoadConfigData(nm, &g.list, e.r, e.eff, e.uv, 1e-3, 1e6, -1e6, 1), id, g.links, a, b); e.l = l; break; }
            case El::POWF: { GunnsResistorPowerFunction* l = g.mk<GunnsResistorPowerFunction>(); e.r = c.r.logu(0.05, 1e4); e.ex = c.r.p(0.15) ? 1.0 : c.r.uni(0.5, 2.5); e.tangent = c.r.p(e.ex == 1.0 ? 0.03 : 0.5);
                l->initialize(GunnsResistorPowerFunctionConfigData(nm, &g.list, e.r, e.ex, e.tangent), GunnsResistorPowerFunctionInputData(), g.links, a, b); e.l = l; break; }
            case El::SHORT: { GunnsElectShort* l = g.mk<GunnsElectShort>(); l->initialize(GunnsElectShortConfigData(nm, &g.list), GunnsElectShortInputData(), g.links, a, b); e.l = l; break; }
            case El::DIODE: { UDiode* l = g.mk<UDiode>(); e.gf = c.r.logu(0.5, 500); e.gr = c.r.p(0.3) ? 0.0 : c.r.logu(1e-9, 1e-4); e.vd = c.r.p(0.2) ? 0.0 : c.r.uni(0.1, 2.0);
                l->initialize(GunnsElectRealDiodeConfigData(nm, &g.list, e.gf, e.gr, e.vd), GunnsElectRealDiodeInputData(false, 0.0, c.r.p(0.5)), g.links, a, b); e.l = l; break; }
            case El::CPL: { UCpl* l = g.mk<UCpl>(); e.pd = c.r.logu(0.1, 300); e.minV = c.r.p(0.2) ? 0.0 : c.r.uni(1, 60);
                l->initialize(EpsConstantPowerLoadConfigData(nm, &g.list, 0.0, e.pd, e.minV), EpsConstantPowerLoadInputData(), g.links, a, b); e.l = l; break; }
            case El::SEL: { USel* l = g.mk<USel>(); e.gf = c.r.logu(1e-2, 100); std::vector<int> ports; ports.push_back(a); ports.push_back(b);
                const int extra = c.r.i(0, 3); for (int q = 0; q < extra; ++q) { const int t = c.r.i(0, n); if (std::find(ports.begin(), ports.end(), t) == ports.end()) ports.push_back(t); }
                std::vector<std::string> lab; for (size_t q = 0; q < ports.size(); ++q) lab.push_back(mon::fmt("p%zu", q)); e.sel = c.r.i(0, int(ports.size()) - 1);
                l->initialize(GunnsElectSelectorConfigData(nm, &g.list, e.gf, &lab), GunnsElectSelectorInputData(false, 0.0, e.sel), g.links, &ports); e.l = l; break; }
        }
    }
    GunnsBasicConductor* poke = g.cond(0, n, 1e-3); bool toggle = false;
    g.start(300); c.note += desc;
    const int steps = c.r.i(4, 14); bool lastConv = true; std::vector<double> v0(n + 1, 0.0);
    for (int t = 0; t < steps; ++t) {
        if (t && c.r.p(0.4)) for (size_t i = 0; i < feeds.size(); ++i) if (c.r.p(0.6)) { fv[i] = c.r.p(0.8) ? c.r.uni(0, 150) : c.r.uni(-150, 150); feeds[i]->setSourcePotential(fv[i]); }
        for (int i = 0; i <= n; ++i) v0[i] = g.V(i);
        for (int i = 0; i < ne; ++i) { El& e = es[i];
            if (t && c.r.p(0.25)) { if (c.r.p(0.5)) e.l->setMalfBlockage(false, 0.0); else e.l->setMalfBlockage(true, c.r.p(0.2) ? 1.0 : c.r.uni(0, 1)); }
            if (!t || !c.r.p(0.4)) continue;
            switch (e.k) {
                case El::LOAD: e.closed = c.r.p(0.7); static_cast<ULoad*>(e.l)->setLoadSwitchClosed(e.closed); break;
                case El::POWF: if (c.r.p(0.5)) { e.r = c.r.logu(0.05, 1e4); static_cast<GunnsResistorPowerFunction*>(e.l)->setResistance(e.r); } break;
                case El::CPL: if (c.r.p(0.5)) { e.pd = c.r.p(0.1) ? 0.0 : c.r.logu(0.1, 300); static_cast<UCpl*>(e.l)->setPowerAndNominalPotential(e.pd, c.r.uni(1, 120)); } else { e.bias = c.r.p(0.5) ? 0.0 : c.r.logu(0.1, 100); static_cast<UCpl*>(e.l)->bias(e.bias); } break;
                case El::DIODE: if (c.r.p(0.5)) { e.vd = c.r.uni(0, 3); static_cast<UDiode*>(e.l)->setVoltageDrop(e.vd); } else { e.gr = c.r.logu(1e-9, 1e-4); static_cast<UDiode*>(e.l)->setReverseConductivity(e.gr); } break;
                case El::SEL: if (c.r.p(0.7)) { e.sel = c.r.i(-1, e.l->getNumberPorts() + 1); static_cast<GunnsElectSelector*>(e.l)->setSelector(e.sel); } else { e.gf = c.r.p(0.1) ? 0.0 : c.r.logu(1e-2, 100); static_cast<GunnsElectSelector*>(e.l)->setDefaultConductance(e.gf); } break;
                case El::SHORT: { GunnsShortUtil& s = static_cast<GunnsElectShort*>(e.l)->mShort; const int q = c.r.i(0, 4); const bool on = c.r.p(0.65); const double sg = c.r.p(0.3) ? -1 : 1;
                    if (q == 0) { e.cp = on; e.vcp = sg * c.r.logu(1, 500); s.setMalfConstantPower(on, e.vcp); } else if (q == 1) { e.cc = on; e.vcc = sg * c.r.logu(0.01, 20); s.setMalfConstantCurrent(on, e.vcc); }
                    else if (q == 2) { e.ip = on; e.vip = sg * c.r.logu(1, 500); s.setMalfInitialPower(on, e.vip); } else if (q == 3) { e.ic = on; e.vic = sg * c.r.logu(0.01, 20); s.setMalfInitialCurrent(on, e.vic); }
                    else { e.rs = on; e.vrs = c.r.logu(0.05, 1e4); s.setMalfResistance(on, e.vrs); } break; }
                default: break;
            } }
        bool stale = false;
        for (int i = 0; i < ne; ++i) { El& e = es[i]; if (e.k != El::SEL) continue; const int port = static_cast<GunnsElectSelector*>(e.l)->getConnectedPort(); const double gg = port > 0 ? e.gf * blkFactor(e.l) : 0.0;
            if (t && port != e.lastPort && e.lastPort > 0 && gg < 3e-14) stale = true;
            e.lastPort = port; }
        if (stale && !c.r.p(0.03)) { toggle = !toggle; poke->setDefaultConductivity(toggle ? 1.1e-3 : 1e-3); stale = false; }   // something else changes in the same step
        bool conv; try { conv = g.step(c.r.uni(0.01, 1.0)); } catch (const TsNumericalException& ex) { if (collapsed(g)) { c.count("collapsed_aborts"); return; } c.fail("threw", std::string("a network of passive elements, each node with a path to ground, threw ") + ex.what()); return; }
        c.count(conv ? "converged_steps" : "unconverged_steps");
        // initial-value shorts latch the conductance from the voltage before the step in which they come on
        for (int i = 0; i < ne; ++i) { El& e = es[i]; if (e.k != El::SHORT) continue;
            int mode = e.cp || e.cc ? 0 : e.ip ? 1 : e.ic ? 2 : 0; const double val = mode == 1 ? e.vip : e.vic;
            if (!mode) { e.latched = 0; e.latchJudge = false; if (e.ip || e.ic) e.latched = -1; continue; }   // -1: came on while another mode had precedence: not judged until re-commanded
            if (e.latched == mode && e.latchVal == val) continue;
            if (e.latched == -1 || (e.latched > 0 && e.latched != mode)) { e.latched = -1; e.latchJudge = false; if (!(mode == 1 && !e.ip) ) continue; }
            const double dv = std::fabs(v0[e.l->getNodeMap()[0]] - v0[e.l->getNodeMap()[1]]);
            e.latched = mode; e.latchVal = val; e.latchJudge = dv > 1e-3; e.latchG = mode == 1 ? std::fabs(val) / (dv * dv) : std::fabs(val) / dv; }
        if (!conv) { lastConv = false; continue; }
        if (collapsed(g)) { c.count("collapsed_steps"); lastConv = false; continue; }
        if (!g.kcl(c, "elements", 1e-6, 1e-6, stale ? "selector-disconnect-stale" : "kcl") || stale) return;
        // net flux reported through the nodes
        for (int k = 0; k < n; ++k) { double mag = 0; for (size_t i = 0; i < g.links.size(); ++i) mag = std::max(mag, std::fabs(g.links[i]->getFlux()));
            NEAR(g.nodes[k].getNetFlux(), 0.0, 0, 1e-6 * mag + 1e-6, "node-net-flux", mon::fmt("net flux at node %d without capacitance", k)); }
        for (int i = 0; i < ne; ++i) { El& e = es[i]; GunnsBasicLink* l = e.l; double dv = g.dV(l); const double bf = blkFactor(l); double I = 0, tolI = 0, G = 0; bool judge = true, tangentLinear = false;
            switch (e.k) {
                case El::RES: G = bf / e.r; I = G * dv; break;
                case El::LOAD: G = bf / (e.closed ? e.r : 1e12); I = G * dv; if (e.closed && bf == 1.0) ++e.closedSteps; break;
                case El::POWF: { if (e.ex == 1.0 && e.tangent) { tangentLinear = true; } const double gg = bf / e.r; const double ad = std::fabs(dv); if (ad < 0.1) { judge = false; c.count("powf_low_drop"); break; } if (gg <= 0) { I = 0; break; }
                    I = (dv > 0 ? 1 : -1) * std::pow(ad * gg, 1.0 / e.ex); G = std::max(std::fabs(I) / ad, std::fabs(I) / ad / e.ex); c.hit(mon::fmt("powf-%s-%s", e.tangent ? "tan" : "sec", dv > 0 ? "fwd" : "rev")); break; }
                case El::SHORT: { const double a = std::fabs(dv), sg = dv < 0 ? -1 : 1; if (a < 1e-3) { judge = false; break; }
                    if (e.cp) { I = bf * std::fabs(e.vcp) / a * sg; G = std::fabs(e.vcp) / a / a; c.hit("short-cp"); } else if (e.cc) { I = bf * std::fabs(e.vcc) * sg; G = std::fabs(e.vcc) / a; c.hit("short-cc"); }
                    else if (e.ip || e.ic) { judge = e.latchJudge && lastConv; G = e.latchG; I = bf * G * dv; if (judge) c.hit(e.ip ? (e.vip < 0 ? "short-ip-neg" : "short-ip") : (e.vic < 0 ? "short-ic-neg" : "short-ic")); } else if (e.rs) { G = 1 / e.vrs; I = bf * G * dv; c.hit("short-r"); } else { I = 0; } break; }
                case El::DIODE: { if (dv - e.vd > 1e-6) { G = e.gf * bf; I = G * (dv - e.vd); c.hit("diode-forward"); } else if (dv - e.vd < -1e-6) { G = e.gf; I = e.gr * bf * dv; c.hit("diode-reverse"); } else judge = false;
 break; }
                case El::CPL: { const double p = e.pd + e.bias; if (dv < 0) { I = 0; G = 1; c.hit("cpl-negative"); } else { const double lim = std::max(0.99 * e.minV, 1e-8); const double v = std::max(dv, lim); G = p / v / v; I = bf * G * dv; c.hit(dv >= lim ? "cpl-power" : "cpl-undervoltage"); if (dv < 1e-4) judge = false; } if (!lastConv) judge = false; break; }
                case El::SEL: { const int port = static_cast<GunnsElectSelector*>(l)->getConnectedPort(); const bool ok = e.sel >= 1 && e.sel < l->getNumberPorts();
                    CHK(port == (ok ? e.sel : 0), "selector-port", mon::fmt("selection %d of %d ports connects port %d", e.sel, l->getNumberPorts(), port));
                    if (ok) { dv = g.dV(l, 0, e.sel); G = bf * e.gf; I = G * dv; c.hit("selector-on"); } else { dv = 0; I = 0; c.hit("selector-off"); }
                    for (int p = 1; p < l->getNumberPorts(); ++p) { const double f = g.into(l, p), x = ok && p == e.sel ? -I : 0.0; CHK(std::fabs(f - x) <= 1e-7 * std::fabs(I) + 1e-8, "selector-other-ports", mon::fmt("selector with port %d selected carries %.9g A at port %d, expected %.9g", e.sel, f, p, x)); } break; }
            }
            if (!judge) { c.count("not_judged"); continue; }
            tolI = 1e-6 * std::fabs(I) + 1e-7 * std::max(1.0, G); if (e.k == El::POWF) { double gn = 0; for (size_t q = 0; q < g.links.size(); ++q) { GunnsBasicLink* o = g.links[q]; const int m = o->getNumberPorts(); for (int p = 0; p < m; ++p) gn = std::max(gn, o->getAdmittanceMatrix()[p * m + p]); } tolI += 2e-5 * std::fabs(I) + 1e-8 * gn; }   // the solver settles node potentials, not a weak link's current
            c.count("laws_checked"); c.hit(kn(e.k));
            if (!(std::fabs(l->getFlux() - I) <= tolI)) { c.fail(tangentLinear ? "power-function-tangent-linear" : mon::fmt("%s-law", kn(e.k)), mon::fmt("%s step %d: dV=%.12g blockage factor %.4g: flux %.12g A, law gives %.12g A (r=%g ex=%g tan=%d gf=%g gr=%g vd=%g P=%g minV=%g)", kn(e.k), t, dv, bf, l->getFlux(), I, e.r, e.ex, e.tangent, e.gf, e.gr, e.vd, e.pd + e.bias, e.minV)); return; }
            NEAR(g.into(l, 0), I, 1e-6, tolI, "system-current", mon::fmt("%s contribution to the system of equations", kn(e.k)));
            if (e.k == El::RES || e.k == El::LOAD) { GunnsElectricalResistor* q = static_cast<GunnsElectricalResistor*>(l);
                NEAR(q->getPower(), I * dv, 1e-6, 1e-9 + std::fabs(dv) * tolI, "resistor-power", "power of a resistor"); NEAR(q->getWasteHeat(), I * dv * (1 - e.eff), 1e-6, 1e-9 + std::fabs(dv) * tolI, "resistor-heat", "waste heat of a resistor");
                NEAR(q->getVoltageIn(), g.V(l->getNodeMap()[0]), 1e-12, 1e-12, "resistor-vin", "resistor input voltage"); NEAR(q->getVoltageOut(), g.V(l->getNodeMap()[1]), 1e-12, 1e-12, "resistor-vout", "resistor output voltage"); NEAR(q->getVoltageDrop(), dv, 1e-12, 1e-12, "resistor-vdrop", "resistor voltage drop"); NEAR(q->getCurrent(), l->getFlux(), 0, 0, "resistor-current", "reported resistor current"); }
            else NEAR(l->getPower(), -l->getFlux() * dv, 1e-6, 1e-9 + std::fabs(dv) * tolI, "power", mon::fmt("power of a %s", kn(e.k)));
            if (e.k == El::LOAD) { ULoad* q = static_cast<ULoad*>(l); q->processOutputs(); const double vin = g.V(l->getNodeMap()[0]); if (std::fabs(vin - e.uv) > 1e-9) { const bool valid = vin > e.uv && e.closed; CHK(q->getPowerValid() == valid, "load-power-valid", mon::fmt("load power valid is %d with input %.9g V, limit %.9g V, switch %s", q->getPowerValid(), vin, e.uv, e.closed ? "closed" : "open")); c.hit(valid ? "valid" : "invalid"); } }
            if (e.k == El::DIODE && e.gr == 0 && l->getFlux() < -1e-9) { c.fail("diode-backflow", mon::fmt("a diode without reverse conductance conducts %.9g A backward", l->getFlux())); return; }
        }
        lastConv = true;
    }
    c.note += mon::fmt(" steps=%d", steps);
}

// ---------------------------------------------------------------------------------------------
// E02: converters
// ---------------------------------------------------------------------------------------------
namespace {
struct CIn : GunnsElectConverterInput { double eff() const { return mConverterEfficiency; } bool over() const { return mOverloadedState; } double loss() const { return mTotalPowerLoss; } double pin() const { return mInputPower; } double vin() const { return mInputVoltage; } };
struct COut : GunnsElectConverterOutput { bool rev() const { return mReverseBiasState; } int lim() const { return mLimitState; } double loss() const { return mTotalPowerLoss; } double chLoss() const { return mOutputChannelLoss; } unsigned flips() const { return mLimitStateFlips; } bool trips() const { return isAnyTrips(); } bool avail() const { return mOutputPowerAvailable; } bool hunted() const { return mReverseBiasFlips >= mStateFlipsLimit; } };
struct Stage {                                 // one converter between nodes a and b
    CIn* in = 0; COut* out = 0; int a = 0, b = 0; int type = 0; double g = 0, eff = 1, set = 0, ref = 0; bool limiting = false; float oc = 0, ov = 0, uv = 0, iuv = 0, iov = 0; bool table = false;
    std::vector<double> tx, ty; std::shared_ptr<TsLinearInterpolator> tab; bool enIn = true, enOut = true; double blkIn = 0, blkOut = 0; GunnsBasicConductor* load = 0; double loadG = 0; unsigned prio = 1;
    double tabEff(double f) const { if (!table) return 1.0; if (f <= tx.front()) return ty.front(); if (f >= tx.back()) return ty.back(); size_t i = 1; while (f > tx[i]) ++i; return ty[i - 1] + (ty[i] - ty[i - 1]) * (f - tx[i - 1]) / (tx[i] - tx[i - 1]); }
    double bIn() const { return 1.0 - std::min(1.0, std::max(0.0, blkIn)); }
    double bOut() const { return 1.0 - std::min(1.0, std::max(0.0, blkOut)); }
};
const char* tn(int t) { static const char* n[] = {"voltage", "transformer", "current", "power"}; return n[t]; }
void makeStage(mon::Ctx& c, Rig& g, Stage& s, int a, int b, double vs, bool trips, std::vector<std::function<void()> >&) {
    s.a = a; s.b = b; s.type = c.r.i(0, 3); s.g = c.r.logu(5, 5e3); s.eff = c.r.p(0.2) ? 1.0 : c.r.uni(0.5, 1.0); s.limiting = !trips && c.r.p(0.5); s.prio = unsigned(c.r.i(1, 3));
    const double vnom = c.r.uni(5, 150), inom = c.r.logu(0.05, 5); s.loadG = inom / vnom;
    s.set = s.type == 0 ? vnom : s.type == 1 ? vnom / vs : s.type == 2 ? inom : vnom * inom;
    if (s.limiting) { s.oc = c.r.p(0.6) ? float(inom * c.r.uni(0.3, 2.0)) : 0.0f; if (s.type >= 2) { s.ov = c.r.p(0.7) ? float(vnom * c.r.uni(0.5, 1.6)) : 0.0f; s.uv = c.r.p(0.4) ? float(vnom * c.r.uni(0.1, 0.45)) : 0.0f; if (s.ov == 0.0f && s.oc > 0.0f && s.uv == 0.0f) s.oc = 0.0f; } }
    else if (trips) { if (c.r.p(0.6)) s.oc = float(inom * c.r.uni(0.7, 2.5)); if (c.r.p(0.5)) s.ov = float(vnom * c.r.uni(0.8, 1.8)); if (c.r.p(0.4)) s.uv = float(vnom * c.r.uni(0.2, 0.95)); if (c.r.p(0.5)) s.iuv = float(vs * c.r.uni(0.2, 0.95)); if (c.r.p(0.4)) s.iov = float(vs * c.r.uni(1.02, 1.6)); if (s.iuv > s.iov && s.iov != 0.0f) s.iuv = 0.0f; }
    else if (c.r.p(0.3)) s.iuv = float(vs * c.r.uni(0.1, 0.5));
    s.table = c.r.p(0.4); if (s.table) { const int m = c.r.i(2, 5); double x = 0; for (int i = 0; i < m; ++i) { s.tx.push_back(x); s.ty.push_back(c.r.uni(0.4, 1.0)); x += c.r.uni(0.1, 0.5); } s.ref = vnom * inom * c.r.uni(0.5, 3); s.tab.reset(new TsLinearInterpolator(&s.tx[0], &s.ty[0], m, s.tx.front(), s.tx.back())); }
    s.in = g.mk<CIn>(); s.out = g.mk<COut>();
    GunnsElectConverterInputConfigData ci(mon::fmt("in%d", a), &g.list, 0, 0, trips ? s.prio : 0, s.iuv, s.iov, s.table ? s.tab.get() : 0);
    GunnsElectConverterOutputConfigData co(mon::fmt("out%d", b), &g.list, GunnsElectConverterOutput::RegulatorType(s.type), s.g, s.eff, 0, 0, trips ? s.prio : 0, s.ov, s.oc, s.in, s.limiting, s.uv);
    GunnsElectConverterInputInputData ii(false, 0.0, true, c.r.p(0.5) ? vs : 0.0, 0.0, s.table ? s.ref : 0.0);
    GunnsElectConverterOutputInputData oi(false, 0.0, true, c.r.p(0.5) ? vs : 0.0, 0.0, s.set);
    if (c.r.p(0.5)) { s.in->initialize(ci, ii, g.links, a); s.out->initialize(co, oi, g.links, b); } else { s.out->initialize(co, oi, g.links, b); s.in->initialize(ci, ii, g.links, a); }
    s.load = g.cond(b, g.n, s.loadG);
}
// The laws one converter must satisfy at a converged solution.
bool checkStage(mon::Ctx& c, Rig& g, const Stage& s, bool pureLoad, bool lastOk) {
    const double Vi = g.V(s.a), V = g.V(s.b), I = s.out->getFlux(), Ii = s.in->getFlux(); const std::string d = mon::fmt("%s converter (set %.6g, G %.4g, eff %.3g, limiting %d oc %.4g ov %.4g uv %.4g; Vin %.9g, Vout %.9g, Iin %.9g, Iout %.9g)", tn(s.type), s.set, s.g, s.eff, s.limiting, double(s.oc), double(s.ov), double(s.uv), Vi, V, Ii, I);
    (void)lastOk;
    if (Vi < 0 || V < 0) { c.count("negative_node"); return true; }      // pulled below ground by an overloaded load
    if (s.out->hunted()) { c.count("hunting"); return true; }            // state flips exhausted within the step
    CHK(I >= 0 && Ii >= 0, "reverse-current", "current flows backward through a " + d);
    NEAR(-g.into(s.out, 0), I, 1e-9, 1e-7 + 1e-9 * s.g + 1.2e-7 * std::fabs(V), "output-system", "output link's contribution to the system of equations, " + d);
    NEAR(g.into(s.in, 0), Ii, 1e-9, 1e-9, "input-system", "input link's contribution to the system of equations, " + d);
    if (!s.in->over() && Vi > 1e-3 && Vi >= 0.99 * s.iuv) CHK(Ii * Vi + 1e-6 + 1e-5 * I * V >= I * V, "energy", mon::fmt("delivers %.9g W from %.9g W: ", I * V, Ii * Vi) + d);
    const bool inOff = !s.enIn || s.in->getInputUnderVoltageTrip()->isTripped() || s.in->getInputOverVoltageTrip()->isTripped() || s.bIn() <= 0;
    const bool outOff = !s.enOut || s.out->trips();
    if (inOff || outOff || Vi <= 0) { if (inOff || outOff) { CHK(I == 0 || (inOff && !outOff && s.out->avail() && false), "off-output", mon::fmt("input off %d, output off %d but current flows out of a ", inOff, outOff) + d); c.hit("off"); }
        if (!s.enIn || s.in->getInputUnderVoltageTrip()->isTripped() || s.in->getInputOverVoltageTrip()->isTripped()) CHK(Ii == 0, "off-input", "the input side is off but draws current: " + d);
        if (inOff || outOff) return true; }
    if (s.in->over()) { c.count("overloaded"); CHK(Ii == 0, "overload-input", "an overloaded input draws current: " + d); return true; }
    // input side: the power drawn is the output power and the losses
    const double gb = s.g; const double pOut = I * V, ch = I * I / gb, need = (pOut + ch) / s.eff;
    const double te = s.tabEff(s.ref > 0 ? need / s.ref : 0) * s.bIn(); const double draw = need / std::max(te, 1e-15);
    const double vEff = s.iuv > 0 ? std::max(Vi, 0.99 * double(s.iuv)) : Vi;
    if (Vi > 1e-3) { NEAR(Ii * vEff, draw, 2e-5, 1e-6 + 1e-9 * s.g * V, "input-power", "power drawn by the " + d); c.count("power_balances"); if (s.table) c.hit("table");
        NEAR(s.in->getConverterEfficiency(), te, 1e-4, 1e-9, "efficiency", "input efficiency of a " + d); NEAR(s.out->getInputPower(), need, 2e-5, 1e-6 + 1e-9 * s.g * V, "output-need", "input power computed by the output side of a " + d); NEAR(s.out->loss(), need - pOut, 1e-4, 1e-5 + 1e-8 * s.g * V, "loss", "power lost in the output side of a " + d); NEAR(s.in->loss(), draw - need, 1e-4, 1e-5, "input-loss", "power lost in the input side of a " + d); }
    if (Vi <= 1e-3 || !s.out->avail()) return true;
    // output side
    const double fe = 1.2e-7, bo = s.bOut(), tolV = 1e-5 * std::max(1.0, V), tolI = 2e-6 * s.set + 1e-6 + fe * std::fabs(V);
    if (s.type < 2) {
        const double vset = s.set * (s.type == 1 ? Vi : 1.0); const double Ireg = std::max(0.0, s.g * bo * (vset - V)); const bool reg = std::fabs(I - Ireg) <= 1e-5 * Ireg + 1e-6 + 1e-6 * s.g;
        CHK(I == 0 || V <= vset + tolV + 1e-7 * vset, "over-setpoint", "raises its output above its set point: " + d);
        if (s.limiting && s.oc > 0) { const bool lim = std::fabs(I - double(s.oc)) <= 1e-6 * s.oc + fe * std::fabs(V) * 2 + 1e-6; CHK(reg || (lim && V <= vset + tolV), "current-limit", "neither regulates its voltage nor limits its current: " + d);
            CHK(I <= double(s.oc) * (1 + 1e-5) + fe * std::fabs(V) * 2 + 1e-6 || s.out->flips() >= 4, "over-current", "exceeds its current limit: " + d); c.hit(reg ? "oc-reg" : "oc-limit"); if (!reg) c.count("limited"); }
        else { CHK(reg, "regulation", mon::fmt("regulation law gives %.9g A: ", Ireg) + d); c.hit(mon::fmt("%s-%s", tn(s.type), I > 0 ? "reg" : "reverse")); }
        if (pureLoad && !s.limiting && bo > 0) { const double x = s.g * bo * vset / (s.g * bo + s.loadG); NEAR(V, x, 1e-4, 1e-6, "output-voltage", "output voltage of a " + d); }
    } else {
        double Iset = s.type == 2 ? s.set * bo : 0; if (s.type == 3) { if (!(pureLoad && V > 1e-2 && I > 1e-6)) return true; Iset = std::sqrt(s.set * s.loadG) * bo; }
        const bool atSet = std::fabs(I - Iset) <= tolI * (s.type == 3 ? 1 + 10 * Iset : 1) || (s.type == 3 && std::fabs(I - Iset) <= 1e-4 * Iset);
        if (!s.limiting || (s.oc == 0 && s.ov == 0 && s.uv == 0)) { CHK(atSet || (I == 0 && fe * V >= Iset), "source-current", mon::fmt("set current %.9g A: ", Iset) + d); if (s.type == 3 && bo == 1.0) NEAR(I * V, s.set, 1e-4 + 3 * fe * V / I, 1e-6, "output-power", "output power of a " + d); c.hit(mon::fmt("%s-set", tn(s.type))); }
        else if (pureLoad && bo == 1.0 && !(s.type == 3 && s.out->lim() == 1)) {      // a power regulator between conflicting current and voltage limits is not specified
            const bool atOv = s.ov > 0 && std::fabs(V - double(s.ov)) <= I / s.g + tolV && I <= Iset * (1 + 1e-5) + tolI, atUv = s.uv > 0 && V <= double(s.uv) + tolV && std::fabs(V + I / s.g - double(s.uv)) <= tolV && I >= Iset * (1 - 1e-5) - tolI, atOc = s.oc > 0 && std::fabs(I - double(s.oc)) <= 1e-6 * s.oc + 2 * fe * V + 1e-6;
            const bool setOk = atSet && (s.ov == 0 || V <= double(s.ov) * (1 + 1e-6) + tolV) && (s.uv == 0 || V >= double(s.uv) * (1 - 1e-6) - tolV - I / s.g);
            CHK(setOk || atOv || atUv || atOc || s.out->flips() >= 4, "source-limits", mon::fmt("at no set point or limit (set current %.9g A, state %d, flips %u): ", Iset, s.out->lim(), s.out->flips()) + d); c.hit(mon::fmt("%s-lim%d", tn(s.type), s.out->lim())); if (!setOk) c.count("limited"); }
    }
    c.count("stages_checked");
    return true;
}
}
MON_PROP(E02, "converters") {
    const bool two = c.r.p(0.35); const int n = two ? 3 : 2; Rig g(n, 1e-10); std::vector<std::function<void()> > none;
    const double vs = c.r.uni(20, 160); double feedG = c.r.logu(20, 2e4); GunnsBasicPotential* fd = g.feed(0, vs, feedG); g.cond(0, n, 1e-3);
    std::vector<Stage> st(two ? 2 : 1); makeStage(c, g, st[0], 0, 1, vs, false, none);
    if (two) makeStage(c, g, st[1], 1, 2, c.r.uni(10, 100), false, none);
    const int lastN = n - 1; GunnsBasicPotential* rev = g.feed(lastN, 0.0, 1.0, "rev"); rev->setDefaultConductivity(0.0); bool revOn = false;
    c.note += mon::fmt("%s%s feedG=%.3g", tn(st[0].type), two ? mon::fmt("+%s", tn(st[1].type)).c_str() : "", feedG);
    g.start(400); const int steps = c.r.i(4, 12); bool ok = false; double vsNow = vs;
    for (int t = 0; t < steps; ++t) {
        if (t && c.r.p(0.3)) { vsNow = c.r.p(0.1) ? 0.0 : vs * c.r.uni(0.5, 1.3); fd->setSourcePotential(vsNow); }
        if (t && c.r.p(0.2)) { revOn = !revOn; rev->setDefaultConductivity(revOn ? c.r.logu(0.01, 10) : 0.0); rev->setSourcePotential(c.r.uni(0, 200)); }
        for (size_t i = 0; i < st.size(); ++i) { Stage& s = st[i];
            if (!t || !c.r.p(0.5)) continue;
            switch (c.r.i(0, 5)) {
                case 0: s.set *= c.r.uni(0.6, 1.4); s.out->setSetpoint(s.set); break;
                case 1: s.enIn = c.r.p(0.7); s.in->setEnabled(s.enIn); break;
                case 2: s.enOut = c.r.p(0.7); s.out->setEnabled(s.enOut); break;
                case 3: s.loadG *= c.r.uni(0.4, 2.2); s.load->setDefaultConductivity(s.loadG); break;
                case 4: s.blkIn = c.r.p(0.5) ? 0.0 : c.r.p(0.1) ? 1.0 : c.r.uni(0, 0.9); s.in->setMalfBlockage(s.blkIn > 0, s.blkIn); break;
                case 5: s.blkOut = c.r.p(0.5) ? 0.0 : c.r.p(0.1) ? 1.0 : c.r.uni(0, 0.9); s.out->setMalfBlockage(s.blkOut > 0, s.blkOut); break;
            } }
        ok = g.step(0.1); c.count(ok ? "converged_steps" : "unconverged_steps");
        if (!ok) continue;
        // Output powers change their base when a step first has power: only settled steps are judged.
        for (size_t i = 0; i < st.size(); ++i) { const Stage& s = st[i]; const bool pure = !(revOn && s.b == lastN) && !(two && i == 0);
            if (!checkStage(c, g, s, pure, ok)) return; if (c.failed()) return; }
        if (!g.kcl(c, "converter network", 1e-5, 1e-5)) return;
    }
    c.note += mon::fmt(" steps=%d", steps);
}
RESTART_PROP(elect, "E02.0")
