// Electrical aspect monitors: photovoltaic cells, strings, sections, array and regulators (E05).
#include "erig.hpp"
#include "aspects/electrical/SolarArray/GunnsElectPvArray.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvString2.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegConv.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegShunt.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include <cfloat>
#include <cstring>

namespace {
using erig::Rig;
struct Cfg1 { double block = 0, bypass = 0; unsigned interval = 1, cells = 1; double area = 0, eff = 0, rs = 0, rsh = 0, voc = 0, tref = 0, kv = 0, ki = 0, flux = 0, il = 0; };
Cfg1 mk1(mon::Ctx& c) { Cfg1 k; k.interval = unsigned(c.r.i(1, 8)); k.cells = k.interval * unsigned(c.r.i(1, 10)); k.voc = c.r.uni(0.4, 1.2); k.block = c.r.p(0.2) ? 0.0 : c.r.uni(0, 0.8); k.bypass = c.r.p(0.2) ? 0.0 : c.r.uni(0, 0.8);
    k.eff = c.r.p(0.2) ? 1.0 : c.r.uni(0.05, 1.0); k.flux = c.r.logu(10, 2000); k.il = c.r.uni(0.2, 6); k.area = k.il * k.voc / (k.flux * k.eff); k.rs = c.r.logu(1e-4, 0.03); k.rsh = c.r.logu(50, 5000) * 1.0; k.tref = c.r.uni(250, 320); k.kv = -c.r.uni(0, 0.005); k.ki = c.r.uni(-0.0005, 0.002); return k; }
struct PS : GunnsElectPvString { PS(const GunnsElectPvStringConfigData* a, const GunnsElectPvStringInputData* b) : GunnsElectPvString(a, b) {} unsigned active() const { return mNumActiveCells; } unsigned byp() const { return mNumBypassedGroups; } };
struct PS2 : GunnsElectPvString2 { PS2(const GunnsElectPvStringConfigData* a, const GunnsElectPvStringInputData* b) : GunnsElectPvString2(a, b) {} unsigned active() const { return mNumActiveCells; } unsigned byp() const { return mNumBypassedGroups; } };
struct Exp { int byp = 0, act = 0; double voc = 0, isc = 0, vmp = 0, imp = 0, pmp = 0; };
// The documented string equations: a current source, shunt resistance and ideal diode, in series with the cells' resistance and the blocking and bypass diodes.
Exp expect1(const Cfg1& k, double flux, double exposed, double T, int malfGroups, double degrade) { Exp e; const int groups = int(k.cells / k.interval); const double gr = groups * (1.0 - std::min(1.0, std::max(0.0, exposed)));
    e.byp = std::max(int(std::ceil(gr)), malfGroups); e.act = int(k.cells) - e.byp * int(k.interval); const double dT = T - k.tref; const double vsh = e.act * k.voc * std::max(0.0, 1 + dT * k.kv), vser = k.block + e.byp * k.bypass, rs = std::max(1e-6, e.act * k.rs), rsh = std::max(1e-6, k.rsh);
    if (e.act <= 0) return e; const double il = vsh > DBL_EPSILON ? flux * e.act * k.area * k.eff * std::max(0.0, 1 + dT * k.ki) * std::min(1.0, std::max(0.0, 1 - degrade)) / vsh : 0;
    e.voc = vsh - vser + il * rsh / 1e6; e.isc = std::max(0.0, (il * rsh - vser) / (rsh + rs)); const double is = il - vsh / rsh; e.pmp = is > 0 ? std::max(0.0, vsh * is - is * vser - is * is * e.act * k.rs) : 0; if (e.pmp > 0) { e.vmp = std::max(DBL_EPSILON, vsh - is * rs - vser); e.imp = e.pmp / e.vmp; } return e; }
}
MON_PROP2(E05, string, "first generation string") {
    const Cfg1 k = mk1(c); GunnsElectPvStringConfigData cfg(k.block, k.bypass, k.interval, k.cells, k.area, k.eff, k.rs, k.rsh, k.voc, k.tref, k.kv, k.ki); GunnsElectPvStringInputData in(0, 1, k.tref);
    PS s(&cfg, &in); s.initialize("string"); const int groups = int(k.cells / k.interval); const int steps = c.r.i(2, 8); double prevIsc = -1, prevFlux = 0; bool sameElse = false;
    for (int t = 0; t < steps; ++t) {
        if (c.r.p(0.3)) { in.mTemperature = c.r.uni(150, 420); sameElse = false; } if (c.r.p(0.3)) { in.mSourceExposedFraction = c.r.p(0.5) ? 1.0 : c.r.p(0.2) ? 0.0 : c.r.u(); sameElse = false; }
        in.mPhotoFlux = c.r.p(0.1) ? 0.0 : k.flux * c.r.uni(0.02, 1.5); int mg = 0; s.mMalfCellGroupFlag = c.r.p(0.2); if (s.mMalfCellGroupFlag) { s.mMalfCellGroupValue = c.r.i(-1, groups + 1); mg = std::min(groups, std::max(0, s.mMalfCellGroupValue)); } s.mMalfDegradeFlag = c.r.p(0.2); s.mMalfDegradeValue = c.r.uni(-0.1, 1.1);
        s.update(); const double exg = groups * (1.0 - in.mSourceExposedFraction); const bool edge = std::fabs(exg - std::round(exg)) < 1e-9 && exg != 0 && exg != groups;
        const Exp e = expect1(k, in.mPhotoFlux, in.mSourceExposedFraction, in.mTemperature, mg, s.mMalfDegradeFlag ? s.mMalfDegradeValue : 0.0);
        if (edge) continue;
        CHK(int(s.byp()) == e.byp && int(s.active()) == e.act, "bypass", mon::fmt("%u groups bypassed and %u cells active, expected %d and %d (exposed %.6g of %d groups, malfunction %d)", s.byp(), s.active(), e.byp, e.act, in.mSourceExposedFraction, groups, mg));
        NEAR(s.getOpenCircuitVoltage(), e.voc, 1e-9, 1e-12, "open-circuit", "open circuit voltage"); NEAR(s.getShortCircuitCurrent(), e.isc, 1e-9, 1e-12, "short-circuit", "short circuit current"); NEAR(s.getMpp().mPower, e.pmp, 1e-9, 1e-12, "mpp-power", "power at the maximum power point"); NEAR(s.getMpp().mVoltage, e.vmp, 1e-9, 1e-12, "mpp-voltage", "voltage at the maximum power point"); NEAR(s.getMpp().mCurrent, e.imp, 1e-9, 1e-12, "mpp-current", "current at the maximum power point");
        if (in.mPhotoFlux == 0) { CHK(s.getMpp().mPower == 0 && s.getShortCircuitCurrent() == 0, "dark", "a string in the dark gives power"); c.hit("dark"); }
        if (sameElse && prevIsc >= 0 && !s.mMalfDegradeFlag && !s.mMalfCellGroupFlag) CHK((in.mPhotoFlux >= prevFlux) == (s.getShortCircuitCurrent() >= prevIsc) || s.getShortCircuitCurrent() == prevIsc, "light", "more light gives less short circuit current"); prevIsc = s.mMalfDegradeFlag || s.mMalfCellGroupFlag ? -1 : s.getShortCircuitCurrent(); prevFlux = in.mPhotoFlux; sameElse = true;
        c.hit(mon::fmt("byp%d-%s", e.byp, e.pmp > 0 ? "lit" : "dark"));
        if (!(e.pmp > 0 && e.vmp > 1e-3 && e.vmp < e.voc * 0.9999 && e.imp < e.isc * 0.999999 && e.imp > 1e-6)) continue;
        c.count("curves"); double last = 1e300; const GunnsElectPvLoadState& T = s.getTerminal();
        for (int i = 1; i <= 12; ++i) { const double v = i == 12 ? e.voc : e.voc * (i - 1 + c.r.u()) / 12 + 1e-9; const double I = s.predictCurrentAtVoltage(v); s.loadAtVoltage(v);
            NEAR(T.mVoltage, v, 0, 0, "load-voltage", "terminal voltage"); NEAR(T.mCurrent, I, 1e-12, 1e-12, "predict", "predicted and actual current at one voltage"); NEAR(T.mPower, v * I, 1e-9, 1e-12, "load-power", "terminal power"); NEAR(T.mConductance, I / v, 1e-9, 1e-12, "load-conductance", "terminal conductance");
            CHK(I >= -1e-9 && I <= e.isc * (1 + 1e-9) && I <= last + 1e-9, "iv-curve", mon::fmt("current %.9g A at %.9g V is outside 0 to %.9g A or rises with voltage", I, v, e.isc)); last = I;
            NEAR(I, v <= e.vmp ? e.isc - (e.isc - e.imp) * v / e.vmp : e.imp * (e.voc - v) / (e.voc - e.vmp), 1e-7, 1e-9, "iv-law", mon::fmt("current at %.9g V", v)); }
        s.loadAtVoltage(e.voc * 1.01); CHK(T.mCurrent == 0 && T.mPower == 0, "beyond-open-circuit", "a string held above its open circuit voltage gives current");
        s.loadAtMpp(); NEAR(T.mPower, e.pmp, 1e-9, 0, "at-mpp", "power loaded at the maximum power point");
        for (int i = 0; i < 4; ++i) { const bool side = c.r.p(0.5); const double p = e.pmp * c.r.uni(0.01, 0.999); s.loadAtPower(p, side); NEAR(T.mPower, p, 1e-9, 0, "power-load", "power at a power load"); NEAR(T.mVoltage * T.mCurrent, p, 1e-6, 0, "power-load-vi", "voltage times current at a power load"); NEAR(T.mCurrent, s.predictCurrentAtVoltage(T.mVoltage), 5e-5, 1e-6 * e.isc, "power-load-curve", "current at a power load against the curve");
            CHK(side ? T.mVoltage <= e.vmp * (1 + 1e-6) : T.mVoltage >= e.vmp * (1 - 1e-6), "power-load-side", mon::fmt("a power load on the %s side settles at %.9g V with the knee at %.9g V", side ? "short circuit" : "open circuit", T.mVoltage, e.vmp)); NEAR(T.mConductance, T.mCurrent / T.mVoltage, 1e-9, 0, "power-load-g", "conductance at a power load");
            const double g = e.imp / e.vmp * c.r.logu(0.02, 50); s.loadAtConductance(g); NEAR(T.mCurrent, g * T.mVoltage, 1e-9, 1e-12, "g-load", "Ohm's law at a conductance load"); NEAR(T.mCurrent, s.predictCurrentAtVoltage(T.mVoltage), 1e-6, 1e-8 * e.isc, "g-load-curve", "current at a conductance load against the curve"); NEAR(T.mPower, T.mCurrent * T.mVoltage, 1e-9, 0, "g-load-power", "power at a conductance load"); }
        s.loadAtPower(e.pmp * c.r.uni(1.001, 3), c.r.p(0.5)); CHK(T.mPower == 0 && T.mCurrent == 0, "overload", "a string asked for more than its maximum power still gives power"); }
}
namespace {
struct Cfg2 { double voc, isc, vmp, imp, flux, tref, kv, ki, n, area; };
Cfg2 mk2(mon::Ctx& c) { Cfg2 k; k.voc = c.r.uni(0.55, 0.75); k.isc = c.r.uni(0.5, 6); k.vmp = k.voc * c.r.uni(0.80, 0.86); k.imp = k.isc * c.r.uni(0.92, 0.955); k.flux = c.r.uni(800, 1400); k.tref = c.r.uni(280, 310); k.kv = -c.r.uni(0.001, 0.0022); k.ki = k.isc * c.r.uni(0, 0.0008); k.n = c.r.uni(1.0, 1.15); k.area = c.r.logu(1e-3, 1e-1); return k; }
// residual of the single diode equation in terms of current
double diode(const GunnsElectPvCellEquivCircuit& q, double V, double I);
double exactI(const GunnsElectPvCellEquivCircuit& q, double V) { double lo = -V / q.mRsh - 1, hi = q.mIL + 1; for (int i = 0; i < 200; ++i) { const double m = 0.5 * (lo + hi); (diode(q, V, m) > 0 ? lo : hi) = m; } return lo; }
double exactV(const GunnsElectPvCellEquivCircuit& q, double I) { double lo = -2, hi = 3; for (int i = 0; i < 200; ++i) { const double m = 0.5 * (lo + hi); (diode(q, m, I) > 0 ? lo : hi) = m; } return lo; }
double diode(const GunnsElectPvCellEquivCircuit& q, double V, double I) { return q.mIL - q.mI0 * (std::exp((V + I * q.mRs) / q.mNVt) - 1.0) - (V + I * q.mRs) / q.mRsh - I; }
}
MON_PROP2(E05, cell, "single diode cell and second generation string") {
    const Cfg2 k = mk2(c); GunnsElectPvCellConfigData cc(k.voc, k.isc, k.vmp, k.imp, k.flux, k.tref, k.kv, k.ki, k.n, k.area); GunnsElectPvCellEquivCircuit2 ref, cell;
    c.note += mon::fmt("Voc %.4g Isc %.4g Vmp %.4g Imp %.4g n %.4g", k.voc, k.isc, k.vmp, k.imp, k.n);
    try { ref.initialize(&cc, "ref"); cell.initialize(&cc, "cell"); } catch (const TsInitializationException&) { c.count("refused"); c.hit("refused"); return; }
    CHK(ref.mRs > 0 && ref.mRsh > 0 && ref.mI0 > 0 && ref.mIL > 0, "parameters", "non-positive derived parameter"); const double rf = 2e-3 * k.isc;
    // the reference points lie on the curve
    NEAR(diode(ref, k.voc, 0), 0, 0, rf, "ref-voc", "diode equation at the reference open circuit point"); NEAR(diode(ref, 0, k.isc), 0, 0, rf, "ref-isc", "diode equation at the reference short circuit point"); NEAR(diode(ref, k.vmp, k.imp), 0, 0, 5 * rf, "ref-mpp", "diode equation at the reference maximum power point");
    NEAR(ref.mEfficiency, k.vmp * k.imp / (k.area * k.flux), 1e-9, 0, "efficiency", "cell efficiency"); NEAR(ref.mFillFactor, k.vmp * k.imp / (k.voc * k.isc), 1e-9, 0, "fill-factor", "cell fill factor"); c.count("cells");
    for (int t = 0; t < 3; ++t) { const double T = c.r.p(0.3) ? k.tref : k.tref + c.r.uni(-30, 40), f = c.r.p(0.1) ? 0.0 : k.flux * c.r.uni(0.1, 1.1), d = c.r.p(0.3) ? c.r.u() : 0.0;
        try { cell.update(&ref, T, f, d); } catch (const TsOutOfBoundsException&) { c.count("out_of_bounds"); continue; }
        const double x = f * (1 - d) / k.flux; if (k.isc * x + (T == k.tref ? 0 : (T - k.tref) * k.ki) < 0.05 * k.isc && x > DBL_EPSILON) continue; if (x <= DBL_EPSILON) { CHK(cell.mIsc == 0 && cell.mImp == 0 && cell.computeCurrent(0.1) == 0, "dark-cell", "an unlit cell gives current"); c.hit("dark-cell"); continue; }
        NEAR(cell.mVoc, k.voc + (T == k.tref ? 0 : (T - k.tref) * k.kv), 1e-9, 0, "voc-t", "open circuit voltage with temperature"); if (T == k.tref) NEAR(cell.mIsc, k.isc * x, 1e-9, 0, "isc-flux", "short circuit current with light and degradation"); else NEAR(cell.mIsc, k.isc * x + (T - k.tref) * k.ki, 1e-9, 1e-12, "isc-t", "short circuit current with light and temperature");
        const double tol = 5e-3 * cell.mIsc; double last = 1e300; if (cell.mIsc < 0.05 * k.isc) continue;
        // each computed point satisfies the cell's own diode equation; voltage is the inverse of current
        for (int i = 1; i < 10; ++i) { const double V = cell.mVoc * (i - 1 + c.r.u()) / 9.5, I = cell.computeCurrent(V); CHK(std::isfinite(I) && I <= cell.mIsc + tol && I >= -tol && I <= last + 1e-4 * cell.mIsc, "cell-curve", mon::fmt("cell current %.9g A at %.9g V of %.9g V is not between 0 and %.9g A or rises with voltage", I, V, cell.mVoc, cell.mIsc)); last = I;
            // exact solution of the diode equation; the model's Lambert W approximation is documented to be good to a few percent of W
            const double Ie = exactI(cell, V), W = std::max(0.0, ((cell.mIL + cell.mI0 - V / cell.mRsh) / (1 + cell.mRs / cell.mRsh) - Ie) * cell.mRs / cell.mNVt);
            if (V > 1e-12) NEAR(I, Ie, 1e-6, 0.03 * W * cell.mNVt / cell.mRs + 1e-6 * k.isc, "diode-equation", mon::fmt("diode equation at %.9g V, %.9g A (T %.5g, light %.4g)", V, I, T, x)); c.count("points");
            if (I > 0.02 * cell.mIsc && I < 0.98 * cell.mIsc) { try { const double V2 = cell.computeVoltage(I); const double Ve = exactV(cell, I); NEAR(V2, Ve, 0, 0.1 * cell.mVoc, "inverse", mon::fmt("voltage for %.9g A (from %.9g V)", I, V)); c.count("inverses"); } catch (const TsOutOfBoundsException&) { c.count("inverse_out_of_bounds"); } } }
        c.hit(mon::fmt("cell-%s-%s", T == k.tref ? "tref" : T > k.tref ? "hot" : "cold", d > 0 ? "degraded" : "whole")); }
    // a string of these cells
    const unsigned interval = unsigned(c.r.i(1, 6)), cells = interval * unsigned(c.r.i(1, 8)); const double bl = c.r.uni(0, 0.8), by = c.r.uni(0, 0.6); GunnsElectPvStringConfigData sc(bl, by, interval, cells, k.voc, k.isc, k.vmp, k.imp, k.flux, k.tref, k.kv, k.ki, k.n, k.area); GunnsElectPvStringInputData in(k.flux, 1.0, k.tref);
    PS2 s(&sc, &in); s.initialize("string2");
    for (int t = 0; t < 3; ++t) { in.mPhotoFlux = c.r.p(0.1) ? 0.0 : k.flux * c.r.uni(0.1, 1.1); in.mTemperature = c.r.p(0.3) ? k.tref : k.tref + c.r.uni(-20, 30); in.mSourceExposedFraction = c.r.p(0.5) ? 1.0 : c.r.u(); s.mMalfDegradeFlag = c.r.p(0.2); s.mMalfDegradeValue = c.r.u();
        try { s.update(); } catch (const TsOutOfBoundsException&) { c.count("out_of_bounds"); continue; }
        const int groups = int(cells / interval), byp = int(std::ceil(groups * (1.0 - in.mSourceExposedFraction))), act = int(cells) - byp * int(interval); CHK(int(s.byp()) == byp && int(s.active()) == act, "bypass-2", mon::fmt("%u bypassed, %u active, expected %d, %d", s.byp(), s.active(), byp, act)); const double ser = bl + byp * by;
        try { cell.update(&ref, in.mTemperature, in.mPhotoFlux, s.mMalfDegradeFlag ? s.mMalfDegradeValue : 0.0); } catch (const TsOutOfBoundsException&) { continue; }
        if (act == 0) { CHK(s.getShortCircuitCurrent() == 0 && s.getOpenCircuitVoltage() == 0 && s.getMpp().mPower == 0 && s.predictCurrentAtVoltage(0.1) == 0, "all-bypassed", "a fully bypassed string gives power"); continue; }
        NEAR(s.getOpenCircuitVoltage(), std::max(0.0, cell.mVoc * act - ser), 1e-9, 1e-12, "voc-2", "string open circuit voltage"); NEAR(s.getShortCircuitCurrent(), cell.mIsc, 1e-9, 1e-12, "isc-2", "string short circuit current"); NEAR(s.getMpp().mVoltage, std::max(0.0, cell.mVmp * act - ser), 1e-9, 1e-12, "vmp-2", "string maximum power voltage"); NEAR(s.getMpp().mCurrent, cell.mImp, 1e-9, 1e-12, "imp-2", "string maximum power current"); NEAR(s.getMpp().mPower, s.getMpp().mVoltage * s.getMpp().mCurrent, 1e-9, 1e-12, "pmp-2", "string maximum power");
        const GunnsElectPvLoadState& T = s.getTerminal(); if (cell.mIsc < 0.05 * k.isc) continue;
        for (int i = 0; i < 5; ++i) { const double v = s.getOpenCircuitVoltage() * c.r.u(); s.loadAtVoltage(v); const double I = cell.computeCurrent((v + ser) / act); NEAR(T.mCurrent, I, 1e-9, 1e-12, "string-current", "string current is its cells' current"); NEAR(T.mPower, v * I, 1e-9, 1e-12, "string-power", "string power"); NEAR(s.predictCurrentAtVoltage(v), I, 1e-12, 1e-12, "string-predict", "predicted current"); if (v > 0) NEAR(T.mConductance, I / v, 1e-9, 1e-12, "string-g", "string conductance");
            CHK(T.mPower <= s.getMpp().mPower * 1.12 + ser * cell.mIsc, "beyond-mpp", mon::fmt("string gives %.9g W, maximum power point is %.9g W", T.mPower, s.getMpp().mPower)); }
        s.loadAtPower(0.0, false); CHK(T.mCurrent == 0 && T.mPower == 0, "no-load", "an unloaded string gives current"); NEAR(T.mVoltage, s.getOpenCircuitVoltage(), 0, 0, "no-load-v", "unloaded voltage"); s.loadAtPower(0.0, true); NEAR(T.mCurrent, s.getShortCircuitCurrent(), 0, 0, "shorted", "shorted current"); s.loadAtPower(1.0, c.r.p(0.5)); NEAR(T.mPower, s.getMpp().mPower, 0, 0, "loaded", "loaded string works at its maximum power point"); c.count("strings2"); }
}
namespace {
struct PSec : GunnsElectPvSection { };
struct PArr : GunnsElectPvArray { bool ocSide() const { return mOpenCircuitSide; } double insol() const { return mPercentInsolation; } bool common() const { return mCommonStringsOutput; } double cornerG() const { return 0; } };
struct PConv : GunnsElectPvRegConv { bool latched() const { return mStateUpmodeLatch; } int st() const { return mState; } double pin() const { return mInputPower; } double pout() const { return mOutputPower; } double heat() const { return mWasteHeat; } double vreg() const { return mRegulatedVoltage; } double gmax() const { return mMaxAdmittance; } void power(bool f) { mPowered = f; } void reset() { mResetTrips = true; } };
struct PShunt : GunnsElectPvRegShunt { int st() const { return mState; } double pin() const { return mInputPower; } double pout() const { return mOutputPower; } double heat() const { return mWasteHeat; } double vreg() const { return mRegulatedVoltage; } double shunt() const { return mShuntPower; } void power(bool f) { mPowered = f; } void reset() { mResetTrips = true; } double bulk() const { return mPvBulkPowerAvail; } };
struct Env { double flux, angle, exposed, T; };
double facing(double angle, double ex, double back, bool edge) { const double tr = edge ? std::sin(angle) : std::cos(angle); double f = std::pow(std::fabs(tr), ex); if (tr < 0) f *= std::min(1.0, std::max(0.0, 1 - back)); return f; }
struct ArrayCfg { Cfg1 k; unsigned sec, str; double ex, back; bool edge; double ref; std::vector<unsigned> by; };
ArrayCfg mkArray(mon::Ctx& c) { ArrayCfg a; a.k = mk1(c); a.k.rs = c.r.logu(1e-3, 0.02); a.sec = unsigned(c.r.i(1, 4)); a.str = a.sec * unsigned(c.r.i(1, 5)); a.ex = c.r.uni(0.2, 3); a.back = c.r.u(); a.edge = c.r.p(0.3); a.ref = c.r.p(0.1) ? 0.0 : a.k.flux; if (c.r.p(0.25)) { a.str = 0; for (unsigned i = 0; i < a.sec; ++i) { a.by.push_back(unsigned(c.r.i(1, 5))); } a.str = a.sec; } return a; }
PArr* addArray(Rig& g, ArrayCfg& a, const Env& e, int port) { GunnsElectPvArrayConfigData cfg("array", &g.list, a.sec, a.str, a.ex, a.back, a.edge, a.ref, a.k.block, a.k.bypass, a.k.interval, a.k.cells, a.k.area, a.k.eff, a.k.rs, a.k.rsh, a.k.voc, a.k.tref, a.k.kv, a.k.ki); if (!a.by.empty()) cfg.mNumStringsBySection = &a.by[0];
    GunnsElectPvArrayInputData in(e.flux, e.angle, e.exposed, e.T); PArr* p = g.mk<PArr>(); p->initialize(cfg, in, g.links, port); return p; }
void sun(mon::Ctx& c, PArr* p, const ArrayCfg& a, std::vector<Env>& env, bool uniform) { Env common; common.flux = c.r.p(0.08) ? 0.0 : a.k.flux * c.r.uni(0.05, 1.3); common.angle = c.r.p(0.5) ? (a.edge ? M_PI / 2 : 0.0) : c.r.uni(-3.2, 3.2); common.exposed = c.r.p(0.7) ? 1.0 : c.r.u(); common.T = a.k.tref + c.r.uni(-60, 80); env.resize(a.sec);
    for (unsigned i = 0; i < a.sec; ++i) { Env e = common; if (!uniform && c.r.p(0.5)) { e.flux *= c.r.u(); e.exposed = c.r.p(0.5) ? 1.0 : c.r.u(); e.T += c.r.uni(-30, 30); } env[i] = e; GunnsElectPvSectionInputData& s = p->mSections[i].mInput; s.mSourceFluxMagnitude = e.flux; s.mSourceAngle = e.angle; s.mSourceExposedFraction = e.exposed; s.mTemperature = e.T; } }
struct Sum { double isc = 0, voc = 0, vc = 0, ic = 0, p = 0, insol = 0; bool edge = false; };
// what the array as a whole can do, from its strings
Sum arraySum(const ArrayCfg& a, PArr* p, const std::vector<Env>& env) { Sum s; std::vector<Exp> ex;
    for (unsigned i = 0; i < a.sec; ++i) { const Env& e = env[i]; const double f = e.flux * e.exposed * facing(e.angle, a.ex, a.back, a.edge); const double gr = int(a.k.cells / a.k.interval) * (1 - e.exposed); if (gr != 0 && std::fabs(gr - std::round(gr)) < 1e-9) s.edge = true;
        if (a.ref > DBL_EPSILON) s.insol += 100 * f / a.ref / a.sec; const Exp x = expect1(a.k, f, e.exposed, e.T, 0, 0); for (unsigned q = 0; q < p->mSections[i].getNumStrings(); ++q) { ex.push_back(x); s.isc += x.isc; s.voc = std::max(s.voc, x.voc); if (x.pmp > s.p) { s.p = x.pmp; s.vc = x.vmp; } } }
    for (size_t i = 0; i < ex.size(); ++i) { const Exp& x = ex[i]; if (s.vc >= DBL_EPSILON && s.vc <= x.voc) s.ic += s.vc <= x.vmp ? x.isc - (x.isc - x.imp) * s.vc / x.vmp : x.imp * (x.voc - s.vc) / (x.voc - x.vmp); }
    return s; }
double arrayCurrent(const Sum& s, double v) { if (v < DBL_EPSILON) return s.isc; if (v < s.vc) return s.isc - (s.isc - s.ic) * v / s.vc; return s.ic * (s.voc - v) / (s.voc - s.vc); }
bool sane(const Sum& s) { return s.p > 1e-3 && s.vc > 0.05 && s.vc < 0.995 * s.voc && s.ic < s.isc * 0.99999 && s.ic > 1e-4; }
bool checkArray(mon::Ctx& c, PArr* p, const ArrayCfg&, const Sum& s) {
    NEAR(p->getShortCircuitCurrent(), s.isc, 1e-8, 1e-10, "array-isc", "array short circuit current is the sum of its strings"); NEAR(p->getOpenCircuitVoltage(), s.voc, 1e-8, 1e-10, "array-voc", "array open circuit voltage is the largest of its strings"); NEAR(p->getIvCornerVoltage(), s.vc, 1e-8, 1e-10, "array-corner-v", "array corner voltage"); NEAR(p->getIvCornerCurrent(), s.ic, 1e-7, 1e-9, "array-corner-i", "array corner current"); NEAR(p->insol(), s.insol, 1e-8, 1e-10, "insolation", "percent insolation");
    if (sane(s)) { double best = 0; for (int i = 0; i <= 400; ++i) { const double v = s.vc * i / 400; best = std::max(best, v * arrayCurrent(s, v)); } CHK(p->getMpp().mPower >= best * (1 - 1e-6) && p->getMpp().mPower <= best * 1.001, "array-mpp", mon::fmt("array maximum power point is %.9g W, the short circuit side of the curve reaches %.9g W", p->getMpp().mPower, best)); }
    return !c.failed(); }
}
MON_PROP2(E05, array, "array on a load") {
    const int n = c.r.i(1, 2); Rig g(n, 1e-9); ArrayCfg a = mkArray(c); std::vector<Env> env; Env e0 = {a.k.flux, a.edge ? M_PI / 2 : 0.0, 1.0, a.k.tref}; const bool uniform = c.r.p(0.4); PArr* p = addArray(g, a, e0, 0); const double vn = a.k.cells * a.k.voc, in = a.k.il * p->getNumStrings();
    GunnsBasicConductor* load = g.cond(0, n, in / vn); if (n > 1) { g.cond(0, 1, c.r.logu(0.1, 10) * in / vn); g.cond(1, n, c.r.logu(0.1, 10) * in / vn); } GunnsBasicPotential* bus = g.feed(0, 0.0, 1.0, "bus"); bus->setDefaultConductivity(0.0); g.start(60);
    c.note += mon::fmt("%u sections %u strings of %u cells, uniform %d", a.sec, p->getNumStrings(), a.k.cells, uniform);
    if (!a.by.empty()) { unsigned t = 0; for (size_t i = 0; i < a.by.size(); ++i) { t += a.by[i]; CHK(p->mSections[i].getNumStrings() == a.by[i], "strings-by-section", "section does not have the configured number of strings"); } CHK(p->getNumStrings() == t, "strings-total", mon::fmt("array counts %u strings, sections hold %u", p->getNumStrings(), t)); c.hit("by-section"); }
    const int steps = c.r.i(3, 10);
    for (int t = 0; t < steps; ++t) { if (!t || c.r.p(0.6)) sun(c, p, a, env, uniform); if (c.r.p(0.6)) load->setDefaultConductivity(in / vn * c.r.logu(0.02, 50)); if (c.r.p(0.2)) { const bool on = c.r.p(0.6); bus->setDefaultConductivity(on ? in / vn : 0.0); bus->setSourcePotential(c.r.uni(0, 1.2) * vn); }
        const bool conv = g.step(0.1); c.count(conv ? "steps" : "unconverged"); const Sum s = arraySum(a, p, env); if (s.edge) continue; if (!checkArray(c, p, a, s)) return;
        if (!conv || !sane(s)) continue;
        const double V = g.V(0), I = p->getFlux(); const double x = arrayCurrent(s, V); const bool shortBug = V < s.vc && std::fabs(I - (s.isc - s.ic) * (1 - V / s.vc)) < 1e-6 * s.isc; NEAR(I, x, 1e-6, 1e-6 * s.isc, shortBug ? "array-short-side-source" : "array-curve", mon::fmt("array current at %.9g V (corner %.6g V, open circuit %.6g V)", V, s.vc, s.voc)); NEAR(-g.into(p, 0), I, 1e-9, 1e-9, "array-system", "array contribution to the system of equations"); NEAR(p->getPower(), I * V, 1e-9, 1e-9, "array-power", "array power"); if (!g.kcl(c, "array network", 1e-6, 1e-8)) return;
        c.hit(V >= s.vc ? "open-side" : "short-side"); double sum = 0, psum = 0; for (unsigned i = 0; i < a.sec; ++i) for (unsigned q = 0; q < p->mSections[i].getNumStrings(); ++q) { const GunnsElectPvLoadState& T = p->mSections[i].mStrings[q].getTerminal(); sum += T.mCurrent; psum += T.mPower; NEAR(T.mVoltage, V, 0, 0, "string-voltage", "voltage of a string of a common array"); }
        bool allSame = true; for (unsigned i = 1; i < a.sec; ++i) if (std::memcmp(&env[i], &env[0], sizeof(Env))) allSame = false; if (allSame && V > DBL_EPSILON && V < s.voc && !shortBug) { NEAR(sum, I, 1e-6, 1e-6 * s.isc, "string-sum", "the strings' currents against the array current"); NEAR(psum, I * V, 1e-6, 1e-6 * s.isc * V, "string-power-sum", "the strings' powers against the array power"); c.count("string_sums"); }
        // predictions for the regulators
        for (int i = 0; i < 4; ++i) { const double v = s.voc * c.r.u(); double pw = -1, cg = -1; p->predictLoadAtVoltage(pw, cg, v); if (v > 1e-6) { const double xi = arrayCurrent(s, v); NEAR(pw, xi * v, 1e-6, 1e-7 * s.isc * v, "predict-power", "predicted array power"); NEAR(cg, xi / v, 1e-6, 1e-7 * s.isc / v, "predict-conductance", "predicted array conductance"); }
            const double pr = p->getMpp().mPower * c.r.uni(0.01, 0.99); const double pc = s.vc * s.ic; const bool side = c.r.p(0.5); if (side || pr < pc) { p->loadAtPower(pr, side); const GunnsElectPvLoadState& T = p->getTerminal(); NEAR(T.mPower, pr, 1e-9, 0, "array-load-power", "array loaded at a power"); NEAR(T.mVoltage * T.mCurrent, pr, 1e-6, 0, "array-load-vi", "voltage times current of the loaded array");
                if (side ? T.mVoltage <= s.vc : T.mVoltage >= s.vc) NEAR(T.mCurrent, arrayCurrent(s, T.mVoltage), 1e-5, 1e-7 * s.isc, "array-load-curve", "operating point of the loaded array"); } }
    }
}
namespace {
// A trip that appeared during the step had its quantity beyond its limit at its own converged step; an accepted solution leaves no armed trip beyond its limit.
struct TripSpec { const char* name; GunnsTripLogic* trip; bool less; double limit; size_t probe; };
void judgeTrips(mon::Ctx& c, Rig& g, std::vector<TripSpec>& ts, const std::vector<bool>& before, unsigned prio, bool active) {
    for (size_t i = 0; i < ts.size(); ++i) { const bool now = ts[i].trip->isTripped(); if (ts[i].limit == 0) { CHK(!now, "trip-without-limit", mon::fmt("%s tripped without a limit", ts[i].name)); continue; }
        const auto beyond = [&](double v) { return ts[i].less ? float(v) < float(ts[i].limit) : float(v) > float(ts[i].limit); };
        if (now && !before[i]) { CHK(active, "trip-inactive", mon::fmt("%s tripped while the regulator was unpowered or disabled", ts[i].name)); bool seen = false; for (const auto& q : g.spy->rounds) if (q.conv == int(prio) && beyond(q.q[ts[i].probe])) seen = true; CHK(seen, "trip-cause", mon::fmt("%s tripped without passing its limit %.9g at converged step %u", ts[i].name, ts[i].limit, prio)); c.hit(mon::fmt("trip-%s", ts[i].name)); c.count("trips"); }
        if (!now && before[i] && active) CHK(false, "trip-latch", mon::fmt("%s reset itself", ts[i].name));
        if (!now && active) { bool other = false; for (size_t j = 0; j < ts.size(); ++j) if (ts[j].trip->isTripped()) other = true; if (!other && !g.spy->rounds.empty()) { const double v = g.spy->rounds.back().q[ts[i].probe]; CHK(!beyond(v), "trip-missed", mon::fmt("%s left untripped at %.9g with limit %.9g in an accepted solution", ts[i].name, v, ts[i].limit)); } } }
}
}
MON_PROP2(E05, regconv, "converting regulator") {
    const int n = c.r.i(1, 2); Rig g(n, 1e-8); ArrayCfg a = mkArray(c); std::vector<Env> env; Env e0 = {a.k.flux, a.edge ? M_PI / 2 : 0.0, 1.0, a.k.tref}; const bool uniform = c.r.p(0.6); PArr* p = addArray(g, a, e0, n);
    const double vn = a.k.cells * a.k.voc, in = a.k.il * p->getNumStrings(), L = c.r.p(0.2) ? 1.0 : c.r.uni(1, 3), eff = c.r.p(0.2) ? 1.0 : c.r.uni(0.7, 1.0); if (vn < 2) return; const unsigned prio = unsigned(c.r.i(1, 4)); double set = vn * L * c.r.uni(0.4, 0.95), dset = c.r.p(0.3) ? vn * c.r.uni(-0.1, 0.1) : 0;
    const auto lim = [&](double s) { return c.r.p(0.25) ? double(float(s * c.r.uni(0.4, 1.1))) : 0.0; }; const double lii = lim(in), liv = lim(vn), loi = lim(in / L), lov = lim(vn * L), luv = c.r.p(0.15) ? double(float(vn * L * c.r.uni(0.05, 0.5))) : 0.0;
    GunnsElectPvRegConvConfigData cfg("conv", &g.list, L, eff, p, 0, 0, 0, 0, lii, liv, loi, lov, luv, prio); GunnsElectPvRegConvInputData id(set, dset, true, true); PConv* r = g.mk<PConv>(); r->initialize(cfg, id, g.links, 0);
    GunnsBasicConductor* load = g.cond(0, n, in / vn / L / L); if (n > 1) { g.cond(0, 1, c.r.logu(0.1, 10) * in / vn / L); g.cond(1, n, c.r.logu(0.1, 10) * in / vn / L); } GunnsBasicPotential* bus = g.feed(n - 1, 0.0, 1.0, "bus"); bus->setDefaultConductivity(0.0); g.start(80);
    g.spy->probes = {[=] { return p->getTerminal().mVoltage; }, [=] { return p->getTerminal().mCurrent; }, [&g] { return g.V(0); }, [=] { return r->getFlux(); }};
    std::vector<TripSpec> ts = {{"in-over-voltage", &r->getTrips()->mInOverVoltage, false, liv, 0}, {"in-over-current", &r->getTrips()->mInOverCurrent, false, lii, 1}, {"out-over-voltage", &r->getTrips()->mOutOverVoltage, false, lov, 2}, {"out-over-current", &r->getTrips()->mOutOverCurrent, false, loi, 3}, {"out-under-voltage", &r->getTrips()->mOutUnderVoltage, true, luv, 2}};
    bool powered = true, enabled = true; const int steps = c.r.i(4, 12); c.note += mon::fmt("%u strings Voc %.4g L %.4g eff %.4g set %.5g", p->getNumStrings(), vn, L, eff, set);
    for (int t = 0; t < steps; ++t) { if (!t || c.r.p(0.4)) sun(c, p, a, env, uniform); if (c.r.p(0.6)) load->setDefaultConductivity(in / vn / L / L * c.r.logu(0.05, 30)); bool back = false; if (c.r.p(0.2)) { back = c.r.p(0.6); bus->setDefaultConductivity(back ? in / vn / L : 0.0); bus->setSourcePotential(c.r.uni(0, 1.3) * set); }
        if (c.r.p(0.1)) { enabled = !enabled; r->setEnabled(enabled); } if (c.r.p(0.08)) { powered = !powered; r->power(powered); } if (c.r.p(0.15)) { set = vn * L * c.r.uni(0.4, 0.95); r->setVoltageSetpoint(set); } if (c.r.p(0.1)) { dset = vn * c.r.uni(-0.1, 0.1); r->setVoltageSetpointDelta(dset); } if (c.r.p(0.1)) { r->mMalfVoltageBiasFlag = c.r.p(0.6); r->mMalfVoltageBiasValue = vn * c.r.uni(-0.1, 0.1); }
        std::vector<bool> before; const bool reset = c.r.p(0.2); if (reset) r->reset(); for (auto& q : ts) before.push_back(q.trip->isTripped() && !reset && powered);
        const bool conv = g.step(0.1); c.count(conv ? "steps" : "unconverged"); const Sum s = arraySum(a, p, env); if (s.edge) continue; if (!checkArray(c, p, a, s)) return; if (!conv) continue;
        const double Vr = std::max(DBL_EPSILON, set + dset + (r->mMalfVoltageBiasFlag ? r->mMalfVoltageBiasValue : 0.0)), V = g.V(0), I = r->getFlux(), isc = std::max(s.isc / L, 1e-3); NEAR(r->vreg(), Vr, 1e-12, 0, "conv-setpoint", "regulated voltage");
        bool tripped = false; for (auto& q : ts) tripped = tripped || q.trip->isTripped(); judgeTrips(c, g, ts, before, prio, powered && enabled); if (c.failed()) return;
        NEAR(r->pout(), V * I, 1e-9, 1e-9, "conv-output-power", "converter output power"); NEAR(r->pin(), r->pout() / eff, 1e-9, 1e-9, "conv-efficiency", "converter input power"); NEAR(r->heat(), r->pin() - r->pout(), 1e-9, 1e-9, "conv-heat", "converter waste heat"); NEAR(r->getPower(), -r->heat(), 1e-9, 1e-9, "conv-power", "converter link power");
        if (!(r->latched() && r->st() != GunnsElectPvRegConv::REG)) CHK(r->heat() >= -1e-9 && I >= -1e-5 * isc, r->st() == GunnsElectPvRegConv::SAG && V > s.voc * L * (1 - 1e-6) ? "conv-sag-reverse" : "conv-direction", mon::fmt("converter waste heat %.9g W, output current %.9g A", r->heat(), I)); NEAR(-g.into(r, 0), I, 1e-6, 1e-5 * isc + 1e-7 * V, "conv-system", "converter current against its contribution to the system of equations"); if (!g.kcl(c, "converter network", 1e-5, 1e-5 * isc + 1e-6)) return;
        c.hit(mon::fmt("conv%d-%s%s%s", r->st(), powered ? "" : "u", enabled ? "" : "d", tripped ? "t" : "")); const bool able = powered && enabled && !tripped && p->getMpp().mPower >= DBL_EPSILON;
        if (!able) { CHK(r->st() == GunnsElectPvRegConv::OFF && I == 0 && r->pin() == 0, "conv-off", mon::fmt("converter in state %d gives %.9g A (powered %d enabled %d tripped %d array %.5g W)", r->st(), I, powered, enabled, tripped, p->getMpp().mPower)); continue; }
        if (!sane(s) || s.vc < 0.6 * s.voc || s.ic < 0.6 * s.isc) continue; if (r->latched() && r->st() != GunnsElectPvRegConv::REG) { c.count("latched"); continue; } // one change to a higher state per step, by design
        NEAR(r->getMaxRegCurrent(), Vr / L < s.voc ? arrayCurrent(s, Vr / L) * eff / L : 0.0, 1e-6, 1e-7 * isc, "conv-max-current", "largest regulated current");
        const GunnsElectPvLoadState& T = p->getTerminal(); const double vc = s.vc * L;
        switch (r->st()) {
            case GunnsElectPvRegConv::OFF: CHK(V > Vr * (1 - 1e-5), "conv-off-able", mon::fmt("converter is off at %.9g V below its %.9g V set point with %.5g W available", V, Vr, p->getMpp().mPower)); NEAR(T.mVoltage, s.voc, 1e-9, 0, "conv-off-array", "voltage of the unloaded array"); break;
            case GunnsElectPvRegConv::REG: NEAR(V, Vr, 1e-6, 1e-6 * isc, "conv-regulation", "regulated output voltage"); CHK(T.mVoltage * L >= Vr * (1 - 1e-6) || r->pin() < 1e-6, "conv-ratio", mon::fmt("converter holds %.9g V from %.9g V with a ratio limit of %.6g", V, T.mVoltage, L)); if (r->pin() > 1e-6 * s.p) { NEAR(T.mVoltage * T.mCurrent, r->pin(), 1e-6, 0, "conv-array-power", "array power against converter input power"); if (T.mVoltage >= s.vc) NEAR(T.mCurrent, arrayCurrent(s, T.mVoltage), 1e-5, 1e-7 * s.isc, "conv-array-curve", "array current under the converter"); } CHK(r->pin() <= p->getMpp().mPower * (1 + 1e-9), "conv-free-power", mon::fmt("converter draws %.9g W of %.9g W available", r->pin(), p->getMpp().mPower)); break;
            case GunnsElectPvRegConv::SAG: CHK(V <= Vr * (1 + 1e-6) && T.mVoltage >= s.vc * (1 - 1e-6), "conv-sag-range", mon::fmt("sagging converter at %.9g V, array at %.9g V, corner %.9g V, set point %.9g V", V, T.mVoltage, s.vc, Vr)); NEAR(I, eff / L * s.ic * (s.voc - V / L) / (s.voc - s.vc), 1e-6, 1e-6 * isc, "conv-sag-curve", "current of a sagging converter"); if (V >= vc && V < s.voc * L) { NEAR(T.mVoltage, V / L, 1e-5, 1e-6 * s.voc, "conv-sag-array", "array voltage under a sagging converter"); c.hit("sag-true"); } CHK(r->pin() <= p->getMpp().mPower * (1 + 1e-6), "conv-free-power-sag", mon::fmt("converter draws %.9g W of %.9g W available", r->pin(), p->getMpp().mPower)); break;
            default: CHK(T.mVoltage <= s.vc * (1 + 1e-6) && V <= Vr * (1 + 1e-6), "conv-short-range", mon::fmt("shorted converter at %.9g V, array at %.9g V, corner %.9g V, set point %.9g V", V, T.mVoltage, s.vc, Vr)); NEAR(I, s.isc / L - (s.isc - s.ic * eff) / L * V / vc, 1e-6, 1e-6 * isc, "conv-short-curve", "current of a shorted converter"); }
    }
}
MON_PROP2(E05, regshunt, "shunting regulator") {
    Rig g(2, 1e-8); ArrayCfg a = mkArray(c); std::vector<Env> env; Env e0 = {a.k.flux, a.edge ? M_PI / 2 : 0.0, 1.0, a.k.tref}; const bool uniform = c.r.p(0.6); PArr* p = addArray(g, a, e0, 0);
    const double vn = a.k.cells * a.k.voc, in = a.k.il * p->getNumStrings(); if (vn < 2) return; const unsigned prio = unsigned(c.r.i(1, 4)); double set = vn * c.r.uni(0.4, 0.9), minOp = c.r.p(0.5) ? 0.0 : vn * in * c.r.uni(0, 0.2); const double gout = in / vn * c.r.logu(10, 1000), gsh = in / vn * c.r.logu(1, 1000);
    const auto lim = [&](double s) { return c.r.p(0.2) ? s * c.r.uni(0.4, 1.1) : 0.0; }; const float lii = float(lim(in / p->getNumStrings())), liv = float(lim(vn)), loi = float(lim(in)), lov = float(lim(vn)), luv = c.r.p(0.1) ? float(vn * c.r.uni(0.05, 0.5)) : 0.0f;
    GunnsElectPvRegShuntConfigData cfg("shunt", &g.list, gout, gsh, p, 0, 0, 0, 0, lii, liv, loi, lov, luv, prio); std::vector<std::pair<unsigned, unsigned> > order; for (unsigned i = 0; i < a.sec; ++i) for (unsigned q = 0; q < p->mSections[i].getNumStrings(); ++q) order.push_back(std::make_pair(i, q));
    if (c.r.p(0.6)) { for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[size_t(c.r.i(0, int(i) - 1))]); for (auto& o : order) cfg.mStringLoadOrder.push_back(GunnsElectPvStringLoadOrder(o.first, o.second)); }
    GunnsElectPvRegShuntInputData id(set, true, true, minOp); PShunt* r = g.mk<PShunt>(); r->initialize(cfg, id, g.links, 0, 1); GunnsBasicConductor* load = g.cond(1, 2, in / vn); double gl = in / vn, gb = 0, vb = 0; GunnsBasicPotential* bus = g.feed(1, 0.0, 1.0, "bus"); bus->setDefaultConductivity(0.0); g.cond(0, 2, 1e-9 * in / vn); g.start(80);
    GunnsElectPvString* first = &p->mSections[order[0].first].mStrings[order[0].second]; g.spy->probes = {[=] { return first->getTerminal().mVoltage; }, [=] { return first->getTerminal().mCurrent; }, [&g] { return g.V(1); }, [=] { return r->getFlux(); }};
    std::vector<TripSpec> ts = {{"in-over-voltage", &r->getTrips()->mInOverVoltage, false, liv, 0}, {"in-over-current", &r->getTrips()->mInOverCurrent, false, lii, 1}, {"out-over-voltage", &r->getTrips()->mOutOverVoltage, false, lov, 2}, {"out-over-current", &r->getTrips()->mOutOverCurrent, false, loi, 3}, {"out-under-voltage", &r->getTrips()->mOutUnderVoltage, true, luv, 2}};
    bool powered = true, enabled = true; const int steps = c.r.i(4, 12); c.note += mon::fmt("%u strings Voc %.4g set %.5g", p->getNumStrings(), vn, set);
    for (int t = 0; t < steps; ++t) { if (!t || c.r.p(0.4)) sun(c, p, a, env, uniform); if (c.r.p(0.6)) load->setDefaultConductivity(gl = in / vn * c.r.logu(0.05, 10)); if (c.r.p(0.2)) { gb = c.r.p(0.6) ? in / vn : 0.0; vb = c.r.uni(0, 1.3) * set; bus->setDefaultConductivity(gb); bus->setSourcePotential(vb); }
        if (c.r.p(0.1)) { enabled = !enabled; r->setEnabled(enabled); } if (c.r.p(0.08)) { powered = !powered; r->power(powered); } if (c.r.p(0.15)) { set = vn * c.r.uni(0.4, 0.9); r->setVoltageSetpoint(set); } if (c.r.p(0.1)) { r->mMalfVoltageBiasFlag = c.r.p(0.6); r->mMalfVoltageBiasValue = vn * c.r.uni(-0.1, 0.1); } if (c.r.p(0.1)) r->setMinOperatePower(minOp = vn * in * c.r.uni(0, 0.2));
        std::vector<bool> before; const bool reset = c.r.p(0.2); if (reset) r->reset(); for (auto& q : ts) before.push_back(q.trip->isTripped() && !reset && powered);
        const bool conv = g.step(0.1); c.count(conv ? "steps" : "unconverged"); const Sum s = arraySum(a, p, env); if (s.edge) continue; if (!checkArray(c, p, a, s)) return; if (!conv) continue;
        const double Vr = std::max(DBL_EPSILON, set + (r->mMalfVoltageBiasFlag ? r->mMalfVoltageBiasValue : 0.0)), V = g.V(1), I = r->getFlux(); NEAR(r->vreg(), Vr, 1e-12, 0, "shunt-setpoint", "regulated voltage");
        bool tripped = false; for (auto& q : ts) tripped = tripped || q.trip->isTripped(); judgeTrips(c, g, ts, before, prio, powered && enabled); if (c.failed()) return;
        if (!g.kcl(c, "shunting regulator network", 1e-6, 1e-6 * in)) return; const bool reg = r->st() == GunnsElectPvRegShunt::REG; c.hit(mon::fmt("shunt%d-%s%s%s", r->st(), powered ? "" : "u", enabled ? "" : "d", tripped ? "t" : ""));
        NEAR(I, reg ? (Vr - V) * gout : 0.0, 1e-9, 1e-12, "shunt-law", "regulator output current"); NEAR(r->pout(), V * I, 1e-9, 1e-9, "shunt-output-power", "regulator output power"); NEAR(-g.into(r, 1), I, 1e-6, 1e-6 * in, "shunt-system", "regulator current against its contribution to the system of equations"); CHK(I >= 0, "shunt-direction", mon::fmt("regulator takes %.9g A back", -I));
        const bool able = powered && enabled && !tripped && p->getMpp().mPower >= DBL_EPSILON; if (!able) { CHK(!reg && I == 0 && r->pin() == 0, "shunt-off", mon::fmt("regulator in state %d gives %.9g A (powered %d enabled %d tripped %d array %.5g W)", r->st(), I, powered, enabled, tripped, p->getMpp().mPower)); continue; }
        if (!sane(s) || Vr < 0.05 * vn) continue;
        // what it could do: the power of all strings at the set point, and the network's demand there
        const double bulk = Vr < s.voc ? arrayCurrent(s, Vr) * Vr : 0.0; NEAR(r->bulk(), bulk, 1e-6, 1e-7 * s.isc * Vr, "shunt-bulk", "bulk power available at the set point"); std::vector<double> ps; double all = 0; bool odd = false;
        for (auto& o : order) { const Exp x = expect1(a.k, env[o.first].flux * env[o.first].exposed * facing(env[o.first].angle, a.ex, a.back, a.edge), env[o.first].exposed, env[o.first].T, 0, 0); if (x.pmp > 0 && (x.vmp < 1e-3 || x.vmp > 0.999 * x.voc)) odd = true; const double ii = Vr > x.voc ? 0.0 : Vr <= x.vmp ? x.isc - (x.isc - x.imp) * Vr / std::max(x.vmp, 1e-12) : x.imp * (x.voc - Vr) / (x.voc - x.vmp); ps.push_back(x.pmp > 0 ? std::max(0.0, ii) * Vr : 0.0); if (!(x.pmp > 0) && x.isc > 0) odd = true; all += ps.back(); }
        if (odd) { c.count("odd"); continue; }
        const double Vx = (gout * Vr + gb * vb) / (gout + gl + gb), demand = Vr * gout * (Vr - Vx), tolP = 1e-5 * Vr * in; NEAR(r->getMaxRegCurrent(), all / Vr, 1e-6, 1e-7 * in, "shunt-max-current", "largest regulated current");
        if (bulk < minOp - tolP) CHK(!reg, "shunt-min-power", mon::fmt("regulator works with %.6g W available and a minimum of %.6g W", bulk, minOp));
        else if (bulk > minOp + tolP) { if (Vx > Vr * (1 + 1e-9) || demand > std::max(bulk, all) + tolP) CHK(!reg, "shunt-overload", mon::fmt("regulator works into a demand of %.9g W with %.9g W available, %.9g V on its output against %.9g V", demand, bulk, Vx, Vr)); else if (Vx < Vr * (1 - 1e-9) && demand < std::max(bulk, all) - tolP && demand > 0) CHK(reg, "shunt-idle", mon::fmt("regulator is off with a demand of %.9g W and %.9g W available", demand, bulk)); }
        if (reg) { NEAR(V, Vx, 1e-6, 0, "shunt-voltage", "regulated output voltage"); double sum = 0, gsum = 0, shp = 0; size_t loaded = 0; bool tie = false; for (size_t i = 0; i < order.size(); ++i) { GunnsElectPvString* q = &p->mSections[order[i].first].mStrings[order[i].second]; const GunnsElectPvLoadState& T = q->getTerminal(); if (std::fabs(sum - demand) < tolP) tie = true; if (tie) break; const bool need = sum < demand;
                CHK(q->isShunted() == !need, "shunt-order", mon::fmt("string %zu in load order is %s with %.9g W of %.9g W loaded before it", i, need ? "shunted" : "loaded", sum, demand)); if (need) { NEAR(T.mVoltage, Vr, 1e-12, 0, "shunt-string-voltage", "voltage of a loaded string"); NEAR(T.mPower, ps[i], 1e-6, 1e-7 * Vr * in, "shunt-string-power", "power of a loaded string"); sum += ps[i]; gsum += T.mConductance; ++loaded; } else { NEAR(T.mCurrent, q->getShortCircuitCurrent() < 1e-12 ? 0.0 : gsh * T.mVoltage, 1e-6, 1e-9 * in, "shunt-string-shunt", "current of a shunted string"); shp += T.mPower; } }
            if (!tie) { NEAR(r->pin(), sum, 1e-6, 1e-7 * Vr * in, "shunt-input", "power drawn from the loaded strings"); NEAR(r->shunt(), shp, 1e-6, 1e-7 * Vr * in, "shunt-power", "shunted power"); CHK(r->pin() >= demand - tolP || loaded == order.size(), "shunt-short", "fewer strings loaded than the demand needs"); c.hit(mon::fmt("loaded%zu", std::min<size_t>(loaded, 6))); c.count("loadings"); }
            NEAR(r->heat(), r->shunt() + I * (Vr - V), 1e-9, 1e-9, "shunt-heat", "regulator waste heat"); }
        else { for (auto& o : order) CHK(p->mSections[o.first].mStrings[o.second].isShunted(), "shunt-off-strings", "a string is not shunted while the regulator is on stand-by"); c.hit("standby"); }
    }
}
