// Electrical aspect monitors: battery (E04) and user loads, load switches and power supplies (E06).
#include "erig.hpp"
#include "aspects/electrical/Batt/GunnsElectBattery.hh"
#include "aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.hh"
#include "math/approximation/TsLinearInterpolator.hh"
#include <cfloat>

namespace {
using erig::Rig;
struct Table { std::vector<double> x, y; std::shared_ptr<TsLinearInterpolator> t;
    void make() { t.reset(new TsLinearInterpolator(&x[0], &y[0], int(x.size()), x.front(), x.back())); }
    double operator()(double f) const { if (f <= x.front()) return y.front(); if (f >= x.back()) return y.back(); size_t i = 1; while (f > x[i]) ++i; return y[i - 1] + (y[i] - y[i - 1]) * (f - x[i - 1]) / (x[i] - x[i - 1]); } };
struct UBatt : GunnsElectBattery { double soc() const { return mSoc; } double cap() const { return mCapacity; } double cur() const { return mCurrent; } double volt() const { return mVoltage; } double heat() const { return mHeat; } double gsys() const { return mSystemConductance; } };
struct MCell { double soc = 0, cap = 0, r = 0; bool open = false, shrt = false, capF = false, run = false; double capV = 0, dur = 0, pw = 0, rate = 0;
    double effSoc() const { return open || shrt ? 0 : soc; }
    double effCap() const { return open || shrt ? 0 : capF ? capV : cap; }
    double effR() const { return shrt ? DBL_EPSILON : open || run ? 1.0 / DBL_EPSILON : r; }
    double effV(const Table& t) const { return open || shrt || run ? 0.0 : t(soc); }
    void update(double I, double dt, const Table& t) {
        if (shrt) soc = 0; else if (!open) { const double k = capF ? capV : cap;
            if (k > DBL_EPSILON) { double ri = 0; if (run && soc > 0) { const double v = std::max(DBL_EPSILON, t(soc)); if (pw == 0) rate = 2 * soc * k * v * 3600 / std::max(DBL_EPSILON, dur * dur); pw += rate * dt; ri = pw / v; }
                soc = std::min(1.0, std::max(0.0, soc - (I + ri) * dt / k / 3600)); } else soc = 0; }
        if (soc == 0 || !run) pw = rate = 0; } };
}
MON_PROP(E04, "battery") {
    const int n = c.r.i(1, 3); Rig g(n, 1e-10); Table tab; const int m = c.r.i(2, 8); { double y = c.r.p(0.1) ? 0.0 : c.r.uni(0.5, 4); for (int i = 0; i < m; ++i) { tab.x.push_back(i == m - 1 ? 1.0 : (i + (i ? c.r.uni(-0.3, 0.3) : 0)) / (m - 1)); tab.y.push_back(y); y += c.r.p(0.15) ? 0.0 : c.r.uni(0, 1.5); } } tab.make();
    const int nc = c.r.p(0.1) ? 1 : c.r.i(1, 12); const bool par = c.r.p(0.5); const double cr = c.r.p(0.05) ? 0.0 : c.r.logu(1e-4, 1), ir = c.r.p(0.2) ? 0.0 : c.r.logu(1e-4, 1), cap = c.r.logu(1e-3, 200), soc0 = c.r.p(0.15) ? 0.0 : c.r.p(0.15) ? 1.0 : c.r.u();
    const int a = c.r.p(0.7) ? n : c.r.i(0, n), b = a == n ? c.r.i(0, n - 1) : c.r.p(0.5) ? n : (a + 1) % n; if (a == b || (a == n && b == n)) return;
    for (int i = 0; i < n; ++i) g.cond(i, n, c.r.logu(1e-3, 10));
    GunnsBasicPotential* ch = g.feed(b == n ? a : b, 0.0, 1.0, "charger"); ch->setDefaultConductivity(0.0);
    UBatt* bt = g.mk<UBatt>(); const bool bfl = c.r.p(0.15); const bool runAt0 = c.r.p(0.1);
    GunnsElectBatteryConfigData cfg("batt", &g.list, nc, par, cr, ir, cap, tab.t.get()); GunnsElectBatteryInputData inp(bfl, bfl ? c.r.u() : 0.0, soc0, runAt0, c.r.uni(5, 300), c.r.uni(0.5, 20));
    bt->initialize(cfg, inp, g.links, a, b);
    if (c.r.p(0.3) && n > 1) { EpsConstantPowerLoad* l = g.mk<EpsConstantPowerLoad>(); l->initialize(EpsConstantPowerLoadConfigData("cpl", &g.list, 0.0, c.r.logu(0.01, 2), c.r.uni(1, 5)), EpsConstantPowerLoadInputData(), g.links, c.r.i(0, n - 1), n); }
    g.start(); std::vector<MCell> cells(nc); for (int i = 0; i < nc; ++i) { cells[i].soc = soc0; cells[i].cap = cap / nc; cells[i].r = cr; }
    c.note += mon::fmt("%d cells in %s R=%.3g ir=%.3g cap=%.3g soc0=%.3g ports %d,%d", nc, par ? "parallel" : "series", cr, ir, cap, soc0, a, b);
    bool mRun = runAt0; unsigned rc = 0; double rt = 0;
    NEAR(bt->soc(), soc0, 1e-12, 1e-12, "initial-soc", "state of charge after initialization"); NEAR(bt->cap(), cap, 1e-12, 1e-12, "initial-capacity", "capacity after initialization");
    const int steps = c.r.i(5, 40); const double dt0 = c.r.logu(0.05, 600);
    for (int t = 0; t < steps; ++t) { const double dt = c.r.p(0.1) ? dt0 * c.r.uni(0.2, 3) : dt0;
        if (c.r.p(0.25)) { const bool on = c.r.p(0.7); ch->setDefaultConductivity(on ? c.r.logu(0.01, 100) : 0.0); ch->setSourcePotential(c.r.uni(0, 2.0) * tab.y.back() * (par ? 1 : nc)); }
        if (c.r.p(0.1)) { const bool on = c.r.p(0.5); bt->setMalfBlockage(on, on ? (c.r.p(0.2) ? 1.0 : c.r.u()) : 0.0); }
        if (c.r.p(0.2)) { const int k = c.r.i(0, nc - 1); MCell& q = cells[k]; GunnsElectBatteryCell& u = bt->mCells[k]; const bool on = c.r.p(0.6);
            switch (c.r.i(0, 3)) { case 0: q.open = on; if (on) u.setMalfOpenCircuit(true); else u.setMalfOpenCircuit(); break; case 1: q.shrt = on; if (on) u.setMalfShortCircuit(true); else u.setMalfShortCircuit(); break;
                case 2: q.capF = on; q.capV = on ? (c.r.p(0.1) ? 0.0 : q.cap * c.r.uni(0.01, 2)) : 0.0; if (on) u.setMalfCapacity(true, q.capV); else u.setMalfCapacity(); break;
                case 3: if (mRun) break; q.run = on; q.dur = on ? c.r.logu(1, 1000) : 0.0; if (on) u.setMalfThermalRunaway(true, q.dur); else u.setMalfThermalRunaway(); break; } }
        if (c.r.p(0.08)) { mRun = !mRun; bt->mMalfThermalRunawayFlag = mRun; bt->mMalfThermalRunawayDuration = c.r.logu(1, 1000); bt->mMalfThermalRunawayInterval = c.r.p(0.2) ? 0.0 : dt0 * c.r.i(1, 5); }
        // the battery level runaway malfunction spreads from cell to cell and is taken back with its flag
        static thread_local bool was; if (!t) was = false;
        if (mRun) { if (rc >= unsigned(nc)) rc = 0; cells[rc].run = true; cells[rc].dur = bt->mMalfThermalRunawayDuration; rt += dt; if (rt >= bt->mMalfThermalRunawayInterval) { rt = 0; ++rc; } c.hit("spreading"); }
        else { if (was) for (int i = 0; i < nc; ++i) cells[i].run = false; rt = 0; rc = 0; }
        was = mRun;
        double R = ir, V = 0; if (par) { double G = 0; for (int i = 0; i < nc; ++i) { G += 1.0 / std::max(cells[i].effR(), DBL_EPSILON); V = std::max(V, cells[i].effV(tab)); } R += 1.0 / std::max(G, DBL_EPSILON); } else { double rr = 0; for (int i = 0; i < nc; ++i) { rr += cells[i].effR(); V += cells[i].effV(tab); } R += std::max(rr, DBL_EPSILON); }
        const double bf = bt->mMalfBlockageFlag ? 1.0 - bt->mMalfBlockageValue : 1.0, G = std::min(bf / R, 1e15);
        const bool conv = g.step(dt); c.count(conv ? "steps" : "unconverged"); if (!conv) return;
        NEAR(bt->gsys(), G, 1e-9, 1e-12, "conductance", "battery conductance from its cells"); NEAR(bt->getSourcePotential(), V, 1e-9, 1e-9, "open-circuit", "open circuit voltage from its cells");
        const double I = bt->getFlux(), dv = g.V(a) + V - g.V(b); if (G < 1e6) { NEAR(I, G * dv, 1e-6, 1e-9 + 1e-9 * G, "current", "battery current"); NEAR(g.into(bt, 0), I, 1e-6, 1e-8 + 1e-9 * G, "system", "battery contribution to the system of equations"); if (!g.kcl(c, "battery network", 1e-6, 1e-7)) return; }
        int cnt = 0; for (int i = 0; i < nc; ++i) if (cells[i].effSoc() > DBL_EPSILON || (I < 0 && cells[i].effCap() > DBL_EPSILON)) ++cnt;
        std::vector<MCell> old = cells; if (cnt) for (int i = 0; i < nc; ++i) cells[i].update(I / cnt, dt, tab);
        double s = 0, kp = 0, h = 0; for (int i = 0; i < nc; ++i) { const MCell& q = cells[i]; GunnsElectBatteryCell& u = bt->mCells[i]; s += q.effSoc() / nc; kp += q.effCap(); h += q.pw;
            if (!(u.getEffectiveSoc() >= 0 && u.getEffectiveSoc() <= 1)) { c.fail("soc-range", mon::fmt("state of charge of cell %d is %.17g", i, u.getEffectiveSoc())); return; }
            NEAR(u.getEffectiveSoc(), q.effSoc(), 1e-8, 1e-9, "cell-soc", mon::fmt("step %d: state of charge of cell %d (current %.9g A over %d cells, dt %.6g s, capacity %.6g, open %d short %d runaway %d, was %.9g)", t, i, I, cnt, dt, q.effCap(), q.open, q.shrt, q.run, old[i].soc));
            NEAR(u.getEffectiveCapacity(), q.effCap(), 1e-12, 1e-12, "cell-capacity", "effective cell capacity"); NEAR(u.getRunawayPower(), q.pw, 1e-6, 1e-9, "runaway-power", "thermal runaway power of a cell");
            NEAR(u.getEffectiveResistance(), q.effR(), 1e-12, 0, "cell-resistance", "effective cell resistance");
            c.hit(mon::fmt("cell-%d%d%d%d-%s-%s", q.open, q.shrt, q.capF, q.run, I > 0 ? "dis" : I < 0 ? "chg" : "idle", q.soc == 0 ? "empty" : q.soc == 1 ? "full" : "mid")); if (q.run && q.pw > 0) c.count("runaway_cells"); }
        NEAR(bt->soc(), s, 1e-8, 1e-9, "soc", "battery state of charge is the mean of its cells"); NEAR(bt->cap(), kp, 1e-9, 1e-12, "capacity", "battery capacity is the sum of its cells"); NEAR(bt->cur(), I, 0, 0, "reported-current", "reported current"); NEAR(bt->volt(), g.V(b), 0, 0, "reported-voltage", "reported voltage");
        if (bt->gsys() > DBL_EPSILON && G < 1e6) NEAR(bt->heat(), h + I * I / G, 1e-6, 1e-9, "heat", "battery heat");
        // charge ledger without malfunctions
        bool clean = true; for (int i = 0; i < nc; ++i) { const MCell& q = cells[i]; if (q.open || q.shrt || q.capF || q.run || q.soc <= 1e-15 || q.soc == 1 || old[i].soc <= 1e-15) clean = false; }
        double before = 0; for (int i = 0; i < nc; ++i) before += old[i].soc / nc;
        if (clean) { NEAR((bt->soc() - before) * cap * 3600, -I * dt, 1e-6, 1e-6 * cap, "charge-ledger", "change of the stored charge against the current drawn"); c.count("charge_ledgers"); }
        for (int i = 0; i < nc; ++i) if (std::fabs(bt->mCells[i].getEffectiveSoc() - cells[i].effSoc()) > 0 && !cells[i].open && !cells[i].shrt) cells[i].soc = bt->mCells[i].getEffectiveSoc();   // no drift between the model and the cell
    }
}
RESTART_PROP(epow)
