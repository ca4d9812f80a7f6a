// Links that transform what flows through them (F17): multi-separator, reactors, redox stack, sublimator, sorption bed.
#include "rig.hpp"
#include "aspects/fluid/source/GunnsFluidMultiSeparator.hh"
#include "aspects/fluid/source/GunnsFluidReactor.hh"
#include "aspects/fluid/source/GunnsFluidHotReactor.hh"
#include "aspects/fluid/source/GunnsFluidSimpleH2Redox.hh"
#include "aspects/fluid/source/GunnsFluidSublimator.hh"
#include "aspects/fluid/source/GunnsFluidSorptionBed.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
using namespace rig;
namespace {
struct XMs : GunnsFluidMultiSeparator { double thru(int i) const { return mSepBufferThru[i]; } double exit(int i) const { return mSepBufferExit[i]; } };
double hOf(Rig& g, const std::vector<double>& m, double T) { double h = 0; for (int k = 0; k < g.mix.n(); ++k) if (m[k] != 0) h += m[k] * g.fl(0)->getProperties(g.mix.types[k])->getSpecificEnthalpy(T); return h; }
// the ledgers differ by exactly what the device added
void judge(mon::Ctx& c, Rig& g, const char* key, const Rig::Ledger& A, const Rig::Ledger& B, double dt, const std::vector<double>& ds, const std::vector<double>& dtc, double dE, double tolE = 0) {
    const double e = g.eps(dt); double dm = 0, da = 0; for (double v : ds) { dm += v; da += std::fabs(v); }
    NEAR(B.m, A.m + dm, 1e-9, e + 1e-9 * da, std::string(key) + "-mass", mon::fmt("%s: total mass (device added %.6g of %.6g)", key, dm, A.m));
    for (int k = 0; k < g.mix.n(); ++k) NEAR(B.s[k], A.s[k] + ds[k], 0, 1e-9 * A.m + e + 1e-9 * da, std::string(key) + "-species", mon::fmt("%s: mass of constituent %d (device added %.6g)", key, k, ds[k]));
    for (int k = 0; k < g.mix.nTc(); ++k) NEAR(B.t[k], A.t[k] + dtc[k], 1e-8, 1e-6 * e + 1e-13 * A.m + 1e-8 * std::fabs(dtc[k]), std::string(key) + "-trace", mon::fmt("%s: mass of trace compound %d (device added %.6g)", key, k, dtc[k]));
    NEAR(B.e, A.e + dE, 0, 3e-7 * A.eAbs + e * ((A.m > 0 ? A.eAbs / A.m : 0) + 1e6) + 1e-9 * std::fabs(dE) + tolE, std::string(key) + "-energy", mon::fmt("%s: total energy (added %.6g)", key, dE));
}
}

MON_PROP2(F17, separator, "multi-separator: fluids and trace compounds, ports, fractions, direction, blockage") {
    mon::Rng& r = c.r; const int n = r.i(1, 4), nt = r.p(0.6) ? r.i(1, 4) : 0, ports = r.i(3, 6); Rig g(r, ports, n, nt, false, r.p(0.4), 0.2, r.p(0.3) ? 2000 : 20, 100, 60); g.make(r);
    const bool all = r.p(0.1); std::vector<FP::FluidType> ft; std::vector<int> fp, tp, fi, ti; std::vector<ChemicalCompound::Type> tt; std::vector<double> ff, tf;
    for (int k = 0; k < n; ++k) if (r.p(all ? 1 : 0.6)) { ft.push_back(g.mix.types[k]); fi.push_back(k); fp.push_back(r.i(2, ports - 1)); ff.push_back(r.p(all ? 0.9 : 0.15) ? 1 : r.p(0.1) ? 0 : r.u()); }
    for (int k = 0; k < nt; ++k) if (r.p(0.6)) { tt.push_back(g.mix.tcTypes[k]); ti.push_back(k); tp.push_back(r.i(2, ports - 1)); tf.push_back(r.p(0.15) ? 1 : r.p(0.1) ? 0 : r.u()); }
    for (size_t i = fi.size(); i-- > 1;) { const size_t j = r.i(0, int(i)); std::swap(fi[i], fi[j]); std::swap(ft[i], ft[j]); }
    std::vector<FP::FluidType> bt = ft; std::vector<int> bp = fp, bq = tp; std::vector<double> bf = ff, bg = tf; int bad = r.p(0.12) ? r.i(0, 9) : -1; double G = r.logu(2e-7, r.p(0.3) ? 0.1 : 1e-3); std::vector<int> pm; for (int i = 0; i < ports; ++i) pm.push_back(i); if (r.p(0.5)) r.shuffle(pm); std::vector<int> pp = pm;
    switch (bad) { case 0: if (ft.empty()) { bad = -1; break; } bp[0] = r.p(0.5) ? ports : 1; break; case 1: if (ft.empty()) { bad = -1; break; } bf[0] = r.p(0.5) ? 1.01 : -0.01; break; case 2: bp.push_back(2); break; case 3: if (ft.empty()) { bad = -1; break; } bt.push_back(ft[0]); bp.push_back(2); bf.push_back(0.5); break; case 4: bt.push_back(FP::GUNNS_HYDRAZINE); for (auto t : g.mix.types) if (t == FP::GUNNS_HYDRAZINE) bad = -1; if (bad < 0) { bt = ft; break; } bp.push_back(2); bf.push_back(0.5); break;
        case 5: if (tt.empty()) { bad = -1; break; } bq[0] = r.p(0.5) ? ports : 0; break; case 6: if (tt.empty()) { bad = -1; break; } bg[0] = -0.1; break; case 7: bf.push_back(0.1); break; case 8: G = 0; break; case 9: pp.resize(2); for (auto& v : bp) v = 2; break; default: break; }
    if (ft.empty() && tt.empty() && bad < 0) bad = 10;
    XMs* x = g.add(new XMs); bool mf = r.p(0.15); double mv = r.p(0.2) ? 1 : r.u(); bool threw = false;
    try { x->initialize(GunnsFluidMultiSeparatorConfigData("x", &g.list, G, &bt, &bp, &tt, &bq), GunnsFluidMultiSeparatorInputData(mf, mv, &bf, &bg), g.links, &pp); } catch (const TsInitializationException& e) { threw = true; c.note = e.what(); }
    CHK(threw == (bad >= 0), "separator-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "separator-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(1 + bad); return; }
    g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; c.note = mon::fmt("ports %d fluids %d of %d tc %d of %d", ports, int(ft.size()), n, int(tt.size()), nt); const int a = pm[0], b = pm[1];
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { g.disturb(r, dt); if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.3) ? 1 : r.u(); x->setMalfBlockage(mf, mv); }
        if (r.p(0.1) && ft.size()) { const int i = r.i(0, int(ft.size()) - 1); const double v = r.uni(-0.2, 1.2); x->setSeparationFraction(ft[i], v); ff[i] = std::min(1.0, std::max(0.0, v)); NEAR(x->getSeparationFraction(ft[i]), ff[i], 1e-15, 0, "separator-fraction", "separation fraction set"); } if (r.p(0.1) && tt.size()) { const int i = r.i(0, int(tt.size()) - 1); const double v = r.uni(-0.2, 1.2); x->setTcFraction(tt[i], v); tf[i] = std::min(1.0, std::max(0.0, v)); NEAR(x->getTcFraction(tt[i]), tf[i], 1e-15, 0, "separator-fraction", "trace compound fraction set"); }
        std::vector<double> buf(n, 0.0), T0(ports), mw(ports), dsn(n, 0.0), now(n, 0.0), tcm; std::vector<std::vector<double> > x0(ports), tx(ports), s0(ports), tc0(ports); for (int i = 0; i < ports; ++i) { PolyFluid* f = g.fl(i); T0[i] = f->getTemperature(); mw[i] = f->getMWeight(); for (int k = 0; k < n; ++k) { x0[i].push_back(f->getMoleFraction(k)); s0[i].push_back(massOf(f, k)); } for (int k = 0; k < nt; ++k) { tx[i].push_back(f->getTraceCompounds()->getMoleFractions()[k]); tc0[i].push_back(f->getTraceCompounds()->getMasses()[k]); } }
        for (size_t i = 0; i < ft.size(); ++i) buf[i] = x->thru(int(i)); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps"); const double fx = x->getFlux(); const int up = fx >= 0 ? a : b;
        if (mf && mv == 1) CHK(std::fabs(fx) < 1e-12, "separator-blocked", mon::fmt("flow %g through a fully blocked separator", fx)); if (fx) CHK((fx > 0) == (g.P(a) > g.P(b)), "separator-direction", "");
        std::vector<double> ds(n, 0.0), dtc(nt, 0.0); for (size_t i = 0; i < ft.size(); ++i) { const double M = g.fl(0)->getProperties(ft[i])->getMWeight(), in = buf[i] * M * dt, out = x->thru(int(i)) * M * dt; NEAR(x->exit(int(i)), buf[i], 1e-14, 0, "separator-buffer", mon::fmt("separated flow delivered of fluid %d", fi[i])); NEAR(x->thru(int(i)), ff[i] * std::fabs(fx) * x0[up][fi[i]], 1e-9, 1e-15, "separator-rate", mon::fmt("separated flow of fluid %d (fraction %g flux %g)", fi[i], ff[i], fx)); ds[fi[i]] += in - out; }
        if (nt) { double thr = std::fabs(fx); for (size_t i = 0; i < ft.size(); ++i) thr -= x->thru(int(i)); if (fx != 0 && thr < 1e-12) { c.count("carrierless"); break; } } double small = 0; for (auto v : buf) small += std::fabs(v); judge(c, g, "separator", A, B, dt, ds, dtc, hOf(g, ds, T0[up]), 1e-9 * A.eAbs);
        // without other links every node's change is known
        if (!g.dist) for (int i = 2; i < ports; ++i) { const int nd = pm[i]; for (int k = 0; k < n; ++k) { double want = 0; for (size_t q = 0; q < ft.size(); ++q) if (fi[q] == k && fp[q] == i) want += buf[q] * g.fl(0)->getProperties(ft[q])->getMWeight() * dt; if (std::fabs(want) > 0 && want < 1e-15 * dt) continue; NEAR(massOf(g.fl(nd), k), s0[nd][k] + want, 1e-9, 1e-9 * g.fl(nd)->getMass() + g.eps(dt), "separator-port-fluid", mon::fmt("mass of constituent %d in the node of port %d (expected to gain %.6g)", k, i, want)); }
            for (int k = 0; k < nt; ++k) { double want = 0; for (size_t q = 0; q < tt.size(); ++q) if (ti[q] == k && tp[q] == i) want += tf[q] * std::fabs(fx) * tx[up][k] * g.fl(0)->getTraceCompounds()->getConfig()->mCompounds[k]->mMWeight * dt; NEAR(g.fl(nd)->getTraceCompounds()->getMasses()[k], tc0[nd][k] + want, 1e-8, 1e-6 * g.eps(dt) + 1e-13 * g.fl(nd)->getMass(), "separator-port-trace", mon::fmt("mass of trace compound %d in the node of port %d (expected to gain %.6g)", k, i, want)); } }
        c.hit(20 + mon::mix(int(ft.size()) + 8 * int(tt.size()), (fx > 0) - (fx < 0) + 4 * ports)); }
}

namespace {
template<class B> struct XRe : B, rst::Keep { std::vector<double*> kept() override { return { &this->mFluidTemperature }; } double total(int i) const { return this->mCompounds[i].mTotalMass; } double heat() const { return this->mProducedHeat; } double wall() const { return this->mWallHeatFlux; } double Tf() const { return this->mFluidTemperature; } double area() const { return this->mThermalSurfaceArea; } };
typedef ChemicalCompound CC; typedef ChemicalReaction CR;
struct Rx { CR::Type t; CC::Type a, b, p, q; double na, nb, np, nq, eff, heat; };
// the library's reactions, with their documented stoichiometry
const std::vector<Rx> RX = { { CR::CO_REMOVAL, CC::CO, CC::O2, CC::CO2, CC::NO_COMPOUND, 2, 1, 2, 0, 0.8, 0 }, { CR::CH4_REMOVAL, CC::CH4, CC::O2, CC::CO2, CC::H2O, 1, 2, 1, 2, 0.64, 0 }, { CR::H2_REMOVAL, CC::H2, CC::O2, CC::H2O, CC::NO_COMPOUND, 2, 1, 2, 0, 1, 0 },
    { CR::LIOHH2O_SYNTHESIS, CC::H2O, CC::LIOH, CC::LIOHH2O, CC::NO_COMPOUND, 1, 1, 1, 0, 0.5, 60.668 }, { CR::LI2CO3_FORMATION, CC::CO2, CC::LIOHH2O, CC::LI2CO3, CC::H2O, 1, 2, 1, 3, 1, -15.9 }, { CR::NH3_REMOVAL, CC::NH3, CC::H3PO4, CC::NH42HPO4, CC::NO_COMPOUND, 2, 1, 1, 0, 0.9, 0 }, { CR::SABATIER_RXN, CC::CO2, CC::H2, CC::H2O, CC::CH4, 1, 4, 2, 1, 0.9, 165 } };
struct Cm { CC::Type t; FP::FluidType f; double mw; }; const std::vector<Cm> CM = { { CC::CO, FP::GUNNS_CO, 28.0101 }, { CC::CO2, FP::GUNNS_CO2, 44.0095 }, { CC::CH4, FP::GUNNS_CH4, 16.0425 }, { CC::O2, FP::GUNNS_O2, 31.9988 }, { CC::H2, FP::GUNNS_H2, 2.01588 }, { CC::H2O, FP::GUNNS_H2O, 18.0153 }, { CC::NH3, FP::GUNNS_NH3, 17.0305 }, { CC::LIOH, FP::NO_FLUID, 23.94834 }, { CC::LIOHH2O, FP::NO_FLUID, 41.96364 }, { CC::LI2CO3, FP::NO_FLUID, 73.8909 }, { CC::H3PO4, FP::NO_FLUID, 97.9952 }, { CC::NH42HPO4, FP::NO_FLUID, 132.0562 } };
const Cm& cm(CC::Type t) { for (auto& x : CM) if (x.t == t) return x; return CM[0]; }
}
MON_PROP2(F17, reactor, "reactor or hot reactor: reactions, solids, efficiencies, wall, both flow directions, blockage") {
    mon::Rng& r = c.r; const bool hot = r.p(0.4); std::vector<Rx> rx; for (auto& x : RX) if (r.p(0.3)) rx.push_back(x); if (rx.empty()) rx.push_back(RX[r.i(0, int(RX.size()) - 1)]); r.shuffle(rx); const int nr = int(rx.size());
    std::vector<CC::Type> ct; auto need = [&](CC::Type t) { if (t != CC::NO_COMPOUND && std::find(ct.begin(), ct.end(), t) == ct.end()) ct.push_back(t); }; for (auto& x : rx) { need(x.a); need(x.b); need(x.p); need(x.q); } if (r.p(0.3)) need(CM[r.i(0, int(CM.size()) - 1)].t); r.shuffle(ct); std::vector<FP::FluidType> ft; for (auto t : ct) if (cm(t).f != FP::NO_FLUID) ft.push_back(cm(t).f); if (r.p(0.6)) ft.push_back(FP::GUNNS_N2); if (r.p(0.2)) ft.push_back(FP::GUNNS_HE); r.shuffle(ft);
    const int bad = r.p(0.08) ? r.i(0, 5) : -1; std::vector<CC::Type> bt = ct; int nbr = nr; double wall = r.uni(200, 600); if (bad == 0) bt.erase(std::find(bt.begin(), bt.end(), rx[0].a)); if (bad == 1) wall = -1; if (bad == 2) nbr = 0; if (bad == 5) { FP::FluidType f = FP::NO_FLUID; for (auto t : { rx[0].a, rx[0].p }) if (cm(t).f != FP::NO_FLUID) f = cm(t).f; ft.erase(std::find(ft.begin(), ft.end(), f)); if (ft.empty()) ft.push_back(FP::GUNNS_N2); }
    Rig g(r, 2, ft, r.p(0.4) ? r.i(1, 3) : 0, false, r.p(0.5), 0.2, 50); const int n = g.mix.n(), nt = g.mix.nTc(); for (auto& s : g.init) { s.T = r.uni(270, 550); s.P = r.uni(30, 300); } g.make(r); auto ix = [&](CC::Type t) { auto it = std::find(ft.begin(), ft.end(), cm(t).f); return cm(t).f == FP::NO_FLUID || it == ft.end() ? -1 : int(it - ft.begin()); };
    static DefinedChemicalReactions dr; static DefinedChemicalCompounds dc; const int nc = int(bt.size()); std::vector<double> tot(nc); for (auto& v : tot) v = r.p(0.2) ? 0 : r.p(0.2) ? r.logu(1e-9, 1e-3) : r.logu(1e-3, 10); std::vector<CR::Type> rt; for (auto& x : rx) rt.push_back(x.t); std::vector<double> ef(nr), eg(nr); for (auto& v : ef) v = r.p(0.3) ? 0 : r.p(0.2) ? 1.5 : r.u(); for (auto& v : eg) v = r.p(0.7) ? 0 : r.logu(0.01, 10); const bool uf = r.p(0.5), ug = r.p(0.3); const double bias = r.uni(-0.3, 0.5), sl = r.uni(-1e-3, 2e-3); const bool surf = r.p(0.5); const double L = surf ? r.logu(0.01, 1) : 0, D = surf ? r.logu(0.01, 0.2) : 0; const double G = r.logu(1e-6, 1e-2); bool mf = r.p(0.15); double mv = r.p(0.3) ? 1 : r.u(); if (bad == 3) bt[0] = CC::NO_COMPOUND; if (bad == 4) rt[0] = CR::NO_REACTION;
    bool threw = false; GunnsFluidReactor* x = 0; XRe<GunnsFluidReactor>* xc = 0; XRe<GunnsFluidHotReactor>* xh = 0; const int p0 = r.p(0.5), p1 = 1 - p0; struct Own { double* p; Own(const std::vector<double>& v) : p(new double[v.size()]) { std::copy(v.begin(), v.end(), p); } };
    try { if (hot) { x = xh = g.add(new XRe<GunnsFluidHotReactor>); GunnsFluidHotReactorConfigData cf("x", &g.list, G, 0.0, &dr, rt.data(), nbr, &dc, bt.data(), nc, L, D, surf ? 1e-6 : 0, bias, sl); if (uf) cf.mReactantEfficiency = ef.data(); if (ug) cf.mReagentEfficiency = eg.data(); try { xh->initialize(cf, GunnsFluidHotReactorInputData(mf, mv, tot.data(), wall), g.links, p0, p1); } catch (...) { cf.mReactantEfficiency = 0; cf.mReagentEfficiency = 0; throw; } cf.mReactantEfficiency = 0; cf.mReagentEfficiency = 0; }
        else { x = xc = g.add(new XRe<GunnsFluidReactor>); GunnsFluidReactorConfigData cf("x", &g.list, G, 0.0, &dr, rt.data(), nbr, &dc, bt.data(), nc, L, D, surf ? 1e-6 : 0); if (uf) cf.mReactantEfficiency = ef.data(); if (ug) cf.mReagentEfficiency = eg.data(); try { xc->initialize(cf, GunnsFluidReactorInputData(mf, mv, tot.data(), wall), g.links, p0, p1); } catch (...) { cf.mReactantEfficiency = 0; cf.mReagentEfficiency = 0; throw; } cf.mReactantEfficiency = 0; cf.mReagentEfficiency = 0; } }
    catch (const TsInitializationException& e) { threw = true; c.note = e.what(); }
    CHK(threw == (bad >= 0), "reactor-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "reactor-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(100 + bad); return; }
    auto total = [&](int i) { return hot ? xh->total(i) : xc->total(i); }; g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; double Tf = hot ? xh->Tf() : xc->Tf(); std::string nm; for (auto& v : rx) nm += mon::fmt("%d ", int(v.t)); c.note = mon::fmt("%s reactions %s", hot ? "hot" : "plain", nm.c_str()); auto ci = [&](CC::Type t) { return int(std::find(ct.begin(), ct.end(), t) - ct.begin()); };
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { g.disturb(r, dt, 0.01); if (r.p(0.15)) { mf = r.p(0.5); mv = r.p(0.5) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (r.p(0.15)) { wall = r.uni(200, 600); x->setWallTemperature(wall); } if (r.p(0.05) && surf) x->setThermalSurfaceArea(r.p(0.3) ? -1 : r.logu(1e-3, 1));
        if (g.fl(0)->getTemperature() < 200 || g.fl(1)->getTemperature() < 200 || g.fl(0)->getTemperature() > 900 || g.fl(1)->getTemperature() > 900) break;
        std::vector<double> T0(2), sol(nc), M(nc, 0.0), avail(nc); std::vector<std::vector<double> > w(2); for (int i = 0; i < 2; ++i) { T0[i] = g.fl(i)->getTemperature(); for (int k = 0; k < n; ++k) w[i].push_back(massOf(g.fl(i), k) / g.fl(i)->getMass()); } for (int i = 0; i < nc; ++i) sol[i] = total(i); const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; c.count("steps");
        const double q = x->getFlowRate(); const int up = q >= 0 ? p0 : p1; const bool on = std::fabs(q) > 1.2e-7; if (!on && std::fabs(q) > 1.1e-7) break; double H = 0; const double heat = hot ? xh->heat() : xc->heat();
        if (mf && mv == 1) CHK(std::fabs(q) < 1e-12, "reactor-blocked", "flow through a fully blocked reactor");
        if (on) { for (int i = 0; i < nc; ++i) { const int k = ix(ct[i]); avail[i] = k < 0 ? sol[i] : w[up][k] * std::fabs(q) * dt; }
            for (int k = 0; k < nr; ++k) { const int a = ci(rx[k].a), b = ci(rx[k].b), p = ci(rx[k].p), p2 = rx[k].q == CC::NO_COMPOUND ? -1 : ci(rx[k].q); double e = hot ? std::min(1.0, std::max(0.0, bias + sl * Tf)) : uf && ef[k] > 0 ? ef[k] : rx[k].eff; if (ug && eg[k] > 0) e *= eg[k] * avail[b]; const double wa = rx[k].na * cm(rx[k].a).mw, wb = rx[k].nb * cm(rx[k].b).mw, extent = std::min(avail[b] * 0.9999 / wb, avail[a] * std::min(0.9999, e) / wa);
                for (auto z : { std::make_pair(a, -wa), std::make_pair(b, -wb), std::make_pair(p, rx[k].np * cm(rx[k].p).mw) }) { M[z.first] += z.second * extent; avail[z.first] += z.second * extent; } for (int z : { a, b }) if (avail[z] < DBL_EPSILON) avail[z] = 0; if (p2 >= 0) { M[p2] += rx[k].nq * cm(rx[k].q).mw * extent; avail[p2] += rx[k].nq * cm(rx[k].q).mw * extent; } H += rx[k].heat * 1e6 * extent; } }
        double sum = 0, gas = 0; std::vector<double> ds(n, 0.0), dtc(nt, 0.0); for (int i = 0; i < nc; ++i) { const int k = ix(ct[i]); if (k >= 0) { ds[k] += M[i]; gas += M[i]; } sum += M[i]; if (k < 0) NEAR(total(i), sol[i] + M[i], 1e-9, 1e-14, "reactor-solid", mon::fmt("mass of solid compound %d", int(ct[i]))); }
        // what the flow loses the solids gain (the compounds' molecular weights balance to a few 1e-6)
        double solid = 0, mag = 0; for (int i = 0; i < nc; ++i) { if (ix(ct[i]) < 0) solid += total(i) - sol[i]; mag += std::fabs(M[i]); } NEAR(B.m + solid, A.m, 1e-9, g.eps(dt) + 1e-5 * mag + 1e-12, "reactor-mass-balance", "mass of network and solids together");
        if (on) NEAR(heat, H, 1e-7, 1e-9, "reactor-heat", "heat of reaction"); else H = 0; const double wf = on ? (hot ? xh->wall() : xc->wall()) : 0, T = hot ? xh->Tf() : xc->Tf(); Tf = T;
        if (on && surf && (hot ? xh->area() : xc->area()) > 1e-9) { const double Tin = T0[up] + 0; (void)Tin; } c.note = mon::fmt("%s reactions %s flow %.3g T %.5g -> %.5g heat %.4g wall %.4g gas %.3g", hot ? "hot" : "plain", nm.c_str(), q, T0[up], T, H, wf * dt, gas); if (T < 170 || T > 1200) { c.count("unphysical_temperature"); break; } judge(c, g, "reactor", A, B, dt, ds, dtc, H - wf * dt + hOf(g, ds, T), 1e-6 * std::fabs(H) + 1e-6 * mag * 1e6);
        if (!on) for (int i = 0; i < 2; ++i) CHK(x->getSourceVector()[i] == 0, "reactor-idle-source", mon::fmt("a reactor without flow adds %g mol/s to its node %d", x->getSourceVector()[i], i));
        double ex = 0; for (int i = 0; i < nc; ++i) ex += std::fabs(M[i]); c.hit(200 + mon::mix(on + 2 * (q > 0) + 4 * (ex > 0) + 8 * hot + 16 * mf + 32 * surf, int(rx[0].t) + 8 * nr)); }
}

namespace { struct XRx : GunnsFluidSimpleH2Redox { bool& trip() { return mTrippedOff; } };
struct XSu : GunnsFluidSublimator { double cond() const { return mThermalConductivity; } double rh() const { return mVentRelativeHumidity; } double G() const { return mSystemConductance; } }; }
MON_PROP2(F17, redox, "hydrogen/oxygen stack: fuel cell and electrolyzer, trips, blockage") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> ft{FP::GUNNS_H2, FP::GUNNS_O2, FP::GUNNS_H2O}; if (r.p(0.5)) ft.push_back(FP::GUNNS_N2); r.shuffle(ft); const int bad = r.p(0.1) ? r.i(0, 4) : -1; if (bad == 0) { ft.erase(ft.begin() + r.i(0, 1)); } if (bad == 0) { bool h = false, o = false, w = false; for (auto t : ft) { h |= t == FP::GUNNS_H2; o |= t == FP::GUNNS_O2; w |= t == FP::GUNNS_H2O; } if (h && o && w) return; }
    Rig g(r, 2, ft, r.p(0.4) ? r.i(1, 3) : 0, false, false, 0.2, 20); const int n = g.mix.n(), nt = g.mix.nTc(); for (auto& s : g.init) { s.T = r.uni(290, 400); s.P = r.p(0.1) ? r.logu(1e-3, 1) : r.uni(20, 400); } auto ix = [&](FP::FluidType t) { return int(std::find(ft.begin(), ft.end(), t) - ft.begin()); };
    if (r.p(0.3)) { State& s = g.init[r.i(0, 1)]; const int k = r.i(0, n - 1); const double v = r.p(0.3) ? 0 : r.logu(1e-6, 1e-3), rest = 1 - s.x[k]; if (rest > 1e-6) { for (int j = 0; j < n; ++j) if (j != k) s.x[j] *= (1 - v) / rest; s.x[k] = v; } } g.make(r);
    const int cells = bad == 1 ? 0 : r.i(1, 100); const double V = bad == 2 ? 0 : r.uni(0.3, 2), k = bad == 3 ? 0 : 1.04473e-8 * r.logu(0.5, 2), eff = bad == 4 ? (r.p(0.5) ? 0 : 1.01) : r.p(0.2) ? 1 : r.uni(0.2, 1); double I = r.p(0.15) ? 0 : r.sgn() * r.logu(0.01, 200); bool mf = r.p(0.15); double mv = r.u();
    XRx* x = g.add(new XRx); bool threw = false; GunnsFluidSimpleH2RedoxConfigData cf("x", &g.list, cells, V, k, eff); try { x->initialize(cf, GunnsFluidSimpleH2RedoxInputData(mf, mv, I, false), g.links, 0, 1); } catch (const TsInitializationException&) { threw = true; } CHK(threw == (bad >= 0), "redox-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "redox-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(300 + bad); return; }
    g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; bool trip = false; const double mh = g.fl(0)->getProperties(FP::GUNNS_H2)->getMWeight(), mo = g.fl(0)->getProperties(FP::GUNNS_O2)->getMWeight(), mw = g.fl(0)->getProperties(FP::GUNNS_H2O)->getMWeight(); const int ih = ix(FP::GUNNS_H2), io = ix(FP::GUNNS_O2), iw = ix(FP::GUNNS_H2O);
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { if (r.p(0.2)) { I = r.p(0.15) ? 0 : r.sgn() * r.logu(0.01, 200); x->setCurrent(I); } if (r.p(0.15)) { mf = r.p(0.5); mv = r.p(0.2) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (r.p(0.1)) { x->trip() = trip = false; }
        double pp[3] = { g.fl(0)->getMoleFraction(FP::GUNNS_H2) * g.P(0), g.fl(1)->getMoleFraction(FP::GUNNS_O2) * g.P(1), g.fl(0)->getMoleFraction(FP::GUNNS_H2O) * g.P(0) }; bool edge = false; for (double p : pp) if (std::fabs(p - 0.001) < 1e-7) edge = true; if (edge) break; if (I > 0 ? pp[0] < 0.001 || pp[1] < 0.001 : pp[2] < 0.001) trip = true;
        const double e = std::max(2.220446049250313e-16, eff * (mf ? 1 - mv : 1)); double h = -I * k * cells; if (I > 0) h /= e; else h *= e; if (trip || std::fabs(h) < 2.2e-14) h = 0; const double moles = h / mh; std::vector<double> d0(n, 0.0), d1(n, 0.0); d0[ih] += h * dt; d1[io] += 0.5 * moles * mo * dt; d0[iw] -= moles * mw * dt;
        const double T0 = g.fl(0)->getTemperature(), T1 = g.fl(1)->getTemperature(); bool big = false; for (int i = 0; i < n; ++i) if (-d0[i] > 0.3 * massOf(g.fl(0), i) || -d1[i] > 0.3 * massOf(g.fl(1), i)) big = true; if (big || std::fabs(h) * dt * 10 > 0.3 * g.fl(0)->getMass() || T0 < 200 || T0 > 900) { c.count("too_large"); break; }
        const Rig::Ledger A = g.ledger(); double o0 = massOf(g.fl(1), io); g.net.step(dt); const Rig::Ledger B = g.ledger(); c.count("steps"); CHK(x->trip() == trip, "redox-trip", mon::fmt("tripped %d, partial pressures %g %g %g current %g", x->trip(), pp[0], pp[1], pp[2], I)); NEAR(x->getH2MassRate(), h, 1e-9, 1e-20, "redox-rate", "hydrogen rate"); NEAR(x->getO2MassRate(), 0.5 * moles * mo, 1e-9, 1e-20, "redox-rate", "oxygen rate"); NEAR(x->getH2OMassRate(), -moles * mw, 1e-9, 1e-20, "redox-rate", "water rate"); NEAR(x->getH2MassRate() + x->getO2MassRate() + x->getH2OMassRate(), 0, 0, 2e-4 * std::fabs(h), "redox-balance", "hydrogen, oxygen and water masses balance");
        NEAR(x->getOutputStackVoltage(), trip ? 0 : V * cells, 1e-12, 0, "redox-voltage", "stack voltage"); CHK(h == 0 ? x->getOutputHeat() == 0 : (x->getOutputHeat() > 0) == (I > 0), "redox-heat", mon::fmt("heat %g at current %g", x->getOutputHeat(), I)); std::vector<double> ds(n), dtc(nt, 0.0); for (int i = 0; i < n; ++i) ds[i] = d0[i] + d1[i]; judge(c, g, "redox", A, B, dt, ds, dtc, hOf(g, d0, T0) + hOf(g, d1, T1)); NEAR(massOf(g.fl(1), io), o0 + d1[io], 1e-9, g.eps(dt), "redox-port", "oxygen is taken from port 1 only");
        c.hit(310 + mon::mix((I > 0) - (I < 0) + 4 * trip, mf + 2 * (nt > 0) + 4 * (h != 0))); }
}
MON_PROP2(F17, sublimator, "sublimator: feed, vent, ice, conductivity, blockage, feed bias") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> ft{FP::GUNNS_WATER, FP::GUNNS_H2O, FP::GUNNS_N2}; r.shuffle(ft); auto ix = [&](FP::FluidType t) { return int(std::find(ft.begin(), ft.end(), t) - ft.begin()); }; const int il = ix(FP::GUNNS_WATER), iw = ix(FP::GUNNS_H2O), in = ix(FP::GUNNS_N2); Rig g(r, 2, ft, 0, false, false, 0.2, 20); const bool gnd = r.p(0.3);
    for (int i = 0; i < 3; ++i) { State& s = g.init[i]; for (auto& v : s.x) v = 0; if (i == 0) { s.x[il] = 1; s.T = r.uni(278, 340); s.P = r.uni(5, 200); } else { s.x[iw] = r.p(0.2) ? 0 : r.u(); s.x[in] = 1 - s.x[iw]; s.T = r.uni(265, 330); s.P = r.p(0.5) ? r.logu(0.001, 1) : r.p(0.2) ? r.uni(5, 200) : r.uni(0.5, 5); } } g.vol[0] = r.logu(0.01, 1); g.vol[1] = r.logu(1, 2000); g.nodeInit = true; g.make(r);
    const double hv = r.uni(2200, 2600), hf = r.uni(300, 360), Tt = r.uni(272, 274), maxIce = r.logu(0.01, 1), maxK = r.logu(1, 300), cov = r.u(), kp = r.logu(1e-9, 1e-5), gain = r.u(); const double ice0 = r.p(0.3) ? 0 : r.u() * maxIce; const int bad = r.p(0.08) ? r.i(0, 4) : -1; bool mf = r.p(0.15), bf = r.p(0.1); double mv = r.p(0.2) ? 1 : r.u(), bv = r.uni(-1e-4, 1e-4);
    XSu* x = g.add(new XSu); bool threw = false; const int p1 = gnd ? g.ground() : 1; try { x->initialize(GunnsFluidSublimatorConfigData("x", &g.list, bad == 0 ? FP::GUNNS_NH3 : FP::GUNNS_H2O, bad == 1 ? hf * 0.9 : hv, bad == 2 ? 0 : hf, Tt, maxIce, bad == 3 ? 1.1 : cov, maxK, kp, gain), GunnsFluidSublimatorInputData(bad == 4 ? -1 : ice0, r.uni(260, 300)), g.links, 0, p1); } catch (const TsInitializationException& e) { threw = true; c.note = e.what(); } CHK(threw == (bad >= 0), "sublimator-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "sublimator-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(400 + bad); return; }
    x->setMalfBlockage(mf, mv); g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; double Q = 0, prevK = x->cond(); const int n = g.mix.n();
    for (int t = 0; t < r.i(3, 30) && !c.failed(); ++t) { if (r.p(0.4)) { Q = r.p(0.2) ? 0 : r.sgn() * r.logu(0.1, 2000); x->setHeatBalance(Q); } if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.2) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } if (r.p(0.1)) { bf = r.p(0.5); bv = r.uni(-1e-4, 1e-4); x->setMalfFeedRateBias(bf, bv); }
        const double P0 = g.P(0), P1 = gnd ? 0 : g.P(1), ice = x->getIceMass(), Tl = g.fl(0)->getTemperature(); const double m0 = g.fl(0)->getMass(), m1 = g.fl(1)->getMass(); g.net.step(dt); c.count("steps"); const double rh = x->rh(), hs = (hv + hf) * 1000, ifl = x->getFlowRate(), maxEff = maxIce * (mf ? 1 - mv : 1); (void)P1;
        const double vent = rh < 1 && ice > 0 ? std::max(0.0, -Q / hs) : 0; const double fed = ifl > 2.3e-14 ? ifl : 0, e = g.eps(dt); NEAR(g.fl(0)->getMass(), m0 - fed * dt, 1e-11, e, "sublimator-feed", mon::fmt("liquid mass with feed flow %g", ifl)); if (!gnd) NEAR(g.fl(1)->getMass(), m1 + (vent > 2.3e-14 ? vent : 0) * dt, 1e-9, e, "sublimator-vent", mon::fmt("gas mass with vent flow %g (heat balance %g ice %g humidity %g)", vent, Q, ice, rh)); if (!gnd) for (int k = 0; k < n; ++k) if (k == il) CHK(massOf(g.fl(1), k) <= 1e-9 * m1, "sublimator-liquid", "no liquid in the vent");
        NEAR(g.fl(0)->getTemperature(), Tl, 1e-6, 1e-4, "sublimator-temperature", "feed does not change the liquid's temperature"); const double now = x->getIceMass(); CHK(now >= 0 && now <= maxEff * (1 + 1e-12), "sublimator-ice-range", mon::fmt("ice %g of at most %g", now, maxEff)); CHK(x->cond() >= 0 && x->cond() <= maxK * (1 + 1e-12), "sublimator-conductivity", mon::fmt("conductivity %g of at most %g", x->cond(), maxK));
        double kT = maxK * (1 - rh) * now / maxIce; NEAR(x->cond(), std::max(0.0, (1 - gain) * prevK + gain * kT), 1e-9, 1e-15, "sublimator-filter", "conductivity follows ice and humidity"); prevK = x->cond(); if (P0 - P1 < 0.1 - 1e-9) { CHK(ifl < 1e-9, "sublimator-no-feed", mon::fmt("feed %g with pressure difference %g", ifl, P0 - P1)); if (Q >= 0 && rh < 1) NEAR(now, std::min(ice, maxEff), 1e-12, 1e-18, "sublimator-ice-still", "ice without feed or heat demand"); if (Q < 0 && ice > 0) CHK(now <= ice, "sublimator-ice-shrinks", "ice sublimates without feed"); } if (P0 - P1 < -1 && !gnd) CHK(ifl <= 1e-13, "sublimator-backflow", "no flow back into the feed");
        c.hit(410 + mon::mix((Q > 0) - (Q < 0) + 4 * (fed > 1e-9), (vent > 0) + 2 * mf + 4 * (now >= maxEff) + 8 * (now == 0) + 16 * (rh >= 1))); if (fed * dt > 0.3 * m0 || vent * dt > 0.5 * m1) break; }
}

namespace {
typedef SorbantProperties SP;
double massf(const std::vector<double>& f) { double s = 0; for (double v : f) s += v; return s; }
struct XBed : GunnsFluidSorptionBed, rst::Keep { std::vector<double*> kept() override { std::vector<double*> v; for (unsigned i = 0; i < mNSegments; ++i) for (unsigned j = 0; j < mSegments[i].getNSorbates(); ++j) { v.push_back(&mSegments[i].mSorbates[j].mLoadingFraction); v.push_back(&mSegments[i].mSorbates[j].mLoadedMass); } return v; }
     double T = 0, mw = 0, rho = 0, h = 0; std::vector<double> x, tc;   // state of the source fluid when the bed moves it
    void transportFlows(const double dt) { PolyFluid* f = mNodes[mFlux < 0]->getOutflow(); T = f->getTemperature(); h = f->getSpecificEnthalpy(); mw = f->getMWeight(); rho = f->getDensity(); x.clear(); tc.clear(); for (int k = 0; k < f->getNConstituents(); ++k) x.push_back(f->getMoleFraction(k)); if (f->getTraceCompounds()) for (int k = 0; k < f->getTraceCompounds()->getConfig()->mNTypes; ++k) tc.push_back(f->getTraceCompounds()->getMoleFractions()[k]); GunnsFluidSorptionBed::transportFlows(dt); } };
struct Sb { CC::Type t; double A0, B0, E, T0, C0, dh, km; std::vector<std::pair<CC::Type, double> > block, off; };
double toth(const Sb& s, double pp, double T) { if (s.E == 0 || pp < 1.1920929e-7) return 0; const double x = std::exp(std::min(100.0, std::max(0.0, s.E / T))), a = s.A0 * x, b = s.B0 * x; double t = std::min(100.0, std::max(-100.0, s.T0 + s.C0 / T)); if (std::fabs(t) < 0.1) t = t < 0 ? -0.1 : 0.1; return a * pp / std::max(DBL_EPSILON, std::pow(1 + std::pow(b * pp, t), 1 / t)); }
// documented isotherm data of the library's sorbants
struct Ds { SP::Type t; double por; std::vector<Sb> s; };
const Sb sgW = { CC::H2O, 176.7, 2.787e-5, 1093, -1.19e-3, 22.13, -50.2, 0.002, {}, {} }, sgC = { CC::CO2, 7.678e-6, 5.164e-7, 2330, -0.3053, 238.6, -40, 0.011375, { { CC::H2O, 1 } }, {} }, z5W = { CC::H2O, 1.106e-8, 4.714e-10, 9955, 0.3548, -51.14, -45, 0.007, {}, {} }, z5C = { CC::CO2, 9.875e-7, 6.761e-8, 5625, 0.27, -20.02, -38, 0.003, { { CC::H2O, 1 } }, {} }, z13W = { CC::H2O, 3.634e-6, 2.408e-7, 6852, 0.3974, -4.199, -55, 0.007, {}, {} }, z13C = { CC::CO2, 6.509e-3, 4.884e-4, 2991, 0.07487, 38.1, -40, 0.00325, { { CC::H2O, 1 } }, {} };
std::vector<Ds> DS() { Sb w = sgW; w.km = 0.00125; return { { SP::SILICA_GEL_B125, 0.348, { sgW, sgC } }, { SP::SILICA_GEL_40, 0.415, { w, sgC } }, { SP::ZEO_5A_RK38, 0.445, { z5W, z5C } }, { SP::ZEO_5A_522, 0.331, { z5W, z5C } }, { SP::ZEO_13X_544, 0.457, { z13W, z13C } } }; }
}
MON_PROP2(F17, bed, "sorption bed: segments, library and custom sorbants, blocking, offgassing, both directions, trace compounds, degradation") {
    mon::Rng& r = c.r; std::vector<FP::FluidType> ft; for (auto f : { FP::GUNNS_H2O, FP::GUNNS_CO2, FP::GUNNS_NH3, FP::GUNNS_O2, FP::GUNNS_CH4, FP::GUNNS_H2 }) if (r.p(0.4)) ft.push_back(f); if (r.p(0.7) || ft.empty()) ft.push_back(FP::GUNNS_N2); if (r.p(0.2)) ft.push_back(FP::GUNNS_HE); r.shuffle(ft);
    Mix::overlap() = r.p(0.3); Rig g(r, 2, ft, r.p(0.5) ? r.i(1, 4) : 0, false, r.p(0.5), 0.05, 20); Mix::overlap() = false; const int n = g.mix.n(), nt = g.mix.nTc(); for (auto& s : g.init) { s.T = r.uni(285, 450); s.P = r.p(0.2) ? r.uni(1, 20) : r.uni(20, 300); } g.make(r); DefinedChemicalCompounds dc; auto fi = [&](CC::Type t) { const FP::FluidType f = dc.getCompound(t)->mFluidType; for (int k = 0; k < n; ++k) if (ft[k] == f) return k; return -1; }; auto ti = [&](CC::Type t) { for (int k = 0; k < nt; ++k) if (g.mix.tcTypes[k] == t) return k; return -1; };
    const double G = r.logu(1e-6, 1e-2); GunnsFluidSorptionBedConfigData cf("x", &g.list, G); const int ns = r.i(1, 4); std::vector<std::vector<Sb> > sb(ns); std::vector<double> V(ns), htc(ns), vs(ns); const bool offgas = r.p(0.25);
    std::vector<CC::Type> avail; for (int i = 0; i < 20; ++i) if (fi(CC::Type(i)) >= 0 || ti(CC::Type(i)) >= 0) avail.push_back(CC::Type(i)); if (avail.empty()) return; double vt = 0;
    for (int s = 0; s < ns; ++s) { V[s] = r.logu(1e-5, 0.02); htc[s] = r.logu(0.01, 200); double por;
        if (r.p(0.3)) { const std::vector<Ds> ds = DS(); const Ds& d = ds[r.i(0, 4)]; cf.addSegment(d.t, V[s], htc[s]); por = d.por; for (auto& q : d.s) if (fi(q.t) >= 0 || ti(q.t) >= 0) sb[s].push_back(q); }
        else { por = r.p(0.1) ? 0 : r.u() * 0.9; SP* p = cf.addCustomSorbant(r.uni(100, 3000), por, r.uni(300, 2000)); std::vector<CC::Type> ts = avail; r.shuffle(ts); ts.resize(r.i(0, int(std::min<size_t>(4, ts.size()))));
            for (auto t : ts) { Sb q; q.t = t; q.E = r.p(0.05) ? 0 : r.uni(300, 6000); q.A0 = r.logu(1e-4, 30) / std::exp(q.E / 300); q.B0 = r.logu(1e-4, 10) / std::exp(q.E / 300); q.T0 = r.uni(-0.5, 1); q.C0 = r.uni(-50, 100); q.dh = r.uni(-60, 10); q.km = r.logu(1e-4, 0.5); std::vector<SorbateInteractingCompounds> bl, of; SorbateInteractingCompounds z;
                for (auto u : avail) if (u != t && r.p(0.2)) { z.mCompound = u; z.mInteraction = r.uni(-1.2, 1.2); bl.push_back(z); q.block.push_back(std::make_pair(u, z.mInteraction)); } if (offgas) for (auto u : avail) if (u != t && r.p(0.2)) { z.mCompound = u; z.mInteraction = r.uni(0, 1); of.push_back(z); q.off.push_back(std::make_pair(u, z.mInteraction)); }
                p->addSorbate(t, bl.empty() ? 0 : &bl, of.empty() ? 0 : &of, q.A0, q.B0, q.E, q.T0, q.C0, q.dh, q.km); sb[s].push_back(q); } cf.addSegment(p, V[s], htc[s]); }
        vs[s] = V[s] * (1 - por); vt += V[s]; }
    bool mf = r.p(0.1); double mv = r.p(0.3) ? 1 : r.u(); const double wall = r.uni(285, 450); GunnsFluidSorptionBedInputData in(mf, mv, wall); std::vector<std::vector<double> > L(ns); for (int s = 0; s < ns; ++s) for (auto& q : sb[s]) { const double v = r.p(0.3) ? 0 : r.logu(1e-6, 3); if (v > 0) in.addSegmentSorbateLoading(s, q.t, v); L[s].push_back(v); }
    const int bad = r.p(0.06) ? r.i(0, 5) : -1; if (bad == 0) in.mWallTemperature = -1; if (bad == 1) in.addSegmentSorbateLoading(ns, CC::H2O, 1); if (bad == 2) in.addSegmentSorbateLoading(0, CC::H2O, -1); if (bad == 3) cf.mSegments[0].mVolume = 0; if (bad == 4) cf.mSegments[ns - 1].mHtc = 0; if (bad == 5) cf.mSegments[0].mProperties = 0;
    XBed* x = g.add(new XBed); const int p0 = r.p(0.15) ? g.ground() : r.i(0, 1), p1 = p0 < 2 ? (r.p(0.1) ? g.ground() : 1 - p0) : r.i(0, 1); bool threw = false; try { x->initialize(cf, in, g.links, p0, p1); } catch (const TsInitializationException& e) { threw = true; c.note = e.what(); } CHK(threw == (bad >= 0), "bed-refuse", mon::fmt("bad configuration %d %s", bad, threw ? "refused" : "accepted")); CHK(x->isInitialized() == !threw, "bed-flag", "initialization flag"); if (threw || bad >= 0) { c.hit(600 + bad); return; }
    for (int s = 0; s < ns; ++s) CHK(x->mSegments[s].getNSorbates() == sb[s].size(), "bed-sorbates", mon::fmt("segment %d has %d sorbates, %d of its sorbant's are in the network", s, int(x->mSegments[s].getNSorbates()), int(sb[s].size()))); if (c.failed()) return;
    g.start(); const double dt = r.p(0.3) ? r.logu(0.02, 1) : 0.1; std::vector<double> deg(ns, 0.0), Tw(ns, wall); std::vector<std::vector<double> > F(ns), me(ns); for (int s = 0; s < ns; ++s) { F[s].assign(sb[s].size(), 0.0); me[s].assign(sb[s].size(), -1); }
    c.note = mon::fmt("%d segments, %d fluids %d tc%s", ns, n, nt, offgas ? " offgas" : "");
    for (int t = 0; t < r.i(3, 25) && !c.failed(); ++t) { g.disturb(r, dt, 0.01); if (r.p(0.1)) { mf = r.p(0.5); mv = r.p(0.5) ? 1 : r.u(); x->setMalfBlockage(mf, mv); } for (int s = 0; s < ns; ++s) { if (r.p(0.1)) { Tw[s] = r.uni(285, 450); x->mSegments[s].mTemperature = Tw[s]; } if (r.p(0.03)) { const bool f = r.p(0.6); const double v = r.uni(-0.1, 1.2); x->mSegments[s].setMalfDegrade(f, v); deg[s] = f ? v : 0; } for (size_t j = 0; j < sb[s].size(); ++j) if (r.p(0.05)) { me[s][j] = r.p(0.5) ? r.uni(-0.1, 2) : -1; x->mSegments[s].mSorbates[j].mMalfLoadingEquilFlag = me[s][j] != -1; x->mSegments[s].mSorbates[j].mMalfLoadingEquilValue = me[s][j]; } }
        double Pq[3]; const Rig::Ledger A = g.ledger(); g.net.step(dt); const Rig::Ledger B = g.ledger(); if (g.over(c, A, dt)) break; { const int uu = x->getFlux() >= 0 ? p0 : p1; if (uu < 2 && std::fabs(x->getFlux()) * dt > 0.5 * A.mol[uu]) { c.count("drained"); break; } } c.count("steps"); for (int i = 0; i < 3; ++i) Pq[i] = i < 2 ? g.P(i) : 0; const double fx = x->getFlux(); const int up = fx >= 0 ? p0 : p1, dn = fx >= 0 ? p1 : p0; const bool gu = up == g.ground(), gd = dn == g.ground(); if (x->x.empty() || (x->rho > DBL_EPSILON && (x->T < 270 || x->T > 480))) break;
        if (mf && mv == 1) CHK(std::fabs(fx) < 1e-12, "bed-blocked", mon::fmt("flow %g through a fully blocked bed", fx)); NEAR(x->getFlowRate(), fx * x->mw, 1e-12, 1e-18, "bed-flow", "flow rate of the source fluid");
        if (x->rho <= DBL_EPSILON) { double any = 0; for (int s = 0; s < ns; ++s) { any += std::fabs(x->mSegments[s].mHeatFlux); for (size_t j = 0; j < sb[s].size(); ++j) { any += std::fabs(x->mSegments[s].mSorbates[j].mAdsorptionRate) + std::fabs(x->mSegments[s].mSorbates[j].mLoadingRate); CHK(x->mSegments[s].mSorbates[j].mLoading == L[s][j], "bed-idle-loading", "loading changes without fluid"); } } CHK(any == 0, "bed-idle", mon::fmt("a bed at an empty source has rates or heat (%g)", any)); judge(c, g, "bed", A, B, dt, std::vector<double>(n, 0.0), std::vector<double>(nt, 0.0), 0); c.hit(690); continue; }
        // reference: moles of every compound walk through the segments in flow order
        std::vector<double> b(n), q(nt); double flow = 0; for (int k = 0; k < n; ++k) b[k] = std::fabs(fx) * x->x[k]; for (int k = 0; k < nt; ++k) q[k] = std::fabs(fx) * x->tc[k]; for (int k = 0; k < n; ++k) flow += b[k]; const std::vector<double> b0 = b, q0 = q; double T = x->T, p = Pq[gu ? 2 : up], Q = 0, Hs = 0, mag = 0, md = 0; const double dp = std::fabs(Pq[gd ? 2 : dn] - Pq[gu ? 2 : up]); bool edge = false; std::vector<double> dL(n, 0.0); int act = 0;
        for (int z = 0; z < ns && !edge; ++z) { const int s = fx >= 0 ? z : ns - 1 - z; GunnsFluidSorptionBedSegment& S = x->mSegments[s]; double N = 0, m = 0; for (int k = 0; k < n; ++k) { N += b[k]; m += b[k] * g.fl(0)->getProperties(ft[k])->getMWeight(); }
            double h = S.mHeatFlux; for (size_t j = 0; j < sb[s].size(); ++j) h += S.mSorbates[j].mAdsorptionRate * sb[s][j].dh * 1e6; double lim = 0; for (size_t j = 0; j < sb[s].size(); ++j) lim += std::fabs(S.mSorbates[j].mAdsorptionRate * sb[s][j].dh * 1e6); const double ht = 1e-9 * lim + 1e-12; if (m < 1e-14) CHK(std::fabs(h) <= ht + 1e-6, "bed-heat-idle", mon::fmt("convective heat %g without flow", h)); else if (std::fabs(h) > ht) CHK((h > 0) == (T > Tw[s]) || std::fabs(T - Tw[s]) < 0.02, "bed-heat-sign", mon::fmt("convective heat %g from fluid at %g to sorbant at %g", h, T, Tw[s])); Q += h;
            // outlet temperature of the segment from its heat: enthalpy balance of the stream
            double To = T; if (m > 1e-14) { std::vector<double> f(n); double mc = 0; for (int k = 0; k < n; ++k) { f[k] = b[k] * g.fl(0)->getProperties(ft[k])->getMWeight(); mc += f[k] * g.fl(0)->getProperties(ft[k])->getSpecificHeat(T); } To = Tw[s] + (T - Tw[s]) * std::exp(-std::min(htc[s], 100 * mc) / mc); const double hi = z == 0 ? x->h * m : hOf(g, f, T), ho = hOf(g, f, To); NEAR(h, hi - ho, 1e-3, 1e-5 * mc * 300 + ht, "bed-heat", mon::fmt("heat from the stream in segment %d: %g -> %g K, sorbant %g", s, T, To, Tw[s])); }
            const double Ta = (T + To) / 2, pn = p - (dp / vt) * V[s]; const std::vector<double> bi = b, qi = q; std::vector<double> fracs(sb[s].size()); const double ve = vs[s] * std::min(1.0, std::max(0.0, 1 - deg[s]));
            for (size_t j = 0; j < sb[s].size(); ++j) { const Sb& w = sb[s][j]; GunnsFluidSorptionBedSorbate& O = S.mSorbates[j]; const int k = fi(w.t), u = ti(w.t); const double inb = k >= 0 ? bi[k] : 0, inq = u >= 0 && N > 1e-16 ? qi[u] : 0, nin = inb + inq, MW = dc.getCompound(w.t)->mMWeight; const double xf = N > 0 ? nin / N : -1;
                if (N > 1e-16) { double eq = toth(w, p * xf, Ta); for (auto& y : w.block) { int jj = -1; for (size_t o = 0; o < sb[s].size(); ++o) if (sb[s][o].t == y.first) jj = int(o); if (jj < 0) continue; const double lf = F[s][jj]; const double i2 = y.second >= 0 ? y.second * lf : y.second * (lf - 1); eq *= 1 - std::min(1.0, std::max(0.0, i2)); } if (me[s][j] != -1) eq *= std::max(0.0, me[s][j]); const double pp = p * xf, tolE = 5e-4 + (pp < 2e-7 ? 1 : 0); NEAR(O.mLoadingEquil, eq, tolE, 1e-9, "bed-isotherm", mon::fmt("equilibrium loading of compound %d in segment %d at %.6g kPa %.6g K", int(w.t), s, p * xf, Ta)); }
                double rate = w.km * (O.mLoadingEquil - L[s][j]); const double want0 = rate; (void)want0; if (rate >= 0) rate = std::min(rate, 0.99 * nin / vs[s]); else { double dl = 1e300; if (k >= 0) dl = std::max(0.0, N * g.fl(0)->getProperties(ft[k])->getSaturationPressure(To) / std::max(DBL_EPSILON, pn) - nin); rate = std::max(std::max(-L[s][j] / dt, -dl / vs[s]), rate); }
                NEAR(O.mLoadingRate, rate, 1e-4, 1e-12 + 1e-7 * N / vs[s], "bed-rate", mon::fmt("loading rate of compound %d in segment %d (inflow %g loading %g equilibrium %g)", int(w.t), s, nin, L[s][j], O.mLoadingEquil)); const double ar = O.mLoadingRate * ve; NEAR(O.mAdsorptionRate, ar, 1e-12, 1e-300, "bed-adsorption", "adsorption rate of the effective sorbant"); L[s][j] = std::max(0.0, L[s][j] + O.mLoadingRate * dt); NEAR(O.mLoading, L[s][j], 1e-10, 1e-15, "bed-loading", mon::fmt("loading of compound %d in segment %d", int(w.t), s)); L[s][j] = O.mLoading; NEAR(O.mLoadedMass, O.mLoading * ve * MW, 1e-12, 1e-300, "bed-loaded-mass", "loaded mass"); F[s][j] = O.mLoadingFraction; NEAR(F[s][j], O.mLoading / std::max(DBL_EPSILON, O.mLoadingEquil), 1e-12, 0, "bed-fraction", "loading fraction");
                mag += std::fabs(ar) * MW * dt; if (std::fabs(ar) > 1e-15) act = 1; if (std::fabs(ar) > DBL_EPSILON) { if (ar > 0) { const double tk = std::min(ar, inq); if (u >= 0) q[u] -= tk; if (k >= 0) b[k] -= ar - tk; Hs += k >= 0 ? hOf(g, [&] { std::vector<double> v(n, 0.0); v[k] = -(ar - tk) * MW; return v; }(), To) : 0; } else { if (k >= 0) { b[k] -= ar; Hs += hOf(g, [&] { std::vector<double> v(n, 0.0); v[k] = -ar * MW; return v; }(), To); } else q[u] -= ar; } }
                if (ar > DBL_EPSILON) for (auto& y : w.off) { const int k2 = fi(y.first), u2 = ti(y.first); const double o = ar * y.second; if (o < DBL_EPSILON) continue; if (k2 >= 0) { b[k2] += o; Hs += hOf(g, [&] { std::vector<double> v(n, 0.0); v[k2] = o * g.fl(0)->getProperties(ft[k2])->getMWeight(); return v; }(), To); } else if (u2 >= 0) q[u2] += o; } }
            for (int k = 0; k < n; ++k) { if (b[k] < 0) { if (b[k] < -1e-3 * bi[k] - 1e-16) c.count("negative"); b[k] = std::max(0.0, b[k]); } } T = To; p = pn; (void)md; }
        std::vector<double> ds(n), dtc(nt); auto M = [&](int k) { return g.fl(0)->getProperties(ft[k])->getMWeight(); }; for (int k = 0; k < n; ++k) ds[k] = (gd ? 0 : b[k]) * M(k) * dt - (gu ? 0 : b0[k]) * M(k) * dt; for (int k = 0; k < nt; ++k) { const double w = g.fl(0)->getTraceCompounds()->getConfig()->mCompounds[k]->mMWeight; dtc[k] = ((gd ? 0 : q[k]) - (gu ? 0 : q0[k])) * w * dt; }
        for (int k = 0; k < n; ++k) { double lm = 0, rr = 0; for (int s = 0; s < ns; ++s) for (size_t j = 0; j < sb[s].size(); ++j) if (fi(sb[s][j].t) == k) { lm += x->mSegments[s].mSorbates[j].mLoadedMass; rr += x->mSegments[s].mSorbates[j].mAdsorptionRate; } NEAR(x->getAdsorbedFluidMass(ft[k]), lm, 1e-12, 1e-300, "bed-total-mass", "total adsorbed mass"); NEAR(x->getAdsorptionFluidRate(ft[k]), rr * M(k), 1e-12, 1e-22, "bed-total-rate", "total adsorption rate"); }
        for (int k = 0; k < nt; ++k) { double lm = 0; for (int s = 0; s < ns; ++s) for (size_t j = 0; j < sb[s].size(); ++j) if (ti(sb[s][j].t) == k && fi(sb[s][j].t) < 0) lm += x->mSegments[s].mSorbates[j].mLoadedMass; NEAR(x->getAdsorbedTcMass(g.mix.tcTypes[k]), lm, 1e-12, 1e-300, "bed-total-mass", "total adsorbed mass of a trace compound"); }
        double Hx = 0; { std::vector<double> f(n), f0(n); for (int k = 0; k < n; ++k) { f[k] = b[k] * M(k); f0[k] = b0[k] * M(k); } const double hi = x->h * massf(f0), ho = hi - Q + Hs; Hx = (gd ? 0 : ho) - (gu ? 0 : hi); }
        c.note = mon::fmt("%d segments %d fluids %d tc%s step %d flow %.3g T %.5g -> %.5g exchange %.3g kg", ns, n, nt, offgas ? " offgas" : "", t, fx, x->T, T, mag); judge(c, g, "bed", A, B, dt, ds, dtc, Hx * dt, 1e-6 * mag * 1e6 + 1e-6 * std::fabs(fx) * 1e8 * dt);
        c.hit(700 + mon::mix((fx > 0) - (fx < 0) + 4 * act + 8 * offgas + 16 * mf, ns + 8 * gu + 16 * gd + 32 * (nt > 0))); }
}
RESTART_PROP(react)
