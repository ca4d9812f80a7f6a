// Spotters (N03) and the flow controllers and external supply and demand pairs (N05).
#include "bnet.hpp"
#include "fnet.hpp"
#include "core/GunnsBasicFlowController.hh"
#include "core/GunnsFluidFlowController.hh"
#include "core/GunnsBasicExternalSupply.hh"
#include "core/GunnsBasicExternalDemand.hh"
#include "core/GunnsFluidExternalSupply.hh"
#include "core/GunnsFluidExternalDemand.hh"
#include "core/GunnsBasicIslandAnalyzer.hh"
#include "core/GunnsFluidIslandAnalyzer.hh"
#include "core/GunnsFluidFlowIntegrator.hh"
#include "core/GunnsFluidVolumeMonitor.hh"
#include "software/SimBus/SimBusQutils.hh"
#include "software/exceptions/TsInitializationException.hh"
using mon::fmt;

// ---------------------------------------------------------------------------------------------
// N03
// ---------------------------------------------------------------------------------------------
namespace {
struct BIA : GunnsBasicIslandAnalyzer { BIA(GunnsNodeList& l) : GunnsBasicIslandAnalyzer(l) {} double hi() { return mHiPotential; } double lo() { return mLoPotential; } int hiN() { return mHiPotentialNode; } int loN() { return mLoPotentialNode; } };
struct FIA : GunnsFluidIslandAnalyzer { FIA(GunnsNodeList& l) : GunnsFluidIslandAnalyzer(l) {}
    double hiP() { return mHiPressure; } double loP() { return mLoPressure; } int hiPn() { return mHiPressureNode; } int loPn() { return mLoPressureNode; }
    double hiT() { return mHiTemperature; } double loT() { return mLoTemperature; } int hiTn() { return mHiTemperatureNode; } int loTn() { return mLoTemperatureNode; } double E() { return mIslandEnergy; }
    double cm(int i) { return mIslandConstituentMass[i]; } double hiX(int i) { return mHiMoleFraction[i]; } double loX(int i) { return mLoMoleFraction[i]; } int hiXn(int i) { return mHiMoleFractionNode[i]; } int loXn(int i) { return mLoMoleFractionNode[i]; }
    double tm(int i) { return mIslandTcMass[i]; } double hiC(int i) { return mHiTcMoleFraction[i]; } double loC(int i) { return mLoTcMoleFraction[i]; } int hiCn(int i) { return mHiTcMoleFractionNode[i]; } int loCn(int i) { return mLoTcMoleFractionNode[i]; } };
struct FVM : GunnsFluidVolumeMonitor { FVM(const GunnsNodeList& l, const GunnsFluidLink& k) : GunnsFluidVolumeMonitor(l, k) {} void port(int p) { mLinkPort = p; } int port() { return mLinkPort; } double tc(int i) { return mNodeTcMoleFractions[i]; } };
template <class T> bool refused(T f) { try { f(); } catch (TsInitializationException&) { return true; } return false; }
}
MON_PROP2(N03, basic, "one step's island report checked against connectivity and node state") {
    mon::Rng& r = c.r; const int n = r.i(1, 12); std::vector<bnet::Spec> sp = bnet::randomSpecs(r, n, r.i(1, 2 * n + 4), 0.01, 100, true, r.p(0.6)); c.note = bnet::describe(sp, n);
    bnet::Net N(n, sp); const int mode = r.i(0, 2); N.net.setIslandMode(Gunns::IslandMode(mode));
    std::vector<std::unique_ptr<BIA> > an; GunnsBasicIslandAnalyzerConfigData cd("an"); GunnsBasicIslandAnalyzerInputData id; for (int i = 0; i < 3; ++i) { an.emplace_back(new BIA(N.list)); an.back()->initialize(&cd, &id); CHK(an.back()->getAttachedNode() == -1, "island-attach", "the analyzer is attached to a node before it is told to"); }
    { BIA bad(N.list); GunnsFluidFlowIntegratorConfigData w("x"); CHK(refused([&]() { bad.initialize(&w, &id); }), "spotter-config-type", "an analyzer accepted another spotter's config data"); }
    const int steps = r.i(1, 6); const double dt = 0.1;
    for (int t = 0; t < steps; ++t) {
        for (auto& a : an) if (t == 0 || r.p(0.3)) a->setAttachedNode(r.i(-2, n + 1));
        if (r.p(0.5)) N.setBlk(r.i(0, int(sp.size()) - 1), true, r.p(0.6) ? 1.0 : 0.0);
        for (auto& a : an) a->stepPreSolver(dt);
        if (!N.step(c, dt)) return;
        for (auto& a : an) a->stepPostSolver(dt);
        std::vector<int> comp; std::vector<bool> gr; N.islands(dt, comp, gr);
        for (auto& a : an) { const int at = a->getAttachedNode(); std::vector<int> want; if (at >= 0 && at < n && mode) for (int i = 0; i < n; ++i) if (comp[i] == comp[at]) want.push_back(i);
            CHK(a->getIslandSize() == int(want.size()), "island-size", fmt("attached to %d: island of %d nodes reported, connectivity says %d", at, a->getIslandSize(), int(want.size())));
            double nf = 0, hi = 0, lo = 0; for (size_t i = 0; i < want.size(); ++i) { nf += N.nodes[want[i]].getNetFlux(); const double p = N.P(want[i]); if (!i || p > hi) hi = p; if (!i || p < lo) lo = p; }
            for (int i = 0; i <= n; ++i) CHK(a->getIslandNodes()[i] == (std::find(want.begin(), want.end(), i) != want.end()), "island-nodes", fmt("node %d wrongly %s the island of node %d", i, a->getIslandNodes()[i] ? "in" : "out of", at));
            NEAR(a->getIslandNetFlux(), nf, 1e-9, 1e-9, "island-flux", "island net flux against its nodes");
            if (std::fabs(hi) > 1e14 || std::fabs(lo) > 1e14) continue; if (mode) CHK(a->hi() == hi && a->lo() == lo, "island-potential", fmt("island potentials %g..%g reported, nodes have %g..%g", a->lo(), a->hi(), lo, hi));
            if (want.empty()) CHK(a->hiN() == -1 && a->loN() == -1, "island-detached", "a detached analyzer names a node");
            else CHK(a->hiN() >= 0 && a->hiN() < n && N.P(a->hiN()) == hi && a->loN() >= 0 && a->loN() < n && N.P(a->loN()) == lo && comp[a->hiN()] == comp[at] && comp[a->loN()] == comp[at], "island-extreme-node", fmt("extreme nodes %d/%d do not hold the extreme potentials", a->hiN(), a->loN()));
            c.hit(mon::mix(c.caseSeed, t * 8 + want.size())); c.count("island_reports"); if (want.size() > 1) c.count("multi_node_islands"); } } }

MON_PROP2(N03, fluid, "one fluid step: island totals, node monitors and integrated flows checked against the contents of the nodes") {
    mon::Rng& r = c.r; fnet::Opt o; o.tanks = r.i(2, 5); o.pure = r.p(0.5) ? r.i(1, 3) : 0; o.extra = r.i(1, 6); o.nTypes = r.i(1, 4); o.nTc = r.p(0.4) ? r.i(1, 3) : 0; o.liquid = r.p(0.15); if (o.liquid) o.nTypes = 1; o.ground = r.p(0.2);
    fnet::Net N(r, o); N.start(); c.note = N.describe(); const int n = N.n, K = N.mix.n(), C = N.mix.nTc(); const int mode = r.i(0, 2); N.net.setIslandMode(Gunns::IslandMode(mode));
    FIA an(N.list); { GunnsFluidIslandAnalyzerConfigData cd("an"); GunnsFluidIslandAnalyzerInputData id; an.initialize(&cd, &id); }
    std::vector<std::unique_ptr<GunnsFluidFlowIntegrator> > fi; std::vector<std::unique_ptr<FVM> > vm; std::vector<int> vmLink;
    for (size_t i = 0; i < N.f.size(); ++i) { fi.emplace_back(new GunnsFluidFlowIntegrator(*N.fl(int(i)))); GunnsFluidFlowIntegratorConfigData cd("fi"); GunnsFluidFlowIntegratorInputData id; fi.back()->initialize(&cd, &id); for (int k = 0; k < K; ++k) CHK(fi.back()->getIntegratedMass(k) == 0.0, "integrator-start", "a new integrator is not at zero"); }
    for (int j = 0; j < 4; ++j) { vmLink.push_back(r.i(0, int(N.f.size()) - 1)); vm.emplace_back(new FVM(N.list, *N.fl(vmLink.back()))); GunnsFluidVolumeMonitorConfigData cd("vm"); GunnsFluidVolumeMonitorInputData id(r.i(-1, 2)); vm.back()->initialize(&cd, &id); }
    { FIA bad(N.list); GunnsFluidFlowIntegratorConfigData w("x"); GunnsFluidFlowIntegratorInputData id; CHK(refused([&]() { bad.initialize(&w, &id); }), "spotter-config-type", "an analyzer accepted another spotter's config data");
      GunnsFluidFlowIntegrator b2(*N.fl(0)); GunnsFluidVolumeMonitorConfigData w2("x"); CHK(refused([&]() { b2.initialize(&w2, &id); }), "spotter-config-type", "an integrator accepted another spotter's config data"); }
    auto monitor = [&](int j) { const int* map = N.fl(vmLink[j])->getNodeMap(); const int p = vm[j]->port(); if (!CHK(p == 0 || p == 1, "monitor-port", fmt("monitored port %d", p))) return; GunnsFluidNode& nd = N.nodes[map[p]];
        CHK(vm[j]->getMass() == nd.getMass() && vm[j]->getVolume() == nd.getVolume(), "monitor-mass", fmt("monitored mass %g volume %g, node holds %g in %g", vm[j]->getMass(), vm[j]->getVolume(), nd.getMass(), nd.getVolume()));
        for (int k = 0; k < K; ++k) CHK(vm[j]->getMassFraction(k) == nd.getContent()->getMassFraction(k) && vm[j]->getMoleFraction(k) == nd.getContent()->getMoleFraction(k), "monitor-mixture", fmt("monitored fraction %d is %g, node has %g", k, vm[j]->getMassFraction(k), nd.getContent()->getMassFraction(k)));
        for (int k = 0; k < C; ++k) CHK(vm[j]->tc(k) == nd.getContent()->getTraceCompounds()->getMoleFractions()[k], "monitor-tc", "monitored trace compound differs from the node's"); };
    for (int j = 0; j < 4; ++j) monitor(j);
    const double dt = 0.1; const int steps = r.i(2, 10); std::vector<double> was(n * K), sum(n * K, 0.0), eps(n, 0.0); for (int i = 0; i < n; ++i) for (int k = 0; k < K; ++k) was[i * K + k] = fnet::massOf(N.nodes[i].getContent(), k); bool judge = true, hadPure = o.pure > 0;
    std::vector<double> mol0(n);
    for (int t = 0; t < steps; ++t) {
        if (t == 0 || r.p(0.3)) an.setAttachedNode(r.i(-2, n + 1));
        for (int j = 0; j < 4; ++j) if (r.p(0.3)) vm[j]->port(r.i(-3, 4));
        for (auto& s : fi) s->stepPreSolver(dt); an.stepPreSolver(dt); for (auto& s : vm) s->stepPreSolver(dt);
        std::vector<double> x(2 * N.f.size() * K); for (size_t i = 0; i < N.f.size(); ++i) for (int p = 0; p < 2; ++p) for (int k = 0; k < K; ++k) x[(i * 2 + p) * K + k] = N.nodes[N.fl(int(i))->getNodeMap()[p]].getContent()->getMassFraction(k);
        std::vector<double> before(N.f.size() * K); for (size_t i = 0; i < N.f.size(); ++i) for (int k = 0; k < K; ++k) before[i * K + k] = fi[i]->getIntegratedMass(k);
        N.before(); try { N.net.step(dt); } catch (TsNumericalException&) { c.count("threw"); return; }
        for (auto& s : fi) s->stepPostSolver(dt); an.stepPostSolver(dt); for (auto& s : vm) s->stepPostSolver(dt);
        const bool bad = N.unjudgeable(dt); bool over = bad; for (int i = 0; i < n; ++i) if (N.overflowed[i]) over = true; if (over) judge = false;
        for (size_t i = 0; i < N.f.size(); ++i) { const double w = N.fl(int(i))->getFlowRate(); for (int k = 0; k < K; ++k) NEAR(fi[i]->getIntegratedMass(k), before[i * K + k] + w * dt * x[(i * 2 + (w > 0 ? 0 : 1)) * K + k], 1e-9, 1e-15, "integrator-step", "integrated mass against the flow of the step"); }
        for (int j = 0; j < 4; ++j) monitor(j);
        for (int i = 0; i < n; ++i) eps[i] += N.epsMass(dt);
        // island report: membership is the solver's own (C02 judges it); its totals are recomputed here
        const int at = an.getAttachedNode(); std::vector<int> want; if (at >= 0 && at < n && mode) want = *N.nodes[at].getIslandVector();
        CHK(an.getIslandSize() == int(want.size()), "fisland-size", fmt("attached to %d: %d nodes reported, %d in its island", at, an.getIslandSize(), int(want.size())));
        std::vector<double> cm(K, 0.0), tm(C, 0.0); double m = 0, v = 0, e = 0; std::vector<bool> in(n + 1, false); for (int i : want) { PolyFluid* f = N.nodes[i].getContent(); in[i] = true; m += f->getMass(); v += N.nodes[i].getVolume(); e += f->getMass() * f->getSpecificEnthalpy(); for (int k = 0; k < K; ++k) cm[k] += fnet::massOf(f, k); for (int k = 0; k < C; ++k) tm[k] += f->getTraceCompounds()->getMasses()[k]; }
        for (int i = 0; i <= n; ++i) CHK(an.getIslandNodes()[i] == in[i], "fisland-nodes", fmt("node %d wrongly %s the island", i, in[i] ? "out of" : "in"));
        NEAR(an.getIslandMass(), m, 1e-12, 0, "fisland-mass", "island mass"); NEAR(an.getIslandVolume(), v, 1e-12, 0, "fisland-volume", "island volume"); NEAR(an.E(), e, 1e-9, 1e-6, "fisland-energy", "island energy");
        for (int k = 0; k < K; ++k) NEAR(an.cm(k), cm[k], 1e-12, 0, "fisland-species", "island constituent mass"); for (int k = 0; k < C; ++k) NEAR(an.tm(k), tm[k], 1e-12, 0, "fisland-tc", "island trace compound mass");
        auto ext = [&](double hi, int hn, double lo, int ln, std::function<double(int)> val, const char* key) { if (!mode) return; if (want.empty()) { CHK(hi == 0 && lo == 0 && hn == -1 && ln == -1, key, "a detached analyzer reports extremes"); return; } double h = -1e300, l = 1e300; for (int i : want) { h = std::max(h, val(i)); l = std::min(l, val(i)); }
            CHK(hi == h && lo == l, key, fmt("island range %g..%g reported, nodes have %g..%g", lo, hi, l, h)); CHK(hn >= 0 && hn <= n && in[hn] && val(hn) == h && ln >= 0 && ln <= n && in[ln] && val(ln) == l, key, fmt("nodes %d/%d do not hold the extremes", hn, ln)); };
        ext(an.hiP(), an.hiPn(), an.loP(), an.loPn(), [&](int i) { return N.nodes[i].getContent()->getPressure(); }, "fisland-pressure"); ext(an.hiT(), an.hiTn(), an.loT(), an.loTn(), [&](int i) { return N.nodes[i].getContent()->getTemperature(); }, "fisland-temperature");
        for (int k = 0; k < K; ++k) ext(an.hiX(k), an.hiXn(k), an.loX(k), an.loXn(k), [&](int i) { return N.nodes[i].getContent()->getMoleFraction(k); }, "fisland-fraction");
        for (int k = 0; k < C; ++k) ext(an.hiC(k), an.hiCn(k), an.loC(k), an.loCn(k), [&](int i) { return N.nodes[i].getContent()->getTraceCompounds()->getMoleFractions()[k]; }, "fisland-tcfraction");
        c.count("fluid_steps"); c.hit(mon::mix(c.caseSeed, t)); if (c.failed()) return;
    }
    // exactly once: what the integrators say went in and out of each tank is what its content changed by
    if (judge && !hadPure) { for (size_t i = 0; i < N.f.size(); ++i) { if (N.f[i].k == fnet::TANK || N.f[i].k == fnet::CAP) continue; const int* map = N.fl(int(i))->getNodeMap(); for (int k = 0; k < K; ++k) { const double q = fi[i]->getIntegratedMass(k); if (map[0] < n) sum[map[0] * K + k] -= q; if (map[1] < n) sum[map[1] * K + k] += q; } }
        if (!o.ground) for (int i = 0; i < n; ++i) for (int k = 0; k < K; ++k) { const double now = fnet::massOf(N.nodes[i].getContent(), k); NEAR(now - was[i * K + k], sum[i * K + k], 1e-6, 1e-9 * N.nodes[i].getMass() + eps[i], "integrator-ledger", fmt("tank %d species %d: content change against the integrated flows", i, k)); c.count("ledger_checks"); } }
}
MON_PROP2(N03, queue, "one queue of pending bus values") {
    mon::Rng& r = c.r; for (int q = 0; q < 20; ++q) { const int n = r.i(0, 12); std::vector<double> v(n + 1); std::unique_ptr<bool[]> b(new bool[n + 1]); double s = 0; bool any = false; for (int i = 0; i < n; ++i) { v[i] = r.sgn() * r.logu(1e-6, 1e6); s += v[i]; b[i] = r.p(0.15); any |= b[i]; } v[n] = 1e9; b[n] = true;
        NEAR(SimBusQutils::getSum(v.data(), n), s, 1e-12, 1e-9, "queue-sum", "sum of the queued values"); if (n) { CHK(SimBusQutils::getLatest(v.data()) == v[0], "queue-latest", "latest is not the first value"); NEAR(SimBusQutils::getAverage(v.data(), n), s / n, 1e-12, 1e-9, "queue-average", "average of the queued values"); }
        else { bool threw = false; try { SimBusQutils::getAverage(v.data(), n); } catch (TsOutOfBoundsException&) { threw = true; } CHK(threw, "queue-empty", "average of an empty queue is not refused"); }
        CHK(SimBusQutils::isPulseHigh(b.get(), n) == any, "queue-pulse", fmt("pulse reported %d", int(!any))); c.hit(mon::mix(c.caseSeed, q)); } }

// ---------------------------------------------------------------------------------------------
// N05
// ---------------------------------------------------------------------------------------------
MON_PROP2(N05, controller, "one step of one flow controller in a random linear network") {
    mon::Rng& r = c.r; const int n = r.i(2, 6); std::vector<bnet::Spec> sp = bnet::randomSpecs(r, n, r.i(1, 6), 0.05, 20, true, true); bnet::Net N(n, sp, 1e-8, 50, 200, false);
    const bool nl = r.p(0.5), rev = r.p(0.4); const double maxG = r.logu(0.01, 50); double cmd = r.p(0.1) ? 0 : r.sgn() * r.logu(0.01, 100); int a = r.i(0, n), b; do b = r.i(0, n); while (b == a);
    GunnsBasicFlowController fc; fc.initialize(GunnsBasicFlowControllerConfigData("fc", &N.list, maxG, nl, rev), GunnsBasicFlowControllerInputData(false, 0, false, 0, cmd), N.links, a, b); GunnsConfigData cfg("net", 1e-8, 1e-12, 50, 200); N.net.initialize(cfg, N.links);
    double blk = 0; bool malf = false; double mv = 0; c.note = fmt("controller %d->%d maxG %g cmd %g nonlinear %d reverse %d in %s", a, b, maxG, cmd, int(nl), int(rev), bnet::describe(sp, n).c_str()); const double dt = 0.1; const int steps = r.i(2, 15);
    for (int t = 0; t < steps; ++t) {
        if (r.p(0.2)) { cmd = r.p(0.15) ? 0 : r.sgn() * r.logu(0.01, 100); fc.setFluxCommand(cmd); }
        if (r.p(0.1)) { malf = !malf; mv = r.sgn() * r.logu(0.01, 100); fc.setMalfFlux(malf, mv); }
        if (r.p(0.1)) { blk = r.p(0.3) ? 1.0 : r.u(); fc.setMalfBlockage(blk > 0, blk); }
        if (r.p(0.2) && sp[0].k == bnet::COND) N.setV(0, r.logu(0.05, 20));
        const double p0 = fc.getPotentialVector()[0], p1 = fc.getPotentialVector()[1];
        try { N.net.step(dt); } catch (TsNumericalException&) { c.count("threw"); return; }
        const double dp = N.P(a) - N.P(b), f = fc.getFlux(), want = std::fabs(malf ? mv : cmd), sc = N.scale(), tol = 1e-6 * std::fabs(f) + 1e-7 * maxG * sc;
        if (nl && N.net.lastMinor() >= 50) { c.count("unconverged"); continue; }
        CHK(std::fabs(f) <= maxG * (1 - blk) * std::fabs(dp) + tol, "controller-max", fmt("minor %d A %g t %d flux %g exceeds what the maximum conductivity %g allows at %g", N.net.lastMinor(), fc.getAdmittanceMatrix()[0], t, f, maxG * (1 - blk), dp));
        CHK(f * dp >= -tol * std::fabs(dp), "controller-direction", fmt("flux %g against the potential drop %g", f, dp));
        if (blk >= 1.0) CHK(std::fabs(f) <= 1e-12 * sc, "controller-blocked", fmt("flux %g through a fully blocked controller", f));
        if (!nl) { double g = std::min(maxG, want / std::max(DBL_EPSILON, std::fabs(p0 - p1))); if (p1 > p0 && !rev) g = 0; g *= 1 - blk; NEAR(f, g * dp, 1e-6, 1e-7 * g * sc + 1e-12 * sc, "controller-linear", fmt("flux against the demand %g at the previous drop %g", want, p0 - p1)); c.count("linear_steps"); }
        else if (N.net.lastMinor() < 50 && N.net.lastMinor() > 0) { const bool fwd = dp > 1e-6 * sc, bwd = dp < -1e-6 * sc;
            if (bwd && !rev) CHK(std::fabs(f) <= 1e-9 * sc * maxG, "controller-reverse", fmt("flux %g in reverse although reverse control is off", f));
            if (fwd || (bwd && rev)) NEAR(std::fabs(f), (1 - blk) * std::min(want, maxG * std::fabs(dp)), 1e-3, 1e-5 * maxG * sc + 1e-6, "controller-settled", fmt("settled flux against the demand %g, drop %g", want, dp)); c.count("converged_steps"); }
        c.hit(mon::mix(c.caseSeed, t)); if (c.failed()) return; } }

MON_PROP2(N05, fluidcontroller, "one step of a fluid flow controller between two tanks") {
    mon::Rng& r = c.r; fnet::Mix mix(r, r.i(1, 3), 0, false); const int n = 2; GunnsFluidNode nodes[3]; GunnsNodeList list; list.mNumNodes = 3; list.mNodes = nodes; std::vector<GunnsBasicLink*> links; fnet::State s[2];
    for (int i = 0; i < 2; ++i) { s[i] = fnet::randomState(r, mix); s[i].P = r.uni(50, 800); s[i].T = r.uni(280, 320); if (i) s[1].x = s[0].x; } for (int i = 0; i < 3; ++i) { fnet::Input in(s[i % 2]); nodes[i].initialize("n", mix.cfg.get(), i < 2 ? &in.in : 0); }
    Gunns net; net.initializeFluidNodes(list); GunnsFluidCapacitor cap[2]; for (int i = 0; i < 2; ++i) { fnet::Input in(s[i]); GunnsFluidCapacitorConfigData cd("c", &list, 0.0); cap[i].initialize(cd, GunnsFluidCapacitorInputData(false, 0, r.uni(5, 50), &in.in), links, i, 2); }
    const double maxG = r.logu(1e-6, 1e-3), gain = r.p(0.5) ? 1.0 : r.uni(0.05, 1.0); const bool rev = r.p(0.3); double cmd = r.sgn() * r.logu(1e-5, 1e-1); GunnsFluidFlowController fc; fc.initialize(GunnsFluidFlowControllerConfigData("fc", &list, maxG, 0.0, gain, rev), GunnsFluidFlowControllerInputData(false, 0, false, 0, cmd), links, 0, 1);
    net.initialize(GunnsConfigData("net", 1e-8, 1e-12, 30, 100), links); const double dt = 0.1; c.note = fmt("fluid controller maxG %g cmd %g gain %g reverse %d P %g %g", maxG, cmd, gain, int(rev), s[0].P, s[1].P); double blk = 0; bool malf = false; double mv = 0; int quiet = 0; const int steps = r.i(5, 60); double gPrev = 0; bool have = false;
    for (int t = 0; t < steps; ++t) { bool ev = false;
        if (r.p(0.03)) { cmd = r.p(0.2) ? 0 : r.sgn() * r.logu(1e-5, 1e-1); fc.setFlowRateCommand(cmd); ev = true; } if (r.p(0.03)) { malf = !malf; mv = r.logu(1e-5, 1e-1); fc.setMalfFlowRate(malf, mv); ev = true; } if (r.p(0.02)) { blk = r.p(0.3) ? 1.0 : r.u(); fc.setMalfBlockage(blk > 0, blk); ev = true; }
        const double pa = nodes[0].getContent()->getPressure(), pb = nodes[1].getContent()->getPressure(), ra = nodes[0].getContent()->getDensity(), rb = nodes[1].getContent()->getDensity();
        const double want = std::fabs(malf ? mv : cmd); net.step(dt); const double w = fc.getFlowRate(), qa = nodes[0].getContent()->getPressure(), qb = nodes[1].getContent()->getPressure();
        // equal pressures are where a controller cannot deliver: judge steps with a clear drop
        const double lim = maxG * std::sqrt(1000.0 * std::fabs(pa - pb) * std::max(ra, rb)) * (1 + 1e-3); if (std::fabs(pa - pb) > 1 && std::fabs(qa - qb - pa + pb) < 0.2 * std::fabs(pa - pb)) { CHK(std::fabs(w) <= lim * (1 - blk) * 1.2 + 1e-10, "fcontroller-max", fmt("flow %g beyond the orifice limit %g", w, lim * (1 - blk)));
            CHK(w * (pa - pb) >= -1e-9, "fcontroller-direction", fmt("flow %g against the pressure drop %g", w, pa - pb)); }
        quiet = ev || (gPrev * (pa - pb) < 0) ? 0 : quiet + 1; gPrev = pa - pb; have = true; (void)have;
        const double settle = gain >= 1 ? 1 : std::log(1e-7) / std::log(1 - gain) + 1;
        if (quiet > settle && std::fabs(pa - pb) > 5 && qa > qb == pa > pb && std::fabs((pa - pb) - (qa - qb)) < 0.02 * std::fabs(pa - pb)) {
            if (pa < pb && !rev) CHK(std::fabs(w) <= 1e-9 + 1e-5 * lim, "fcontroller-reverse", fmt("flow %g in reverse although reverse control is off", w));
            else { const double avg = maxG * std::sqrt(1000.0 * std::fabs(pa - pb) * 0.5 * (ra + rb)); if (want < avg) NEAR(std::fabs(w), want * (1 - blk), 0.05, 1e-8 + 1e-5 * lim, "fcontroller-settled", fmt("settled flow against the demand %g", want)); c.count("settled_steps"); } }
        if (blk >= 1.0) CHK(w == 0, "fcontroller-blocked", fmt("flow %g through a fully blocked controller", w)); c.hit(mon::mix(c.caseSeed, t)); c.count("fluid_controller_steps"); if (c.failed()) return; } (void)n;
    { GunnsFluidFlowController b; const double g = r.p(0.5) ? -r.logu(1e-3, 10) : 1 + r.logu(1e-3, 10); CHK(refused([&]() { b.initialize(GunnsFluidFlowControllerConfigData("b", &list, maxG, 0, g, rev), GunnsFluidFlowControllerInputData(), links, 0, 1); }), "fcontroller-gain", fmt("filter gain %g accepted", g)); } }

namespace {
struct BSup : GunnsBasicExternalSupply { void feed(double* q, int n) { mDemandFlux_queue = q; mDemandFlux_queue_size = n; } double potential() { return mSupplyPotential; } };
struct BDem : GunnsBasicExternalDemand { void supply(double p) { mSupplyPotential = p; } double demand() { return mDemandFlux; } };
struct FSup : GunnsFluidExternalSupply { void flux(double f) { mDemandFlux = f; } void state(double T, const double* x, const double* tc, int n, int m) { mDemandTemperature = T; for (int i = 0; i < n; ++i) mDemandMassFractions[i] = x[i]; for (int i = 0; i < m; ++i) mDemandTcMoleFractions[i] = tc[i]; }
    double P() { return mSupplyPressure; } double T() { return mSupplyTemperature; } double cap() { return mSupplyCapacitance; } const double* x() { return mSupplyMassFractions; } const double* tc() { return mSupplyTcMoleFractions; } };
struct FDem : GunnsFluidExternalDemand { void in(double P, double T, double cap, const double* x, const double* tc, int n, int m) { mSupplyPressure = P; mSupplyTemperature = T; mSupplyCapacitance = cap; for (int i = 0; i < n; ++i) mSupplyMassFractions[i] = x[i]; for (int i = 0; i < m; ++i) mSupplyTcMoleFractions[i] = tc[i]; }
    double flux() { return mDemandFlux; } double T() { return mDemandTemperature; } const double* x() { return mDemandMassFractions; } const double* tc() { return mDemandTcMoleFractions; } };
}
// A basic supply network running slower than its demand network: every bit of flux the demand takes is drawn from the supply exactly once.
MON_PROP2(N05, basicpair, "one supply update against the demand steps since the last") {
    mon::Rng& r = c.r; const double dtD = 0.1; const int maxQ = 8; double q[maxQ]; GunnsBasicNode sn[2], dn[3]; GunnsNodeList sl, dl; sl.mNumNodes = 2; sl.mNodes = sn; dl.mNumNodes = 3; dl.mNodes = dn; for (auto& x : sn) x.initialize("s", 0.0); for (auto& x : dn) x.initialize("d", 0.0);
    Gunns S, D; S.initializeNodes(sl); D.initializeNodes(dl); std::vector<GunnsBasicLink*> ls, ld; const double C = r.logu(1, 1000), P0 = r.uni(1, 200);
    GunnsBasicCapacitor cap; cap.initialize(GunnsBasicCapacitorConfigData("c", &sl), GunnsBasicCapacitorInputData(false, 0, C, P0), ls, 0, 1); BSup sup; sup.initialize(GunnsBasicExternalSupplyConfigData("s", &sl), GunnsBasicExternalSupplyInputData(), ls, 0, 1);
    BDem dem; dem.initialize(GunnsBasicExternalDemandConfigData("d", &dl, r.logu(0.1, 5), r.logu(0.1, 5)), GunnsBasicExternalDemandInputData(false, 0, 0), ld, 2, 0); GunnsBasicConductor load; load.initialize(GunnsBasicConductorConfigData("l", &dl, r.logu(0.01, 1)), GunnsBasicConductorInputData(), ld, 0, 1); GunnsBasicConductor l2; l2.initialize(GunnsBasicConductorConfigData("l", &dl, r.logu(0.01, 1)), GunnsBasicConductorInputData(), ld, 1, 2); GunnsBasicCapacitor dc; dc.initialize(GunnsBasicCapacitorConfigData("c", &dl), GunnsBasicCapacitorInputData(false, 0, r.logu(0.1, 50), 0.0), ld, 1, 2);
    S.initialize(GunnsConfigData("S", 1e-8, 1e-12, 10, 100), ls); D.initialize(GunnsConfigData("D", 1e-8, 1e-12, 10, 100), ld);
    // port rules
    for (int p = 0; p < 2; ++p) { CHK(!sup.setPort(p, 1 - p, "t", true), "supply-port", fmt("supply accepted port %d on node %d", p, 1 - p)); const int bad = p ? 2 : r.i(0, 1); CHK(!dem.setPort(p, bad, "t", true), "demand-port", fmt("demand accepted port %d on node %d", p, bad)); }
    double drawn = 0, taken = 0, lastTaken = 0; c.note = fmt("C %g P %g", C, P0); int steps = r.i(3, 25);
    for (int t = 0; t < steps; ++t) { const int k = r.i(1, maxQ); sup.processInputs(); 
        dem.supply(sup.potential()); lastTaken = 0; for (int i = 0; i < k; ++i) { dem.processInputs(); D.step(dtD); dem.processOutputs(); CHK(dem.demand() == dem.getFlux(), "demand-report", "published demand is not the demand's flux"); q[k - 1 - i] = dem.demand(); lastTaken += dem.demand() * dtD; } taken += lastTaken;
        sup.feed(q, k); sup.processInputs(); const double before = sn[0].getPotential(); S.step(k * dtD); sup.processOutputs(); drawn += sup.getFlux() * k * dtD;
        NEAR(drawn, taken, 1e-9, 1e-9, "pair-ledger", "flux drawn from the supply against the flux the demand took"); NEAR((before - sn[0].getPotential()) * C, lastTaken, 1e-7, 1e-8 * C, "pair-content", "content lost by the supply against the demand of the interval");
        CHK(sup.potential() == sn[0].getPotential(), "supply-report", "published supply potential is not the node's"); NEAR(dn[0].getPotential() + dem.getFlux() / std::max(1e-30, dem.getAdmittanceMatrix()[0]), dem.getSourcePotential(), 1e-6, 1e-9, "demand-potential", "demand node against the supply's potential"); sup.feed(0, 0); c.hit(mon::mix(c.caseSeed, t)); c.count("pair_updates"); if (c.failed()) return; } }

MON_PROP2(N05, fluidpair, "one exchange of a fluid external supply and demand pair") {
    mon::Rng& r = c.r; fnet::Mix mix(r, r.i(1, 4), r.p(0.4) ? r.i(1, 2) : 0, false); const int K = mix.n(), TC = mix.nTc(); GunnsFluidNode sn[3], dn[3]; GunnsNodeList sl, dl; sl.mNumNodes = 3; sl.mNodes = sn; dl.mNumNodes = 3; dl.mNodes = dn;
    fnet::State s0 = fnet::randomState(r, mix), d0 = fnet::randomState(r, mix); s0.P = r.uni(20, 500); d0.P = r.p(0.4) ? s0.P * r.uni(1.01, 2) : s0.P * r.uni(0.2, 0.99); d0.T = s0.T + r.uni(-30, 30);
    for (int i = 0; i < 3; ++i) { fnet::Input a(s0), b(d0); sn[i].initialize("s", mix.cfg.get(), i < 2 ? &a.in : 0); dn[i].initialize("d", mix.cfg.get(), i < 2 ? &b.in : 0); }
    Gunns S, D; S.initializeFluidNodes(sl); D.initializeFluidNodes(dl); std::vector<GunnsBasicLink*> ls, ld; const bool useCap = r.p(0.5); const double vS = r.uni(5, 50), vD = r.uni(5, 50), dt = 0.1;
    GunnsFluidCapacitor ca, cb; { fnet::Input a(s0), b(d0); ca.initialize(GunnsFluidCapacitorConfigData("a", &sl, 0.0), GunnsFluidCapacitorInputData(false, 0, vS, &a.in), ls, 0, 2); cb.initialize(GunnsFluidCapacitorConfigData("b", &dl, 0.0), GunnsFluidCapacitorInputData(false, 0, vD, &b.in), ld, 1, 2); }
    FSup sup; sup.initialize(GunnsFluidExternalSupplyConfigData("s", &sl, mix.cfg.get(), FluidProperties::NO_FLUID, useCap), GunnsFluidExternalSupplyInputData(), ls, 0, 2); GunnsFluidConductor cx; cx.initialize(GunnsFluidConductorConfigData("x", &dl, r.logu(1e-6, 1e-4), 0.0, 0.5), GunnsFluidConductorInputData(false, 0), ld, 0, 1);
    fnet::Input di(s0); FDem dem; dem.initialize(GunnsFluidExternalDemandConfigData("d", &dl, 1.0, 0.0, r.logu(1e-3, 1.0), 1e-8, 0.05, mix.cfg.get()), GunnsFluidExternalDemandInputData(false, 0, s0.P, 0.0, s0.T, s0.x.data(), TC ? s0.tc.data() : 0), ld, 2, 0);
    S.initialize(GunnsConfigData("S", 1e-8, 1e-12, 20, 100), ls); D.initialize(GunnsConfigData("D", 1e-8, 1e-12, 20, 100), ld); c.note = fmt("pair K %d P %g %g T %g %g cap %d", K, s0.P, d0.P, s0.T, d0.T, int(useCap));
    for (int p = 0; p < 2; ++p) { CHK(!sup.setPort(p, p ? 1 : 2, "t", true), "supply-port", fmt("supply accepted a bad port %d", p)); CHK(!dem.setPort(p, p ? 2 : 1, "t", true), "demand-port", fmt("demand accepted a bad port %d", p)); }
    double inFlightMol = 0; const int steps = r.i(5, 60); double molS = sn[0].getContent()->getMole(), molD = dn[1].getContent()->getMole(); std::vector<double> xf(K, 0.0); 
    for (int t = 0; t < steps; ++t) { const bool rs = r.p(0.1); if (rs) S.restart(), D.restart();
        // supply side takes the demand of last step
        sup.flux(dem.flux()); sup.state(dem.T(), dem.x(), dem.tc(), K, TC); const double sendFlux = dem.flux(), sendT = dem.T(); std::vector<double> sx(dem.x(), dem.x() + K);
        std::vector<double> s1(K), d1(K); for (int k = 0; k < K; ++k) { s1[k] = fnet::massOf(sn[0].getContent(), k); d1[k] = fnet::massOf(dn[1].getContent(), k); } const double mS = sn[0].getContent()->getMole(), hS = sn[0].getContent()->getMass() * sn[0].getContent()->getSpecificEnthalpy();
        std::vector<double> xs(K), tcs(TC), sOld(TC); for (int k = 0; k < K; ++k) xs[k] = sn[0].getContent()->getMassFraction(k); const double MWs = sn[0].getContent()->getMWeight(); for (int k = 0; k < TC; ++k) sOld[k] = sn[0].getContent()->getTraceCompounds()->getMasses()[k];
        if (sendFlux * dt > 0.9 * mS) return; std::vector<double> stc(TC); for (int k = 0; k < TC; ++k) stc[k] = dem.tc()[k];
        sup.processInputs(); S.step(dt); sup.processOutputs();
        const double f = std::fabs(sendFlux) * 0 + sup.getFlux(); PolyFluid* fs = sn[0].getContent();
        NEAR(f, sendFlux, 1e-9, 1e-15, "fpair-supply-flux", "supply flux against the demand it was told"); NEAR(fs->getMole(), mS - sendFlux * dt, 1e-9, 1e-12, "fpair-supply-moles", "supply content against the demand");
        double mw = 0; if (sendFlux < 0) { double q = 0; for (int k = 0; k < K; ++k) q += sx[k] / mix.props.getProperties(mix.types[k])->getMWeight(); mw = 1 / q; }
        if (std::fabs(sendFlux) * (sendFlux < 0 ? mw : MWs) > 1e-13) for (int k = 0; k < K; ++k) NEAR(fnet::massOf(fs, k) - s1[k], -sendFlux * dt * (sendFlux < 0 ? mw * sx[k] : MWs * xs[k]), 1e-7, 1e-9 * fs->getMass(), "fpair-supply-species", fmt("species %d taken from or returned to the supply", k));
        if (sendFlux < 0 && K) { double h = 0; for (int k = 0; k < K; ++k) h += sx[k] * mix.props.getProperties(mix.types[k])->getSpecificEnthalpy(sendT); NEAR(fs->getMass() * fs->getSpecificEnthalpy() - hS, -sendFlux * mw * dt * h, 1e-6, 1e-9 * std::fabs(hS), "fpair-supply-energy", "energy returned to the supply"); c.count("returned_steps"); for (int k = 0; k < TC; ++k) NEAR(fs->getTraceCompounds()->getMasses()[k] - sOld[k], -sendFlux * dt * stc[k] * mix.comps.getCompound(mix.tcTypes[k])->mMWeight, 1e-6, 1e-15, "fpair-tc", "trace compound mass returned to the supply"); }
        CHK(sup.P() == sn[0].getPotential() && sup.T() == fs->getTemperature(), "fsupply-report", "published supply state is not the node's"); for (int k = 0; k < K; ++k) CHK(sup.x()[k] == fs->getMassFraction(k), "fsupply-report", "published supply mixture is not the node's"); if (useCap) NEAR(sup.cap(), fs->getMole() / sn[0].getPotential(), 0.1, 0, "fsupply-capacitance", "published capacitance against dn/dP of the tank"); 
        // demand side
        dem.in(sup.P(), sup.T(), useCap && r.p(0.8) ? sup.cap() : 0.0, sup.x(), sup.tc(), K, TC); dem.processInputs(); if (!rs) { PolyFluid* f0 = dn[0].getContent(); CHK(f0->getTemperature() == sup.T(), "fdemand-state", "demand node does not take the supply's temperature"); for (int k = 0; k < K; ++k) NEAR(f0->getMassFraction(k), sup.x()[k], 1e-9, 1e-12, "fdemand-state", "demand node does not take the supply's mixture"); for (int k = 0; k < TC; ++k) NEAR(f0->getTraceCompounds()->getMoleFractions()[k], sup.tc()[k], 1e-9, 1e-15, "fdemand-state", "demand node does not take the supply's trace compounds"); }
        D.step(dt); dem.processOutputs(); CHK(dem.flux() == dem.getFlux(), "fdemand-report", "published demand is not the demand's flux"); PolyFluid* fd = dn[1].getContent();
        inFlightMol = dem.flux() * dt; NEAR(sn[0].getContent()->getMole() + fd->getMole() - inFlightMol, molS + molD, 1e-9, 1e-10, "fpair-ledger", "moles in both networks less those in flight"); c.count("fpair_exchanges");
        if (dem.flux() < -1e-9) for (int k = 0; k < K; ++k) NEAR(dem.x()[k], fd->getMassFraction(k) , 1e-2, 1e-4, "fdemand-mixture", "mixture sent back against the demand tank's");
        c.hit(mon::mix(c.caseSeed, t)); if (c.failed()) return; } }
