// Minor step / confirmation protocol, failure roll-back and recovery, network capacitance queries.
#include "bnet.hpp"
#include <stdexcept>
using namespace bnet; using mon::fmt;

namespace {
enum EvK { PIN, STEP, MINOR, CONF, RESET, FLOWS, POUT };
struct Ev { EvK k; int link; int a, b; int res; };
struct World {
    mon::Rng* r; std::vector<Ev> log; std::vector<std::vector<double> > snap; // node potentials at each CONF of first link
    GunnsBasicNode* nodes; int n; double pRej, pDel, pChange; bool converging; int lastAbs = 0; int throwAt = -1; int badAdm = -1, nanSrc = -1; double resFailP = 0;
    std::vector<double> pots() const { std::vector<double> p(n); for (int i = 0; i < n; ++i) p[i] = nodes[i].getPotential(); return p; }
    std::vector<GunnsBasicLink*>* links; double residual = 0, rscale = 1; std::vector<std::vector<double> > confPots; std::vector<double> confResid;
};
struct Spy : GunnsBasicConductor {
    World* w; int id; bool nl; double g; int confirms;
    Spy(World* ww, int i, bool n, double gg) : w(ww), id(i), nl(n), g(gg), confirms(0) {}
    bool isNonLinear() override { return nl; }
    void setG() { mSystemConductance = g; buildConductance(); mSourceVector[0] = w->nanSrc == id ? std::nan("") : 0.0; }
    void processInputs() override { w->log.push_back(Ev{PIN, id, 0, 0, 0}); }
    void processOutputs() override { w->log.push_back(Ev{POUT, id, 0, 0, 0}); }
    void step(const double) override { w->log.push_back(Ev{STEP, id, 0, 0, 0}); if (w->throwAt == id) throw std::runtime_error("link fault"); confirms = 0; vary(); setG(); if (w->badAdm == id) { mAdmittanceMatrix[0] = -1e6; mAdmittanceMatrix[3] = -1e6; mAdmittanceUpdate = true; } }
    void minorStep(const double, const int k) override { w->log.push_back(Ev{MINOR, id, k, 0, 0}); vary(); setG(); }
    void vary() { if (nl && w->r->p(w->pChange)) { if (w->converging) { double dp = mPotentialVector[0] - mPotentialVector[1]; g = 1.0 + 0.5 * std::tanh(0.05 * dp); } else g = w->r->logu(0.1, 10); } }
    SolutionResult confirmSolutionAcceptable(const int conv, const int abs) override {
        if (w->lastAbs != abs) { w->lastAbs = abs; w->confPots.push_back(w->pots()); w->confResid.push_back(resid()); }
        SolutionResult res = CONFIRM; double u = w->r->u(); ++confirms;
        if (u < w->pRej) res = REJECT; else if (u < w->pRej + w->pDel) res = DELAY;
        if (w->converging && abs > 25) res = CONFIRM;
        w->log.push_back(Ev{CONF, id, conv, abs, res}); return res; }
    bool resetLastMinorStep(const int conv, const int abs) override { bool ok = !w->r->p(w->resFailP); w->log.push_back(Ev{RESET, id, conv, abs, ok}); if (!w->converging) g = w->r->logu(0.1, 10);
        std::vector<double> p = w->pots(); w->snap.push_back(p); return ok; }
    void computeFlows(const double dt) override { w->log.push_back(Ev{FLOWS, id, 0, 0, 0}); GunnsBasicConductor::computeFlows(dt); }
    // max |A p - b| over nodes from what every link contributes right now, relative to the flux scale
    double resid() const { std::vector<double> f(w->n, 0.0), m(w->n, 1e-12); for (GunnsBasicLink* l : *w->links) { int np = l->getNumberPorts(); for (int i = 0; i < np; ++i) { int ni = l->getNodeMap()[i]; if (ni >= w->n) continue;
        f[ni] += l->getSourceVector()[i]; m[ni] += std::fabs(l->getSourceVector()[i]); for (int j = 0; j < np; ++j) { int nj = l->getNodeMap()[j]; double p = nj >= w->n ? 0.0 : w->nodes[nj].getPotential(); double t = l->getAdmittanceMatrix()[i * np + j] * p; f[ni] -= t; m[ni] += std::fabs(t); } } }
        double x = 0; for (int i = 0; i < w->n; ++i) x = std::max(x, std::fabs(f[i]) / m[i]); return x; }
};
struct SrcSpy : GunnsBasicSource {
    World* w; int id; SrcSpy(World* ww, int i) : w(ww), id(i) {}
    void processInputs() override { w->log.push_back(Ev{PIN, id, 0, 0, 0}); } void processOutputs() override { w->log.push_back(Ev{POUT, id, 0, 0, 0}); }
    void step(const double dt) override { w->log.push_back(Ev{STEP, id, 0, 0, 0}); GunnsBasicSource::step(dt); }
    void minorStep(const double, const int k) override { w->log.push_back(Ev{MINOR, id, k, 0, 0}); }
    SolutionResult confirmSolutionAcceptable(const int a, const int b) override { w->log.push_back(Ev{CONF, id, a, b, CONFIRM}); return CONFIRM; }
    void computeFlows(const double dt) override { w->log.push_back(Ev{FLOWS, id, 0, 0, 0}); GunnsBasicSource::computeFlows(dt); }
};
struct PNet {
    World w; int n, nl; std::unique_ptr<GunnsBasicNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink> > own; std::vector<bool> nonlin; std::vector<Spy*> spies; Solver net; int limit, dlimit; double tol;
    PNet(mon::Rng& r, int nn, bool allLinear, int lim, int dlim, double t) : n(nn), nodes(new GunnsBasicNode[nn + 1]), limit(lim), dlimit(dlim), tol(t) {
        list.mNumNodes = n + 1; list.mNodes = nodes.get(); for (int i = 0; i <= n; ++i) nodes[i].initialize(fmt("n%d", i), 0.0);
        w.r = &r; w.nodes = nodes.get(); w.n = n; w.links = &links; w.pRej = w.pDel = w.pChange = 0; w.converging = true;
        net.initializeNodes(list); int id = 0;
        auto addSpy = [&](int a, int b, bool nlin) { Spy* s = new Spy(&w, id++, nlin, r.logu(0.3, 3)); own.emplace_back(s); s->initialize(GunnsBasicConductorConfigData(fmt("spy%d", id), &list, 1.0), GunnsBasicConductorInputData(), links, a, b); nonlin.push_back(nlin); spies.push_back(s); };
        for (int i = 0; i < n; ++i) { addSpy(i, i == 0 ? n : r.i(0, i - 1), !allLinear && r.p(0.5)); if (r.p(0.3)) addSpy(i, n, !allLinear && r.p(0.5)); }
        addSpy(0, n, !allLinear);
        for (int i = r.i(1, 3); i > 0; --i) { SrcSpy* s = new SrcSpy(&w, id++); own.emplace_back(s); s->initialize(GunnsBasicSourceConfigData(fmt("src%d", id), &list), GunnsBasicSourceInputData(false, 0, r.uni(-20, 20)), links, n, r.i(0, n - 1)); nonlin.push_back(false); }
        nl = int(links.size()); GunnsConfigData cfg("net", tol, 1e-8, lim, dlim); net.initialize(cfg, links);
        w.log.clear();
    }
};
std::string show(const std::vector<Ev>& l) { static const char* nm[] = {"in", "step", "minor", "conf", "reset", "flows", "out"}; std::string s; for (auto& e : l) { s += fmt("%s%d", nm[e.k], e.link); if (e.k == CONF) s += fmt("(%d,%d)=%c", e.a, e.b, "RCD"[e.res]); s += ' '; if (s.size() > 1200) break; } return s; }
}

// Replays the recorded event log against the protocol; returns whether the step must have succeeded.
static bool judgeLog(mon::Ctx& c, PNet& P, std::vector<double>& base, bool wct, bool anyNonlin, bool decompLimited, std::string* shape) {
    const std::vector<Ev>& L = P.w.log; size_t i = 0; const int nl = P.nl; int nnl = 0; for (bool b : P.nonlin) nnl += b;
    auto once = [&](EvK k, bool onlyNonlin, const char* what) { std::vector<int> seen(nl, 0); int want = onlyNonlin ? nnl : nl; while (i < L.size() && L[i].k == k && want > 0) { ++seen[L[i].link]; ++i; --want; }
        for (int l = 0; l < nl; ++l) { int need = onlyNonlin ? int(P.nonlin[l]) : 1; c.eval(); if (seen[l] != need) { c.fail(std::string("proto:") + what, fmt("link %d got %d %s calls, expected %d; log: %s", l, seen[l], what, need, show(L).c_str())); return false; } } return true; };
    if (!once(PIN, false, "processInputs")) return false;
    bool success = false; int conv = 0; int prev = GunnsBasicLink::CONFIRM; size_t ci = 0, ri = 0; std::vector<double> acc = base, last = base;
    if (!anyNonlin) { if (!once(STEP, false, "step")) return false; success = true; *shape = "L"; }
    else for (int k = 1; k <= P.limit; ++k) {
        if (prev != GunnsBasicLink::DELAY) {
            size_t b = i; if (k == 1) { if (!once(STEP, false, "step")) return false; } else { if (!once(MINOR, true, "minorStep")) return false; for (size_t j = b; j < i; ++j) if (!CHK(L[j].a == k, "proto:minorIndex", fmt("minorStep(%d) during minor step %d", L[j].a, k))) return false; }
        }
        if (decompLimited && (i >= L.size() || L[i].k != CONF)) { *shape += "X"; success = success && wct; break; }
        size_t b = i; if (!once(CONF, true, "confirm")) return false;
        if (!CHK(ci < P.w.confPots.size(), "proto:snap", "no snapshot")) return false;
        const std::vector<double> p = P.w.confPots[ci]; CHK(P.w.confResid[ci] < 1e-9, "proto:minorSolution", fmt("minor step %d solution leaves a relative residual of %.3g against the links' present contributions", k, P.w.confResid[ci])); ++ci;
        bool ok = true; for (int j = 0; j < P.n; ++j) if (!(std::fabs(p[j] - acc[j]) <= P.tol)) ok = false;
        if (prev == GunnsBasicLink::DELAY) { for (int j = 0; j < P.n; ++j) CHK(p[j] == last[j], "proto:delaySolve", "the potentials changed in a minor step that follows a DELAY"); ok = true; }
        if (ok) ++conv; last = p;
        int res = GunnsBasicLink::CONFIRM;
        for (size_t j = b; j < i; ++j) { CHK(L[j].a == conv && L[j].b == k, "proto:confirmArgs", fmt("confirm(%d,%d) but %d converged steps at minor step %d; log: %s", L[j].a, L[j].b, conv, k, show(L).c_str()));
            int lr = L[j].res; if (conv == 0 && lr == GunnsBasicLink::DELAY) lr = GunnsBasicLink::CONFIRM; if (lr == GunnsBasicLink::REJECT) res = lr; else if (lr == GunnsBasicLink::DELAY && res != GunnsBasicLink::REJECT) res = lr; }
        *shape += "RCD"[res]; if (c.failed()) return false;
        if (res == GunnsBasicLink::REJECT) { size_t b2 = i; if (!once(RESET, true, "resetLastMinorStep")) return false;
            for (size_t j = b2; j < i; ++j) { const std::vector<double>& s = P.w.snap[ri++]; for (int m = 0; m < P.n; ++m) CHK(s[m] == acc[m], "proto:rejectReset", fmt("node %d shows %.12g after a rejection, last accepted minor solution is %.12g", m, s[m], acc[m])); }
            last = acc; conv = 0; }
        else { acc = p; if (res == GunnsBasicLink::CONFIRM && conv > 0) { success = true; if (!wct || (i < L.size() && L[i].k == FLOWS)) break; } }
        prev = res;
    }
    base = acc;
    if (success) { if (!once(FLOWS, false, "computeFlows")) return false; if (!once(POUT, false, "processOutputs")) return false;
        std::vector<double> now = P.w.pots(); if (anyNonlin) for (int m = 0; m < P.n; ++m) CHK(now[m] == acc[m], "proto:final", fmt("node %d ends at %.12g, the last accepted solution is %.12g", m, now[m], acc[m])); }
    if (i != L.size()) c.fail("proto:extra", fmt("unexpected calls after event %d; log: %s", int(i), show(L).c_str()));
    return success;
}

MON_PROP(C04, "networks of spy links (real conductors/sources whose step, minorStep, confirm, reset, computeFlows, processInputs/Outputs calls are logged) that randomly change conductance, REJECT, DELAY or CONFIRM; the log of every major step is replayed against the protocol automaton; distinct = (sequence of network results, iteration count) shapes") {
    mon::Rng& r = c.r; const bool lin = r.p(0.1); const bool wct = r.p(0.1); PNet P(r, r.i(1, 8), lin, r.i(1, 40), wct ? 1000 : 1000, r.logu(1e-9, 1e-2)); P.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
    bool any = false; for (bool b : P.nonlin) any = any || b; std::vector<double> base(P.n, 0.0); bool after = false;
    for (int k = 0, K = r.i(1, 8); k < K; ++k) {
        P.w.converging = r.p(0.75); P.w.pRej = r.p(0.4) ? r.uni(0, 0.3) : 0; P.w.pDel = r.p(0.4) ? r.uni(0, 0.4) : 0; P.w.pChange = r.p(0.8) ? 1.0 : r.u(); P.w.resFailP = r.p(0.2) ? 0.3 : 0;
        P.net.setWorstCaseTiming(wct);
        // A SLAVE step leaves the given potentials as the state the next NORMAL step starts from.
        if (r.p(0.12)) { std::vector<double> sl(P.n); std::vector<double> now = P.w.pots(); for (int m = 0; m < P.n; ++m) sl[m] = now[m] + (r.p(0.5) ? 0.1 * P.tol * r.uni(-1, 1) : r.uni(-20, 20)); P.net.setSlaveMode(); P.net.setSlavePotentialVector(sl.data()); P.net.step(0.1); for (int m = 0; m < P.n; ++m) CHK(P.nodes[m].getPotential() == sl[m], "proto:slave", "a SLAVE step did not impose the given potentials"); P.net.setNormalMode(); base = sl; c.count("slave_steps"); if (c.failed()) return; }
        P.w.log.clear(); P.w.snap.clear(); P.w.confPots.clear(); P.w.confResid.clear(); P.w.lastAbs = 0; std::vector<double> major = P.w.pots(); int cf = P.net.getConvergenceFailCount(), rf = P.net.getLinkResetStepFailCount(), mn = P.net.getMinorStepCount(), mj = P.net.getMajorStepCount();
        P.net.step(0.1); std::string shape; c.note = show(P.w.log); if (k == 0) c.sample(c.note);
        bool ok = judgeLog(c, P, base, wct, any, false, &shape); if (c.failed()) return; c.count(ok ? "converged_steps" : "failed_steps"); c.hit(shape); (void)after;
        int resets = 0; for (auto& e : P.w.log) if (e.k == RESET && !e.res) ++resets;
        CHK(P.net.getLinkResetStepFailCount() == rf + resets, "proto:resetFailCount", "link reset failure count"); CHK(P.net.getMajorStepCount() == mj + 1, "proto:majorCount", "major step count");
        CHK(P.net.getMinorStepCount() == mn + int(shape.size()), "proto:minorCount", fmt("minor step count rose by %d, %d minor steps seen", P.net.getMinorStepCount() - mn, int(shape.size())));
        CHK(P.net.getConvergenceFailCount() == cf + (ok ? 0 : 1), "proto:failCount", "convergence failure count");
        if (!ok) { std::vector<double> p = P.w.pots(); for (int m = 0; m < P.n; ++m) { CHK(p[m] == major[m], "proto:rollback", fmt("node %d is %.12g after a failed step, it was %.12g before", m, p[m], major[m])); CHK(P.nodes[m].getInflux() == 0 && P.nodes[m].getOutflux() == 0, "proto:failedFlows", "a failed step moved flux"); } 
            for (GunnsBasicLink* l : P.links) for (int q = 0; q < l->getNumberPorts(); ++q) { int nd = l->getNodeMap()[q]; CHK(l->getPotentialVector()[q] == (nd < P.n ? major[nd] : 0.0), "proto:rollbackLink", "link potentials after a failed step are not the rolled back node potentials"); } }
    }
}

MON_PROP(C05, "histories mixing good steps with injected faults: non-convergence, decomposition limit hit, an indefinite admittance that makes the factorisation throw, a link that throws inside step(), a link that contributes a source that is not a number; every later undisturbed step must converge to a solution of the links' present contributions, and a failed step must leave potentials as before; distinct = fault sequences") {
    mon::Rng& r = c.r; PNet P(r, r.i(1, 8), r.p(0.3), r.i(5, 40), r.i(1, 6), 1e-6); P.net.setIslandMode(Gunns::IslandMode(r.i(0, 2))); std::string hist;
    bool any = false; for (bool b : P.nonlin) any = any || b;
    for (int k = 0, K = r.i(3, 10); k < K; ++k) {
        int fault = r.p(0.5) ? 0 : r.i(1, 5); if (k == K - 1) fault = 0; if (!any && (fault == 1 || fault == 2 || fault == 5)) fault = 0;
        P.w.throwAt = -1; P.w.badAdm = -1; P.w.nanSrc = -1; P.w.pRej = 0; P.w.pDel = 0; P.w.pChange = 0; P.w.converging = false;
        if (fault == 1) P.w.pRej = 1.0; else if (fault == 2) P.w.pChange = 1.0; else if (fault == 3) P.w.badAdm = P.spies[r.i(0, int(P.spies.size()) - 1)]->id; else if (fault == 4) P.w.throwAt = P.spies[r.i(0, int(P.spies.size()) - 1)]->id;
        else if (fault == 5) P.w.nanSrc = P.spies[r.i(0, int(P.spies.size()) - 1)]->id;
        else if (r.p(0.3)) for (Spy* s : P.spies) if (r.p(0.3)) s->g = r.logu(0.1, 10);
        hist += fmt("%d", fault); std::vector<double> major = P.w.pots(); P.w.log.clear(); P.w.snap.clear(); P.w.confPots.clear(); P.w.confResid.clear(); P.w.lastAbs = 0; int cf = P.net.getConvergenceFailCount(); bool threw = false;
        try { P.net.step(0.1); } catch (const TsNumericalException&) { threw = true; } catch (const std::runtime_error&) { threw = true; }
        c.note = "faults=" + hist + " dlimit=" + fmt("%d", P.dlimit); c.count(fmt("fault_%d", fault)); if (k == K - 1) { c.hit(hist); c.sample(c.note); }
        bool failed = threw || P.net.getConvergenceFailCount() != cf;
        if (fault == 5) CHK(failed, "recover:nan", "a solution that is not a number was accepted as converged");
        if (fault == 4) CHK(threw, "recover:swallowed", "an exception from a link's step was swallowed");
        if (fault == 0) {
            CHK(!failed, "recover:fails", "an undisturbed step failed to converge after faults");
            CHK(P.spies[0]->resid() < 1e-9, "recover:solution", fmt("after faults an undisturbed step left a relative residual of %.3g", P.spies[0]->resid()));
            for (int m = 0; m < P.n; ++m) CHK(std::fabs(P.nodes[m].getNetFlux()) <= 1e-8 * (1 + P.nodes[m].getInflux()), "recover:kcl", fmt("net flux %.3g at node %d", P.nodes[m].getNetFlux(), m));
        } else if (failed && !threw) { std::vector<double> p = P.w.pots(); for (int m = 0; m < P.n; ++m) CHK(p[m] == major[m], "recover:rollback", "a failed step changed node potentials"); for (auto& e : P.w.log) CHK(e.k != FLOWS && e.k != POUT, "recover:flows", "a failed step computed flows"); }
        else if (threw) for (auto& e : P.w.log) CHK(e.k != FLOWS && e.k != POUT, "recover:flowsThrow", "a step that threw computed flows");
        if (c.failed()) return;
    }
}

MON_PROP(C09, "network capacitance requests at random nodes of random linear networks: reported capacitance = dt*flux/|dP| with dP from an independent perturbed solve, the delta-potential vector matches node by node, the request is consumed, and the actual solution is unaffected; distinct = (node, capacitance)") {
    mon::Rng& r = c.r; const int n = r.i(1, 14); std::vector<Spec> sp = randomSpecs(r, n, r.i(1, n + 3), 1e-1, 1e2, true, true); c.note = describe(sp, n); c.sample(c.note);
    Net N(n, sp); const double dt = 0.1; N.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
    for (int k = 0; k < 6; ++k) {
        if (k && r.p(0.5)) { int i = r.i(0, int(sp.size()) - 1); N.setV(i, sp[i].k == SRC ? r.sgn() * r.logu(0.01, 100) : r.logu(1e-1, 1e2)); }
        std::map<int, double> req; for (int m = r.i(0, 3); m > 0; --m) { int nd = r.i(0, n - 1); double f = r.p(0.1) ? 0.0 : r.p(0.25) ? r.logu(1e-6, 1e13) : r.logu(0.01, 100); N.nodes[nd].setNetworkCapacitanceRequest(f); req[nd] = f; }
        N.preStep(); if (!N.step(c, dt)) return; c.count("steps");
        std::vector<double> p0; std::vector<int> comp; std::vector<bool> gr; N.reference(dt, p0, comp, gr);
        for (int i = 0; i < n; ++i) { if (!gr[comp[i]]) continue; NEAR(N.P(i), p0[i], 1e-8, 1e-8 * N.scale(), "netcap:solution", "potential disturbed by a capacitance request");
            double f = req.count(i) ? req[i] : 0; if (f <= DBL_EPSILON) { CHK(N.nodes[i].getNetworkCapacitance() == 0.0, "netcap:none", "network capacitance without a request is not zero"); continue; }
            CHK(N.nodes[i].getNetworkCapacitanceRequest() == 0.0, "netcap:consumed", "request not consumed");
            // perturbed reference: one more source into node i
            std::vector<double> p1; { struct Tmp { Net& N; std::vector<Spec> keep; std::vector<double> cd; Tmp(Net& x) : N(x), keep(x.s), cd(x.capDp) {} ~Tmp() { N.s = keep; N.capDp = cd; } } t(N); N.s.push_back(Spec{SRC, n, i, f, 0, false, 0}); N.capDp.push_back(0); std::vector<int> c2; std::vector<bool> g2; N.reference(dt, p1, c2, g2); }
            double dp = p1[i] - p0[i]; if (std::fabs(dp) < 1e-7 * N.scale()) continue;
            NEAR(N.nodes[i].getNetworkCapacitance(), dt * f / std::fabs(dp), 1e-6 + 1e-11 * N.scale() / std::fabs(dp), 0, "netcap:value", fmt("network capacitance of node %d", i)); c.hit(mon::mix(mon::hd(N.nodes[i].getNetworkCapacitance()), i));
            for (int j = 0; j < n; ++j) if (gr[comp[j]]) NEAR(N.nodes[i].getNetCapDeltaPotential()[j], p1[j] - p0[j], 1e-6, 1e-8 * N.scale(), "netcap:delta", fmt("delta potential of node %d from node %d", j, i)); }
        if (c.failed()) return;
    }
}
