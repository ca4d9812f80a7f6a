// Fluid network monitors: conservation of mass, species, trace compounds and energy; validity of
// fluid states; overflow handling and flow orchestration; mixing in zero-volume nodes; equation of state.
#include "fnet.hpp"
using namespace fnet;

// One random command on the network (parameters and ports).
static void command(mon::Ctx& c, Net& w) {
    const int i = c.r.i(0, int(w.f.size()) - 1); FLink& q = w.f[i];
    switch (q.k) {
        case COND: static_cast<GunnsBasicLink*>(w.own[i].get())->setMalfBlockage(c.r.p(0.5), c.r.u()); c.count("cmd_blockage"); break;
        case POT: q.w = c.r.p(0.2) ? 0.0 : c.r.sgn() * c.r.logu(0.1, 50); static_cast<GunnsFluidPotential*>(w.own[i].get())->setSourcePressure(q.w); c.count("cmd_potential"); break;
        case SRC: q.v = c.r.p(0.2) ? 0.0 : c.r.sgn() * c.r.logu(1e-6, 1e-3); if (q.a == w.n) q.v = std::fabs(q.v); static_cast<GunnsFluidSource*>(w.own[i].get())->setFlowDemand(q.v); c.count("cmd_source"); break;
        case VALVE: q.w = c.r.p(0.3) ? 0.0 : c.r.u(); static_cast<GunnsFluidValve*>(w.own[i].get())->setPosition(q.w); c.count("cmd_valve"); break;
        case CHECK: static_cast<GunnsFluidCheckValve*>(w.own[i].get())->setMalfStuck(c.r.p(0.5)); c.count("cmd_check"); break;
        default: break;
    }
    if (q.k == COND && c.r.p(0.15) && q.a != w.n && q.b != w.n) { const int p = c.r.i(0, 1), nd = c.r.i(0, w.n - 1); if (w.own[i]->setPort(p, nd)) { c.count("cmd_port"); (p ? q.b : q.a) = nd; } }
}
static bool step(mon::Ctx& c, Net& w, double dt) {
    try { w.net.step(dt); return true; } catch (const TsNumericalException& e) { if (w.o.liquid) { c.count("liquid_ill_conditioned"); return false; } c.fail("step-exception", std::string("step threw ") + e.what() + " " + w.describe()); return false; }
    catch (const std::exception& e) { c.fail("step-exception", std::string("step threw ") + e.what() + " " + w.describe()); return false; }
}

MON_PROP(F01, "a random closed or venting fluid network driven through a random history, keyed by link kinds, phase, species and flow pattern") {
    Opt o; o.tanks = c.r.i(1, 5); o.pure = c.r.i(0, 4); if (o.tanks + o.pure < 2) o.tanks = 2; o.extra = c.r.i(0, 8); o.nTypes = c.r.i(1, 5); o.nTc = c.r.p(0.5) ? c.r.i(1, 4) : 0; o.liquid = c.r.p(0.25); o.expansion = c.r.p(0.3) ? c.r.u() : 0; o.ground = c.r.p(0.3);
    if (o.liquid) o.sources = false;
    Net w(c.r, o); c.note = w.describe(); w.start(); c.sample(c.note);
    double dt = c.r.p(0.5) ? 0.1 : c.r.logu(0.01, 1.0);
    std::vector<double> m0, t0, led(w.mix.n(), 0.0); double moved = 0; const int steps = c.thorough ? 120 : 40;
    for (int s = 0; s < w.mix.n(); ++s) m0.push_back(w.species(s));
    for (int t = 0; t < w.mix.nTc(); ++t) t0.push_back(w.tc(t));
    double total0 = w.mass(), eps = 0; std::vector<double> ledTc(w.mix.nTc(), 0.0); double led0 = 0;
    for (int k = 0; k < steps && !c.failed(); ++k) {
        if (c.r.p(0.4)) command(c, w);
        w.before();
        std::vector<std::vector<double> > x0(w.n), tm0(w.n); std::vector<double> mw0(w.n);      // a flow in from the boundary takes the receiving node's own composition
        for (int i = 0; i < w.n; ++i) { PolyFluid* f = w.nodes[i].getContent(); mw0[i] = f->getMWeight(); for (int s = 0; s < w.mix.n(); ++s) x0[i].push_back(f->getMassFraction(s)); for (int t = 0; t < w.mix.nTc(); ++t) tm0[i].push_back(f->getTraceCompounds()->getMoleFractions()[t]); }
        if (!step(c, w, dt)) return;
        eps += w.epsMass(dt);
        if (w.unjudgeable(dt)) { c.count("steps_not_judged"); total0 = w.mass(); led0 = 0; eps = 0; for (int s = 0; s < w.mix.n(); ++s) { m0[s] = w.species(s); led[s] = 0; } for (int t = 0; t < w.mix.nTc(); ++t) { t0[t] = w.tc(t); ledTc[t] = 0; } continue; }
        c.count("steps_judged");
        for (size_t i = 0; i < w.f.size(); ++i) { const FLink& q = w.f[i]; GunnsFluidLink* l = w.fl(int(i)); moved += std::fabs(l->getFlowRate()) * dt;
            if (q.k == TANK || q.k == CAP || (q.a != w.n && q.b != w.n)) continue;
            const double out = (q.b == w.n ? 1 : -1) * l->getFlowRate();          // out of the network
            if (out == 0) continue; const int src = q.b == w.n ? q.a : q.b; PolyFluid* fl = w.nodes[src].getOutflow();
            led0 += out * dt;
            for (int s = 0; s < w.mix.n(); ++s) led[s] += out * dt * (out > 0 ? fl->getMassFraction(s) : x0[src][s]);
            for (int t = 0; t < w.mix.nTc(); ++t) ledTc[t] += out * dt / (out > 0 ? fl->getMWeight() : mw0[src]) * (out > 0 ? fl->getTraceCompounds()->getMoleFractions()[t] : tm0[src][t]) * w.mix.comps.getCompound(w.mix.tcTypes[t])->mMWeight; }
        const double tol = eps + 1e-12 * (k + 1) * w.n + 1e-11 * total0;
        NEAR(w.mass(), total0 - led0, 0, tol, "mass-total", mon::fmt("total mass after step %d", k));
        for (int s = 0; s < w.mix.n(); ++s) NEAR(w.species(s), m0[s] - led[s], 0, tol, "mass-species", mon::fmt("species %d mass after step %d", s, k));
        for (int t = 0; t < w.mix.nTc(); ++t) NEAR(w.tc(t), t0[t] - ledTc[t], 0, eps * 1e-3 + 1e-13 * (k + 1) * w.n + 1e-10 * t0[t] + 1e-13 * total0, "tc-mass", mon::fmt("trace compound %d after step %d", t, k));
        uint64_t h = 0; for (size_t i = 0; i < w.f.size(); ++i) { double fr = w.fl(int(i))->getFlowRate(); h = mon::mix(h, w.f[i].k * 3 + (fr > 1e-12) + 2 * (fr < -1e-12)); } c.hit(mon::mix(h, w.mix.n() * 10 + w.mix.nTc()));
    }
    if (moved > 1e-6 * total0) c.count("cases_with_significant_transport");
    c.count("link_steps", long(w.f.size()) * steps);
}

// Heat into a volume node whose outflow exceeds its contents: recorded finding, reproduced here so that its repair or spread is seen.
MON_PROP2(F02, overheat, "heat into an overflowing tank, keyed by the overflow ratio") {
    if (c.caseIndex > 5) return;
    Mix mix(c.r, std::vector<FP::FluidType>{ FP::GUNNS_N2, FP::GUNNS_O2 }, 0); GunnsFluidNode nodes[4]; GunnsNodeList list; list.mNumNodes = 4; list.mNodes = nodes; std::vector<GunnsBasicLink*> links; Gunns net;
    for (int i = 0; i < 4; ++i) nodes[i].initialize(mon::fmt("node%d", i), mix.cfg.get(), 0);
    net.initializeFluidNodes(list); BiasTank tank[3]; const double vol[3] = { 10, 0.01, 10 }, P[3] = { 300, 200, 100 };
    for (int i = 0; i < 3; ++i) { State s{300.0, P[i], {0.75, 0.25}, {}}; Input in(s); tank[i].initialize(GunnsFluidTankConfigData(mon::fmt("t%d", i), &list), GunnsFluidTankInputData(false, 0, vol[i], &in.in), links, i, 3); }
    SpyCond ab, bc; ab.initialize(GunnsFluidConductorConfigData("ab", &list, 0.01), GunnsFluidConductorInputData(), links, 0, 1); bc.initialize(GunnsFluidConductorConfigData("bc", &list, 0.01), GunnsFluidConductorInputData(), links, 1, 2);
    GunnsConfigData cfg("net", 1e-6, 1e-12, 30, 100); net.initialize(cfg, links); const double dt = 0.5; net.step(dt);
    auto E = [&]() { double e = 0; for (int i = 0; i < 3; ++i) e += nodes[i].getContent()->getMass() * nodes[i].getContent()->getSpecificEnthalpy(); return e; };
    const double e0 = E(), q = 2000.0; tank[1].bias(float(q)); const double m1 = nodes[1].getContent()->getMass(); net.step(dt);
    const double ratio = bc.getFlowRate() * dt / m1; c.hit(mon::hd(ratio)); if (ratio > 1.0) NEAR(E(), e0 + q * dt, 0, 1e-7 * e0, "energy-overflow-heated", "total enthalpy after heating an overflowing tank"); else c.fail("setup", "tank does not overflow");
}
MON_PROP(F02, "a random closed network without expansion work or with known heat inputs, keyed by link kinds, flow pattern and heat sign") {
    Opt o; o.tanks = c.r.i(1, 5); o.pure = c.r.i(0, 4); if (o.tanks + o.pure < 2) o.tanks = 2; o.extra = c.r.i(0, 8); o.nTypes = c.r.i(1, 5); o.nTc = 0; o.liquid = c.r.p(0.25); if (o.liquid) o.sources = false;
    Net w(c.r, o); c.note = w.describe(); w.start(); double dt = c.r.p(0.5) ? 0.1 : c.r.logu(0.01, 1.0);
    double e0 = w.energy(), heat = 0, eps = 0, tlo = 1e9, thi = 0, xfer = 0; for (int i = 0; i < w.n; ++i) if (w.vol[i] > 0) { tlo = std::min(tlo, w.nodes[i].getContent()->getTemperature()); thi = std::max(thi, w.nodes[i].getContent()->getTemperature()); }
    const bool heated = c.r.p(0.5); const int steps = c.thorough ? 120 : 40;
    for (int k = 0; k < steps && !c.failed(); ++k) {
        if (c.r.p(0.4)) command(c, w);
        std::vector<double> q(w.n, 0.0);
        for (int i = 0; i < w.o.tanks && heated; ++i) if (w.f[i].k == TANK && c.r.p(0.3)) { q[i] = c.r.sgn() * c.r.u() * 0.002 * w.nodes[i].getContent()->getMass() * w.nodes[i].getContent()->getSpecificHeat() * w.nodes[i].getContent()->getTemperature() / dt; static_cast<BiasTank*>(w.own[i].get())->bias(float(q[i])); q[i] = double(float(q[i])); heat += q[i] * dt; }
            else if (w.f[i].k == TANK) static_cast<BiasTank*>(w.own[i].get())->bias(0.0f);
        w.before();
        if (!step(c, w, dt)) return;
        eps += w.epsMass(dt) * 3e6;
        bool skip = w.unjudgeable(dt);          // also: outside the property data's range, or heat into an overflowing node (known finding, judged in its own case)
        for (int i = 0; i < w.o.tanks; ++i) { const double T = w.nodes[i].getContent()->getTemperature(); if (T < 205 || T > 600) skip = true; }
        if (skip) { c.count("steps_not_judged"); e0 = w.energy(); heat = 0; eps = 0; tlo = 0; thi = 1e9; continue; }
        c.count("steps_judged");
        for (size_t i = 0; i < w.f.size(); ++i) xfer += std::fabs(w.fl(int(i))->getFlowRate()) * dt;
        const double e = w.energy(), sc = std::fabs(e0) + std::fabs(heat);
        NEAR(e, e0 + heat, 0, eps + 3e-7 * sc + 1e-9 * (k + 1), "energy", mon::fmt("total enthalpy after step %d (heat %g)", k, heat));
        if (!heated) for (int i = 0; i < w.n; ++i) if (w.vol[i] > 0) { const double T = w.nodes[i].getContent()->getTemperature();
            CHK(T >= tlo - 0.5 && T <= thi + 0.5, "mixing-temperature", mon::fmt("node %d temperature %g outside the initial range %g..%g with no heat input (step %d)", i, T, tlo, thi, k)); }
        uint64_t h = heated; for (size_t i = 0; i < w.f.size(); ++i) { double fr = w.fl(int(i))->getFlowRate(); h = mon::mix(h, w.f[i].k * 3 + (fr > 1e-12) + 2 * (fr < -1e-12)); } c.hit(h);
    }
    if (xfer > 1e-6 * w.mass()) c.count("cases_with_significant_transport"); if (heated) c.count("heated_cases");
}

MON_PROP(F03, "a fluid node state after a step of a random (hostile) network, keyed by link kinds, pressure and temperature decade") {
    Opt o; o.tanks = c.r.i(1, 4); o.pure = c.r.i(0, 4); if (o.tanks + o.pure < 2) o.tanks = 2; o.extra = c.r.i(0, 8); o.nTypes = c.r.i(1, 6); o.nTc = c.r.p(0.4) ? c.r.i(1, 3) : 0; o.liquid = c.r.p(0.2); o.expansion = c.r.p(0.5) ? c.r.u() : 0; o.ground = c.r.p(0.6); o.maxG = c.r.logu(1e-3, 1.0); o.volLo = 1e-3; if (o.liquid) { o.sources = false; }
    Net w(c.r, o); c.note = w.describe(); w.start(); double dt = c.r.p(0.5) ? 0.1 : c.r.logu(0.01, 2.0); const int steps = c.thorough ? 120 : 50;
    for (int k = 0; k < steps && !c.failed(); ++k) {
        if (c.r.p(0.4)) command(c, w);
        if (!step(c, w, dt)) return;
        for (int i = 0; i < w.n && !c.failed(); ++i) { GunnsFluidNode& nd = w.nodes[i]; PolyFluid* f = nd.getContent();
            validFluid(c, f, mon::fmt("node %d content at step %d", i, k).c_str(), w.vol[i] > 0);
            if (nd.getOutflow()->getMWeight() > 0) { double sx = 0; for (int s = 0; s < w.mix.n(); ++s) sx += nd.getOutflow()->getMassFraction(s); NEAR(sx, 1.0, 0, 1e-9, "outflow-fraction-sum", "outflow mass fraction sum"); FIN(nd.getOutflow()->getTemperature(), "outflow-finite", "outflow temperature"); }
            NEAR(nd.getPotential(), f->getPressure(), 1e-12, 1e-12, "pressure-potential", mon::fmt("node %d content pressure against node potential", i));
            for (int t = 0; t < w.mix.nTc(); ++t) CHK(f->getTraceCompounds()->getMoleFractions()[t] >= 0 && f->getTraceCompounds()->getMasses()[t] >= 0, "tc-negative", mon::fmt("negative trace compound %d in node %d", t, i));
            c.hit(mon::mix(mon::mix(int(std::log10(std::max(1e-9, f->getPressure())) * 4), int(f->getTemperature() / 10)), w.mix.n() * 8 + w.o.liquid)); }
    }
    c.count("node_states", long(w.n) * steps);
}

// Small tanks with large outflows: overflow order must keep mass conserved and non-negative (acyclic overflow).
MON_PROP(F04, "one step of a feed-forward chain or tree with overflowing small nodes, keyed by which nodes overflowed") {
    // feed-forward: links only from lower to higher node index, driven by potentials that force that direction
    Opt o; o.tanks = c.r.i(2, 6); o.pure = 0; o.extra = 0; o.nTypes = c.r.i(1, 4); o.nTc = c.r.p(0.4) ? c.r.i(1, 3) : 0; o.expansion = 0;
    struct Chain : Net { static Opt z(Opt q) { return q; } Chain(mon::Rng& r, const Opt& q) : Net(r, q) {} };
    Mix mix(c.r, o.nTypes, o.nTc, false); const int n = o.tanks; std::unique_ptr<GunnsFluidNode[]> nodes(new GunnsFluidNode[n + 1]); GunnsNodeList list; list.mNumNodes = n + 1; list.mNodes = nodes.get();
    std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink> > own; Gunns net; std::vector<double> vol(n); std::vector<SpyCond*> spies; std::vector<std::pair<int, int> > ends;
    std::vector<std::unique_ptr<Input> > ins;
    for (int i = 0; i <= n; ++i) nodes[i].initialize(mon::fmt("node%d", i), mix.cfg.get(), 0);
    net.initializeFluidNodes(list);
    std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i; c.r.shuffle(order);     // order[k]: node at depth k
    const double P0 = c.r.logu(50, 2000);
    for (int k = 0; k < n; ++k) { const int i = order[k]; State s = randomState(c.r, mix); s.P = P0 * std::pow(c.r.uni(0.3, 0.8), k);
        vol[i] = (k == 0 || k == n - 1) ? c.r.logu(1, 50) : c.r.logu(1e-6, 1e-1); Input in(s); GunnsFluidCapacitor* l = new GunnsFluidCapacitor; own.emplace_back(l);
        l->initialize(GunnsFluidCapacitorConfigData(mon::fmt("cap%d", i), &list, 0.0), GunnsFluidCapacitorInputData(false, 0, vol[i], &in.in), links, i, n); }
    std::vector<std::pair<int, int> > want; for (int k = 1; k < n; ++k) { want.push_back({order[c.r.p(0.7) ? k - 1 : c.r.i(0, k - 1)], order[k]}); if (c.r.p(0.3)) want.push_back({order[c.r.i(0, k - 1)], order[k]}); }
    c.r.shuffle(want);
    for (auto& q : want) { SpyCond* l = new SpyCond; own.emplace_back(l); spies.push_back(l); ends.push_back(q); const bool flip = c.r.p(0.5); l->initialize(GunnsFluidConductorConfigData(mon::fmt("cond%d", int(spies.size())), &list, c.r.logu(1e-4, 1.0), 0.0), GunnsFluidConductorInputData(), links, flip ? q.second : q.first, flip ? q.first : q.second); }
    std::string d = mon::fmt("chain n=%d", n); for (auto& q : want) d += mon::fmt(" %d->%d", q.first, q.second); for (int i = 0; i < n; ++i) d += mon::fmt(" V%d=%.3g", i, vol[i]); c.note = d; c.sample(d);
    GunnsConfigData cfg("chain", 1e-6, 1e-12, 30, 100); net.initialize(cfg, links);
    auto spec = [&](int s) { double m = 0; for (int i = 0; i < n; ++i) m += massOf(nodes[i].getContent(), s); return m; };
    auto tc = [&](int t) { double m = 0; for (int i = 0; i < n; ++i) m += nodes[i].getContent()->getTraceCompounds()->getMasses()[t]; return m; };
    const double dt = c.r.logu(0.05, 2.0);
    for (int k = 0; k < 25 && !c.failed(); ++k) {
        std::vector<double> m0, t0; double tot = 0; for (int s = 0; s < mix.n(); ++s) { m0.push_back(spec(s)); tot += m0.back(); } for (int t = 0; t < mix.nTc(); ++t) t0.push_back(tc(t));
        std::vector<double> mOld(n); for (int i = 0; i < n; ++i) mOld[i] = nodes[i].getContent()->getMass();
        for (auto* q : spies) q->transports = 0;
        try { net.step(dt); } catch (const std::exception& e) { c.fail("step-exception", std::string("step threw ") + e.what()); return; }
        std::vector<int> over(n, 0); bool cyc = false; uint64_t h = n; int nOver = 0;
        // directed flow graph; cyclic overflow is a documented approximation and is not judged
        std::vector<std::pair<int, int> > g; for (size_t i = 0; i < spies.size(); ++i) { const int* m = spies[i]->getNodeMap(); double fr = spies[i]->getFlowRate(); if (fr > 0) g.push_back({m[0], m[1]}); else if (fr < 0) g.push_back({m[1], m[0]}); }
        { std::vector<int> indeg(n, 0); for (auto& e : g) ++indeg[e.second]; std::vector<int> st; for (int i = 0; i < n; ++i) if (!indeg[i]) st.push_back(i); int seen = 0; while (!st.empty()) { int x = st.back(); st.pop_back(); ++seen; for (auto& e : g) if (e.first == x && --indeg[e.second] == 0) st.push_back(e.second); } cyc = seen < n; }
        std::vector<double> out(n, 0), in(n, 0); for (size_t i = 0; i < spies.size(); ++i) { const int* m = spies[i]->getNodeMap(); double fr = spies[i]->getFlowRate(); int a = fr > 0 ? m[0] : m[1], b = fr > 0 ? m[1] : m[0]; out[a] += std::fabs(fr) * dt; in[b] += std::fabs(fr) * dt; }
        for (int i = 0; i < n; ++i) { over[i] = out[i] > mOld[i]; nOver += over[i]; h = mon::mix(h, over[i] + 2 * (in[i] > 0)); }
        c.hit(h); if (nOver) c.count("steps_with_overflow"); c.count("overflowing_nodes", nOver); if (nOver > 1) c.count("steps_with_chained_overflow"); if (cyc) c.count("steps_cyclic_not_judged");
        for (size_t i = 0; i < spies.size(); ++i) CHK(spies[i]->transports == 1, "transport-once", mon::fmt("link %d transported %d times in step %d", int(i), spies[i]->transports, k));
        for (int i = 0; i < n; ++i) CHK(nodes[i].getContent()->getMass() >= 0.0, "negative-mass", mon::fmt("node %d mass %g", i, nodes[i].getContent()->getMass()));
        bool starved = false; for (int i = 0; i < n; ++i) if (mOld[i] + in[i] - out[i] < 1e-15) starved = true;
        if (starved) c.count("steps_starved_not_judged");     // more was drawn than the node held and received: outside the property
        if (cyc || starved) continue;
        // DBL_EPSILON of mass is created in an emptied node by design
        for (int s = 0; s < mix.n(); ++s) NEAR(spec(s), m0[s], 0, 1e-12 * tot + 4e-15 * n, "overflow-species", mon::fmt("species %d over step %d (overflowing nodes %d)", s, k, nOver));
        for (int t = 0; t < mix.nTc(); ++t) NEAR(tc(t), t0[t], 1e-9, 1e-15 + 1e-12 * tot, "overflow-tc", mon::fmt("trace compound %d over step %d", t, k));
        for (int i = 0; i < n; ++i) NEAR(nodes[i].getContent()->getMass(), mOld[i] + in[i] - out[i], 0, 1e-11 * (mOld[i] + in[i] + out[i]) + 1e-13, "node-mass-balance", mon::fmt("node %d mass against link flow rates (step %d)", i, k));
    }
}

// Zero-volume nodes: content becomes the flow-weighted mix of the inflows; node mass balances follow link flow rates.
MON_PROP(F05, "one step at a zero-volume or volume node, keyed by numbers of inflows and outflows and phase") {
    Opt o; o.tanks = c.r.i(2, 5); o.pure = c.r.i(1, 3); o.extra = c.r.i(0, 3); o.nTypes = c.r.i(2, 5); o.nTc = c.r.p(0.3) ? 2 : 0; o.sources = false; o.potentials = false; o.liquid = c.r.p(0.2);
    Net w(c.r, o); c.note = w.describe(); w.start(); const double dt = c.r.logu(0.02, 0.5);
    for (int k = 0; k < 15 && !c.failed(); ++k) {
        if (c.r.p(0.3)) command(c, w);
        std::vector<double> mOld(w.n); std::vector<std::vector<double> > xOld(w.n); for (int i = 0; i < w.n; ++i) { mOld[i] = w.nodes[i].getContent()->getMass(); for (int s = 0; s < w.mix.n(); ++s) xOld[i].push_back(w.nodes[i].getContent()->getMassFraction(s)); }
        w.before();
        if (!step(c, w, dt)) return;
        if (w.unjudgeable(dt)) { c.count("steps_not_judged"); continue; }
        const double eps = w.epsMass(dt);
        std::vector<double> in(w.n, 0), out(w.n, 0), hin(w.n, 0); std::vector<int> ni(w.n, 0), no(w.n, 0); std::vector<std::vector<double> > xin(w.n, std::vector<double>(w.mix.n(), 0.0));
        for (size_t i = 0; i < w.f.size(); ++i) { const FLink& q = w.f[i]; if (q.k == TANK || q.k == CAP) continue; double fr = w.fl(int(i))->getFlowRate(); if (std::fabs(fr) < 1e-13) continue;
            const int a = fr > 0 ? q.a : q.b, b = fr > 0 ? q.b : q.a; fr = std::fabs(fr); out[a] += fr; in[b] += fr; ++no[a]; ++ni[b]; PolyFluid* f = w.nodes[a].getOutflow(); hin[b] += fr * f->getSpecificEnthalpy(); for (int s = 0; s < w.mix.n(); ++s) xin[b][s] += fr * f->getMassFraction(s); }
        double scale = 1e-12; for (int i = 0; i < w.n; ++i) scale = std::max(scale, in[i]);
        for (int i = 0; i < w.n; ++i) { PolyFluid* f = w.nodes[i].getContent();
            if (w.vol[i] > 0) { NEAR(f->getMass(), mOld[i] + (in[i] - out[i]) * dt, 1e-11, eps + 1e-12, "tank-mass-balance", mon::fmt("node %d mass against its links' flow rates", i)); 
                for (int s = 0; s < w.mix.n(); ++s) NEAR(f->getMass() * f->getMassFraction(s), mOld[i] * xOld[i][s] + (xin[i][s] - out[i] * (w.nodes[i].getOutflow()->getMassFraction(s))) * dt, 1e-9, eps + 1e-11 * (mOld[i] + in[i] * dt) + 1e-12, "tank-species-balance", mon::fmt("node %d species %d", i, s)); }
            else { NEAR(in[i], out[i], 1e-9, eps / dt + 1e-12, "pure-node-balance", mon::fmt("zero-volume node %d inflow against outflow", i));
                if (in[i] > 1e-9) { c.count("mixed_pure_nodes"); for (int s = 0; s < w.mix.n(); ++s) NEAR(f->getMassFraction(s), xin[i][s] / in[i], 1e-6, 1e-9 + eps / dt / in[i], "pure-node-mix", mon::fmt("zero-volume node %d species %d of the inflow mix", i, s));
                    NEAR(f->getSpecificEnthalpy(), hin[i] / in[i], 1e-6 + eps / dt / in[i], 1.0, "pure-node-enthalpy", mon::fmt("zero-volume node %d enthalpy of the inflow mix", i)); } }
            c.hit(mon::mix(ni[i] * 10 + no[i], (w.vol[i] > 0) * 2 + w.o.liquid)); c.hit(mon::mix(mon::hd(in[i]), i)); }
    }
}

// Pressure follows the equation of state of the contents once transients settle, through volume and temperature edits.
MON_PROP(F06, "a network settled at rest after edits, keyed by the final pressure and species") {
    Opt o; o.tanks = c.r.i(1, 4); o.pure = c.r.i(0, 1); if (o.tanks + o.pure < 2) o.tanks = 2; o.extra = c.r.i(0, 4); o.nTypes = c.r.i(1, 4); o.sources = false; o.potentials = false; o.maxG = 1e-2; o.volLo = 0.5;
    Net w(c.r, o); c.note = w.describe(); w.start(); const double dt = 0.1; int edits = 0;
    auto eos = [&](int i) { PolyFluid* f = w.nodes[i].getContent(); return f->computePressure(f->getTemperature(), f->getMass() / w.nodes[i].getVolume()); };
    for (int k = 0; k < 30; ++k) if (!step(c, w, dt)) return;
    for (size_t q = 0; q < w.f.size(); ++q) if (w.f[q].k == COND || w.f[q].k == CHECK) w.own[q]->setMalfBlockage(true, 1.0); else if (w.f[q].k == VALVE) static_cast<GunnsFluidValve*>(w.own[q].get())->setPosition(0.0);
    const int i = c.r.i(0, w.o.tanks - 1);
    if (w.f[i].k == TANK) { GunnsFluidTank* t = static_cast<GunnsFluidTank*>(w.own[i].get()); const double T = w.o.liquid ? c.r.uni(285, 340) : c.r.uni(230, 450), P = c.r.logu(20, 800); PolyFluid* f = w.nodes[i].getContent();
        if (c.r.p(0.5)) { t->editTemperaturePressure(true, T, P); for (int k = 0; k < 4; ++k) if (!step(c, w, dt)) return; NEAR(f->getTemperature(), T, 1e-7, 1e-6, "edit-temperature", "edited temperature"); NEAR(f->getPressure(), P, 1e-7, 1e-6, "edit-pressure", "edited pressure");
            NEAR(f->getMass(), f->computeDensity(T, P) * w.vol[i], 1e-6, 1e-9, "edit-mass", "mass after edit is density * volume"); t->editTemperaturePressure(false, T, P); ++edits; c.count("edit_TP"); }
        else { t->editTemperature(true, T); const double p0 = f->getPressure(); if (!step(c, w, dt)) return; NEAR(f->getTemperature(), T, 1e-6, 1e-6, "edit-temperature", "edited temperature"); NEAR(f->getPressure(), p0, 0.05, 1e-6, "edit-temperature-pressure", "pressure after a temperature edit"); ++edits; c.count("edit_T"); } }
    for (int k = 0; k < 80; ++k) if (!step(c, w, dt)) return;
    std::vector<double> m0; for (int j = 0; j < w.o.tanks; ++j) m0.push_back(w.nodes[j].getContent()->getMass());
    for (int k = 0; k < 5; ++k) if (!step(c, w, dt)) return;
    for (int j = 0; j < w.o.tanks; ++j) { PolyFluid* f = w.nodes[j].getContent();
        NEAR(f->getMass(), m0[j], 1e-12, 1e-14, "isolated-mass", mon::fmt("isolated tank %d mass", j));
        NEAR(f->getPressure(), eos(j), 2e-3, w.o.liquid ? 20.0 : 0.02, "eos-pressure", mon::fmt("tank %d pressure against its equation of state", j));
        if (!w.o.liquid) NEAR(f->getPressure() * w.vol[j], f->getMass() / f->getMWeight() * 8.314472 * f->getTemperature(), 2e-3, 0.02 * w.vol[j], "ideal-gas-law", mon::fmt("tank %d PV = nRT", j));
        c.hit(mon::mix(int(f->getPressure() * 10), int(f->getTemperature() * 10))); }
    c.count("edits", edits);
}

// One node driven directly: every term of its mass, species, trace compound and energy balance, with
// overflow, heat, thermal damping and expansion together.
namespace { struct XNode : GunnsFluidNode { double damped() const { return mThermalDampingHeat; } }; }
MON_PROP2(F05, node, "one integration of a node's flows, keyed by volume, overflow, damping and expansion") {
    mon::Rng& r = c.r; Mix mix(r, r.i(1, 4), r.p(0.4) ? r.i(1, 3) : 0, r.p(0.2)); const int K = mix.n(), TC = mix.nTc(); const bool vol = r.p(0.8), gas = !mix.liquid; State s0 = randomState(r, mix); if (gas) { s0.P = r.uni(20, 500); s0.T = r.uni(260, 400); } Input in0(s0);
    XNode nd; nd.initialize("nd", mix.cfg.get(), &in0.in); nd.initVolume(vol ? r.logu(1e-3, 10) : 0.0); nd.resetFlows(); nd.updateMass(); const double sc = gas && K == 1 && vol && r.p(0.4) ? r.u() : 0.0; nd.setExpansionScaleFactor(sc); const double md = vol && r.p(0.3) ? r.logu(0.01, 100) : 0.0; nd.setThermalDampingMass(md);
    { bool threw = false; try { nd.setThermalDampingMass(-1.0); } catch (TsOutOfBoundsException&) { threw = true; } CHK(threw, "node-damping", "a negative damping mass was accepted"); }
    for (int k = 0, N = r.i(1, 8); k < N; ++k) {
        nd.resetFlows(); PolyFluid* f = nd.getContent(); const double Pp = f->getPressure(); if (gas && r.p(0.7)) nd.setPotential(Pp * r.uni(0.8, 1.25)); const double dt = r.logu(0.01, 1.0), M0 = f->getMass(), T0 = f->getTemperature(), h0 = f->getSpecificEnthalpy(), W0 = f->getMWeight(), g = f->getAdiabaticIndex(), cp = f->getSpecificHeat(), P1 = f->getPressure();
        std::vector<double> x0(K), t0(TC), ti(TC, 0.0), xi(K, 0.0); for (int i = 0; i < K; ++i) x0[i] = f->getMassFraction(i); for (int i = 0; i < TC; ++i) t0[i] = f->getTraceCompounds()->getMasses()[i];
        const double Mref = vol ? M0 : 1.0; double Hin = 0, mi = 0, ni = 0; const int nin = r.i(0, 3);
        for (int j = 0; j < nin; ++j) { State s = randomState(r, mix); if (gas) s.T = r.uni(260, 400); Input in(s); PolyFluid q(*mix.cfg, in.in); q.setPressure(s.P); const double rate = Mref / dt * r.logu(1e-4, 1.0); if (TC) { q.setMass(rate); q.getTraceCompounds()->setMasses(); } nd.collectInflux(rate, &q); mi += rate; Hin += rate * q.getSpecificEnthalpy(); ni += rate / q.getMWeight(); for (int i = 0; i < K; ++i) xi[i] += rate * q.getMassFraction(i); for (int i = 0; i < TC; ++i) ti[i] += rate / q.getMWeight() * q.getTraceCompounds()->getMoleFractions()[i] * q.getTraceCompounds()->getConfig()->mCompounds[i]->mMWeight; }
        double Q = r.p(0.5) && (vol || mi > 0) ? 1e3 * r.sgn() * r.u() * (vol ? M0 / dt : mi) : 0; if (Q != 0) nd.collectHeatFlux(Q); const double Qu = md > 0 && r.p(0.5) ? Q * r.u() : 0.0; nd.setUndampedHeatFlux(Qu);
        std::vector<double> tr(TC, 0.0); for (int i = 0; i < TC; ++i) if (vol && r.p(0.3)) { tr[i] = r.u() * 1e-6 * M0 / dt; nd.collectTc(i, tr[i]); }
        const double om = vol ? (r.p(0.3) ? 0.0 : ni > 0 && r.p(0.4) ? M0 / W0 / dt + ni * r.u() * 0.99 : M0 / W0 * r.logu(0.01, r.p(0.3) ? 3.0 : 0.9) / dt) : r.p(0.9) ? ni : 0.0; nd.scheduleOutflux(om);
        const double co = std::min(om * dt, M0 / W0), io = std::min(ni * dt, om * dt - co), wi = ni > 0 ? mi / ni : 0.0, m1 = M0 - co * W0 + mi * dt - io * wi, thru = io * wi / dt;
        const double Hout = co * W0 / dt * h0 + (thru > 0 ? thru * (Hin + Q) / mi : 0.0);
        c.note = mon::fmt("node vol %g K %d TC %d liq %d M0 %g T0 %g dt %g in %d x %g out %g mol Q %g Qu %g damping %g expansion %g P %g -> %g", nd.getVolume(), K, TC, int(!gas), M0, T0, dt, nin, mi, om, Q, Qu, md, sc, Pp, P1);
        nd.integrateFlows(dt); if (k == 0) c.sample(c.note);
        NEAR(f->getPressure(), P1, 1e-12, 0, "node-potential", "content pressure after integration");
        if (vol && (m1 < 1e-9 * M0 || m1 < 1e-9)) { c.count("emptied"); return; }
        const double h1want = (M0 * h0 + (Hin + Q - Hout) * dt) / m1;
        if (vol) {
            if (h1want < 1e3 || std::fabs(h1want / h0 - 1) > (gas ? 0.5 : 0.2)) { c.count("extreme"); return; }
            NEAR(f->getMass(), m1, 1e-11, 1e-13 * (M0 + mi * dt), "node-mass", "node mass"); for (int i = 0; i < K; ++i) NEAR(f->getMass() * f->getMassFraction(i), (M0 - co * W0) * x0[i] + xi[i] * (dt - (mi > 0 ? io * wi / mi : 0.0)), 1e-9, 1e-11 * (M0 + mi * dt), "node-species", mon::fmt("species %d", i));
            double h = h1want, dampW = 0; if (md > 0) { const double hm = f->computeSpecificEnthalpy(T0) + Qu * dt / m1; h = hm + (h - hm) * m1 / (m1 + md); dampW = (h1want - h) * m1 / dt; NEAR(nd.damped(), dampW, 1e-7, 1e-7 * std::fabs(h1want * m1 / dt), "node-damped-heat", "heat held by the damping mass"); c.count("damped"); }
            if (sc > 0) { h += (M0 - co * W0) / m1 * cp * sc * T0 * (std::pow(P1 / Pp, (g - 1) / g) - 1); c.count("expanded"); }
            const double Tw = f->computeTemperature(h); if (!(Tw > (gas ? 230.0 : 275.0) && Tw < (gas ? 430.0 : 345.0))) { c.count("extreme"); return; } NEAR(f->getSpecificEnthalpy(), h, 1e-6, 1.0, "node-energy", mon::fmt("specific enthalpy (T %g to %g)", T0, f->getTemperature()));
            for (int i = 0; i < TC; ++i) NEAR(f->getTraceCompounds()->getMasses()[i], t0[i] * (1 - co * W0 / M0) + ti[i] * (dt - (mi > 0 ? io * wi / mi : 0.0)) + tr[i] * dt * (std::fabs(mi * dt) > 0 || true), 1e-8, 1e-13 * (M0 + mi * dt), "node-tc", mon::fmt("trace compound %d", i));
            NEAR(nd.getNetFlux(), mi - (co * W0 / dt + thru), 1e-9, 1e-12 * (mi + om), "node-net-flux", "net flux"); NEAR(nd.getFluxThrough(), std::min(mi, co * W0 / dt + thru), 1e-9, 1e-15, "node-flux-through", "flux through");
            NEAR(nd.getNetHeatFlux(), Hin + Q - Hout, 1e-7, 1e-7 * (std::fabs(Hin) + std::fabs(Hout)) + 1e-9, "node-net-heat", "net heat flux");
        } else if (mi > 0) { NEAR(f->getSpecificEnthalpy(), (Hin + Q) / mi, 1e-6, 1.0, "node-pure-energy", "enthalpy of a zero-volume node against its inflow's"); for (int i = 0; i < K; ++i) NEAR(f->getMassFraction(i), xi[i] / mi, 1e-7, 1e-9, "node-pure-mix", mon::fmt("species %d", i)); }
        if (om > 0) { PolyFluid* o = nd.getOutflow(); NEAR(o->getPressure(), P1, 1e-9, 0, "node-outflow", "outflow pressure"); if (vol) for (int i = 0; i < K; ++i) NEAR(o->getMassFraction(i), (co * W0 * x0[i] + (mi > 0 ? io * wi * xi[i] / mi : 0.0)) / (co * W0 + io * wi), 1e-7, 1e-9, "node-outflow", mon::fmt("outflow species %d", i)); }
        if (io > 0 && vol) c.count("overflowed"); c.hit(mon::mix(mon::mix(vol * 8 + (io > 0) * 4 + (md > 0) * 2 + (sc > 0), nin * 8 + K * 2 + (om > 0)), (Q > 0) + 2 * (Q < 0) + 4 * gas)); if (c.failed()) return;
    }
}
