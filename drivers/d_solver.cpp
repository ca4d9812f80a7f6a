// Network solver: solution correctness, island modes, permutation, run modes, ports, overrides.
#include "bnet.hpp"
#include <algorithm>
using namespace bnet;
using mon::fmt;

// Everything an observer can see after a successful step of a basic network, against circuit laws.
static void judgeStep(mon::Ctx& c, Net& N, double dt, const std::string& tag, double relTol, bool pots = true, const std::vector<bool>* ov = 0) {
    std::vector<double> ref; std::vector<int> comp; std::vector<bool> gr;
    bool ok = N.reference(dt, ref, comp, gr);
    const double sc = N.scale();
    double sumFluxScale = 0;
    std::vector<double> in(N.n + 1, 0), out(N.n + 1, 0), mag(N.n + 1, 1e-12);
    for (size_t i = 0; i < N.s.size(); ++i) {
        const Spec& q = N.s[i];
        const double f = N.own[i]->getFlux(), e = N.flux(int(i), dt);
        double g = q.k == CAP ? q.v / dt : q.k == SRC ? 0 : N.G(int(i));
        double fs = g * (sc + std::fabs(q.k == CAP ? N.capDp[i] : 0)) + std::fabs(e);
        NEAR(f, e, 1e-9, 1e-11 * fs + 1e-300, tag + ":law", fmt("%s link %d kind %d flux vs its law", tag.c_str(), int(i), q.k));
        NEAR(N.own[i]->getPower(), -f * (N.P(q.a) - N.P(q.b)), 1e-9, 1e-11 * fs * sc, tag + ":power", "link power");
        NEAR(N.own[i]->getPotentialDrop(), N.P(q.a) - N.P(q.b), 1e-12, 1e-14 * sc, tag + ":drop", "link potential drop");
        if (f > 0) { out[q.a] += f; in[q.b] += f; } else { in[q.a] -= f; out[q.b] -= f; }
        mag[q.a] += fs; mag[q.b] += fs; sumFluxScale += fs;
    }
    for (int i = 0; i < N.n; ++i) {
        const GunnsBasicNode& nd = N.nodes[i];
        NEAR(nd.getInflux(), in[i], 1e-12, 1e-13 * mag[i], tag + ":influx", fmt("node %d influx", i));
        NEAR(nd.getOutflux(), out[i], 1e-12, 1e-13 * mag[i], tag + ":outflux", fmt("node %d outflux", i));
        NEAR(nd.getNetFlux(), in[i] - out[i], 1e-12, 1e-12 * mag[i], tag + ":netflux", fmt("node %d net flux", i));
        NEAR(nd.getFluxThrough(), std::min(in[i], out[i]), 1e-12, 1e-12 * mag[i], tag + ":through", fmt("node %d flux through", i));
        if (!(ov && (*ov)[comp[i]]) && gr[comp[i]]) {
            CHK(std::fabs(in[i] - out[i]) <= relTol * mag[i], tag + ":kcl", fmt("node %d inflow %.12g outflow %.12g (scale %.3g)", i, in[i], out[i], mag[i]));
            c.hit(mon::mix(mon::hd(N.P(i)), i));
        }
        if (ok && pots && gr[comp[i]] && !(ov && (*ov)[comp[i]]))
            NEAR(N.P(i), ref[i], relTol, N.tol(std::max(relTol * sc, relTol > 1e-7 ? 1e-8 : 0.0), relTol, N.P(i), ref[i], dt, ref, i), tag + ":potential", fmt("node %d potential vs dense reference", i));
    }
    CHK(N.nodes[N.n].getPotential() == 0.0, tag + ":ground", "ground potential is not zero");
}

static void mutate(mon::Ctx& c, Net& N, int m) {
    mon::Rng& r = c.r;
    for (int k = 0; k < m; ++k) {
        const int i = r.i(0, int(N.s.size()) - 1); const Spec& q = N.s[i]; const bool core = false; (void)core;
        switch (r.i(0, 4)) {
            case 0: case 1: if (q.k == SRC) N.setV(i, r.p(0.1) ? 0 : r.sgn() * r.logu(0.01, 100)); else if (q.k == CAP) N.setV(i, r.logu(0.01, 100)); else N.setV(i, r.p(0.08) ? 0.0 : r.logu(1e-2, 1e3)); break;
            case 2: if (q.k == POT) N.setPot(i, r.sgn() * r.logu(0.01, 1000)); break;
            case 3: if (q.k != CAP) N.setBlk(i, r.p(0.6), r.p(0.2) ? 1.0 : r.u()); break;
            case 4: { int port = r.i(0, 1), node = r.i(-1, N.n + 1), other = port ? q.a : q.b;
                bool legal = node >= 0 && node <= N.n && (node == N.n || node != other);
                bool ok = N.setPort(i, port, node);
                CHK(ok == legal, "setPort:rule", fmt("setPort(%d,%d) returned %d, expected %d (n=%d other=%d)", port, node, ok, legal, N.n, other)); break; }
        }
    }
}

MON_PROP2(C01, hist, "random linear networks of 1-24 nodes (1e-2..1e3 conductance spread, islands, zero conductance, blockages) stepped through random parameter/port histories; distinct = (node, potential) pairs in grounded islands judged against KCL and a long-double dense reference") {
    mon::Rng& r = c.r; const int n = r.i(1, c.thorough ? 40 : 24);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(1, 2 * n + 3), 1e-2, 1e3, r.p(0.7), r.p(0.6));
    c.note = describe(sp, n); Net N(n, sp); N.reportFloating = true; N.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
    c.sample(c.note); const bool sor = r.p(0.1); 
    double dt = r.p(0.8) ? 0.1 : r.logu(1e-3, 10);
    for (int k = 0, K = r.i(2, 12); k < K; ++k) {
        if (k) mutate(c, N, r.i(0, 4));
        if (r.p(0.1)) N.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
        if (r.p(0.05)) dt = r.logu(1e-3, 10);
        bool zeroDiag = false; { std::vector<double> d(n, 0); for (size_t i = 0; i < N.s.size(); ++i) { double g = N.s[i].k == CAP ? N.s[i].v : N.s[i].k == SRC ? 0 : N.G(int(i)); if (N.s[i].a < n) d[N.s[i].a] += g; if (N.s[i].b < n) d[N.s[i].b] += g; } for (double x : d) zeroDiag = zeroDiag || x == 0; }
        bool useSor = sor && !zeroDiag && r.p(0.5);
        if (useSor) { std::vector<int> comp; std::vector<bool> gr; N.islands(dt, comp, gr); for (int i = 0; i < n; ++i) if (!gr[comp[i]]) useSor = false; }
        N.net.sor(useSor);
        N.preStep(); if (!N.step(c, dt)) break; c.count("steps"); if (useSor) c.count("sor_steps");
        judgeStep(c, N, dt, useSor ? "sor" : "solve", useSor ? 1e-6 : 1e-8);
        if (c.failed()) break;
    }
}

// Isolated tree-shaped networks of pure resistors and one source: closed form.
MON_PROP2(C01, big, "larger networks (25-90 nodes) and extreme but well posed conductance spreads: KCL residual relative to the flux scale") {
    mon::Rng& r = c.r; const int n = r.i(25, c.thorough ? 120 : 60); const bool wide = r.p(0.5);
    std::vector<Spec> sp = randomSpecs(r, n, n, wide ? 1e-6 : 1e-1, wide ? 1e6 : 10, r.p(0.5), true);
    c.note = describe(sp, n); Net N(n, sp); N.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
    for (int k = 0; k < 3; ++k) { if (k) mutate(c, N, 3); N.preStep(); if (!N.step(c, 0.1)) break; c.count("steps"); judgeStep(c, N, 0.1, "big", wide ? 1e-7 : 1e-8, !wide); if (c.failed()) break; }
}

// Floating islands whose row sums are exact must solve, to zero potential; the others are a recorded finding (case 2 reproduces it).
MON_PROP2(C01, floating, "floating islands of 2-6 nodes with dyadic conductances beside a grounded part: the step must succeed, the grounded part match the reference and the floating nodes stay at zero; the first case reproduces the recorded finding for inexact row sums") {
    mon::Rng r0(4242); mon::Rng& r = c.caseIndex < 3 ? r0 : c.r;
    if (c.caseIndex < 3) {
        for (int k = 0; k < 60 && !c.failed(); ++k) { const int m = r.i(3, 6); std::vector<Spec> sp; for (int i = 1; i < m; ++i) sp.push_back(Spec{COND, i, r.i(0, i - 1), r.logu(1e-2, 1e3), 0, false, 0});
            sp.push_back(Spec{COND, 0, m - 1, r.logu(1e-2, 1e3), 0, false, 0}); c.note = describe(sp, m); Net N(m, sp); N.reportFloating = true; N.preStep(); N.step(c, 0.1); }
        return; }
    const int m = r.i(2, 6), g = r.i(1, 4), n = m + g; std::vector<Spec> sp;
    for (int i = 1; i < m; ++i) sp.push_back(Spec{COND, i, r.i(0, i - 1), double(1 << r.i(0, 3)), 0, false, 0});
    sp.push_back(Spec{COND, m, n, r.logu(0.1, 10), 0, false, 0}); sp.push_back(Spec{SRC, n, m, r.logu(0.1, 10), 0, false, 0}); for (int i = m + 1; i < n; ++i) sp.push_back(Spec{COND, i, r.i(m, i - 1), r.logu(0.1, 10), 0, false, 0});
    c.note = describe(sp, n); c.sample(c.note); Net N(n, sp); N.reportFloating = true; N.floatExact = true; N.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
    for (int k = 0, K = r.i(1, 4); k < K; ++k) { if (k) { int i = r.i(0, int(sp.size()) - 1); if (sp[i].a < m) N.setV(i, double(1 << r.i(0, 3))); else N.setV(i, r.logu(0.1, 10)); } N.preStep(); if (!N.step(c, 0.1)) return; c.count("floating_steps");
        judgeStep(c, N, 0.1, "floating", 1e-8); for (int i = 0; i < m; ++i) CHK(std::fabs(N.P(i)) < 1e-9, "floating:zero", fmt("floating node %d has potential %g", i, N.P(i))); if (c.failed()) return; }
}

MON_PROP2(C02, tiny, "solidly grounded clusters joined by connections of 1e-300..1e-6 conductance: still one island each as long as the conductance is not zero, and the potentials match the reference") {
    mon::Rng& r = c.r; const int n = r.i(2, 14); std::vector<Spec> sp;
    for (int i = 0; i < n; ++i) sp.push_back(Spec{COND, i, n, r.logu(1e-2, 1e2), 0, false, 0});
    for (int i = r.i(1, n); i > 0; --i) { Spec q{COND, r.i(0, n - 1), r.i(0, n - 1), r.p(0.1) ? 0.0 : r.p(0.3) ? r.logu(1e-300, 1e-20) : r.p(0.5) ? r.logu(1e-20, 1e-12) : r.logu(1e-12, 1e-6), 0, false, 0}; if (q.a != q.b) sp.push_back(q); }
    for (int i = r.i(1, 3); i > 0; --i) sp.push_back(Spec{SRC, n, r.i(0, n - 1), r.uni(-10, 10), 0, false, 0});
    r.shuffle(sp); c.note = describe(sp, n); Net A(n, sp), B(n, sp), C(n, sp); Net* nets[3] = {&A, &B, &C}; A.net.setIslandMode(Gunns::OFF); B.net.setIslandMode(Gunns::FIND); C.net.setIslandMode(Gunns::SOLVE); const double dt = 0.1;
    for (int k = 0; k < 2; ++k) {
        for (Net* N : nets) { N->preStep(); if (!N->step(c, dt)) return; } c.count("steps_tiny"); std::vector<double> ref; std::vector<int> comp; std::vector<bool> gr; A.reference(dt, ref, comp, gr); const double sc = A.scale();
        std::set<int> ids; for (int i = 0; i < n; ++i) ids.insert(comp[i]);
        for (int j = 1; j <= 2; ++j) { CHK(nets[j]->net.islandCount() == int(ids.size()), "island:count", fmt("island count %d, connectivity %d", nets[j]->net.islandCount(), int(ids.size())));
            for (int i = 0; i < n; ++i) { std::vector<int> want; for (int m = 0; m < n; ++m) if (comp[m] == comp[i]) want.push_back(m); std::vector<int> got(*nets[j]->nodes[i].getIslandVector()); std::sort(got.begin(), got.end());
                CHK(got == want, "island:partition", fmt("mode %d node %d island has %d nodes, connectivity says %d", j, i, int(got.size()), int(want.size()))); } }
        for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) { NEAR(nets[j]->P(i), ref[i], 1e-8, 1e-9 * sc, fmt("island-mode:%d", j), fmt("node %d potential in network variant %d", i, j)); c.hit(mon::mix(mon::hd(ref[i]), comp[i])); }
        if (c.failed()) return;
        int m = r.i(0, int(sp.size()) - 1); if (sp[m].k == COND && sp[m].b != n) { double v = r.p(0.3) ? 0.0 : r.logu(1e-18, 1e-6); for (Net* N : nets) N->setV(m, v); }
    }
}

MON_PROP(C02, "triples of identical networks run in island modes OFF/FIND/SOLVE (and switched at random) through the same history, compared node by node and against a union-find of the conducting graph; distinct = (island partition, potential) seen") {
    mon::Rng& r = c.r; const int n = r.i(1, 22);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(1, n + 4), 1e-2, 1e3, true, r.p(0.2)); c.note = describe(sp, n);
    Net A(n, sp), B(n, sp), C(n, sp), D(n, sp); Net* nets[4] = {&A, &B, &C, &D};
    A.net.setIslandMode(Gunns::OFF); B.net.setIslandMode(Gunns::FIND); C.net.setIslandMode(Gunns::SOLVE);
    const double dt = 0.1; c.sample(c.note);
    for (int k = 0, K = r.i(2, 10); k < K; ++k) {
        if (k) { mon::Rng save = c.r; mutate(c, A, 3); mon::Rng after = c.r; for (int j = 1; j < 4; ++j) { c.r = save; mutate(c, *nets[j], 3); } c.r = after; }
        D.net.setIslandMode(Gunns::IslandMode(r.i(0, 2)));
        bool okStep = true; for (Net* N : nets) { N->preStep(); okStep = N->step(c, dt) && okStep; } if (!okStep) break; c.count("steps");
        std::vector<double> ref; std::vector<int> comp; std::vector<bool> gr; A.reference(dt, ref, comp, gr); const double sc = A.scale();
        for (int i = 0; i < n; ++i) {
            if (gr[comp[i]]) for (int j = 0; j < 4; ++j) NEAR(nets[j]->P(i), ref[i], 1e-8, A.tol(1e-8 * sc, 1e-8, nets[j]->P(i), ref[i], dt, ref, i, k + 2), fmt("island-mode:%d", j), fmt("node %d potential in network variant %d", i, j));
            for (int j = 1; j <= 2; ++j) {
                const std::vector<int>* iv = nets[j]->nodes[i].getIslandVector();
                CHK(iv != 0, "island:null", "no island vector in FIND/SOLVE mode"); if (!iv) continue;
                std::vector<int> want; for (int m = 0; m < n; ++m) if (comp[m] == comp[i]) want.push_back(m);
                std::vector<int> got(*iv); std::sort(got.begin(), got.end());
                CHK(got == want, "island:partition", fmt("mode %d node %d island has %d nodes, connectivity says %d", j, i, int(got.size()), int(want.size())));
            }
            if (gr[comp[i]]) c.hit(mon::mix(mon::hd(ref[i]), comp[i]));
        }
        std::set<int> ids; for (int i = 0; i < n; ++i) ids.insert(comp[i]);
        for (int j = 1; j <= 2; ++j) CHK(nets[j]->net.islandCount() == int(ids.size()), "island:count", fmt("island count %d, connectivity %d", nets[j]->net.islandCount(), int(ids.size())));
        for (size_t i = 0; i < A.s.size(); ++i) if (A.s[i].a == n || gr[comp[A.s[i].a]]) if (A.s[i].b == n || gr[comp[A.s[i].b]]) for (int j = 1; j < 4; ++j) {
            double g = A.s[i].k == CAP ? A.s[i].v / dt : A.s[i].k == SRC ? 0 : A.G(int(i));
            NEAR(nets[j]->own[i]->getFlux(), A.own[i]->getFlux(), 1e-7, 1e-8 * sc * g + 1e-12, "island:flux", fmt("link %d flux differs between island modes", int(i))); }
        if (c.failed()) break;
    }
}

MON_PROP(C03, "pairs of the same network with links listed in a random order and nodes renumbered, run through the same history; distinct = (node, potential) pairs compared") {
    mon::Rng& r = c.r; const int n = r.i(2, 22);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(2, 2 * n), 1e-2, 1e3, true, true); c.note = describe(sp, n);
    std::vector<int> pn(n + 1), pl(sp.size()); for (int i = 0; i < n; ++i) pn[i] = i; for (size_t i = 0; i < sp.size(); ++i) pl[i] = int(i);
    std::vector<int> t(pn.begin(), pn.begin() + n); r.shuffle(t); for (int i = 0; i < n; ++i) pn[i] = t[i]; pn[n] = n; r.shuffle(pl);
    std::vector<Spec> sq(sp.size()); for (size_t i = 0; i < sp.size(); ++i) { sq[pl[i]] = sp[i]; sq[pl[i]].a = pn[sp[i].a]; sq[pl[i]].b = pn[sp[i].b]; }
    // capacitors write the initial potential of their node at initialization, so the order matters there only by definition: give all capacitors zero initial potential
    for (auto& q : sp) if (q.k == CAP) q.pot = 0; for (auto& q : sq) if (q.k == CAP) q.pot = 0;
    Net A(n, sp), B(n, sq); A.net.setIslandMode(Gunns::IslandMode(r.i(0, 2))); B.net.setIslandMode(Gunns::IslandMode(r.i(0, 2))); const double dt = 0.1; c.sample(c.note); double big = 0;   // largest potential so far: capacitors carry its roundoff over, also from islands that have no meaningful level
    for (int k = 0, K = r.i(2, 10); k < K; ++k) {
        if (k) for (int m = r.i(0, 3); m > 0; --m) { int i = r.i(0, int(sp.size()) - 1), j = pl[i]; const Spec& q = A.s[i];
            if (r.p(0.25)) { int port = r.i(0, 1), node = r.i(0, n); bool x = A.setPort(i, port, node), y = B.setPort(j, port, pn[node]); CHK(x == y, "perm:setPort", "setPort verdict depends on numbering"); }
            else { double v = q.k == SRC ? r.sgn() * r.logu(0.01, 100) : r.logu(1e-2, 1e2); A.setV(i, v); B.setV(j, v); } }
        A.preStep(); B.preStep(); if (!A.step(c, dt) || !B.step(c, dt)) break; c.count("steps");
        std::vector<double> ref; std::vector<int> comp; std::vector<bool> gr; A.reference(dt, ref, comp, gr); const double sc = big = std::max(big, std::max(A.scale(), B.scale()));
        for (int i = 0; i < n; ++i) if (gr[comp[i]]) { NEAR(B.P(pn[i]), A.P(i), 1e-8, A.tol(1e-8 * sc, 1e-8, B.P(pn[i]), A.P(i), dt, ref, i, k + 2), "perm:potential", fmt("node %d potential depends on order", i)); c.hit(mon::mix(mon::hd(A.P(i)), i)); }
        for (size_t i = 0; i < A.s.size(); ++i) if ((A.s[i].a == n || gr[comp[A.s[i].a]]) && (A.s[i].b == n || gr[comp[A.s[i].b]])) { double g = A.s[i].k == CAP ? A.s[i].v / dt : A.s[i].k == SRC ? 0 : A.G(int(i));
            NEAR(B.own[pl[i]]->getFlux(), A.own[i]->getFlux(), 1e-7, 1e-8 * sc * g + 1e-12, "perm:flux", fmt("link %d flux depends on order", int(i))); }
        // an island without a ground has no level of its own: a capacitor on it may carry the level it got by chance into later steps
        bool chance = false; for (auto& q : A.s) if (q.k == CAP) for (int e : {q.a, q.b}) if (e < n && !gr[comp[e]]) chance = true; if (chance) { c.count("level_by_chance"); break; }
        if (c.failed()) break;
    }
}

// C06: modes.  Reference network never leaves NORMAL/RUN.
MON_PROP(C06, "random interleavings of NORMAL/SLAVE/DUMMY/PAUSE (and SOR on/off) steps with and without parameter changes; PAUSE must change nothing, SLAVE must impose the given potentials, DUMMY must leave node potentials, and the first NORMAL step afterwards must again satisfy the circuit laws; distinct = (mode sequence, potential)") {
    mon::Rng& r = c.r; const int n = r.i(1, 14);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(1, n + 3), 1e-1, 1e2, false, true); c.note = describe(sp, n); c.sample(c.note);
    Net N(n, sp); N.net.setIslandMode(Gunns::IslandMode(r.i(0, 2))); const double dt = 0.1; std::string modes; bool wantSor = false;
    for (int k = 0, K = r.i(3, 14); k < K; ++k) {
        int mode = r.p(0.45) ? 0 : r.i(1, 3);
        if (r.p(0.2)) { wantSor = !wantSor; N.net.sor(wantSor); modes += wantSor ? "S+" : "S-"; }
        if (r.p(0.35)) { modes += "m"; for (int m = 0; m < 2; ++m) { int i = r.i(0, int(sp.size()) - 1); const Spec& q = N.s[i]; if (q.k == SRC) N.setV(i, r.sgn() * r.logu(0.01, 100)); else N.setV(i, r.logu(1e-1, 1e2)); } }
        modes += "NSDP"[mode];
        std::vector<double> before(n), flux(N.s.size()), slave(n); for (int i = 0; i < n; ++i) before[i] = N.nodes[i].getPotential(); for (size_t i = 0; i < N.s.size(); ++i) flux[i] = N.own[i]->getFlux();
        N.net.setRunMode(); if (mode == 0) N.net.setNormalMode(); if (mode == 2) N.net.setDummyMode();
        if (mode == 1) { N.net.setSlaveMode(); for (int i = 0; i < n; ++i) slave[i] = r.uni(-100, 100); N.net.setSlavePotentialVector(slave.data()); }
        if (mode == 3) { N.net.setNormalMode(); N.net.setPauseMode(); }
        c.note = describe(N.s, n) + " modes=" + modes; int maj = N.net.getMajorStepCount();
        N.preStep(); if (!N.step(c, dt)) break; c.count(fmt("steps_mode_%d", mode));
        if (mode == 0) judgeStep(c, N, dt, "after-mode", wantSor ? 1e-6 : 1e-8);
        if (mode == 1) { for (int i = 0; i < n; ++i) CHK(N.nodes[i].getPotential() == slave[i], "slave:potential", "SLAVE mode did not impose the given potential");
            for (size_t i = 0; i < N.s.size(); ++i) { double g = N.s[i].k == SRC ? 0 : N.G(int(i)); NEAR(N.own[i]->getFlux(), N.flux(int(i), dt), 1e-9, 1e-11 * g * 1000 + 1e-12, "slave:flux", fmt("SLAVE flux of link %d", int(i))); } }
        if (mode == 2) for (int i = 0; i < n; ++i) CHK(N.nodes[i].getPotential() == before[i], "dummy:potential", "DUMMY mode changed a node potential");
        if (mode == 3) { for (int i = 0; i < n; ++i) CHK(N.nodes[i].getPotential() == before[i], "pause:potential", "PAUSE changed a node potential"); for (size_t i = 0; i < N.s.size(); ++i) CHK(N.own[i]->getFlux() == flux[i], "pause:flux", "PAUSE changed a flux");
            CHK(N.net.getMajorStepCount() == maj, "pause:count", "PAUSE counted a step"); }
        else CHK(N.net.getMajorStepCount() == maj + 1, "step:count", "major step count");
        c.hit(modes + fmt("%.17g", N.P(0)));
        if (c.failed()) break;
    }
}

// C08: ports
MON_PROP(C08, "random sequences of port commands (API, user command, locks, invalid ports/nodes, duplicates) on links of a live network; after each accepted rewiring the network must equal one freshly built with that wiring; distinct = (wiring) seen") {
    mon::Rng& r = c.r; const int n = r.i(2, 10);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(2, n + 4), 1e-1, 1e2, false, true); c.note = describe(sp, n);
    Net N(n, sp); std::vector<bool> locked(sp.size(), false); const double dt = 0.1; c.sample(c.note);
    const std::vector<Spec> deflt = sp;
    for (int k = 0, K = r.i(3, 14); k < K; ++k) {
        for (int m = r.i(1, 3); m > 0; --m) {
            int i = r.i(0, int(sp.size()) - 1), port = r.i(-1, 2), node = r.i(-1, n + 1);
            if (r.p(0.1)) { locked[i] = !locked[i]; if (locked[i]) N.own[i]->lockNodeMap(); else N.own[i]->unlockNodeMap(); }
            int a0 = N.own[i]->getNodeMap()[0], b0 = N.own[i]->getNodeMap()[1];
            bool legal = !locked[i] && port >= 0 && port <= 1 && node >= 0 && node <= n && (node == n || node != (port ? N.s[i].a : N.s[i].b));
            bool ok = r.p(0.3) ? N.own[i]->setPort(port, node) : N.own[i]->setPort(port, node, "t", r.p(0.5)); if (ok) (port ? N.s[i].b : N.s[i].a) = node;
            CHK(ok == legal, "port:verdict", fmt("setPort(%d,%d) locked=%d returned %d expected %d", port, node, int(locked[i]), ok, legal));
            CHK(N.own[i]->getNodeMap()[0] == (ok && port == 0 ? node : a0) && N.own[i]->getNodeMap()[1] == (ok && port == 1 ? node : b0), "port:map", "node map after setPort");
        }
        // a user's port command, obeyed at the start of the next step under the same rules
        int ui = r.p(0.5) ? r.i(0, int(sp.size()) - 1) : -1, before[2] = {0, 0}; bool legal = false; if (ui >= 0 && N.s[ui].k != COND) ui = -1;
        if (ui >= 0) { const int port = r.i(-1, 2), kind = r.i(0, 2); int node = r.i(-1, n + 1); before[0] = N.s[ui].a; before[1] = N.s[ui].b;
            Cond* cl = static_cast<Cond*>(N.own[ui].get()); cl->cmd(port, node, kind == 0 ? Cond::execute() : kind == 1 ? Cond::ground() : Cond::deflt());
            if (kind == 1) node = n; if (kind == 2 && port >= 0 && port <= 1) node = port ? deflt[ui].b : deflt[ui].a;
            legal = !locked[ui] && port >= 0 && port <= 1 && node >= 0 && node <= n && (node == n || node != (port ? N.s[ui].a : N.s[ui].b));
            if (legal) (port ? N.s[ui].b : N.s[ui].a) = node; c.note = describe(N.s, n) + fmt(" user command kind %d link %d port %d node %d", kind, ui, port, node); }
        N.preStep(); if (!N.step(c, dt)) break; c.count("steps");
        if (ui >= 0) { Cond* cl = static_cast<Cond*>(N.own[ui].get()); c.count(legal ? "user_moves" : "user_refusals");
            CHK(cl->ctl() == (legal ? Cond::ready() : Cond::refused()), "port:user-status", fmt("user port command reported %d, legal %d", cl->ctl(), legal));
            CHK(cl->getNodeMap()[0] == N.s[ui].a && cl->getNodeMap()[1] == N.s[ui].b, "port:user-map", "node map after a user's port command"); if (c.failed()) return; }
        Net F(n, N.s); if (!F.step(c, dt)) return;
        std::vector<double> ref; std::vector<int> comp; std::vector<bool> gr; N.reference(dt, ref, comp, gr); double sc = N.scale(); std::string w;
        for (int i = 0; i < n; ++i) if (gr[comp[i]]) NEAR(N.P(i), F.P(i), 1e-8, N.tol(1e-8 * sc, 1e-8, N.P(i), F.P(i), dt, ref, i, 2), "port:fresh", fmt("node %d potential after rewiring vs freshly built network", i));
        for (auto& q : N.s) w += fmt("%d-%d,", q.a, q.b); c.hit(w);
        judgeStep(c, N, dt, "port", 1e-8); if (c.failed()) return;
    }
    // restart returns unlocked links to their original wiring
    N.net.restart();
    for (size_t i = 0; i < N.s.size(); ++i) { int* mp = N.own[i]->getNodeMap(); if (!locked[i]) {
        CHK(mp[0] == deflt[i].a && mp[1] == deflt[i].b, "port:restart", fmt("restart left link %d on nodes %d,%d; its default is %d,%d", int(i), mp[0], mp[1], deflt[i].a, deflt[i].b)); }
        N.s[i].a = mp[0]; N.s[i].b = mp[1]; }
    N.preStep(); if (!N.step(c, dt)) return; judgeStep(c, N, dt, "port-restart", 1e-8);
}

// C10: overrides
MON_PROP(C10, "random port potential overrides set and cleared during a history: the overridden node shows the override value at the end of every step, fluxes follow the overridden potentials, nodes in other islands are unaffected, and clearing restores the solution; distinct = (override set, potential)") {
    mon::Rng& r = c.r; const int n = r.i(2, 12);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(1, n + 3), 1e-1, 1e2, r.p(0.4), true); c.note = describe(sp, n); c.sample(c.note);
    Net N(n, sp); const double dt = 0.1; std::map<std::pair<int,int>, double> ov;
    for (int k = 0, K = r.i(3, 12); k < K; ++k) {
        if (r.p(0.6)) { int i = r.i(0, int(sp.size()) - 1), port = r.i(0, 1); double v = r.uni(-200, 200); N.own[i]->setPortOverride(port, v); ov[{i, port}] = v; }
        if (r.p(0.3) && !ov.empty()) { auto it = ov.begin(); std::advance(it, r.i(0, int(ov.size()) - 1)); N.own[it->first.first]->resetPortOverride(it->first.second); ov.erase(it); }
        if (r.p(0.1)) { int i = r.i(0, int(sp.size()) - 1); N.own[i]->resetPortOverride(); ov.erase({i, 0}); ov.erase({i, 1}); }
        if (r.p(0.1)) N.own[0]->setPortOverride(r.p(0.5) ? -1 : 2, 5.0);
        N.preStep(); if (!N.step(c, dt)) break; c.count("steps");
        // links are polled in order: the last override on a node wins, and each keeps re-imposing the value it sees
        std::map<int, double> exp; std::vector<int> comp; std::vector<bool> gr; N.islands(dt, comp, gr); std::vector<bool> touched(n + 1, false);
        std::map<int, int> cnt;
        for (auto& o : ov) { int node = o.first.second ? N.s[o.first.first].b : N.s[o.first.first].a; if (node < n) { exp[node] = o.second; ++cnt[node]; touched[comp[node]] = true; } }
        for (auto& e : exp) if (cnt[e.first] == 1) { CHK(N.P(e.first) == e.second, "override:value", fmt("node %d is %.12g, override says %.12g", e.first, N.P(e.first), e.second)); c.hit(mon::mix(mon::hd(e.second), e.first)); }
        // after the step every link re-reads potentials: an override then holds the value last imposed
        for (auto& o : ov) { int node = o.first.second ? N.s[o.first.first].b : N.s[o.first.first].a; if (node < n) o.second = N.P(node); else o.second = 0.0; }
        judgeStep(c, N, dt, "override", 1e-8, true, &touched); if (c.failed()) break;
    }
}

// a link that refuses every solution while told to
struct Stubborn : GunnsBasicConductor { bool on = false; bool isNonLinear() override { return true; } SolutionResult confirmSolutionAcceptable(const int k, const int) override { return on ? (k > 0 ? REJECT : DELAY) : CONFIRM; } bool resetLastMinorStep(const int, const int) override { return true; } };
MON_PROP2(C10, failed, "overrides set, changed and cleared around steps that fail to converge: the overridden node still shows its value, all others keep theirs; distinct = override values in failed steps") {
    mon::Rng& r = c.r; const int n = r.i(2, 10); std::vector<Spec> sp = randomSpecs(r, n, r.i(1, n + 3), 1e-1, 1e2, r.p(0.4), true); c.note = describe(sp, n); Net N(n, sp, 1e-6, 8, 100, false); Stubborn x; x.initialize(GunnsBasicConductorConfigData("stubborn", &N.list, 0.0), GunnsBasicConductorInputData(), N.links, r.i(0, n - 1), n); { GunnsConfigData cfg("net", 1e-6, 1e-8, 8, 100); N.net.initialize(cfg, N.links); }
    const double dt = 0.1; std::map<std::pair<int, int>, double> ov; int fails = 0; std::vector<int> comp; std::vector<bool> gr; N.islands(dt, comp, gr); for (int i = 0; i < n; ++i) if (!gr[comp[i]]) return;
    for (int k = 0, K = r.i(4, 14); k < K; ++k) {
        if (r.p(0.5)) { const int i = r.i(0, int(sp.size()) - 1), port = r.i(0, 1); const double v = r.uni(-200, 200); N.own[i]->setPortOverride(port, v); ov[{i, port}] = v; }
        if (r.p(0.2) && !ov.empty()) { auto it = ov.begin(); std::advance(it, r.i(0, int(ov.size()) - 1)); N.own[it->first.first]->resetPortOverride(it->first.second); ov.erase(it); }
        x.on = r.p(0.4); std::vector<double> p0(n); for (int i = 0; i < n; ++i) p0[i] = N.P(i); std::map<int, double> exp; std::map<int, int> cnt; for (auto& o : ov) { const int node = o.first.second ? sp[o.first.first].b : sp[o.first.first].a; if (node < n) { exp[node] = o.second; ++cnt[node]; } }
        N.preStep(); if (x.on) { N.net.step(dt); ++fails; CHK(N.net.getConvergenceFailCount() == fails, "override:fail-count", "a step in which a link refused every solution did not count as failed"); c.count("failed_steps"); } else { if (!N.step(c, dt)) break; c.count("steps"); }
        for (auto& e : exp) if (cnt[e.first] == 1) { CHK(N.P(e.first) == e.second, "override:failed-step", fmt("node %d is %.12g %s, override says %.12g", e.first, N.P(e.first), x.on ? "after a failed step" : "after a step", e.second)); if (x.on) c.hit(mon::hd(e.second)); }
        if (x.on) for (int i = 0; i < n; ++i) if (!exp.count(i)) CHK(N.P(i) == p0[i], "override:failed-kept", fmt("node %d without an override moved from %.12g to %.12g in a failed step", i, p0[i], N.P(i)));
        for (auto& o : ov) { const int node = o.first.second ? sp[o.first.first].b : sp[o.first.first].a; o.second = node < n ? N.P(node) : 0.0; } if (c.failed()) break; }
}

// C11: blockage malfunction
MON_PROP(C11, "for random networks, one conductor/potential/source is blocked by 0, b1<b2 and 1: its conductance (flux for a source) must scale by exactly (1-b), zero flow when fully blocked, exact restoration when cleared; distinct = (kind, b, flux)") {
    mon::Rng& r = c.r; const int n = r.i(1, 10);
    std::vector<Spec> sp = randomSpecs(r, n, r.i(1, n + 3), 1e-1, 1e2, false, true); for (auto& q : sp) { q.blkFlag = false; q.blk = 0; } c.note = describe(sp, n); c.sample(c.note);
    Net N(n, sp); const double dt = 0.1; if (!N.step(c, dt)) return; std::vector<double> p0(n), f0(sp.size()); for (int i = 0; i < n; ++i) p0[i] = N.P(i); for (size_t i = 0; i < sp.size(); ++i) f0[i] = N.own[i]->getFlux();
    int t = r.i(0, int(sp.size()) - 1); double b1 = r.u(), b2 = b1 + (1 - b1) * r.u(); double bs[4] = {0, b1, b2, 1}; double prev = 1e300; 
    std::vector<int> comp; std::vector<bool> gr;
    for (double b : bs) {
        N.setBlk(t, true, b); if (!N.step(c, dt)) return; c.count("steps"); N.islands(dt, comp, gr); bool og = (sp[t].a == n || gr[comp[sp[t].a]]) && (sp[t].b == n || gr[comp[sp[t].b]]);
        judgeStep(c, N, dt, "blockage", 1e-8);
        double f = std::fabs(N.own[t]->getFlux());
        if (sp[t].k != SRC && !og) continue;
        if (b == 1) CHK(f == 0.0, "blockage:full", fmt("flux %.17g through a fully blocked link", f));
        if (b == 0) NEAR(N.own[t]->getFlux(), f0[t], 1e-9, 1e-9, "blockage:zero", "flux with 0 blockage vs none");
        // a passive two-terminal network's response to one more-blocked branch is monotone
        CHK(f <= prev * (1 + 1e-7) + 1e-9, "blockage:monotone", fmt("flux magnitude grew from %.12g to %.12g as blockage rose to %g", prev, f, b)); prev = f;
        c.hit(mon::mix(mon::hd(b), mon::hd(f)));
    }
    N.setBlk(t, false, 1.0); if (!N.step(c, dt)) return; N.islands(dt, comp, gr);
    for (int i = 0; i < n; ++i) if (gr[comp[i]]) NEAR(N.P(i), p0[i], 1e-9, 1e-9 * N.scale(), "blockage:restore", "potential after clearing the blockage");
}
