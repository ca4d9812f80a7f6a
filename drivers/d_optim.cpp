// O01: Monte Carlo optimizers. Runs the real manager in its master and slave roles against an
// independent model, with results delivered out of order or lost, and across state-file restarts.
#include "mon.hpp"
#include "core/optimization/GunnsOptimMonteCarlo.hh"
#include "core/GunnsInfraFunctions.hh"
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <functional>
#include <unistd.h>
#include <dirent.h>
typedef std::vector<double> V;

namespace {
struct Scratch {   // every case runs in its own directory: the optimizers write files where they run
    char old[4096], dir[64]; std::streambuf* cb; std::ostringstream null;
    Scratch() { if (!getcwd(old, sizeof old)) abort(); snprintf(dir, sizeof dir, "/tmp/gunns_optim_XXXXXX"); if (!mkdtemp(dir) || chdir(dir)) abort(); cb = std::cout.rdbuf(null.rdbuf()); GunnsInfraFunctions::mMcRead.clear(); GunnsInfraFunctions::mMcWrite.clear(); }
    ~Scratch() { std::cout.rdbuf(cb); if (chdir(old)) abort(); if (DIR* d = opendir(dir)) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((std::string(dir) + "/" + e->d_name).c_str()); closedir(d); } rmdir(dir); GunnsInfraFunctions::mMcIsSlave = false; }
};
std::vector<std::vector<std::string> > table(const char* f, char sep) { std::vector<std::vector<std::string> > t; std::ifstream in(f); std::string l; while (std::getline(in, l)) { std::vector<std::string> r; std::string x; std::istringstream s(l); while (std::getline(s, x, sep)) r.push_back(x); t.push_back(r); } return t; }
struct Problem {
    int n; V lo, hi, c, w; int kind; double off; double nan;
    Problem(mon::Rng& r) { n = r.i(1, 5); kind = r.i(0, 3); off = r.p(0.3) ? 0.0 : r.logu(1e-3, 10.0); nan = r.p(0.15) ? 0.2 : 0; for (int i = 0; i < n; ++i) { const double s = r.logu(1e-3, 1e3); lo.push_back(r.uni(-1, 1) * s); hi.push_back(lo[i] + s * r.uni(0.1, 2)); if (r.p(0.2)) lo[i] = 0; if (hi[i] <= lo[i]) hi[i] = lo[i] + s; c.push_back(r.uni(lo[i] - 0.2 * s, hi[i] + 0.2 * s)); w.push_back(r.logu(0.1, 10.0)); } }
    double cost(const V& x) const { double q = off; for (int i = 0; i < n; ++i) { const double d = (x[i] - c[i]) / (hi[i] - lo[i]); q += w[i] * (kind == 0 ? d * d : kind == 1 ? std::fabs(d) : kind == 2 ? d * d + 0.2 * (1 - std::cos(20 * d)) : std::floor(8 * std::fabs(d))); } return q; }
};
struct PsoA : GunnsOptimParticleSwarm { int ep() { return mEpoch; } };
struct Mc : GunnsOptimMonteCarlo { Mc() : GunnsOptimMonteCarlo("mc") {} using GunnsOptimMonteCarlo::mInputs; using GunnsOptimMonteCarlo::mOutputs; using GunnsOptimMonteCarlo::mDrivers; using GunnsOptimMonteCarlo::mRunIdReturned; };
struct SlaveTicket { double cost, id; V x; };
typedef GunnsOptimParticleSwarmConfigData PC;
typedef GunnsOptimGradientDescentConfigData GC;
}

MON_PROP2(O01, swarm, "whole particle swarm optimizations: dimensions, particles, epochs, distributions, result orders, lost results, restarts") {
    Scratch sc; Problem p(c.r); PC cfg; cfg.mNumParticles = c.r.i(1, 12); cfg.mMaxEpoch = c.r.i(1, 8); cfg.mInertiaWeight = c.r.uni(0.05, 1.2); cfg.mInertiaWeightEnd = c.r.p(0.3) ? cfg.mInertiaWeight : c.r.uni(0.05, 1.2); cfg.mCognitiveCoeff = c.r.uni(0.1, 2.5); cfg.mSocialCoeff = c.r.uni(0.1, 2.5); cfg.mMaxVelocity = c.r.p(0.2) ? 1.0 : c.r.uni(0.01, 1); cfg.mRandomSeed = unsigned(c.r.i(0, 1 << 30)); cfg.mInitDistribution = c.r.p(0.6) ? PC::RANDOM : PC::MIN_MAX_CORNERS;
    // input 'dep' may be tied to input 'ind' by a constraint
    const bool tied = p.n >= 2 && c.r.p(0.3); int ind = 0, dep = 0; double ka = 0, kb = 0; std::unique_ptr<TsApproximation> fn; V model(p.n, 0.5); std::unique_ptr<GunnsOptimMonteCarloConstraint> con;
    if (tied) { ind = c.r.i(0, p.n - 1); dep = (ind + 1 + c.r.i(0, p.n - 2)) % p.n; kb = (p.hi[dep] - p.lo[dep]) / (p.hi[ind] - p.lo[ind]) * c.r.sgn(); ka = (kb > 0 ? p.lo[dep] : p.hi[dep]) - kb * p.lo[ind]; fn.reset(new LinearFit(ka, kb, p.lo[ind], p.hi[ind])); con.reset(new GunnsOptimMonteCarloConstraint(fn.get(), &model[ind])); }
    const bool lossy = c.r.p(0.2); const int sessions = c.r.p(0.4) ? c.r.i(2, 4) : 1; const unsigned N = cfg.mNumParticles;
    double best = DBL_MAX; int hist = 0; V bestX; std::vector<double> pb(N, DBL_MAX); std::vector<V> pbx(N), x0, v0; bool haveBest = false; std::vector<V> first;
    for (int s = 0; s < sessions && !c.failed(); ++s) {
        Mc m; GunnsInfraFunctions::mMcIsSlave = false; m.addOptimizer(GunnsOptimFactory::PSO); GunnsOptimParticleSwarm* o = dynamic_cast<GunnsOptimParticleSwarm*>(m.mOptimizer); CHK(o, "factory-type", "the factory did not make a particle swarm"); if (!o) return;
        bool cont = s > 0; if (s) { cont = c.r.p(0.75); cfg.mInitDistribution = cont ? PC::FILE_CONTINUOUS : PC::FILE; cfg.mRandomSeed += 7; } o->setConfigData(&cfg); for (int i = 0; i < p.n; ++i) m.addInput(mon::fmt("x%d", i), &model[i], p.lo[i], p.hi[i], tied && i == dep ? con.get() : 0);
        m.initMaster(); CHK(m.mOptimizer->getNumRuns() == N * cfg.mMaxEpoch, "run-count", mon::fmt("%u runs for %u particles and %u epochs", o->getNumRuns(), N, cfg.mMaxEpoch));
        if (s && !cont) { best = DBL_MAX; haveBest = false; pb.assign(N, DBL_MAX); pbx.assign(N, V()); hist = 0; CHK(o->mGlobalBestState.mCost == DBL_MAX, "file-best", "starting from a file keeps the old best cost"); for (unsigned i = 0; i < N; ++i) { CHK(o->mParticles[i].mBestState.mCost == DBL_MAX, "file-best", "starting from a file keeps an old personal best"); for (int j = 0; j < p.n; ++j) if (!tied) CHK(std::fabs(o->mParticles[i].mCurrentState.mState[j] - x0[i][j]) <= 2e-5 * (p.hi[j] - p.lo[j] + std::fabs(p.lo[j])), "file-position", mon::fmt("particle %u coordinate %d: %g from the file, was %g", i, j, o->mParticles[i].mCurrentState.mState[j], x0[i][j])); } c.count("file_starts"); }
        // restart continues: positions, velocities and bests come back (to the precision of the text file)
        if (cont) { CHK(std::fabs(o->mGlobalBestState.mCost - best) <= 1e-5 * std::fabs(best) || !haveBest, "restart-best", mon::fmt("global best %g after restart, was %g", o->mGlobalBestState.mCost, best)); for (unsigned i = 0; i < N; ++i) for (int j = 0; j < p.n; ++j) { const double sx = p.hi[j] - p.lo[j] + std::fabs(p.lo[j]); CHK(std::fabs(o->mParticles[i].mCurrentState.mState[j] - x0[i][j]) <= 2e-5 * sx + (tied ? 2e-5 * std::fabs(kb) * (p.hi[ind] - p.lo[ind] + std::fabs(p.lo[ind])) : 0), "restart-position", mon::fmt("particle %u coordinate %d: %g after restart, was %g", i, j, o->mParticles[i].mCurrentState.mState[j], x0[i][j])); CHK(std::fabs(o->mParticles[i].mCurrentState.mVelocity[j] - v0[i][j]) <= 2e-5 * sx, "restart-velocity", mon::fmt("particle %u velocity %d changed", i, j)); }
            for (unsigned i = 0; i < N; ++i) CHK(std::fabs(o->mParticles[i].mBestState.mCost - pb[i]) <= 1e-5 * pb[i], "restart-personal", mon::fmt("particle %u best %g after restart, was %g", i, o->mParticles[i].mBestState.mCost, pb[i])); c.count("restarts");
            best = o->mGlobalBestState.mCost; bestX = o->mGlobalBestState.mState; for (unsigned i = 0; i < N; ++i) { pb[i] = o->mParticles[i].mBestState.mCost; pbx[i] = o->mParticles[i].mBestState.mState; } }
        double runId = -1; double lastInertia = 0;
        for (unsigned e = 1; e <= cfg.mMaxEpoch && !c.failed(); ++e) {
            // launch one batch
            std::vector<SlaveTicket> batch; std::vector<V> vel;
            for (unsigned i = 0; i < N; ++i) { const std::vector<GunnsOptimParticleSwarmParticle> before = o->mParticles; m.updateMasterPre(); runId += 1; CHK(m.mRunId == runId, "run-id", mon::fmt("run id %g, expected %g", m.mRunId, runId));
                SlaveTicket t; t.x = model; t.id = m.mRunId; for (int j = 0; j < p.n; ++j) { FIN(t.x[j], "state-finite", "tried state"); const double rt = 1e-12 * (std::fabs(p.lo[j]) + std::fabs(p.hi[j])); CHK(t.x[j] >= p.lo[j] - (tied || s ? 1e-4 * (p.hi[j] - p.lo[j] + std::fabs(p.lo[j])) : rt) && t.x[j] <= p.hi[j] + (tied || s ? 1e-4 * (p.hi[j] - p.lo[j] + std::fabs(p.hi[j])) : rt), "state-range", mon::fmt("input %d tried at %g outside [%g,%g]", j, t.x[j], p.lo[j], p.hi[j])); CHK(t.x[j] == o->mParticles[i].mCurrentState.mState[j], "state-published", mon::fmt("input %d is %g, particle %u has %g", j, t.x[j], i, o->mParticles[i].mCurrentState.mState[j])); const double vm = cfg.mMaxVelocity * (p.hi[j] - p.lo[j]); CHK(std::fabs(o->mParticles[i].mCurrentState.mVelocity[j]) <= vm * (s ? 1 + 1e-5 : 1 + 1e-12), "velocity-limit", mon::fmt("velocity %g beyond %g", o->mParticles[i].mCurrentState.mVelocity[j], vm)); }
                if (tied) { const double want = ka + kb * std::max(p.lo[ind], std::min(p.hi[ind], t.x[ind])); CHK(std::fabs(t.x[dep] - want) <= 1e-9 * (std::fabs(ka) + std::fabs(kb * t.x[ind])) + 1e-12, "constraint", mon::fmt("constrained input %g, its function of the other input gives %g", t.x[dep], want)); c.count("constrained"); }
                // the epoch's propagation law, judged on the first launch of every later epoch
                if (i == 0 && e > 1) { const double w = cfg.mInertiaWeight + (cfg.mInertiaWeightEnd - cfg.mInertiaWeight) * double(e) / cfg.mMaxEpoch; lastInertia = w; for (unsigned k = 0; k < N; ++k) { const GunnsOptimParticleSwarmState &a = before[k].mCurrentState, &b = o->mParticles[k].mCurrentState; for (int j = 0; j < p.n; ++j) { if (tied && j == dep) continue; const double dp = cfg.mCognitiveCoeff * (o->mParticles[k].mBestState.mState[j] - a.mState[j]), dg = cfg.mSocialCoeff * (o->mGlobalBestState.mState[j] - a.mState[j]); const double vm = cfg.mMaxVelocity * (p.hi[j] - p.lo[j]); auto lim = [&](double q) { return std::max(-vm, std::min(vm, q)); }; const double l = lim(w * a.mVelocity[j] + std::min(0.0, dp) + std::min(0.0, dg)), h = lim(w * a.mVelocity[j] + std::max(0.0, dp) + std::max(0.0, dg)); const double tol = 1e-9 * (vm + std::fabs(a.mState[j]) + std::fabs(dp) + std::fabs(dg)); const double st = a.mState[j]; double v = b.mVelocity[j];
                        const bool bounced = (b.mState[j] == p.lo[j] || b.mState[j] == p.hi[j]); const bool okPlain = v >= l - tol && v <= h + tol && std::fabs(b.mState[j] - (st + v)) <= tol; const bool okBounce = bounced && -v >= l - tol && -v <= h + tol && (s > 0 ? true : b.mState[j] == p.lo[j] ? st - v <= p.lo[j] + tol && v >= -tol : st - v >= p.hi[j] - tol && v <= tol);
                        CHK(okPlain || okBounce, "propagation", mon::fmt("particle %u input %d moved %g -> %g with velocity %g; law allows velocity [%g,%g]", k, j, st, b.mState[j], v, l, h)); } } c.count("propagations"); }
                t.cost = (p.nan > 0 && c.r.p(p.nan)) ? c.r.pick(V{NAN, INFINITY}) : p.cost(t.x); batch.push_back(t); }
            for (unsigned i = 0; i < N; ++i) for (unsigned k = 0; k < i; ++k) CHK(batch[i].id != batch[k].id, "run-id-unique", "two runs of an epoch share an id");
            // results come back in any order, some perhaps never
            std::vector<int> ord(N); for (unsigned i = 0; i < N; ++i) ord[i] = i; c.r.shuffle(ord); for (int i : ord) { if (lossy && (e > 1 || cont) && c.r.p(0.2)) { c.count("lost"); continue; } GunnsInfraFunctions::mMcRead.push_back(batch[i].id); GunnsInfraFunctions::mMcRead.push_back(batch[i].cost); m.updateMasterPost(); CHK(m.mRunIdReturned == batch[i].id, "returned-id", "run id read back differs"); if (batch[i].cost < best) { best = batch[i].cost; bestX = batch[i].x; haveBest = true; } if (batch[i].cost < pb[i]) { pb[i] = batch[i].cost; pbx[i] = batch[i].x; } }
            // a result nobody asked for is refused
            if (c.r.p(0.1)) { GunnsInfraFunctions::mMcRead.push_back(runId + 1000.5); GunnsInfraFunctions::mMcRead.push_back(-1e9); bool th = false; try { m.updateMasterPost(); } catch (std::runtime_error&) { th = true; } CHK(th, "unknown-result", "a result with an unknown run id was accepted"); }
            c.count("epochs");
            // next launch updates the bests: use a look-ahead at the end of the session (shutdown)
            if (e == cfg.mMaxEpoch) { m.updateMasterShutdown(); }
            else continue;
            // after shutdown all results are in the bests
            CHK(o->mGlobalBestState.mCost == best, "global-best", mon::fmt("global best cost %.17g, lowest returned %.17g", o->mGlobalBestState.mCost, best)); if (haveBest) NEAR(p.cost(o->mGlobalBestState.mState), best, s ? 2e-2 : 1e-12, s ? 1e9 : 1e-300, "global-best-cost", "cost of the best state");
            for (unsigned k = 0; k < N; ++k) { CHK(o->mParticles[k].mBestState.mCost == pb[k], "personal-best", mon::fmt("particle %u best %.17g, lowest it returned %.17g", k, o->mParticles[k].mBestState.mCost, pb[k])); if (!pbx[k].empty() && pb[k] < DBL_MAX) { CHK(o->mParticles[k].mBestState.mState == pbx[k], "personal-best-state", mon::fmt("particle %u best state is not the state that gave its lowest cost", k)); } }
        }
        (void)lastInertia; x0.clear(); v0.clear(); for (unsigned i = 0; i < N; ++i) { x0.push_back(o->mParticles[i].mCurrentState.mState); v0.push_back(o->mParticles[i].mCurrentState.mVelocity); }
        // cost history file: one row per epoch, never rising
        if (c.failed()) return; hist += cfg.mMaxEpoch;
        { auto t = table("pso_cost_history.csv", ','); double last = INFINITY; for (size_t i = 1; i < t.size(); ++i) { CHK(t[i].size() == 2, "history-columns", "cost history row"); const double q = atof(t[i][1].c_str()); CHK(q <= last * (1 + 1e-5) || last > 1e300, "history-monotone", mon::fmt("best cost rose from %g to %g", last, q)); last = q; } CHK(t.size() == 1 + size_t(hist), "history-rows", mon::fmt("%zu rows of cost history after %d sessions of %u epochs", t.size(), s + 1, cfg.mMaxEpoch)); auto w = table("pso_swarm_history.csv", ','); for (auto& r : w) CHK(r.size() == 1 + N * (p.n + 1) + p.n + 1, "swarm-columns", "swarm history row"); CHK(w.size() == t.size(), "swarm-rows", "swarm history rows"); auto st = table("pso_state.csv", ' '); CHK(st.size() == N + 2, "state-rows", "state file rows"); for (auto& r : st) CHK(r.size() == 4 + 3 * size_t(p.n), "state-columns", mon::fmt("state file row of %zu columns", r.size())); }
        c.hit(mon::mix(mon::mix(N, p.n), mon::mix(s, mon::hd(best))));
    }
}

MON_PROP2(O01, seed, "the same seed repeats a whole optimization, another seed does not") {
    Scratch sc; Problem p(c.r); PC cfg; cfg.mNumParticles = c.r.i(2, 8); cfg.mMaxEpoch = c.r.i(2, 5); cfg.mInertiaWeight = cfg.mInertiaWeightEnd = 0.7; cfg.mCognitiveCoeff = cfg.mSocialCoeff = 1.5; cfg.mMaxVelocity = 0.4; const unsigned seed = unsigned(c.r.i(2, 1 << 30)); std::vector<V> run[3]; const bool corners = c.r.p(0.5);
    for (int k = 0; k < 3; ++k) { cfg.mRandomSeed = k < 2 ? seed : seed + 1; cfg.mInitDistribution = corners ? PC::MIN_MAX_CORNERS : PC::RANDOM; V model(p.n); Mc m; GunnsInfraFunctions::mMcIsSlave = false; m.addOptimizer(GunnsOptimFactory::PSO); m.mOptimizer->setConfigData(&cfg); for (int i = 0; i < p.n; ++i) m.addInput(mon::fmt("x%d", i), &model[i], p.lo[i], p.hi[i]); m.initMaster(); for (unsigned e = 0; e < m.mOptimizer->getNumRuns(); ++e) { m.updateMasterPre(); run[k].push_back(model); GunnsInfraFunctions::mMcRead.push_back(m.mRunId); GunnsInfraFunctions::mMcRead.push_back(p.cost(model)); m.updateMasterPost();
            if (corners && e < cfg.mNumParticles) for (int i = 0; i < p.n; ++i) CHK(model[i] == (e < cfg.mNumParticles / 2 ? p.lo[i] : p.hi[i]), "corners", mon::fmt("particle %u of %u starts at %g in [%g,%g]", e, cfg.mNumParticles, model[i], p.lo[i], p.hi[i])); } m.updateMasterShutdown(); }
    CHK(run[0] == run[1], "seed-repeat", "the same seed gave another optimization"); if (!corners) CHK(run[0] != run[2], "seed-differs", "another seed gave the same optimization"); c.hit(mon::mix(seed, p.n));
}

MON_PROP2(O01, gradient, "whole gradient descents: dimensions, gains, initial states at, in and beyond the range, cost shapes") {
    Scratch sc; Problem p(c.r); p.nan = 0; V init(p.n); for (int i = 0; i < p.n; ++i) init[i] = c.r.p(0.1) ? 0.0 : c.r.p(0.1) ? p.lo[i] : c.r.p(0.1) ? p.hi[i] : c.r.uni(p.lo[i] - 0.1 * (p.hi[i] - p.lo[i]), p.hi[i] + 0.1 * (p.hi[i] - p.lo[i]));
    GC cfg; cfg.mNumVars = p.n; cfg.mMaxEpoch = c.r.i(1, 10); cfg.mPropagationGain = c.r.logu(0.01, 1.0); cfg.mInitialState = init.data(); V model(p.n); Mc m; GunnsInfraFunctions::mMcIsSlave = false; m.addOptimizer(GunnsOptimFactory::GRADIENT_DESCENT); GunnsOptimGradientDescent* o = dynamic_cast<GunnsOptimGradientDescent*>(m.mOptimizer); CHK(o, "factory-type", "not a gradient descent"); if (!o) return; o->setConfigData(&cfg); for (int i = 0; i < p.n; ++i) m.addInput(mon::fmt("x%d", i), &model[i], p.lo[i], p.hi[i]);
    m.initMaster(); CHK(o->getNumRuns() == cfg.mMaxEpoch * (2 * p.n + 1), "gradient-runs", "number of runs");
    V x(p.n); for (int i = 0; i < p.n; ++i) x[i] = std::max(p.lo[i], std::min(p.hi[i], init[i]));
    V costs, probes; for (unsigned e = 1; e <= cfg.mMaxEpoch && !c.failed(); ++e) { auto run = [&](const char* what) { m.updateMasterPre(); for (int j = 0; j < p.n; ++j) CHK(model[j] >= p.lo[j] && model[j] <= p.hi[j], "gradient-range", mon::fmt("%s input %d tried at %g outside [%g,%g]", what, j, model[j], p.lo[j], p.hi[j])); const double q = p.cost(model); GunnsInfraFunctions::mMcRead.push_back(m.mRunId); GunnsInfraFunctions::mMcRead.push_back(q); m.updateMasterPost(); return q; };
        const double q0 = run("base"); costs.push_back(q0); for (int j = 0; j < p.n; ++j) NEAR(model[j], x[j], 1e-9, 1e-12, "gradient-base", mon::fmt("epoch %u input %d", e, j)); x = model; V next = x;
        for (int i = 0; i < p.n && !c.failed(); ++i) { double q[2], d[2]; for (int k = 0; k < 2; ++k) { q[k] = run(k ? "decrease" : "increase"); for (int j = 0; j < p.n; ++j) if (j != i) CHK(model[j] == x[j], "gradient-one-at-a-time", mon::fmt("input %d moved while probing %d", j, i)); d[k] = model[i] - x[i]; const double want = 0.001 * (x[i] == 0 ? p.hi[i] - p.lo[i] : std::fabs(x[i])); const double lim = k ? std::max(p.lo[i], x[i] - want) : std::min(p.hi[i], x[i] + want); NEAR(model[i], lim, 1e-12, 1e-300, "gradient-probe", mon::fmt("probe %d of input %d", k, i)); probes.push_back(model[i]); }
            // only directions that lower the cost count, the better of the two
            int use = -1; double g[2]; for (int k = 0; k < 2; ++k) g[k] = std::fabs(d[k]) > DBL_EPSILON ? (q[k] - q0) / d[k] : 0; if (q[0] < q0 && g[0] != 0) use = 0; if (q[1] < q0 && g[1] != 0 && q[1] - q0 < q[0] - q0) use = 1;
            if (use >= 0) { next[i] += -q0 / g[use] * cfg.mPropagationGain / p.n; c.count("descents"); } next[i] = std::max(p.lo[i], std::min(p.hi[i], next[i])); if (use >= 0 && q0 > 0) CHK((next[i] - x[i]) * (use ? -1 : 1) >= 0, "gradient-direction", "reference"); }
        x = next; c.count("epochs"); }
    m.updateMasterShutdown(); CHK(o->mState->mState.size() == size_t(p.n), "gradient-size", ""); for (int j = 0; j < p.n; ++j) NEAR(o->mState->mState[j], x[j], 1e-9, 1e-12, "gradient-final", mon::fmt("input %d", j)); auto t = table("grad_cost_history.csv", ','); CHK(t.size() == 1 + cfg.mMaxEpoch, "gradient-history", mon::fmt("%zu rows of cost history for %u epochs", t.size(), cfg.mMaxEpoch)); auto g = table("grad_gradients_history.csv", ','); CHK(g.size() == 1 + size_t(2 * p.n) * cfg.mMaxEpoch, "gradient-rows", "gradient history rows"); for (size_t k = 1; k < t.size() && !c.failed(); ++k) { CHK(t[k].size() == 2 && atoi(t[k][0].c_str()) == atoi(t[1][0].c_str()) + int(k) - 1, "gradient-epoch", mon::fmt("row %zu of the cost history is numbered %s", k, t[k][0].c_str())); NEAR(atof(t[k][1].c_str()), costs[k - 1], 1e-4, 1e-300, "gradient-cost-row", mon::fmt("cost in row %zu of the history", k)); }
    for (size_t k = 1; k < g.size() && !c.failed(); ++k) { CHK(g[k].size() == 8 && atoi(g[k][0].c_str()) == atoi(g[1][0].c_str()) + int((k - 1) / (2 * size_t(p.n))) && atoi(g[k][1].c_str()) == int((k - 1) / 2 % size_t(p.n)) && g[k][2] == (k % 2 ? "INC" : "DEC"), "gradient-row", mon::fmt("row %zu of the gradient history", k)); if (g[k].size() == 8) NEAR(atof(g[k][3].c_str()), probes[k - 1], 1e-4, 1e-300, "gradient-row-state", mon::fmt("state in row %zu of the gradient history", k)); } auto st = table("grad_state.csv", ','); CHK(st.size() == 2 && st[1].size() == size_t(p.n) + 1, "gradient-state", "state file");
    bool th = false; GunnsInfraFunctions::mMcRead.push_back(-77); GunnsInfraFunctions::mMcRead.push_back(0); try { m.updateMasterPost(); } catch (std::runtime_error&) { th = true; } CHK(th, "unknown-result", "a result with an unknown run id was accepted"); c.hit(mon::mix(p.n, mon::hd(x[0])));
}

MON_PROP2(O01, slave, "slave runs: drivers, scalar and trajectory targets, weights, runs shorter and longer than the data, roles") {
    Scratch sc; const int nd = c.r.i(0, 3), no = c.r.i(1, 4), nt = c.r.i(0, no), rows = c.r.i(1, 8), drows = c.r.i(1, 8), steps = c.r.i(0, 12); V drv(nd, -5.0), out(no), tgt(no), wt(no); GunnsInfraFunctions::mMcIsSlave = true; const int sid = c.r.i(0, 99); GunnsInfraFunctions::mMcSlaveId = sid; Mc m; double in = 3; m.addInput("in", &in, 0, 1);
    CHK(m.mInputs.empty(), "slave-inputs", "a slave kept the master's input"); for (int i = 0; i < nd; ++i) m.addDriver(&drv[i]); for (int i = 0; i < no; ++i) { tgt[i] = c.r.uni(-10, 10); wt[i] = c.r.p(0.1) ? 0 : c.r.logu(0.01, 100); m.addOutput(mon::fmt("o%d", i), &out[i], tgt[i], wt[i]); }
    std::vector<V> dt(drows, V(nd)), ot(rows, V(nt)); auto row = [&](V& v) { std::string s = mon::fmt("%.17g", c.r.u()); for (double& q : v) { q = c.r.sgn() * c.r.logu(1e-6, 1e6); s += mon::fmt(c.r.p(0.3) ? ", %.17g" : ",%.17g", q); } return s; };
    for (auto& v : dt) m.addDriverDataRow(row(v)); for (auto& v : ot) m.addOutputDataRow(row(v)); bool th = false; try { m.initMaster(); } catch (std::runtime_error&) { th = true; } CHK(th, "role", "a slave was initialized as master"); m.initSlave(); m.mRunId = c.r.i(0, 1000);
    V acc(no, 0.0); m.updateSlavePre(); for (int k = 0; k < steps; ++k) { const V prev = drv; m.updateSlaveInputs(); for (int i = 0; i < nd; ++i) CHK(drv[i] == (k < drows ? dt[k][i] : prev[i]), "driver", mon::fmt("driver %d at step %d is %g", i, k, drv[i])); for (double& v : out) v = c.r.sgn() * c.r.logu(1e-3, 1e3); for (int i = 0; i < nt; ++i) if (k < rows) { const double e = wt[i] * (out[i] - ot[k][i]); acc[i] += e * e; } m.updateSlaveOutputs(); }
    double cost = 0; for (int i = 0; i < no; ++i) { if (i >= nt) { const double e = wt[i] * (out[i] - tgt[i]); acc[i] = e * e; } cost += acc[i]; } GunnsInfraFunctions::mMcWrite.clear(); m.updateSlavePost(); const V w = GunnsInfraFunctions::mMcWrite; CHK(w.size() == 2, "slave-message", mon::fmt("%zu values written", w.size())); if (w.size() == 2) { NEAR(w[0], cost, 1e-12, 1e-300, "slave-cost", "cost of the run"); CHK(w[1] == m.mRunId, "slave-id", "run id returned"); } c.hit(mon::mix(mon::mix(nd, no), mon::mix(nt, mon::mix(rows, steps)))); GunnsInfraFunctions::mMcIsSlave = false; th = false; try { m.initSlave(); } catch (std::runtime_error&) { th = true; } CHK(th, "role", "a master was initialized as slave");
}

MON_PROP2(O01, refuse, "bad optimizer configurations: every field out of range, wrong type, missing inputs, bad files") {
    Scratch sc; GunnsInfraFunctions::mMcIsSlave = false; double a = 1, b = 2; V init(2, 0.5); const int k = c.r.i(0, 23); c.hit(k); PC pc; pc.mNumParticles = 3; pc.mMaxEpoch = 2; pc.mInertiaWeight = pc.mInertiaWeightEnd = 0.5; pc.mCognitiveCoeff = pc.mSocialCoeff = 1; pc.mMaxVelocity = 0.5; GC gc; gc.mNumVars = 2; gc.mMaxEpoch = 2; gc.mPropagationGain = 0.1; gc.mInitialState = init.data(); double lo = 0, hi = 1; std::string name = "a"; double* addr = &a; bool gd = false, none = false; const double neg = c.r.p(0.3) ? 0.0 : -c.r.logu(1e-6, 1e3);
    switch (k) { case 0: pc.mNumParticles = 0; break; case 1: pc.mMaxEpoch = 0; break; case 2: pc.mInertiaWeight = neg; break; case 3: pc.mInertiaWeightEnd = neg; break; case 4: pc.mCognitiveCoeff = neg; break; case 5: pc.mSocialCoeff = neg; break; case 6: pc.mMaxVelocity = neg; break; case 7: pc.mMaxVelocity = 1 + c.r.logu(1e-6, 10.0); break; case 8: pc.mNumParticles = 0; pc.mMaxVelocity = neg; break; case 9: pc.mInitDistribution = c.r.p(0.5) ? PC::FILE : PC::FILE_CONTINUOUS; break;
        case 10: gd = true; gc.mNumVars = 0; break; case 11: gd = true; gc.mMaxEpoch = 0; break; case 12: gd = true; gc.mInitialState = 0; break; case 13: gd = true; gc.mNumVars = c.r.p(0.5) ? 1 : 3; break; case 14: hi = lo; gd = c.r.p(0.5); break; case 15: hi = lo - 1; gd = c.r.p(0.5); break; case 16: name = ""; gd = c.r.p(0.5); break; case 17: addr = 0; gd = c.r.p(0.5); break; case 18: none = true; gd = c.r.p(0.5); break; case 19: pc.mInitDistribution = PC::FILE; { std::ofstream f("pso_state.csv"); f << "just one line\n"; } break; case 20: pc.mInitDistribution = PC::FILE_CONTINUOUS; { std::ofstream f("pso_state.csv"); for (int i = 0; i < 5; ++i) f << "a b c\n"; } break; default: break; }
    Mc m; m.addOptimizer(gd ? GunnsOptimFactory::GRADIENT_DESCENT : GunnsOptimFactory::PSO); bool th = false;
    if (k == 21) { try { if (c.r.p(0.5)) { GunnsOptimGradientDescent g; g.setConfigData(&pc); } else m.mOptimizer->setConfigData(&gc); } catch (std::runtime_error&) { th = true; } CHK(th, "refuse-type", "config data of another optimizer was accepted"); return; }
    if (gd) m.mOptimizer->setConfigData(&gc); else m.mOptimizer->setConfigData(&pc); if (!none) { m.addInput(name, addr, lo, hi); m.addInput("b", &b, -1, 1); } try { m.initMaster(); } catch (std::exception&) { th = true; } CHK(th == (k < 21), "refuse", mon::fmt("configuration %d was %s", k, th ? "refused" : "accepted")); c.count(th ? "refused" : "accepted"); GunnsOptimFactory f; CHK(f.createOptimizer(GunnsOptimFactory::NONE) == 0, "factory-none", "an optimizer of no type");
}
