// Network framework monitors: super networks against the equivalent flat network (N01), sockets and
// jumpers against a model of the plug protocol (N02), spotters, supplies and flow controllers
// against their documented laws (N03), and pairs of distributed fluid interfaces (N04).
#include "bnet.hpp"
#include "fnet.hpp"
#include <pthread.h>
#include <thread>
#include <atomic>
#include "software/exceptions/TsInitializationException.hh"
#include "core/network/GunnsNetworkBase.hh"
#include "core/network/GunnsBasicSuperNetwork.hh"
#include "core/network/GunnsFluidSuperNetwork.hh"
#include "core/network/GunnsMultiLinkConnector.hh"
#include "core/GunnsBasicSocket.hh"
#include "core/GunnsBasicJumper.hh"
#include "core/GunnsBasicJumperPlug.hh"
#include "core/GunnsFluidSocket.hh"
#include "core/GunnsFluidJumper.hh"
#include "core/GunnsFluidJumperPlug.hh"

// ---------------------------------------------------------------------------------------------
// N01
// ---------------------------------------------------------------------------------------------
namespace {
using bnet::Spec;
struct FluidWorld {                           // the fluid description shared by all networks of a case
    fnet::Mix mix; std::vector<fnet::State> st;
    FluidWorld(mon::Rng& r, int nTypes, int nTc) : mix(r, nTypes, nTc, false) {}
};
// One link description: local node indexes, -1 for ground.  Tanks are kind CAP in fluid networks.
struct L { bnet::Kind k; int a, b; double v, w; fnet::State st; };

GunnsBasicLink* makeLink(bool fluid, const std::string& nm, GunnsNodeList* list, const L& q, std::vector<GunnsBasicLink*>& links, int a, int b) {
    if (!fluid) switch (q.k) {
        case bnet::COND: { GunnsBasicConductor* l = new GunnsBasicConductor; l->initialize(GunnsBasicConductorConfigData(nm, list, q.v), GunnsBasicConductorInputData(), links, a, b); return l; }
        case bnet::POT: { GunnsBasicPotential* l = new GunnsBasicPotential; l->initialize(GunnsBasicPotentialConfigData(nm, list, q.v), GunnsBasicPotentialInputData(false, 0, q.w), links, a, b); return l; }
        case bnet::SRC: { GunnsBasicSource* l = new GunnsBasicSource; l->initialize(GunnsBasicSourceConfigData(nm, list), GunnsBasicSourceInputData(false, 0, q.v), links, a, b); return l; }
        default: { GunnsBasicCapacitor* l = new GunnsBasicCapacitor; l->initialize(GunnsBasicCapacitorConfigData(nm, list), GunnsBasicCapacitorInputData(false, 0, q.v, q.w), links, a, b); return l; }
    }
    switch (q.k) {
        case bnet::COND: { GunnsFluidConductor* l = new GunnsFluidConductor; GunnsFluidConductorConfigData cd(nm, list, q.v, 0.0, 0.5); l->initialize(cd, GunnsFluidConductorInputData(), links, a, b); return l; }
        case bnet::POT: { GunnsFluidPotential* l = new GunnsFluidPotential; GunnsFluidPotentialConfigData cd(nm, list, q.v, 0.0); l->initialize(cd, GunnsFluidPotentialInputData(false, 0, q.w), links, a, b); return l; }
        case bnet::SRC: { GunnsFluidSource* l = new GunnsFluidSource; l->initialize(GunnsFluidSourceConfigData(nm, list), GunnsFluidSourceInputData(false, 0, q.v), links, a, b); return l; }
        default: { fnet::Input in(q.st); GunnsFluidTank* l = new GunnsFluidTank; GunnsFluidTankConfigData cd(nm, list, 0.0, 0.0, 0.0, 1e-6, 0.0f, 0.0f); GunnsFluidTankInputData id(false, 0.0, q.v, &in.in, 0.0f, 0.0f); l->initialize(cd, id, links, a, b); return l; }
    }
}

void setCfg(GunnsConfigData& g, int minor) { g.mConvergenceTolerance = 1e-6; g.mMinLinearizationPotential = 1e-12; g.mMinorStepLimit = minor; g.mDecompositionLimit = 100; }
struct Log { std::vector<std::string> ev; };
template <class NODE> struct Sub : GunnsNetworkBase {
    bool fluid; FluidWorld* fw; int n; std::vector<L> ls; std::unique_ptr<NODE[]> nodes; std::vector<std::unique_ptr<GunnsBasicLink> > own;
    std::vector<fnet::State> nodeState; int pre = 0, post = 0, nNodesInit = 0, nNetInit = 0; Log* log = 0; std::vector<std::pair<GunnsMultiLinkConnector*, std::vector<std::pair<int, int> > > > locs; // connector -> (link index, joint node)
    Sub(const std::string& nm, int nn, NODE* own_, FluidWorld* w) : GunnsNetworkBase(nm, nn + 1, own_), fluid(w != 0), fw(w), n(nn), nodes(own_) {}
    static Sub* make(const std::string& nm, int nn, FluidWorld* w) { return new Sub(nm, nn, new NODE[nn + 1], w); }
    static void initNode(GunnsBasicNode& nd, const std::string& nm, FluidWorld* w, const fnet::State* s) {
        if (!w) { nd.initialize(nm, 0.0); return; }
        GunnsFluidNode& f = static_cast<GunnsFluidNode&>(nd); if (s) { fnet::Input in(*s); f.initialize(nm, w->mix.cfg.get(), &in.in); } else f.initialize(nm, w->mix.cfg.get(), 0); }
    // array element access of the right size
    static NODE& at(GunnsNodeList& l, int i) { return static_cast<NODE*>(l.mNodes)[i]; }
    const PolyFluidConfigData* getFluidConfig() const { return fw ? fw->mix.cfg.get() : 0; }
    void initNodes(const std::string& name) { ++nNodesInit;
        for (int i = 0; i < n; ++i) initNode(at(netNodeList, i + netSuperNodesOffset), name + createNodeName(i + netSuperNodesOffset), fw, fw ? &nodeState[i] : 0);
        if (!netIsSubNetwork) initNode(at(netNodeList, n), name + ".GROUND", fw, 0); }
    void initNetwork() { ++nNetInit; const int g = netNodeList.mNumNodes - 1; netLinks.clear(); own.clear();
        for (size_t i = 0; i < ls.size(); ++i) { const L& q = ls[i]; own.emplace_back(makeLink(fluid, mName + mon::fmt(".link%d", int(i)), &netNodeList, q, netLinks, q.a < 0 ? g : q.a + netSuperNodesOffset, q.b < 0 ? g : q.b + netSuperNodesOffset)); }
        for (auto& l : locs) for (auto& p : l.second) l.first->addConnection(own[p.first].get(), 1, p.second);
        if (!netIsSubNetwork) { if (fluid) netSolver.initializeFluidNodes(netNodeList); else netSolver.initializeNodes(netNodeList); GunnsConfigData cfg(mName, 1e-6, 1e-12, fluid ? 20 : 10, 100); netSolver.initialize(cfg, netLinks); } }
    void stepSpottersPre(const double) { ++pre; if (log) log->ev.push_back("pre " + mName); }
    void stepSpottersPost(const double) { ++post; if (log) log->ev.push_back("post " + mName); }
};
template <class NODE, class BASE> struct Super : BASE {
    FluidWorld* fw; std::function<Sub<NODE>*(int)> joint; Log* log = 0;
    Super(const std::string& nm, FluidWorld* w) : BASE(nm), fw(w) {}
    GunnsNetworkBase* createJointNetwork(const int type) { return joint(type); }
    void stepSpottersPre(const double) { if (log) log->ev.push_back("pre super"); }
    void stepSpottersPost(const double) { if (log) log->ev.push_back("post super"); }
};
template <class NODE> struct Flat {
    std::unique_ptr<NODE[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink> > own; Gunns net;
};
template <class NODE, class BASE> void superCase(mon::Ctx& c, bool fluid) {
    typedef Sub<NODE> S; typedef Super<NODE, BASE> SN;
    std::unique_ptr<FluidWorld> fw; if (fluid) fw.reset(new FluidWorld(c.r, c.r.i(1, 3), c.r.p(0.3) ? c.r.i(1, 2) : 0));
    const int nSubs = c.r.i(1, 5); Log log; std::vector<std::unique_ptr<S> > subs; std::vector<std::unique_ptr<GunnsMultiLinkConnector> > locs;
    auto addRandomLinks = [&](S* s, bool isJoint) {
        if (fluid) for (int i = 0; i < s->n; ++i) s->nodeState.push_back(fnet::randomState(c.r, fw->mix));
        for (int i = 0; i < s->n; ++i) { L q{bnet::CAP, i, -1, 0, 0, {}}; if (fluid) { q.v = c.r.logu(0.1, 10); q.st = fnet::randomState(c.r, fw->mix); s->ls.push_back(q); } else { q.k = c.r.p(0.6) ? bnet::CAP : bnet::COND; q.v = c.r.logu(0.1, 10); q.w = c.r.uni(-20, 20); s->ls.push_back(q); } }
        const int nl = isJoint ? c.r.i(0, 2) : c.r.i(1, 6);
        for (int i = 0; i < nl; ++i) { L q{bnet::COND, 0, 0, 0, 0, {}}; q.a = c.r.i(0, s->n - 1); q.b = fluid ? c.r.i(0, s->n - 1) : c.r.i(-1, s->n - 1); if (q.a == q.b) continue; const double t = c.r.u();
            if (t < 0.5) q.v = fluid ? c.r.logu(1e-6, 1e-2) : c.r.logu(0.01, 100);
            else if (t < 0.75) { q.k = bnet::POT; q.v = fluid ? c.r.logu(1e-6, 1e-2) : c.r.logu(0.01, 100); q.w = c.r.uni(-20, 20); }
            else { q.k = bnet::SRC; q.v = fluid ? c.r.sgn() * c.r.logu(1e-6, 1e-4) : c.r.uni(-10, 10); }
            s->ls.push_back(q); } };
    for (int i = 0; i < nSubs; ++i) { S* s = S::make(mon::fmt("sub%d", i), c.r.i(1, 5), fw.get()); subs.emplace_back(s); s->log = &log; addRandomLinks(s, false); }
    // joints between pairs of locations
    std::vector<S*> joints; const int jn = c.r.i(1, 3);
    auto makeJoint = [&](int type) { (void)type; S* s = S::make(mon::fmt("joint%d", int(joints.size())), jn, fw.get()); s->log = &log; addRandomLinks(s, true); joints.push_back(s); return s; };
    const int nLoc = nSubs > 1 ? c.r.i(0, 4) : 0; std::vector<int> locSub;
    for (int i = 0; i < nLoc; ++i) { const int k = c.r.i(0, nSubs - 1); locs.emplace_back(new GunnsMultiLinkConnector(subs[k].get())); locSub.push_back(k);
        GunnsMultiLinkConnectorConfigData lc(mon::fmt("loc%d", i)); GunnsMultiLinkConnectorInputData li; locs.back()->initialize(&lc, &li);
        std::vector<std::pair<int, int> > cons; const int m = c.r.i(1, 3);
        for (int j = 0; j < m; ++j) { L q{bnet::COND, c.r.i(0, subs[k]->n - 1), -1, fluid ? c.r.logu(1e-6, 1e-2) : c.r.logu(0.01, 100), 0, {}}; subs[k]->ls.push_back(q); cons.push_back({int(subs[k]->ls.size()) - 1, c.r.i(0, jn - 1)}); }
        subs[k]->locs.push_back({locs.back().get(), cons}); }
    SN A("A", fw.get()), B("B", fw.get()); A.joint = makeJoint; B.joint = makeJoint; A.log = &log;
    std::vector<int> joined; std::map<GunnsMultiLinkConnector*, S*> jointOf;
    const bool merge = nSubs >= 2 && c.r.p(0.35); c.note = mon::fmt("%s subs=%d locations=%d merge=%d", fluid ? "fluid" : "basic", nSubs, nLoc, int(merge));
    // building: random order, duplicates, null, merging of another super network
    std::vector<int> order; for (int i = 0; i < nSubs; ++i) order.push_back(i); c.r.shuffle(order);
    int split = merge ? c.r.i(1, nSubs - 1) : 0;
    for (int i = 0; i < split; ++i) { B.addSubNetwork(subs[order[i]].get()); if (c.r.p(0.3)) B.addSubNetwork(subs[order[i]].get()); }
    const bool regB = merge && c.r.p(0.2); if (regB) B.registerSuperNodes();
    for (int i = split; i < nSubs; ++i) { A.addSubNetwork(subs[order[i]].get()); if (c.r.p(0.3)) A.addSubNetwork(subs[order[i]].get()); if (c.r.p(0.1)) A.addSubNetwork((GunnsNetworkBase*)0); }
    if (merge) { if (c.r.p(0.5)) A.addSubNetwork(&B); else A.addSubNetwork(subs[order[c.r.i(0, split - 1)]].get()); }
    // joints (all sub networks are in A now): pairs of different unused or one used location
    for (int i = 0; i + 1 < nLoc; ++i) { GunnsMultiLinkConnector *x = locs[i].get(), *y = locs[i + 1].get(); const bool jx = jointOf.count(x), jy = jointOf.count(y);
        const size_t before = joints.size();
        if (jx && jy) { bool threw = false; try { A.joinLocations(x, y); } catch (TsInitializationException&) { threw = true; } CHK(threw, "super-double-join", "joining two already joined locations was accepted"); continue; }
        if (c.r.p(0.7)) { A.joinLocations(x, y); S* j = jx ? jointOf[x] : jy ? jointOf[y] : joints.back(); CHK(joints.size() == before + ((jx || jy) ? 0 : 1), "super-joint-count", "a join created the wrong number of joint networks");
            jointOf[x] = j; jointOf[y] = j; CHK(A.getLocationJoint(x) == j && A.getLocationJoint(y) == j, "super-location-joint", "joined location does not report its joint network"); } }
    std::vector<S*> all; for (auto& s : subs) all.push_back(s.get()); for (S* j : joints) all.push_back(j);
    for (S* s : all) CHK(A.isSubNetworkAdded(s) && s->getSuperNetwork() == &A, "super-membership", s->getName() + " is not recorded as a sub-network");
    int total = 0; for (S* s : all) total += s->n;
    CHK(A.netNodeList.mNumNodes == total, "super-node-count", mon::fmt("super network counts %d nodes, its sub-networks have %d", A.netNodeList.mNumNodes, total));
    A.registerSuperNodes();
    CHK(A.netNodeList.mNumNodes == total + 1, "super-node-count", mon::fmt("super network holds %d nodes, expected %d", A.netNodeList.mNumNodes, total + 1));
    std::vector<int> used(total, -1);
    for (size_t i = 0; i < all.size(); ++i) for (int k = 0; k < all[i]->n; ++k) { const int g = all[i]->getNodeOffset() + k; if (!CHK(g >= 0 && g < total && used[g] < 0, "super-node-overlap", mon::fmt("node %d of %s maps to super node %d already used or out of range", k, all[i]->getName().c_str(), g))) return; used[g] = int(i); }
    // late additions are refused and change nothing
    std::unique_ptr<S> late(S::make("late", 2, fw.get())); if (c.r.p(0.3)) { A.addSubNetwork(late.get()); CHK(!A.isSubNetworkAdded(late.get()) && A.netNodeList.mNumNodes == total + 1, "super-late-add", "a sub-network was added after the super nodes were registered"); c.count("late_additions"); }
    if (c.r.p(0.1)) { A.registerSuperNodes(); CHK(A.netNodeList.mNumNodes == total + 1, "super-register-twice", "registering the super nodes twice changed the node count"); }
    setCfg(A.netSolverConfig, fluid ? 20 : 10);
    for (S* s : all) s->initialize(); for (S* s : all) CHK(s->nNodesInit == 0 && s->nNetInit == 0, "sub-initialize", s->getName() + " initialised itself although it is part of a super network");
    A.initialize();
    for (S* s : all) CHK(s->nNodesInit == 1 && s->nNetInit == 1, "super-init-once", mon::fmt("%s initialised its nodes %d times and its network %d times", s->getName().c_str(), s->nNodesInit, s->nNetInit));
    if (c.failed()) return;
    // the flat network: same links in the same order, nodes at the same indexes
    std::vector<S*> byOffset = all; std::sort(byOffset.begin(), byOffset.end(), [](S* x, S* y) { return x->getNodeOffset() < y->getNodeOffset(); });
    Flat<NODE> F; F.nodes.reset(new NODE[total + 1]); F.list.mNumNodes = total + 1; F.list.mNodes = F.nodes.get();
    for (S* s : byOffset) for (int k = 0; k < s->n; ++k) S::initNode(F.nodes[s->getNodeOffset() + k], mon::fmt("n%d", s->getNodeOffset() + k), fw.get(), fluid ? &s->nodeState[k] : 0);
    S::initNode(F.nodes[total], "ground", fw.get(), 0);
    std::vector<std::pair<S*, int> > index;
    for (S* s : byOffset) for (size_t i = 0; i < s->ls.size(); ++i) { const L& q = s->ls[i]; int a = q.a < 0 ? total : q.a + s->getNodeOffset(), b = q.b < 0 ? total : q.b + s->getNodeOffset();
        int jb = -1; for (auto& l : s->locs) if (jointOf.count(l.first)) for (auto& p : l.second) if (p.first == int(i)) jb = jointOf[l.first]->getNodeOffset() + p.second;
        F.own.emplace_back(makeLink(fluid, mon::fmt("f%d", int(F.own.size())), &F.list, q, F.links, a, b)); if (jb >= 0) F.own.back()->setPort(1, jb); index.push_back({s, int(i)}); }
    { if (fluid) F.net.initializeFluidNodes(F.list); else F.net.initializeNodes(F.list); GunnsConfigData cfg("flat", 1e-6, 1e-12, fluid ? 20 : 10, 100); F.net.initialize(cfg, F.links); }
    const int steps = c.r.i(2, c.thorough ? 30 : 8); const double dt = c.r.pick(std::vector<double>{0.1, 0.05, 1.0});
    for (int t = 0; t < steps; ++t) {
        if (c.r.p(0.2)) { A.restart(); F.net.restart(); c.count("restarts"); }
        if (c.r.p(0.3)) { int i = c.r.i(0, int(index.size()) - 1); const double b = c.r.p(0.3) ? 1.0 : c.r.u(); const bool f = c.r.p(0.7); index[i].first->own[index[i].second]->setMalfBlockage(f, b); F.own[i]->setMalfBlockage(f, b); }
        if (c.r.p(0.2)) for (S* s : all) s->update(dt);                 // sub-networks must not act on their own
        if (c.r.p(0.1)) for (S* s : all) s->restart();
        log.ev.clear(); bool threw = false; A.update(dt); try { F.net.step(dt); } catch (TsNumericalException&) { threw = true; }
        if (threw) { c.count("threw"); return; }
        for (S* s : all) CHK(s->pre == t + 1 && s->post == t + 1, "super-spotter-count", mon::fmt("after %d updates %s stepped its spotters %d/%d times", t + 1, s->getName().c_str(), s->pre, s->post));
        { bool posts = false, ok = true; for (auto& e : log.ev) { if (e[1] == 'o') posts = true; else if (posts) ok = false; } CHK(ok && log.ev.size() == 2 * (all.size() + 1), "super-spotter-order", "spotters were not stepped once before and once after the solution"); }
        for (int i = 0; i < total; ++i) { const double a = A.netNodes[i].getPotential(), b = F.nodes[i].getPotential(); if (!NEAR(a, b, 1e-9, 1e-9, "super-potential", mon::fmt("potential of super node %d (%s) against the flat network", i, all[used[i]]->getName().c_str()))) return; }
        for (size_t i = 0; i < index.size(); ++i) NEAR(index[i].first->own[index[i].second]->getFlux(), F.own[i]->getFlux(), 1e-7, 1e-9, "super-flux", "link flux against the flat network");
        if constexpr (std::is_same<NODE, GunnsFluidNode>::value) for (int i = 0; i < total; ++i) { PolyFluid *x = A.netNodes[i].getContent(), *y = F.nodes[i].getContent();
            NEAR(x->getMass(), y->getMass(), 1e-9, 1e-12, "super-mass", "node mass against the flat network"); NEAR(x->getTemperature(), y->getTemperature(), 1e-9, 0, "super-temperature", "node temperature against the flat network");
            for (int k = 0; k < x->getNConstituents(); ++k) NEAR(x->getMassFraction(k), y->getMassFraction(k), 1e-9, 1e-12, "super-mixture", "node mixture against the flat network"); }
        if (c.failed()) return; c.count("steps"); c.hit(mon::mix(c.caseSeed, t)); }
    c.count("joined_locations", jointOf.size()); if (merge) c.count("merged_super_networks");
}

// Two threads: one updates, the other reads under the network's mutex and must never see a network in mid-update.
void mutexCase(mon::Ctx& c) {
    typedef Sub<GunnsBasicNode> S; const bool super = c.r.p(0.5); std::unique_ptr<S> s(S::make("net", 2, 0));
    s->ls.push_back(L{bnet::COND, 0, 1, 1.0, 0, {}}); s->ls.push_back(L{bnet::COND, 1, -1, 1.0, 0, {}}); s->ls.push_back(L{bnet::SRC, -1, 0, 1.0, 0, {}});
    Super<GunnsBasicNode, GunnsBasicSuperNetwork> A("A", 0); setCfg(A.netSolverConfig, 5);
    pthread_mutex_t* m; if (super) { A.addSubNetwork(s.get()); A.registerSuperNodes(); A.initialize(); A.setMutexEnabled(true); m = A.getMutex(); } else { s->initialize(); s->setMutexEnabled(true); m = s->getMutex(); }
    const int N = c.thorough ? 2000 : 300; std::atomic<bool> done(false); long torn = 0, reads = 0; int maxSeen = 0;
    std::thread rd([&]() { while (!done.load()) { pthread_mutex_lock(m); const int p = s->pre, q = s->post; if (p != q) ++torn; const double f = s->own.size() == 3 ? s->own[0]->getFlux() : 0; (void)f; ++reads; maxSeen = std::max(maxSeen, p); pthread_mutex_unlock(m); std::this_thread::yield(); } });
    for (int i = 0; i < N; ++i) { if (super) A.update(0.1); else s->update(0.1); if (i % 16 == 0) std::this_thread::yield(); }
    done = true; rd.join();
    CHK(torn == 0, "mutex-torn", mon::fmt("%ld of %ld reads under the network's mutex saw a half finished update", torn, reads)); CHK(s->pre == N && s->post == N, "mutex-steps", "updates were lost");
    c.count("locked_reads", reads); c.count("updates", N); c.hit(c.caseSeed);
    // a lock released after every update, also when disabled again
    CHK(pthread_mutex_trylock(m) == 0, "mutex-held", "the mutex is still held after the update"); pthread_mutex_unlock(m); }
}
MON_PROP2(N01, basic, "one step of one random composition compared with its flat equivalent") { superCase<GunnsBasicNode, GunnsBasicSuperNetwork>(c, false); }
MON_PROP2(N01, fluid, "one step of one random composition compared with its flat equivalent") { superCase<GunnsFluidNode, GunnsFluidSuperNetwork>(c, true); }
MON_PROP2(N01, mutex, "one threaded run") { if (c.caseIndex % 10 == 2 || c.thorough) mutexCase(c); }

// ---------------------------------------------------------------------------------------------
// N02: sockets, jumpers and plugs
// ---------------------------------------------------------------------------------------------
namespace {
template <class BASE> struct Plug : BASE {
    int size, active, last, conn, disc; Plug(const std::string& n, int sz) : BASE(n, sz), size(sz), active(sz), last(sz), conn(sz), disc(sz) {}
    void setActiveConnection(const int i) { active = i; } void setLastDisconnection(const int i) { last = i; } void setConnectionRequest(const int i) { conn = i; } void setDisconnectionRequest(const int i) { disc = i; }
    int getActiveConnection() { return active; } int getLastDisconnection() { return last; } int getConnectionRequest() { return conn; } int getDisconnectionRequest() { return disc; } int getNoConnection() { return size; } };
struct BasicKit { typedef GunnsBasicNode Node; typedef GunnsBasicSocket Socket; typedef GunnsBasicJumper Jumper; typedef Plug<GunnsBasicJumperPlug> P; static const bool fluid = false; };
struct FluidKit { typedef GunnsFluidNode Node; typedef GunnsFluidSocket Socket; typedef GunnsFluidJumper Jumper; typedef Plug<GunnsFluidJumperPlug> P; static const bool fluid = true; };
// model of the documented plug protocol
struct MSock { int node0, node1; int plug = -1; };
struct MPlug { std::vector<int> list; int active = -1, last = -1, conn = -1, disc = -1, direct = -99, node = -1, home = -1; };   // socket numbers are positions in list; -1 none
struct Model { std::vector<MSock> s; std::vector<MPlug> p; long rejected = 0, ignored = 0;
    void update(int k) { MPlug& q = p[k]; const int none = -1, n = int(q.list.size());
        if (q.direct >= 0 && q.direct <= n && (q.direct == n ? none : q.direct) != q.active) { q.disc = q.active; if (q.direct != n) { if (s[q.list[q.direct]].plug >= 0) ++rejected; else q.conn = q.direct; } }
        if (q.disc != none) { if (q.active == none || q.active == q.disc) { MSock& t = s[q.list[q.disc]]; q.node = t.node1; if (t.plug == k) t.plug = -1; q.last = q.disc; if (q.active == q.disc) q.active = none; } else ++ignored; q.disc = none; }
        if (q.conn != none) { if (q.active != none) ++ignored; else { MSock& t = s[q.list[q.conn]]; if (t.plug < 0) { t.plug = k; q.active = q.conn; q.node = t.node0; q.last = none; } else ++rejected; } q.conn = none; } }
    void restart(int k) { MPlug& q = p[k]; q.node = q.home; if (q.active != -1) { q.disc = q.conn = q.active; } else { q.disc = q.last; q.conn = -1; } update(k); }
    bool same(const Model& o) const { for (size_t i = 0; i < s.size(); ++i) if (s[i].plug != o.s[i].plug) return false; for (size_t i = 0; i < p.size(); ++i) if (p[i].node != o.p[i].node || p[i].active != o.p[i].active) return false; return true; } };

template <class K> void socketCase(mon::Ctx& c) {
    const int nn = c.r.i(4, 9), ns = c.r.i(1, 5), nj = c.r.i(1, 3), g = nn; std::unique_ptr<FluidWorld> fw; if (K::fluid) fw.reset(new FluidWorld(c.r, 2, 0));
    std::unique_ptr<typename K::Node[]> nodes(new typename K::Node[nn + 1]); GunnsNodeList list; list.mNumNodes = nn + 1; list.mNodes = nodes.get();
    for (int i = 0; i <= nn; ++i) { fnet::State st; if (fw && i < nn) st = fnet::randomState(c.r, fw->mix); Sub<typename K::Node>::initNode(nodes[i], mon::fmt("n%d", i), fw.get(), fw && i < nn ? &st : 0); }
    Gunns net; if constexpr (K::fluid) net.initializeFluidNodes(list); else net.initializeNodes(list);
    std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink> > own;
    for (int i = 0; i < nn; ++i) { L q{bnet::CAP, i, -1, c.r.logu(0.5, 5), c.r.uni(-20, 20), {}}; if (fw) q.st = fnet::randomState(c.r, fw->mix); own.emplace_back(makeLink(K::fluid, mon::fmt("cap%d", i), &list, q, links, i, g)); }
    const double G = K::fluid ? 1e-4 : 1.0; Model m;
    std::vector<std::unique_ptr<typename K::Socket> > so; std::vector<bool> ss; std::vector<double> sg;
    auto mkSocket = [&](int i) { typename K::Socket* s = so[i].get(); 
        if constexpr (K::fluid) { GunnsFluidSocketConfigData cd(mon::fmt("socket%d", i), &list, sg[i], 0.0, ss[i]); s->initialize(cd, GunnsFluidSocketInputData(), links, m.s[i].node0, m.s[i].node1); }
        else s->initialize(GunnsBasicSocketConfigData(mon::fmt("socket%d", i), &list, sg[i], ss[i]), GunnsBasicSocketInputData(), links, m.s[i].node0, m.s[i].node1); };
    for (int i = 0; i < ns; ++i) { so.emplace_back(new typename K::Socket); ss.push_back(c.r.p(0.5)); sg.push_back(G * c.r.logu(0.1, 10)); MSock t; t.node0 = c.r.i(0, nn - 1); do t.node1 = c.r.i(0, g); while (t.node1 == t.node0); m.s.push_back(t); }
    std::vector<std::unique_ptr<typename K::P> > pl; std::vector<std::unique_ptr<typename K::Jumper> > ju; std::vector<bool> js; std::vector<double> jg; std::vector<int> plugOf; std::vector<std::pair<int, int> > start; std::vector<int> initConn;
    const bool socketsFirst = c.r.p(0.5); 
    for (int j = 0; j < nj; ++j) { ju.emplace_back(new typename K::Jumper); jg.push_back(G * c.r.logu(0.1, 10)); int n0 = c.r.i(0, nn - 1), n1; do n1 = c.r.i(0, nn - 1); while (n1 == n0); start.push_back({n0, n1});
        for (int e = 0; e < 2; ++e) { js.push_back(c.r.p(0.4)); const bool has = c.r.p(0.85); if (!has) { plugOf.push_back(-1); initConn.push_back(-1); continue; }
            MPlug q; std::vector<int> ids; for (int k = 0; k < ns; ++k) ids.push_back(k); c.r.shuffle(ids); ids.resize(c.r.i(1, ns)); q.list = ids; q.home = q.node = e ? n1 : n0;
            std::unique_ptr<typename K::P> p(new typename K::P(mon::fmt("plug%d_%d", j, e), int(ids.size())));
            plugOf.push_back(int(m.p.size())); int ic = -1; if (c.r.p(0.4)) { const int t = c.r.i(0, int(ids.size()) - 1); if (m.s[ids[t]].plug < 0) { ic = t; m.s[ids[t]].plug = int(m.p.size()); q.active = t; q.node = m.s[ids[t]].node0; } }
            initConn.push_back(ic); m.p.push_back(q); pl.push_back(std::move(p)); } }
    if (socketsFirst) for (int i = 0; i < ns; ++i) mkSocket(i); else { /* initialise the sockets into a scratch list first so plugs can connect, then order links */ std::vector<GunnsBasicLink*> keep; keep.swap(links); for (int i = 0; i < ns; ++i) mkSocket(i); std::vector<GunnsBasicLink*> sockets; sockets.swap(links); links = keep; keep = sockets; for (auto* x : keep) (void)x; }
    for (size_t k = 0; k < m.p.size(); ++k) { for (int t : m.p[k].list) pl[k]->addSocket(*so[t]); bool threw = false; try { pl[k]->addSocket(*so[0]); } catch (TsInitializationException&) { threw = true; } CHK(threw, "plug-too-many", "a plug took more sockets than its list holds"); }
    for (int j = 0; j < nj; ++j) { typename K::P* p0 = plugOf[2 * j] < 0 ? 0 : pl[plugOf[2 * j]].get(); typename K::P* p1 = plugOf[2 * j + 1] < 0 ? 0 : pl[plugOf[2 * j + 1]].get();
        const int c0 = p0 ? (initConn[2 * j] < 0 ? p0->size : initConn[2 * j]) : -1, c1 = p1 ? (initConn[2 * j + 1] < 0 ? p1->size : initConn[2 * j + 1]) : -1;
        if constexpr (K::fluid) { GunnsFluidJumperConfigData cd(mon::fmt("jumper%d", j), &list, jg[j], 0.0, p0, p1, js[2 * j], js[2 * j + 1]); ju[j]->initialize(cd, GunnsFluidJumperInputData(false, 0, false, 0, c0, c1), links, start[j].first, start[j].second); }
        else ju[j]->initialize(GunnsBasicJumperConfigData(mon::fmt("jumper%d", j), &list, jg[j], p0, p1, js[2 * j], js[2 * j + 1]), GunnsBasicJumperInputData(false, 0, c0, c1), links, start[j].first, start[j].second); }
    if (!socketsFirst) for (int i = 0; i < ns; ++i) links.push_back(so[i].get());
    GunnsConfigData cfg("net", 1e-6, 1e-12, K::fluid ? 20 : 10, 100); net.initialize(cfg, links);
    c.note = mon::fmt("%s nodes=%d sockets=%d jumpers=%d plugs=%d", K::fluid ? "fluid" : "basic", nn, ns, nj, int(m.p.size()));
    auto actual = [&]() { Model a = m; for (int i = 0; i < ns; ++i) { a.s[i].plug = -1; int cnt = 0; for (size_t k = 0; k < pl.size(); ++k) if (so[i]->isConnected(pl[k].get())) { a.s[i].plug = int(k); ++cnt; }
            CHK(cnt <= 1 && so[i]->isConnected() == (cnt == 1), "socket-exclusive", mon::fmt("socket %d: %d plugs connected, reports %d", i, cnt, int(so[i]->isConnected()))); }
        for (int j = 0; j < nj; ++j) for (int e = 0; e < 2; ++e) if (plugOf[2 * j + e] >= 0) { const int k = plugOf[2 * j + e]; a.p[k].node = ju[j]->getNodeMap()[e]; a.p[k].active = pl[k]->active == pl[k]->size ? -1 : pl[k]->active; } return a; };
    auto describe = [&](const Model& a) { std::string o; for (size_t i = 0; i < a.s.size(); ++i) o += mon::fmt(" s%d:%d", int(i), a.s[i].plug); for (size_t k = 0; k < a.p.size(); ++k) o += mon::fmt(" p%d:%d@%d", int(k), a.p[k].active, a.p[k].node); return o; };
    { Model a = actual(); if (!CHK(a.same(m), "plug-initial", "after initialisation:" + describe(a) + " expected" + describe(m))) return; }
    const int steps = c.r.i(3, c.thorough ? 60 : 20); bool changed = true;
    for (int t = 0; t < steps; ++t) {
        if (!pl.empty() && c.r.p(0.7)) { const int nreq = c.r.i(1, 3); for (int x = 0; x < nreq; ++x) { const int k = c.r.i(0, int(pl.size()) - 1), n = int(m.p[k].list.size()); const double w = c.r.u();
            if (w < 0.35) { const int i = c.r.i(0, n - 1); pl[k]->setConnectionRequest(i); m.p[k].conn = i; }
            else if (w < 0.6) { const int i = m.p[k].active >= 0 && c.r.p(0.7) ? m.p[k].active : c.r.i(0, n - 1); pl[k]->setDisconnectionRequest(i); m.p[k].disc = i; }
            else if (w < 0.85) { const int i = c.r.i(0, n); pl[k]->setDirectConnectionRequest(i); m.p[k].direct = i; }
            else { const int i = c.r.p(0.5) ? -99 : c.r.p(0.5) ? n + 1 : -1; pl[k]->setDirectConnectionRequest(i); m.p[k].direct = i; } } }
        const Model old = m; const bool rs = c.r.p(0.07);
        if (rs) { net.restart(); for (int j = 0; j < nj; ++j) for (int e = 0; e < 2; ++e) if (plugOf[2 * j + e] >= 0) m.restart(plugOf[2 * j + e]); c.count("restarts"); }
        bool threw = false; try { net.step(0.1); } catch (TsNumericalException&) { threw = true; } if (threw) { c.count("threw"); return; }
        Model a = actual(); bool ok = false; const int maxPass = K::fluid ? 20 : 1; Model look = m;
        for (int pass = 0; pass < maxPass && !ok; ++pass) { for (int j = 0; j < nj; ++j) for (int e = 0; e < 2; ++e) if (plugOf[2 * j + e] >= 0) look.update(plugOf[2 * j + e]); ok = a.same(look); }
        if (!CHK(ok, "plug-protocol", mon::fmt("step %d:", t) + describe(a) + " expected" + describe(look) + " before" + describe(old))) return; m = look;
        // requests are consumed
        for (size_t k = 0; k < pl.size(); ++k) CHK(pl[k]->conn == pl[k]->size && pl[k]->disc == pl[k]->size, "plug-request-pending", "a connection or disconnection request was left pending after the step");
        const bool nowChanged = !m.same(old) || rs;
        if (!nowChanged && !changed) {   // settled: judge the flows
            for (int j = 0; j < nj; ++j) { const int a0 = ju[j]->getNodeMap()[0], b0 = ju[j]->getNodeMap()[1]; bool sealed = a0 == b0; for (int e = 0; e < 2; ++e) if (plugOf[2 * j + e] >= 0 && js[2 * j + e] && m.p[plugOf[2 * j + e]].active < 0) sealed = true;
                const double dp = nodes[a0].getPotential() - nodes[b0].getPotential(), fl = ju[j]->getFlux();
                if (sealed) CHK(fl == 0.0, "jumper-sealed", mon::fmt("a sealed or shorted jumper passes %g", fl)); else if (!K::fluid) NEAR(fl, jg[j] * dp, 1e-6, 1e-9, "jumper-flux", "open jumper flux"); else CHK(std::fabs(dp) < 1e-3 || fl * dp > 0, "jumper-flow", mon::fmt("open jumper passes %g for dP %g", fl, dp)); }
            for (int i = 0; i < ns; ++i) { const double dp = nodes[m.s[i].node0].getPotential() - nodes[m.s[i].node1].getPotential(), fl = so[i]->getFlux(); const bool closed = ss[i] || m.s[i].plug >= 0;
                if (closed) CHK(fl == 0.0, "socket-sealed", mon::fmt("a connected or self sealing socket leaks %g", fl)); else if (!K::fluid) NEAR(fl, sg[i] * dp, 1e-6, 1e-9, "socket-flux", "open socket flux"); else CHK(std::fabs(dp) < 1e-3 || fl * dp > 0, "socket-flow", mon::fmt("open socket passes %g for dP %g", fl, dp)); }
            c.count("settled_steps"); }
        changed = nowChanged; if (nowChanged) c.count("connection_changes"); c.count("steps"); c.hit(mon::mix(c.caseSeed, t)); }
    c.count("rejected", m.rejected); c.count("ignored", m.ignored); }
}
MON_PROP2(N02, basic, "one step of one random plug request history") { socketCase<BasicKit>(c); }
MON_PROP2(N02, fluid, "one step of one random plug request history") { socketCase<FluidKit>(c); }
