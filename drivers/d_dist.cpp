// Distributed interfaces (N04): the role protocol of the fluid and electrical buses under lag, and
// the ledger of two fluid networks joined by a pair of interface links.
#include "fnet.hpp"
#include <deque>
#include "core/GunnsFluidDistributedIf.hh"
#include "interop/Distributed2WayBusElect.hh"
#include "software/exceptions/TsInitializationException.hh"
using mon::fmt;
namespace {
typedef Distributed2WayBusFluid Bus; typedef Distributed2WayBusFluidInterfaceData Data;
struct XBus : Bus { int latency() const { return mLoopLatency; } int sinceFlip() const { return mFramesSinceFlip; } unsigned queue() const { return mNotifications.size(); } };
struct Rec { unsigned frame; bool demand; double source, energy, cap; std::vector<double> x, tc; };
}
// hasValidData, mixture transfer between different sizes, state set and get, notifications
MON_PROP2(N04, data, "one random interface data object or transfer") {
    mon::Rng& r = c.r; for (int q = 0; q < 10; ++q) {
        const int nA = r.i(0, 6), nB = r.i(0, 6), tA = r.i(0, 4), tB = r.i(0, 4); Data a, b; a.initialize(nA, tA); b.initialize(nB, tB); CHK(int(a.getNumFluid()) == nA && int(a.getNumTc()) == tA, "dist-size", "sizes not as initialised");
        const int m = r.i(0, 7), mt = r.i(0, 7); std::vector<double> x(m), tc(mt); for (auto& v : x) v = r.p(0.05) ? -r.u() : r.p(0.1) ? 0 : r.u(); for (auto& v : tc) v = r.p(0.05) ? -r.u() : r.u();
        a.setMoleFractions(x.data(), m); a.setTcMoleFractions(tc.data(), mt); for (int i = 0; i < nA; ++i) CHK(a.mMoleFractions[i] == (i < m ? x[i] : 0.0), "dist-set-mix", fmt("fraction %d of %d set from %d", i, nA, m)); for (int i = 0; i < tA; ++i) CHK(a.mTcMoleFractions[i] == (i < mt ? tc[i] : 0.0), "dist-set-mix", fmt("trace %d of %d set from %d", i, tA, mt));
        const int g = r.i(0, 7); std::vector<double> y(g + 1, -7.0); a.getMoleFractions(y.data(), g); for (int i = 0; i < g; ++i) CHK(y[i] == (i < nA && i < m ? x[i] : 0.0), "dist-get-mix", fmt("fraction %d read into %d", i, g)); CHK(y[g] == -7.0, "dist-get-mix", "read beyond the caller's array"); std::fill(y.begin(), y.end(), -7.0); a.getTcMoleFractions(y.data(), g); for (int i = 0; i < g; ++i) CHK(y[i] == (i < tA && i < mt ? tc[i] : 0.0), "dist-get-mix", fmt("trace %d read into %d", i, g)); CHK(y[g] == -7.0, "dist-get-mix", "read beyond the caller's array");
        a.mEnergy = r.p(0.15) ? -r.u() : r.p(0.1) ? 0 : r.uni(1, 400); a.mCapacitance = r.p(0.15) ? -r.u() : r.p(0.2) ? 0 : r.u(); a.mSource = r.p(0.3) ? -r.u() : r.p(0.2) ? 0 : r.u(); a.mFrameCount = r.i(0, 3); a.mFrameLoopback = r.i(0, 3); a.mDemandMode = r.p(0.5);
        bool ok = a.mFrameCount >= 1 && a.mEnergy > 0 && a.mCapacitance >= 0 && (a.mDemandMode || a.mSource >= 0); for (int i = 0; i < nA; ++i) if (a.mMoleFractions[i] < 0) ok = false; for (int i = 0; i < tA; ++i) if (a.mTcMoleFractions[i] < 0) ok = false;
        CHK(a.hasValidData() == ok, "dist-valid", fmt("frame %u energy %g capacitance %g source %g demand %d reported %s", a.mFrameCount, a.mEnergy, a.mCapacitance, a.mSource, int(a.mDemandMode), ok ? "invalid" : "valid"));
        std::vector<double> bx, bt; for (int i = 0; i < nB; ++i) { b.mMoleFractions[i] = r.u(); bx.push_back(b.mMoleFractions[i]); } for (int i = 0; i < tB; ++i) { b.mTcMoleFractions[i] = r.u(); bt.push_back(b.mTcMoleFractions[i]); } b = a;
        CHK(b.mFrameCount == a.mFrameCount && b.mFrameLoopback == a.mFrameLoopback && b.mDemandMode == a.mDemandMode && b.mEnergy == a.mEnergy && b.mCapacitance == a.mCapacitance && b.mSource == a.mSource, "dist-copy", "a field is not copied"); for (int i = 0; i < nB; ++i) CHK(b.mMoleFractions[i] == (i < nA ? a.mMoleFractions[i] : bx[i]), "dist-copy", fmt("fraction %d copied from %d to %d", i, nA, nB)); for (int i = 0; i < tB; ++i) CHK(b.mTcMoleFractions[i] == (i < tA ? a.mTcMoleFractions[i] : bt[i]), "dist-copy", fmt("trace %d copied from %d to %d", i, tA, tB));
        c.hit(mon::mix(c.caseSeed, q)); c.count("transfers"); } }

// Two buses exchanging with a fixed lag each way: roles, frame counts, delivery.
MON_PROP2(N04, fluidbus, "one exchange of a lagged pair of fluid buses") {
    mon::Rng& r = c.r; XBus bus[2]; const int K = r.i(1, 4), T = r.i(0, 2), master = r.i(0, 1); int lag[2] = {r.i(1, 8), r.i(1, 8)}; for (int s = 0; s < 2; ++s) bus[s].initialize(s == master, K, T);
    std::deque<std::unique_ptr<Data> > chan[2]; std::vector<Rec> hist[2]; double cap[2]; for (double& v : cap) v = r.p(0.1) ? 0 : r.logu(0.01, 100); if (r.p(0.2)) cap[1] = cap[0]; int forced[2] = {0, 0};   // 1 demand, 2 supply
    auto force = [&](int s, int f) { forced[s] = f; if (f == 1) bus[s].forceDemandRole(); else if (f == 2) bus[s].forceSupplyRole(); else bus[s].resetForceRole(); }; const int fm = r.p(0.5) ? 0 : r.i(1, 3); if (fm & 1) force(0, r.i(1, 2)); if (fm & 2) force(1, forced[0] ? 3 - forced[0] : r.i(1, 2));
    const bool odd = fm == 1 || fm == 2; c.note = fmt("fluid buses lag %d/%d capacitance %g/%g forced %d/%d master %d", lag[0], lag[1], cap[0], cap[1], forced[0], forced[1], master); for (int s = 0; s < 2; ++s) CHK(!bus[s].isInDemandRole(), "bus-initial-role", "a new bus is in the demand role");
    const int N = r.i(50, 300); int quiet = 0; bool was[2] = {false, false}; int flips = 0; const int settle = 6 * (lag[0] + lag[1]) + 20; std::deque<int> dropped; unsigned frame[2] = {0, 0}, lastSeen[2] = {0, 0}; Distributed2WayBusFluidFluidState fs; Distributed2WayBusFluidFlowState fl; fs.initialize(K, T); fl.initialize(K, T);
    for (int t = 0; t < N; ++t) {
        if (r.p(0.01) && quiet > settle) { for (double& v : cap) v = r.logu(0.01, 100); quiet = 0; c.count("capacitance_changes"); }
        if (r.p(0.006) && quiet > settle) { const int f = r.i(0, 2); force(0, f); force(1, f ? 3 - f : 0); quiet = 0; c.count("force_changes"); }
        for (int s = 0; s < 2; ++s) { XBus& b = bus[s]; const bool pre = b.isInDemandRole(); std::deque<std::unique_ptr<Data> >& in = chan[1 - s]; const bool fresh = int(in.size()) >= lag[1 - s];
            if (fresh) { b.mInData = *in.front(); in.pop_front(); if (b.mInData.mFrameCount) lastSeen[s] = b.mInData.mFrameCount; }
            const bool oldLast = b.mInData.mDemandMode; (void)oldLast; b.processInputs(); ++frame[s]; const bool d = b.isInDemandRole();
            CHK(b.mOutData.mFrameCount == frame[s], "bus-frame", fmt("frame count %u after %u frames", b.mOutData.mFrameCount, frame[s])); CHK(b.mOutData.mFrameLoopback == b.mInData.mFrameCount, "bus-loopback", "the remote frame count is not looped back"); CHK(b.latency() == int(frame[s] - b.mInData.mFrameLoopback), "bus-latency", fmt("loop latency %d", b.latency()));
            if (forced[s]) CHK(d == (forced[s] == 1), "bus-forced", fmt("side %d forced to %s is in the other role", s, forced[s] == 1 ? "demand" : "supply"));
            // delivery: what the remote set, unchanged, only in the complementary role and when valid
            fs.mPressure = fl.mFlowRate = -12345; fs.mEnergy = fl.mEnergy = -1; const bool gotS = b.getFluidState(fs), gotF = b.getFlowState(fl), valid = b.mInData.hasValidData(), rd = b.mInData.mDemandMode; CHK(gotS == (d && valid && !rd) && gotF == (!d && valid && rd), "bus-delivery", fmt("side %d in %s: fluid state %d flow state %d delivered from a remote in %s", s, d ? "demand" : "supply", int(gotS), int(gotF), rd ? "demand" : "supply"));
            if (gotS || gotF) { const Rec* src = 0; for (auto& h : hist[1 - s]) if (h.frame == b.mInData.mFrameCount) src = &h; if (CHK(src != 0, "bus-delivery", "delivered data of an unknown frame")) { CHK((gotS ? fs.mPressure : fl.mFlowRate) == src->source && (gotS ? fs.mEnergy : fl.mEnergy) == src->energy, "bus-delivery-value", fmt("delivered %g/%g, sent %g/%g", gotS ? fs.mPressure : fl.mFlowRate, gotS ? fs.mEnergy : fl.mEnergy, src->source, src->energy)); for (int k = 0; k < K; ++k) CHK((gotS ? fs.mMoleFractions : fl.mMoleFractions)[k] == src->x[k], "bus-delivery-value", "delivered fraction differs from the sent one"); for (int k = 0; k < T; ++k) CHK((gotS ? fs.mTcMoleFractions : fl.mTcMoleFractions)[k] == src->tc[k], "bus-delivery-value", "delivered trace fraction differs from the sent one"); } c.count("deliveries"); }
            else CHK(fs.mPressure == -12345 && fl.mFlowRate == -12345, "bus-delivery", "a refused read changed the caller's data");
            // demand limit
            const double dt = 0.1, pl = r.uni(0, 2e5), lim = b.computeDemandLimit(dt, pl); double g = 0, want = 0; if (d && !b.mInData.mDemandMode && b.mOutData.mCapacitance > DBL_EPSILON && b.mInData.mCapacitance > DBL_EPSILON) { const double lg = std::min(1.0, 1.5 * std::pow(0.75, std::min(100, std::max(1, b.latency())))); const double q = std::min(1.25, std::max(1.0, b.mInData.mCapacitance / b.mOutData.mCapacitance)); g = lg + (1 - lg) * (q - 1) * 4; want = g * std::fabs(pl - b.mInData.mSource) / (dt * (1 / b.mOutData.mCapacitance + 1 / b.mInData.mCapacitance)); }
            NEAR(b.getDemandLimitGain(), g, 1e-12, 0, "bus-limit", "demand limit gain"); NEAR(lim, want, 1e-12, 0, "bus-limit", "demand limit"); CHK(g >= 0 && g <= 1 + 1e-12, "bus-limit", "gain out of range");
            // outputs: the state of this side's role; the other role's setter must be refused
            Rec h; h.frame = frame[s]; h.demand = d; h.source = d ? r.uni(-5, 5) : r.uni(0, 2e5); h.energy = r.uni(200, 400); for (int k = 0; k < K; ++k) h.x.push_back(r.u()); for (int k = 0; k < T; ++k) h.tc.push_back(r.u() * 1e-3); const unsigned nq = b.queue();
            Distributed2WayBusFluidFluidState so; Distributed2WayBusFluidFlowState fo; so.initialize(K, T); fo.initialize(K, T); so.mPressure = fo.mFlowRate = h.source; so.mEnergy = fo.mEnergy = h.energy; so.setMoleFractions(h.x.data(), K); fo.setMoleFractions(h.x.data(), K); so.setTcMoleFractions(h.tc.data(), T); fo.setTcMoleFractions(h.tc.data(), T); const double os = b.mOutData.mSource;
            if (r.p(0.1)) { if (d) b.setFluidState(so); else b.setFlowState(fo); CHK(b.mOutData.mSource == os && b.queue() == nq + 1, "bus-wrong-role", "the wrong role's state was accepted or not reported"); Distributed2WayBusNotification n; b.popNotification(n); CHK(n.mLevel == Distributed2WayBusNotification::WARN, "bus-wrong-role", "no warning about the wrong role"); }
            if (d) b.setFlowState(fo); else b.setFluidState(so); b.processOutputs(cap[s]); CHK(b.mOutData.mCapacitance == cap[s], "bus-capacitance", "capacitance is not output"); const bool d2 = b.isInDemandRole(); if (forced[s]) CHK(d2 == (forced[s] == 1), "bus-forced", "a forced side flipped on its outputs"); if (d2 && !d) { h.demand = true; h.source = 0; } CHK(b.mOutData.mSource == h.source, "bus-output", "output source is not what was set"); h.cap = cap[s];
            CHK(!(d && !d2), "bus-flip-output", "a demand side gave up its role on its own outputs");
            hist[s].push_back(h); if (hist[s].size() > 64) hist[s].erase(hist[s].begin()); std::unique_ptr<Data> o(new Data); o->initialize(K, T); *o = b.mOutData; chan[s].push_back(std::move(o));
            if (d2 != pre) { ++flips; CHK(b.queue() >= 1, "bus-notify", "a role change is not reported"); if (quiet > settle) CHK(false, "bus-unstable", fmt("side %d still changes role %d frames after the last change", s, quiet)); }
            Distributed2WayBusNotification n; while (b.popNotification(n) > 0) {} b.popNotification(n); CHK(n.mLevel == Distributed2WayBusNotification::NONE, "bus-notify", "an empty queue returns a notification"); was[s] = d2; c.hit(mon::mix(c.caseSeed, t * 2 + s)); }
        ++quiet;
        if (quiet > settle && !odd && (!forced[0] == !forced[1])) { CHK(was[0] != was[1], "bus-exclusive", fmt("both sides are in the %s role %d frames after the last change", was[0] ? "demand" : "supply", quiet)); if (!forced[0] && !forced[1]) { const int d = was[0] ? 0 : 1; CHK(cap[1 - d] * 1.25 >= cap[d] * (1 - 1e-12), "bus-side", fmt("the supply has capacitance %g, the demand %g", cap[1 - d], cap[d])); } c.count("settled_frames"); }
        if (c.failed()) return; } c.count("flips", flips); }

// Electrical buses: the side with the higher available voltage supplies, and is told the remote load.
MON_PROP2(N04, electbus, "one exchange of a lagged pair of electrical buses") {
    mon::Rng& r = c.r; struct X : Distributed2WayBusElect { int latency() const { return mLoopLatency; } }; X bus[2]; const int primary = r.i(0, 1); int lag[2] = {r.i(1, 8), r.i(1, 8)}; std::vector<Distributed2WayBusElectSupplyData*> sup[2]; const float v0 = float(r.uni(0, 130)); typedef Distributed2WayBusElectInterfaceData D; std::deque<std::unique_ptr<D> > chan[2]; unsigned frame[2] = {0, 0};
    for (int s = 0; s < 2; ++s) { const int n = r.i(0, 3); for (int i = 0; i < n; ++i) { sup[s].push_back(bus[s].createSupplyData()); sup[s].back()->mAvailable = r.p(0.8); sup[s].back()->mMaximumVoltage = float(r.uni(100, 130)); } bus[s].initialize(s == primary, v0); CHK(bus[s].isInDemandRole() == (s != primary), "ebus-initial-role", "initial roles are not primary supply, secondary demand"); }
    int forced[2] = {0, 0}; if (r.p(0.3)) { forced[0] = r.i(1, 2); if (forced[0] == 1) bus[0].forceDemandRole(); else bus[0].forceSupplyRole(); if (r.p(0.5)) { forced[1] = 3 - forced[0]; if (forced[1] == 1) bus[1].forceDemandRole(); else bus[1].forceSupplyRole(); } }
    c.note = fmt("electrical buses lag %d/%d primary %d forced %d/%d", lag[0], lag[1], primary, forced[0], forced[1]); const int settle = 6 * (lag[0] + lag[1]) + 20, N = r.i(60, 300); int quiet = 0; float load[2] = {float(r.uni(0, 500)), float(r.uni(0, 500))}; bool was[2] = {false, false}; float localV[2] = {0, 0};
    for (int t = 0; t < N; ++t) { if (r.p(0.015) && quiet > settle) { const int s = r.i(0, 1); if (!sup[s].empty()) { auto* q = sup[s][r.i(0, int(sup[s].size()) - 1)]; q->mAvailable = !q->mAvailable; quiet = 0; c.count("supply_changes"); } }
        for (int s = 0; s < 2; ++s) { X& b = bus[s]; auto& in = chan[1 - s]; if (int(in.size()) >= lag[1 - s]) { b.mInData = *in.front(); in.pop_front(); } b.processInputs(); ++frame[s]; CHK(b.mOutData.mFrameCount == frame[s] && b.mOutData.mFrameLoopback == b.mInData.mFrameCount && b.latency() == int(frame[s] - b.mInData.mFrameLoopback), "ebus-frame", "frame counts or latency wrong");
            CHK(b.mInData.hasValidData() == (b.mInData.mFrameCount > 1), "ebus-valid", "validity does not follow the frame count"); if (r.p(0.3)) load[s] = float(r.uni(0, 500)); float av = 0; for (auto* q : sup[s]) if (q->mAvailable && q->mMaximumVoltage > av) av = q->mMaximumVoltage;
            const bool pre = b.isInDemandRole(); CHK(b.getRemoteLoad() == (pre ? 0.0f : b.mInData.mDemandPower), "ebus-load", "remote load is not the remote's demand"); CHK(b.getRemoteSupply() == b.mInData.mSupplyVoltage, "ebus-supply", "remote supply is not the remote's voltage");
            localV[s] = std::max(av, pre ? 0.0f : b.mInData.mSupplyVoltage * 0.0f + av); b.update(localV[s], load[s]); const bool d = b.isInDemandRole(); if (forced[s]) CHK(d == (forced[s] == 1), "ebus-forced", "a forced side is in the other role");
            CHK(b.mOutData.mDemandPower == (d ? load[s] : 0.0f) && b.mOutData.mSupplyVoltage == (d ? av : localV[s]), "ebus-output", fmt("side %d outputs power %g voltage %g", s, b.mOutData.mDemandPower, b.mOutData.mSupplyVoltage)); if (d != pre && quiet > settle && !forced[0] && !forced[1]) CHK(false, "ebus-unstable", fmt("side %d still changes role %d frames after the last change", s, quiet)); was[s] = d;
            std::unique_ptr<D> o(new D); *o = b.mOutData; chan[s].push_back(std::move(o)); Distributed2WayBusNotification n; while (b.popNotification(n) > 0) {} c.hit(mon::mix(c.caseSeed, t * 2 + s)); }
        ++quiet; if (quiet > settle && (!forced[0] == !forced[1])) { CHK(was[0] != was[1], "ebus-exclusive", fmt("both sides are in the %s role", was[0] ? "demand" : "supply")); if (!forced[0]) { float av[2] = {0, 0}; for (int s = 0; s < 2; ++s) for (auto* q : sup[s]) if (q->mAvailable) av[s] = std::max(av[s], q->mMaximumVoltage); const int d = was[0] ? 0 : 1; CHK(av[1 - d] >= av[d], "ebus-side", fmt("the supply side has %g V available, the demand side %g V", av[1 - d], av[d])); } c.count("settled_frames"); }
        if (c.failed()) return; } }

namespace {
struct XIf : GunnsFluidDistributedIf { bool demand() const { return mInterface.isInDemandRole(); } };
struct Side { GunnsFluidNode nodes[3]; GunnsNodeList list; std::vector<GunnsBasicLink*> links; Gunns net; GunnsFluidCapacitor a, b; GunnsFluidConductor x; XIf dif; };
}
// Two real fluid networks, one forced to demand and the other to supply: everything that leaves one side arrives at the other.
MON_PROP2(N04, fluidlinks, "one exchange of a pair of distributed fluid interface links") {
    mon::Rng& r = c.r; const bool enth = r.p(0.5), opt = r.p(0.5), forced = r.p(0.8), over = r.p(0.2); fnet::Mix mix(r, r.i(1, 4), r.p(0.4) ? r.i(1, 2) : 0, false); const int K = mix.n(), TC = mix.nTc(); int lag[2] = {r.i(1, 4), r.i(1, 4)}; const double dt = 0.1; Side S[2]; fnet::State st[2]; double vol[2][2]; const int dem = r.i(0, 1);
    for (int s = 0; s < 2; ++s) { st[s] = fnet::randomState(r, mix); st[s].P = r.uni(50, 400); st[s].T = r.uni(270, 330); } if (r.p(0.3)) st[1].x = st[0].x;
    GunnsFluidDistributedIf bad; for (int s = 0; s < 2; ++s) { Side& q = S[s]; q.list.mNumNodes = 3; q.list.mNodes = q.nodes; for (int i = 0; i < 3; ++i) { fnet::Input in(st[s]); q.nodes[i].initialize("n", mix.cfg.get(), i < 2 ? &in.in : 0); } q.net.initializeFluidNodes(q.list); fnet::Input in(st[s]);
        vol[s][0] = forced && s == dem ? r.logu(0.1, 1.0) : r.logu(1, 20); vol[s][1] = r.logu(1, 20); q.a.initialize(GunnsFluidCapacitorConfigData("a", &q.list, 0.0), GunnsFluidCapacitorInputData(false, 0, vol[s][0], &in.in), q.links, 0, 2); q.b.initialize(GunnsFluidCapacitorConfigData("b", &q.list, 0.0), GunnsFluidCapacitorInputData(false, 0, vol[s][1], &in.in), q.links, 1, 2); q.x.initialize(GunnsFluidConductorConfigData("x", &q.list, r.logu(1e-5, 1e-3), 0.0, 0.5), GunnsFluidConductorInputData(false, 0), q.links, 0, 1);
        { GunnsFluidDistributedIfConfigData cd("i", &q.list, s == 0, enth, opt, &q.a); if (over) cd.overrideInterfaceMixtureSizes(K + r.i(0, 2), TC + r.i(0, 2)); GunnsFluidDistributedIfInputData id(false, 0, forced && s == dem, forced && s != dem); q.dif.initialize(cd, id, q.links, 0); }
        CHK(!q.dif.setPort(0, 2, "t", true), "dif-port", "the interface accepted the ground node"); q.net.initialize(GunnsConfigData("N", 1e-8, 1e-12, 20, 100), q.links); }
    { std::vector<GunnsBasicLink*> tmp; bool t1 = false, t2 = false; { GunnsFluidDistributedIf l; GunnsFluidDistributedIfConfigData cd("b", &S[0].list, true, enth, opt, 0); GunnsFluidDistributedIfInputData id; try { l.initialize(cd, id, tmp, 0); } catch (TsInitializationException&) { t1 = true; } } { GunnsFluidDistributedIf l; GunnsFluidDistributedIfConfigData cd("b", &S[0].list, true, enth, opt, &S[0].a); GunnsFluidDistributedIfInputData id(false, 0, true, true); try { l.initialize(cd, id, tmp, 0); } catch (TsInitializationException&) { t2 = true; } } CHK(t1 && t2, "dif-refuse", "a missing capacitor or contradictory force flags are accepted"); }
    c.note = fmt("interface pair K %d TC %d enthalpy %d option %d forced %d lag %d/%d P %g %g T %g %g vol %g/%g %g/%g dem %d", K, TC, int(enth), int(opt), int(forced), lag[0], lag[1], st[0].P, st[1].P, st[0].T, st[1].T, vol[0][0], vol[0][1], vol[1][0], vol[1][1], dem);
    std::deque<std::unique_ptr<Data> > chan[2]; const int N = r.i(10, c.thorough ? 300 : 100); int settled = 0, inDem[2] = {0, 0}; struct Got { double flux; }; std::deque<double> sent;   // demand side flux per frame, by frame number
    std::map<unsigned, double> fluxAt; struct Tot { double mol, h; std::vector<double> m, tc; }; auto total = [&](int s) { Tot t; t.mol = t.h = 0; t.m.assign(K, 0.0); t.tc.assign(TC, 0.0); for (int i = 0; i < 2; ++i) { if (i == 0 && S[s].dif.demand()) continue; PolyFluid* f = S[s].nodes[i].getContent(); t.mol += f->getMole(); t.h += f->getMass() * f->getSpecificEnthalpy(); for (int k = 0; k < K; ++k) t.m[k] += fnet::massOf(f, k); for (int k = 0; k < TC; ++k) t.tc[k] += f->getTraceCompounds()->getMasses()[k]; } return t; };
    auto diff = [&](const Tot& a, const Tot& b) { Tot t = a; t.mol -= b.mol; t.h -= b.h; for (int k = 0; k < K; ++k) t.m[k] -= b.m[k]; for (int k = 0; k < TC; ++k) t.tc[k] -= b.tc[k]; return t; };
    std::map<unsigned, Tot> took; double blk = 0; int exclusive = 0;
    for (int t = 0; t < N; ++t) { bool delivered = false; unsigned fr = 0;
        if (forced && r.p(0.05)) { blk = r.p(0.4) ? 1.0 : r.u(); S[dem].dif.setMalfBlockage(blk > 0, blk); }
        for (int s = 0; s < 2; ++s) { XIf& q = S[s].dif; auto& in = chan[1 - s]; bool fresh = false; if (int(in.size()) >= lag[1 - s]) { q.mInData.Distributed2WayBusFluidInterfaceData::operator=(*in.front()); in.pop_front(); fresh = true; } else if (s != dem || !forced) {}
            q.processInputs(); const bool d = q.demand(); if (forced) CHK(d == (s == dem), "dif-forced", "a forced interface is in the other role"); const Tot b4 = total(s); std::vector<double> tc1(TC); for (int k = 0; k < TC; ++k) tc1[k] = S[s].nodes[1].getContent()->getTraceCompounds()->getMasses()[k];
            if (d) { if (q.mInData.hasValidData() && !q.mInData.mDemandMode) { PolyFluid* f = S[s].nodes[0].getContent(); NEAR(f->getPressure(), q.mInData.mSource / 1000.0, 1e-9, 0, "dif-state", "demand node pressure against the supply's"); NEAR(enth ? f->getSpecificEnthalpy() : f->getTemperature(), q.mInData.mEnergy, 1e-6, 0, "dif-state", "demand node energy against the supply's"); double sx = 0; for (int k = 0; k < K; ++k) sx += q.mInData.mMoleFractions[k]; for (int k = 0; k < K; ++k) NEAR(f->getMoleFraction(k), q.mInData.mMoleFractions[k] / sx, 1e-9, 1e-12, "dif-state", "demand node mixture against the supply's"); for (int k = 0; k < TC; ++k) NEAR(f->getTraceCompounds()->getMoleFractions()[k], q.mInData.mTcMoleFractions[k] / sx, 1e-9, 1e-15, "dif-state", "demand node trace compounds against the supply's"); } }
            S[s].net.step(dt); inDem[s] = q.demand() ? inDem[s] + 1 : 0; if (inDem[s] > 2) CHK(S[s].nodes[0].getVolume() == 0.0, "dif-volume", "the demand side's node still holds a volume"); q.processOutputs(); const Tot now = diff(total(s), b4);
            if (forced) { if (s == dem) { if (blk >= 1.0) CHK(q.getFlux() == 0.0, "dif-blocked", fmt("flux %g through a blocked interface", q.getFlux())); Tot neg = now; took[q.mOutData.mFrameCount] = neg; fluxAt[q.mOutData.mFrameCount] = q.getFlux(); }
                else { fr = q.mInData.mFrameCount; delivered = fresh && q.mInData.hasValidData() && q.mInData.mDemandMode && fluxAt.count(fr); if (delivered) { const Tot& o = took[fr]; const double f = fluxAt[fr], tm = 1e-9 * total(s).mol; NEAR(q.getFlux(), -f, 1e-9, 1e-15, "dif-flux", "supply flux against the demand's of the delivered frame"); NEAR(now.mol, -f * dt, 1e-7, tm + 1e-14, "dif-moles", "supply content change against the delivered flux");
                        // what the demand tank gained is what the supply lost, species by species
                        double M = 0; for (int k = 0; k < K; ++k) M += std::fabs(fnet::massOf(S[s].nodes[0].getContent(), k)) ; const double mt = 1e-9 * M + 1e-12; if (std::fabs(f) > 1e-11) { NEAR(now.mol, -o.mol, 1e-6, tm + 1e-11, "dif-mole-ledger", "moles lost by one side against those gained by the other"); for (int k = 0; k < K; ++k) NEAR(now.m[k], -o.m[k], 1e-6, mt + 1e-6 * std::fabs(f * dt) , "dif-species", fmt("species %d lost by one side against that gained by the other", k)); for (int k = 0; k < TC; ++k) { const double in = -S[s].x.getFlux(), tcIn = tc1[k] - S[s].nodes[1].getContent()->getTraceCompounds()->getMasses()[k]; if (in > 0 && f > 0 && (in - f) * (tcIn - o.tc[k]) < 0) { c.count("opposed_tc"); continue; }   // net inflow of opposite sign in moles and trace: clamped to zero by the library
                                NEAR(now.tc[k], -o.tc[k], 1e-6, 1e-13 * (1 + total(s).mol) + 1e-9 * total(s).tc[k], "dif-tc", fmt("trace compound %d lost by one side against that gained by the other", k)); }
                            NEAR(now.h, -o.h, 1e-5, 1e-5 * std::fabs(o.mol) * 1e6 * 0 + 1e-8 * std::fabs(total(s).h) + 1e-3 * std::fabs(f * dt), "dif-energy", "energy lost by one side against that gained by the other"); c.count(f > 0 ? "drawn_frames" : "returned_frames"); } } } }
            std::unique_ptr<Data> o(new Data); o->initialize(q.mOutData.getNumFluid(), q.mOutData.getNumTc()); *o = q.mOutData; chan[s].push_back(std::move(o)); c.count("exchanges"); c.hit(mon::mix(c.caseSeed, t * 2 + s)); if (c.failed()) return; }
        const bool ex = S[0].dif.demand() != S[1].dif.demand(); exclusive = ex ? exclusive + 1 : 0; ++settled; }
    if (!forced && N > 6 * (lag[0] + lag[1]) + 30) CHK(exclusive > 0, "dif-exclusive", "both interfaces end in the same role");
}

// Two real electrical networks joined by distributed interface links: power taken from one bus arrives at the other.
#include "aspects/electrical/PowerBus/GunnsElectDistributedIf.hh"
#include "core/GunnsBasicConductor.hh"
namespace {
struct EOut : GunnsElectConverterOutput { double src() const { return mSourceVoltage; } };
struct ESide { GunnsBasicNode nodes[3]; GunnsNodeList list; std::vector<GunnsBasicLink*> links; Gunns net; GunnsBasicConductor load, feed; EOut supply; GunnsElectDistributedIf dif; bool has, open; double G, v; };
}
MON_PROP2(N04, electlinks, "one frame of a pair of distributed electrical interface links") {
    mon::Rng& r = c.r; ESide S[2]; const int primary = r.i(0, 1); const int lag[2] = {r.i(1, 4), r.i(1, 4)}; const double dt = 0.1, Gi = r.logu(50, 5000); int forced[2] = {0, 0}; if (r.p(0.25)) { forced[0] = r.i(1, 2); forced[1] = 3 - forced[0]; }
    for (int s = 0; s < 2; ++s) { ESide& q = S[s]; q.list.mNumNodes = 3; q.list.mNodes = q.nodes; for (int i = 0; i < 3; ++i) q.nodes[i].initialize("n", 0.0); q.net.initializeNodes(q.list); q.G = r.logu(1e-3, 0.2); q.has = r.p(0.8); q.open = r.p(0.2); q.v = r.uni(100, 130);
        q.load.initialize(GunnsBasicConductorConfigData("load", &q.list, q.G), GunnsBasicConductorInputData(false, 0), q.links, 0, 2); q.feed.initialize(GunnsBasicConductorConfigData("feed", &q.list, 100.0), GunnsBasicConductorInputData(q.open, 1.0), q.links, 0, 1);
        GunnsElectConverterOutputConfigData sc("supply", &q.list, GunnsElectConverterOutput::VOLTAGE, r.logu(100, 1e4), 1.0); q.supply.initialize(sc, GunnsElectConverterOutputInputData(false, 0, q.has, 200.0, 0.0, q.v), q.links, 1);
        GunnsElectDistributedIfConfigData cd("if", &q.list, s == primary, Gi, 1e-7); cd.mSupplies.push_back(&q.supply); GunnsElectDistributedIfInputData id(forced[s] == 1, forced[s] == 2); q.dif.initialize(cd, id, q.links, 0);
        CHK(!q.dif.setPort(0, 2, "t", true), "eif-port", "the interface accepted the ground node"); q.net.initialize(GunnsConfigData("N", 1e-7, 1e-10, 30, 30), q.links); }
    { bool t = false; GunnsElectDistributedIf l; std::vector<GunnsBasicLink*> tmp; GunnsElectDistributedIfConfigData cd("b", &S[0].list, true, Gi, 0.0); GunnsElectDistributedIfInputData id; try { l.initialize(cd, id, tmp, 0); } catch (TsInitializationException&) { t = true; } CHK(t, "eif-refuse", "a zero threshold is accepted"); }
    c.note = fmt("electrical interfaces lag %d/%d primary %d forced %d/%d supplies %d %g V open %d, %d %g V open %d loads %g %g S", lag[0], lag[1], primary, forced[0], forced[1], S[0].has, S[0].v, S[0].open, S[1].has, S[1].v, S[1].open, S[0].G, S[1].G);
    typedef Distributed2WayBusElectInterfaceData D; std::deque<std::unique_ptr<D> > chan[2]; const int settle = 8 * (lag[0] + lag[1]) + 30, N = r.i(100, 300); int quiet = 0, streak[2] = {0, 0}; bool malf = false;
    for (int t = 0; t < N; ++t) {
        if (r.p(0.02) && quiet > settle) { ESide& q = S[r.i(0, 1)]; switch (r.i(0, 3)) { case 0: q.has = !q.has; q.supply.setEnabled(q.has); break; case 1: q.open = !q.open; q.feed.setMalfBlockage(q.open, 1.0); break; case 2: q.v = r.uni(100, 130); q.supply.setSetpoint(q.v); break; case 3: q.G = r.logu(1e-3, 0.2); q.load.setDefaultConductivity(q.G); break; } quiet = 0; c.count("changes"); }
        if (r.p(0.005)) { ESide& q = S[r.i(0, 1)]; (r.p(0.5) ? q.dif.mMalfPowerLoad : q.dif.mMalfVoltageSource) ^= true; malf = true; quiet = 0; }
        double pw[2] = {0, 0}; bool dem[2] = {false, false};
        for (int s = 0; s < 2; ++s) { ESide& q = S[s]; auto& in = chan[1 - s]; if (int(in.size()) >= lag[1 - s]) { q.dif.mInterface.mInData = *in.front(); in.pop_front(); } q.net.step(dt);
            const D& od = q.dif.mInterface.mOutData; const D& id = q.dif.mInterface.mInData; dem[s] = q.dif.mInterface.isInDemandRole(); const double V = q.nodes[0].getPotential(), iv = q.dif.mVoltageSource.getFlux(), ip = q.dif.mPowerLoad.getFlux(); if (!std::isfinite(V) || !CHK(std::isfinite(iv) && std::isfinite(ip), "eif-finite", "currents are not finite")) return;
            NEAR(iv - ip - q.load.getFlux() - q.feed.getFlux(), 0.0, 0, 1e-6 * (1 + fabs(V) * q.G + fabs(iv) + fabs(ip) + fabs(q.feed.getFlux())), "eif-balance", fmt("side %d: current left over at the bus at %g V", s, V)); CHK(V >= -1e-6, "eif-negative", fmt("side %d bus at %g V", s, V));
            CHK(ip >= 0 && iv >= -1e-6, "eif-direction", fmt("side %d: source current %g A, load current %g A", s, iv, ip)); if (dem[s]) CHK(ip == 0.0 || q.dif.mMalfPowerLoad, "eif-role", fmt("demand side %d draws %g A as a supply", s, ip)); else CHK(fabs(iv) < 1e-9, "eif-role", fmt("supply side %d is fed %g A by the other side", s, iv));
            if (forced[s]) CHK(dem[s] == (forced[s] == 1), "eif-forced", "a forced interface is in the other role");
            if (dem[s]) { pw[s] = iv * V + iv * iv / Gi; streak[s] = iv > 1e-6 ? streak[s] + 1 : 0; NEAR(od.mDemandPower, pw[s], 1e-5, 1e-5, "eif-demand", "demanded power against the power the bus takes"); if (q.dif.mMalfVoltageSource) CHK(iv == 0, "eif-malf", "a failed voltage source feeds the bus"); else if (iv > 1e-6) NEAR(iv, (id.mSupplyVoltage - V) * Gi, 1e-6, 1e-5 * Gi, "eif-source", "current against the remote voltage"); else if (quiet > 3) CHK(V >= id.mSupplyVoltage - 1e-4 || id.mSupplyVoltage < 1e-3, "eif-source", fmt("demand bus at %g V takes nothing from %g V", V, id.mSupplyVoltage)); }
            else { streak[s] = 0; pw[s] = ip * V; NEAR(od.mSupplyVoltage, V, 1e-6, 1e-6, "eif-voltage", "reported supply voltage"); CHK(od.mDemandPower == 0, "eif-demand", "a supply side demands power"); if (q.dif.mMalfPowerLoad) CHK(ip == 0, "eif-malf", "a failed power load draws from the bus"); else if (quiet > settle && V > 50) NEAR(pw[s], double(id.mDemandPower), 1e-4, 1e-4, "eif-load", "power drawn for the remote side"); }
            std::unique_ptr<D> o(new D); *o = od; chan[s].push_back(std::move(o)); c.hit(mon::mix(c.caseSeed, t * 2 + s)); }
        ++quiet; if (quiet > settle && !malf) { CHK(dem[0] != dem[1], "eif-exclusive", fmt("both sides are in the %s role %d frames after the last change", dem[0] ? "demand" : "supply", quiet)); const int d = dem[0] ? 0 : 1; if (fabs(S[0].v - S[1].v) > 5) NEAR(pw[d], pw[1 - d], 1e-3, 1e-3, "eif-power", "power taken at the demand bus against power drawn from the supply bus"); if (!forced[0]) { double av[2]; for (int s = 0; s < 2; ++s) av[s] = S[s].has && !S[s].open ? S[s].v : 0; CHK(av[1 - d] >= av[d], "eif-side", fmt("the supply side has %g V available, the demand side %g V", av[1 - d], av[d])); if (av[1 - d] > 0) { CHK(S[d].nodes[0].getPotential() > 0.5 * av[1 - d], "eif-powered", fmt("the demand bus has %g V of %g V", S[d].nodes[0].getPotential(), av[1 - d])); c.count("powered_frames"); } } c.count("settled_frames"); }
        if (c.failed()) return; } }

// A shadow link holds its node at a state given from outside, in another network's mixture and units.
#include "core/GunnsFluidShadow.hh"
#include "core/GunnsFluidConductor.hh"
namespace {
struct XShadow : GunnsFluidShadow { void control(int v) { mShadowActiveControl = v; } bool active() const { return mShadowIsActive; } };
}
MON_PROP2(N04, shadow, "one network step of a fluid shadow link fed from another network") {
    mon::Rng& r = c.r; typedef GunnsFluidUtils U; fnet::Mix mix(r, r.i(1, 4), 0, false); const int K = mix.n(); fnet::State st = fnet::randomState(r, mix); st.P = r.uni(50, 300); st.T = r.uni(270, 330); fnet::Input in(st);
    // the outside network: some of our types, some others
    std::vector<FluidProperties::FluidType> ext; for (int k = 0; k < K; ++k) if (k == 0 || r.p(0.6)) ext.push_back(mix.cfg->mTypes[k]); const FluidProperties::FluidType extra[] = {FluidProperties::GUNNS_HE, FluidProperties::GUNNS_CH4}; for (FluidProperties::FluidType t : extra) { bool have = false; for (int k = 0; k < K; ++k) have = have || mix.cfg->mTypes[k] == t; if (!have && r.p(0.4)) ext.push_back(t); } r.shuffle(ext);
    const int E = int(ext.size()); DefinedFluidProperties props; PolyFluidConfigData xc(&props, &ext[0], E); const bool conv = r.p(0.4); const int convTo = r.i(0, K - 1);
    const U::MixtureTypes inType = U::MixtureTypes(r.i(0, 2)), outType = U::MixtureTypes(r.i(0, 2)); const int target = r.i(-1, 3);
    GunnsFluidNode nodes[3]; GunnsNodeList list; list.mNumNodes = 3; list.mNodes = nodes; for (int i = 0; i < 3; ++i) nodes[i].initialize("n", mix.cfg.get(), i < 2 ? &in.in : 0); Gunns net; net.initializeFluidNodes(list); std::vector<GunnsBasicLink*> links;
    XShadow sh; sh.initialize(GunnsFluidShadowConfigData("sh", &list, 1e3, 0.0, target, inType, outType, &xc, conv ? mix.cfg->mTypes[convTo] : FluidProperties::NO_FLUID), GunnsFluidShadowInputData(), links, 2, 1);
    GunnsFluidCapacitor tank; tank.initialize(GunnsFluidCapacitorConfigData("t", &list, 0.0), GunnsFluidCapacitorInputData(false, 0, r.uni(1, 10), &in.in), links, 0, 2); GunnsFluidCapacitor own; const bool vol = r.p(0.5); if (vol) own.initialize(GunnsFluidCapacitorConfigData("o", &list, 0.0), GunnsFluidCapacitorInputData(false, 0, r.uni(0.5, 2), &in.in), links, 1, 2);
    GunnsFluidConductor pipe; pipe.initialize(GunnsFluidConductorConfigData("p", &list, r.logu(1e-6, 1e-3), 0.0), GunnsFluidConductorInputData(), links, 0, 1);
    CHK(!sh.setPort(1, 2, "t", true) && !sh.setPort(0, 0, "t", true), "shadow-port", "the shadow accepted a port that breaks its ground rule"); net.initialize(GunnsConfigData("N", 1e-8, 1e-12, 20, 100), links);
    { bool threw = false; try { sh.setInputs(100, 290, 0); } catch (TsOutOfBoundsException&) { threw = true; } CHK(threw, "shadow-null", "a missing mixture was accepted"); }
    double P = 0, T = 0; std::vector<double> x(E, 0.0); bool given = false; int ctl = target + 1, held = 0, fed = 0; sh.control(ctl);
    c.note = fmt("shadow K %d ext %d conv %d in %d out %d vol %d", K, E, int(conv), int(inType), int(outType), int(vol));
    for (int t = 0, N = r.i(4, 20); t < N; ++t) {
        if (!given || r.p(0.5)) { P = r.uni(50, 300); T = r.uni(270, 330); double s = 0; for (double& v : x) s += v = r.p(0.2) ? 0.0 : r.u(); x[0] += 0.01; s += 0.01; const double tot = inType == U::PARTIAL_PRESSURE ? P : 1.0; for (double& v : x) v *= tot / s; std::vector<double> y(x); if (!r.p(0.02) || !given) sh.setInputs(P, T, &y[0]); else sh.setInputs(P, T, &x[0]); given = true; held = 0; } else ++held;
        if (r.p(0.25) || t == 0) { ctl = r.p(0.7) ? target : target + r.i(1, 3); sh.control(ctl); held = 0; }
        net.step(0.1); const bool on = ctl == target && t > 0; CHK(sh.active() == on, "shadow-active", fmt("the shadow is %s with control %d, target %d, step %d", sh.active() ? "active" : "inactive", ctl, target, t));
        if (on) {
            // mass fractions in our types
            std::vector<double> w(E), want(K, 0.0); double s = 0; for (int e = 0; e < E; ++e) { w[e] = x[e] * (inType == U::MASS_FRACTION ? 1.0 : props.getProperties(ext[e])->getMWeight()); s += w[e]; } double kept = 0; for (int e = 0; e < E; ++e) { int to = conv ? convTo : -1; for (int k = 0; k < K; ++k) if (mix.cfg->mTypes[k] == ext[e]) to = k; if (to >= 0) { want[to] += w[e] / s; kept += w[e] / s; } } for (double& v : want) v /= kept;
            NEAR(nodes[1].getPotential(), P, 1e-3, 1e-3, "shadow-pressure", "node pressure of an active shadow against the one given");
            const bool out = kept > 0 && sh.getFlux() >= 0 && pipe.getFlux() <= 0; if (out) { PolyFluid* f = nodes[1].getContent(); for (int k = 0; k < K; ++k) NEAR(f->getMassFraction(k), want[k], 1e-7, 1e-8, "shadow-mixture", fmt("mass fraction %d of an active shadow's node against the one given", k)); NEAR(f->getTemperature(), T, 0, 1e-3, "shadow-temperature", "temperature of an active shadow's node against the one given"); c.count("feeding_steps"); }
            fed = out ? fed + 1 : 0; if (vol && held > 1) { /* flow coming in from the tank changes the content while it is followed */ NEAR(nodes[1].getMass(), nodes[1].getContent()->getDensity() * nodes[1].getVolume(), fed > 2 ? 1e-2 : 5e-2, 0, "shadow-mass", "mass held by an active shadow's node against its density and volume"); c.count("volume_steps"); }
            c.hit(fmt("%d%d%d%d%d%d", int(inType), int(outType), int(vol), int(conv), K, E));
        } else CHK(sh.getFlux() == 0.0, "shadow-inactive", fmt("an inactive shadow flows %g", sh.getFlux()));
        double oP, oT; std::vector<double> o(K); sh.getOutputs(oP, oT, &o[0]); PolyFluid* f = nodes[1].getContent(); NEAR(oP, nodes[1].getPotential(), 1e-9, 0, "shadow-out", "pressure output"); NEAR(oT, f->getTemperature(), 1e-9, 0, "shadow-out", "temperature output"); double n = 0; std::vector<double> m(K); for (int k = 0; k < K; ++k) n += m[k] = f->getMassFraction(k) / mix.cfg->mProperties->getProperties(mix.cfg->mTypes[k])->getMWeight();
        for (int k = 0; k < K; ++k) NEAR(o[k], outType == U::MASS_FRACTION ? f->getMassFraction(k) : m[k] / n * (outType == U::PARTIAL_PRESSURE ? oP : 1.0), 1e-7, 1e-9, "shadow-out", fmt("mixture output %d", k)); if (c.failed()) return;
    }
}
