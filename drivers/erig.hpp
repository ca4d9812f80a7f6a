// Rig for electrical networks: basic nodes, stiff or soft feeds, leaks, the element under test, a
// spy link that records the potentials at each confirmation round, and Kirchhoff's current law.
#ifndef VERIF_ERIG_HPP
#define VERIF_ERIG_HPP
#include "mon.hpp"
#include "restart.hpp"
#include <memory>
#include <functional>
#include "core/Gunns.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicPotential.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsNumericalException.hh"

namespace erig {
struct Round { int conv, abs; std::vector<double> v, q; };   // node potentials and probed quantities
struct Spy : GunnsBasicConductor {            // carries no current; watches the confirmation rounds
    GunnsNodeList* list_ = 0; std::vector<Round> rounds; std::vector<std::function<double()> > probes; int minors = 0;
    bool isNonLinear() override { return true; }
    void minorStep(const double, const int) override { ++minors; }
    void step(const double dt) override { rounds.clear(); minors = 0; GunnsBasicConductor::step(dt); }
    SolutionResult confirmSolutionAcceptable(const int conv, const int abs) override {
        Round q; q.conv = conv; q.abs = abs; for (int i = 0; i < list_->mNumNodes; ++i) q.v.push_back(list_->mNodes[i].getPotential());
        for (size_t i = 0; i < probes.size(); ++i) q.q.push_back(probes[i]()); rounds.push_back(q); return CONFIRM; }
};
struct Solver : rst::Net { int lastMinor() const { return mLastMinorStep; } };
struct Rig {
    int n; std::unique_ptr<GunnsBasicNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links;
    std::vector<std::shared_ptr<GunnsBasicLink> > own; Solver net; Spy* spy = 0; double tol; int fails0 = 0; bool up = false;
    explicit Rig(int nn, double tol_ = 1e-10) : n(nn), nodes(new GunnsBasicNode[nn + 1]), tol(tol_) {
        list.mNumNodes = nn + 1; list.mNodes = nodes.get();
        for (int i = 0; i <= nn; ++i) nodes[i].initialize(mon::fmt("n%d", i), 0.0);
        net.initializeNodes(list);
    }
    template <class T> T* mk() { std::shared_ptr<T> p(new T); own.push_back(p); return p.get(); }
    GunnsBasicPotential* feed(int node, double volts, double g, const char* nm = "feed") {
        GunnsBasicPotential* l = mk<GunnsBasicPotential>();
        l->initialize(GunnsBasicPotentialConfigData(mon::fmt("%s%zu", nm, own.size()), &list, g), GunnsBasicPotentialInputData(false, 0.0, volts), links, n, node); return l; }
    GunnsBasicConductor* cond(int a, int b, double g) {
        GunnsBasicConductor* l = mk<GunnsBasicConductor>();
        l->initialize(GunnsBasicConductorConfigData(mon::fmt("cond%zu", own.size()), &list, g), GunnsBasicConductorInputData(), links, a, b); return l; }
    GunnsBasicSource* src(int a, int b, double f) {
        GunnsBasicSource* l = mk<GunnsBasicSource>();
        l->initialize(GunnsBasicSourceConfigData(mon::fmt("src%zu", own.size()), &list), GunnsBasicSourceInputData(false, 0.0, f), links, a, b); return l; }
    GunnsBasicCapacitor* cap(int a, int b, double cc, double v0) {
        GunnsBasicCapacitor* l = mk<GunnsBasicCapacitor>();
        l->initialize(GunnsBasicCapacitorConfigData(mon::fmt("cap%zu", own.size()), &list), GunnsBasicCapacitorInputData(false, 0.0, cc, v0), links, a, b); return l; }
    void start(int minor = 200, int decomp = 100) {
        spy = mk<Spy>(); spy->list_ = &list; spy->initialize(GunnsBasicConductorConfigData("spy", &list, 0.0), GunnsBasicConductorInputData(), links, 0, n);
        GunnsConfigData cfg("net", tol, 1e-9, minor, decomp); net.initialize(cfg, links); up = true; fails0 = net.getConvergenceFailCount(); }
    // true when the step converged
    bool step(double dt) { const int f = net.getConvergenceFailCount(); net.step(dt); return net.getConvergenceFailCount() == f; }
    double V(int i) const { return i == n ? 0.0 : const_cast<GunnsBasicNode&>(nodes[i]).getPotential(); }
    double dV(GunnsBasicLink* l, int a = 0, int b = 1) const { return V(l->getNodeMap()[a]) - V(l->getNodeMap()[b]); }
    // current leaving the network into the link at port p, from the link's contribution to the system of equations
    double into(GunnsBasicLink* l, int p) const { const int m = l->getNumberPorts(); double s = -l->getSourceVector()[p];
        for (int j = 0; j < m; ++j) s += l->getAdmittanceMatrix()[p * m + j] * V(l->getNodeMap()[j]); return s; }
    // Kirchhoff's current law at each node over the contributions of all links
    bool kcl(mon::Ctx& c, const char* what, double rel = 1e-7, double abs_ = 1e-9, const char* key = "kcl") {
        for (int k = 0; k < n; ++k) { double sum = 0, mag = 0, gmax = 0;
            for (size_t i = 0; i < links.size(); ++i) { GunnsBasicLink* l = links[i]; const int m = l->getNumberPorts();
                for (int p = 0; p < m; ++p) if (l->getNodeMap()[p] == k) { const double f = into(l, p); sum += f; mag = std::max(mag, std::fabs(f)); gmax = std::max(gmax, std::fabs(l->getAdmittanceMatrix()[p * m + p]) * std::max(1.0, std::fabs(V(k)))); } }
            c.count("kcl_checks");
            if (!(std::fabs(sum) <= rel * mag + abs_ + 1e-11 * gmax)) { c.fail(key, mon::fmt("%s: currents into node %d sum to %.6g A (largest %.6g A)", what, k, sum, mag)); return false; } }
        return true; }
};
}
#endif
