// N06: the solver's minor step log and debug arrays. A probe link inside the network records what the
// solver really did in every minor step; the log files it writes and its debug arrays must say the same.
#include "bnet.hpp"
#include "core/GunnsInfraFunctions.hh"
#include <deque>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <dirent.h>
using namespace bnet; using mon::fmt; typedef std::vector<double> V;

namespace {
struct Frame { int major = 0, minor = 0, dec = 0; std::string res; V pot, conv; bool convOk = false, linksOk = true; struct L { std::string res; V A, w; }; std::vector<L> links; };
const char* RES[] = {"REJECT", "CONFIRM", "DELAY"};   // by GunnsBasicLink::SolutionResult value, fixed below
std::string resName(int r) { return r == GunnsBasicLink::REJECT ? "REJECT" : r == GunnsBasicLink::DELAY ? "DELAY" : "CONFIRM"; }

struct DSolver : Gunns {
    V slice() const { return V(mDebugSavedSlice, mDebugSavedSlice + mNetworkSize); } V dnode() const { return V(mDebugSavedNode, mDebugSavedNode + mMinorStepLimit + 1); }
    void debug(int slice, int step, int node) { mDebugDesiredSlice = slice; mDebugDesiredStep = step; mDebugDesiredNode = node; } int wantNode() const { return mDebugDesiredNode; }
    void run(bool on) { mRunMode = on ? RUN : PAUSE; }
};
struct World {
    mon::Rng rng; GunnsBasicNode* nodes = 0; int n = 0; std::vector<GunnsBasicLink*>* links = 0; DSolver* net = 0; double pRej = 0, pDel = 0, pChange = 0; bool settle = true; int bad = -1; int major = 0, dec0 = 0;
    std::vector<Frame> frames; int cur = 0;   // frames of the major step in progress
    explicit World(uint64_t s) : rng(s) {}
    void begin(int maj) { major = maj; frames.clear(); cur = 0; dec0 = net->getDecompositionCount(); }
    Frame& at(int k) { while (int(frames.size()) < k) { Frame f; f.major = major; f.minor = int(frames.size()) + 1; f.links.resize(links->size()); for (auto& l : f.links) l.res = "CONFIRM"; frames.push_back(f); } return frames[k - 1]; }
    void seen(int k) { Frame& f = at(k); if (!f.pot.empty()) return; f.dec = net->getDecompositionCount() - dec0; for (int i = 0; i < n; ++i) f.pot.push_back(nodes[i].getPotential()); contrib(f); }
    void contrib(Frame& f) { for (size_t l = 0; l < links->size(); ++l) { GunnsBasicLink* q = (*links)[l]; const int np = q->getNumberPorts(); f.links[l].A.assign(q->getAdmittanceMatrix(), q->getAdmittanceMatrix() + np * np); f.links[l].w.assign(q->getSourceVector(), q->getSourceVector() + np); } }
};
struct Star : GunnsBasicLink {     // an n-port star of conductances whose links may be non-linear, reject or delay
    World* w; int id; bool nl; double g; int np;
    Star(World* ww, int i, bool nonlin, double gg, int ports) : GunnsBasicLink(ports), w(ww), id(i), nl(nonlin), g(gg), np(ports) {}
    void init(const std::string& nm, GunnsNodeList* list, std::vector<GunnsBasicLink*>& links, const std::vector<int>& ports) { GunnsBasicLinkConfigData c(nm, list); std::vector<int> p(ports); GunnsBasicLink::initialize(c, GunnsBasicLinkInputData(), links, &p[0]); build(); mInitFlag = true; }
    void build() { for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) mAdmittanceMatrix[i * np + j] = g * ((i == j) - 1.0 / np); if (w->bad == id) for (int i = 0; i < np; ++i) mAdmittanceMatrix[i * np + i] = -1e7; mAdmittanceUpdate = true; }
    bool isNonLinear() override { return nl; }
    void vary() { if (nl && w->rng.p(w->pChange)) { if (w->settle) g = 1.0 + 0.5 * std::tanh(0.05 * (mPotentialVector[0] - mPotentialVector[np - 1])); else g = w->rng.logu(0.1, 10); } build(); }
    void step(const double) override { vary(); }
    void minorStep(const double, const int) override { vary(); }
    SolutionResult confirmSolutionAcceptable(const int, const int k) override { w->seen(k); SolutionResult r = CONFIRM; const double u = w->rng.u(); if (u < w->pRej) r = REJECT; else if (u < w->pRej + w->pDel) r = DELAY; if (w->settle && k > 20) r = CONFIRM; w->at(k).links[id].res = resName(r); return r; }
    bool resetLastMinorStep(const int, const int) override { if (!w->settle) g = w->rng.logu(0.1, 10); return true; }
    void computeFlows(const double) override {}
    void restartModel() override { GunnsBasicLink::restartModel(); }
};
struct Src : GunnsBasicSource { };
struct LNet {
    World w; int n; std::unique_ptr<GunnsBasicNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink> > own; std::vector<Src*> srcs; DSolver net; int limit, dlimit; bool anyNl = false; double tol;
    // shape: ports of every star, so a twin is built alike
    LNet(uint64_t seed, uint64_t build, int logSteps, GunnsMinorStepLogInputData::LogCommands cmd, const std::string& path) : w(seed) {
        mon::Rng r(build); n = r.i(1, 6); const bool lin = r.p(0.2); limit = r.i(1, 30); dlimit = r.p(0.3) ? r.i(1, 4) : 1000; tol = r.logu(1e-8, 1e-2); nodes.reset(new GunnsBasicNode[n + 1]); list.mNumNodes = n + 1; list.mNodes = nodes.get(); for (int i = 0; i <= n; ++i) nodes[i].initialize(fmt("n%d", i), 0.0);
        w.nodes = nodes.get(); w.n = n; w.links = &links; w.net = &net; net.initializeNodes(list);
        auto star = [&](std::vector<int> p) { const bool nl = !lin && r.p(0.5); Star* s = new Star(&w, int(links.size()), nl, r.logu(0.3, 3), int(p.size())); own.emplace_back(s); s->init(fmt("star%d", int(links.size())), &list, links, p); anyNl = anyNl || nl; };
        for (int i = 0; i < n; ++i) { star({i, i == 0 ? n : r.i(0, i - 1)}); if (n > 2 && r.p(0.4)) { std::vector<int> p; for (int q = 0; q <= n; ++q) p.push_back(q); r.shuffle(p); p.resize(r.i(3, std::min(n + 1, 4))); star(p); } }
        star({0, n});
        for (int i = r.i(1, 2); i > 0; --i) { Src* s = new Src; own.emplace_back(s); srcs.push_back(s); s->initialize(GunnsBasicSourceConfigData(fmt("src%d", int(links.size())), &list), GunnsBasicSourceInputData(false, 0, r.uni(-20, 20)), links, n, r.i(0, n - 1)); }
        net.setIslandMode(Gunns::IslandMode(r.i(0, 2))); net.mStepLog.mInputData.mModeCommand = cmd; net.mStepLog.mInputData.mLogSteps = logSteps; net.mStepLog.mInputData.mPath = path;
        net.initialize(GunnsConfigData("lognet", tol, 1e-8, limit, dlimit), links);
    }
    // one major step, returning the frames it must have logged and whether it succeeded; -1 threw
    int step(V& acc) {
        const int cf = net.getConvergenceFailCount(), ms = net.getMinorStepCount(), df = net.getDecompositionCount(); w.begin(net.getMajorStepCount() + 1); bool threw = false; try { net.step(0.1); } catch (TsNumericalException&) { threw = true; }
        const bool ok = !threw && net.getConvergenceFailCount() == cf; const int made = net.getMinorStepCount() - ms; (void)df; std::vector<Frame>& F = w.frames;
        if (!anyNl) { Frame& f = w.at(1); if (!threw) { w.seen(1); f.conv.assign(n, 0); } f.res = threw ? "MATH_FAIL" : "CONFIRM"; f.linksOk = !threw; return threw ? -1 : 1; }
        const int confirmed = int(F.size()); V last = acc; bool delayed = false; int conv = 0;
        for (int k = 0; k < confirmed; ++k) { Frame& f = F[k]; bool rej = false, del = false; bool good = true; f.conv.resize(n); for (int i = 0; i < n; ++i) { f.conv[i] = std::fabs(f.pot[i] - acc[i]); if (!(f.conv[i] <= tol)) good = false; } f.convOk = !delayed; if (delayed) good = true; if (good) ++conv;
            for (size_t l = 0; l < f.links.size(); ++l) { rej = rej || f.links[l].res == "REJECT"; del = del || (f.links[l].res == "DELAY" && conv > 0); }
            f.res = rej ? "REJECT" : del ? "DELAY" : "CONFIRM"; if (rej) conv = 0; else acc = f.pot; delayed = !rej && del; }
        if (made > confirmed) { Frame& f = w.at(made); f.res = threw ? "MATH_FAIL" : "DECOMP_LIMIT"; f.linksOk = false; f.dec = -1; if (!threw) { f.pot.assign(n, 0); } }
        if (ok) F.back().res = "SUCCESS";
        else if (!threw) { F.back().pot.clear(); for (int i = 0; i < n; ++i) F.back().pot.push_back(nodes[i].getPotential()); }
        return threw ? -1 : ok;
    }
};
struct Dir { char d[64]; Dir() { snprintf(d, sizeof d, "/tmp/gunns_log_XXXXXX"); if (!mkdtemp(d)) abort(); } std::string path() const { return std::string(d) + "/"; }
    std::vector<std::string> files() const { std::vector<std::string> v; if (DIR* q = opendir(d)) { while (dirent* e = readdir(q)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(q); } std::sort(v.begin(), v.end()); return v; }
    void wipe() const { for (auto& f : files()) unlink((path() + f).c_str()); } ~Dir() { wipe(); rmdir(d); } };
std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; size_t b = 0; for (;;) { size_t e = s.find(", ", b); v.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) return v; b = e + 2; } }
bool sameNum(const std::string& t, double x) { char* e; const double v = std::strtod(t.c_str(), &e); return *e == 0 && !t.empty() && std::fabs(v - x) <= 6e-6 * std::fabs(x) + 1e-300; }
}

MON_PROP(N06, "random networks (conductance stars of 2 to 4 ports, sources; linear or with scripted rejections, delays, changing conductances, minor step and decomposition limits, indefinite matrices) stepped with the log commanded to pause, record and snap at random, resized, and written late; every file is compared line by line with what a probe inside the network saw, debug arrays likewise, and a twin without logging must move identically; distinct = (command, log state, step result, wrapped) combinations") {
    mon::Rng& r = c.r; (void)RES; typedef GunnsMinorStepLogInputData LD; Dir dir; const uint64_t seed = r.next(), build = r.next(); int size = r.p(0.1) ? 0 : r.p(0.5) ? r.i(1, 6) : r.i(5, 60); LD::LogCommands cmd = size ? LD::LogCommands(r.i(0, 2)) : LD::PAUSE;
    LNet A(seed, build, size, cmd, dir.path()), B(seed, build, 0, LD::PAUSE, ""); GunnsMinorStepLog& log = A.net.mStepLog;
    enum St { PAUSED, AUTO, SNAPR, WRITING } st = PAUSED; bool rec = size > 0; std::deque<Frame> ring; bool pending = false; V acc(A.n, 0.0), accB(A.n, 0.0); std::string hist; int lastMajor = 0;
    // the header the file must carry
    std::string head = "Major Step, Minor Step, Decomposition, Solution Result"; for (int i = 0; i < A.n; ++i) head += fmt(", Potential Vector [%d]", i); for (int i = 0; i < A.n; ++i) head += fmt(", Node Convergence [%d]", i);
    for (GunnsBasicLink* l : A.links) { head += std::string(", Link ") + l->getName() + ": Solution Result"; const int np = l->getNumberPorts(); for (int i = 0; i < np * np; ++i) head += fmt(", Admittance Matrix [%d]", i); for (int i = 0; i < np; ++i) head += fmt(", Source Vector [%d]", i); }
    const int K = r.i(4, 25); const bool noAuto = !A.anyNl && r.p(0.9); if (noAuto && cmd == LD::RECORD_AUTO) { cmd = LD::RECORD_SNAP; log.mInputData.mModeCommand = cmd; } bool dbg = false; int dslice = 0, dstep = 0, dnode = -1;
    for (int k = 0; k < K; ++k) {
        if (r.p(0.35)) { cmd = LD::LogCommands(r.i(0, 3)); if (noAuto && cmd == LD::RECORD_AUTO) cmd = LD::RECORD_SNAP; log.mInputData.mModeCommand = cmd; }
        if (r.p(0.06) && !pending) { const int ns = r.i(1, 30); log.mInputData.mLogSteps = ns; log.updateFreeze(); if (ns != size) { size = ns; ring.clear(); rec = true; } else CHK(true, "", ""); }
        const bool settle = r.p(0.75); for (LNet* q : {&A, &B}) { q->w.settle = settle; } const double pr = r.p(0.4) ? r.uni(0, 0.3) : 0, pd = r.p(0.4) ? r.uni(0, 0.4) : 0, pc = r.p(0.8) ? 1.0 : r.u(); int bad = r.p(0.05) ? r.i(0, A.n - 1) : -1; for (LNet* q : {&A, &B}) { q->w.pRej = pr; q->w.pDel = pd; q->w.pChange = pc; q->w.bad = bad; }
        if (r.p(0.3)) { const size_t s = r.i(0, int(A.srcs.size()) - 1); const double f = r.uni(-20, 20); A.srcs[s]->setFluxDemand(f); B.srcs[s]->setFluxDemand(f); }
        if (A.dlimit >= 1000 && r.p(0.15)) { dbg = r.p(0.7); dslice = dbg ? r.i(-1, A.n) : 0; dstep = dbg ? r.i(-1, 4) : 0; dnode = dbg ? r.i(-1, A.n) : -1; A.net.debug(dslice, dstep, dnode); } else if (dbg && A.net.wantNode() != dnode) { dnode = A.net.wantNode(); }
        const bool paused = r.p(0.06); A.net.run(!paused); B.net.run(!paused); hist += fmt("%d", int(log.mInputData.mModeCommand)); c.note = hist;
        // expected log state
        bool dumped = false; const St was = st; const int cmdNow = log.mInputData.mModeCommand;
        if (!paused) {
            if (size == 0) { st = PAUSED; }
            if (size != 0 && st != WRITING) switch (cmdNow) { case LD::PAUSE: rec = false; st = PAUSED; break; case LD::RECORD_AUTO: case LD::RECORD_SNAP: if (st == PAUSED) { ring.clear(); rec = true; } st = cmdNow == LD::RECORD_AUTO ? AUTO : SNAPR; break; default: cmd = st == PAUSED ? LD::PAUSE : st == AUTO ? LD::RECORD_AUTO : LD::RECORD_SNAP; rec = false; st = WRITING; dumped = true; }
        }
        const int res = paused ? 2 : A.step(acc), resB = paused ? 2 : B.step(accB);
        if (paused) { A.net.step(0.1); B.net.step(0.1); }
        CHK(res == resB, "log:twinResult", fmt("the step result is %d with the log and debug arrays in use, %d without", res, resB)); for (int i = 0; i < A.n; ++i) { const double x = A.nodes[i].getPotential(), y = B.nodes[i].getPotential(); CHK(x == y, "log:twin", fmt("node %d is at %.17g with the log and debug arrays in use, at %.17g without", i, x, y)); }
        if (c.failed()) return;
        if (!paused) {
            if (rec) for (Frame& f : A.w.frames) { ring.push_back(f); if (int(ring.size()) > size) ring.pop_front(); }
            const std::string outcome = A.w.frames.empty() ? "" : A.w.frames.back().res; lastMajor = A.w.major;
            if (st == AUTO && !A.anyNl && res == 1) { log.updateAsync(); if (!dir.files().empty()) { c.fail("auto-dump-linear", "a linear network's automatic log wrote a file after a step that succeeded"); dir.wipe(); return; } }
            else if (st == AUTO && outcome != "SUCCESS") { rec = false; st = WRITING; dumped = true; }
            if (dumped) { pending = true; CHK(cmdNow != LD::SNAP || log.mInputData.mModeCommand == cmd, "log:command", fmt("the command is %d after a snap, expected %d", int(log.mInputData.mModeCommand), int(cmd))); c.count("dumps"); }
            if (size == 0) CHK(log.mInputData.mModeCommand == LD::PAUSE, "log:unsized", "a log of no size accepted a command");
            c.hit(fmt("%d/%d/%s/%d", cmdNow, int(was), outcome.c_str(), int(ring.size()) >= size)); c.count("minor_steps", long(A.w.frames.size()));
            // debug arrays
            if (dbg && A.anyNl && res >= 0 && dnode >= 0 && dnode < A.n) { V d = A.net.dnode(); const int lim = A.limit; bool still = A.net.wantNode() == dnode; const int m = int(A.w.frames.size()); CHK(d[0] == dnode, "log:debugNode", "the debug node array does not start with the node's number"); for (int q = 1; q <= m && q <= lim; ++q) { if (q == m && res == 0) continue; CHK(d[q] == A.w.frames[q - 1].pot[dnode], "log:debugNode", fmt("the debug node array holds %.12g for minor step %d, the node was at %.12g", d[q], q, A.w.frames[q - 1].pot[dnode])); } for (int q = m + 1; q <= lim; ++q) CHK(d[q] == 0, "log:debugNodeTail", "the debug node array holds old data past the last minor step");
                if (res == 1) CHK(still, "log:debugNodeOff", "the debug node was turned off by a step that converged"); }
            if (dbg && dstep != 0 && res > 0) { const int m = int(A.w.frames.size()); int q = dstep < 0 ? m : dstep; if (q > m) q = 0; bool solved = q > 0; if (solved && A.anyNl && dstep < 0) while (q > 1 && A.w.frames[q - 2].res == "DELAY") --q; else if (solved && A.anyNl && q > 1 && A.w.frames[q - 2].res == "DELAY") solved = false;
                if (solved) { V M(A.n * A.n, 0.0); const Frame& f = A.w.frames[q - 1]; for (size_t l = 0; l < A.links.size(); ++l) { const int np = A.links[l]->getNumberPorts(); const int* map = A.links[l]->getNodeMap(); for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) if (map[i] < A.n && map[j] < A.n) M[map[i] * A.n + map[j]] += f.links[l].A[i * np + j]; }
                    V s = A.net.slice(); for (int i = 0; i < A.n; ++i) { const double want = dslice < 0 || dslice >= A.n ? M[i * A.n + i] : M[dslice * A.n + i]; CHK(std::fabs(s[i] - want) <= 1e-9 * (1 + std::fabs(want)), "log:debugSlice", fmt("entry %d of the saved admittance slice %d of minor step %d is %.12g, the links contributed %.12g", i, dslice, q, s[i], want)); } c.count("slices"); } }
        }
        if (r.p(0.6)) {
            const bool had = pending; log.updateAsync(); std::vector<std::string> fs = dir.files();
            CHK(int(fs.size()) == (had ? 1 : 0), "log:files", fmt("%d log files appeared, %d expected", int(fs.size()), had ? 1 : 0)); if (c.failed()) return;
            if (had) {
                pending = false; st = PAUSED; c.count("files"); std::ifstream in(dir.path() + fs[0]); std::string line; std::getline(in, line); CHK(line == head, "log:header", "the file's header is not the network's: " + line.substr(0, 160)); size_t row = 0; int nm = -1;
                CHK(fs[0].find("lognet.mStepLog_") == 0 && fs[0].size() > 20 && fs[0].substr(fs[0].size() - 4) == ".csv", "log:filename", "unexpected log file name " + fs[0]); if (fs[0].size() > 20) nm = atoi(fs[0].c_str() + 16);
                if (!ring.empty()) CHK(nm == ring.back().major, "log:filename", fmt("the file is named for major step %d, its last step is %d", nm, ring.back().major));
                while (std::getline(in, line)) {
                    if (row >= ring.size()) { c.fail("log:rows", fmt("the file has more than the %d steps recorded", int(ring.size()))); return; }
                    const Frame& f = ring[row]; std::vector<std::string> t = split(line); size_t want = 4 + 2 * A.n; for (auto* l : A.links) { const size_t np = l->getNumberPorts(); want += 1 + np * np + np; }
                    const std::string where = fmt("row %d (major %d minor %d)", int(row), f.major, f.minor); if (!CHK(t.size() == want, "log:columns", where + fmt(" has %d columns, the header %d", int(t.size()), int(want)))) return;
                    CHK(t[0] == fmt("%d", f.major) && t[1] == fmt("%d", f.minor), "log:step", where + " is numbered " + t[0] + " " + t[1]); CHK(t[3] == f.res, "log:result", where + " says " + t[3] + ", it was " + f.res); c.eval(3);
                    if (f.dec >= 0 && f.res != "MATH_FAIL") CHK(t[2] == fmt("%d", f.dec), "log:decomp", where + fmt(" counts %s decompositions, %d were made", t[2].c_str(), f.dec));
                    if (f.res != "MATH_FAIL") for (int i = 0; i < A.n; ++i) CHK(sameNum(t[4 + i], f.pot[i]), "log:potential", where + fmt(" node %d potential %s, it was %.9g", i, t[4 + i].c_str(), f.pot[i]));
                    if (f.convOk) for (int i = 0; i < A.n; ++i) CHK(sameNum(t[4 + A.n + i], f.conv[i]), "log:convergence", where + fmt(" node %d convergence %s, it was %.9g", i, t[4 + A.n + i].c_str(), f.conv[i]));
                    if (f.linksOk) { size_t p = 4 + 2 * A.n; for (size_t l = 0; l < f.links.size(); ++l) { CHK(t[p] == f.links[l].res, "log:linkResult", where + fmt(" link %d says %s, it said %s", int(l), t[p].c_str(), f.links[l].res.c_str())); ++p; for (double x : f.links[l].A) { CHK(sameNum(t[p], x), "log:admittance", where + fmt(" link %d admittance %s, it was %.9g", int(l), t[p].c_str(), x)); ++p; } for (double x : f.links[l].w) { CHK(sameNum(t[p], x), "log:source", where + fmt(" link %d source %s, it was %.9g", int(l), t[p].c_str(), x)); ++p; } } }
                    ++row; if (c.failed()) return;
                }
                CHK(row == ring.size(), "log:rows", fmt("the file has %d steps, %d were recorded", int(row), int(ring.size()))); c.count("rows", long(row)); dir.wipe();
            }
        }
        if (c.failed()) return;
        if (bad >= 0) { // leave the failed matrix behind
            for (LNet* q : {&A, &B}) q->w.bad = -1; if (res < 0) { const double z = 0; (void)z; } }
    }
    c.sample(hist); (void)lastMajor;
}
