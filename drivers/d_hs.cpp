// EXTRA_FLAGS: -I{VERIF}/drivers/stubs
// EXTRA_SOURCES: ms-utils/simulation/hs/TsHsMsgStdFilter.cpp ms-utils/simulation/hs/TsHsStdMngr.cpp ms-utils/simulation/hs/TsHsTextPlugin.cpp ms-utils/simulation/hs/TsHsConsolePlugin.cpp ms-utils/simulation/hs/TS_hs_msg.cpp ms-utils/simulation/timer/TS_timer.c
// H01, H02: health and status messages. H01 runs producers, the helper thread and freeze/shutdown
// drains concurrently (address, undefined behaviour and race instrumentation) and accounts every
// message; H02 judges the filter, log contents, termination list and configuration against models.
#include "mon.hpp"
#include "simulation/hs/TsHsStdMngr.hh"
#include "simulation/hs/TsHsTextPlugin.hh"
#include "simulation/hs/TsHsConsolePlugin.hh"
#include "simulation/hs/TsHsMsg.hh"
#include "simulation/hs/TsHsMsgWrapper.hh"
#include "simulation/hs/TS_hs_msg.h"
#include <atomic>
#include <deque>
#include <dirent.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/stat.h>
#include <sstream>
#include <thread>
#include <time.h>
#include <unistd.h>

static std::vector<std::string> gPublished;
static pthread_mutex_t gPubLock = PTHREAD_MUTEX_INITIALIZER;
extern "C" int message_publish(int, const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); pthread_mutex_lock(&gPubLock); gPublished.push_back(b); pthread_mutex_unlock(&gPubLock); return 0; }

namespace {
typedef std::string Str;
struct Scratch {
    char old[4096], dir[64]; std::streambuf *cb, *eb; std::ostringstream out, err;
    Scratch() { if (!getcwd(old, sizeof old)) abort(); snprintf(dir, sizeof dir, "/tmp/gunns_hs_XXXXXX"); if (!mkdtemp(dir) || chdir(dir)) abort(); cb = std::cout.rdbuf(out.rdbuf()); eb = std::cerr.rdbuf(err.rdbuf()); gPublished.clear(); ts_global_met_ptr = 0; tsGlobalHsMngr = 0; TsHsMsg::enable(); }
    ~Scratch() { std::cout.rdbuf(cb); std::cerr.rdbuf(eb); if (chdir(old)) abort(); if (DIR* d = opendir(dir)) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((Str(dir) + "/" + e->d_name).c_str()); closedir(d); } rmdir(dir); tsGlobalHsMngr = 0; ts_global_met_ptr = 0; unsetenv("HS_CONFIG_PATH"); unsetenv("USS_HS_TEXT_PATH"); unsetenv("USS_HS_SQLITE_PATH"); }
};
std::vector<Str> lines(const Str& f) { std::vector<Str> v; std::ifstream in(f.c_str()); Str l; while (std::getline(in, l)) v.push_back(l); return v; }
struct Rec { Str file, fn, sub, text; int line; TS_HS_MSG_TYPE type; TS_TIMER_TYPE met; unsigned long ts; };
Rec rec(mon::Rng& r, int k) { Rec m; m.file = r.p(0.1) ? "" : mon::fmt("f%d.cpp", r.i(0, 3)); m.fn = r.p(0.3) ? "" : mon::fmt("fn%d", r.i(0, 3)); static const char* subs[] = {"GUNNS", "ECLSS", "HS", "A", "EXACTLYTWELV", "LONGERTHANTWELVE"}; m.sub = subs[r.i(0, 5)]; m.text = mon::fmt("text %d", k); m.line = r.i(0, 99999); m.type = TS_HS_MSG_TYPE(r.i(0, 4)); m.met = {r.sgn() > 0 ? 1 : -1, r.i(0, 400), r.i(0, 23), r.i(0, 59), r.i(0, 59), r.uni(-1e5, 1e5), 0}; m.ts = r.next() % 4000000000ul; return m; }
void put(TsHsMsgQueue& q, const Rec& m) { q.insertMsg(m.file, m.line, m.fn, m.type, m.sub, m.text, m.met, m.ts); }
bool same(const TsHsMsgQueueNode& n, const Rec& m) { return n.mFile == m.file && n.mLine == m.line && n.mFunction == m.fn && n.mType == m.type && n.mSubsys == m.sub && n.mText == m.text && n.mTimestamp == m.ts && n.mMet.pre == m.met.pre && n.mMet.day == m.met.day && n.mMet.hour == m.met.hour && n.mMet.min == m.met.min && n.mMet.sec == m.met.sec && n.mMet.seconds == m.met.seconds; }
struct Filter : TsHsMsgStdFilter { using TsHsMsgStdFilter::mMessageMap; };
struct Mngr : TsHsStdMngr { Mngr(const TsHsConfig& c) : TsHsStdMngr(c) {} using TsHsStdMngr::mPluginMngr; };
TsHsConfig& base(TsHsConfig& g) { g.mTextPluginPath = "log.txt"; g.mFilterEnabled = 0; g.mCategoryFilterDebugEnabled = g.mCategoryFilterInfoEnabled = g.mCategoryFilterWarningsEnabled = g.mCategoryFilterErrorsEnabled = g.mCategoryFilterFatalsEnabled = 0; return g; }
const char* tag(int t) { static const char* k[] = {"DBG ", "INFO", "WARN", "ERR ", "FAT "}; return k[t]; }
// the log line of a message less its wall-clock field
Str head(const Rec& m) { return mon::fmt("%s | %-12s | %c%03d %02d:%02d:%02d | ", tag(m.type), m.sub.substr(0, 12).c_str(), m.met.pre < 0 ? '-' : '+', m.met.day, m.met.hour, m.met.min, m.met.sec); }
Str tail(const Rec& m) { Str loc = m.file + mon::fmt(":%d ", m.line); if (!m.fn.empty()) loc += m.fn + "() "; if (loc.size() < 45) loc.append(45 - loc.size(), ' '); return " | " + loc + " | " + m.text; }
bool lineIs(const Str& l, const Rec& m, time_t t0, time_t t1) {
    const Str h = head(m), t = tail(m); if (l.size() != h.size() + 20 + t.size() || l.compare(0, h.size(), h) || l.compare(h.size() + 20, Str::npos, t)) return false;
    tm b; memset(&b, 0, sizeof b); char z = 0; if (sscanf(l.c_str() + h.size(), "%4d-%2d-%2dT%2d:%2d:%2d%c", &b.tm_year, &b.tm_mon, &b.tm_mday, &b.tm_hour, &b.tm_min, &b.tm_sec, &z) != 7 || z != 'Z') return false; b.tm_year -= 1900; b.tm_mon -= 1; const time_t w = timegm(&b); return w >= t0 && w <= t1; }
void jitter(mon::Rng& r, int style) { if (style == 0) return; const int k = r.i(0, 20); if (k < 4) sched_yield(); else if (k == 4 && style == 2) usleep(useconds_t(r.i(0, 60))); else if (style == 1) for (volatile int i = 0; i < k * 10; ++i) {} }
}

MON_PROP2(H01, model, "queue operation sequences: inserts, removals, resizes of every capacity, against a bounded FIFO model") {
    Scratch sc; const int cap0 = c.r.i(-1, 12); std::unique_ptr<TsHsMsgQueue> q; int cap; const bool def = c.r.p(0.2);
    if (def) { q.reset(new TsHsMsgQueue()); CHK(q->getCapacity() == 0 && q->getSize() == 0, "default-empty", "a default queue is not empty"); q->initialize(cap0, c.r.p(0.5)); } else q.reset(new TsHsMsgQueue(cap0, c.r.p(0.5))); cap = std::max(cap0, 1);
    std::deque<Rec> m; int over = 0; TsHsMsgQueueNode n; const int ops = c.r.i(20, 120); uint64_t h = 0; const double pin = c.r.uni(0.2, 0.8);
    for (int k = 0; k < ops && !c.failed(); ++k) {
        const double u = c.r.u();
        if (u < 0.04) { const int nc = c.r.i(-1, 12); q->initialize(nc, c.r.p(0.5)); cap = std::max(nc, 1); while (int(m.size()) > cap) { m.pop_front(); ++over; } h = mon::mix(h, 100 + nc); c.count("resizes"); }
        else if (u < 0.04 + pin) { const Rec x = rec(c.r, k); if (c.r.p(0.2)) { TsHsMsgQueueNode y; y.mFile = x.file; y.mLine = x.line; y.mFunction = x.fn; y.mType = x.type; y.mSubsys = x.sub; y.mText = x.text; y.mMet = x.met; y.mTimestamp = x.ts; q->insertMsg(y.mFile, y.mLine, y.mFunction, y.mType, y.mSubsys, y.mText, y.mMet, y.mTimestamp); } else put(*q, x); m.push_back(x); if (int(m.size()) > cap) { m.pop_front(); ++over; c.count("overflows"); } h = mon::mix(h, 1); c.count("inserts"); }
        else { const bool got = q->removeMsg(n); CHK(got == !m.empty(), "remove-result", mon::fmt("removal %s with %zu messages queued", got ? "succeeded" : "failed", m.size())); if (got && !m.empty()) { CHK(same(n, m.front()), "fifo", mon::fmt("removed '%s', oldest queued is '%s'", n.mText.c_str(), m.front().text.c_str())); m.pop_front(); } h = mon::mix(h, 2); }
        CHK(q->getSize() == int(m.size()), "size", mon::fmt("size %d, %zu queued", q->getSize(), m.size())); CHK(q->getCapacity() == cap, "capacity", mon::fmt("capacity %d, asked %d", q->getCapacity(), cap)); CHK(q->isEmpty() == m.empty(), "empty", "isEmpty wrong"); CHK(q->isFull() == (int(m.size()) == cap), "full", "isFull wrong"); CHK(q->getOverflows() == over, "overflow-count", mon::fmt("%d overflows counted, %d happened", q->getOverflows(), over)); CHK(q->getLockFailures() == 0, "lock-count", "lock failures without contention");
    }
    c.hit(h);
}

MON_PROP2(H01, threads, "concurrent producers and consumers of one queue: every capacity, blocking and not, random scheduling delays") {
    Scratch sc; const int P = c.r.i(1, 4), K = c.r.i(1, 3), N = c.r.i(20, 300); const bool blocking = c.r.p(0.6); const int cap = c.r.p(0.4) ? c.r.i(1, 8) : P * N + 1; TsHsMsgQueue q(cap, blocking); const int style = c.r.i(0, 2); const uint64_t s0 = c.r.next();
    std::atomic<int> live(P), go(0); std::vector<std::vector<std::pair<int, int> > > got(K); std::vector<std::thread> t; std::atomic<int> bad(0), sizes(0);
    for (int p = 0; p < P; ++p) t.emplace_back([&, p] { mon::Rng r(s0 + p); while (!go) {} for (int i = 0; i < N; ++i) { Rec m = {mon::fmt("p%d", p), "fn", "SUB", mon::fmt("%d %d", p, i), i, TS_HS_INFO, {1, 0, 0, 0, p, double(i), 0}, (unsigned long)i}; put(q, m); jitter(r, style); } --live; });
    for (int k = 0; k < K; ++k) t.emplace_back([&, k] { mon::Rng r(s0 + 100 + k); TsHsMsgQueueNode n; while (!go) {} for (;;) { const bool last = live == 0; bool any = false; while (!q.isEmpty() && q.removeMsg(n)) { any = true; int a, b; if (sscanf(n.mText.c_str(), "%d %d", &a, &b) != 2 || n.mLine != b || n.mMet.sec != a || n.mTimestamp != (unsigned long)b || n.mFile != mon::fmt("p%d", a)) { ++bad; break; } got[k].push_back(std::make_pair(a, b)); if (got[k].size() > size_t(P * N)) { ++bad; break; } jitter(r, style); const int z = q.getSize(); if (z < 0 || z > cap) ++sizes; } if (bad) break; if (last && !any) break; sched_yield(); } });
    go = 1; for (auto& x : t) x.join();
    CHK(!bad, "message-torn", "a removed message mixes fields of different messages or messages appear more often than inserted"); CHK(!sizes, "size-range", "size outside the capacity"); if (bad) return;
    std::set<std::pair<int, int> > all; size_t total = 0; uint64_t h = mon::mix(P, K); for (int k = 0; k < K; ++k) { std::vector<int> lastOf(P, -1); for (auto& x : got[k]) { CHK(all.insert(x).second, "duplicate", mon::fmt("message %d of producer %d delivered twice", x.second, x.first)); CHK(x.second > lastOf[x.first], "order", mon::fmt("producer %d: message %d after %d", x.first, x.second, lastOf[x.first])); lastOf[x.first] = x.second; ++total; h = mon::mix(h, x.first); } }
    CHK(q.isEmpty() && q.getSize() == 0, "drained", "queue not empty after everything was drained"); const long lost = q.getOverflows() + q.getLockFailures(); CHK(long(total) + lost == long(P) * N, "accounting", mon::fmt("%zu delivered + %d overflows + %d lock failures, %d inserted", total, q.getOverflows(), q.getLockFailures(), P * N)); CHK(!blocking || q.getLockFailures() == 0, "blocking-lost", "a blocking queue dropped messages"); CHK(cap <= P * N || q.getOverflows() == 0, "overflow-early", "overflow below capacity");
    if (lost) c.count("lossy_runs"); c.count("delivered", long(total)); if (P > 1) c.count("contended_runs"); c.hit(h);
}

MON_PROP2(H01, pipeline, "manager with sender threads, helper thread and freeze or shutdown draining the queue: every accepted message is logged once") {
    Scratch sc; TsHsConfig g; base(g); const int P = c.r.i(1, 4), N = c.r.i(5, 60); g.mQueueBlockingEnabled = c.r.p(0.7); g.mQueueCapacity = c.r.p(0.3) ? c.r.i(1, 10) : P * N + 1; g.mTextPluginBlockingEnabled = 1; g.mTerminationSubsystems = "FOO"; const bool filt = c.r.p(0.3); if (filt) { g.mFilterEnabled = 1; g.mFilterBlockingEnabled = 1; g.mRedundancyFilterInterval = 1000; g.mRedundancyFilterCount = 1; g.mRedundancyFilterHistory = P * N + 5; } const bool imm = c.r.p(0.25);
    TS_TIMER_TYPE met = {1, 0, 0, 0, 0, 0.0, 0}; ts_global_met_ptr = &met; Mngr m(g); m.init(); if (!imm) m.post_init(); const int freezes = imm ? 0 : c.r.i(0, 4); const int style = c.r.i(0, 2); const uint64_t s0 = c.r.next(); std::atomic<int> live(P), stop(0); std::vector<std::thread> t;
    for (int p = 0; p < P; ++p) t.emplace_back([&, p] { mon::Rng r(s0 + p); for (int i = 0; i < N; ++i) { if (i % 2) hsSendMsg(TS_HS_MSG_TYPE(i % 5), "SUB", mon::fmt("%d:%d", p, i)); else m.msg("file", i, "fn", TS_HS_MSG_TYPE(i % 5), "SUB", mon::fmt("%d:%d", p, i)); jitter(r, style); } --live; });
    std::thread helper([&] { mon::Rng r(s0 + 99); while (!stop) { m.inputOutputThread(); jitter(r, 1); sched_yield(); } });
    { mon::Rng r(s0 + 77); for (int f = 0; f < freezes; ++f) { jitter(r, 2); m.freeze_init(); for (int k = 0; k < 3; ++k) m.freeze(); m.unfreeze(); c.count("freezes"); } }
    for (auto& x : t) x.join(); if (c.r.p(0.5)) { stop = 1; helper.join(); m.shutdown(); } else { m.shutdown(); stop = 1; helper.join(); }
    const std::vector<Str> l = lines("log.txt"); std::set<std::pair<int, int> > seen; uint64_t h = mon::mix(P, N); for (auto& x : l) { const size_t k = x.rfind("| "); int a, b; if (!CHK(k != Str::npos && sscanf(x.c_str() + k + 2, "%d:%d", &a, &b) == 2, "log-torn", "log line torn: " + x)) return; CHK(seen.insert(std::make_pair(a, b)).second, "log-duplicate", mon::fmt("message %d of sender %d logged twice", b, a)); h = mon::mix(h, a); }
    const int lost = m.mMsgQueue.getOverflows() + m.mMsgQueue.getLockFailures(); CHK(int(seen.size()) + lost == P * N, "log-accounting", mon::fmt("%zu logged + %d overflows + %d lock failures of %d sent", seen.size(), m.mMsgQueue.getOverflows(), m.mMsgQueue.getLockFailures(), P * N)); CHK(m.mRequestCount == P * N, "request-count", mon::fmt("%d requests counted of %d", m.mRequestCount, P * N)); if (g.mQueueBlockingEnabled && !imm) CHK(m.mMsgQueue.getLockFailures() == 0, "blocking-lost", "a blocking queue dropped messages"); if (filt) CHK(m.mMsgFilter.getMessagesProcessed() == int(seen.size()) && m.mMsgFilter.getMessagesSuppressed() == 0, "filter-count", mon::fmt("filter processed %d, %zu logged", m.mMsgFilter.getMessagesProcessed(), seen.size()));
    c.note = mon::fmt("%d senders x %d, capacity %d, %d freezes: %zu logged, %d lost", P, N, g.mQueueCapacity, freezes, seen.size(), lost);
    CHK(m.mMsgQueue.isEmpty(), "shutdown-drained", "messages left in the queue at shutdown"); bool warned = false; for (auto& p : gPublished) if (p.find("overwrote") != Str::npos) warned = true; CHK(warned == (m.mMsgQueue.getOverflows() > 0), "overflow-warning", "overflows not reported at shutdown"); c.count("logged", long(seen.size())); c.hit(h);
}

MON_PROP2(H02, filter, "message sequences over keys, times, counts, intervals, histories, type filters and restarts") {
    Scratch sc; Filter f; int interval = 60, count = 2, hist = 25, types = 0; bool on = true; f.init(); if (c.r.p(0.8)) { interval = c.r.i(1, 20); f.setInterval(interval); } if (c.r.p(0.8)) { count = c.r.i(1, 4); f.setCount(count); } if (c.r.p(0.8)) { hist = c.r.i(1, 6); f.setHistory(hist); } f.setBlocking(c.r.p(0.5)); if (c.r.p(0.2)) { f.setInterval(-c.r.i(0, 3)); f.setCount(-c.r.i(0, 3)); f.setHistory(-c.r.i(0, 3)); } CHK(f.getInterval() == interval && f.getCount() == count && f.getHistory() == hist, "settings", "filter settings wrong");
    typedef std::map<Str, std::vector<double> > M; M model; double t = c.r.uni(-100, 1e4); int seen = 0, supp = 0; uint64_t h = mon::mix(hist, count); const int keys = c.r.i(1, 12);
    for (int k = 0; k < c.r.i(20, 150) && !c.failed(); ++k) {
        if (c.r.p(0.03)) { const int ty = c.r.i(0, 4); const bool o = c.r.p(0.5); f.setTypeFilter(TS_HS_MSG_TYPE(ty), o); if (o) types |= 1 << ty; else types &= ~(1 << ty); } if (c.r.p(0.02)) { f.restart(); model.clear(); c.count("restarts"); } if (c.r.p(0.02)) { on = c.r.p(0.6); f.setEnabled(on); } if (c.r.p(0.02)) { hist = c.r.i(1, 6); f.setHistory(hist); }
        t += c.r.p(0.3) ? 0 : c.r.p(0.5) ? c.r.uni(0, 1) : c.r.i(0, 5); const int id = c.r.i(0, keys - 1), ty = c.r.i(0, 4); const Str file = id % 2 ? "a" : "b", sub = id % 3 ? "S" : "T", text = id < 6 ? "x" : "y"; const int line = id;
        const Str key = file + mon::fmt("/%d/", line) + sub + "/" + text; std::set<Str> before; for (auto& x : f.mMessageMap) before.insert(x.first); const bool sent = f.shouldSendMessage(t, file, line, TS_HS_MSG_TYPE(ty), sub, text); h = mon::mix(h, id * 2 + sent);
        if (!on) { CHK(sent, "disabled", "a disabled filter suppressed a message"); continue; } ++seen;
        if (types >> ty & 1) { ++supp; CHK(!sent, "type-filter", mon::fmt("message type %d passed although filtered", ty)); c.count("type_filtered"); }
        else if (!model.count(key)) { CHK(sent, "new-message", "a message not in the history was suppressed");
            // the oldest make room; ties may be broken either way
            while (int(model.size()) >= hist) { double oldest = 1e300; for (auto& x : model) oldest = std::min(oldest, x.second.back()); std::vector<Str> cand; for (auto& x : model) if (x.second.back() == oldest) cand.push_back(x.first); Str gone; for (auto& x : cand) { bool still = false; const size_t a = x.find('/'), b = x.find('/', a + 1), d = x.find('/', b + 1); const Str full = x.substr(0, a) + "|" + x.substr(a + 1, b - a - 1) + "|" + x.substr(b + 1, d - b - 1) + "|" + x.substr(d + 1); for (auto& y : f.mMessageMap) if (Str(y.first.c_str()) == full) still = true; if (!still) { gone = x; break; } } if (!CHK(!gone.empty(), "purge-oldest", mon::fmt("the oldest message (last sent at %g) stays in the full history of %d", oldest, hist))) break; model.erase(gone); c.count("purges"); }
            model[key].push_back(t); }
        else { std::vector<double>& v = model[key]; while (!v.empty() && v.front() < t - interval) v.erase(v.begin()); const bool want = int(v.size()) < count; CHK(sent == want, "redundancy", mon::fmt("same message at %.17g %s with %zu sent in the last %d s (limit %d)", t, sent ? "sent" : "suppressed", v.size(), interval, count)); if (want) v.push_back(t); else ++supp; c.count("repeats"); }
        CHK(f.mMessageMap.size() == model.size(), "history-size", mon::fmt("%zu messages in history, limit %d, model %zu", f.mMessageMap.size(), hist, model.size())); CHK(f.getMessagesProcessed() == seen && f.getMessagesSuppressed() == supp, "counters", mon::fmt("processed %d suppressed %d, expected %d %d", f.getMessagesProcessed(), f.getMessagesSuppressed(), seen, supp)); for (int k2 = 0; k2 < 5; ++k2) CHK(f.isTypeFiltered(TS_HS_MSG_TYPE(k2)) == bool(types >> k2 & 1), "type-state", "type filter state wrong");
    }
    c.hit(h);
}

MON_PROP2(H02, log, "everything sent through every entry point: line format, fields, order, truncation, modes, disabled output, restarts") {
    Scratch sc; TsHsConfig g; base(g); g.mQueueBlockingEnabled = c.r.p(0.5); g.mTextPluginBlockingEnabled = c.r.p(0.5); g.mConsolePluginEnabled = c.r.p(0.5); g.mConsolePluginBlockingEnabled = c.r.p(0.5); g.mTextPluginOverwriteEnabled = c.r.p(0.7); g.mTextPluginEnabled = c.r.p(0.85); const bool badPath = g.mTextPluginEnabled && c.r.p(0.1); if (badPath) g.mTextPluginPath = "no/such/dir/log.txt"; const bool stale = c.r.p(0.3); if (stale) { std::ofstream o("log.txt"); o << "old content\n"; }
    int filt = 0; for (int k = 0; k < 5; ++k) if (c.r.p(0.15)) filt |= 1 << k; if (c.r.p(0.5)) { g.mFilterEnabled = 1; g.mFilterBlockingEnabled = c.r.p(0.5); g.mRedundancyFilterInterval = 2; g.mRedundancyFilterCount = 1; g.mRedundancyFilterHistory = 1000; g.mCategoryFilterDebugEnabled = filt & 1; g.mCategoryFilterInfoEnabled = filt >> 1 & 1; g.mCategoryFilterWarningsEnabled = filt >> 2 & 1; g.mCategoryFilterErrorsEnabled = filt >> 3 & 1; g.mCategoryFilterFatalsEnabled = filt >> 4 & 1; } else filt = 0;
    TS_TIMER_TYPE met = {1, 0, 0, 0, 0, 0.0, 0}; const bool haveMet = c.r.p(0.8); if (haveMet) ts_global_met_ptr = &met; const time_t t0 = time(0); Mngr m(g); CHK(tsGlobalHsMngr == &m, "global-manager", "the manager does not register itself"); m.init(); std::vector<Rec> want; bool queued = false, frozen = false; uint64_t h = filt; size_t pending = 0; std::vector<Rec> q; const int mode = c.r.i(0, 2); if (mode == 1) { m.post_init(); queued = true; }
    const int n = c.r.i(3, 30);
    for (int k = 0; k < n && !c.failed(); ++k) {
        Rec x = rec(c.r, k); met = x.met; if (!haveMet) x.met = {-1, 99, 23, 59, 59, -9999.0, 0}; const int how = c.r.i(0, 6); bool drop = false; if (c.r.p(0.1)) x.text += " with a pipe | and\ttab";
        if (how == 0) m.msg(x.file, x.line, x.fn, x.type, x.sub, x.text);
        else if (how == 1) tsHsSendMsgFileLine(x.file, unsigned(x.line), x.fn, x.type, x.sub, x.text);
        else if (how == 2) { TsHsMsg o(TS_HS_DEBUG, "OTHER"); o.setSeverity(x.type); o.setSubsys(x.sub); o << "junk"; o.clear(); o << x.text; CHK(o.getSeverity() == x.type && o.getSubsys() == x.sub && o.getMessageText() == x.text, "message-object", "message object fields wrong"); if (c.r.p(0.5)) o.send(x.file, unsigned(x.line), x.fn); else tsHsSendMsgFileLine(x.file, unsigned(x.line), x.fn, o); }
        else if (how == 3) { TsHsMsg o(x.type, x.sub, "initial"); o.send(x.file, unsigned(x.line), x.fn, x.text); }
        else if (how == 4) tsHsSendMsgFileLineC(x.file.c_str(), unsigned(x.line), x.fn.c_str(), x.type, x.sub.c_str(), x.text.c_str());
        else { const bool longer = c.r.p(0.3); const Str pad = longer ? Str(size_t(c.r.i(900, 1500)), 'z') : ""; if (how == 5) tsHsSendMsgFileLineFormattedC(x.file.c_str(), x.line, x.fn.c_str(), x.type, x.sub.c_str(), "%s%d%s", pad.c_str(), k, x.text.c_str()); else TS_hs_fileline_msg(x.file.c_str(), x.line, x.type, x.sub.c_str(), "%s%d%s", pad.c_str(), k, x.text.c_str()); x.text = (pad + mon::fmt("%d", k) + x.text).substr(0, 1023); x.fn = ""; }
        if (c.r.p(0.1)) { TsHsMsg::disable(); hsSendMsg(TS_HS_ERROR, "X", "never"); TsHsMsg o(TS_HS_ERROR, "X"); o.send("f", 1, "g"); o.send("f", 1, "g", "never"); hsSendMsg(o); TsHsMsg::enable(); c.count("disabled_sends"); }
        if (g.mFilterEnabled && (filt >> x.type & 1)) drop = true; if (!drop) want.push_back(x);
        // the log follows the mode: at once, or when the helper, freeze or shutdown drain the queue
        const size_t have = g.mTextPluginEnabled && !badPath && g.mTextPluginOverwriteEnabled ? lines("log.txt").size() : size_t(-1); if (!queued) { if (have != size_t(-1)) CHK(have == want.size(), "immediate", mon::fmt("%zu of %zu messages in the log in immediate mode", have, want.size())); pending = 0; }
        else { if (!drop) ++pending; if (have != size_t(-1)) CHK(have + pending == want.size(), "queued", mon::fmt("%zu logged and %zu pending of %zu", have, pending, want.size())); const double u = c.r.u(); if (u < 0.15) { m.inputOutputThread(); if (!frozen) pending = 0; } else if (u < 0.25) { m.freeze_init(); m.freeze(); frozen = true; pending = 0; c.count("freezes"); } else if (u < 0.4) { m.unfreeze(); frozen = false; } }
        if (mode == 2 && !queued && c.r.p(0.2)) { m.post_init(); queued = true; } if (c.r.p(0.05)) m.update(); h = mon::mix(h, how * 8 + x.type);
    }
    const bool rst = c.r.p(0.3); if (rst) { Rec x; x.met = haveMet ? met : TS_TIMER_TYPE{-1, 99, 23, 59, 59, -9999.0, 0}; m.restart(); x.type = TS_HS_INFO; x.sub = "HS"; x.line = -1; x.text = "H&S Restart"; if (!(g.mFilterEnabled && (filt >> 1 & 1))) want.push_back(x); c.count("restarts"); }
    m.shutdown(); const time_t t1 = time(0); Str path = "log.txt"; if (g.mTextPluginEnabled && !badPath && !g.mTextPluginOverwriteEnabled) { if (DIR* d = opendir(".")) { while (dirent* e = readdir(d)) if (Str(e->d_name).compare(0, 8, "log.txt_") == 0) path = e->d_name; closedir(d); } CHK(path.size() == 16 && path.find_first_not_of("0123456789", 8) == Str::npos, "timestamped-name", "log file without its time stamp: " + path); if (stale) { const std::vector<Str> o = lines("log.txt"); CHK(o.size() == 1 && o[0] == "old content", "old-log-kept", "the old log changed although overwriting is off"); } }
    auto judge = [&](const std::vector<Str>& l, const char* what) { if (!CHK(l.size() == want.size(), Str(what) + "-count", mon::fmt("%zu lines in the %s, %zu messages expected", l.size(), what, want.size()))) return; for (size_t i = 0; i < l.size(); ++i) if (want[i].line == -1) CHK(l[i].find("H&S Restart") != Str::npos, Str(what) + "-restart", "no restart line"); else CHK(lineIs(l[i], want[i], t0, t1), Str(what) + "-line", mon::fmt("line '%s' for '%s' ... '%s'", l[i].substr(0, 200).c_str(), head(want[i]).c_str(), tail(want[i]).substr(0, 120).c_str())); };
    if (badPath) { CHK(!gPublished.empty(), "bad-path-silent", "a log that cannot be opened is not reported"); TsHsOutputPlugin* p = m.mPluginMngr.getPlugin(TsHsStdMngr::TS_HS_TEXT); CHK(p && (rst || !p->isEnabled()), "bad-path-plugin", "text output stays enabled without a file"); } else if (g.mTextPluginEnabled) judge(lines(path), "log"); else CHK(lines("log.txt").size() == size_t(stale), "log-disabled", "a disabled text output writes");
    { std::vector<Str> l; std::istringstream s(sc.out.str()); Str x; while (std::getline(s, x)) l.push_back(x); if (g.mConsolePluginEnabled) judge(l, "console"); else CHK(l.empty(), "console-disabled", "a disabled console output writes"); }
    c.count("lines", long(want.size())); c.hit(h);
}

MON_PROP2(H02, config, "configuration files of every content, cut anywhere, found here or by environment, with path overrides; termination lists") {
    Scratch sc; TsHsConfig d; std::vector<Str> v; static const char* sep[] = {" ", "\n", "\t", " \n  "}; int iv[24]; for (int k = 0; k < 24; ++k) iv[k] = c.r.p(0.5) ? c.r.i(0, 1) : c.r.i(-100, 9999); const double sec = c.r.p(0.5) ? c.r.i(0, 100) : c.r.uni(0, 100); const Str term = mon::fmt("A%d,B%d:C", c.r.i(0, 9), c.r.i(0, 9)), tp = mon::fmt("text%d.out", c.r.i(0, 9)), sp = mon::fmt("sq%d.db", c.r.i(0, 9));
    int* I = iv; v = {mon::fmt("%d", I[0]), mon::fmt("%.17g", sec), mon::fmt("%d", I[1]), term, mon::fmt("%d", I[2]), mon::fmt("%d", I[3]), mon::fmt("%d", I[4]), mon::fmt("%d", I[5]), mon::fmt("%d", I[6]), tp, mon::fmt("%d", I[7]), mon::fmt("%d", I[8]), mon::fmt("%d", I[9]), sp}; for (int k = 10; k < 22; ++k) v.push_back(mon::fmt("%d", I[k]));
    const int total = int(v.size()); int cut = total, junk = -1; if (c.r.p(0.35)) cut = c.r.i(0, total - 1); else if (c.r.p(0.2)) { do junk = c.r.i(0, total - 1); while (junk == 3 || junk == 9 || junk == 13); v[size_t(junk)] = "oops"; }
    Str text; for (int k = 0; k < cut; ++k) text += v[size_t(k)] + (k == total - 1 || k == cut - 1 ? "\n" : sep[c.r.i(0, 3)]);
    const int where = c.r.i(0, 3);   // 0 here, 1 environment, 2 nowhere, 3 environment set but no file there
    Str sub = Str(sc.dir) + "/cfg"; if (where == 0) { std::ofstream o("hsconfig.txt"); o << text; } if (where == 1) { mkdir("cfg", 0755); std::ofstream o("cfg/hsconfig.txt"); o << text; } if (where == 1 || where == 3 || (where == 0 && c.r.p(0.3))) setenv("HS_CONFIG_PATH", sub.c_str(), 1);
    const bool ot = c.r.p(0.4), os = c.r.p(0.4); if (ot) setenv("USS_HS_TEXT_PATH", "env.out", 1); if (os) setenv("USS_HS_SQLITE_PATH", "env.db", 1);
    TsHsConfig g; const bool ok = g.getConfigInfo(); const bool found = where < 2; CHK(ok == (!found || (cut == total && junk < 0)), "config-result", mon::fmt("configuration %s with %d of %d fields, bad field %d", ok ? "accepted" : "refused", cut, total, junk));
    CHK(g.mTextPluginPath == (ot ? "env.out" : found && ok ? tp : found ? g.mTextPluginPath : d.mTextPluginPath), "text-path", "text log path '" + g.mTextPluginPath + "'"); CHK(g.mSqlitePluginPath == (os ? "env.db" : found && ok ? sp : found ? g.mSqlitePluginPath : d.mSqlitePluginPath), "sqlite-path", "database path '" + g.mSqlitePluginPath + "'");
    const TsHsConfig cp(g); const TsHsConfig* two[2] = {&g, &cp}; for (int k = 0; k < 2; ++k) { const TsHsConfig& x = *two[k]; CHK(x.mTextPluginPath == g.mTextPluginPath && x.mSqlitePluginPath == g.mSqlitePluginPath, "copy-paths", "copied configuration has other paths");
        const int a[22] = {x.mOverallBlocking, x.mTerminationEnabled, x.mQueueBlockingEnabled, x.mQueueCapacity, x.mTextPluginEnabled, x.mTextPluginBlockingEnabled, x.mTextPluginOverwriteEnabled, x.mSqlitePluginEnabled, x.mSqlitePluginBlockingEnabled, x.mSqlitePluginOverwriteEnabled, x.mConsolePluginEnabled, x.mConsolePluginBlockingEnabled, x.mFilterEnabled, x.mFilterBlockingEnabled, x.mRedundancyFilterInterval, x.mRedundancyFilterCount, x.mRedundancyFilterHistory, x.mCategoryFilterDebugEnabled, x.mCategoryFilterInfoEnabled, x.mCategoryFilterWarningsEnabled, x.mCategoryFilterErrorsEnabled, x.mCategoryFilterFatalsEnabled}, b[22] = {d.mOverallBlocking, d.mTerminationEnabled, d.mQueueBlockingEnabled, d.mQueueCapacity, d.mTextPluginEnabled, d.mTextPluginBlockingEnabled, d.mTextPluginOverwriteEnabled, d.mSqlitePluginEnabled, d.mSqlitePluginBlockingEnabled, d.mSqlitePluginOverwriteEnabled, d.mConsolePluginEnabled, d.mConsolePluginBlockingEnabled, d.mFilterEnabled, d.mFilterBlockingEnabled, d.mRedundancyFilterInterval, d.mRedundancyFilterCount, d.mRedundancyFilterHistory, d.mCategoryFilterDebugEnabled, d.mCategoryFilterInfoEnabled, d.mCategoryFilterWarningsEnabled, d.mCategoryFilterErrorsEnabled, d.mCategoryFilterFatalsEnabled};
        if (!found || ok) { for (int j = 0; j < 22; ++j) CHK(a[j] == (found ? iv[j] : b[j]), "config-field", mon::fmt("configuration field %d is %d, expected %d", j, a[j], found ? iv[j] : b[j])); CHK(x.mTimerSeconds == (found ? sec : d.mTimerSeconds) && x.mTerminationSubsystems == (found ? term : d.mTerminationSubsystems), "config-field-text", "timer seconds or termination subsystems wrong"); } }
    if (where == 1) { unlink("cfg/hsconfig.txt"); rmdir("cfg"); }
    // termination: a fatal message of a listed subsystem asks to stop, nothing else does
    TsHsTermination t; std::set<Str> in; for (int k = 0; k < c.r.i(1, 8); ++k) { const int op = c.r.i(0, 3); if (op == 3) { const Str s = mon::fmt("S%d", c.r.i(0, 9)); const bool on = c.r.p(0.5); t.setFatalToSubsystem(s, on); if (on) in.insert(s); else in.erase(s); } else { Str s; if (op == 0) in.clear(); static const char* dl[] = {":", ",", ";", " ", ", ", " ;:"}; if (c.r.p(0.2)) s += dl[c.r.i(0, 5)]; const int n = c.r.i(0, 4); for (int j = 0; j < n; ++j) { const Str w = mon::fmt("S%d", c.r.i(0, 9)); in.insert(w); s += w; if (j < n - 1 || c.r.p(0.3)) s += dl[c.r.i(0, 5)]; } if (op == 0) t.setFatalToMultipleSubsystems(s); else t.appendFatalToMultipleSubsystems(s); } }
    const bool en = c.r.p(0.8); t.setEnabled(en); for (int k = 0; k < 10; ++k) { const Str s = mon::fmt("S%d", k); CHK(t.isFatalToSubsystem(s) == bool(in.count(s)), "fatal-set", "subsystem " + s + " wrongly listed or not"); const int ty = c.r.i(0, 4); CHK(t.msg("f", 1, "g", TS_HS_MSG_TYPE(ty), s, "x") == !(en && ty == TS_HS_FATAL && in.count(s)), "termination", "termination request wrong for " + s); } CHK(!t.isFatalToSubsystem("") && !t.isFatalToSubsystem("S"), "fatal-empty", "partial names are listed");
    c.hit(mon::mix(mon::mix(where, cut), junk * 4 + ot * 2 + os));
}
