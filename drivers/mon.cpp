#include "mon.hpp"
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <algorithm>
#include <cxxabi.h>
namespace mon {
struct Entry { CaseFn fn; std::string rule; };
static std::map<std::string, std::vector<Entry> >& registry() { static std::map<std::string, std::vector<Entry> > m; return m; }
Reg::Reg(const char* prop, CaseFn fn, const char* rule) { registry()[prop].push_back(Entry{fn, rule}); }
struct Other { CaseFn fn; std::string name; };
std::vector<Other> otherCases(const std::string& except) { std::vector<Other> v; for (auto& p : registry()) if (p.first != except) { int k = 0; for (auto& e : p.second) v.push_back(Other{e.fn, fmt("%s.%d", p.first.c_str(), k++)}); } return v; }
std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void Ctx::fail(const std::string& key, const std::string& msg) {
    caseFailed = true; long& n = vkeys[key]; ++n;
    if (n <= 3 && violations.size() < 200) violations.push_back(V{key, msg + (note.empty() ? "" : "  [case: " + note + "]"), caseSeed, caseIndex});
}
bool Ctx::near(double a, double b, double rel, double abs, const std::string& key, const std::string& what) {
    ++evals;
    const double tol = rel * std::max(std::fabs(a), std::fabs(b)) + abs;
    if (!(std::fabs(a - b) <= tol)) { fail(key, fmt("%s: got %.17g expected %.17g (tol %.3g)", what.c_str(), a, b, tol)); return false; }
    return true;
}
bool Ctx::finite(double a, const std::string& key, const std::string& what) {
    ++evals; if (!std::isfinite(a)) { fail(key, what + fmt(" is not finite: %g", a)); return false; } return true;
}
static std::string esc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
static std::string outPath; static Ctx* gctx; static int progressFd = -1;
static void writeOut(const Ctx& c, bool complete, const std::string& rule) {
    std::ofstream o(outPath.c_str());
    o << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << c.evals << ",\"distinct\":" << c.distinct.size()
      << ",\"cases\":" << c.counts.find("cases")->second << ",\"rule\":\"" << esc(rule) << "\",\"counts\":{";
    bool f = true; for (auto& k : c.counts) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; f = false; }
    o << "},\"samples\":["; f = true; for (auto& s : c.samples) { o << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
    o << "],\"vkeys\":{"; f = true; for (auto& k : c.vkeys) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; f = false; }
    o << "},\"violations\":["; f = true; for (auto& v : c.violations) { o << (f ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg)
      << "\",\"seed\":\"" << v.seed << "\",\"index\":" << v.index << "}"; f = false; }
    o << "]}\n"; o.close();
    std::ofstream d((outPath + ".keys").c_str(), std::ios::binary);
    for (uint64_t k : c.distinct) d.write(reinterpret_cast<const char*>(&k), 8);
}
static void progress(const Ctx& c) { char b[128]; int n = snprintf(b, sizeof b, "%020llu %012ld\n", (unsigned long long)c.caseSeed, c.caseIndex); if (progressFd >= 0) { ssize_t w = pwrite(progressFd, b, n, 0); (void)w; } }
static void onAlarm(int) { const char m[] = "MON-HANG: case exceeded its time limit\n"; ssize_t w = write(2, m, sizeof m - 1); (void)w; _exit(97); }
}
using namespace mon;
int main(int argc, char** argv) {
    std::map<std::string, std::string> a; std::string prop = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (!registry().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    std::vector<Entry>& es = registry()[prop];
    const uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    const long cases = a.count("--cases") ? atol(a["--cases"].c_str()) : 100;
    const long shard = a.count("--shard") ? atol(a["--shard"].c_str()) : 0, nsh = a.count("--nshards") ? atol(a["--nshards"].c_str()) : 1;
    const int limit = a.count("--case-limit") ? atoi(a["--case-limit"].c_str()) : 120;
    outPath = a.count("--out") ? a["--out"] : "/dev/stdout";
    std::string rule; for (auto& e : es) { if (!rule.empty()) rule += " | "; rule += e.rule; }
    if (a.count("--progress")) progressFd = open(a["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    signal(SIGALRM, onAlarm);
    Ctx c; gctx = &c; c.thorough = a.count("--tier") && a["--tier"] == "thorough"; c.counts["cases"] = 0;
    long only = a.count("--index") ? atol(a["--index"].c_str()) : -1;
    for (long k = (only >= 0 ? only : shard); k < (only >= 0 ? only + 1 : cases); k += nsh) {
        c.caseIndex = k; c.caseSeed = mix(mix(seed, hstr(prop)), uint64_t(k) + 1); c.r = Rng(c.caseSeed); c.note.clear(); c.caseFailed = false;
        progress(c); alarm(limit);
        try { es[k % es.size()].fn(c); }
        catch (const std::exception& e) {
            int st = 0; char* nm = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
            c.fail(std::string("unexpected-exception:") + (nm ? nm : "?"), std::string("exception escaped: ") + e.what()); free(nm); }
        catch (...) { c.fail("unexpected-exception", "unknown exception escaped"); }
        alarm(0);
        ++c.counts["cases"];
    }
    writeOut(c, true, rule);
    return c.vkeys.empty() ? 0 : 1;
}
