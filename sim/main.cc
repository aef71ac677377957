// Runner: seeds -> forked simulated runs -> verdicts, minimisation, replay
// files, evidence.
#include "runner.h"
#include "kernel.h"
#include "module.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include <algorithm>
#include <fstream>
#include <sstream>

#ifdef __SANITIZE_ADDRESS__
static char g_asanReport[1200];
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=16"; }
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
static void onAsanReport(const char *r) {
    // the error and the innermost frames inside the code under test
    std::string s, o; std::stringstream ss(r); bool head = false; int frames = 0;
    while (std::getline(ss, s)) {
        if (s.find("ERROR: AddressSanitizer") != std::string::npos) { o += s.substr(s.find("AddressSanitizer")); size_t a = o.find(" on address"); if (a != std::string::npos) o.resize(a); head = true; }
        else if (head && s.find("    #") == 0 && frames < 6) { size_t a = s.find(" in "); if (a != std::string::npos) { ++frames; std::string t = s.substr(a + 4); size_t b = t.rfind('/'); size_t c = t.find(' '); o += "; " + t.substr(0, c) + (b != std::string::npos ? " " + t.substr(b + 1) : ""); } }
        else if (head && frames && s.empty()) break;
    }
    snprintf(g_asanReport, sizeof g_asanReport, "%s", o.c_str());
}
#endif

namespace sim {
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
std::vector<Check> &checks() { static std::vector<Check> v; return v; }
std::string g_sample;

static const uint32_t kRecCap = 300000;
struct Slot {
    volatile int done;
    int violated, harness, truncated;
    char klass[80];
    char msg[3000];
    char sample[600];
    uint64_t hash;
    int64_t simMs, steps, faults[F_NKINDS];
    uint32_t nstats;
    struct { char name[48]; int64_t v; } stats[120];
    uint32_t nsigs; uint64_t sigs[4096];
    uint32_t nrec[NSTREAMS];
    uint32_t rec[NSTREAMS][kRecCap];
};
static Slot *g_slot;

static void put(char *d, size_t n, const std::string &s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static void saveStreams(Slot *s) {
    for (int i = 0; i < NSTREAMS; ++i) {
        uint32_t n = (uint32_t)std::min<size_t>(g_choices.rec[i].size(), kRecCap);
        if (n < g_choices.rec[i].size()) s->truncated = 1;
        s->nrec[i] = n;
        if (n) memcpy(s->rec[i], g_choices.rec[i].data(), n * 4);
    }
}
static void finishSlot() {
    Slot *s = g_slot;
    s->violated = g_verdict.violated;
    put(s->klass, sizeof s->klass, g_verdict.klass);
    put(s->msg, sizeof s->msg, g_verdict.msg);
    put(s->sample, sizeof s->sample, g_sample);
    s->hash = g_hash; s->simMs = g_now; s->steps = (int64_t)g_steps;
    memcpy(s->faults, g_faultCounts, sizeof s->faults);
    s->nstats = 0;
    for (auto &kv : g_stats) {
        if (s->nstats >= 120) break;
        put(s->stats[s->nstats].name, 48, kv.first); s->stats[s->nstats].v = kv.second; s->nstats++;
    }
    s->nsigs = 0;
    for (uint64_t h : g_sigs) { if (s->nsigs >= 4096) break; s->sigs[s->nsigs++] = h; }
    saveStreams(s);
    s->done = 1;
}
void harnessError(const std::string &msg) {
    if (g_slot) {
        g_slot->harness = 1; put(g_slot->msg, sizeof g_slot->msg, "harness: " + msg);
        g_slot->done = 1;
    }
    fprintf(stderr, "harness error: %s\n", msg.c_str());
    _exit(4);
}

static void onSignal(int sig, siginfo_t *si, void *) {
    Slot *s = g_slot;
    if (!s) _exit(5);
    const char *what = sig == SIGVTALRM ? "cpu-hang" : "crash-signal";
    if (!g_verdict.violated || sig != SIGVTALRM) {
        s->violated = 1;
        put(s->klass, sizeof s->klass, what);
        const char *k = g_cur && g_cur->proc ? g_cur->proc->kind.c_str() : "simulator";
        snprintf(s->msg, sizeof s->msg, "signal %d (%s) in process %s, thread %s at %s", sig, sig == SIGVTALRM ? "CPU time limit" : "memory fault/abort",
                 k, g_cur ? g_cur->name.c_str() : "-", g_cur ? g_cur->where : "-");
#ifdef __SANITIZE_ADDRESS__
        if (g_asanReport[0]) snprintf(s->msg + strlen(s->msg), sizeof s->msg - strlen(s->msg), ": %s", g_asanReport);
#endif
    }
    s->hash = sig == SIGVTALRM ? 0 : g_hash; s->simMs = g_now; s->steps = (int64_t)g_steps;
    saveStreams(s);
    s->done = 1;
    _exit(0);
}

static void runInChild(const Scenario &sc, int param) {
    static char altstack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int sig : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM}) sigaction(sig, &sa, nullptr);
    // An exception that nothing catches ends its process, as on the real system.  It is reported
    // (through abort) unless the scenario makes that process's system calls fail.
    std::set_terminate([] {
        if (g_cur && g_cur->proc && g_cur->proc->failSyscalls && g_cur->proc->kind == "agent") processExit(g_cur->proc, 3, true, "injected failure, uncaught exception");
        abort();
    });
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = getenv("SIM_CPU_LIMIT") ? atoi(getenv("SIM_CPU_LIMIT")) : 15;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    struct rlimit rl = {6ull << 30, 6ull << 30};
#ifndef __SANITIZE_ADDRESS__
    setrlimit(RLIMIT_AS, &rl);
#endif
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    sc.fn(param);
    finishSlot();
    _exit(0);
}

struct Job { int idx; const Scenario *sc; int param; uint64_t seed; bool replay = false; std::vector<uint32_t> streams[NSTREAMS]; };
struct Result {
    bool ok = false; bool violated = false, harness = false; std::string klass, msg, sample; uint64_t hash = 0;
    int64_t simMs = 0, steps = 0; std::vector<int64_t> faults; std::map<std::string, int64_t> stats; std::vector<uint64_t> sigs;
    std::vector<uint32_t> rec[NSTREAMS]; bool truncated = false;
};

static Slot *g_slots; static int g_nslots = 8;
static bool g_quiet = true;

static pid_t startJob(const Job &j, Slot *s) {
    s->done = 0; s->violated = 0; s->harness = 0; s->truncated = 0; s->nrec[0] = s->nrec[1] = s->nrec[2] = 0; s->nstats = 0; s->nsigs = 0; s->msg[0] = 0; s->klass[0] = 0; s->sample[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p) return p;
    g_slot = s;
    g_choices.replay = j.replay;
    for (int i = 0; i < NSTREAMS; ++i) {
        g_choices.in[i] = j.streams[i];
        g_choices.rng[i].seed(mix(j.seed, 77 + i));
        g_choices.rec[i].reserve(4096);
    }
    runInChild(*j.sc, j.param);
    _exit(0);
}
static Result collect(Slot *s, int status) {
    Result r;
    if (!s->done || s->harness) {
        r.harness = true;
        r.msg = s->harness ? s->msg : fmt("run ended with status 0x%x without a result", status);
        return r;
    }
    r.ok = true; r.violated = s->violated; r.klass = s->klass; r.msg = s->msg; r.sample = s->sample; r.hash = s->hash;
    r.simMs = s->simMs; r.steps = s->steps; r.faults.assign(s->faults, s->faults + F_NKINDS); r.truncated = s->truncated;
    for (uint32_t i = 0; i < s->nstats; ++i) r.stats[s->stats[i].name] = s->stats[i].v;
    r.sigs.assign(s->sigs, s->sigs + s->nsigs);
    if (s->violated) for (int i = 0; i < NSTREAMS; ++i) r.rec[i].assign(s->rec[i], s->rec[i] + s->nrec[i]);
    return r;
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Runs jobs in parallel; calls done() in completion order; stops early when
// done() returns false.
static void runJobs(const std::vector<Job> &jobs, std::function<bool(size_t, Result &)> done, double deadline = 1e18) {
    struct Live { pid_t pid; size_t job; double start; };
    std::vector<Live> live(g_nslots, Live{0, 0, 0});
    size_t next = 0; int nlive = 0; bool stop = false;
    while (true) {
        if (wall() > deadline) stop = true;
        for (int i = 0; i < g_nslots && !stop && next < jobs.size(); ++i) if (!live[i].pid) {
            live[i].job = next; live[i].start = wall(); live[i].pid = startJob(jobs[next], &g_slots[i]); ++next; ++nlive;
        }
        if (!nlive) break;
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < g_nslots; ++i) if (live[i].pid == p) {
            Result r = collect(&g_slots[i], st);
            live[i].pid = 0; --nlive;
            if (!done(live[i].job, r)) stop = true;
        }
    }
}
static Result runOne(const Job &j) {
    Result out;
    runJobs({j}, [&](size_t, Result &r) { out = r; return true; });
    return out;
}

static const Scenario *findScenario(const std::string &n) { for (auto &s : scenarios()) if (n == s.name) return &s; return nullptr; }

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
static void writeReplay(const std::string &path, const std::string &prop, const Job &j, const Result &r) {
    std::ofstream f(path);
    f << "{\"property\": " << jstr(prop) << ",\n\"scenario\": " << jstr(j.sc->name) << ",\n\"mode\": " << (j.replay ? "\"choices\"" : "\"seed\"") << ",\n\"param\": " << j.param << ",\n\"seed\": " << j.seed
      <<
#ifdef __SANITIZE_ADDRESS__
      ",\n\"asan\": 1"
#else
      ""
#endif
      << ",\n\"klass\": " << jstr(r.klass) << ",\n\"hash\": \"" << std::hex << r.hash << std::dec << "\",\n\"message\": " << jstr(r.msg) << ",\n\"workload\": " << jstr(r.sample) << ",\n\"streams\": [";
    static const char *names[] = {"generator", "schedule", "faults"};
    (void)names;
    for (int i = 0; i < NSTREAMS; ++i) {
        f << (i ? ",\n[" : "\n[");
        for (size_t k = 0; k < j.streams[i].size(); ++k) f << (k ? "," : "") << j.streams[i][k];
        f << "]";
    }
    f << "]}\n";
}
static bool readReplay(const std::string &path, std::string &prop, Job &j, std::string &klass, uint64_t &hash) {
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    auto field = [&](const char *k) { size_t p = s.find(std::string("\"") + k + "\": "); return p == std::string::npos ? std::string() : s.substr(p + strlen(k) + 4); };
    auto str = [&](const char *k) { std::string v = field(k); if (v.empty() || v[0] != '"') return std::string(); return v.substr(1, v.find('"', 1) - 1); };
    prop = str("property"); klass = str("klass");
    j.sc = findScenario(str("scenario")); if (!j.sc) return false;
    j.param = atoi(field("param").c_str()); j.seed = strtoull(field("seed").c_str(), nullptr, 10);
    hash = strtoull(str("hash").c_str(), nullptr, 16);
    j.replay = str("mode") != "seed";
    std::string v = field("streams"); size_t p = v.find('[') + 1;
    for (int i = 0; i < NSTREAMS; ++i) {
        p = v.find('[', p); if (p == std::string::npos) return false; ++p;
        while (v[p] != ']') { char *e; j.streams[i].push_back((uint32_t)strtoul(&v[p], &e, 10)); p = e - v.c_str(); if (v[p] == ',') ++p; }
    }
    return true;
}

// Shrinks the recorded choices while the same violation class persists.
static Job minimise(Job j, Result &best, double budget) {
    double end = wall() + budget;
    auto test = [&](std::vector<Job> &cands) -> int {
        int win = -1; std::vector<Result> rs(cands.size());
        runJobs(cands, [&](size_t i, Result &r) { rs[i] = r; return true; });
        for (size_t i = 0; i < cands.size() && win < 0; ++i) if (rs[i].ok && rs[i].violated && rs[i].klass == best.klass) { win = (int)i; best = rs[i]; }
        return win;
    };
    auto usedLen = [](std::vector<uint32_t> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
    for (int i = 0; i < NSTREAMS; ++i) usedLen(j.streams[i]);
    // truncation
    for (int i = NSTREAMS - 1; i >= 0 && wall() < end; --i) {
        bool progress = true;
        while (progress && wall() < end && !j.streams[i].empty()) {
            progress = false;
            std::vector<Job> c; size_t n = j.streams[i].size();
            for (size_t k : {(size_t)0, n / 8, n / 4, n / 2, n * 3 / 4, n * 7 / 8, n * 15 / 16, n - 1}) { if (k >= n) continue; Job t = j; t.streams[i].resize(k); c.push_back(t); }
            int w = test(c);
            if (w >= 0) { j = c[w]; usedLen(j.streams[i]); progress = true; }
        }
    }
    // zero chunks
    for (int i = NSTREAMS - 1; i >= 0; --i) {
        for (size_t chunk = std::max<size_t>(1, j.streams[i].size() / 4); wall() < end; chunk /= 2) {
            for (size_t off = 0; off < j.streams[i].size() && wall() < end;) {
                std::vector<Job> c; std::vector<size_t> offs;
                size_t o = off;
                while (o < j.streams[i].size() && c.size() < 8) {
                    bool nz = false; size_t e = std::min(o + chunk, j.streams[i].size());
                    for (size_t k = o; k < e; ++k) nz |= j.streams[i][k] != 0;
                    if (nz) { Job t = j; for (size_t k = o; k < e; ++k) t.streams[i][k] = 0; c.push_back(t); offs.push_back(o); }
                    o = e;
                }
                off = o;
                if (c.empty()) continue;
                int w = test(c);
                if (w >= 0) { j = c[w]; off = offs[w] + chunk; }
            }
            if (chunk <= 1) break;
        }
        usedLen(j.streams[i]);
    }
    return j;
}

struct Known { std::string prop, klass, text; };
static std::vector<Known> loadKnown(const std::string &path) {
    // lines: "KNOWN-FINDING: property=<id> class=<class> <text>"
    std::vector<Known> v; std::ifstream f(path); std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 14, "KNOWN-FINDING:") != 0) continue;
        Known k; size_t a = l.find("property="), b = l.find("class=");
        if (a == std::string::npos || b == std::string::npos) continue;
        k.prop = l.substr(a + 9, l.find(' ', a) - a - 9); size_t e = l.find(' ', b); k.klass = l.substr(b + 6, e - b - 6); k.text = e == std::string::npos ? "" : l.substr(e + 1);
        v.push_back(k);
    }
    return v;
}
} // namespace sim

using namespace sim;

static bool crashClass(const std::string &k) { return k == "crash-signal" || k == "cpu-hang" || k.find("crash") != std::string::npos; }

static int replayMain(const std::string &path, bool verbose) {
    std::string prop, klass; uint64_t hash; Job j;
    if (!readReplay(path, prop, j, klass, hash)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    g_verbose = verbose;
    Result r = runOne(j);
    if (r.harness) { fprintf(stderr, "%s\n", r.msg.c_str()); return 2; }
    printf("replay %s: violated=%d class=%s hash=%llx\n%s\n", path.c_str(), r.violated, r.klass.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    if (r.violated && r.klass == klass && r.hash == hash) return 1;
    return r.violated ? 3 : 0;
}

int main(int argc, char **argv) {
    std::string prop, mods, evidence = "evidence", replay, known, scen; bool verbose = false; bool thorough = false; long long seed = 1; int runs = 0, param = 0; int only = -1; double maxWall = 1e18; int scale = 100; bool asan = false, hasAsan = false; std::string extra;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--replay") replay = nx(); else if (a == "--mods") mods = nx(); else if (a == "--evidence") evidence = nx();
        else if (a == "-v") verbose = true; else if (a == "--thorough") thorough = true; else if (a == "--seed") seed = atoll(nx().c_str());
        else if (a == "--known") known = nx(); else if (a == "--scenario") scen = nx(); else if (a == "--runs") runs = atoi(nx().c_str());
        else if (a == "--param") param = atoi(nx().c_str()); else if (a == "--only") only = atoi(nx().c_str()); else if (a == "--max-wall") maxWall = atof(nx().c_str());
        else if (a == "--scale") scale = atoi(nx().c_str());
        else if (a == "--asan") asan = true; else if (a == "--has-asan") hasAsan = true; else if (a == "--extra") extra = nx();
        else if (a == "-j") g_nslots = atoi(nx().c_str());
        else if (a == "--list") { for (auto &c : checks()) printf("%s\n", c.id); return 0; }
        else prop = a;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (hasAsan) { for (auto &c : checks()) if (prop == c.id) return c.asan.empty() ? 1 : 0; return 1; }
#ifdef __SANITIZE_ADDRESS__
    __asan_set_error_report_callback(onAsanReport);
#endif
    if (mods.empty()) { std::string self(4096, 0); ssize_t n = readlink("/proc/self/exe", &self[0], 4095); self.resize(n > 0 ? n : 0); mods = self.substr(0, self.rfind('/')); }
    preloadModules(mods, "winpty", 2); preloadModules(mods, "agent", 8); preloadModules(mods, "debugserver", 4); preloadModules(mods, "adapter", 1);
    g_slots = (Slot *)mmap(nullptr, sizeof(Slot) * (g_nslots + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!replay.empty()) return replayMain(replay, verbose);

    Check ck; bool dev = false;
    if (!scen.empty()) { ck.id = "dev"; ck.rule = ""; static std::string keep; keep = scen; ck.plans.push_back(Plan{keep.c_str(), param, runs ? runs : 100, runs ? runs : 100}); dev = true; }
    else { bool found = false; for (auto &c : checks()) if (prop == c.id) { ck = c; found = true; } if (!found) { fprintf(stderr, "unknown check %s\n", prop.c_str()); return 2; } }
    if (asan) ck.plans = ck.asan;

    double t0 = wall();
    std::vector<Job> jobs;
    {
        std::vector<std::vector<Job>> lists; size_t pi = 0;
        for (auto &p : ck.plans) {
            const Scenario *sc = findScenario(p.scenario); if (!sc) { fprintf(stderr, "no scenario %s\n", p.scenario); return 2; }
            std::vector<Job> l; int n = thorough ? p.thorough : p.quick; n = (int)((int64_t)n * scale / 100);
            for (int i = 0; i < n; ++i) { Job j; j.sc = sc; j.param = p.param; j.seed = mix(mix((uint64_t)seed, hashBytes(p.scenario, strlen(p.scenario))), (uint64_t)i * 64 + (uint64_t)p.param); l.push_back(j); }
            lists.push_back(l); ++pi;
        }
        // interleave proportionally
        std::vector<double> pos(lists.size(), 0); size_t total = 0; for (auto &l : lists) total += l.size();
        std::vector<size_t> at0(lists.size(), 0);
        for (size_t k = 0; k < total; ++k) { size_t b = 0; double bv = 1e18; for (size_t i = 0; i < lists.size(); ++i) if (at0[i] < lists[i].size()) { double v = (at0[i] + 0.5) / lists[i].size(); if (v < bv) { bv = v; b = i; } } Job j = lists[b][at0[b]++]; j.idx = (int)k; jobs.push_back(j); }
    }
    if (only >= 0) { std::vector<Job> o{jobs[only]}; jobs = o; g_verbose = verbose; }

    // aggregate
    std::map<std::string, int64_t> stats; std::vector<int64_t> faults(F_NKINDS, 0); int64_t simMs = 0, steps = 0; std::set<uint64_t> hashes, distinct, sigs; std::vector<std::string> samples; std::map<std::string, int64_t> perScenario;
    int64_t evals = 0; std::vector<Known> kn = loadKnown(known); std::set<std::string> knownHit;
    bool haveViol = false; size_t violJob = 0; Result violRes; std::string harnessMsg; size_t detChecked = 0;
    std::map<std::string, int> devClasses; std::map<std::string, std::string> devMsg; std::map<std::string, int> devIdx;
    std::map<size_t, uint64_t> detHash;
    auto isKnown = [&](const Result &r) { for (auto &k : kn) if (k.prop == ck.id && k.klass == r.klass) { knownHit.insert(k.klass); return true; } return false; };
    runJobs(jobs, [&](size_t ji, Result &r) {
        if (r.harness) { if (harnessMsg.empty()) harnessMsg = fmt("run %zu (%s seed %llu): ", ji, jobs[ji].sc->name, (unsigned long long)jobs[ji].seed) + r.msg; return false; }
        ++evals; perScenario[jobs[ji].sc->name]++;
        simMs += r.simMs; steps += r.steps; hashes.insert(r.hash);
        for (int i = 0; i < F_NKINDS; ++i) faults[i] += r.faults.empty() ? 0 : r.faults[i];
        for (auto &kv : r.stats) stats[kv.first] += kv.second;
        if (sigs.size() < 2000000) for (uint64_t h : r.sigs) sigs.insert(h);
        if (r.stats.count("nontrivial")) distinct.insert(r.hash);
        if (samples.size() < 4 && !r.sample.empty()) samples.push_back(fmt("%s/%d seed=%llu: ", jobs[ji].sc->name, jobs[ji].param, (unsigned long long)jobs[ji].seed) + r.sample);
        if (ji < 24) detHash[ji] = r.hash;
        if (r.violated) {
            if (dev) { devClasses[r.klass]++; if (!devMsg.count(r.klass)) { devMsg[r.klass] = r.msg; devIdx[r.klass] = (int)ji; } return true; }
            if (isKnown(r)) return true;
            if (asan && !crashClass(r.klass)) return true;
            if (!haveViol || ji < violJob) { haveViol = true; violJob = ji; violRes = r; }
            return false;
        }
        return true;
    }, t0 + maxWall);
    if (!harnessMsg.empty()) { fprintf(stderr, "HARNESS ERROR %s\n", harnessMsg.c_str()); return 2; }
    // determinism self-check on a sample of runs
    {
        std::vector<Job> d; std::vector<size_t> ix; for (auto &kv : detHash) { d.push_back(jobs[kv.first]); ix.push_back(kv.first); }
        bool bad = false; size_t badIx = 0;
        runJobs(d, [&](size_t i, Result &r) { ++detChecked; if (r.harness || r.hash != detHash[ix[i]]) { bad = true; badIx = ix[i]; } return true; });
        if (bad) { fprintf(stderr, "HARNESS ERROR: run %zu (%s) is not deterministic\n", badIx, jobs[badIx].sc->name); return 2; }
    }
    double tRun = wall() - t0;
    if (dev) {
        printf("runs=%lld simulated=%.1f s steps=%lld distinct=%zu nontrivial=%zu sigs=%zu wall=%.1fs (%.0f runs/s)\n", (long long)evals, simMs / 1000.0, (long long)steps, hashes.size(), distinct.size(), sigs.size(), tRun, evals / tRun);
        for (int i = 0; i < F_NKINDS; ++i) if (faults[i]) printf("  fault %s=%lld\n", kFaultNames[i], (long long)faults[i]);
        for (auto &kv : stats) printf("  stat %s=%lld\n", kv.first.c_str(), (long long)kv.second);
        for (auto &kv : devClasses) printf("  VIOL %s x%d first=%d: %s\n", kv.first.c_str(), kv.second, devIdx[kv.first], devMsg[kv.first].c_str());
        if (samples.size()) printf("  sample %s\n", samples[0].c_str());
        return devClasses.empty() ? 0 : 1;
    }
    int exitCode = 0; std::string violLine;
    if (haveViol) {
        Job j = jobs[violJob];
        // development aid: only the verdict
        if (getenv("SIM_VERDICT_ONLY")) { printf("VIOLATION property=%s class=%s run=%zu %s\n", ck.id, violRes.klass.c_str(), violJob, violRes.msg.c_str()); return 1; }
        // same seed twice
        Result a = runOne(j);
        if (!a.violated || a.hash != violRes.hash || a.klass != violRes.klass) { fprintf(stderr, "HARNESS ERROR: violation in run %zu does not repeat with the same seed (%s vs %s)\n", violJob, violRes.klass.c_str(), a.klass.c_str()); return 2; }
        std::string dir = evidence + "/replays"; mkdir(evidence.c_str(), 0777); mkdir(dir.c_str(), 0777);
        std::string path = dir + "/" + ck.id + "-" + std::to_string((unsigned long long)j.seed) + ".json";
        Job m = j; m.replay = true; for (int i = 0; i < NSTREAMS; ++i) m.streams[i] = violRes.rec[i];
        Result best = violRes;
        bool confirmed = false;
        auto confirm = [&](const Job &jj, const Result &rr) {
            writeReplay(path, ck.id, jj, rr);
            std::string self(4096, 0); ssize_t n = readlink("/proc/self/exe", &self[0], 4095); self.resize(n);
            int st = system(("'" + self + "' --mods '" + mods + "' --replay '" + path + "' >/dev/null 2>&1").c_str());
            return WIFEXITED(st) && WEXITSTATUS(st) == 1;
        };
        if (!violRes.truncated && !getenv("SIM_SEED_REPLAY")) {
            Result base = runOne(m);
            if (base.violated && base.klass == best.klass) {
                best = base;
                Job small = minimise(m, best, thorough ? 60 : 20);
                Result again = runOne(small);
                if (again.violated && again.klass == best.klass) { best = again; m = small; }
                confirmed = confirm(m, best);
            }
        }
        // A run with more choices than are recorded is replayed from its seed.
        if (!confirmed) { m = j; best = violRes; confirmed = confirm(m, best); }
        if (!confirmed) { fprintf(stderr, "HARNESS ERROR: violation %s could not be replayed in a fresh process\n", violRes.klass.c_str()); fprintf(stderr, "%s\n", violRes.msg.c_str()); return 2; }
        // schedule and fault trace of the minimised run
        {
            std::string self(4096, 0); ssize_t n = readlink("/proc/self/exe", &self[0], 4095); self.resize(n);
            int st = system(("'" + self + "' --mods '" + mods + "' -v --replay '" + path + "' 2>&1 | tail -n 3000 > '" + path + ".trace'").c_str()); (void)st;
        }
        printf("violation class: %s\n%s\n", best.klass.c_str(), best.msg.c_str());
        printf("seed %llu scenario %s param %d, minimised to %zu/%zu/%zu choices\n", (unsigned long long)j.seed, j.sc->name, j.param, m.streams[0].size(), m.streams[1].size(), m.streams[2].size());
        violLine = fmt("VIOLATION property=%s replay=%s", ck.id, path.c_str());
        exitCode = 1;
    }
    double total = wall() - t0;
    std::string extraText;
    if (!extra.empty()) { std::ifstream f(extra); std::stringstream ss; ss << f.rdbuf(); extraText = ss.str(); while (!extraText.empty() && isspace((unsigned char)extraText.back())) extraText.pop_back(); }
    mkdir(evidence.c_str(), 0777);
    {
        std::ofstream f(evidence + "/" + ck.id + ".json");
        f << "{\"property\": " << jstr(ck.id) << ", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n\"coverage\": {\n"
          << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(ck.rule)
          << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << jstr(samples[i]);
        f << "],\n  \"simulated_runs\": " << evals << ",\n  \"seeds_per_hour\": " << (int64_t)(evals / std::max(0.001, tRun) * 3600)
          << ",\n  \"simulated_seconds\": " << simMs / 1000 << ",\n  \"scheduler_steps\": " << steps
          << ",\n  \"distinct_schedules\": " << hashes.size() << ",\n  \"distinct_states\": " << sigs.size()
          << ",\n  \"state_measure\": \"distinct hashes of (console contents, emulator state, session phase) sampled at quiescent points\""
          << ",\n  \"determinism_rechecks\": " << detChecked << ",\n  \"runs_per_scenario\": {";
        bool first = true; for (auto &kv : perScenario) { f << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; }
        f << "},\n  \"faults_injected\": {"; first = true;
        for (int i = 0; i < F_NKINDS; ++i) if (faults[i]) { f << (first ? "" : ", ") << jstr(kFaultNames[i]) << ": " << faults[i]; first = false; }
        f << "},\n  \"probes\": {"; first = true;
        for (auto &kv : stats) { f << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; }
        f << "},\n" << (extraText.empty() ? std::string() : "  \"address_sanitizer_pass\": " + extraText + ",\n") << "  \"real_code\": \"agent, libwinpty, debug server, unix adapter sources of /repo\", \"stubbed\": \"Win32 kernel, console host, terminal, console programs, Cygwin POSIX layer\"\n},\n"
          << "\"assumptions\": [\"the simulated Win32 kernel, console and terminal behave like the real ones in the aspects modelled (DESIGN.md)\"],\n\"wall_s\": " << total << ", \"violations\": " << (haveViol ? 1 : 0) << "}\n";
    }
    for (auto &k : kn) if (k.prop == ck.id) printf("KNOWN-FINDING: property=%s %s\n", k.prop.c_str(), k.text.c_str());
    if (exitCode) { printf("%s\n", violLine.c_str()); return 1; }
    printf("property %s held: %lld runs, %zu distinct non-trivial, %.0f simulated s, %.1f s wall\n", ck.id, (long long)evals, distinct.size(), simMs / 1000.0, total);
    return 0;
}
