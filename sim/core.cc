#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <exception>
#include <cxxabi.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#endif

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim {

Choices g_choices;
Fiber *g_cur = nullptr;
int64_t g_now = 0;
uint64_t g_steps = 0;
SchedConfig g_sched;
bool g_stopRun = false;
std::vector<Fiber *> g_fibers;
uint64_t g_hash = 0xcbf29ce484222325ull;
bool g_verbose = false;
Verdict g_verdict;
std::map<std::string, int64_t> g_stats;
int64_t g_faultCounts[F_NKINDS];
std::set<uint64_t> g_sigs;
FaultPlan g_plan[F_NKINDS];
int64_t g_allocCountdown = -1;
bool g_allocPersist = false;

const char *const kFaultNames[F_NKINDS] = {
    "thread_stall", "process_crash", "io_delay", "io_fragment", "pipe_break",
    "alloc_fail", "syscall_fail", "clock_wrap", "cancel_race", "pipe_squat",
    "createprocess_fail", "slow_reader", "client_crash", "peer_disconnect",
    "bad_reply", "eintr", "short_io", "console_race", "tty_error",
};

void Rng::seed(uint64_t x) {
    auto sm = [&x]() {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    };
    s[0] = sm(); s[1] = sm();
}
uint64_t Rng::next() {
    uint64_t s1 = s[0]; const uint64_t s0 = s[1];
    const uint64_t r = s0 + s1;
    s[0] = s0; s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}

uint32_t choose(Stream st, uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    auto &c = g_choices;
    if (c.replay) {
        v = c.pos[st] < c.in[st].size() ? c.in[st][c.pos[st]] % n : 0;
        c.pos[st]++;
    } else {
        v = (uint32_t)((c.rng[st].next() >> 16) % n);
    }
    c.rec[st].push_back(v);
    return v;
}

uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}

void stateSig(uint64_t h) { if (g_sigs.size() < 4096) g_sigs.insert(h); }

std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

void logf(const char *f, ...) {
    if (!g_verbose) return;
    fprintf(stderr, "[%8lld %-14s] ", (long long)g_now, g_cur ? g_cur->name.c_str() : "-");
    va_list ap; va_start(ap, f);
    vfprintf(stderr, f, ap);
    va_end(ap);
    fputc('\n', stderr);
}

void ev(const char *tag, int64_t a, int64_t b, int64_t c) {
    uint64_t h = g_hash;
    h = hashBytes(tag, strlen(tag), h);
    h = mix(h, (uint64_t)g_now);
    h = mix(h, g_cur ? g_cur->id : 0xffff);
    h = mix(h, (uint64_t)a); h = mix(h, (uint64_t)b); h = mix(h, (uint64_t)c);
    g_hash = h;
    if (g_verbose) logf("%s %lld %lld %lld", tag, (long long)a, (long long)b, (long long)c);
}
void evs(const char *tag, const std::string &s, int64_t a) {
    g_hash = hashBytes(s.data(), s.size(), g_hash);
    ev(tag, a, (int64_t)s.size());
    if (g_verbose) logf("   %s", hexdump(s, 400).c_str());
}

std::string hexdump(const std::string &s, size_t max) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c == '\\') r += "\\\\";
        else if (c >= 0x20 && c < 0x7f) r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    if (s.size() > max) r += "...";
    return r;
}

void violate(const std::string &klass, const std::string &msg) {
    if (!g_verdict.violated) {
        g_verdict.violated = true;
        g_verdict.klass = klass;
        g_verdict.msg = msg;
        logf("VIOLATION [%s] %s", klass.c_str(), msg.c_str());
    }
    g_stopRun = true;
    if (g_cur) {
        for (;;) yieldNow("violated");
    }
}

// ---------------------------------------------------------------- faults
void planFault(FaultKind k, uint32_t maxGap, int budget) {
    g_plan[k].maxGap = maxGap;
    g_plan[k].left = -2;
    g_plan[k].budget = budget;
}
bool faultHere(FaultKind k) {
    FaultPlan &p = g_plan[k];
    if (p.maxGap == 0 || p.budget <= 0) return false;
    if (p.left == -2) {
        uint32_t v = choose(FAULT, p.maxGap + 1);
        p.left = v == 0 ? (int64_t)p.maxGap * 50 : v;
    }
    if (--p.left > 0) return false;
    p.left = -2;
    p.budget--;
    countFault(k);
    if (g_verbose) logf("FAULT %s", kFaultNames[k]);
    return true;
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **saveSp, void *newSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_fiber_start
.type sim_fiber_start,@function
sim_fiber_start:
    xorl %ebp, %ebp
    andq $-16, %rsp
    pushq $0
    pushq $0
    call sim_fiber_main
    hlt
.size sim_fiber_start,.-sim_fiber_start
)");
extern "C" void sim_fiber_start();

static void *g_schedSp;
static void *g_schedFake;
static const void *g_schedStack; static size_t g_schedStackSize;

static void saveEh(Fiber *f) { memcpy(f->ehState, __cxxabiv1::__cxa_get_globals(), 16); }
static void loadEh(const uint32_t *s) { memcpy((void *)__cxxabiv1::__cxa_get_globals(), s, 16); }

static void toScheduler(bool dying = false) {
    Fiber *f = g_cur;
    saveEh(f);
    f->savedErrno = errno;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &f->asanFake, g_schedStack, g_schedStackSize);
#endif
    sim_switch(&f->sp, g_schedSp);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(f->asanFake, nullptr, nullptr);
#endif
    loadEh(f->ehState);
    errno = f->savedErrno;
}

static void toFiber(Fiber *f) {
    static uint32_t schedEh[4];
    memcpy(schedEh, __cxxabiv1::__cxa_get_globals(), 16);
    g_cur = f;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&g_schedFake, f->stack, f->stackSize);
#endif
    sim_switch(&g_schedSp, f->sp);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(g_schedFake, nullptr, nullptr);
#endif
    g_cur = nullptr;
    loadEh(schedEh);
}

extern "C" void sim_fiber_main() {
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &g_schedStack, &g_schedStackSize);
#endif
    static const uint32_t zero[4] = {0, 0, 0, 0};
    loadEh(zero);
    g_cur->fn();
    fiberExit();
}

void fiberExit() {
    g_cur->state = Fiber::Dead;
    toScheduler(true);
    abort();
}

Fiber *spawnFiber(Process *p, const std::string &name, std::function<void()> fn) {
    static int nextId = 1;
    Fiber *f = new Fiber();
    f->id = nextId++;
    f->name = name;
    f->proc = p;
    f->tid = 1000 + f->id * 4;
#ifdef SIM_ASAN
    f->stackSize = 2 << 20;
#else
    f->stackSize = 1 << 20;
#endif
    f->stack = (char *)mmap(nullptr, f->stackSize, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    f->fn = std::move(fn);
    void **top = (void **)(f->stack + f->stackSize - 64);
    *--top = nullptr;
    *--top = (void *)&sim_fiber_start;
    for (int i = 0; i < 6; ++i) *--top = nullptr;
    f->sp = top;
    g_fibers.push_back(f);
    return f;
}

void killFiber(Fiber *f) {
    f->state = Fiber::Dead;
    if (f == g_cur) { toScheduler(true); abort(); }
}

bool blockUntil(const char *where, std::function<bool()> pred, int64_t deadline) {
    Fiber *f = g_cur;
    f->where = where;
    f->pred = std::move(pred);
    f->deadline = deadline;
    f->timedOut = false;
    f->state = Fiber::Blocked;
    toScheduler();
    f->pred = nullptr;
    return !f->timedOut;
}

void sleepFor(int64_t ms) {
    if (ms <= 0) { yieldNow("sleep0"); return; }
    blockUntil("sleep", [] { return false; }, g_now + ms);
}

void yieldNow(const char *where) {
    g_cur->where = where;
    g_cur->state = Fiber::Ready;
    toScheduler();
}

static int64_t g_preemptLeft = -1;
static int64_t g_cpuCalls = 0;
static int64_t g_cpuDebt = 0;

void maybeYield(const char *where) {
    if (!g_cur || g_cur->noYield) return;
    g_cur->where = where;
    if (++g_cpuCalls >= g_sched.apiCallsPerMs) { g_cpuCalls = 0; g_cpuDebt++; yieldNow(where); return; }
    if (g_sched.preemptGap == 0) return;
    if (g_preemptLeft < 0) {
        uint32_t v = choose(SCHED, 2 * g_sched.preemptGap);
        g_preemptLeft = v == 0 ? 20 * g_sched.preemptGap : v;
    }
    if (g_preemptLeft-- > 0) return;
    g_preemptLeft = -1;
    yieldNow(where);
}

struct TimedEvent { int64_t when; uint64_t seq; std::function<void()> fn; };
static std::vector<TimedEvent> g_events;
static uint64_t g_evSeq = 0;
void at(int64_t when, std::function<void()> fn) {
    g_events.push_back(TimedEvent{when, g_evSeq++, std::move(fn)});
}

void runScheduler() {
    g_stopRun = false;
    size_t rr = 0;
    int64_t lastProgressTime = g_now; uint64_t stepsAtTime = 0;
    std::vector<Fiber *> ready;
    while (!g_stopRun) {
        if (++g_steps > g_sched.maxSteps) {
            violate("livelock", fmt("step limit reached at virtual time %lld ms", (long long)g_now));
            return;
        }
        if (g_cpuDebt) { g_now += g_cpuDebt; g_cpuDebt = 0; }
        if (g_now != lastProgressTime) { lastProgressTime = g_now; stepsAtTime = g_steps; }
        if (g_steps - stepsAtTime > 400000) {
            violate("livelock", fmt("no virtual time progress at %lld ms", (long long)g_now));
            return;
        }
        if (g_now > g_sched.maxTime) {
            violate("time-limit", fmt("virtual time limit %lld ms reached", (long long)g_sched.maxTime));
            return;
        }
        // ready set: due events (by seq) then fibers (round robin order)
        ready.clear();
        int nEv = 0; int evIdx[8];
        int64_t minTime = -1;
        auto upd = [&](int64_t t) { if (t >= 0 && (minTime < 0 || t < minTime)) minTime = t; };
        for (size_t i = 0; i < g_events.size(); ++i) {
            if (g_events[i].when <= g_now) { if (nEv < 8) evIdx[nEv++] = (int)i; }
            else upd(g_events[i].when);
        }
        size_t n = g_fibers.size();
        bool anyLive = false;
        for (size_t k = 0; k < n; ++k) {
            Fiber *f = g_fibers[(rr + k) % n];
            if (f->state == Fiber::Dead) continue;
            if (!f->daemon) anyLive = true;
            if (f->stalledUntil > g_now) { upd(f->stalledUntil); continue; }
            if (f->state == Fiber::Blocked) {
                if (f->pred && f->pred()) { f->timedOut = false; ready.push_back(f); }
                else if (f->deadline >= 0 && f->deadline <= g_now) { f->timedOut = true; ready.push_back(f); }
                else upd(f->deadline);
            } else ready.push_back(f);
        }
        (void)anyLive;
        size_t total = ready.size() + nEv;
        if (total == 0) {
            if (minTime < 0) { return; } // quiescent for ever: the caller decides
            g_now = minTime > g_now ? minTime : g_now;
            continue;
        }
        uint32_t pick = g_sched.preemptGap ? choose(SCHED, (uint32_t)total) : 0;
        if ((int)pick < nEv) {
            int idx = evIdx[pick];
            auto fn = std::move(g_events[idx].fn);
            g_events.erase(g_events.begin() + idx);
            fn();
            continue;
        }
        Fiber *f = ready[pick - nEv];
        if (g_sched.stallRate && f->proc && chance(FAULT, g_sched.stallRate, 1000)) {
            f->stalledUntil = g_now + 1 + choose(FAULT, g_sched.stallMax);
            countFault(F_STALL);
            if (g_verbose) logf("stall %s until %lld", f->name.c_str(), (long long)f->stalledUntil);
            continue;
        }
        for (size_t k = 0; k < n; ++k) if (g_fibers[k] == f) { rr = (k + 1) % n; break; }
        f->state = Fiber::Ready;
        toFiber(f);
        if (f->state == Fiber::Dead && f->stack) {
            munmap(f->stack, f->stackSize);
            f->stack = nullptr;
            for (size_t k = 0; k < g_fibers.size(); ++k)
                if (g_fibers[k] == f) { g_fibers.erase(g_fibers.begin() + k); break; }
        }
    }
}

} // namespace sim
