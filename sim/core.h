// Deterministic simulation core: choice streams, virtual clock, fibers,
// scheduler, event log.  One simulated run lives in one forked OS process and
// uses exactly one OS thread.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <deque>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { GEN = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };

struct Rng {
    uint64_t s[2];
    void seed(uint64_t x);
    uint64_t next();
};

struct Choices {
    bool replay = false;
    std::vector<uint32_t> in[NSTREAMS];
    std::vector<uint32_t> rec[NSTREAMS];
    size_t pos[NSTREAMS] = {0, 0, 0};
    Rng rng[NSTREAMS];
};
extern Choices g_choices;

// Returns 0..n-1.  Zero is always the benign default.
uint32_t choose(Stream st, uint32_t n);
inline int range(Stream st, int a, int b) { return a + (int)choose(st, (uint32_t)(b - a + 1)); }
// True with probability num/den.  (Default: false.)
inline bool chance(Stream st, uint32_t num, uint32_t den) {
    return num != 0 && choose(st, den) >= den - num;
}

// ---------------------------------------------------------------- fault kinds
enum FaultKind {
    F_STALL,            // a thread is not scheduled for a while
    F_PROC_CRASH,       // a process is killed at an arbitrary API call
    F_IO_DELAY,         // overlapped I/O completes late
    F_IO_FRAGMENT,      // a pipe read returns a shorter piece
    F_PIPE_BREAK,       // pipe broken at arbitrary point
    F_ALLOC_FAIL,       // operator new fails
    F_SYSCALL_FAIL,     // a Win32 call fails with a plausible error
    F_CLOCK_JUMP,       // tick counter jumps / wraps
    F_CANCEL_RACE,      // CancelIo loses the race to completion
    F_PIPE_SQUAT,       // a foreign process interferes with a pipe name
    F_CREATEPROCESS_FAIL,
    F_SLOW_READER,      // terminal/client stops reading for a while
    F_CLIENT_CRASH,     // client dies
    F_DISCONNECT,       // one data pipe is closed by the peer
    F_AGENT_BADREPLY,   // malformed / truncated reply on the control pipe
    F_EINTR,            // signal delivery interrupts a syscall
    F_SHORT_IO,         // posix short read/write
    F_CONSOLE_RACE,     // console application acts between two agent calls
    F_TTY_ERROR,
    F_NKINDS
};
extern const char *const kFaultNames[F_NKINDS];

// ---------------------------------------------------------------- fibers
struct Process;
struct Fiber {
    int id;
    std::string name;
    Process *proc = nullptr;
    uint32_t tid = 0;
    void *sp = nullptr;
    char *stack = nullptr;
    size_t stackSize = 0;
    std::function<void()> fn;
    enum State { Ready, Blocked, Dead } state = Ready;
    std::function<bool()> pred;
    int64_t deadline = -1;        // -1: none
    bool timedOut = false;
    int64_t stalledUntil = 0;
    uint32_t lastError = 0;
    uint32_t ehState[4] = {0, 0, 0, 0};   // __cxa_eh_globals
    int savedErrno = 0;
    void *asanFake = nullptr;
    const char *where = "";
    bool daemon = false;          // does not keep the run alive
    bool allocFaults = false;
    int noYield = 0;
    int64_t sigPending = 0;
};

extern Fiber *g_cur;               // null while in the scheduler
extern int64_t g_now;              // virtual ms
extern uint64_t g_steps;

Fiber *spawnFiber(Process *p, const std::string &name, std::function<void()> fn);
// Block the current fiber until pred() or the deadline.  Returns true if pred.
bool blockUntil(const char *where, std::function<bool()> pred, int64_t deadline = -1);
void sleepFor(int64_t ms);
void yieldNow(const char *where);
// A possible preemption point.
void maybeYield(const char *where);
void killFiber(Fiber *f);                  // never returns if f is current
[[noreturn]] void fiberExit();
// Timed kernel events.
void at(int64_t when, std::function<void()> fn);

struct SchedConfig {
    uint32_t preemptGap = 40;     // mean distance between preemptions (0: none)
    uint32_t stallRate = 0;       // per mille of scheduling decisions
    int stallMax = 200;
    int64_t maxTime = 600000;
    uint64_t maxSteps = 3000000;
    int apiCallsPerMs = 400;      // CPU time model
};
extern SchedConfig g_sched;

// Runs until rootDone or limits.  Returns empty string or reason.
void runScheduler();
extern bool g_stopRun;
extern std::vector<Fiber *> g_fibers;

// ---------------------------------------------------------------- log
void ev(const char *tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
void evs(const char *tag, const std::string &s, int64_t a = 0);
extern uint64_t g_hash;
extern bool g_verbose;
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- verdicts
struct Verdict {
    bool violated = false;
    std::string klass;    // short stable class used by the minimiser
    std::string msg;
};
extern Verdict g_verdict;
// Records the first violation and stops the run (does not return if called in
// a fiber).
void violate(const std::string &klass, const std::string &msg);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
extern std::map<std::string, int64_t> g_stats;
inline void stat(const char *k, int64_t n = 1) { g_stats[k] += n; }
extern int64_t g_faultCounts[F_NKINDS];
inline void countFault(FaultKind k) { g_faultCounts[k]++; }
// Non-trivial state signature set for the coverage measure.
void stateSig(uint64_t h);
extern std::set<uint64_t> g_sigs;

// Fault plans: "gap" style injection.
struct FaultPlan { uint32_t maxGap = 0; int64_t left = -2; int budget = 1000000; };
extern FaultPlan g_plan[F_NKINDS];
void planFault(FaultKind k, uint32_t maxGap, int budget);
bool faultHere(FaultKind k);      // counts when it fires

// Allocation failure injection.
extern int64_t g_allocCountdown;  // <0: off
extern bool g_allocPersist;       // every later allocation fails as well
extern bool g_bbPreempt; extern uint32_t g_bbGap;   // basic-block preemption
extern size_t g_allocCap;

std::string hexdump(const std::string &s, size_t max = 120);
uint64_t mix(uint64_t h, uint64_t v);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

} // namespace sim
