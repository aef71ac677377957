// C26: the debug server and tracing.
#include "libtools.h"
#include "rows.h"
#include <functional>

namespace {
const ustr kDbgPipe = u"\\\\.\\pipe\\DebugServer";

struct TraceWorld {
    Harness &h; ProcP srv; int started = 0; bool everyone = false; int64_t upSince = -1;
    std::vector<ProcP> servers;
    struct Msg { std::string text; Process *from; int64_t t0; bool fromModule; };
    std::vector<Msg> sent; std::vector<std::string> acked;
    std::map<Process *, std::pair<int, int64_t>> open;      // transactions in flight: server generation at the start
    int unacked = 0; std::set<Process *> modules;
    // last error preservation
    struct Saved { uint32_t err; }; std::map<Fiber *, Saved> saved; int64_t preserved = 0;
    explicit TraceWorld(Harness &hh) : h(hh) {
        h.w.onTransact = [this](Process *p, const std::string &m, bool ok, const std::string *rep) {
            if (!rep) { sent.push_back(Msg{m, p, g_now, isModule(p)}); return; }
            if (ok && *rep == "OK") { acked.push_back(m); wanted.erase(g_cur); }
            else { unacked++; if (ok) violate("bad-ack", "a trace client got the answer '" + hexdump(*rep) + "'"); }
        };
        h.w.onOpenName = [this](Process *p, const ustr &n) {
            if (n == kDbgPipe && isModule(p)) dials++;
            if (n != kDbgPipe) watchLastError(p, "CreateFileW(other)");
            else if (isModule(p) && up() && findPipe(kDbgPipe, false) && !wanted.count(g_cur)) wanted[g_cur] = started;
        };
        h.w.onApi = [this](Process *p, const char *api) { watchLastError(p, api); };
        h.w.onPipeOpen = [this](const ustr &n, std::shared_ptr<PipeServer>, std::shared_ptr<PipeClient> c, uint32_t, uint32_t flags) {
            if (n != kDbgPipe || !isModule(c->owner)) return;
            // Whoever runs the debug server must not be able to act as the traced program.
            if (!(flags & SECURITY_SQOS_PRESENT) || (flags & 0x30000) > (uint32_t)SECURITY_IDENTIFICATION) violate("impersonation", "a traced program lets the debug server impersonate it");
        };
    }
    bool isModule(Process *p) { return p && (p->kind == "agent" || p->kind == "client"); }
    // a traced program that reached for the running server gets its message through
    std::map<Fiber *, int> wanted; int dials = 0;
    void watchLastError(Process *p, const char *api) {
        if (!isModule(p) || !g_cur) return;
        std::string a = api;
        auto it = saved.find(g_cur);
        static const std::set<std::string> inTrace = {"GetModuleFileNameA", "CreateFileW", "WaitNamedPipeW", "SetNamedPipeHandleState", "TransactNamedPipe", "CloseHandle", "GetCurrentProcessId", "GetCurrentThreadId", "GetModuleFileNameW", "GetTickCount"};
        if (it != saved.end()) {
            if (!inTrace.count(a) || a == "GetModuleFileNameA") {
                auto w = wanted.find(g_cur);
                if (w != wanted.end()) { if (up() && w->second == started) violate("trace-lost", "a trace message was dropped although the debug server was running"); wanted.erase(w); }
                uint32_t e = it->second.err; saved.erase(it);
                if (g_cur->lastError != e) violate("last-error", fmt("a trace call changed the last error of its thread from %u to %u (seen at %s)", e, g_cur->lastError, api));
                preserved++;
            }
        }
        if (a == "GetModuleFileNameA") saved[g_cur] = Saved{g_cur->lastError};
    }
    // the server started with any arguments
    ProcP startWith(std::vector<std::string> args) {
        Module *m = takeModule("debugserver"); if (!m) harnessError("out of debugserver modules");
        ProcP q = newProcess("winpty-debugserver", nullptr); q->stdoutBuffered = true; q->mod = m; Process *p = q.get();
        auto entry = (int (*)(int, char **))m->sym("entry");
        auto keep = std::make_shared<std::vector<std::string>>(args); keep->insert(keep->begin(), "winpty-debugserver");
        spawnThread(p, "debugserver", [entry, p, keep] {
            std::vector<char *> argv; for (auto &a : *keep) argv.push_back(&a[0]); argv.push_back(nullptr);
            int rc = entry((int)keep->size(), argv.data()); flushStdout(p); processExit(p, (uint32_t)rc); fiberExit();
        });
        return q;
    }
    void start() {
        Module *m = takeModule("debugserver"); if (!m) harnessError("out of debugserver modules");
        srv = newProcess("winpty-debugserver", nullptr); srv->stdoutBuffered = true; srv->mod = m; started++; servers.push_back(srv); upSince = g_now;
        auto entry = (int (*)(int, char **))m->sym("entry"); Process *p = srv.get(); bool ev1 = everyone;
        spawnThread(p, "debugserver", [entry, p, ev1] {
            static char a0[] = "winpty-debugserver", a1[] = "--everyone"; char *argv[] = {a0, ev1 ? a1 : nullptr, nullptr};
            int rc = entry(ev1 ? 2 : 1, argv); flushStdout(p); processExit(p, (uint32_t)rc); fiberExit();
        });
    }
    bool up() { return srv && !srv->exited; }
    void kill() { if (up()) { countFault(F_PROC_CRASH); processExit(srv.get(), 1); srv->detached = true; } }
    void checkAlive() { if (srv && srv->exited && !srv->detached) violate("server-exited", "the debug server ended by itself: " + srv->err); }
    // An honest client, as any traced program.
    bool honest(Process *p, const std::string &msg) {
        (void)p; HANDLE t;
        do { t = CreateFileW(W(kDbgPipe), GENERIC_READ | GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, 0, nullptr); }
        while (t == INVALID_HANDLE_VALUE && GetLastError() == ERROR_PIPE_BUSY && WaitNamedPipeW(W(kDbgPipe), NMPWAIT_WAIT_FOREVER));
        if (t == INVALID_HANDLE_VALUE) return false;
        DWORD mode = PIPE_READMODE_MESSAGE; SetNamedPipeHandleState(t, &mode, nullptr, nullptr);
        char resp[16]; DWORD got = 0; bool ok = TransactNamedPipe(t, (void *)msg.data(), (DWORD)msg.size(), resp, sizeof resp, &got, nullptr) && got == 2 && !memcmp(resp, "OK", 2);
        CloseHandle(t); return ok;
    }
    static void split(const std::string &s, std::vector<std::string> &v) { size_t i = 0; for (;;) { size_t j = s.find('\n', i); if (j == std::string::npos) { v.push_back(s.substr(i)); return; } v.push_back(s.substr(i, j - i)); i = j + 1; } }
    void judge(const std::vector<std::string> &extra) {
        checkAlive();
        std::map<std::string, int> may, must, got;
        for (auto &m : sent) { std::vector<std::string> v; split(m.text, v); for (auto &l : v) may[l]++; }
        for (auto &m : extra) { std::vector<std::string> v; split(m, v); for (auto &l : v) may[l]++; }
        for (auto &m : acked) { std::vector<std::string> v; split(m, v); for (auto &l : v) must[l]++; }
        int lines = 0;
        for (auto &s : servers) {
            if (s->out.empty()) continue;
            if (s->out.back() != '\n') violate("torn-line", "the debug server's output does not end with a complete line");
            std::vector<std::string> v; split(s->out.substr(0, s->out.size() - 1), v);
            for (auto &l : v) { lines++; if (++got[l] > may[l]) violate("bad-line", "the debug server printed a line nobody sent (or printed it twice): " + hexdump(l, 200)); }
        }
        for (auto &kv : must) if (got[kv.first] < kv.second) violate("lost-message", "a message the debug server acknowledged was not printed: " + hexdump(kv.first, 200));
        for (auto &m : sent) if (m.fromModule) {
            // [sssss.mmm module,pPPPP,tTTTT]: text
            const std::string &t = m.text; std::string base = m.from->kind == "agent" ? "winpty-agent.exe" : "winpty.dll"; int sec = 0, ms = 0, used = 0; unsigned pid = 0, tid = 0; char mod[64] = "";
            if (t.size() > 1023) violate("trace-format", "an overlong trace message was sent");
            if (sscanf(t.c_str(), "[%5d.%3d %63[^,],p%u,t%u]: %n", &sec, &ms, mod, &pid, &tid, &used) != 5 || !used || base != mod || pid != m.from->pid) violate("trace-format", "a trace message does not identify its sender: " + hexdump(t, 200));
            int64_t now = (int64_t)((131000000000000000ull + (uint64_t)m.t0 * 10000) / 10000 - 134774ull * 24 * 3600 * 1000) % 100000000;
            int64_t age = (now - (sec * 1000ll + ms) + 100000000) % 100000000;
            if (age > 120000) violate("trace-format", fmt("a trace message carries a time %lld ms off", (long long)age));
        }
        stat("lines", lines); stat("acked", (int64_t)acked.size()); stat("unacked", unacked); stat("preserved", preserved);
    }
};
std::string randMsg() {
    static const int lens[] = {1, 10, 100, 1023, 4096, 4095, 4097, 5000, 0};
    int n = lens[choose(GEN, 9)]; if (choose(GEN, 2)) n = n ? 1 + (int)choose(GEN, n) : 0;
    std::string s; uint32_t z = choose(GEN, 65536); int style = choose(GEN, 4);
    for (int i = 0; i < n; ++i) { z = z * 1103515245u + 12345u; s.push_back(style == 0 ? (char)(z >> 16) : (char)('a' + (z >> 16) % 26)); }
    return s;
}
// A client of the debug server that behaves in one of many ways.
void oddClient(TraceWorld &tw, std::vector<std::string> &extra, Process *p, int hold) {
    int kind = choose(GEN, 9);
    HANDLE t = INVALID_HANDLE_VALUE;
    auto dial = [&](DWORD acc) { for (int i = 0; i < 200 && t == INVALID_HANDLE_VALUE && !g_stopRun; ++i) { t = CreateFileW(W(kDbgPipe), acc, 0, nullptr, OPEN_EXISTING, 0, nullptr); if (t == INVALID_HANDLE_VALUE) sleepFor(1); } return t != INVALID_HANDLE_VALUE; };
    auto put = [&](const std::string &m) { extra.push_back(m); DWORD w = 0; WriteFile(t, m.data(), (DWORD)m.size(), &w, nullptr); };
    DWORD acc = kind == 6 ? GENERIC_READ : kind == 7 ? GENERIC_WRITE : GENERIC_READ | GENERIC_WRITE;
    if (kind == 8) { WaitNamedPipeW(W(kDbgPipe), 1 + choose(GEN, 50)); return; }
    if (!dial(acc)) return;
    countFault(F_DISCONNECT);
    switch (kind) {
    case 0: break;                                                          // hangs up at once
    case 1: case 6: sleepFor(choose(GEN, hold + 1)); break;                 // hangs up later
    case 2: sleepFor(choose(GEN, hold + 1)); countFault(F_PROC_CRASH); processExit(p, 0xC0000005, false); fiberExit(); break;
    case 3: case 7: put(randMsg()); if (choose(GEN, 2)) sleepFor(choose(GEN, 10)); break;   // sends and hangs up
    case 4: { int n = range(GEN, 2, 4); for (int i = 0; i < n; ++i) put(randMsg()); if (choose(GEN, 2)) sleepFor(choose(GEN, 10)); break; }
    case 5: put(randMsg()); countFault(F_PROC_CRASH); processExit(p, 0xC0000005, false); fiberExit(); break;
    }
    CloseHandle(t);
    (void)tw;
}
}

// Who may send what to the server, its command line, a second server, and
// sessions that do not ask for tracing.
void accessRun(Rig &rig, TraceWorld &tw) {
    Harness &h = rig.h;
    int kind = choose(GEN, 4);
    auto fresh = [&](bool foreign) { ProcP p = newProcess("tracer", nullptr); p->label = "tracer"; if (foreign) p->user = "S-1-5-21-2000"; return p; };
    auto runAs = [&](ProcP p, std::function<void()> f) {
        bool fin = false; Process *pp = p.get();
        spawnThread(pp, "tracer", [&, pp, f] { f(); fin = true; processExit(pp, 0); fiberExit(); });
        if (!waitFor("tracer", [&] { return fin; }, 60000)) { tw.checkAlive(); violate("clients-stuck", "a trace client is still blocked after a minute"); }
    };
    auto serverUp = [&] { if (!waitFor("server", [&] { return findPipe(kDbgPipe, false) != nullptr || (tw.srv && tw.srv->exited); }, 5000 + 5 * g_sched.stallMax)) violate("no-server", "the debug server did not create its pipe"); tw.checkAlive(); };
    std::vector<std::string> extra; extra.reserve(64);
    auto expectServed = [&](bool foreign, bool want, const std::string &msg) {
        if (want) extra.push_back(msg);
        bool ok = false; runAs(fresh(foreign), [&] { ok = tw.honest(nullptr, msg); });
        if (ok != want) violate(want ? "not-served" : "foreign-accepted", fmt("a trace client of %s user was %s by a server started %s --everyone", foreign ? "another" : "the same", ok ? "served" : "refused", tw.everyone ? "with" : "without"));
        if (want != (tw.srv->out.find(msg + "\n") != std::string::npos)) violate(want ? "lost-message" : "foreign-accepted", "the server " + std::string(want ? "did not print" : "printed") + " the message of a client that it " + (want ? "acknowledged" : "had to refuse"));
    };
    auto served = [&] {
        int n = range(GEN, 1, 4);
        for (int i = 0; i < n; ++i) { bool f = choose(GEN, 2); expectServed(f, !f || tw.everyone, fmt("message %d", i) + std::string(choose(GEN, 60), '.')); }
        // nobody else can put up a server of that name next to it
        bool got = false; bool foreign = choose(GEN, 2);
        runAs(fresh(foreign), [&] { HANDLE x = CreateNamedPipeW(W(kDbgPipe), PIPE_ACCESS_DUPLEX, PIPE_TYPE_MESSAGE | PIPE_READMODE_MESSAGE, 1 + choose(GEN, 3), 100, 100, 0, nullptr); got = x != INVALID_HANDLE_VALUE; if (got) CloseHandle(x); });
        if (got) violate("second-server", "another process created a second instance of the debug server's pipe");
        if (auto s = findPipe(kDbgPipe, false)) {
            for (auto &e : s->acl) if (e.first == "S-1-1-0" && (e.second & (GENERIC_ALL | GENERIC_WRITE | WRITE_DAC | WRITE_OWNER | DELETE | FILE_APPEND_DATA))) violate("acl-too-wide", fmt("everybody is granted 0x%x on the debug server's pipe", e.second));
            if (h.w.cfg.winver >= 6 && !(s->pipeMode & PIPE_REJECT_REMOTE_CLIENTS)) violate("remote-clients", "the debug server's pipe accepts remote clients");
        }
        for (int i = 0; i < 2; ++i) expectServed(false, true, fmt("own message %d", i));
        tw.checkAlive();
        for (auto &m : extra) if (tw.srv->out.find(m + "\n") == std::string::npos) violate("lost-message", "an acknowledged message was not printed");
    };
    if (kind == 0) { tw.start(); serverUp(); served(); }
    else if (kind == 1) {
        // arguments
        static const char *const good[] = {"--everyone"}, *const help[] = {"-h", "--help"}, *const bad[] = {"bogus", "", "--Everyone", "--everyone=1", "-e", "everyone", "--"};
        std::vector<std::string> args; int code = -1; int n = choose(GEN, 4); bool ev = false;
        for (int i = 0; i < n; ++i) switch (choose(GEN, 3)) {
            case 0: args.push_back(good[0]); if (code < 0) ev = true; break;
            case 1: args.push_back(help[choose(GEN, 2)]); if (code < 0) code = 0; break;
            case 2: args.push_back(bad[choose(GEN, 7)]); if (code < 0) code = 1; break;
        }
        ProcP q = tw.startWith(args); tw.everyone = ev;
        if (code >= 0) {
            if (!waitFor("usage", [&] { return q->exited || findPipe(kDbgPipe, false) != nullptr; }, 5000 + 5 * g_sched.stallMax)) violate("no-usage", "the debug server neither ended nor served");
            std::string a; for (auto &x : args) a += " '" + x + "'";
            if (!q->exited) violate("bad-argument-accepted", "the debug server started although its arguments were" + a);
            if (q->exitCode != (uint32_t)code) violate("usage-status", fmt("with the arguments%s the debug server ended with status %u instead of %d", a.c_str(), q->exitCode, code));
            if (q->out.find("Usage: winpty-debugserver [--everyone]\n") != 0) violate("no-usage", "the debug server ended without printing its usage");
        } else { tw.srv = q; tw.servers.push_back(q); tw.started++; serverUp(); served(); }
        nontrivial(); stateSig(mix(hashBytes(q->out.data(), q->out.size()), (uint64_t)code + 100 * n));
        g_sample = fmt("arguments=%d expect=%d", n, code); return;
    } else if (kind == 2) {
        if (choose(GEN, 2)) {
            // somebody else was first: the server refuses to share the name
            ProcP sq = fresh(choose(GEN, 2)); bool end = false, ready = false; bool ov = choose(GEN, 2);
            spawnThread(sq.get(), "squatter", [&, ov] {
                HANDLE x = CreateNamedPipeW(W(kDbgPipe), PIPE_ACCESS_DUPLEX | (ov ? FILE_FLAG_OVERLAPPED : 0), PIPE_TYPE_MESSAGE | PIPE_READMODE_MESSAGE, 2 + choose(FAULT, 9), 100, 100, 0, nullptr); if (x == INVALID_HANDLE_VALUE) harnessError("squatter failed");
                countFault(F_PIPE_SQUAT); ready = true; waitFor("end", [&] { return end; }, -1); processExit(sq.get(), 0); fiberExit(); });
            waitFor("squat", [&] { return ready; }, -1);
            ProcP q = tw.startWith(choose(GEN, 2) ? std::vector<std::string>{"--everyone"} : std::vector<std::string>{});
            if (!waitFor("second", [&] { return q->exited; }, 5000 + 5 * g_sched.stallMax)) violate("shared-name", "the debug server started although somebody else already owns its pipe name");
            if (q->exitCode != 1 || q->err.find("could not create") == std::string::npos) violate("shared-name", fmt("the debug server, its name being taken, ended with status %u and the message '%s'", q->exitCode, q->err.c_str()));
            end = true; waitFor("gone", [&] { return sq->exited; }, -1);
        }
        // a second server gives up, the first goes on
        tw.start(); serverUp(); bool ev = choose(GEN, 2);
        ProcP q = tw.startWith(ev ? std::vector<std::string>{"--everyone"} : std::vector<std::string>{}); if (choose(GEN, 2)) q->user = "S-1-5-21-2000";
        bool busy = choose(GEN, 2); if (busy) expectServed(false, true, "meanwhile");
        if (!waitFor("second", [&] { return q->exited; }, 5000 + 5 * g_sched.stallMax)) violate("second-server", "a second debug server stayed up next to the first");
        if (q->exitCode != 1 || q->err.find("could not create") == std::string::npos) violate("second-server", fmt("a second debug server ended with status %u and the message '%s'", q->exitCode, q->err.c_str()));
        served();
    } else {
        // a session that does not ask for tracing never reaches for the server
        static const char *const dbg[] = {"", "0", "tracex", "xtrace", "11", "input", "Trace", "trace ", "trace2,1x", " 1"}; int di = choose(GEN, 11);
        if (di < 10) h.w.cfg.debugEnv = dbg[di];
        tw.start(); serverUp();
        Harness::OpenOpts o; o.timeout = 60000; o.mouse = choose(GEN, 3); rig.timeout = 60000; rig.s = h.open(o); Session &s = rig.s; Process *ag = s.agent;
        Reader *r = h.startReader(s.conout); (void)r;
        ActorPipe in; if (!in.open(h.client.get(), s.conin, g_now + 5000)) violate("no-conin", "the input pipe cannot be opened");
        bool quit = false; h.programs["app"] = [&](App &a) { Workload wl; wl.limit = 200; RowModel m; m.W = a.con->primary->W; for (int i = 0; i < 5; ++i) printPiece(a, wl, m, nullptr, 200, true, "n"); waitFor("quit", [&] { return quit; }, -1); };
        Harness::SpawnOpts so; so.flags = 0; h.spawn(s, so);
        in.write("abc\x1b[A\x1b[<0;2;2M", g_now + 30000); ErrP er = nullptr; h.api.set_size(s.wp, 30, 10, &er); if (er) h.takeErr(er);
        sleepFor(range(GEN, 1, 2000)); quit = true; h.closeSession(s);
        if (!waitFor("agent-exit", [ag] { return ag->exited; }, kAgentExitBound + 20000 + 60 * g_sched.stallMax)) violate("agent-left-behind", "the agent is still running after its session was freed");
        sleepFor(100);
        if (!tw.sent.empty() || !tw.srv->out.empty() || tw.dials) violate("traced-unasked", fmt("%d messages were sent to the debug server although WINPTY_DEBUG is %s", (int)tw.sent.size(), di < 10 ? hexdump(dbg[di]).c_str() : "unset"));
        tw.checkAlive(); expectServed(false, true, "still here");
    }
    nontrivial(); stateSig(mix(hashBytes(tw.srv->out.data(), tw.srv->out.size()), (uint64_t)kind));
    g_sample = fmt("kind=%d everyone=%d", kind, tw.everyone);
}

// param 0: only the server and raw clients; 1: a traced session, the server
// absent or present; 2: a traced session with a slow, crashing, restarting
// server and odd clients; 3: access rights, arguments, sessions without tracing.
SCENARIO(trace) {
    Rig rig; Harness &h = rig.h; h.world(1);
    TraceWorld tw(h); tw.everyone = choose(GEN, 2);
    std::vector<std::string> extra; extra.reserve(4096);
    if (param == 3) { h.start([&] { accessRun(rig, tw); }); return; }
    if (param == 0) {
        h.start([&] {
            int nOdd = range(GEN, 1, 6), nHonest = range(GEN, 0, 4), left = 0; int64_t win = 1 + choose(GEN, 60);
            int64_t serverAt = choose(GEN, 2) ? 0 : choose(GEN, (uint32_t)win);
            std::vector<ProcP> procs;
            for (int i = 0; i < nOdd + nHonest; ++i) {
                ProcP p = newProcess("tracer", nullptr); p->label = "tracer"; p->user = tw.everyone && choose(GEN, 4) == 3 ? "S-1-5-21-2000" : p->user; procs.push_back(p); Process *pp = p.get(); bool odd = i < nOdd; left++;
                int rounds = range(GEN, 1, 4);
                p->onExit = [&left] { left--; };
                spawnThread(pp, odd ? "odd" : "honest", [&, pp, odd, rounds, win] {
                    sleepFor(choose(GEN, (uint32_t)win));
                    for (int k = 0; k < rounds; ++k) {
                        if (odd) oddClient(tw, extra, pp, 40);
                        else {
                            std::string m = fmt("%u:%d:", pp->pid, k) + std::string(choose(GEN, 900), 'x');
                            int gen = tw.started; bool up = tw.up() && findPipe(kDbgPipe, false); int64_t t0 = g_now;
                            bool ok = tw.honest(pp, m);
                            if (!ok && up && tw.up() && tw.started == gen) violate("not-served", "the debug server did not acknowledge an honest client's message");
                            if (ok && g_now - t0 > 60000) violate("slow-ack", "a trace client waited for more than a minute");
                        }
                        if (choose(GEN, 2)) sleepFor(choose(GEN, 30));
                    }
                    processExit(pp, 0); fiberExit();
                });
            }
            if (serverAt) sleepFor(serverAt);
            tw.start();
            int restarts = choose(GEN, 4) == 3 ? range(GEN, 1, 3) : 0;
            for (int i = 0; i < restarts; ++i) { sleepFor(choose(GEN, (uint32_t)win)); tw.kill(); if (choose(GEN, 2)) sleepFor(choose(GEN, 20)); if (findPipe(kDbgPipe, false)) harnessError("the dead server's pipe remains"); tw.start(); }
            if (!waitFor("tracers", [&] { return left == 0; }, 120000)) { tw.checkAlive(); violate("clients-stuck", "trace clients are still blocked after two minutes"); }
            tw.checkAlive();
            // it serves whoever comes next
            for (int i = 0; i < 2; ++i) {
                std::string m = fmt("final message %d", i); int64_t t0 = g_now; bool ok = false;
                ProcP p = newProcess("tracer", nullptr); bool fin = false;
                spawnThread(p.get(), "final", [&, m] { waitFor("pipe", [] { return findPipe(kDbgPipe, false) != nullptr; }, 5000); ok = tw.honest(nullptr, m); fin = true; processExit(p.get(), 0); fiberExit(); });
                if (!waitFor("final", [&] { return fin; }, 10000 + 20 * g_sched.stallMax) || !ok) { tw.checkAlive(); violate("not-served", "the debug server no longer serves a new client"); }
                if (tw.srv->out.find(m + "\n") == std::string::npos) violate("lost-message", "the last message was acknowledged but not printed");
                (void)t0;
            }
            tw.judge(extra); nontrivial(); stateSig(mix(hashBytes(tw.srv->out.data(), tw.srv->out.size()), tw.started));
            g_sample = fmt("odd=%d honest=%d server at %lld ms restarts=%d acked=%d everyone=%d", nOdd, nHonest, (long long)serverAt, restarts, (int)tw.acked.size(), tw.everyone);
        });
        return;
    }
    static const char *const dbg[] = {"trace", "1", "trace,input", "other,trace,dump_input_map", "trace,force_desktop"}; int di = choose(GEN, 5); if (di == 3 && (h.w.cfg.ioDelayMax || g_sched.stallRate || param == 2)) di = 0; h.w.cfg.debugEnv = dbg[di];
    bool early = false, rough = param == 2; bool present = rough || choose(GEN, 4) != 3;
    bool quit = false; int wantPieces = 0, pieces = 0; RowModel m; uint32_t execErr = 0;
    h.programs["app"] = [&](App &a) {
        Workload wl; wl.limit = 200; m.W = a.con->primary->W;
        while (!quit) {
            waitFor("app-go", [&] { return quit || pieces < wantPieces; }, -1); if (quit) break;
            printPiece(a, wl, m, nullptr, 200, true, "n"); pieces++;
            if (choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 60));
        }
    };
    h.execHook = [&](ProcP, const SpawnReq &q) -> uint32_t { std::string p = u8(q.haveApp ? q.app : q.cmdline); return p == "fails" ? execErr : ~0u; };
    h.start([&] {
        bool stopFaults = false; int64_t slowest = 0;
        if (present && choose(GEN, 2)) { tw.start(); early = !rough && waitFor("server", [] { return findPipe(kDbgPipe, false) != nullptr; }, 1000); }
        else if (present) { int64_t d = choose(GEN, 400); spawnThread(newProcess("launcher", nullptr).get(), "launcher", [&, d] { sleepFor(d); if (!tw.started && !g_stopRun) tw.start(); waitFor("never", [] { return false; }, -1); }); }
        if (rough) spawnThread(newProcess("nuisance", nullptr).get(), "nuisance", [&] {
            int kills = 0;
            for (int i = 0; i < 12 && !stopFaults; ++i) {
                sleepFor(1 + choose(FAULT, 300));
                if (stopFaults) break;
                switch (choose(FAULT, 3)) {
                case 0: if (tw.up()) { countFault(F_STALL); int64_t d = 1 + choose(FAULT, 800); slowest += d; for (Fiber *f : tw.srv->fibers) f->stalledUntil = g_now + d; } break;
                case 1: if (tw.up() && kills < 2) { kills++; tw.kill(); sleepFor(choose(FAULT, 200)); if (choose(FAULT, 4) != 3) tw.start(); } else if (!tw.up() && tw.started < 4) tw.start(); break;
                case 2: { ProcP p = newProcess("tracer", nullptr); Process *pp = p.get(); slowest += 200; spawnThread(pp, "odd", [&, pp] { oddClient(tw, extra, pp, 150); processExit(pp, 0); fiberExit(); }); break; }
                }
            }
            waitFor("never", [] { return false; }, -1);
        });
        Harness::OpenOpts o; o.cols = range(GEN, 20, 100); o.rows = range(GEN, 2, 40); o.timeout = 60000; o.mouse = choose(GEN, 3);
        rig.timeout = 60000; rig.s = h.open(o); Session &s = rig.s; Process *ag = s.agent; rig.h.client->kind = "client";
        Reader *r = h.startReader(s.conout); ActorPipe in; if (!in.open(h.client.get(), s.conin, g_now + 5000)) violate("no-conin", "the input pipe cannot be opened");
        // a failing start reports the true cause
        int tries = choose(GEN, 3);
        for (int i = 0; i < tries; ++i) {
            static const uint32_t es[] = {740, 5, 193, 2, 267, 1455}; execErr = es[choose(GEN, 6)];
            Spawner z = doSpawn(rig, "fails", true, true);
            if (z.ok || z.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED || z.cpe != execErr) violate("wrong-spawn-error", fmt("a program that fails to start with error %u was reported as ok=%d error %u/%u", execErr, z.ok, (unsigned)z.code, (unsigned)z.cpe));
        }
        Harness::SpawnOpts so; so.flags = 0; h.spawn(s, so);
        std::string typed; int n = range(GEN, 1, 6), nextCh = 0;
        int64_t bound = 3000 + 60 * g_sched.stallMax + 30 * h.w.cfg.ioDelayMax;
        auto slow = [&] { return bound + 2 * slowest; };
        for (int i = 0; i < n; ++i) {
            ErrP er = nullptr; int64_t t0 = g_now; int buf[16];
            switch (choose(GEN, 4)) {
            case 0: wantPieces += range(GEN, 1, 3); break;
            case 1: if (!h.api.set_size(s.wp, o.cols, o.rows, &er)) violate("request-failed", fmt("winpty_set_size failed with %u while tracing", (unsigned)h.takeErr(er))); break;
            case 2: if (h.api.get_console_process_list(s.wp, buf, 16, &er) != 2) violate("request-failed", fmt("winpty_get_console_process_list failed with %u while tracing", er ? (unsigned)h.takeErr(er) : 0)); break;
            case 3: { char ch = (char)('a' + nextCh++ % 26); typed.push_back(ch); in.write(std::string(1, ch), g_now + slow()); break; }
            }
            if (g_now - t0 > slow()) violate("request-slow", fmt("a request took %lld ms while tracing", (long long)(g_now - t0)));
            if (choose(GEN, 2)) sleepFor(range(GEN, 1, 400));
            tw.checkAlive();
        }
        sleepFor(choose(GEN, 200)); stopFaults = true;
        std::string why;
        pollFor([&] { if (!r->term.error.empty()) violate("bad-output", r->term.error); why = pieces < wantPieces ? "the program has not finished" : compareRows(m, r->term); return why.empty(); }, 10000 + slow(), 50);
        if (!why.empty()) { tw.checkAlive(); violate("wrong-output", "with tracing on: " + why); }
        auto keys = [&] { std::string k; for (auto &x : s.con->allInput) if (x.EventType == KEY_EVENT && x.Event.KeyEvent.bKeyDown && x.Event.KeyEvent.uChar.UnicodeChar >= 'a' && x.Event.KeyEvent.uChar.UnicodeChar <= 'z') k.push_back((char)x.Event.KeyEvent.uChar.UnicodeChar); return k; };
        if (!pollFor([&] { return keys() == typed; }, slow(), 20)) violate("wrong-input", "typed '" + typed + "' but the console got '" + keys() + "' with tracing on");
        if (early && tw.acked.empty()) violate("no-trace", "nothing was traced although tracing is on and the debug server runs");
        h.checkBadHandles(ag, "agent-bad-handle");
        auto dbgHandles = [](Process *p) { int n = 0; for (auto &kv : p->handles) if (kv.second.origin.find("DebugServer") != std::string::npos) n++; return n; };
        if (dbgHandles(ag) > 1 || dbgHandles(h.client.get()) > 0) violate("trace-handle-leak", fmt("%d + %d connections to the debug server were left open", dbgHandles(ag), dbgHandles(h.client.get())));
        quit = true; h.closeSession(s);
        if (!waitFor("agent-exit", [ag] { return ag->exited; }, kAgentExitBound + slow())) violate("agent-left-behind", "the agent is still running after its session was freed");
        sleepFor(200 + 3 * g_sched.stallMax);
        tw.judge(extra); nontrivial();
        stateSig(mix(r->term.hash(), (uint64_t)tw.acked.size()));
        g_sample = fmt("debug=%s server=%s starts=%d acked=%d unacked=%d rows=%d", dbg[di], present ? "present" : "absent", tw.started, (int)tw.acked.size(), tw.unacked, (int)m.rows.size());
    });
}
static RegCheck c26("C26", "a run counts as non-trivial when clients came, went or died around the debug server and a late client was still served, or a traced session ran to its end",
    {{"trace", 0, 2500, 40000}, {"trace", 1, 600, 8000}, {"trace", 2, 600, 8000}, {"trace", 3, 800, 8000}});
