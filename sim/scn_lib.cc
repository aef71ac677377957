// The client library: C12 bounded truthful calls, C13 failed sessions stay
// failed, C14 concurrent callers.
#include "libtools.h"

// ------------------------------------------------------------------ rpc
// param: 0 no fault, 1 crash, 2 stall, 3 break, 4 any of them, bit 3 (8): bursts of calls after the failure
SCENARIO(rpc) {
    Rig r; Harness &h = r.h; h.world(1); h.w.cfg.fontLimits = false;
    h.w.cfg.largestX = 400; h.w.cfg.largestY = 200;
    int mode = param & 7;
    static const int tmo[] = {1000, 200, 5000, 30000};
    r.timeout = tmo[choose(GEN, 4)];
    if (r.timeout == 30000) g_sched.maxTime = 1200000;
    Family fam(h);
    h.execHook = [&](ProcP, const SpawnReq &q) -> uint32_t { std::string a = u8(q.app); if (a.compare(0, 5, "fail-") == 0) return (uint32_t)atoi(a.c_str() + 5); return ~0u; };
    std::string log;
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 20, 150); o.rows = range(GEN, 5, 60); o.timeout = (DWORD)std::max<int64_t>(r.timeout, 1000);
        if (choose(GEN, 4) == 3) o.flags |= WINPTY_FLAG_CONERR;
        r.timeout = o.timeout;
        int base0 = handlesOf(h.client.get());
        r.s = h.open(o);
        int base = handlesOf(h.client.get()), given = 0;
        int ops = range(GEN, 3, 24);
        int armAt = mode ? (int)choose(FAULT, (uint32_t)ops) : -1;
        for (int i = 0; i < ops; ++i) {
            if (i == armAt) {
                Rig::Kind k = mode == 4 ? (Rig::Kind)(1 + choose(FAULT, 3)) : (Rig::Kind)mode;
                if (k == Rig::Stall) {
                    static const int pct[] = {150, 30, 400, 1100};
                    r.stallMs = r.timeout * pct[choose(FAULT, 4)] / 100;
                }
                r.arm(k);
                if (choose(FAULT, 3) == 2) sleepFor(choose(FAULT, 80));
            }
            int64_t t0 = g_now; DWORD code = 0;
            uint64_t wrote = r.control ? r.control->totalWritten : 0;
            bool wasFailed = r.failed, startedAfter = r.fired;
            int k = choose(GEN, 8);
            if (k >= 6 && r.spawned) k = choose(GEN, 6);       // a session starts one program
            if (k < 3) {
                int c = range(GEN, 2, 300), w = range(GEN, 2, 120); ErrP e = nullptr;
                if (choose(GEN, 12) == 11) { c = range(GEN, 1, 100000); w = range(GEN, 1, 100000); }
                BOOL ok = h.api.set_size(r.s.wp, c, w, &e); code = e ? h.takeErr(e) : 0;
                if (!ok && !code) violate("no-error-object", "winpty_set_size failed without an error");
                if (ok && code) violate("error-on-success", "winpty_set_size succeeded with an error");
                r.judge("winpty_set_size", t0, ok, code);
                if (ok && c <= 300 && w <= 120 && c >= 20) {
                    ScreenBuf &b = *r.s.con->primary;
                    if (!r.s.agent->exited && (b.winW() != c || b.winH() != w)) violate("size-not-applied", fmt("winpty_set_size(%d, %d) succeeded but the window is %dx%d", c, w, b.winW(), b.winH()));
                }
                log += fmt("size%d ", ok);
            } else if (k < 6) {
                std::vector<int> before = r.s.agent->exited ? std::vector<int>() : pidsOf(r.s.con), got;
                int cap = choose(GEN, 4) == 3 ? (int)before.size() + (int)choose(GEN, 3) : 200;
                if (choose(GEN, 6) == 5 && before.size() > 1) cap = choose(GEN, (uint32_t)before.size());
                int n = procList(r, cap, got, &code);
                bool ok = code == 0;
                if (!ok && n != 0) violate("proclist-result", "winpty_get_console_process_list returned an error and a count");
                r.judge("winpty_get_console_process_list", t0, ok, code);
                // (a program may come or go while a slow agent is being asked)
                bool steady = ok && pidsOf(r.s.con) == before;
                if (steady && n != (int)before.size()) violate("proclist-wrong", fmt("%d processes are attached but %d were reported", (int)before.size(), n));
                if (steady && n <= cap) { std::sort(got.begin(), got.end()); if (got != before) violate("proclist-wrong", "the process list differs from the processes attached to the console"); }
                log += fmt("list%d ", ok);
            } else if (k == 6 || (r.fired && r.kind == Rig::Stall)) {
                uint32_t err = 1 + choose(GEN, 60000); std::string nm = fmt("fail-%u", err);
                Spawner z = doSpawn(r, nm.c_str(), choose(GEN, 2), choose(GEN, 2));
                code = z.code;
                if (z.ok) violate("spawn-invented", "winpty_spawn reported success for a program that cannot start");
                bool cp = code == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED;
                if (cp && z.cpe != err) violate("spawn-cpe", fmt("CreateProcess failed with %u but %u was reported", err, (unsigned)z.cpe));
                if (!cp && z.cpe != 0) violate("spawn-cpe", "a CreateProcess error was reported for another failure");
                if (cp && r.failed) violate("failed-session-answered", "winpty_spawn answered on a failed session");
                r.judge("winpty_spawn", t0, false, code, cp);
                log += fmt("badspawn%d ", cp);
            } else {
                bool p = choose(GEN, 2), t = choose(GEN, 2);
                Spawner z = doSpawn(r, "app", p, t);
                r.judge("winpty_spawn", t0, z.ok, z.code);
                if (z.ok) {
                    r.spawned = true; if (z.ph) base++, given++; if (z.th) base++, given++;
                    Process *c = h.childOf(r.s);
                    if (!c) violate("spawn-invented", "winpty_spawn succeeded but no process was created");
                    fam.target = choose(GEN, 4) == 3 ? 70 : choose(GEN, 8);
                    if (!r.s.agent->exited) waitFor("family", [&] { return (int)fam.kids.size() == fam.target || r.s.agent->exited; }, 2000);
                }
                log += fmt("spawn%d ", z.ok);
            }
            if (wasFailed && r.control && r.control->totalWritten != wrote) violate("failed-session-wire", "a call on a failed session still wrote to the control pipe");
            int hc = handlesOf(h.client.get()), want = base;
            if (hc > want) violate("handle-count", fmt("the client has %d handles, expected at most %d: %s", hc, want, handleReport(h.client.get()).c_str()));
            if (!r.failed && choose(GEN, 3) == 2) {
                if (r.spawned && !r.fired) { fam.target = choose(GEN, 12); waitFor("family", [&] { return (int)fam.kids.size() == fam.target || r.fired; }, 2000); if (r.fired) waitFor("settle", [&] { return r.s.agent->exited || !fam.busy; }, 100); }
                else sleepFor(choose(GEN, 60));
            }
            if (r.failed && choose(GEN, 8) == 7) sleepFor(choose(GEN, (uint32_t)r.timeout));
            if (r.fired && r.kind != Rig::Stall && !r.failed && startedAfter) violate("failure-unnoticed", "a call succeeded after the agent connection was gone");
        }
        // A failed session ends the agent as well.
        if (r.failed) {
            int64_t left = std::max<int64_t>(0, r.fired && r.kind == Rig::Stall ? r.firedAt + r.stallMs - g_now : 0);
            if (!waitFor("agent-exit", [&] { return r.s.agent->exited; }, left + kAgentExitBound)) violate("agent-left-behind", "the control connection was closed but the agent keeps running");
        }
        h.checkBadHandles(h.client.get(), "bad-handle");
        nontrivial(); stat("calls-ok", r.nOk); stat("transport-failures", r.nFail);
        stateSig(mix(mix(r.nOk, r.nFail), hashBytes(log.data(), log.size())));
        g_sample = fmt("timeout=%lld fault=%d fired=%d: %s", (long long)r.timeout, (int)r.kind, r.fired, log.c_str());
        fam.quit = true;
        h.closeSession(r.s);
        if (handlesOf(h.client.get()) != base0 + given) violate("handle-leak", fmt("after winpty_free the client has %d handles, expected %d: %s", handlesOf(h.client.get()), base0 + given, handleReport(h.client.get()).c_str()));
    });
}
static RegCheck c12("C12", "a run counts as non-trivial when its random sequence of library calls completed and every result was judged against what happened in the simulated agent",
    {{"rpc", 0, 300, 4000}, {"rpc", 1, 500, 8000}, {"rpc", 2, 500, 8000}, {"rpc", 3, 400, 6000}, {"rpc", 4, 400, 8000},
     {"open", 3, 300, 5000}, {"open", 4, 100, 2000}, {"open", 5, 200, 3000}, {"badreply", 0, 300, 4000}});
static RegCheck c13("C13", "a run counts as non-trivial when its random sequence of library calls completed and every call after the failure was judged",
    {{"rpc", 1, 500, 8000}, {"rpc", 2, 900, 14000}, {"rpc", 3, 500, 8000}, {"rpc", 4, 300, 6000}});

// ------------------------------------------------------------------ conc
// Several threads share one session.  param 0 no fault; 1 agent crash; 2 agent stall; 3 pipe break
SCENARIO(conc) {
    Rig r; Harness &h = r.h; h.world(1); h.w.cfg.fontLimits = false;
    h.w.cfg.largestX = 1000; h.w.cfg.largestY = 200;
    static const int tmo[] = {2000, 1000, 10000};
    Family fam(h);
    h.execHook = [&](ProcP, const SpawnReq &q) -> uint32_t { std::string a = u8(q.app); if (a.compare(0, 5, "fail-") == 0) return (uint32_t)atoi(a.c_str() + 5); return ~0u; };
    g_bbPreempt = true; static const int gaps[] = {60, 15, 400}; g_bbGap = gaps[choose(GEN, 3)];
    struct SizeCall { int cols; int64_t t0, t1; bool ok; };
    std::vector<SizeCall> sizes; int running = 0, nextCols = 30, spawnedOk = 0, listCalls = 0, failSpawns = 0, failures = 0;
    std::vector<std::pair<int64_t, std::vector<int>>> hist;     // attached processes over time
    h.start([&] {
        Harness::OpenOpts o; o.cols = 25; o.rows = 20; o.timeout = tmo[choose(GEN, 3)];
        g_bbPreempt = false;
        r.s = h.open(o); r.timeout = o.timeout;
        g_bbPreempt = true;
        Console *con = r.s.con;
        auto snap = [&] { auto v = pidsOf(con); if (hist.empty() || hist.back().second != v) hist.push_back({g_now, v}); };
        snap(); con->onAttach = snap;
        bool haveSpawner = choose(GEN, 2);
        int nth = range(GEN, 2, 4), base = handlesOf(h.client.get());
        size_t evBase = con->allInput.size();
        for (int i = 0; i < nth; ++i) {
            running++;
            bool spawner = i == 0 && haveSpawner;
            spawnThread(h.client.get(), fmt("caller%d", i), [&, spawner] {
                int ops = range(GEN, 2, 8); int spawnAt = spawner ? (int)choose(GEN, (uint32_t)ops) : -1;
                for (int j = 0; j < ops; ++j) {
                    int64_t t0 = g_now; DWORD code = 0; bool wasFailed = r.failed; bool ok = false;
                    int k = choose(GEN, 6);
                    if (j == spawnAt) {
                        ErrP e = nullptr; ustr app = u"app"; SpawnP c = h.api.spawn_config_new(0, W(app), nullptr, nullptr, nullptr, &e);
                        HANDLE ph = nullptr, th = nullptr; e = nullptr;
                        ok = h.api.spawn(r.s.wp, c, &ph, &th, nullptr, &e); code = e ? h.takeErr(e) : 0;
                        h.api.spawn_config_free(c);
                        if (ok) { spawnedOk++; base += 2; fam.target = choose(GEN, 5);
                            HandleEntry *a = lookup(h.client.get(), ph, false, ""), *b = lookup(h.client.get(), th, false, "");
                            if (!a || a->obj->type != O_PROCESS || static_cast<Process *>(a->obj.get())->kind != "app" || !b || b->obj->type != O_THREAD) violate("spawn-handles", "concurrent winpty_spawn returned handles that are not its program's"); }
                    } else if (k < 3) {
                        int cols = nextCols++, rows = range(GEN, 5, 60); ErrP e = nullptr;
                        size_t me = sizes.size(); sizes.push_back({cols, t0, -1, false});
                        ok = h.api.set_size(r.s.wp, cols, rows, &e); code = e ? h.takeErr(e) : 0;
                        sizes[me].t1 = g_now; sizes[me].ok = ok;
                    } else if (k < 5) {
                        std::vector<int> got; snap();
                        size_t h0 = hist.size() - 1;
                        int n = procList(r, 64, got, &code); ok = code == 0; snap(); listCalls++;
                        std::sort(got.begin(), got.end());
                        if (ok) { bool hit = false; for (size_t x = h0; x < hist.size(); ++x) hit |= hist[x].second == got; if (!hit) violate("wrong-reply", fmt("a concurrent process list call returned %d entries that were never the attached processes", n)); }
                    } else {
                        uint32_t err = 100 + nextCols++ * 7; ustr app = u16of(fmt("fail-%u", err)); ErrP e = nullptr;
                        if (haveSpawner) { sleepFor(choose(SCHED, 20)); continue; }
                        SpawnP c = h.api.spawn_config_new(0, W(app), nullptr, nullptr, nullptr, &e); DWORD cpe = 0; e = nullptr;
                        ok = h.api.spawn(r.s.wp, c, nullptr, nullptr, &cpe, &e); code = e ? h.takeErr(e) : 0;
                        h.api.spawn_config_free(c);
                        if (ok) violate("wrong-reply", "a concurrent winpty_spawn of a missing program succeeded");
                        if (code == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) { if (cpe != err) violate("wrong-reply", fmt("a concurrent winpty_spawn got CreateProcess error %u instead of %u", (unsigned)cpe, err)); failSpawns++; continue; }
                    }
                    if (!ok && !code) violate("no-error-object", "a concurrent call failed without an error");
                    if (!ok && !r.fired) violate("failed-without-cause", fmt("a concurrent call failed with error %u although nothing was wrong", (unsigned)code));
                    if (ok && wasFailed) violate("failed-session-answered", "a concurrent call succeeded after another one had lost the connection");
                    if (!ok) { failures++; r.failed = true; }
                    if (pendingIoOf(h.client.get(), g_cur)) violate("io-outstanding", "a concurrent call returned while its pipe I/O was still in flight");
                    if (g_now - t0 > nth * (3 * r.timeout + r.slack())) violate("call-too-long", fmt("a concurrent call took %lld ms", (long long)(g_now - t0)));
                    if (choose(SCHED, 3) == 2) sleepFor(choose(SCHED, 30));
                }
                running--;
            });
        }
        if (param) { sleepFor(choose(FAULT, 20)); r.stallMs = r.timeout * (choose(FAULT, 2) ? 3 : 1) / 2; r.arm((Rig::Kind)param); }
        if (!waitFor("callers", [&] { return running == 0; }, 40 * r.timeout + 60000)) violate("callers-stuck", "concurrent library calls never returned");
        g_bbPreempt = false;
        // every successful resize reached the console exactly once, inside its own call
        std::vector<std::pair<int, int64_t>> evs;
        for (size_t i = evBase; i < con->allInput.size(); ++i) if (con->allInput[i].EventType == WINDOW_BUFFER_SIZE_EVENT) evs.push_back({con->allInput[i].Event.WindowBufferSizeEvent.dwSize.X, con->allInputTime[i]});
        for (auto &c : sizes) {
            int n = 0; int64_t when = -1;
            for (auto &e : evs) if (e.first == c.cols) { n++; when = e.second; }
            if (c.ok && n != 1) violate("size-lost", fmt("winpty_set_size(%d) succeeded but was applied %d times", c.cols, n));
            if (n > 1) violate("size-lost", fmt("winpty_set_size(%d) was applied %d times", c.cols, n));
            if (c.ok && (when < c.t0 || when > c.t1)) violate("size-not-in-call", fmt("winpty_set_size(%d) ran from %lld to %lld but was applied at %lld", c.cols, (long long)c.t0, (long long)c.t1, (long long)when));
        }
        for (auto &e : evs) { bool known = false; for (auto &c : sizes) known |= c.cols == e.first; if (!known) violate("size-invented", fmt("the window became %d columns wide, which nobody asked for", e.first)); }
        if (!evs.empty() && !r.s.agent->exited && !r.fired && con->primary->winW() != evs.back().first) violate("size-order", "the final window is not the one applied last");
        int hc = handlesOf(h.client.get()), want = base;
        if (hc > want) violate("handle-count", fmt("the client has %d handles, expected at most %d: %s", hc, want, handleReport(h.client.get()).c_str()));
        h.checkBadHandles(h.client.get(), "bad-handle");
        nontrivial(); stat("resizes", (int64_t)sizes.size()); stat("lists", listCalls); stat("failed-calls", failures); stat("failed-spawns", failSpawns);
        stateSig(mix(sizes.size() * 64 + listCalls, evs.size() * 64 + failures));
        { uint64_t x = 0; for (auto &e : evs) x = mix(x, e.first); stateSig(x); }
        g_sample = fmt("threads=%d resizes=%zu lists=%d failed-spawns=%d spawned=%d fault=%d failed=%d", nth, sizes.size(), listCalls, failSpawns, spawnedOk, param, failures);
        con->onAttach = nullptr; fam.quit = true;
        h.closeSession(r.s);
    });
}
static RegCheck c14("C14", "a run counts as non-trivial when at least two threads issued calls on one session under basic-block level preemption and every reply was matched to its call",
    {{"conc", 0, 900, 14000}, {"conc", 1, 300, 5000}, {"conc", 2, 300, 5000}, {"conc", 3, 300, 5000}});
