// C15 handle/IO/memory conservation, C16 open all-or-nothing, C20 control
// protocol framing and malformed packets, C21 allocation failure.
#include "libtools.h"

// ------------------------------------------------------------------ leak
// param bit 0: system calls of the client fail, bit 1: system calls of the agent fail
SCENARIO(leak) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    h.programs["app"] = [&](App &a) { (void)a; waitFor("forever", [] { return false; }, -1); };
    int fails = param & 3;
    bool armed = false;
    h.w.failOnly = {"AllocateAndInitializeSid", "ConnectNamedPipe", "CreateDesktopW", "CreateEventW", "CreateFileW", "CreateNamedPipeW", "CreateProcessW",
        "CreateWindowStationW", "CryptAcquireContextW", "DuplicateHandle", "GetFileAttributesW", "GetNamedPipeClientProcessId", "GetTokenInformation", "GetUserObjectInformationW",
        "InitializeSecurityDescriptor", "LocalAlloc", "OpenProcessToken", "OpenThreadToken", "ReadFile", "SetEntriesInAclW", "SetSecurityDescriptorDacl",
        "WaitForMultipleObjects", "WriteFile", "SystemFunction036"};
    h.w.cfg.noRtlGenRandom = choose(GEN, 4) == 3;
    h.execHook = [&](ProcP c, const SpawnReq &q) -> uint32_t {
        if (isAgent(q)) { c->failSyscalls = armed && (fails & 2); return ~0u; }
        if (u8(q.app) == "missing") return ERROR_FILE_NOT_FOUND;
        return ~0u;
    };
    std::string log; int opened = 0, refused = 0, callFail = 0;
    h.start([&] {
        Process *C = h.client.get();
        auto noIo = [&](const char *w) { if (pendingIoOf(C, g_cur)) violate("io-outstanding", std::string(w) + " returned while its pipe I/O was still in flight"); };
        auto cycle = [&](bool check) {
            int h0 = handlesOf(C); int64_t m0 = C->heapCount; size_t l0 = C->localAllocs.size(); int d0 = C->modulesLoaded;
            size_t nAg = h.agents.size();
            Harness::OpenOpts o; o.timeout = 1000;
            if (choose(GEN, 3) == 2) o.flags |= WINPTY_FLAG_CONERR;
            if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
            DWORD code = 0; WpP wp = h.tryOpen(o, &code); noIo("winpty_open");
            std::vector<HANDLE> given;
            if (wp) {
                opened++;
                Session s; s.wp = wp; s.agent = h.agentOf(wp);
                int ops = check ? range(GEN, 1, 10) : 8; bool spawned = false, dead = false;
                for (int i = 0; i < ops; ++i) {
                    int k = check ? (int)choose(GEN, 5) : i % 5; ErrP e = nullptr; bool ok = true; int hh = handlesOf(C); int gained = 0;
                    if (k == 0) ok = h.api.set_size(wp, range(GEN, 10, 100), range(GEN, 5, 50), &e);
                    else if (k == 1) { int b[100]; h.api.get_console_process_list(wp, b, choose(GEN, 2) ? 100 : 1, &e); ok = !e; }
                    else {
                        if (spawned) continue;
                        ErrP e2 = nullptr; ustr app = k == 4 ? u"app" : u"missing"; ustr env = u"A=1"; env.push_back(0); env.push_back(0);
                        SpawnP c = h.api.spawn_config_new(0, W(app), choose(GEN, 2) ? W(app) : nullptr, nullptr, choose(GEN, 2) ? W(env) : nullptr, &e2);
                        if (!c) violate("spawn-config", "winpty_spawn_config_new failed");
                        HANDLE ph = nullptr, th = nullptr; bool wp1 = choose(GEN, 2), wt = choose(GEN, 2);
                        ok = h.api.spawn(wp, c, wp1 ? &ph : nullptr, wt ? &th : nullptr, nullptr, &e);
                        h.api.spawn_config_free(c);
                        if (ok) { spawned = true; if (wp1) gained++; if (wt) gained++; if (ph) given.push_back(ph); if (th) given.push_back(th);
                            if (k != 4) violate("spawn-invented", "a program that does not exist was started"); }
                        else if (ph || th) violate("spawn-handles", "winpty_spawn failed but returned handles");
                    }
                    noIo("a library call");
                    if (!ok) {
                        DWORD cd = e ? h.takeErr(e) : 0;
                        if (!cd) violate("no-error-object", "a call failed without an error");
                        if (cd != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) { callFail++; dead = true; if (!armed) violate("failed-without-cause", fmt("a call failed with error %u although nothing was wrong", (unsigned)cd)); }
                    } else if (e) violate("error-on-success", "a call succeeded with an error object");
                    if (handlesOf(C) > hh + gained) violate("handle-leak", fmt("a library call left %d extra handles: %s", handlesOf(C) - hh - gained, handleReport(C).c_str()));
                }
                (void)dead;
                h.api.free(wp); noIo("winpty_free");
                log += "o";
            } else { refused++; log += fmt("r%u", (unsigned)code); if (!armed) violate("open-failed", fmt("winpty_open failed with %u although nothing was wrong", (unsigned)code)); }
            int want = h0 + (int)given.size();
            if (handlesOf(C) != want) violate("handle-leak", fmt("after the session the client has %d handles, expected %d: %s", handlesOf(C), want, handleReport(C).c_str()));
            for (HANDLE x : given) CloseHandle(x);
            if (check && C->heapCount != m0) violate("memory-leak", fmt("after the session the client has %lld more live allocations than before", (long long)(C->heapCount - m0)));
            if (C->localAllocs.size() != l0) violate("memory-leak", fmt("after the session the client has %zu more LocalAlloc blocks than before", C->localAllocs.size() - l0));
            if (check && C->modulesLoaded != d0) violate("module-leak", fmt("after the session the client holds %d more loaded modules or crypto contexts than before", C->modulesLoaded - d0));
            if (C->winsta != h.w.winsta0) violate("station-not-restored", "the client's window station was not restored");
            h.checkBadHandles(C, "bad-handle");
            // everything the attempt started goes away
            for (size_t i = nAg; i < h.agents.size(); ++i) {
                Process *a = h.agents[i].get();
                if (!waitFor("agent-exit", [a] { return a->exited; }, kAgentExitBound + 3000)) violate("agent-left-behind", a->label + " is still running after its client let go");
            }
            if (!waitFor("pipes-gone", [&] { for (auto &p : h.w.pipes) if (p->name.find(u"winpty-") != ustr::npos) return false; return true; }, 2000)) violate("pipe-left-behind", "a winpty pipe exists after the session ended");
        };
        cycle(false);
        C->failSyscalls = (fails & 1) != 0; armed = fails != 0;
        int n = range(GEN, 1, 2);
        for (int i = 0; i < n; ++i) {
            if (fails) { static const uint32_t gap[] = {30, 12, 80, 160}; planFault(F_SYSCALL_FAIL, gap[choose(FAULT, 4)], range(FAULT, 1, 2)); h.w.failPersist = choose(FAULT, 5) == 4; h.w.injected = 0; }
            cycle(true);
        }
        nontrivial(); stat("sessions-opened", opened); stat("opens-refused", refused); stat("calls-failed", callFail);
        stateSig(hashBytes(log.data(), log.size()) ^ hashBytes(h.w.lastInjectedApi.data(), h.w.lastInjectedApi.size()));
        g_sample = fmt("fails=%d opened=%d refused=%d failed-calls=%d last injected: %s (%s)", fails, opened, refused, callFail, h.w.lastInjectedApi.c_str(), log.c_str());
        for (auto &a : h.agents) { a->crashed = false; }
    });
}
// The agent's own handle table must not grow with the number of requests.
SCENARIO(agentleak) {
    Rig r; Harness &h = r.h; h.world(param & 1); h.w.cfg.fontLimits = false;
    h.execHook = [&](ProcP, const SpawnReq &q) -> uint32_t { return u8(q.app) == "missing" ? (uint32_t)ERROR_FILE_NOT_FOUND : ~0u; };
    h.programs["app"] = [&](App &a) { for (;;) { Workload wl; wl.run(a, 5); if (choose(GEN, 2)) { ScreenP n = a.con->appNewBuffer(); a.con->appActivate(n); sleepFor(range(GEN, 1, 90)); a.con->appActivate(a.con->primary); } sleepFor(range(GEN, 10, 100)); } };
    h.start([&] {
        Harness::OpenOpts o; if (choose(GEN, 3) == 2) o.flags |= WINPTY_FLAG_CONERR;
        r.s = h.open(o);
        Reader *rd = h.startReader(r.s.conout); Reader *re = r.s.conerr.empty() ? nullptr : h.startReader(r.s.conerr); (void)rd; (void)re;
        ActorPipe in; in.open(h.client.get(), r.s.conin, g_now + 5000);
        bool spawned = false; int peak = 0, base = 0;
        int rounds = range(GEN, 6, 14);
        for (int i = 0; i < rounds; ++i) {
            for (int k = 0; k < 6; ++k) {
                ErrP e = nullptr;
                switch (choose(GEN, 4)) {
                case 0: h.api.set_size(r.s.wp, range(GEN, 20, 100), range(GEN, 5, 50), &e); break;
                case 1: { int b[100]; h.api.get_console_process_list(r.s.wp, b, 100, &e); break; }
                case 2: if (!spawned) { bool p = choose(GEN, 2); Spawner z = doSpawn(r, "missing", p, !p); (void)z; } break;
                default: in.write("abc\x1b[A\x1b"); sleepFor(choose(GEN, 80));
                }
                if (e) violate("failed-without-cause", fmt("a call failed with error %u", (unsigned)h.takeErr(e)));
            }
            if (i == 2 && choose(GEN, 2)) { Spawner z = doSpawn(r, "app", choose(GEN, 2), choose(GEN, 2)); if (!z.ok) violate("spawn-failed", "winpty_spawn failed"); spawned = true; }
            sleepFor(60);
            int n = handlesOf(r.s.agent);
            if (i == 3) base = n;
            peak = std::max(peak, n);
        }
        // quiesce: transient handles (opened console buffers) are closed between polls
        int n = 1 << 30;
        pollFor([&] { n = std::min(n, handlesOf(r.s.agent)); return n <= base; }, 500, 1);
        if (n > base) violate("agent-handle-leak", fmt("the agent's handle count grew from %d to %d: %s", base, n, handleReport(r.s.agent).c_str()));
        h.checkBadHandles(r.s.agent, "bad-handle"); h.checkBadHandles(h.client.get(), "bad-handle");
        nontrivial(); stateSig(mix(base, peak)); g_sample = fmt("rounds=%d handles base=%d end=%d peak=%d", rounds, base, n, peak);
        h.closeSession(r.s);
    });
}
static RegCheck c15("C15", "a run counts as non-trivial when at least two whole sessions ran and the client's handles, heap blocks and pending I/O were compared before and after each",
    {{"leak", 0, 150, 2000}, {"leak", 1, 900, 14000}, {"leak", 2, 500, 8000}, {"leak", 3, 300, 6000}, {"agentleak", 0, 60, 800}, {"agentleak", 1, 120, 1500}});

// ------------------------------------------------------------------ open
// param: 0 nothing wrong, 1 executable missing, 2 CreateProcess fails, 3 agent crashes during start-up, 4 agent stalls, 5 impostor/rogue agent,
// 6 client system calls fail, 7 agent system calls fail
SCENARIO(open) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    static const char *envs[] = {"", "", "force_desktop", "force_desktop_spawn", "force_desktop_curproc", "no_desktop", "trace"};
    std::string dbg = envs[choose(GEN, 7)];
    h.programs["app"] = [&](App &a) { (void)a; waitFor("forever", [] { return false; }, -1); };
    int mode = param; RogueCtl rogue; int rogueKind = -1; bool wellBehaved = false;
    int createErr = 1 + choose(GEN, 2000); int agentNo = 0, failAgent = choose(GEN, 3) == 2 ? 1 : 0;
    int64_t stall = 0; std::vector<ProcP> rogues; ProcP victim;
    if (mode == 1) h.w.fileExists = [](const ustr &) { return false; };
    int64_t timeout = 1000 * range(GEN, 1, 4);
    h.execHook = [&](ProcP c, const SpawnReq &q) -> uint32_t {
        if (!isAgent(q)) return ~0u;
        int no = agentNo++;
        bool hit = no == failAgent;
        if (mode == 2 && hit) { return (uint32_t)createErr; }
        if (mode == 3 && hit) { victim = c; c->crashable = true; static const uint32_t gap[] = {30, 120, 8}; planFault(F_PROC_CRASH, gap[choose(FAULT, 3)], 1); }
        if (mode == 4 && hit) { ProcP cc = c; static const int pct[] = {50, 300, 120}; stall = timeout * pct[choose(FAULT, 3)] / 100; countFault(F_STALL);
            int64_t when = g_now + choose(FAULT, 30), s = stall; at(when, [cc, s] { for (Fiber *f : cc->fibers) f->stalledUntil = g_now + s; }); }
        if (mode == 7 && hit) { c->failSyscalls = true; static const uint32_t gap[] = {20, 60, 6}; planFault(F_SYSCALL_FAIL, gap[choose(FAULT, 3)], 1); }
        if (mode == 5 && hit) { rogueKind = choose(FAULT, 8); rogues.push_back(c); startRogueOpen(h, c, q, rogueKind, timeout, &wellBehaved); return 0; }
        return ~0u;
    };
    h.start([&] {
        Process *C = h.client.get();
        C->envA["WINPTY_DEBUG"] = dbg;
        int h0 = handlesOf(C); size_t l0 = C->localAllocs.size();
        if (mode == 6) { C->failSyscalls = true; static const uint32_t gap[] = {25, 8, 60}; planFault(F_SYSCALL_FAIL, gap[choose(FAULT, 3)], range(FAULT, 1, 2)); 
            h.w.failOnly = {"AllocateAndInitializeSid", "ConnectNamedPipe", "CreateDesktopW", "CreateEventW", "CreateFileW", "CreateNamedPipeW", "CreateProcessW", "CreateWindowStationW", "CryptAcquireContextW", "GetFileAttributesW",
                "GetNamedPipeClientProcessId", "GetTokenInformation", "GetUserObjectInformationW", "InitializeSecurityDescriptor", "LocalAlloc", "OpenProcessToken", "ReadFile", "SetEntriesInAclW", "SetSecurityDescriptorDacl", "WaitForMultipleObjects", "SystemFunction036"}; }
        ErrP e = nullptr; UINT64 flags = choose(GEN, 16);
        CfgP cfg = h.api.config_new(flags, &e);
        if (!cfg) violate("config-new", "winpty_config_new failed");
        h.api.config_set_initial_size(cfg, range(GEN, 1, 200), range(GEN, 1, 80));
        h.api.config_set_mouse_mode(cfg, choose(GEN, 3));
        h.api.config_set_agent_timeout(cfg, (DWORD)timeout);
        int64_t t0 = g_now; e = nullptr;
        WpP wp = h.api.open(cfg, &e);
        int64_t el = g_now - t0; bool injected = h.w.injected > 0;
        C->failSyscalls = false;
        h.api.config_free(cfg);
        bool viaAgent = h.agents.size() + rogues.size() > 1;
        int64_t bound = (mode == 5 ? 24 : 5) * timeout * (viaAgent ? 2 : 1) + 4000 + 30 * g_sched.stallMax;
        if (el > bound) violate("open-too-long", fmt("winpty_open took %lld ms with a timeout of %lld ms", (long long)el, (long long)timeout));
        // The death of an agent is noticed at once, not when the timeout expires.
        if (!wp && victim && victim->exited && g_now - victim->exitTime > 300 + 20 * g_sched.stallMax) violate("death-unnoticed", fmt("winpty_open needed %lld ms to notice that the agent had died", (long long)(g_now - victim->exitTime)));
        if (pendingIoOf(C, g_cur)) violate("io-outstanding", "winpty_open returned while its pipe I/O was still in flight");
        if (C->winsta != h.w.winsta0) violate("station-not-restored", "the client's window station was not restored");
        if (wp && e) violate("open-err", "winpty_open returned a session and an error");
        if (!wp) {
            if (!e) violate("open-noerr", "winpty_open failed without an error object");
            DWORD code = h.api.error_code(e); LPCWSTR m = h.api.error_msg(e);
            if (!m || !*m) violate("empty-error", "winpty_open failed with an empty message");
            std::string msg = u8(U(m)); h.api.error_free(e);
            stat(fmt("error-%u", (unsigned)code).c_str());
            bool bad = false;
            switch (mode) {
            case 0: bad = true; break;
            case 1: bad = code != WINPTY_ERROR_AGENT_EXE_MISSING; break;
            case 2: bad = code != WINPTY_ERROR_AGENT_CREATION_FAILED; break;
            case 3: bad = code != WINPTY_ERROR_AGENT_DIED && code != WINPTY_ERROR_LOST_CONNECTION && code != WINPTY_ERROR_UNSPECIFIED; break;
            case 4: bad = code != WINPTY_ERROR_AGENT_TIMEOUT || stall + 500 + 20 * g_sched.stallMax < timeout; break;
            case 5: bad = wellBehaved || !rogueCodeOk(rogueKind, code, h.w.cfg.winver); break;
            case 6: bad = !injected || (code != WINPTY_ERROR_UNSPECIFIED && code != WINPTY_ERROR_AGENT_CREATION_FAILED && code != WINPTY_ERROR_AGENT_EXE_MISSING && code != WINPTY_ERROR_LOST_CONNECTION); break;
            case 7: bad = code == WINPTY_ERROR_SUCCESS || code == WINPTY_ERROR_OUT_OF_MEMORY || code == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED || code == WINPTY_ERROR_AGENT_EXE_MISSING || code == WINPTY_ERROR_AGENT_CREATION_FAILED; break;
            }
            if (bad) violate("open-code", fmt("winpty_open failed with error %u (%s), which does not describe what happened (case %d, rogue %d)", (unsigned)code, msg.c_str(), mode, rogueKind));
            if (handlesOf(C) != h0) violate("handle-leak", fmt("a failed winpty_open left %d handles: %s", handlesOf(C) - h0, handleReport(C).c_str()));
            if (C->localAllocs.size() != l0) violate("memory-leak", "a failed winpty_open leaked LocalAlloc memory");
            for (auto &p : h.w.pipes) if (p->owner == C) violate("pipe-left-behind", "a failed winpty_open left a pipe open");
            stat("refused");
        } else {
            if (mode == 1) violate("open-invented", "winpty_open succeeded without an agent executable");
            if (mode == 2 && failAgent == 0) violate("open-invented", "winpty_open succeeded although no agent could be started");
            Session s; s.wp = wp; s.agent = h.agentOf(wp);
            bool rogueMain = s.agent->kind != "agent";
            if (!rogues.empty() && !wellBehaved) violate("open-invented", fmt("winpty_open succeeded although one of its agents never completed the handshake (rogue %d)", rogueKind));
            if (rogueMain && !wellBehaved) violate("open-invented", fmt("winpty_open succeeded with an agent that never completed the handshake (rogue %d)", rogueKind));
            ustr in = U(h.api.conin_name(wp)), out = U(h.api.conout_name(wp)); LPCWSTR en = h.api.conerr_name(wp);
            if (in.empty() || out.empty() || in == out) violate("open-names", "the pipe names are missing or equal");
            if (((flags & WINPTY_FLAG_CONERR) != 0) != (en != nullptr)) violate("open-names", "the error pipe name does not match the configuration");
            if (!rogueMain && !s.agent->exited && mode != 3 && mode != 7) {
                for (auto &nm : {in, out, en ? U(en) : out}) { auto p = findPipe(nm, false); if (!p || p->owner != s.agent) violate("open-names", "a data pipe does not exist or is not the agent's: " + u8(nm)); }
                int64_t left = mode == 4 ? stall : 0; if (left) sleepFor(left);
                e = nullptr; if (!h.api.set_size(wp, 50, 20, &e)) violate("open-unusable", fmt("the first call on a new session failed with %u", (unsigned)h.takeErr(e)));
                s.con = s.agent->con.get();
                if (!h.spawn(s, {})) violate("open-unusable", "the new session cannot start a program");
            }
            stat("opened");
            h.api.free(wp);
            if (handlesOf(C) != h0) violate("handle-leak", fmt("after winpty_free the client has %d extra handles: %s", handlesOf(C) - h0, handleReport(C).c_str()));
        }
        h.checkBadHandles(C, "bad-handle");
        for (auto &a : h.agents) {
            Process *ap = a.get();
            if (!waitFor("agent-exit", [ap] { return ap->exited; }, stall + kAgentExitBound)) violate("agent-left-behind", ap->label + " is still running although the client holds no session");
        }
        for (auto &a : h.agents) a->crashed = false;
        nontrivial(); stateSig(mix(mix(mode * 100 + rogueKind + 1, wp ? 1 : 0), hashBytes(h.w.lastInjectedApi.data(), h.w.lastInjectedApi.size()) ^ hashBytes(dbg.data(), dbg.size())));
        g_sample = fmt("case=%d debug=%s win=%d flags=%llu opened=%d rogue=%d injected=%s elapsed=%lld", mode, dbg.c_str(), h.w.cfg.winver, (unsigned long long)flags, wp != nullptr, rogueKind, h.w.lastInjectedApi.c_str(), (long long)el);
    });
}
static RegCheck c16("C16", "a run counts as non-trivial when winpty_open returned under the chosen fault and its result, error, handles and left-over processes were judged",
    {{"open", 0, 150, 1500}, {"open", 1, 40, 300}, {"open", 2, 100, 1000}, {"open", 3, 400, 7000}, {"open", 4, 250, 4000}, {"open", 5, 500, 8000}, {"open", 6, 500, 9000}, {"open", 7, 400, 6000}});

// ------------------------------------------------------------------ bad replies
// The agent (simulated by the harness) completes the handshake and then answers one call wrongly.
SCENARIO(badreply) {
    Harness h; h.world(1);
    int64_t timeout = 1000; RogueCtl ctl; ProcP rogueP;
    h.execHook = [&](ProcP c, const SpawnReq &q) -> uint32_t { if (!isAgent(q)) return ~0u; rogueP = c; startRogueServer(h, c, q, &ctl); return 0; };
    h.w.cfg.winver = std::max(h.w.cfg.winver, 7);
    h.start([&] {
        Process *C = h.client.get();
        Harness::OpenOpts o; o.timeout = (DWORD)timeout; DWORD code = 0; int h0 = handlesOf(C);
        WpP wp = h.tryOpen(o, &code);
        if (!wp) violate("open-failed", fmt("winpty_open rejected a correct handshake with %u", (unsigned)code));
        if (U(h.api.conin_name(wp)) != ctl.conin || U(h.api.conout_name(wp)) != ctl.conout) violate("open-names", "the pipe names differ from what the agent sent");
        int64_t heap0 = C->heapPeak; (void)heap0;
        int ops = range(GEN, 1, 6), badAt = choose(FAULT, (uint32_t)ops); bool failed = false; std::string log;
        for (int i = 0; i < ops; ++i) {
            ctl.bad = i == badAt && !failed; int k = choose(GEN, 3); bool ok = false; int64_t t0 = g_now; code = 0; ErrP e = nullptr;
            uint64_t req0 = ctl.requests;
            if (k == 0) { int a = range(GEN, 1, 500), b = range(GEN, 1, 500); ok = h.api.set_size(wp, a, b, &e);
                if (ok && (ctl.lastA != a || ctl.lastB != b)) violate("request-wrong", fmt("winpty_set_size(%d, %d) was sent as %d, %d", a, b, ctl.lastA, ctl.lastB)); }
            else if (k == 1) { int cap = choose(GEN, 4) == 3 ? 2 : 100; int buf[108]; for (int j = 0; j < 108; ++j) buf[j] = 0x5a5a5a5a;
                int n = h.api.get_console_process_list(wp, buf, cap, &e); ok = !e;
                for (int j = cap; j < 108; ++j) if (buf[j] != 0x5a5a5a5a) violate("proclist-overrun", fmt("element %d of a buffer of %d was written", j, cap));
                if (ok && !ctl.sentBad) { if (n != (int)ctl.pids.size()) violate("proclist-wrong", "the count differs from the agent's reply"); if (n <= cap) for (int j = 0; j < n; ++j) if (buf[j] != ctl.pids[j]) violate("proclist-wrong", "an element differs from the agent's reply"); } }
            else { ustr app = u"prog.exe", cwd = u"C:\\x"; ErrP e2 = nullptr; SpawnP c = h.api.spawn_config_new(1, W(app), nullptr, W(cwd), nullptr, &e2); HANDLE ph = nullptr; DWORD cpe = 0;
                ok = h.api.spawn(wp, c, choose(GEN, 2) ? &ph : nullptr, nullptr, &cpe, &e); h.api.spawn_config_free(c);
                if (ok) violate("spawn-invented", "winpty_spawn succeeded although no program was started");
                if (e && h.api.error_code(e) == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED && !failed && !ctl.sentBad) { if (cpe != ctl.spawnErr) violate("spawn-cpe", fmt("error %u reported instead of %u", (unsigned)cpe, ctl.spawnErr)); ok = true; } }
            if (e) code = h.takeErr(e);
            if (pendingIoOf(C, g_cur)) violate("io-outstanding", "a call returned while its pipe I/O was still in flight");
            if (g_now - t0 > 30 * timeout) violate("call-too-long", "a call took longer than thirty timeouts");
            if (failed) { if (ok) violate("failed-session-answered", "a call succeeded after a malformed reply"); if (ctl.requests != req0) violate("failed-session-wire", "a call after a malformed reply was still sent"); }
            else if (ctl.bad && ctl.sentBad) {
                if (ok) violate("malformed-accepted", fmt("a malformed reply (%s) was accepted", ctl.what.c_str()));
                if (code != WINPTY_ERROR_UNSPECIFIED && code != WINPTY_ERROR_OUT_OF_MEMORY && code != WINPTY_ERROR_AGENT_TIMEOUT && code != WINPTY_ERROR_LOST_CONNECTION) violate("malformed-code", fmt("a malformed reply (%s) was reported as error %u", ctl.what.c_str(), (unsigned)code));
                failed = true; stat(("bad-" + ctl.what.substr(0, ctl.what.find(' '))).c_str());
            } else if (!ok) violate("failed-without-cause", fmt("a call failed with %u although the reply was correct", (unsigned)code));
            log += fmt("%d%d ", k, ok);
        }
        h.api.free(wp);
        if (handlesOf(C) != h0) violate("handle-leak", fmt("after winpty_free the client has %d extra handles", handlesOf(C) - h0));
        h.checkBadHandles(C, "bad-handle");
        if (!waitFor("rogue", [&] { return ctl.disconnected; }, 5000)) violate("pipe-left-behind", "the control pipe stayed open after winpty_free");
        nontrivial(); stateSig(hashBytes(ctl.what.data(), ctl.what.size()) ^ hashBytes(log.data(), log.size()));
        g_sample = fmt("ops: %s bad reply: %s", log.c_str(), ctl.what.c_str());
    });
}

// ------------------------------------------------------------------ wire
// The harness plays the library against the real agent: arbitrary segmentation of
// requests, unknown message types, and (param 1) malformed packets.
SCENARIO(wire) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    Family fam(h);
    bool malformed = param & 1;
    h.execHook = [&](ProcP, const SpawnReq &q) -> uint32_t { std::string a = u8(q.app); if (a.compare(0, 5, "fail-") == 0) return (uint32_t)atoi(a.c_str() + 5); return ~0u; };
    h.start([&] {
        ustr name = u"\\\\.\\pipe\\test-control";
        HANDLE p = CreateNamedPipeW(W(name), PIPE_ACCESS_DUPLEX | FILE_FLAG_FIRST_PIPE_INSTANCE, 0, 1, choose(GEN, 2) ? 8192 : 300, 256, 0, nullptr);
        if (p == INVALID_HANDLE_VALUE) harnessError("control pipe");
        ustr exe = h.w.cfg.installDir + u"winpty-agent.exe"; bool conerr = choose(GEN, 4) == 3;
        ustr cmd = u"\"" + exe + u"\" " + name + (conerr ? u" 1 1 80 25" : u" 0 1 80 25"); 
        std::vector<wchar_t> cl(W(cmd), W(cmd) + cmd.size() + 1);
        STARTUPINFOW si; memset((void *)&si, 0, sizeof si); si.cb = sizeof si; PROCESS_INFORMATION pi;
        if (!CreateProcessW(W(exe), cl.data(), nullptr, nullptr, FALSE, CREATE_NEW_CONSOLE, nullptr, nullptr, &si, &pi)) harnessError("agent");
        ConnectNamedPipe(p, nullptr);
        Process *ag = h.agents.back().get();
        WireReader wr(p);
        Unpack hello = wr.next();
        ustr conin, conout, cerr;
        if (!hello.ws(conin) || !hello.ws(conout) || (conerr && !hello.ws(cerr)) || !hello.end()) violate("handshake", "the agent's first packet is not the pipe names");
        if (!findPipe(conin, false) || !findPipe(conout, false)) violate("handshake", "the announced pipes do not exist");
        // requests
        struct Want { int kind; uint32_t err; int cols, rows; };
        std::vector<Want> want; std::string bytes; int n = range(GEN, 1, 14); bool spawned = false;
        for (int i = 0; i < n; ++i) {
            Pkt q; Want w{(int)choose(GEN, 5), 0, 0, 0};
            if (w.kind == 0) { w.cols = range(GEN, 2, 300); w.rows = range(GEN, 2, 120); q.i32(1); q.i32(w.cols); q.i32(w.rows); want.push_back(w); }
            else if (w.kind == 1) { q.i32(2); want.push_back(w); }
            else if (w.kind == 2 && !spawned) {
                w.err = 1 + choose(GEN, 60000); ustr env; int big = choose(GEN, 3) == 2 ? range(GEN, 1000, 120000) : range(GEN, 0, 200);
                if (big) { for (int j = 0; j < big; ++j) env.push_back(u'a' + j % 26); env.push_back(0); env.push_back(0); }
                q.i32(0); q.i64(0); q.i32(1); q.i32(1); q.ws(u16of(fmt("fail-%u", w.err))); q.ws(u"x"); q.ws(u""); q.ws(env); q.ws(u""); want.push_back(w);
            } else if (w.kind == 3) { q.i32(3 + choose(GEN, 1000)); int extra = choose(GEN, 30); for (int j = 0; j < extra; ++j) q.b.push_back((char)choose(GEN, 256)); w.kind = -1; }   // unknown type: ignored
            else { q.i32(1); w.kind = 0; w.cols = 80; w.rows = 25; q.i32(80); q.i32(25); want.push_back(w); }
            bytes += q.done();
        }
        std::string what;
        size_t goodLen = bytes.size();
        if (malformed) {
            Pkt q; int k = choose(FAULT, 9); countFault(F_AGENT_BADREPLY);
            if (k == 0) { what = "size-too-small"; q.i32(2); std::string z = q.done(); uint64_t v = choose(FAULT, 8); memcpy(&z[0], &v, 8); bytes += z; }
            else if (k == 1) { what = "wrong-tag"; q.i64(1); q.i32(80); q.i32(25); bytes += q.done(); }
            else if (k == 2) { what = "truncated"; q.i32(1); q.i32(80); bytes += q.done(); }
            else if (k == 3) { what = "trailing"; q.i32(2); q.i32(1); bytes += q.done(); }
            else if (k == 4) { what = "string-length"; static const uint64_t L[] = {0x7fffffffffffffffull, 0x3fffffffull, 1000000, 0x4000000000000000ull, 0xffffffffffffffffull, 5, 0x8000000000000000ull, 0x8000000000000001ull, 0x4000000000000001ull};
                q.i32(0); q.i64(0); q.i32(0); q.i32(0); q.b.push_back(2); uint64_t v = L[choose(FAULT, 9)]; q.b.append((char *)&v, 8); q.b.append("ab", 2); if (choose(FAULT, 2)) { q.b.append("cdef", 4); q.ws(u""); q.ws(u""); q.ws(u""); q.ws(u""); } bytes += q.done(); }
            else if (k == 5) { what = "empty"; bytes += q.done(); }
            else if (k == 6) {
                // one piece of an otherwise sound packet carries another kind's tag
                what = "wrong-tag"; size_t at = 0; int z = choose(FAULT, 5);
                if (z == 0) { q.i32(1); at = q.b.size(); q.i32(80); q.i32(25); }
                else if (z == 1) { q.i32(1); q.i32(80); at = q.b.size(); q.i32(25); }
                else if (z == 2) { at = q.b.size(); q.i32(2); }
                else { q.i32(0); size_t a1 = q.b.size(); q.i64(0); size_t a2 = q.b.size(); q.i32(1); q.i32(1); size_t a3 = q.b.size(); q.ws(u"fail-5"); q.ws(u"x"); q.ws(u""); q.ws(u""); q.ws(u""); at = z == 3 ? a1 : choose(FAULT, 2) ? a2 : a3; }
                static const unsigned char T[] = {0, 1, 2, 3, 0xff}; unsigned char t; do t = T[choose(FAULT, 5)]; while (t == (unsigned char)q.b[at]); q.b[at] = (char)t; bytes += q.done();
            } else if (k == 7) { what = "trailing"; int z = choose(FAULT, 3); if (z == 0) { q.i32(1); q.i32(80); q.i32(25); } else if (z == 1) q.i32(2); else { q.i32(0); q.i64(0); q.i32(1); q.i32(1); q.ws(u"fail-5"); q.ws(u"x"); q.ws(u""); q.ws(u""); q.ws(u""); } int m = 1 + choose(FAULT, 12); for (int j = 0; j < m; ++j) q.b.push_back((char)choose(FAULT, 256)); bytes += q.done(); }
            else { what = "short-size-field"; bytes += std::string("\x10\0\0", 3); }
        }
        // A separate thread sends while this one receives.
        // A malformed packet goes out either after all replies arrived or straight behind the
        // requests; then replies still queued in the agent may be lost.
        bool sent = false, sendFailed = false, answered = false, early = malformed && choose(FAULT, 2);
        spawnThread(h.client.get(), "sender", [&] {
            size_t off = 0; int style = choose(GEN, 3);
            while (off < bytes.size()) {
                if (off == goodLen && malformed && !early) waitFor("answered", [&] { return answered; }, -1);
                size_t left = (malformed && !early && off < goodLen ? goodLen : bytes.size()) - off, k = style == 0 ? left : style == 1 ? 1 + choose(SCHED, (uint32_t)std::min<size_t>(left, 40)) : 1 + choose(SCHED, (uint32_t)std::min<size_t>(left, 5000));
                if (bytes.size() > 20000 && k < 500) k = std::min<size_t>(left, 500 + k);
                DWORD put = 0;
                if (!WriteFile(p, bytes.data() + off, (DWORD)k, &put, nullptr)) { sendFailed = true; break; }
                off += k;
                if (choose(SCHED, 4) == 3) sleepFor(choose(SCHED, 60));
            }
            sent = true;
        });
        for (size_t i = 0; i < want.size(); ++i) {
            Unpack u = wr.next(); Want &w = want[i];
            if (wr.failed && early) break;
            if (wr.failed) violate("request-unanswered", fmt("request %zu of %zu was not answered", i, want.size()));
            if (w.kind == 0) { if (!u.end()) violate("reply-wrong", "the reply to SetSize is not empty"); }
            else if (w.kind == 1) { int c = 0; if (!u.i32(c) || c < 0 || (!early && c != (int)ag->con->attached.size())) violate("reply-wrong", fmt("the process list reply says %d", c)); for (int j = 0; j < c; ++j) { int pid = 0; if (!u.i32(pid)) violate("reply-wrong", "the process list reply is short"); } if (!u.end()) violate("reply-wrong", "the process list reply is too long"); }
            else if (w.kind == 2) { int res = -1, er = 0; if (!u.i32(res) || res != 0 || !u.i32(er) || !u.end()) violate("reply-wrong", "the reply to a failing StartProcess is malformed"); if ((uint32_t)er != w.err) violate("reply-wrong", fmt("StartProcess reported error %d instead of %u", er, w.err)); }
        }
        answered = true;
        stat("requests", (int64_t)want.size());
        if (malformed) {
            stat(("malformed-" + what).c_str());
            if (what == "short-size-field") { waitFor("sent", [&] { return sent; }, 5000); sleepFor(500); if (ag->exited) violate("gave-up-early", "the agent exited on an incomplete packet"); CloseHandle(p); }
            if (!waitFor("agent-exit", [&] { return ag->exited; }, kAgentExitBound)) violate("malformed-survives", "the agent kept running after a malformed packet (" + what + ")");
            if (ag->crashed) violate("malformed-crash", "a malformed packet (" + what + ") crashed the agent: " + ag->crashWhy);
        } else {
            // nothing more may arrive and the agent is still healthy
            if (!waitFor("sent", [&] { return sent; }, 60000)) violate("request-stuck", "the agent stopped reading its control pipe");
            sleepFor(200);
            if (ag->exited) violate("agent-exit", "the agent exited after well-formed requests");
            Pkt q; q.i32(1); q.i32(77); q.i32(22); std::string z = q.done(); DWORD put; WriteFile(p, z.data(), (DWORD)z.size(), &put, nullptr);
            Unpack u = wr.next(); if (wr.failed || !u.end()) violate("reply-wrong", "replies are out of step with requests");
            ScreenBuf &b = *ag->con->primary; if (b.winW() != 77 || b.winH() != 22) violate("size-not-applied", "the last SetSize was not applied");
            CloseHandle(p);
            if (!waitFor("agent-exit", [&] { return ag->exited; }, kAgentExitBound)) violate("agent-left-behind", "the agent keeps running after its control pipe was closed");
        }
        (void)goodLen; (void)sendFailed;
        h.checkBadHandles(ag, "bad-handle");
        nontrivial(); stateSig(mix(bytes.size(), want.size()) ^ hashBytes(what.data(), what.size()));
        g_sample = fmt("requests=%zu bytes=%zu malformed=%s", want.size(), bytes.size(), what.c_str());
    });
}
static RegCheck c20("C20", "a run counts as non-trivial when every request was matched with its reply, or a malformed packet was sent and its effect judged",
    {{"wire", 0, 500, 8000}, {"wire", 1, 600, 9000}, {"badreply", 0, 1200, 18000}},
    {{"wire", 0, 100, 3000}, {"wire", 1, 250, 8000}, {"badreply", 0, 300, 9000}});

// ------------------------------------------------------------------ oom
// An allocation inside the library fails (param bit 0: and all later ones as well).
SCENARIO(oom) {
    Harness h; h.world(0); h.w.cfg.fontLimits = false;
    bool persist = param & 1;
    h.programs["app"] = [&](App &a) { (void)a; waitFor("forever", [] { return false; }, -1); };
    h.execHook = [&](ProcP, const SpawnReq &q) -> uint32_t { return u8(q.app) == "missing" ? (uint32_t)ERROR_FILE_NOT_FOUND : ~0u; };
    std::string log;
    h.start([&] {
        Process *C = h.client.get(); g_cur->allocFaults = true;
        if (choose(GEN, 3) == 2) C->envA["WINPTY_DEBUG"] = "trace";
        auto arm = [&](int max) { g_allocPersist = persist; g_allocCountdown = 1 + choose(FAULT, (uint32_t)max); };
        int64_t fails0 = 0; auto off = [&] { bool hit = g_faultCounts[F_ALLOC_FAIL] != fails0; fails0 = g_faultCounts[F_ALLOC_FAIL]; g_allocCountdown = -1; g_allocPersist = false; return hit; };
        auto guard = [&](const char *what, std::function<void()> f) { try { f(); } catch (const std::exception &x) { violate("exception-escaped", fmt("%s let a C++ exception (%s) escape its C interface", what, x.what())); } };
        auto judge = [&](const char *what, bool ok, ErrP e, bool hit) {
            if (!ok && !e) violate("no-error-object", std::string(what) + " failed without an error object");
            if (ok && e) violate("error-on-success", std::string(what) + " succeeded with an error object");
            if (!ok) {
                DWORD code = 99; std::string msg;
                guard("winpty_error_code", [&] { code = h.api.error_code(e); });
                guard("winpty_error_msg", [&] { LPCWSTR m = h.api.error_msg(e); if (m) msg = u8(U(m)); });
                if (!hit) violate("failed-without-cause", fmt("%s failed with error %u although no allocation failed", what, (unsigned)code));
                if (code != WINPTY_ERROR_OUT_OF_MEMORY) violate("oom-code", fmt("%s failed with error %u (%s) after an allocation failure", what, (unsigned)code, msg.c_str()));
                if (msg.empty()) violate("empty-error", "the out-of-memory error has no message");
                guard("winpty_error_free", [&] { h.api.error_free(e); });
                stat("oom-errors");
            } else if (hit) stat("oom-absorbed");
        };
        int h0 = handlesOf(C);
        ErrP e = nullptr; CfgP cfg = nullptr; WpP wp = nullptr;
        int where = choose(GEN, 6);      // which call sees the failure
        bool hit = false;
        if (where == 0) arm(4);
        guard("winpty_config_new", [&] { cfg = h.api.config_new(choose(GEN, 2) ? WINPTY_FLAG_CONERR : 0, &e); });
        if (where == 0) { hit = off(); judge("winpty_config_new", cfg != nullptr, e, hit); log += fmt("cfg%d", cfg != nullptr); }
        if (!cfg) { e = nullptr; cfg = h.api.config_new(0, &e); if (!cfg) violate("oom-sticky", "winpty_config_new fails after memory became available again"); }
        h.api.config_set_agent_timeout(cfg, 2000);
        e = nullptr; bool useErr = where != 1 || choose(GEN, 4) != 3;
        if (where == 1) arm(choose(GEN, 2) ? 40 : 200);
        guard("winpty_open", [&] { wp = h.api.open(cfg, useErr ? &e : nullptr); });
        if (where == 1) {
            hit = off(); if (useErr) judge("winpty_open", wp != nullptr, e, hit); else if (!wp && !hit) violate("failed-without-cause", "winpty_open failed");
            if (!wp && handlesOf(C) != h0) violate("handle-leak", fmt("winpty_open ran out of memory and left %d handles: %s", handlesOf(C) - h0, handleReport(C).c_str()));
            if (C->winsta != h.w.winsta0) violate("station-not-restored", "the window station was not restored after an allocation failure");
            log += fmt("open%d", wp != nullptr);
            if (!wp) { e = nullptr; wp = h.api.open(cfg, &e); if (!wp) violate("oom-sticky", fmt("winpty_open fails with %u after memory became available again", (unsigned)h.takeErr(e))); }
        }
        guard("winpty_config_free", [&] { h.api.config_free(cfg); });
        int ops = range(GEN, 1, 5), armAt = where >= 2 ? (int)choose(GEN, (uint32_t)ops) : -1; bool failed = false;
        bool spawned = false;
        for (int i = 0; i < ops; ++i) {
            int k = choose(GEN, 4); bool ok = false; e = nullptr; hit = false;
            if (i == armAt) arm(k >= 2 ? 30 : 12);
            if (k == 0) guard("winpty_set_size", [&] { ok = h.api.set_size(wp, range(GEN, 10, 100), range(GEN, 5, 40), &e); });
            else if (k == 1) guard("winpty_get_console_process_list", [&] { int b[50]; int n = h.api.get_console_process_list(wp, b, 50, &e); ok = !e; if (!ok && n) violate("proclist-result", "an error came with a count"); });
            else {
                if (spawned) { off(); continue; }
                SpawnP c = nullptr; ustr app = k == 2 ? u"missing" : u"app", cwd(choose(GEN, 300), u'd'), env = u"X=yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"; env.push_back(0); env.push_back(0);
                guard("winpty_spawn_config_new", [&] { c = h.api.spawn_config_new(0, W(app), W(app), cwd.empty() ? nullptr : W(cwd), W(env), &e); });
                if (!c) { hit = off(); judge("winpty_spawn_config_new", false, e, hit); log += "sc0"; continue; }
                if (e) violate("error-on-success", "winpty_spawn_config_new succeeded with an error");
                HANDLE ph = nullptr; DWORD cpe = 0; bool cp = false;
                guard("winpty_spawn", [&] { ok = h.api.spawn(wp, c, &ph, nullptr, &cpe, &e); });
                if (!ok && ph) violate("spawn-handles", "winpty_spawn failed but returned a handle");
                if (!ok && e && h.api.error_code(e) == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED && k == 2) { cp = true; h.api.error_free(e); e = nullptr; ok = true; if (cpe != ERROR_FILE_NOT_FOUND) violate("spawn-cpe", "wrong CreateProcess error"); }
                guard("winpty_spawn_config_free", [&] { h.api.spawn_config_free(c); });
                if (ok && !cp) { spawned = true; CloseHandle(ph); }
            }
            if (i == armAt) { hit = off(); if (failed && !ok) { DWORD cd = e ? h.takeErr(e) : 0; if (cd != WINPTY_ERROR_OUT_OF_MEMORY && cd != WINPTY_ERROR_UNSPECIFIED) violate("oom-code", fmt("a call on a failed session reported %u", (unsigned)cd)); } else judge("a session call", ok, e, hit); if (!ok) failed = true; }
            else if (failed) { if (!ok) { if (!e) violate("no-error-object", "a call failed without an error"); h.takeErr(e); }
                /* either outcome is allowed: the session may or may not have survived */ }
            else if (!ok) violate("failed-without-cause", fmt("a call failed with error %u although no allocation failed", (unsigned)h.takeErr(e)));
            if (pendingIoOf(C, g_cur)) violate("io-outstanding", "a call returned while its pipe I/O was still in flight");
            log += fmt(" %d%d%s", k, ok, hit ? "!" : "");
        }
        if (where == 5) arm(3);
        guard("winpty_free", [&] { h.api.free(wp); });
        if (where == 5) off();
        if (handlesOf(C) != h0) violate("handle-leak", fmt("after winpty_free the client has %d extra handles: %s", handlesOf(C) - h0, handleReport(C).c_str()));
        h.checkBadHandles(C, "bad-handle");
        for (auto &a : h.agents) { Process *ap = a.get(); if (!waitFor("agent-exit", [ap] { return ap->exited; }, kAgentExitBound)) violate("agent-left-behind", ap->label + " is still running"); }
        nontrivial(); stateSig(hashBytes(log.data(), log.size()) ^ where);
        g_sample = fmt("failing call kind=%d persist=%d: %s", where, persist, log.c_str());
    });
}
static RegCheck c21("C21", "a run counts as non-trivial when the sequence of library calls with an injected allocation failure completed and every result was judged",
    {{"oom", 0, 1000, 15000}, {"oom", 1, 1000, 15000}});
