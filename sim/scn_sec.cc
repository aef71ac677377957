// C17 pipe authenticity, C18 spawn parameters, C19 process list, C28 background desktop.
#include "libtools.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>

static bool winptyPipe(const ustr &n) { return n.find(u"winpty-") != ustr::npos; }
static const ustr kDebugPipe = u"\\\\.\\pipe\\DebugServer";
static const char *kForeign = "S-1-5-21-2000";

// ------------------------------------------------------------------ squat
// param 0: a foreign user attacks every pipe while a normal session runs
//       1: the n-th pipe name is already taken by a foreign process
//       2: a process of the same user races the agent to the control pipe
//       3: how much of each pipe name depends on the random source
static const char *kDesktopFlags[] = {"", "", "force_desktop", "force_desktop_spawn", "force_desktop_curproc", "no_desktop"};

static std::vector<ustr> namesOfRun(int flip) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    std::vector<ustr> names;
    h.w.onPipeCreate = [&](PipeServer &p) { if (winptyPipe(p.name)) names.push_back(p.name); };
    if (flip >= 0) h.w.onRandom = [flip](unsigned char *b, uint32_t n) { if ((uint32_t)flip < n) b[flip] ^= 1 << (flip & 7); };
    h.start([&] {
        Harness::OpenOpts o; if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_CONERR;
        h.client->envA["WINPTY_DEBUG"] = kDesktopFlags[choose(GEN, 6)];
        Session s = h.open(o); h.closeSession(s);
    });
    return names;
}

SCENARIO(squat) {
    if (param == 3) {
        // The same execution twice, with one byte of every block of random bytes changed.
        int flip = choose(FAULT, 16);
        struct Sh { int n; uint64_t h[32]; }; Sh *sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) harnessError("mmap");
        pid_t pid = fork();
        if (pid == 0) {
            struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(60);
            auto v = namesOfRun(flip);
            for (size_t i = 0; i < v.size() && i < 32; ++i) sh->h[i] = hashBytes(v[i].data(), v[i].size() * 2);
            sh->n = (int)std::min<size_t>(v.size(), 32); _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        auto a = namesOfRun(-1);
        if (g_verdict.violated) return;
        if (a.size() < 3) violate("predictable-name", "fewer than three pipes were created");
        if (sh->n) for (auto &n : a) { uint64_t hh = hashBytes(n.data(), n.size() * 2); for (int i = 0; i < sh->n; ++i) if (sh->h[i] == hh) violate("predictable-name", fmt("the pipe name %s does not depend on byte %d of the random source", u8(n).c_str(), flip)); }
        std::set<ustr> uniq(a.begin(), a.end()); if (uniq.size() != a.size()) violate("name-reused", "two pipes of one session share a name");
        nontrivial(); stateSig(flip); g_sample = fmt("flip byte %d of each random block, %zu names", flip, a.size());
        return;
    }
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    h.programs["app"] = [&](App &a) { a.con->appWrite(u"hello\r\n"); waitFor("forever", [] { return false; }, -1); };
    std::vector<ustr> names; std::string log;
    std::vector<std::shared_ptr<PipeServer>> traps; int target = choose(FAULT, 5), seen = 0;
    ustr control; ProcP attacker;
    bool impostorIn = false, done = false, traced = false;
    h.w.onPipeCreate = [&](PipeServer &p) {
        if (!winptyPipe(p.name) || p.owner == attacker.get()) return;
        if (std::find(names.begin(), names.end(), p.name) != names.end()) violate("name-reused", "a pipe name was used twice: " + u8(p.name));
        names.push_back(p.name);
        if (p.name.find(u"winpty-control-") != ustr::npos) control = p.name;
        if (h.w.cfg.winver >= 6 && !(p.pipeMode & PIPE_REJECT_REMOTE_CLIENTS)) violate("remote-clients", "a pipe accepts remote clients: " + u8(p.name));
    };
    h.w.onPipeOpen = [&](const ustr &name, std::shared_ptr<PipeServer> s, std::shared_ptr<PipeClient> c, uint32_t, uint32_t flags) {
        for (auto &t : traps) if (t == s) violate("trapped", fmt("%s connected to a pipe owned by a foreign process: %s", c->owner->label.c_str(), u8(name).c_str()));
        if (c->owner->kind == "agent" && winptyPipe(name)) {
            // A pipe server must not be able to act with the agent's identity.
            bool sqos = flags & SECURITY_SQOS_PRESENT; uint32_t lvl = flags & 0x30000;
            if (!sqos || lvl > (uint32_t)SECURITY_IDENTIFICATION) violate("impersonation", "the agent lets the server of its control pipe impersonate it");
        }
        if (c->owner->kind != "attacker" && name == kDebugPipe) {
            bool sqos = flags & SECURITY_SQOS_PRESENT; uint32_t lvl = flags & 0x30000; log += "t";
            if (!sqos || lvl > (uint32_t)SECURITY_IDENTIFICATION) violate("impersonation", c->owner->label + " lets whoever serves the debug pipe impersonate it");
        }
    };
    if (param == 1) h.w.onPipePreCreate = [&](Process *p, const ustr &name) {
        if (!winptyPipe(name) || p == attacker.get()) return;
        if (seen++ != target) return;
        auto s = std::make_shared<PipeServer>();
        s->name = name; s->openMode = PIPE_ACCESS_DUPLEX; s->maxInst = 255; s->outSz = s->inSz = 4096; s->owner = attacker.get(); s->ownerUser = kForeign; s->quotaIn = 4096;
        s->defaultAcl = false; s->acl = {{"S-1-1-0", GENERIC_ALL}}; s->label = "trap";
        traps.push_back(s); h.w.pipes.push_back(s); h.w.keep.push_back(s);
        countFault(F_PIPE_SQUAT); ev("squat"); log += fmt("squat %d;", target);
    };
    h.start([&] {
        Process *C = h.client.get();
        attacker = newProcess("attacker", nullptr); attacker->label = "attacker"; attacker->user = param == 2 ? C->user : kForeign;
        Process *A = attacker.get();
        if (param == 0 && choose(GEN, 5) == 4) {
            // the random source does not work: names are still never used twice
            h.w.failOnly = {"SystemFunction036", "CryptAcquireContextW", "CryptGenRandom"}; h.w.failPersist = true; C->failSyscalls = true; planFault(F_SYSCALL_FAIL, 1, 1); log += "no-random ";
            h.execHook = [](ProcP c, const SpawnReq &) -> uint32_t { c->failSyscalls = true; return ~0u; };
        }
        std::string dbg = kDesktopFlags[choose(GEN, 6)];
        if (param == 0 && choose(GEN, 3) == 2) {
            // tracing is on and the debug server belongs to somebody else
            traced = true; dbg += dbg.empty() ? "trace" : ",trace";
            spawnThread(A, "debug-server", [&, A] {
                while (!done) {
                    HANDLE p = CreateNamedPipeW(W(kDebugPipe), PIPE_ACCESS_DUPLEX, PIPE_TYPE_MESSAGE | PIPE_READMODE_MESSAGE, 1, 4096, 4096, 0, nullptr);
                    if (p == INVALID_HANDLE_VALUE) { sleepFor(1); continue; }
                    if (auto s = findPipe(kDebugPipe, false)) { s->defaultAcl = false; s->acl = {{"S-1-1-0", GENERIC_ALL}}; }
                    if (ConnectNamedPipe(p, nullptr) || GetLastError() == ERROR_PIPE_CONNECTED) {
                        countFault(F_PIPE_SQUAT);
                        char b[4200]; DWORD n = 0; if (ReadFile(p, b, sizeof b, &n, nullptr)) WriteFile(p, "OK", 2, &n, nullptr);
                        ReadFile(p, b, sizeof b, &n, nullptr);
                    }
                    CloseHandle(p);
                }
            });
        }
        C->envA["WINPTY_DEBUG"] = dbg;
        h.w.cfg.noRtlGenRandom = choose(GEN, 4) == 3;
        int tries = 0;
        if (param == 0) for (int t = 0; t < 2; ++t) spawnThread(A, "attacker", [&, A] {
            while (!done) {
                sleepFor(choose(FAULT, 12));
                if (names.empty()) continue;
                ustr n = names[choose(FAULT, 4) == 3 ? choose(FAULT, (uint32_t)names.size()) : names.size() - 1];
                if (choose(FAULT, 5) == 4) {
                    bool live = findPipe(n, false) != nullptr; if (!live) continue;
                    uint32_t m = choose(FAULT, 3) == 0 ? PIPE_ACCESS_INBOUND : choose(FAULT, 2) ? PIPE_ACCESS_OUTBOUND : PIPE_ACCESS_DUPLEX;
                    HANDLE p = CreateNamedPipeW(W(n), m | FILE_FLAG_OVERLAPPED, 0, 255, 4096, 4096, 0, nullptr);
                    if (p != INVALID_HANDLE_VALUE) { auto all = findPipe(n, false); if (all && all->owner != A) violate("second-instance", "a foreign process created another instance of " + u8(n)); CloseHandle(p); }
                } else {
                    static const DWORD acc[] = {GENERIC_READ, GENERIC_WRITE, GENERIC_READ | GENERIC_WRITE, GENERIC_READ | FILE_WRITE_ATTRIBUTES, FILE_READ_DATA, FILE_WRITE_DATA};
                    HANDLE p = CreateFileW(W(n), acc[choose(FAULT, 6)], 0, nullptr, OPEN_EXISTING, choose(FAULT, 2) ? FILE_FLAG_OVERLAPPED : 0, nullptr);
                    if (p != INVALID_HANDLE_VALUE) violate("foreign-access", "a process of another user opened " + u8(n));
                }
                tries++; countFault(F_PIPE_SQUAT);
            }
        });
        // Every pipe has one server end: not even its owner's other programs can add a second.
        if (param == 2) spawnThread(A, "second-instance", [&, A] {
            while (!done) {
                sleepFor(choose(FAULT, 8));
                if (names.empty()) continue;
                ustr n = choose(FAULT, 4) == 3 ? names[choose(FAULT, (uint32_t)names.size())] : names.back();
                if (!findPipe(n, false)) continue;
                uint32_t m = choose(FAULT, 3) == 0 ? PIPE_ACCESS_INBOUND : choose(FAULT, 2) ? PIPE_ACCESS_OUTBOUND : PIPE_ACCESS_DUPLEX;
                HANDLE p = CreateNamedPipeW(W(n), m | FILE_FLAG_OVERLAPPED, 0, 255, 4096, 4096, 0, nullptr);
                tries++; countFault(F_PIPE_SQUAT);
                if (p != INVALID_HANDLE_VALUE) { auto all = findPipe(n, false); if (all && all->owner != A) violate("second-instance", "another program created a second server instance of " + u8(n)); CloseHandle(p); }
            }
        });
        if (param == 2) spawnThread(A, "impostor", [&, A] {
            ustr last;
            for (;;) {
                waitFor("control", [&] { return done || control != last; }, -1); if (done) return;
                last = control; sleepFor(choose(FAULT, 3) == 0 ? 0 : choose(FAULT, 25));
                HANDLE p = CreateFileW(W(last), GENERIC_READ | GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, 0, nullptr);
                if (p == INVALID_HANDLE_VALUE) continue;
                impostorIn = true; countFault(F_PIPE_SQUAT); log += "impostor in;"; ev("impostor");
                Pkt k; k.ws(u"\\\\.\\pipe\\evil-in"); k.ws(u"\\\\.\\pipe\\evil-out"); std::string z = k.done(); DWORD put;
                if (choose(FAULT, 2)) sleepFor(choose(FAULT, 10));
                WriteFile(p, z.data(), (DWORD)z.size(), &put, nullptr);
                if (choose(FAULT, 2)) { char b[256]; DWORD got = 0; if (ReadFile(p, b, sizeof b, &got, nullptr) && got && h.w.cfg.winver >= 6) violate("fed-impostor", "the library sent a request to a process that is not its agent"); }
                if (choose(FAULT, 2)) CloseHandle(p);
            }
        });
        int h0 = handlesOf(C);
        Harness::OpenOpts o; o.timeout = 1000 * range(GEN, 1, 3); if (traced) o.timeout = 60000;
        if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_CONERR;
        if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
        DWORD code = 0; int64_t t0 = g_now; WpP wp = h.tryOpen(o, &code);
        log += wp ? "opened" : fmt("refused %u", (unsigned)code);
        if (g_now - t0 > 9 * (int64_t)o.timeout + 3000) violate("open-too-long", "winpty_open took too long under attack");
        if (param == 0) {
            if (!wp) violate("attack-denies", fmt("attempts by another user made winpty_open fail with %u", (unsigned)code));
            Session s; s.wp = wp; s.agent = h.agentOf(wp); s.con = s.agent->con.get(); s.con->primary->clearedTo = 0;
            s.conin = U(h.api.conin_name(wp)); s.conout = U(h.api.conout_name(wp));
            sleepFor(choose(GEN, 100));
            Reader *r = h.startReader(s.conout); r->keep = true; ActorPipe in;
            if (!in.open(C, s.conin, g_now + (traced ? 60000 : 5000))) violate("attack-denies", "the owner could not connect its input pipe");
            h.spawn(s, {});
            if (!waitFor("hello", [&] { return r->all.find("hello") != std::string::npos; }, traced ? 60000 : 5000)) violate("attack-denies", "the session's output did not arrive");
            in.write("x");
            if (!waitFor("input", [&] { return !s.con->allInput.empty(); }, traced ? 60000 : 5000)) violate("attack-denies", "the session's input did not arrive");
            h.closeSession(s);
        } else if (wp) {
            Process *ag = h.agentOf(wp);
            if (param == 1 && seen > target) violate("squatted-session", "winpty_open succeeded although one of the session's pipe names belonged to a foreign process");
            auto p = findPipe(control, false);
            if (p && p->client && p->client->owner != ag && h.w.cfg.winver >= 6) violate("impostor-session", "the session is connected to a process that is not its agent");
            for (LPCWSTR n : {h.api.conin_name(wp), h.api.conout_name(wp), h.api.conerr_name(wp)}) { if (!n) continue; auto d = findPipe(U(n), false); if (h.w.cfg.winver >= 6 && (!d || d->owner != ag)) violate("impostor-session", "a data pipe of the session is not the agent's: " + u8(U(n))); }
            h.api.free(wp);
        } else {
            if (param == 1 && traps.empty()) violate("failed-without-cause", fmt("winpty_open failed with %u although no name was taken", (unsigned)code));
            if (param == 2 && !impostorIn) violate("failed-without-cause", fmt("winpty_open failed with %u although nobody interfered", (unsigned)code));
        }
        for (auto &t : traps) if (t->everConnected || t->client || !t->in.empty()) violate("trapped", "a foreign pipe was connected: " + u8(t->name));
        if (handlesOf(C) != h0) violate("handle-leak", "handles were left behind");
        done = true;
        for (auto &a : h.agents) { Process *ap = a.get(); if (!waitFor("agent-exit", [ap] { return ap->exited; }, kAgentExitBound)) violate("agent-left-behind", ap->label + " is still running"); a->crashed = false; }
        nontrivial(); stat("attack-attempts", tries); stateSig(hashBytes(log.data(), log.size()) ^ names.size());
        g_sample = fmt("mode %d win=%d: %s attempts=%d names=%zu", param, h.w.cfg.winver, log.c_str(), tries, names.size());
    });
}
static RegCheck c17("C17", "a run counts as non-trivial when a session was opened or refused under attack and every connection made to or by a foreign process was judged",
    {{"squat", 0, 300, 4000}, {"squat", 1, 500, 8000}, {"squat", 2, 900, 14000}, {"squat", 3, 250, 3000}});

// ------------------------------------------------------------------ spawn
static ustr randStr(int maxLen) {
    ustr s; int style = choose(GEN, 6), n = style == 5 ? range(GEN, 1, maxLen) : range(GEN, 1, 40);
    for (int i = 0; i < n; ++i) {
        uint32_t c = 0;
        switch (style) {
        case 0: c = 'a' + choose(GEN, 26); break;
        case 1: { static const char q[] = "\"\\ \"'^%&|<>!a\t\\\\"; c = q[choose(GEN, sizeof q - 1)]; break; }
        case 2: c = 1 + choose(GEN, 0xFFFF); break;                                   // any code unit, also lone surrogates
        case 3: if (i + 1 < n) { s.push_back(0xD800 + choose(GEN, 0x400)); c = 0xDC00 + choose(GEN, 0x400); ++i; } else c = 'z'; break;
        case 4: { static const uint16_t q[] = {1, 2, 0x7f, 0x80, 0xff, 0x100, 0xd800, 0xdfff, 0xfeff, 0xfffe, 0xffff, '\n', '\r'}; c = q[choose(GEN, 13)]; break; }
        default: c = 'A' + (i % 57);
        }
        s.push_back((char16_t)c);
    }
    return s;
}
static std::string clip(const ustr &s) { std::string r = u8(s); return r.size() > 60 ? r.substr(0, 60) + "..." : r; }

// param bit 0: CreateProcess fails at first
SCENARIO(spawn) {
    Rig r; Harness &h = r.h; h.world(1); h.w.cfg.fontLimits = false;
    bool failFirst = param & 1; uint32_t failErr = 0; int created = 0; SpawnReq got; ProcP child; bool quit = false; uint32_t exitCode = choose(GEN, 3) == 2 ? 0xC0000005u : choose(GEN, 100000);
    h.execHook = [&](ProcP c, const SpawnReq &q) -> uint32_t {
        if (isAgent(q)) return ~0u;
        got = q;
        if (failErr) { uint32_t e = failErr; failErr = 0; return e; }
        created++; child = c; c->kind = "app"; c->label = "prog";
        Process *cp = c.get();
        spawnThread(cp, "prog", [&, cp] { waitFor("quit", [&] { return quit; }, -1); processExit(cp, exitCode); fiberExit(); });
        return 0;
    };
    h.start([&] {
        Process *C = h.client.get(); static const char *dbg[] = {"", "", "force_desktop", "force_desktop_spawn", "force_desktop_curproc"};
        C->envA["WINPTY_DEBUG"] = dbg[choose(GEN, 5)];
        Harness::OpenOpts o; bool conerr = choose(GEN, 2); if (conerr) o.flags |= WINPTY_FLAG_CONERR; if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
        r.s = h.open(o); Process *ag = r.s.agent;
        if (choose(GEN, 2)) { h.startReader(r.s.conout); sleepFor(choose(GEN, 80)); }
        int attempts = failFirst ? range(GEN, 2, 4) : 1; std::string log;
        for (int i = 0; i < attempts; ++i) {
            bool last = i == attempts - 1;
            bool hApp = choose(GEN, 3) != 2, hCmd = !hApp || choose(GEN, 2), hCwd = choose(GEN, 2), hEnv = choose(GEN, 3) != 0, neither = !last && choose(GEN, 5) == 4;
            ustr app = randStr(3000), cmd = randStr(32000), cwd = randStr(3000);
            if (neither) hApp = hCmd = false;
            int emptyPart = choose(GEN, 8);      // an empty string means the same as an absent one
            if (emptyPart == 5 && hCmd) app.clear(); if (emptyPart == 6 && hApp) cmd.clear(); if (emptyPart == 7) cwd.clear();
            if (hApp && !app.empty() && app.size() >= 16 && app.compare(app.size() - 16, 16, u"winpty-agent.exe") == 0) app.push_back(u'x');
            ustr env, want; int vars = choose(GEN, 4) == 3 ? range(GEN, 50, 600) : range(GEN, 0, 6); bool huge = choose(GEN, 40) == 39;
            for (int v = 0; v < vars; ++v) { ustr e = choose(GEN, 4) == 3 ? randStr(vars > 10 ? 60 : 8000) : u16of(fmt("VAR%d=%u", v, choose(GEN, 1000))); if (v == 0 && choose(GEN, 3) == 2) e = u"=C:=C:\\dir"; if (v) want.push_back(0); want += e; env += e; env.push_back(0); }
            if (huge) { ustr e = u"HUGE=" + ustr(range(GEN, 100000, 900000), (char16_t)(u'a' + choose(GEN, 26))); if (vars) want.push_back(0); want += e; env += e; env.push_back(0); }
            env.push_back(0); if (!vars && !huge) env.push_back(0);
            UINT64 flags = choose(GEN, 4);
            // The strings passed in are overwritten before winpty_spawn: the library copies them.
            ustr a2 = app, c2 = cmd, d2 = cwd, e2 = env; ErrP e = nullptr;
            SpawnP c = h.api.spawn_config_new(flags, hApp ? W(a2) : nullptr, hCmd ? W(c2) : nullptr, hCwd ? W(d2) : nullptr, hEnv ? W(e2) : nullptr, &e);
            if (!c) violate("spawn-config", fmt("winpty_spawn_config_new failed with %u", (unsigned)h.takeErr(e)));
            for (ustr *s : {&a2, &c2, &d2, &e2}) for (auto &x : *s) x = u'#';
            if (!last && !neither) failErr = choose(GEN, 3) == 2 ? 0xfffffffeu - choose(GEN, 100) : 1 + choose(GEN, 20000);
            uint32_t wantErr = neither ? (uint32_t)ERROR_INVALID_PARAMETER : failErr;
            bool wantP = choose(GEN, 3) != 0, wantT = choose(GEN, 3) != 0; HANDLE ph = (HANDLE)(uintptr_t)0x5a5a, th = ph; DWORD cpe = 0xdeadbeef; bool useCpe = choose(GEN, 4) != 3;
            int c0 = handlesOf(C), a0 = handlesOf(ag); e = nullptr; int cr0 = created;
            BOOL ok = h.api.spawn(r.s.wp, c, wantP ? &ph : nullptr, wantT ? &th : nullptr, useCpe ? &cpe : nullptr, &e);
            if (choose(GEN, 2)) { h.api.spawn_config_free(c); c = nullptr; }
            DWORD code = ok ? 0 : h.takeErr(e);
            bool asked = !neither;
            if (asked) {
                bool xApp = hApp && !app.empty(), xCmd = hCmd && !cmd.empty(), xCwd = hCwd && !cwd.empty();
                if (got.haveApp != xApp || (xApp && got.app != app)) violate("spawn-app", fmt("the application name '%s' was passed on as '%s'", xApp ? clip(app).c_str() : "(none)", got.haveApp ? clip(got.app).c_str() : "(none)"));
                if (got.haveCmd != xCmd || (xCmd && got.cmdline != cmd)) violate("spawn-cmdline", fmt("the command line '%s' (%zu) was passed on as '%s' (%zu)", xCmd ? clip(cmd).c_str() : "(none)", cmd.size(), got.haveCmd ? clip(got.cmdline).c_str() : "(none)", got.cmdline.size()));
                if (got.haveCwd != xCwd || (xCwd && got.cwd != cwd)) violate("spawn-cwd", fmt("the directory '%s' was passed on as '%s'", xCwd ? clip(cwd).c_str() : "(none)", got.haveCwd ? clip(got.cwd).c_str() : "(none)"));
                if (got.haveEnv != hEnv || (hEnv && got.env != want)) violate("spawn-env", fmt("an environment block of %d strings (%zu characters) was passed on as %zu characters", vars, want.size(), got.env.size()));
                if (got.flags & (CREATE_NEW_CONSOLE | DETACHED_PROCESS | CREATE_NO_WINDOW | CREATE_SUSPENDED | CREATE_NEW_PROCESS_GROUP)) violate("spawn-flags", fmt("the program was created with flags %#x", got.flags));
            }
            if (!last) {
                if (ok) violate("spawn-invented", "winpty_spawn reported success although the program could not be created");
                if (code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) violate("spawn-code", fmt("a failing CreateProcess was reported as error %u", (unsigned)code));
                if (useCpe && cpe != wantErr) violate("spawn-cpe", fmt("CreateProcess failed with %u but %u was reported", wantErr, (unsigned)cpe));
                if ((wantP && ph) || (wantT && th)) violate("spawn-handles", "winpty_spawn failed but left a handle in an output argument");
                if (handlesOf(C) != c0) violate("handle-count", "a failing winpty_spawn changed the client's handle count");
                if (created != cr0) violate("spawn-count", "a failing winpty_spawn created a process");
                log += "f";
            } else {
                if (!ok) violate("spawn-failed", fmt("winpty_spawn failed with %u/%u", (unsigned)code, (unsigned)cpe));
                if (useCpe && cpe) violate("spawn-cpe", "winpty_spawn succeeded but reported a CreateProcess error");
                if (created != cr0 + 1) violate("spawn-count", fmt("%d processes were created by one spawn", created - cr0));
                if (child->parent != ag || child->con != ag->con) violate("spawn-console", "the program is not attached to the session's console");
                if (child->desktop != h.w.desktopDefault || child->winsta != h.w.winsta0) violate("spawn-desktop", "the program does not run on the caller's desktop");
                if (child->ignoreCtrlC) violate("spawn-flags", "the program starts with Ctrl-C ignored");
                // standard handles and inheritance
                for (auto &kv : child->handles) if (kv.second.obj->type != O_SCREEN && kv.second.obj->type != O_CONIN) violate("spawn-inherits", "the program inherited an agent handle that is not a console handle: " + kv.second.origin);
                if (conerr) {
                    auto typ = [&](HANDLE x) -> ObjP { auto it = child->handles.find((uintptr_t)x); return it == child->handles.end() ? nullptr : it->second.obj; };
                    ObjP so = typ(child->stdOut), se = typ(child->stdErr), si = typ(child->stdIn);
                    if (!si || si->type != O_CONIN) violate("spawn-std", "the program's standard input is not the console input");
                    if (!so || so->type != O_SCREEN || so.get() != ag->con->primary.get()) violate("spawn-std", "the program's standard output is not the console screen");
                    if (!se || se->type != O_SCREEN || se == so) violate("spawn-std", "the program's standard error is not the error screen buffer");
                } else if ((got.siFlags & STARTF_USESTDHANDLES) || got.inherit) violate("spawn-std", "standard handles were passed on without an error pipe");
                int wantH = (wantP ? 1 : 0) + (wantT ? 1 : 0);
                if (handlesOf(C) != c0 + wantH) violate("handle-count", fmt("winpty_spawn changed the client's handle count by %d instead of %d", handlesOf(C) - c0, wantH));
                if (handlesOf(ag) > a0 + 2) violate("agent-handle-leak", fmt("starting a program left %d handles in the agent: %s", handlesOf(ag) - a0, handleReport(ag).c_str()));
                sleepFor(choose(GEN, 200));
                if (wantP) {
                    if (GetProcessId(ph) != child->pid) violate("spawn-handles", "the process handle is not the program's");
                    if (WaitForSingleObject(ph, 0) != WAIT_TIMEOUT) violate("spawn-handles", "the process handle is signaled while the program runs");
                }
                if (wantT) { HandleEntry *he = lookup(C, th, false, "t"); if (!he || he->obj->type != O_THREAD || static_cast<ThreadObj *>(he->obj.get())->p != child.get()) violate("spawn-handles", "the thread handle is not the program's"); }
                bool freeFirst = choose(GEN, 3) == 2;
                if (freeFirst) { h.api.free(r.s.wp); r.s.wp = nullptr; if (wantP && choose(GEN, 2)) waitFor("agent", [&] { return ag->exited; }, kAgentExitBound); }
                else quit = true;
                if (wantP) {
                    if (WaitForSingleObject(ph, 60000) != WAIT_OBJECT_0) violate("spawn-handles", "the process handle was not signaled when the program ended");
                    DWORD xc = 0; if (!GetExitCodeProcess(ph, &xc) || xc != child->exitCode) violate("spawn-handles", fmt("the process handle reports exit code %u instead of %u", (unsigned)xc, child->exitCode));
                    if (!freeFirst && xc != exitCode) violate("spawn-handles", "wrong exit code");
                    CloseHandle(ph);
                }
                if (wantT) CloseHandle(th);
                if (handlesOf(C) != c0 - (freeFirst ? c0 : 0) && !freeFirst) violate("handle-count", "the handles could not be given back");
                log += "s";
            }
            if (c) h.api.spawn_config_free(c);
        }
        quit = true;
        if (r.s.wp) h.api.free(r.s.wp);
        if (handlesOf(C) != 0) violate("handle-leak", "handles were left behind: " + handleReport(C));
        h.checkBadHandles(C, "bad-handle"); h.checkBadHandles(ag, "bad-handle");
        nontrivial(); stateSig(hashBytes(log.data(), log.size()) ^ mix(got.cmdline.size(), got.env.size()));
        g_sample = fmt("%s app=%zu cmd=%zu cwd=%zu env=%zu conerr=%d", log.c_str(), got.app.size(), got.cmdline.size(), got.cwd.size(), got.env.size(), conerr);
    });
}
static RegCheck c18("C18", "a run counts as non-trivial when a program was created and every argument, standard handle and returned handle was compared with the request",
    {{"spawn", 0, 700, 12000}, {"spawn", 1, 700, 12000}});

// ------------------------------------------------------------------ proclist
SCENARIO(proclist) {
    Rig r; Harness &h = r.h; h.world(1); h.w.cfg.fontLimits = false;
    Family fam(h); bool churn = param & 1;
    h.start([&] {
        Harness::OpenOpts o; r.s = h.open(o); Console *con = r.s.agent->con.get();
        // Every set of attached processes since the last call began.
        std::vector<std::vector<int>> hist; auto snap = [&] { hist.push_back(pidsOf(con)); };
        snap(); con->onAttach = snap;
        bool spawned = choose(GEN, 5) != 4; if (spawned) { Spawner z = doSpawn(r, "app", false, false); if (!z.ok) violate("spawn-failed", "winpty_spawn failed"); }
        std::string log; int calls = range(GEN, 3, 9); int burst = 0;
        if (churn) h.w.onApi = [&](Process *p, const char *api) {
            if (p != r.s.agent || strcmp(api, "GetConsoleProcessList") || fam.kids.size() > 350) return;
            if (choose(SCHED, 2)) { static const int N[] = {1, 2, 30, 70}; fam.grow(N[choose(SCHED, 4)]); burst++; countFault(F_CONSOLE_RACE); }
        };
        for (int i = 0; i < calls; ++i) {
            static const int T[] = {0, 1, 3, 20, 60, 62, 63, 64, 65, 90, 126, 127, 128, 129, 150, 200};
            if (spawned && choose(GEN, 3)) { fam.target = T[choose(GEN, 16)]; if (!churn) { pollFor([&] { return !fam.busy && (int)fam.kids.size() == fam.target; }, 20000); sleepFor(2); } else sleepFor(choose(GEN, 4)); }
            int size = (int)pidsOf(con).size(), cap;
            switch (choose(GEN, 6)) { case 0: cap = size; break; case 1: cap = size - 1; break; case 2: cap = size + 1; break; case 3: cap = 0; break; case 4: cap = choose(GEN, 300); break; default: cap = 400; }
            cap = std::max(cap, 0);
            hist.clear(); snap();
            std::vector<int> out; DWORD code = 0; int n = procList(r, cap, out, &code);
            if (code) violate("proclist-failed", fmt("winpty_get_console_process_list(capacity %d) with %d processes failed with error %u", cap, size, (unsigned)code));
            bool match = false; std::sort(out.begin(), out.end());
            for (auto &s : hist) if ((int)s.size() == n && (n > cap || s == out)) match = true;
            if (!match) violate("proclist-wrong", fmt("the result (%d processes, capacity %d) is not the set of attached processes at any moment of the call (%zu moments, %zu at its start)", n, cap, hist.size(), hist[0].size()));
            // the session stays usable
            if (choose(GEN, 2)) { ErrP e = nullptr; int w = range(GEN, 20, 120), hh = range(GEN, 5, 50); if (!h.api.set_size(r.s.wp, w, hh, &e)) violate("proclist-poisons", fmt("after a process list call of capacity %d for %d processes, winpty_set_size failed with %u", cap, size, (unsigned)h.takeErr(e))); }
            log += fmt("%d/%d ", n, cap); if (n > cap) stat("did-not-fit"); if (n > 64) stat("more-than-64"); if (hist.size() > 1) stat("changed-meanwhile");
        }
        h.w.onApi = nullptr; if (burst) stat("grew-mid-call", burst);
        con->onAttach = nullptr; fam.quit = true;
        h.checkBadHandles(r.s.agent, "bad-handle");
        nontrivial(); stateSig(hashBytes(log.data(), log.size())); g_sample = "count/capacity: " + log;
        h.closeSession(r.s);
    });
}
static RegCheck c19("C19", "a run counts as non-trivial when at least three process list calls were compared with the recorded history of attached processes",
    {{"proclist", 0, 700, 10000}, {"proclist", 1, 900, 14000}});

// ------------------------------------------------------------------ desktop
// param 0: nothing fails, 1: client system calls fail, 2: agent system calls fail, 3: an agent crashes or stalls, 4: two threads open sessions
SCENARIO(desktop) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    static const int vers[] = {5, 6, 7, 10}; h.w.cfg.winver = vers[choose(GEN, 4)]; if (h.w.cfg.winver < 10) h.w.cfg.newW10 = false;
    static const char *F[] = {"", "", "", "force_desktop", "force_desktop_spawn", "force_desktop_curproc", "no_desktop", "trace,force_desktop"};
    std::string dbg = F[choose(GEN, 8)]; bool show = choose(GEN, 6) == 5; bool allow = choose(GEN, 2);
    bool use = !show && h.w.cfg.winver < 7; bool viaAgent = !allow;
    if (dbg.find("force_desktop_spawn") != std::string::npos) { use = true; viaAgent = true; }
    else if (dbg.find("force_desktop_curproc") != std::string::npos) { use = true; viaAgent = false; }
    else if (dbg.find("force_desktop") != std::string::npos) use = true;
    else if (dbg == "no_desktop") use = false;
    h.programs["app"] = [&](App &a) { (void)a; waitFor("forever", [] { return false; }, -1); };
    int agentNo = 0, failAgent = choose(GEN, 2); int64_t stall = 0; int64_t timeout = 1000;
    std::vector<ProcP> mains;
    auto mayFail = std::set<std::string>{"AllocateAndInitializeSid", "ConnectNamedPipe", "CreateDesktopW", "CreateEventW", "CreateFileW", "CreateNamedPipeW", "CreateProcessW", "CreateWindowStationW", "GetFileAttributesW", "GetNamedPipeClientProcessId", "GetUserObjectInformationW", "SetEntriesInAclW", "SetProcessWindowStation", "WaitForMultipleObjects", "SystemFunction036", "ReadFile", "WriteFile"};
    if (choose(GEN, 2)) mayFail = {"CreateDesktopW", "CreateWindowStationW", "GetUserObjectInformationW", "SetProcessWindowStation", "CreateProcessW"};
    h.w.failOnly = mayFail;
    h.execHook = [&](ProcP c, const SpawnReq &q) -> uint32_t {
        if (!isAgent(q)) return ~0u;
        bool helper = wantsDesktop(q); bool hit = agentNo++ == failAgent;
        if (!helper) {
            mains.push_back(c);
            bool hidden = (q.siFlags & STARTF_USESHOWWINDOW) && q.show == SW_HIDE;
            if (!show && !hidden && !(q.haveDesktop)) violate("console-visible", "the agent's console window is not hidden");
            if (!(q.flags & CREATE_NEW_CONSOLE)) violate("console-shared", "the agent was not given a console of its own");
        } else if (!(q.flags & (DETACHED_PROCESS | CREATE_NO_WINDOW))) violate("console-visible", "the helper that creates the desktop opens a console");
        if (param == 2 && hit) { c->failSyscalls = true; static const uint32_t gap[] = {20, 4, 8}; planFault(F_SYSCALL_FAIL, gap[choose(FAULT, 3)], 1); }
        if (param == 3 && hit) {
            if (choose(FAULT, 2)) { c->crashable = true; static const uint32_t gap[] = {30, 100, 8}; planFault(F_PROC_CRASH, gap[choose(FAULT, 3)], 1); }
            else { ProcP cc = c; stall = timeout * (choose(FAULT, 2) ? 3 : 0) + choose(FAULT, 400); countFault(F_STALL); int64_t s = stall; at(g_now + choose(FAULT, 20), [cc, s] { for (Fiber *f : cc->fibers) f->stalledUntil = g_now + s; }); }
        }
        return ~0u;
    };
    // The caller's station may only change while this process itself is allowed to create the desktop.
    bool mayChange = use && !viaAgent; Process *C = nullptr;
    h.w.onApi = [&](Process *, const char *api) { if (C && !mayChange && C->winsta != h.w.winsta0) violate("station-changed", std::string("the caller's window station was changed (seen at ") + api + ")"); };
    int opened = 0, refused = 0; bool bgSeen = false;
    h.start([&] {
        C = h.client.get(); C->envA["WINPTY_DEBUG"] = dbg; if (show) C->envA["WINPTY_SHOW_CONSOLE"] = "1";
        int h0 = handlesOf(C);
        auto session = [&](bool alone) {
            Harness::OpenOpts o; o.timeout = (DWORD)timeout; if (allow) o.flags |= WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION; if (choose(GEN, 3) == 2) o.flags |= WINPTY_FLAG_CONERR;
            DWORD code = 0; size_t m0 = mains.size(); (void)m0;
            h.w.injected = 0; bool armed = param == 1 || param == 2 || param == 3;
            WpP wp = h.tryOpen(o, &code);
            if (alone && C->winsta != h.w.winsta0) violate("station-not-restored", "the caller's window station was not restored");
            if (C->desktop != h.w.desktopDefault) violate("station-not-restored", "the caller's desktop changed");
            // Without a desktop of its own the session runs on the caller's.
            if (!wp && param == 1 && use && !viaAgent && h.w.injected == 1 && (h.w.lastInjectedApi == "CreateWindowStationW" || h.w.lastInjectedApi == "CreateDesktopW")) violate("no-fallback", fmt("only %s failed, but winpty_open failed with %u instead of using the caller's desktop", h.w.lastInjectedApi.c_str(), (unsigned)code));
            if (!wp) { refused++; if (!armed) violate("open-failed", fmt("winpty_open failed with %u although nothing was wrong", (unsigned)code)); return; }
            opened++;
            bool injected = h.w.injected > 0 || param == 3;
            Process *ag = h.agentOf(wp);
            bool bg = ag->con->desktop && ag->con->desktop != h.w.desktopDefault;
            bgSeen = bgSeen || bg;
            if (!ag->exited) {
                if (!use && bg) violate("desktop-unasked", "the console was put on another desktop without need");
                if (use && !bg && !injected) violate("console-visible", "the console was created on the caller's desktop");
                if (use && !bg && injected) stat("fell-back");
                if (bg && ag->winsta == h.w.winsta0) violate("console-visible", "the background desktop lives on the caller's window station");
            }
            // The helper process has nothing left to do.
            if (alone && !(param == 3 && stall)) for (auto &a : h.agents) if (wantsDesktop(a->spawn)) { Process *ap = a.get(); if (!waitFor("helper-exit", [ap] { return ap->exited; }, 3000)) violate("helper-left-behind", "the process that created the desktop is still running after winpty_open returned"); }
            C->failSyscalls = false; for (auto &a : h.agents) a->failSyscalls = false;
            if (stall) sleepFor(stall);
            if (!ag->exited && param != 3 && !(param == 2 && h.w.injected)) {
                ErrP e = nullptr; ustr app = u"app"; SpawnP c = h.api.spawn_config_new(0, W(app), nullptr, nullptr, nullptr, &e); HANDLE ph = nullptr;
                BOOL ok = h.api.spawn(wp, c, &ph, nullptr, nullptr, &e); h.api.spawn_config_free(c);
                if (!ok) violate("spawn-failed", fmt("winpty_spawn failed with %u", (unsigned)h.takeErr(e)));
                ProcP ch = findProc(GetProcessId(ph)); CloseHandle(ph);
                if (!ch || ch->desktop != h.w.desktopDefault || ch->winsta != h.w.winsta0) violate("child-desktop", "the program does not run on the caller's desktop");
                if (ch && ch->con != ag->con) violate("spawn-console", "the program is not attached to the session's console");
            }
            sleepFor(choose(GEN, 60));
            h.api.free(wp);
        };
        if (param == 1) { C->failSyscalls = true; static const uint32_t gap[] = {6, 12, 30}; planFault(F_SYSCALL_FAIL, gap[choose(FAULT, 3)], 1); h.w.failPersist = choose(FAULT, 6) == 5; }
        if (param == 4 && !mayChange) {
            int running = 2; for (int t = 0; t < 2; ++t) spawnThread(C, "opener", [&] { session(false); running--; });
            waitFor("openers", [&] { return running == 0; }, -1);
        } else { int n = range(GEN, 1, 2); for (int i = 0; i < n; ++i) session(true); }
        C->failSyscalls = false;
        if (C->winsta != h.w.winsta0) violate("station-not-restored", "the caller's window station was not restored");
        if (handlesOf(C) != h0) violate("handle-leak", fmt("%d handles were left behind: %s", handlesOf(C) - h0, handleReport(C).c_str()));
        for (auto &a : h.agents) { Process *ap = a.get(); if (!waitFor("agent-exit", [ap] { return ap->exited; }, stall + kAgentExitBound)) violate("agent-left-behind", ap->label + " is still running"); }
        for (auto &p : h.w.procs) if (p.get() != C) { p->desktop.reset(); p->winsta.reset(); }
        // Nothing of the background desktop survives.
        for (auto &p : h.w.procs) for (auto &kv : p->handles) if (p.get() == C && (kv.second.obj->type == O_WINSTA || kv.second.obj->type == O_DESKTOP) && kv.second.origin.compare(0, 7, "initial") != 0) violate("desktop-left-behind", "a handle to the background desktop is still open in the caller");
        h.checkBadHandles(C, "bad-handle"); for (auto &a : h.agents) { h.checkBadHandles(a.get(), "bad-handle"); if (param == 1 || param == 2 || param == 3) a->crashed = false; }
        std::string sig = dbg + fmt("/%d/%d/%d/%d/%d", h.w.cfg.winver, show, allow, opened, bgSeen) + h.w.lastInjectedApi;
        nontrivial(); stat("opened", opened); stat("refused", refused); if (bgSeen) stat("background"); stateSig(hashBytes(sig.data(), sig.size()));
        g_sample = fmt("case=%d debug=%s win=%d show=%d allow-curproc=%d opened=%d refused=%d background=%d injected=%s", param, dbg.c_str(), h.w.cfg.winver, show, allow, opened, refused, bgSeen, h.w.lastInjectedApi.c_str());
    });
}
static RegCheck c28("C28", "a run counts as non-trivial when sessions were opened or refused under the chosen flags and failure and the caller's station, the console's desktop and the program's desktop were judged",
    {{"desktop", 0, 400, 5000}, {"desktop", 1, 600, 9000}, {"desktop", 2, 500, 7000}, {"desktop", 3, 400, 6000}, {"desktop", 4, 250, 3500}});
