// C06 teardown, C27 slow or vanished consumers, C31 chaos.
#include "libtools.h"
#include "rows.h"

// A client process whose script may be cut short, watched by an observer that
// belongs to nobody.
namespace {
void watched(Harness &h, std::function<void()> script, std::function<void()> watch) {
    ProcP obs = newProcess("observer", nullptr); obs->label = "observer";
    spawnThread(obs.get(), "observer", [&h, watch] { watch(); h.finish(); });
    h.start([script] { script(); waitFor("client-idle", [] { return false; }, -1); });
}
void closeReader(Reader *r) { waitFor("reader-opened", [r] { return r->opened || r->stopped; }, 60000); r->stop = true; r->pipe.close(); }
std::string leftovers(Harness &h, const std::vector<Process *> &except) {
    for (auto &p : h.w.procs) if (!p->exited && p.get() != h.client.get() && p->kind != "observer" && std::find(except.begin(), except.end(), p.get()) == except.end()) return "process " + p->label;
    return "";
}
}

// ------------------------------------------------------------------ teardown
// param & 3: 0 the client frees the session, 1 it dies, 2 the control
// connection breaks, 3 it dies while opening; bit 2: background desktops.
SCENARIO(teardown) {
    Harness h; h.world(1);
    int how = param & 3; bool desk = param & 4;
    if (desk) { static const int vers[] = {5, 6, 7, 10}; h.w.cfg.winver = vers[choose(GEN, 4)]; if (h.w.cfg.winver < 10) h.w.cfg.newW10 = false; if (h.w.cfg.winver >= 7) h.w.cfg.debugEnv = "force_desktop"; h.w.cfg.interactiveStation = choose(GEN, 4) != 3; }
    PipeServer *control = nullptr;
    h.w.onPipeCreate = [&](PipeServer &p) { if (p.name.find(u"winpty-control-") != ustr::npos) control = &p; };
    Session s, s2; std::vector<Reader *> rd; int64_t endAt = -1; bool client2 = false, freed = false, opening = false; std::string state; int64_t freeTook = 0;
    HANDLE ph = nullptr;
    Family fam(h); h.programs["family"] = h.programs["app"]; fam.target = choose(GEN, 4);
    h.programs["idle"] = [&](App &) { waitFor("forever", [] { return false; }, -1); };
    h.programs["busy"] = [&](App &a) { Workload wl; wl.titles = true; for (;;) { wl.run(a, 5); sleepFor(range(GEN, 1, 30)); } };
    h.programs["flood"] = [&](App &a) { for (int i = 0;; ++i) { a.con->appWrite(u16of(fmt("flood %d\r\n", i))); if (i % 50 == 49) sleepFor(1); } };
    h.programs["quick"] = [&](App &a) { a.con->appWrite(u"bye\r\n"); };
    h.programs["later"] = [&](App &) { sleepFor(range(GEN, 1, 300)); };
    h.programs["orphans"] = [&](App &a) { int n = range(GEN, 1, 3); for (int i = 0; i < n; ++i) h.consoleChild(a, "orphan", [](App &) { waitFor("forever", [] { return false; }, -1); }); };
    h.programs["reader"] = [&](App &a) { for (;;) { INPUT_RECORD r; if (!a.con->appRead(r)) sleepFor(20); } };
    static const char *const progs[] = {"idle", "busy", "flood", "quick", "later", "orphans", "reader", "family"};
    int apiLeft = -1; Process *victim = nullptr; bool dieNow = false;
    auto ended = [&](const char *st) { if (endAt < 0) { endAt = g_now; state = st; ev("end", how); } };
    auto kill = [&] { if (victim->exited) return; countFault(F_CLIENT_CRASH); ended(opening ? "opening" : "running"); for (Reader *r : rd) r->pipe.close(); processExit(victim, 0xC0000005, true, "injected crash"); };
    h.w.onApi = [&](Process *p, const char *) { if (p == victim && apiLeft >= 0 && --apiLeft < 0) { apiLeft = -1; kill(); } };
    (void)dieNow;
    watched(h, [&] {
        victim = h.client.get();
        Harness::OpenOpts o; o.cols = range(GEN, 10, 100); o.rows = range(GEN, 2, 40);
        if (choose(GEN, 3) == 2) o.flags |= WINPTY_FLAG_CONERR;
        if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
        if (how == 0 && choose(GEN, 3) == 2) { s2 = h.open(o); control = nullptr; Harness::SpawnOpts so; so.prog = "idle"; h.spawn(s2, so); client2 = true; }
        opening = true;
        if (how == 3) apiLeft = (int)choose(FAULT, 120);
        DWORD code = 0; control = nullptr;
        WpP wp = h.tryOpen(o, &code);
        opening = false;
        if (!wp) { if (how != 3) violate("open-failed", fmt("winpty_open failed with %u although nothing was wrong", (unsigned)code)); return; }
        s.wp = wp; s.agent = h.agentOf(wp); s.con = s.agent->con.get(); s.conin = U(h.api.conin_name(wp)); s.conout = U(h.api.conout_name(wp)); if (h.api.conerr_name(wp)) s.conerr = U(h.api.conerr_name(wp));
        if (how == 1) { if (choose(FAULT, 2)) apiLeft = (int)choose(FAULT, 60); else at(g_now + choose(FAULT, 800), [&] { kill(); }); }
        if (how == 2) {
            auto brk = [&] { if (endAt < 0 && control) { countFault(F_PIPE_BREAK); ended("running"); breakServerPipe(control); } };
            at(g_now + choose(FAULT, 600), brk);
        }
        if (how == 3) { apiLeft = (int)choose(FAULT, 4); }
        for (const ustr &n : {s.conout, s.conerr}) if (!n.empty() && choose(GEN, 4)) { Reader *r = h.startReader(n); r->openDelay = choose(GEN, 2) ? 0 : range(GEN, 0, 300); r->paused = choose(GEN, 3) == 2; rd.push_back(r); }
        ActorPipe *in = new ActorPipe; if (choose(GEN, 2)) in->open(victim, s.conin, g_now + 2000);
        bool dead = false, selfEnds = false;
        auto ok = [&](bool r, ErrP e, const char *w) { if (r) return; DWORD c = h.takeErr(e); if (how == 2 || selfEnds) dead = true; else violate("failed-without-cause", fmt("%s failed with error %u although nothing was wrong", w, (unsigned)c)); };
        if (choose(GEN, 5)) {
            Harness::SpawnOpts so; so.prog = progs[choose(GEN, 8)]; so.flags = choose(GEN, 4); selfEnds = so.flags == 3; so.must = how != 2 && !selfEnds; so.ph = choose(GEN, 2) ? &ph : nullptr;
            DWORD c = 0; so.code = &c; if (!h.spawn(s, so)) dead = true;
        }
        int n = range(GEN, 0, 8);
        for (int i = 0; i < n && !dead; ++i) {
            if (choose(GEN, 2)) sleepFor(range(GEN, 0, 120));
            ErrP e = nullptr; int buf[32];
            switch (choose(GEN, 4)) {
            case 0: { bool r = h.api.set_size(s.wp, range(GEN, 5, 120), range(GEN, 2, 60), &e); ok(r, e, "winpty_set_size"); break; }
            case 1: { bool r = h.api.get_console_process_list(s.wp, buf, 32, &e) > 0; ok(r, e, "winpty_get_console_process_list"); break; }
            case 2: if (in->c) in->write(choose(GEN, 2) ? std::string("hello\x1b[A\x03 world") : std::string(range(GEN, 1, 3000), 'x'), g_now + 300); break;
            default: if (choose(GEN, 6) == 5 && !s.con->frozen) s.con->freeze(false); break;      // a user selection
            }
            // (an exit-after-shutdown session may have ended by itself)
            if (s.agent->exited) dead = true;
        }
        if (how == 1) { sleepFor(1000); kill(); return; }
        if (how == 3) { sleepFor(10); kill(); return; }
        if (how == 2) { waitFor("broken", [&] { return endAt >= 0; }, 2000); }
        if (how == 0 || choose(GEN, 2)) {
            if (choose(GEN, 2)) for (Reader *r : rd) closeReader(r);
            ended("free"); int64_t t0 = g_now; h.api.free(s.wp); freeTook = g_now - t0; freed = true;
            if (freeTook > 2000 + 20 * g_sched.stallMax) violate("free-slow", fmt("winpty_free took %lld ms", (long long)freeTook));
        }
    }, [&] {
        if (!waitFor("ended", [&] { return endAt >= 0; }, 400000)) violate("stuck", "the client never came to the end of its script");
        std::vector<Process *> keep;
        if (client2) { keep.push_back(s2.agent); for (auto &p : h.w.procs) if (p->parent == s2.agent) keep.push_back(p.get()); }
        std::string left;
        if (!pollFor([&] { left = leftovers(h, keep); return left.empty(); }, kAgentExitBound + 60 * g_sched.stallMax, 20))
            violate("left-behind", fmt("%lld ms after the end of the session (%s) %s is still running", (long long)(g_now - endAt), state.c_str(), left.c_str()));
        int64_t took = 0; for (auto &p : h.w.procs) if (p->exited && p->kind != "client") took = std::max(took, p->exitTime - endAt);
        if (took > 5000 + 100 * g_sched.stallMax) stat("slow-teardowns");
        stat("max-teardown-ms", 0); g_stats["max-teardown-ms"] = took;
        if (s.con && !s.con->attached.empty()) violate("left-behind", "the console of the session still has attached processes");
        if (!client2) {
            if (how == 2 && !freed) { processExit(h.client.get(), 0); }
            if (!waitFor("pipes-gone", [&] { for (auto &p : h.w.pipes) if (p->name.find(u"winpty-") != ustr::npos) return false; return true; }, 3000)) violate("left-behind", "a pipe of the session still exists");
            for (auto &w : h.w.stations) if (auto x = w.lock()) if (x != h.w.winsta0) violate("left-behind", "window station " + u8(x->name) + " still exists");
            for (auto &w : h.w.desktops) if (auto x = w.lock()) if (x != h.w.desktopDefault) violate("left-behind", "desktop " + u8(x->name) + " still exists");
        } else {
            // the other session of the same client is untouched
            if (s2.agent->exited) violate("other-session-died", "another session of the same client ended with this one");
            bool done2 = false, good = false;
            spawnThread(h.client.get(), "second", [&] {
                ErrP e = nullptr; int buf[32]; int n = h.api.get_console_process_list(s2.wp, buf, 32, &e);
                good = n == 2; if (e) h.takeErr(e);
                h.api.free(s2.wp); done2 = true; fiberExit();
            });
            if (!waitFor("second", [&] { return done2; }, 60000) || !good) violate("other-session-broken", "another session of the same client no longer works");
            if (!pollFor([&] { left = leftovers(h, {}); return left.empty(); }, kAgentExitBound + 60 * g_sched.stallMax, 20)) violate("left-behind", "after the second session ended " + left + " is still running");
            stat("second-sessions");
        }
        nontrivial(); stat(("ended-" + state).c_str()); stateSig(mix(hashBytes(state.data(), state.size()), (uint64_t)took * 1000 + h.w.procs.size()));
        g_sample = fmt("how=%d state=%s win%d procs=%zu gone after %lld ms", how, state.c_str(), h.w.cfg.winver, h.w.procs.size(), (long long)took);
    });
}
static RegCheck c06("C06", "a run counts as non-trivial when the session was ended at a sampled point and the process table, pipes and desktops were inspected afterwards",
    {{"teardown", 0, 700, 9000}, {"teardown", 1, 700, 9000}, {"teardown", 2, 500, 6000}, {"teardown", 3, 700, 9000}, {"teardown", 4, 300, 4000}, {"teardown", 5, 300, 4000}, {"teardown", 6, 200, 3000}, {"teardown", 7, 500, 6000}});

// ------------------------------------------------------------------ slow
// param & 3: 0 output readers stop and resume, 1 the output (or error)
// consumer hangs up, 2 the input pipe is hung up, 3 session freed while the
// output is stuck.
SCENARIO(slow) {
    Rig rig; Harness &h = rig.h; h.world(1); h.w.cfg.fontLimits = false; g_sched.maxTime = 1800000;
    int mode = param & 3; bool conerr = choose(GEN, 3) == 2;
    Workload wl, we; wl.limit = we.limit = 900; we.lineNo = 100000; RowModel m, me; bool quit = false, pausedWork = false, flicker = false; int pieces = 0, wantPieces = 0; int64_t frames = 0;
    h.programs["app"] = [&](App &a) {
        ScreenBuf *eb = nullptr;
        if (conerr) { HandleEntry *e = lookup(a.p, a.p->stdErr, false); if (!e || e->obj->type != O_SCREEN) violate("no-stderr", "the program has no console handle for standard error"); eb = static_cast<ScreenBuf *>(e->obj.get()); me.W = eb->W; }
        m.W = a.con->primary->W;
        while (!quit) {
            waitFor("app-go", [&] { return quit || pieces < wantPieces || flicker; }, -1);
            if (quit) break;
            if (flicker) {     // repaints its whole window in another colour
                for (ScreenBuf *b : {a.con->primary.get(), eb}) if (b) {
                    for (int y = b->win.Top; y <= b->win.Bottom; ++y) for (int x = 0; x < b->W; ++x) { CHAR_INFO &c = b->row(y)[x]; c.Char.UnicodeChar = (WCHAR)(u'a' + (x + y + frames) % 26); c.Attributes = (WORD)(1 + (x * 7 + y + frames) % 6); }
                    b->gen++;
                }
                frames++; sleepFor(20); continue;
            }
            bool err = eb && choose(GEN, 2);
            printPiece(a, err ? we : wl, err ? me : m, err ? eb : a.con->primary.get(), 600, true, err ? "e" : "n");
            pieces++;
            if (choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 60));
        }
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 20, 100); o.rows = range(GEN, 2, 40); if (conerr) o.flags |= WINPTY_FLAG_CONERR;
        o.timeout = 10000; rig.timeout = 10000;
        rig.s = h.open(o); Session &s = rig.s;
        Reader *r = h.startReader(s.conout), *e = conerr ? h.startReader(s.conerr) : nullptr;
        for (Reader *x : {r, e}) if (x) { x->term.W = std::max(o.cols, s.con->active->W); x->term.H = o.rows; }
        ActorPipe in; if (!in.open(h.client.get(), s.conin, g_now + 5000)) violate("no-conin", "the input pipe cannot be opened");
        Harness::SpawnOpts so; so.flags = choose(GEN, 4); h.spawn(s, so);
        int inputs = 0;
        // every request and keystroke is served within its bound
        auto live = [&](const char *when, bool input) {
            ErrP er = nullptr; int64_t t0 = g_now; int buf[16];
            int64_t bound = 1500 + 40 * g_sched.stallMax + 20 * h.w.cfg.ioDelayMax;
            bool ok = choose(GEN, 2) && mode != 0 && mode != 1 ? h.api.set_size(s.wp, o.cols, o.rows, &er) != 0 : h.api.get_console_process_list(s.wp, buf, 16, &er) > 0;
            if (!ok) violate("request-failed", fmt("a request failed with error %u %s", (unsigned)h.takeErr(er), when));
            if (g_now - t0 > bound) violate("request-slow", fmt("a request took %lld ms %s", (long long)(g_now - t0), when));
            if (input) {
                size_t n0 = s.con->allInput.size(); char ch = (char)('a' + choose(GEN, 26)); inputs++;
                if (!in.write(std::string(1, ch), g_now + bound)) violate("input-stuck", fmt("the input pipe accepted nothing %s", when));
                if (!waitFor("key", [&] { for (size_t i = n0; i < s.con->allInput.size(); ++i) { auto &k = s.con->allInput[i]; if (k.EventType == KEY_EVENT && k.Event.KeyEvent.uChar.UnicodeChar == (WCHAR)ch) return true; } return false; }, bound)) violate("input-lost", fmt("a typed character did not reach the console %s", when));
            }
        };
        auto work = [&](int n) { wantPieces += n; if (!waitFor("pieces", [&] { return pieces >= wantPieces; }, 120000)) violate("program-stuck", "the console program is blocked"); };
        auto compare = [&](Reader *x, RowModel &mm, const char *n) {
            std::string why;
            pollFor([&] { if (!x->term.error.empty()) violate("bad-output", x->term.error); why = compareRows(mm, x->term); return why.empty(); }, 6000 + 10 * h.w.cfg.ioDelayMax, 50);
            if (!why.empty()) violate("lost-output", fmt("%s after resuming: ", n) + why);
            if (x->eof) violate("session-died", fmt("%s ended", n));
        };
        (void)pausedWork;
        work(range(GEN, 0, 2)); live("before anything happened", true);
        if (mode == 0) {
            int rounds = range(GEN, 1, 3);
            for (int k = 0; k < rounds; ++k) {
                int which = e ? 1 + choose(GEN, 3) : 1;
                countFault(F_SLOW_READER);
                if (which & 1) r->paused = true; if (e && (which & 2)) e->paused = true;
                int n = range(GEN, 1, 4);
                for (int i = 0; i < n; ++i) { work(range(GEN, 1, 3)); if (choose(GEN, 2)) sleepFor(range(GEN, 1, 3000)); live("while the output was not being read", true); }
                r->paused = false; if (e) e->paused = false;
                compare(r, m, "output"); if (e) compare(e, me, "error output");
            }
            if (choose(GEN, 12) == 11) {     // much more output than any pipe holds is kept for the reader
                countFault(F_SLOW_READER); r->paused = true; if (e) e->paused = choose(GEN, 2); int64_t f0 = frames, t0 = g_now;
                flicker = true; while (frames - f0 < 90 && g_now - t0 < 60000) { sleepFor(100); } flicker = false; live("behind a large backlog", true);
                r->paused = false; if (e) e->paused = false; std::string why;
                pollFor([&] {
                    ScreenBuf &b = *s.con->primary; if (!r->term.error.empty()) violate("bad-output", r->term.error);
                    why = screenMismatch(r->term, b, lvbMask(*s.con, b)); return why.empty(); }, 600000, 200);
                if (!why.empty()) violate("lost-output", "the screen after a large backlog: " + why);
                stat("large-backlogs");
            }
            nontrivial(); stat("rows", (int64_t)m.rows.size());
        } else if (mode == 1) {
            bool errGoes = e && choose(GEN, 2);
            Reader *gone = errGoes ? e : r, *stays = errGoes ? r : e;
            countFault(F_DISCONNECT);
            if (choose(GEN, 2)) { gone->paused = true; sleepFor(20); work(range(GEN, 0, 2)); }
            closeReader(gone);
            sleepFor(range(GEN, 0, 200));
            work(range(GEN, 1, 4)); live("after a consumer hung up", true);
            if (stays) compare(stays, errGoes ? m : me, "the other output");
            // the agent does not hoard output for nobody
            flicker = true; sleepFor(1500); int64_t f0 = frames, h0 = s.agent->heapLive; sleepFor(range(GEN, 2000, 5000)); int64_t grown = s.agent->heapLive - h0;
            if (frames - f0 < 50) harnessError("the repainting program does not run");
            if (grown > 256 * 1024) violate("unbounded-memory", fmt("the agent's heap grew by %lld bytes during %lld repaints after the consumer hung up", (long long)grown, (long long)(frames - f0)));
            stat("repaints", frames - f0);
            flicker = false; live("long after a consumer hung up", true);
            nontrivial();
        } else if (mode == 2) {
            countFault(F_DISCONNECT);
            if (choose(GEN, 2)) in.write(choose(GEN, 2) ? std::string("abc\x1b") : std::string(range(GEN, 1, 2000), 'y'), g_now + 500);
            in.close();
            int n = range(GEN, 1, 3);
            for (int i = 0; i < n; ++i) { work(range(GEN, 1, 3)); if (choose(GEN, 2)) sleepFor(range(GEN, 1, 1500)); live("after the input pipe was closed", false); }
            std::string why;
            compare(r, m, "output"); if (e) compare(e, me, "error output");
            nontrivial();
        } else {
            countFault(F_SLOW_READER);
            r->paused = true; if (e) e->paused = true;
            work(range(GEN, 1, 4)); flicker = choose(GEN, 2); sleepFor(range(GEN, 0, 500)); live("while the output was not being read", true);
            if (choose(GEN, 2)) { quit = true; sleepFor(range(GEN, 0, 300)); }
            int64_t t0 = g_now; h.closeSession(s);
            if (g_now - t0 > 2000 + 20 * g_sched.stallMax) violate("free-slow", fmt("winpty_free took %lld ms with unread output", (long long)(g_now - t0)));
            Process *a = s.agent;
            if (!waitFor("agent-exit", [a] { return a->exited; }, kAgentExitBound)) violate("agent-left-behind", "the agent is still running after its session was freed with unread output");
            nontrivial();
        }
        quit = true; stateSig(mix(r->term.hash(), inputs));
        g_sample = fmt("mode=%d conerr=%d pieces=%d bytes=%lld inputs=%d", mode, conerr, pieces, (long long)r->term.bytes, inputs);
        if (s.wp) {
            Process *a = s.agent; if (a->exited) violate("session-died", "the agent exited");
            h.closeSession(s);
            if (!waitFor("agent-exit", [a] { return a->exited; }, kAgentExitBound)) violate("agent-left-behind", "the agent is still running after its session was freed");
        }
    });
}
static RegCheck c27("C27", "a run counts as non-trivial when a consumer stopped, resumed or vanished and requests, input, the other streams and the agent's memory were checked around it",
    {{"slow", 0, 700, 9000}, {"slow", 1, 450, 6000}, {"slow", 2, 400, 5000}, {"slow", 3, 300, 4000}});

// ------------------------------------------------------------------ chaos
SCENARIO(chaos) {
    Rig rig; Harness &h = rig.h; h.world(1);
    static const int cps[] = {437, 932, 65001, 936}; h.w.cfg.codepage = cps[choose(GEN, 4)];
    h.w.cfg.largestX = choose(GEN, 3) == 2 ? range(GEN, 1, 500) : 300; h.w.cfg.largestY = choose(GEN, 3) == 2 ? range(GEN, 1, 300) : 120;
    h.w.cfg.conInitCols = choose(GEN, 3) == 2 ? range(GEN, 1, 300) : 80; h.w.cfg.conInitRows = choose(GEN, 3) == 2 ? range(GEN, 1, 120) : 25;
    h.w.cfg.conInitCols = std::min(h.w.cfg.conInitCols, h.w.cfg.largestX); h.w.cfg.conInitRows = std::min(h.w.cfg.conInitRows, h.w.cfg.largestY);
    if (choose(GEN, 8) == 7) h.w.cfg.conInitCols = h.w.cfg.conInitRows = 1;
    h.w.cfg.conInitBufRows = h.w.cfg.conInitRows + (choose(GEN, 2) ? 0 : choose(GEN, 9000));
    if (choose(GEN, 3) == 2) { static const char *const dbg[] = {"trace", "1,force_desktop", "input", "trace,dump_input_map", "input_separated_bytes", "input_separated_bytes,input,trace"}; h.w.cfg.debugEnv = dbg[choose(GEN, 6)]; }
    bool quit = false, conerr = choose(GEN, 3) == 2; int64_t ops = 0; int alive = 0;
    auto body = [&](App &a, int weight) {
        Console &c = *a.con; Workload wl; wl.garbage = choose(GEN, 2); wl.odd = wl.wide = wl.titles = wl.lvb = true; wl.limit = 100000;
        std::vector<ScreenP> bufs; alive++;
        for (int i = 0; i < weight && !quit; ++i) {
            ScreenBuf &b = choose(GEN, 3) == 2 ? *c.primary : *c.active; ops++;
            switch (choose(GEN, 16)) {
            case 0: { ScreenP n = c.appNewBuffer(); if (choose(GEN, 2)) { std::string why; SMALL_RECT one = {0, 0, 0, 0}; n->win = one; n->resize(std::max(range(GEN, 1, 400), c.minBufWidth), range(GEN, 1, 4000), why); n->win.Right = std::min(n->W, std::min(c.largestX, range(GEN, 1, 200))) - 1; n->win.Bottom = std::min(n->H, std::min(c.largestY, range(GEN, 1, 80))) - 1; } bufs.push_back(n); c.appActivate(n); break; }
            case 1: c.appActivate(bufs.empty() || choose(GEN, 2) ? c.primary : bufs[choose(GEN, (uint32_t)bufs.size())]); break;
            case 2: c.appResizeBuffer(range(GEN, 1, choose(GEN, 4) == 3 ? 2500 : 300), range(GEN, 1, choose(GEN, 4) == 3 ? 9999 : 3001)); break;
            case 3: { int w = range(GEN, 1, 300), hh = range(GEN, 1, 120); c.appSetWindow(range(GEN, 0, std::max(0, b.W - w)), range(GEN, 0, std::max(0, b.H - hh)), w, hh); break; }
            case 4: { int n = range(GEN, 1, 200); for (int j = 0; j < n; ++j) { CHAR_INFO &x = b.row(choose(GEN, std::min(b.H, 200)))[choose(GEN, b.W)]; x.Char.UnicodeChar = (WCHAR)choose(GEN, 65536); x.Attributes = (WORD)choose(GEN, 65536); } b.gen++; maybeYield("raw"); break; }
            case 5: { b.cur.X = (SHORT)choose(GEN, b.W); b.cur.Y = (SHORT)choose(GEN, b.H); b.gen++; if (choose(GEN, 2)) b.ci.bVisible = choose(GEN, 2); b.ci.dwSize = 1 + choose(GEN, 100); maybeYield("cursor"); break; }
            case 6: c.inMode = choose(GEN, 2) ? choose(GEN, 1024) : 0x1f7; ev("inmode", c.inMode); break;
            case 7: b.mode = choose(GEN, 8); break;
            case 8: { ustr t; int n = choose(GEN, 8) == 7 ? range(GEN, 0, 30000) : range(GEN, 0, 100); uint32_t z = choose(GEN, 65536); for (int j = 0; j < n; ++j) { z = z * 1103515245u + 12345u; t.push_back((char16_t)(z >> 16 ? z >> 16 : 32)); } for (auto &x : t) if (!x) x = u'?'; c.appSetTitle(t); break; }
            case 9: { INPUT_RECORD r; int n = range(GEN, 1, 50); while (n-- && c.appRead(r)) {} break; }
            case 10: c.input.clear(); break;                    // FlushConsoleInputBuffer
            case 11: { INPUT_RECORD r; memset((void *)&r, 0, sizeof r); static const WORD ty[] = {1, 2, 4, 8, 16}; r.EventType = ty[choose(GEN, 5)]; c.pushInput(r); break; }
            case 12: sleepFor(range(GEN, 1, 200)); break;
            default: wl.op(a); break;
            }
            if (choose(GEN, 6) == 5) sleepFor(range(GEN, 1, 60));
        }
        alive--;
    };
    h.programs["app"] = [&](App &a) {
        int kids = choose(GEN, 3);
        for (int i = 0; i < kids; ++i) h.consoleChild(a, "kid", [&](App &b) { sleepFor(range(GEN, 1, 200)); body(b, range(GEN, 1, 25)); });
        body(a, range(GEN, 1, 60));
        if (choose(GEN, 2)) waitFor("quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; static const int big[] = {1, 80, 2500, 32767, 100000, 0x7fffffff};
        auto dim = [&](int n) { return choose(GEN, 4) == 3 ? big[choose(GEN, 6)] : range(GEN, 1, n); };
        o.cols = dim(150); o.rows = dim(60); o.mouse = choose(GEN, 3); if (conerr) o.flags |= WINPTY_FLAG_CONERR; o.timeout = 60000;
        if (choose(GEN, 4) == 3) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; if (choose(GEN, 4) == 3) o.flags |= WINPTY_FLAG_COLOR_ESCAPES;
        rig.s = h.open(o); Session &s = rig.s; Process *ag = s.agent;
        Reader *r = choose(GEN, 8) == 7 ? nullptr : h.startReader(s.conout), *e = conerr && choose(GEN, 3) ? h.startReader(s.conerr) : nullptr;
        if (r) { r->pausePct = choose(GEN, 2) ? 0 : 20; if (choose(GEN, 2)) r->openDelay = range(GEN, 0, 1000); if (choose(GEN, 4) == 3) r->maxChunk = 64; }
        ActorPipe in; bool haveIn = choose(GEN, 8) != 7 && in.open(h.client.get(), s.conin, g_now + 5000);
        if (r) r->term.onDsr = [&] { if (choose(GEN, 2)) return; if (haveIn) { } };
        auto check = [&](const char *w) { if (ag->exited) violate("agent-died", fmt("the agent exited with code %u %s during %s", ag->exitCode, ag->crashWhy.c_str(), w)); };
        Harness::SpawnOpts so; so.flags = choose(GEN, 4) & ~2u; h.spawn(s, so);
        int n = range(GEN, 3, 40); int resizes = 0; int64_t inBytes = 0;
        for (int i = 0; i < n; ++i) {
            ErrP er = nullptr;
            switch (choose(GEN, 6)) {
            case 0: case 1: resizes++; if (!h.api.set_size(s.wp, dim(200), dim(100), &er)) { check("winpty_set_size"); violate("request-failed", fmt("winpty_set_size failed with %u", (unsigned)h.takeErr(er))); } break;
            case 2: { int buf[64]; if (h.api.get_console_process_list(s.wp, buf, 64, &er) <= 0) { check("winpty_get_console_process_list"); violate("request-failed", fmt("winpty_get_console_process_list failed with %u", er ? (unsigned)h.takeErr(er) : 0)); } break; }
            case 3: case 4: if (haveIn) {
                std::string b; int k = choose(GEN, 4) == 3 ? range(GEN, 1, 2000) : range(GEN, 1, 40);
                int style = choose(GEN, 4);
                for (int j = 0; j < k; ++j) {
                    if (style == 0) b.push_back((char)choose(GEN, 256));
                    else if (style == 1) { static const char cs[] = "\x1b\x1b[[O0123456789;;<M~mRuABCDHF$^@ \x03\x7f\x80\xC3\xF0\x9F\xED\xA0"; b.push_back(cs[choose(GEN, sizeof cs - 1)]); }
                    else if (style == 2) { b += fmt("\x1b[<%d;%d;%d%c", (int)choose(GEN, 300) - 5, (int)choose(GEN, 100000) - 50000, (int)choose(GEN, 3000) - 10, choose(GEN, 2) ? 'M' : 'm'); }
                    else { b += fmt("\x1b[%s%u;%uR", choose(GEN, 6) == 5 ? "99999999999999999999" : "", choose(GEN, 5000), choose(GEN, 5000)); }
                }
                inBytes += (int64_t)b.size(); in.write(b, g_now + 3000);
                if (choose(GEN, 12) == 11) { in.close(); haveIn = false; }
            } break;
            case 5: sleepFor(range(GEN, 1, 600)); break;
            }
            if (choose(GEN, 30) == 29 && r && !r->stop) { countFault(F_DISCONNECT); closeReader(r); }
            check("the run");
        }
        sleepFor(300);
        check("the run");
        // it still answers and the console is not left frozen
        ErrP er = nullptr; int buf[64];
        if (h.api.get_console_process_list(s.wp, buf, 64, &er) <= 0) { check("the end"); violate("request-failed", fmt("the agent no longer answers: error %u", er ? (unsigned)h.takeErr(er) : 0)); }
        int64_t lim = 4000 + 60 * g_sched.stallMax;
        if (!waitFor("thaw", [&] { return !s.con->frozen; }, lim)) violate("left-frozen", "the agent leaves the console frozen");
        h.checkBadHandles(ag, "agent-bad-handle");
        quit = true; nontrivial(); stat("ops", ops); stat("resizes", resizes); stat("input-bytes", inBytes);
        stateSig(mix(s.con->active->gen, mix(s.con->active->W * 10000 + s.con->active->H, ops)));
        g_sample = fmt("%dx%d win%d ops=%lld resizes=%d input=%lld active buffer %dx%d", o.cols, o.rows, h.w.cfg.winver, (long long)ops, resizes, (long long)inBytes, s.con->active->W, s.con->active->H);
        h.closeSession(s);
        if (!waitFor("agent-exit", [ag] { return ag->exited; }, kAgentExitBound)) violate("agent-left-behind", "the agent is still running after its session was freed");
    });
}
static RegCheck c31("C31", "a run counts as non-trivial when the agent answered a request after a random mixture of console manipulation, input and resizes",
    {{"chaos", 0, 1500, 20000}},
    {{"chaos", 0, 200, 5000}, {"mouse", 0, 150, 3000}, {"text", 0, 60, 2000}, {"keys", 0, 60, 2000}, {"hygiene", 0, 150, 3000}, {"scroll", 0, 60, 2000}, {"resize", 0, 60, 2000}, {"direct", 0, 60, 2000}, {"title", 0, 100, 2000}, {"wire", 0, 60, 2000}, {"wire", 1, 150, 5000}, {"badreply", 0, 150, 5000}, {"trace", 0, 400, 6000}, {"rpc", 1, 60, 2000}});
