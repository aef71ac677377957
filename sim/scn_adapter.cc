// The unix adapter: the repository's main program running with the real client
// library and agent, between a simulated terminal and a console program.
#include "libtools.h"
#include "posix.h"

namespace {
struct Adapter {
    Harness &h; ProcP p; TtyP in, out, er;
    std::vector<std::string> args; bool conerr = false, allowNonTty = false;
    std::shared_ptr<std::string> tapIn, tapOut, tapErr, tapCtl;    // bytes in the session's pipes
    std::shared_ptr<PipeClient> ctl;
    TtyModes initIn, initOut, initErr;
    std::string typed, shownErr;
    std::vector<Fiber *> terms; bool stop = false;
    std::function<void(Process *)> setup;   // files and environment
    int setsUp = -1;                // mode changes when the session was up: typing stops once the modes are put back
    explicit Adapter(Harness &hh) : h(hh) {
        h.w.onPipeOpen = [this](const ustr &n, std::shared_ptr<PipeServer> s, std::shared_ptr<PipeClient> c, uint32_t, uint32_t) {
            auto has = [&](const char16_t *t) { return n.find(t) != ustr::npos; };
            auto put = [&](std::shared_ptr<std::string> &t, PipeEnd *e) { if (!t) t = std::make_shared<std::string>(e->in); e->tap = t; h.w.keep.push_back(s); h.w.keep.push_back(c); };
            if (has(u"-conin-")) put(tapIn, s.get());
            else if (has(u"-conout-")) put(tapOut, c.get());
            else if (has(u"-conerr-")) put(tapErr, c.get());
            else if (has(u"winpty-control-")) { put(tapCtl, c.get()); ctl = c; }
        };
    }
    void tty(bool sameForAll) {
        auto mk = [] { auto t = std::make_shared<Tty>(); t->modes = t->randomModes(); t->cols = range(GEN, 20, 150); t->rows = range(GEN, 5, 60); static const int caps[] = {4096, 200, 30, 20000}; t->outCap = caps[choose(GEN, 4)]; return t; };
        in = mk(); out = sameForAll ? in : mk(); er = sameForAll ? in : mk();
    }
    void start() {
        Module *m = takeModule("adapter"); if (!m) harnessError("out of adapter modules");
        p = newProcess("adapter", nullptr); p->mod = m; p->label = "adapter";
        posixInit(p.get(), in, out, er);
        posixFile(p.get(), "/usr/bin/app.exe", true); posixFile(p.get(), "/usr/bin/my app.exe", true); posixFile(p.get(), "/usr/bin/noexec", false);
        if (setup) setup(p.get());
        initIn = in->modes; initOut = out->modes; initErr = er->modes;
        auto entry = (int (*)(int, char **))m->sym("entry"); Process *pp = p.get();
        auto argv = std::make_shared<std::vector<std::string>>(args); argv->insert(argv->begin(), "winpty");
        spawnThread(pp, "adapter", [entry, pp, argv] {
            std::vector<char *> v; for (auto &a : *argv) v.push_back(&a[0]); v.push_back(nullptr);
            int rc = entry((int)v.size() - 1, v.data()); processExit(pp, (uint32_t)rc); fiberExit();
        });
        std::set<Tty *> seen;
        for (TtyP t : {in, out, er}) if (seen.insert(t.get()).second) terms.push_back(terminal(t));
    }
    int pausePct = 0, pauseMax = 100, chunk = 4096;
    Fiber *terminal(TtyP t) {
        return spawnThread(h.client.get(), "terminal", [this, t] {
            for (;;) {
                blockUntil("terminal", [this, t] { return stop || (!t->out.empty() && !t->paused && !t->flowStopped); });
                if (stop && (t->out.empty() || t->hup)) return;
                if (pausePct && !stop && chance(FAULT, pausePct, 100)) { countFault(F_SLOW_READER); sleepFor(1 + choose(FAULT, pauseMax)); if (t->paused) continue; }
                size_t n = std::min<size_t>(t->out.size(), chunk <= 64 ? 1 + choose(SCHED, chunk) : chunk);
                if (g_verbose && n) logf("terminal <- %s", hexdump(t->out.substr(0, n), 200).c_str());
                t->shown.append(t->out, 0, n); t->out.erase(0, n);
            }
        });
    }
    bool sessionUp() { return posixThreads(p.get()) > (conerr ? 2 : 1); }
    void type(const std::string &s) {
        for (char c : s) { if (in->hup || in->eof || p->exited || (in->tty && setsUp >= 0 && in->sets > setsUp)) return; if (in->in.size() > 4000) { if (!waitFor("type", [this] { return in->in.size() < 2000 || p->exited || in->hup; }, 20000) || in->sets > setsUp) return; } in->type(c); typed.push_back(c); }
        ev("typed", (int64_t)s.size());
    }
    Process *agent() { return h.agents.empty() ? nullptr : h.agents.back().get(); }
    // Sizes the session was told: initial one from the agent's command line, then SetSize requests.
    std::vector<std::pair<int, int>> sizes() {
        std::vector<std::pair<int, int>> v;
        if (Process *a = agent()) {
            std::vector<std::string> w; std::string c = u8(a->cmdline), t; for (char ch : c + " ") if (ch == ' ') { if (!t.empty()) w.push_back(t); t.clear(); } else t.push_back(ch);
            if (w.size() >= 2) v.push_back({atoi(w[w.size() - 2].c_str()), atoi(w[w.size() - 1].c_str())});
        }
        if (tapCtl) {
            size_t o = 0; const std::string &s = *tapCtl;
            while (o + 8 <= s.size()) {
                uint64_t n; memcpy(&n, &s[o], 8); if (n < 8 || o + n > s.size()) break;
                std::vector<int> ints; bool odd = false;
                for (size_t k = o + 8; k + 5 <= o + n;) { if (s[k] == 0) { int x; memcpy(&x, &s[k + 1], 4); ints.push_back(x); k += 5; } else { odd = true; break; } }
                if (!odd && ints.size() == 3 && ints[0] == 1) v.push_back({ints[1], ints[2]});
                o += n;
            }
        }
        return v;
    }
};
// How Windows programs split a command line (CommandLineToArgvW and the C runtime).
std::vector<std::string> splitCommandLine(const std::string &s) {
    std::vector<std::string> v; size_t i = 0; std::string t; bool quote = false;
    for (; i < s.size() && (quote || (s[i] != ' ' && s[i] != '\t')); ++i) if (s[i] == '"') quote = !quote; else t.push_back(s[i]);
    v.push_back(t);
    for (;;) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
        if (i >= s.size()) return v;
        t.clear(); quote = false;
        while (i < s.size() && (quote || (s[i] != ' ' && s[i] != '\t'))) {
            size_t b = 0; while (i < s.size() && s[i] == '\\') ++b, ++i;
            if (i < s.size() && s[i] == '"') {
                t.append(b / 2, '\\'); if (b % 2) { t.push_back('"'); ++i; }
                else if (quote && i + 1 < s.size() && s[i + 1] == '"') { t.push_back('"'); i += 2; }
                else { quote = !quote; ++i; }
            } else { t.append(b, '\\'); if (i < s.size() && (quote || (s[i] != ' ' && s[i] != '\t'))) t.push_back(s[i++]); }
        }
        v.push_back(t);
    }
}
std::string randBytes(int n, int style) {
    std::string s;
    for (int i = 0; i < n; ++i) {
        if (style == 0) s.push_back((char)choose(GEN, 256));
        else if (style == 1) s.push_back((char)('a' + choose(GEN, 26)));
        else { static const char sp[] = "\x03\x04\x11\x13\x16\x1a\x1c\r\n\x7f\x15\x00\xff\x80q"; s.push_back(sp[choose(GEN, sizeof sp - 1)]); }
    }
    return s;
}
}

// param 3: all text of a program that ends by itself reaches the terminal (C24).
// param 0: relay (C24); 1: sizes, modes, status (C25); 2: failing start-up, dying session or terminal (C25).
SCENARIO(adapter) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false;
    Adapter a(h);
    g_bbPreempt = choose(GEN, 4) != 3; static const int gaps[] = {60, 15, 400}; g_bbGap = gaps[choose(GEN, 3)];
    static const int eg[] = {0, 30, 6};
    if (int g = eg[choose(GEN, 3)]) planFault(F_EINTR, g, 300);
    if (int g = eg[choose(GEN, 3)]) planFault(F_SHORT_IO, g, 1000);
    bool one = param == 2 ? choose(GEN, 2) == 0 : choose(GEN, 3) != 2;
    a.tty(one);
    if (choose(GEN, 3) == 2) { a.pausePct = 20; a.pauseMax = range(GEN, 5, 300); }
    if (choose(GEN, 3) == 2) a.chunk = 1 + choose(GEN, 64);
    a.conerr = choose(GEN, param == 3 ? 2 : 4) == (param == 3 ? 1 : 3); a.allowNonTty = choose(GEN, 4) == 3;
    if (a.allowNonTty) { a.args.push_back("-Xallow-non-tty"); if (!one) { a.in->tty = choose(GEN, 2); a.out->tty = choose(GEN, 2); a.er->tty = choose(GEN, 2); } }
    if (a.conerr) a.args.push_back("-Xconerr");
    if (choose(GEN, 4) == 3) a.args.push_back("--mouse");
    if (choose(GEN, 4) == 3) a.args.push_back("-Xplain");
    if (choose(GEN, 4) == 3) a.args.push_back("-Xcolor");
    if (choose(GEN, 3) == 2) a.args.push_back("--");
    std::string prog = choose(GEN, 4) == 3 ? (choose(GEN, 2) ? "my app.exe" : "/usr/bin/../bin/my app.exe") : choose(GEN, 2) ? "app" : "/usr/bin/app.exe";
    // what goes wrong
    enum { None, NoProgram, SpawnFails, OpenFails, TtyFails, NotTty, AgentDies, HangUp, HangUpKill, InputEof, AppKilled, OutGone } bad = None;
    if (param == 2) {
        static const decltype(bad) k[] = {NoProgram, SpawnFails, OpenFails, TtyFails, NotTty, AgentDies, HangUp, HangUpKill, InputEof, AppKilled, OutGone};
        bad = k[choose(GEN, 11)];
        if (bad == NoProgram) prog = choose(GEN, 2) ? "missing" : choose(GEN, 2) ? "/usr/bin/none" : "noexec";
        if (bad == TtyFails) { TtyP t[] = {a.in, a.out, a.er}; TtyP x = t[choose(FAULT, a.conerr ? 3 : 2)]; int n = one ? 2 + a.conerr : 1; if (choose(FAULT, 2)) x->failSet = choose(FAULT, n); else x->failGet = choose(FAULT, 2 * n); if (!x->tty) bad = None; }
        if (bad == OutGone && one) { a.tty(false); one = false; }
        if (bad == NotTty) { if (one) a.tty(false); (choose(GEN, 2) ? a.in : a.out)->tty = false; a.allowNonTty = false; a.args.clear(); }
    }
    if (param == 0 && choose(GEN, 5) == 4) bad = InputEof;          // the input ends while the program writes
    a.args.push_back(prog);
    int nargs = choose(GEN, 4); std::vector<std::string> progArgs;
    for (int i = 0; i < nargs; ++i) {
        std::string t; static const char *const pc[] = {"a", "\\", "\"", " ", "\t", "\\\\", "-x", "\xc3\xa9", "\xf0\x9f\x98\x80", "'", "/", "\n"};
        for (int j = choose(GEN, 8); j > 0; --j) t += pc[choose(GEN, 12)];
        progArgs.push_back(t); a.args.push_back(t);
    }
    uint32_t code = choose(GEN, 3) ? choose(GEN, 256) : choose(GEN, 2) ? 0xC0000005u : (uint32_t)choose(GEN, 70000);
    int lines = range(GEN, 0, choose(GEN, 3) == 2 ? 400 : 40); if (param == 3 && choose(GEN, 5) == 4) lines = range(GEN, 400, 1500);
    const int errShare = choose(GEN, 3); bool quit = false; bool waitQuit = choose(GEN, 3) != 2; Process *child = nullptr; std::vector<std::string> wantOut, wantErr; bool appErr = a.conerr && choose(GEN, 2);
    std::string drive = choose(GEN, 2) ? "burst" : "slow";
    const std::string progPath = prog.find("my") != std::string::npos ? "C:\\cygwin\\usr\\bin\\my app.exe" : "C:\\cygwin\\usr\\bin\\app.exe";
    h.programs[progPath] = [&](App &app) {
        child = app.p; app.p->ctrlC = [](int) {};      // ignores interrupts
        if (!choose(GEN, 3)) app.con->inMode &= ~(DWORD)ENABLE_PROCESSED_INPUT;
        if (param == 3) {
            HandleEntry *e = lookup(app.p, app.p->stdErr, false);
            ScreenBuf *eb = appErr && e && e->obj->type == O_SCREEN ? static_cast<ScreenBuf *>(e->obj.get()) : nullptr;
            for (int i = 0; i < lines; ++i) {
                bool err = eb && (errShare == 0 ? choose(GEN, 2) : errShare == 1 ? choose(GEN, 12) != 0 : choose(GEN, 12) == 0); std::string s = fmt("%c%d.", err ? 'E' : 'O', i);
                (err ? wantErr : wantOut).push_back(s);
                std::string t = s; if (lines > 400 || choose(GEN, 2)) { int n = choose(GEN, lines > 400 ? 33 : 12); for (int j = 0; j < n; ++j) t.push_back((char)('a' + choose(GEN, 26))); }
                t += i + 1 < lines || choose(GEN, 2) ? "\r\n" : "";
                if (err) app.con->appWriteTo(eb, u16of(t)); else app.con->appWrite(u16of(t));
                if (drive == "slow" && choose(GEN, 8) == 7) sleepFor(range(GEN, 1, 100));
            }
            processExit(app.p, code); fiberExit();
        }
        for (int i = 0; i < lines; ++i) {
            int n = choose(GEN, 60); std::string s; for (int j = 0; j < n; ++j) s.push_back((char)('!' + choose(GEN, 90)));
            app.con->appWrite(u16of(s + "\r\n"));
            if (drive == "slow" && choose(GEN, 8) == 7) sleepFor(range(GEN, 1, 100));
        }
        if (bad == InputEof || bad == OutGone) while (!quit) {
            app.con->appWrite(u16of(fmt("more %d\r\n", lines++)));
            HandleEntry *e = bad == OutGone && appErr ? lookup(app.p, app.p->stdErr, false) : nullptr;
            if (e && e->obj->type == O_SCREEN) app.con->appWriteTo(static_cast<ScreenBuf *>(e->obj.get()), u16of(fmt("err %d\r\n", lines)));
            sleepFor(range(GEN, 5, 200)); }
        if (waitQuit) waitFor("quit", [&] { return quit; }, -1);
        if (choose(GEN, 2)) app.con->appWrite(u"last words\r\n");
        processExit(app.p, code); fiberExit();
    };
    if (param == 3) { waitQuit = false; a.in->cols = std::max(a.in->cols, 40); }
    if (bad == OpenFails) h.w.fileExists = [](const ustr &) { return false; };
    if (bad == SpawnFails) h.programs.clear();
    h.start([&] {
        const int64_t settle = 5000 + 100 * g_sched.stallMax + 20 * h.w.cfg.ioDelayMax;
        // changes while the adapter starts
        bool startResize = param != 3 && choose(GEN, 3) != 2;
        int resizes = 0, acts = 0, zero = 0; bool hupDone = false; int64_t cutAt = -1;
        const int c0 = a.in->cols, r0 = a.in->rows;
        auto resize = [&](bool z) {
            int c = range(GEN, 1, 200), r = range(GEN, 1, 90);
            if (choose(GEN, 4) == 3) { c = c0; r = r0; }            // back to the first size
            if (z && choose(GEN, 12) == 11) { c = 0; r = choose(GEN, 2) ? 0 : r; zero++; }
            a.in->resize(c, r); if (a.out != a.in && a.out->tty) { a.out->cols = c; a.out->rows = r; } resizes++;
            ev("tty-size", c, r); if (g_verbose) logf("terminal resized to %dx%d", c, r);
        };
        if (param != 3 && choose(GEN, 20) == 19) { a.in->cols = a.in->rows = 0; zero++; }
        int rs = startResize ? range(GEN, 1, 3) : 0;
        h.w.onApi = [&](Process *p, const char *) { if (rs > 0 && p == a.p.get() && choose(FAULT, 40) == 39) { rs--; resize(true); } };
        a.start();
        if (bad == AgentDies) { }
        bool up = waitFor("session", [&] { return a.sessionUp() || a.p->exited; }, 120000);
        if (!up) violate("start-stuck", "the adapter neither starts a session nor exits");
        rs = 0; a.setsUp = 1 + (a.in == a.out) + (a.conerr && a.in == a.er);      // times a new session sets the keyboard terminal's mode
        auto ended = [&](const char *why) { return a.p->exited ? violate("adapter-exited", fmt("the adapter exited with code %u %s (%s): %s", a.p->exitCode, a.p->crashWhy.c_str(), why, hexdump(a.p->err, 200).c_str())) : (void)0; };
        bool failing = bad == NoProgram || bad == SpawnFails || bad == OpenFails || bad == NotTty;
        if (failing || bad == TtyFails) {
            if (!waitFor("fail-exit", [&] { return a.p->exited; }, failing ? 60000 : 3000 + settle)) {
                if (failing) violate("bad-start-survives", "the adapter keeps running although it could not start its session");
                bad = None;          // the failing call was never made
            } else {
                if (a.p->crashed) violate("adapter-crash", a.p->crashWhy);
                if (a.p->exitCode != 1 && !(bad == TtyFails && child && child->exited)) violate("bad-status", fmt("the adapter failed to start but exits with status %u", a.p->exitCode));
                if (failing && a.p->err.empty()) violate("silent-failure", "the adapter failed without a message");
            }
        } else if (!a.p->exited) {
            if (waitQuit) ended("right after start");
            int n = range(GEN, 1, 25);
            if (param == 3) {
                // the program writes and ends while the terminal is slow, stops and goes on
                n = choose(GEN, 8);
                for (int i = 0; i < n && !a.p->exited; ++i) { sleepFor(range(GEN, 1, choose(GEN, 4) == 3 ? 4000 : 400)); int which = a.conerr ? choose(GEN, 4) : 0; if (which != 2) a.out->paused = !a.out->paused; if (which >= 2) a.er->paused = !a.er->paused; else if (which == 0) a.er->paused = a.er != a.out ? false : a.out->paused; if (a.out->paused || a.er->paused) countFault(F_SLOW_READER); if (choose(GEN, 3) == 2) posixSignal(a.p.get(), 28); }
                n = 0;
            }
            for (int i = 0; i < n && !a.p->exited; ++i, ++acts) {
                switch (choose(GEN, param == 0 ? 8 : 6)) {
                case 0: case 1: {
                    std::string s = randBytes(range(GEN, 1, choose(GEN, 4) == 3 ? 2000 : 30), choose(GEN, 3));
                    if (!child) for (char &c : s) if (c == 3) c = 'c';         // an interrupt would end a program that is still starting
                    a.type(s); break; }
                case 2: resize(true); if (choose(GEN, 3) == 2) for (int j = choose(GEN, 20); j > 0; --j) { resize(true); if (choose(GEN, 2)) sleepFor(1); } break;
                case 3: sleepFor(range(GEN, 1, 300)); break;
                case 4: posixSignal(a.p.get(), 28); break;        // SIGWINCH without a change
                case 5: {
                    if (!waitQuit || param == 2) break;
                    // everything typed arrives, and the session knows the current size
                    size_t want = a.typed.size();
                    if (a.in->paused) break;
                    bool ok = waitFor("typed-arrives", [&] { return a.p->exited || (a.tapIn && a.tapIn->size() >= want); }, settle);
                    if (!waitQuit) break;
                    ended("during the session");
                    if (!ok) violate("input-stuck", fmt("only %zu of %zu typed bytes reached the session after %lld ms", a.tapIn ? a.tapIn->size() : 0, want, (long long)settle));
                    if (a.in->tty && a.in->cols > 0 && a.in->rows > 0) {
                        auto told = [&] { auto v = a.sizes(); return !v.empty() && v.back() == std::make_pair(a.in->cols, a.in->rows); };
                        ok = waitFor("size", [&] { return a.p->exited || told(); }, settle);
                        ended("during the session");
                        if (!ok) { auto v = a.sizes(); violate("size-stale", fmt("the terminal is %dx%d but the session was last told %dx%d", a.in->cols, a.in->rows, v.empty() ? -1 : v.back().first, v.empty() ? -1 : v.back().second)); }
                        stat("sizes-checked");
                    }
                    std::string why = a.in->tty ? notRaw(a.in->modes, true) : ""; if (why.empty() && a.out->tty) why = notRaw(a.out->modes, false);
                    if (!why.empty()) violate("not-raw", "the session runs but the terminal is not in raw mode: " + why);
                    break; }
                case 6: case 7: a.out->paused = !a.out->paused; if (a.out->paused) countFault(F_SLOW_READER); break;
                }
                if ((param == 2 || bad == InputEof) && !hupDone && choose(GEN, 4) == 3) {
                    hupDone = true; cutAt = g_now;
                    switch (bad) {
                    case AgentDies: countFault(F_PROC_CRASH); if (Process *ag = a.agent()) processExit(ag, 0xC0000005, true, "injected crash"); break;
                    case HangUp: case HangUpKill: countFault(F_DISCONNECT); a.in->hupRead0 = choose(GEN, 2); for (TtyP t : {a.in, a.out, a.er}) t->hangup(bad == HangUpKill); break;
                    case InputEof: a.in->eof = true; break;
                    case OutGone: countFault(F_DISCONNECT); (a.conerr && appErr && choose(GEN, 2) ? a.er : a.out)->hangup(false); break;
                    case AppKilled: countFault(F_PROC_CRASH); if (child && !child->exited) processExit(child, code); break;
                    default: hupDone = false; cutAt = -1;
                    }
                    if (hupDone) break;
                }
            }
            bool inputOver = hupDone && (bad == InputEof || bad == HangUp || bad == OutGone);       // ends the session by itself
            if (!inputOver) quit = true;
            bool paused = a.out->paused && bad == None;
            if (paused && waitQuit) {
                // nothing may be lost or cut off while the terminal does not take output
                sleepFor(range(GEN, 100, 3000));
                if (a.p->exited && a.tapOut && a.out->shown.size() + a.out->out.size() < a.tapOut->size()) violate("output-cut", "the adapter exited while the terminal was not taking output and session output was left");
            }
            a.out->paused = a.er->paused = false;
            if (choose(GEN, 2)) { a.pausePct = 0; a.chunk = 4096; }
            int64_t lim = 45000 + settle;
            if (a.pausePct || a.chunk < 4096) {                 // slow to the end, for a while
                waitFor("exit", [&] { return a.p->exited; }, range(GEN, 100, 60000));
                a.pausePct = 0; a.chunk = 4096;
            }
            if (!waitFor("exit", [&] { return a.p->exited; }, lim)) violate("adapter-stuck", fmt("the session ended%s but the adapter is still running after %lld ms", bad ? " abnormally" : "", (long long)lim));
        }
        if (!a.p->exited && !waitFor("exit", [&] { return a.p->exited; }, 60000 + settle)) violate("adapter-stuck", "the adapter is still running");
        if (a.p->crashed) violate("adapter-crash", a.p->crashWhy + hexdump(a.p->err, 200));
        bool piped = bad == OutGone && hupDone && a.p->exitCode == 128 + 13;           // ended by SIGPIPE, not by itself
        bool killed = (bad == HangUpKill && hupDone) || piped, hung = ((bad == HangUp || bad == HangUpKill) && hupDone) || piped;
        // the terminal shows the rest
        waitFor("shown", [&] { return a.in->hup || (a.in->out.empty() && a.out->out.empty() && a.er->out.empty()); }, 3000000);
        a.stop = true;
        // --- modes
        if (!hung) {
            struct { TtyP t; TtyModes *m; const char *n; } z[] = {{a.in, &a.initIn, "standard input"}, {a.out, &a.initOut, "standard output"}, {a.er, &a.initErr, "standard error"}};
            for (auto &x : z) if (x.t->tty && !x.t->hup && !(x.t->modes == *x.m)) violate("modes-not-restored", fmt("after the adapter exited the terminal on %s has %s instead of %s", x.n, x.t->modes.str().c_str(), x.m->str().c_str()));
        }
        // --- relay
        if (a.tapIn) {
            const std::string &g = *a.tapIn;
            if (a.typed.compare(0, g.size(), g) != 0) { size_t k = 0; while (k < g.size() && k < a.typed.size() && g[k] == a.typed[k]) ++k; violate("input-differs", fmt("byte %zu of the keyboard input: typed %s, session received %s", k, hexdump(a.typed.substr(k, 20)).c_str(), hexdump(g.substr(k, 20)).c_str())); }
        }
        auto cmpOut = [&](std::shared_ptr<std::string> tap, TtyP t, const char *n) {
            if (!tap || t->hup || failing || bad == TtyFails) return;
            const std::string &g = t->shown; const std::string &w = *tap;
            if (g == w) { stat("bytes-out", (int64_t)w.size()); return; }
            size_t k = 0; while (k < g.size() && k < w.size() && g[k] == w[k]) ++k;
            violate(k == g.size() ? "output-lost" : "output-differs", fmt("%s: the session sent %zu bytes, the terminal got %zu; from byte %zu: sent %s, got %s", n, w.size(), g.size(), k, hexdump(w.substr(k, 30)).c_str(), hexdump(g.substr(k, 30)).c_str()));
        };
        bool errShared = a.conerr && a.er == a.out;
        if (!errShared && a.in == a.out && !hung) cmpOut(a.tapOut, a.out, "standard output"); else if (!errShared && !hung) cmpOut(a.tapOut, a.out, "standard output");
        if (a.conerr && !errShared && !hung) cmpOut(a.tapErr, a.er, "standard error");
        if (errShared && !hung && !failing && bad != TtyFails && a.tapOut && a.tapErr && a.out->shown.size() != a.tapOut->size() + a.tapErr->size()) violate("output-lost", fmt("the session sent %zu + %zu bytes, the terminal got %zu", a.tapOut->size(), a.tapErr->size(), a.out->shown.size()));
        // --- completeness
        if (param == 3) {
            struct { std::vector<std::string> &w; std::string t; const char *n; } z[] = {{wantOut, errShared ? *a.tapOut : a.out->shown, "output"}, {wantErr, errShared ? *a.tapErr : a.er->shown, "error output"}};
            for (auto &x : z) for (auto &l : x.w) if (x.t.find(l) == std::string::npos) violate("text-lost", fmt("the terminal never got line %s of the program's %s (%zu + %zu lines; it got %zu bytes, the session sent %zu)", l.c_str(), x.n, wantOut.size(), wantErr.size(), x.t.size(), a.tapOut ? a.tapOut->size() : 0));
            stat("lines-checked", (int64_t)(wantOut.size() + wantErr.size()));
        }
        // --- arguments
        if (child) {
            std::vector<std::string> got = splitCommandLine(u8(child->cmdline)), want = progArgs; want.insert(want.begin(), progPath);
            if (got != want) { std::string d; for (auto &x : got) d += "[" + x + "]"; std::string w; for (auto &x : want) w += "[" + x + "]"; violate("arguments-differ", "the program was started with " + d + " instead of " + w); }
        }
        // --- status
        bool natural = !failing && bad != TtyFails && !hupDone;
        if ((natural || (bad == AppKilled && hupDone)) && !killed) {
            if (!child || !child->exited) violate("early-exit", fmt("the adapter exited with status %u while its program was still running", a.p->exitCode));
            if (a.p->exitCode != child->exitCode) violate("exit-status", fmt("the program exited with status %u but the adapter with %u", child->exitCode, a.p->exitCode));
            stat("status-checked");
        }
        // --- nothing is left behind
        for (auto &ag : h.agents) { Process *g = ag.get(); if (!waitFor("agent-exit", [g] { return g->exited; }, kAgentExitBound)) violate("agent-left-behind", g->label + " is still running after the adapter exited"); }
        if (child && !(bad == AgentDies && hupDone) && !waitFor("child-exit", [&] { return child->exited; }, 10000)) violate("child-left-behind", "the program is still running after the adapter exited");
        nontrivial(); stat("resizes", resizes); stat("signals", posixSignals(a.p.get())); stat("bytes-in", (int64_t)a.typed.size()); stat("zero-sizes", zero); stat(fmt("end-%d", bad).c_str());
        stateSig(mix(mix(a.typed.size(), a.out->shown.size()), (uint64_t)resizes * 100 + bad));
        g_sample = fmt("typed %zu bytes, terminal got %zu, %d resizes, %d signals, fault %d, status %u", a.typed.size(), a.out->shown.size(), resizes, posixSignals(a.p.get()), bad, a.p->exitCode);
    });
}

// The adapter's command line: options, the search for the program, what the
// session and the program get; and --showkey.
SCENARIO(adapterargs) {
    Harness h; h.world(1); h.w.cfg.fontLimits = false; h.w.cfg.debugEnv.clear();
    Adapter a(h);
    g_bbPreempt = choose(GEN, 4) != 3; static const int gaps[] = {60, 15, 400}; g_bbGap = gaps[choose(GEN, 3)];
    a.tty(true);
    // options
    enum { Run, Help, Version, BadOption, NoProg, ShowKey } want = Run;
    bool mouse = false, conerr = false, plain = false, color = false, showKey = false, stop = false; std::string badOpt;
    bool odd = choose(GEN, 3) == 2;                 // an option line that does not start a session
    int nopt = choose(GEN, 6);
    for (int i = 0; i < nopt && !stop; ++i) {
        static const char *const good[] = {"--mouse", "-Xconerr", "-Xplain", "-Xcolor", "-Xallow-non-tty"};
        static const char *const bad[] = {"-", "--mous", "-x", "---", "--showkeys", "-H", "--HELP", "-Xplainn", "-mouse", "--version=1"};
        if (odd && choose(GEN, 3) == 2) {
            switch (choose(GEN, 4)) {
            case 0: a.args.push_back(choose(GEN, 2) ? "-h" : "--help"); if (want == Run) want = Help; break;
            case 1: a.args.push_back("--version"); if (want == Run) want = Version; break;
            case 2: a.args.push_back(bad[choose(GEN, 10)]); if (want == Run) { want = BadOption; badOpt = a.args.back(); } break;
            case 3: a.args.push_back("--showkey"); showKey = true; break;
            }
            continue;
        }
        std::string g = good[choose(GEN, 5)]; a.args.push_back(g);
        if (g == "--mouse") mouse = true; else if (g == "-Xconerr") conerr = true; else if (g == "-Xplain") plain = true; else if (g == "-Xcolor") color = true;
    }
    bool dash = choose(GEN, 4) == 3; if (dash) a.args.push_back("--");
    static const char *const stems[] = {"--help", "-h", "--version", "-tool", "--showkey", "--"};
    const std::string stem = dash && choose(GEN, 2) ? stems[choose(GEN, 6)] : "tool";        // after "--" nothing is an option any more
    a.conerr = conerr;
    bool haveProg = !odd || choose(GEN, 3) != 2;
    // the program
    static const char *const exts[] = {"", ".exe", ".com", ".bat", ".cmd", ".EXE", ".Com"};
    static const char *const dirs[] = {"/a", "/b", "/a b", "/usr/bin", "/home/user", "/home/user/sub", "/ghost"};
    std::map<std::string, bool> files;
    for (const char *d : dirs) for (const char *e : exts) if (std::string(d) != "/ghost" && choose(GEN, 3) == 2) files[std::string(d) + "/" + stem + e] = choose(GEN, 4) != 3;
    static const char *const elems[] = {"/a", "/b/", "/a b", "/usr/bin", "", "sub", "/ghost", "/a/../b", "."};
    std::string path; int nel = choose(GEN, 6); std::vector<std::string> el; for (int i = 0; i < nel; ++i) { el.push_back(elems[choose(GEN, 9)]); path += (i ? ":" : "") + el.back(); } if (!nel) el.push_back("");
    bool noPath = choose(GEN, 12) == 11; if (noPath) el.assign(1, "");
    static const char *const progs[] = {"tool", "tool.exe", "tool.com", "tool.bat", "tool.cmd", "tool.EXE", "tool.Com", "./tool", "sub/tool.exe", "/a/tool", "/a b/tool.exe", "../user/tool.com", "/ghost/tool"};
    std::string prog = progs[choose(GEN, 13)]; prog.replace(prog.find("tool"), 4, stem);
    auto norm = [](std::string q) { if (q.empty() || q[0] != '/') q = "/home/user/" + q; std::vector<std::string> parts; std::string c; for (char ch : q + "/") if (ch == '/') { if (c == "..") { if (!parts.empty()) parts.pop_back(); } else if (!c.empty() && c != ".") parts.push_back(c); c.clear(); } else c.push_back(ch); q.clear(); for (auto &x : parts) q += "/" + x; return q; };
    auto known = [](const std::string &s) { if (s.size() < 4) return false; std::string e = s.substr(s.size() - 4); for (char &c : e) c = (char)tolower(c); return e == ".exe" || e == ".com" || e == ".bat" || e == ".cmd"; };
    std::string found;
    if (prog.find('/') == std::string::npos) {
        for (auto &d : el) { std::string c = norm(d + (d.empty() ? "" : "/") + prog); if (!known(c)) c += ".exe"; auto it = files.find(c); if (it != files.end() && it->second) { found = c; break; } }
    } else { std::string c = norm(prog); if (files.count(c) || files.count(c + ".exe")) found = c; }
    std::string winPath = "C:\\cygwin" + found; for (char &c : winPath) if (c == '/') c = '\\';
    std::vector<std::string> progArgs;
    if (haveProg) {
        a.args.push_back(prog);
        int n = choose(GEN, 4); static const char *const pa[] = {"--help", "--", "-Xplain", "--version", "x", "", "a b", "--showkey", "-Xconerr"};
        for (int i = 0; i < n; ++i) { progArgs.push_back(pa[choose(GEN, 9)]); a.args.push_back(progArgs.back()); }
    }
    if (want == Run) want = showKey ? ShowKey : !haveProg ? NoProg : Run;
    // environment
    std::map<std::string, std::string> env; static const char *const dv[] = {"input", "force_desktop", "x,y", "a=b c"};
    if (choose(GEN, 2)) env["WINPTY_DEBUG"] = dv[choose(GEN, 4)];
    if (choose(GEN, 3) == 2) env["WINPTY_SHOW_CONSOLE"] = "1";
    env["OTHER"] = fmt("v%u", choose(GEN, 100));
    a.setup = [&](Process *p) {
        for (auto &kv : env) posixEnv(p, kv.first, kv.second.c_str());
        posixEnv(p, "PATH", noPath ? nullptr : path.c_str()); if (choose(GEN, 4) == 3) posixEnv(p, "TERM", nullptr);
        for (auto &f : files) posixFile(p, f.first, f.second);
    };
    Process *child = nullptr; ustr cmd; std::map<std::string, std::string> childEnv; std::vector<ustr> starts; uint32_t code = choose(GEN, 256);
    uint32_t spawnErr = choose(GEN, 4) == 3 ? (choose(GEN, 2) ? 2 : choose(GEN, 2) ? 740 : 193) : 0;
    h.execHook = [&](ProcP c, const SpawnReq &q) -> uint32_t {
        if (isAgent(q)) return ~0u;
        starts.push_back(q.cmdline);
        if (spawnErr) return spawnErr;
        child = c.get(); cmd = q.cmdline; childEnv = c->envA; c->kind = "app"; c->label = "app";
        uint32_t cd = code; spawnThread(c.get(), "app", [c, cd] { sleepFor(choose(GEN, 50)); processExit(c.get(), cd); fiberExit(); });
        return 0;
    };
    std::string what = "arguments"; for (auto &x : a.args) what += " [" + x + "]";
    h.start([&] {
        const int64_t settle = 20000 + 100 * g_sched.stallMax + 20 * h.w.cfg.ioDelayMax;
        a.start(); Process *p = a.p.get();
        int typedN = 0, typedEsc = 0;
        if (want == ShowKey) {
            // keys are shown one by one until Ctrl-D
            std::string shown; auto dump = [&](unsigned char c) { return fmt("\t%3d %04o 0x%02x\n", c, c, c); };
            bool raw = waitFor("raw", [&] { return p->exited || a.in->sets > 0; }, settle);
            if (!raw || p->exited) violate("showkey", "--showkey does not wait for keys");
            std::string why = notRaw(a.in->modes, true); if (!why.empty()) violate("not-raw", "--showkey reads keys but the terminal is not in raw mode: " + why);
            int n = choose(GEN, 8); std::string wantDump; typedN = n;
            for (int i = 0; i < n; ++i) {
                unsigned char c = (unsigned char)(choose(GEN, 3) == 2 ? choose(GEN, 32) : choose(GEN, 256)); if (c == 4) c = 5;
                typedEsc += c < 32; a.in->type((char)c); wantDump += dump(c);
                if (choose(GEN, 2)) { sleepFor(range(GEN, 0, 200)); }
                if (choose(GEN, 6) == 5) { a.in->resize(range(GEN, 1, 90), range(GEN, 1, 90)); posixSignal(p, 28); }
            }
            auto dumps = [&] { std::string d; size_t i = 0; const std::string &o = p->out; while ((i = o.find('\t', i)) != std::string::npos) { size_t e = o.find('\n', i); if (e == std::string::npos || e - i != 14) { i++; continue; } d += o.substr(i, e + 1 - i); i = e + 1; } return d; };
            if (!waitFor("shown", [&] { return p->exited || dumps().size() >= wantDump.size(); }, settle) || dumps() != wantDump) violate("showkey", "--showkey showed " + hexdump(dumps(), 300) + " instead of " + hexdump(wantDump, 300));
            if (p->exited) violate("showkey", "--showkey ended before Ctrl-D");
            waitFor("consumed", [&] { return a.in->in.empty(); }, settle);
            if (choose(GEN, 4) == 3) a.in->eof = true; else a.in->type('\x04');
        }
        if (!waitFor("exit", [&] { return p->exited; }, 60000 + settle)) violate("adapter-stuck", "the adapter is still running; " + what);
        a.stop = true;
        if (p->crashed) violate("adapter-crash", p->crashWhy + hexdump(p->err, 200));
        if (a.in->tty && !(a.in->modes == a.initIn)) violate("modes-not-restored", "after the adapter exited the terminal has " + a.in->modes.str() + " instead of " + a.initIn.str());
        auto expect = [&](uint32_t status, const char *out, const std::string &err) {
            if (p->exitCode != status) violate("bad-status", fmt("the adapter exited with status %u instead of %u; %s", p->exitCode, status, what.c_str()));
            if (out && p->out.find(out) != 0) violate("bad-message", fmt("the adapter printed %s instead of '%s...'; %s", hexdump(p->out, 80).c_str(), out, what.c_str()));
            if (!err.empty() && p->err.find(err) == std::string::npos) violate("bad-message", fmt("the adapter's message %s does not mention '%s'; %s", hexdump(p->err, 200).c_str(), err.c_str(), what.c_str()));
            if (!out && !p->out.empty()) violate("bad-message", "the adapter printed " + hexdump(p->out, 100) + "; " + what);
        };
        bool session = false;
        switch (want) {
        case Help: expect(0, "Usage: winpty [options] [--] program [args]\n", ""); break;
        case NoProg: expect(1, "Usage: winpty [options] [--] program [args]\n", ""); break;
        case Version: expect(0, "winpty version ", ""); break;
        case BadOption: expect(1, nullptr, "'" + badOpt + "'"); break;
        case ShowKey: expect(0, "\nPress any keys -- Ctrl-D exits\n", ""); break;
        case Run:
            session = true;
            if (found.empty()) { expect(1, nullptr, "cannot start '" + prog + "'"); if (!starts.empty()) violate("wrong-program", "a program was started although none could be found; " + what); break; }
            if (starts.size() != 1) violate("wrong-program", fmt("%zu programs were started; %s", starts.size(), what.c_str()));
            if (spawnErr) { expect(1, nullptr, "cannot start '"); std::string m = fmt("error 0x%x", spawnErr); if (spawnErr == 2 ? p->err.find("0x2)") == std::string::npos && p->err.find("0x2\n") == std::string::npos : p->err.find(fmt("%#x", spawnErr)) == std::string::npos) violate("bad-message", fmt("the message %s does not name error %#x", hexdump(p->err, 200).c_str(), spawnErr)); }
            else expect(code, nullptr, "");
            { std::vector<std::string> got = splitCommandLine(u8(starts[0])), w2 = progArgs; w2.insert(w2.begin(), winPath);
              if (got != w2) { std::string d, w; for (auto &x : got) d += "[" + x + "]"; for (auto &x : w2) w += "[" + x + "]"; violate("arguments-differ", "the program was started as " + d + " instead of " + w + "; PATH is " + path); } }
            break;
        }
        if (!session) { if (!h.agents.empty() || !starts.empty()) violate("session-unasked", "a session was started by " + what); }
        else {
            if (h.agents.size() != 1) violate("session-unasked", fmt("%zu agents were started by %s", h.agents.size(), what.c_str()));
            Process *ag = a.agent(); std::vector<std::string> w; std::string t; for (char ch : u8(ag->cmdline) + " ") if (ch == ' ') { if (!t.empty()) w.push_back(t); t.clear(); } else t.push_back(ch);
            if (w.size() < 4) harnessError("unexpected agent command line");
            uint64_t fl = strtoull(w[w.size() - 4].c_str(), nullptr, 0); int mm = atoi(w[w.size() - 3].c_str());
            uint64_t fw = (conerr ? WINPTY_FLAG_CONERR : 0) | (plain ? WINPTY_FLAG_PLAIN_OUTPUT : 0) | (color ? WINPTY_FLAG_COLOR_ESCAPES : 0);
            if ((fl & (WINPTY_FLAG_CONERR | WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES)) != fw || (mm == WINPTY_MOUSE_MODE_FORCE) != mouse) violate("options-lost", fmt("the session was started with flags 0x%llx and mouse mode %d; %s", (unsigned long long)fl, mm, what.c_str()));
            if (child) {
                for (auto &kv : env) { auto it = childEnv.find(kv.first); if (it == childEnv.end() || it->second != kv.second) violate("environment", kv.first + "=" + kv.second + " does not reach the program: " + (it == childEnv.end() ? "unset" : it->second)); }
                if (childEnv.count("TERM")) violate("environment", "the program sees TERM=" + childEnv["TERM"]);
                for (const char *n : {"WINPTY_DEBUG", "WINPTY_SHOW_CONSOLE"}) if (!env.count(n) && childEnv.count(n)) violate("environment", std::string("the program sees ") + n);
                for (auto &kv : env) if (kv.first != "OTHER") { auto it = ag->envA.find(kv.first); if (it == ag->envA.end() || it->second != kv.second) violate("environment", kv.first + " does not reach the agent"); }
            }
            if (!waitFor("agent-exit", [ag] { return ag->exited; }, kAgentExitBound + settle)) violate("agent-left-behind", "the agent is still running after the adapter exited");
        }
        nontrivial(); stat(fmt("kind-%d", want).c_str()); if (want == Run) stat(found.empty() ? "not-found" : spawnErr ? "not-started" : "started");
        stateSig(mix(hashBytes(what.data(), what.size()), hashBytes(path.data(), path.size())));
        g_sample = what + " PATH=" + path + fmt(" -> status %u", p->exitCode); (void)typedN; (void)typedEsc;
    });
}
static RegCheck c24("C24", "a run counts as non-trivial when a session was started and the bytes at the terminal were compared with those at the session's pipes",
    {{"adapter", 0, 9000, 150000}, {"adapter", 3, 9000, 150000}});
static RegCheck c25("C25", "a run counts as non-trivial when the adapter ran to its end and its terminal modes (and, if a session ran, sizes and exit status) were compared",
    {{"adapter", 1, 9000, 150000}, {"adapter", 2, 9000, 150000}, {"adapterargs", 0, 4000, 60000}});
