// C01 screen convergence, C02 scrollback, C22 direct mode, C23 title.
#include "harness.h"
#include "workload.h"
#include "rows.h"
#include <winpty_constants.h>
#include <string.h>
using namespace sim;

// Waits until the terminal shows the console window; the message of the last
// mismatch otherwise.
std::string sim::convergeWith(Session &s, Reader *r, int64_t ms, const MatchOpts &o) {
    std::string why;
    pollFor([&] {
        ScreenBuf &b = *s.con->active;
        why = screenMismatch(r->term, b, lvbMask(*s.con, b), o);
        if (!r->term.error.empty()) violate("bad-output", r->term.error);
        return why.empty();
    }, ms, 25);
    return why;
}

// param 0: ordinary program, calm scheduler; 1: with I/O delays, stalls;
SCENARIO(screen) {
    Harness h; h.world(param & 1);
    struct { bool ready = false, go = false, quit = false; int phases; } st;
    Workload wl;
    wl.wide = choose(GEN, 3) == 2;
    wl.attrs = true;
    wl.odd = choose(GEN, 2);
    wl.cls = choose(GEN, 2);
    wl.lvb = choose(GEN, 3) == 2;
    h.w.cfg.codepage = wl.lvb && choose(GEN, 2) ? 932 : 437;
    st.phases = range(GEN, 1, 5);
    h.programs["app"] = [&](App &a) {
        if (wl.lvb && choose(GEN, 2)) a.out()->mode |= 0x10;
        for (int i = 0; i < st.phases; ++i) {
            wl.run(a, range(GEN, 1, 40));
            st.ready = true;
            waitFor("app-phase", [&] { return st.go; }, -1);
            st.go = false;
        }
        waitFor("app-quit", [&] { return st.quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = choose(GEN, 6) == 5 ? range(GEN, 121, 420) : range(GEN, 20, 120); o.rows = range(GEN, 2, 50);
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout);
        r->term.W = o.cols; r->term.H = o.rows; r->term.checkWidth = s.con->active->W == o.cols;   // a full-width character may be cut when the console refuses the width
        r->term.clamp = true;
        h.spawn(s, {});
        for (int i = 0; i < st.phases; ++i) {
            if (!waitFor("phase-ready", [&] { return st.ready; }, 120000)) violate("program-stuck", "the console program never finished its phase");
            st.ready = false;
            sleepFor(range(GEN, 0, 1) ? 400 : 150 + 3 * g_w->cfg.ioDelayMax);
            std::string why = convergeWith(s, r, 3000);
            if (!why.empty()) violate("screen-diverged", fmt("phase %d: ", i) + why);
            stateSig(r->term.hash());
            nontrivial();
            // and it stays that way
            int64_t bytes = r->term.bytes;
            sleepFor(200);
            why = screenMismatch(r->term, *s.con->active, lvbMask(*s.con, *s.con->active));
            if (!why.empty()) violate("screen-unstable", why);
            if (r->term.bytes != bytes) violate("idle-output", fmt("%lld bytes of output while nothing changed on the console", (long long)(r->term.bytes - bytes)));
            st.go = true;
        }
        st.quit = true;
        g_sample = fmt("win%d%s %dx%d cp%d phases=%d: %s", g_w->cfg.winver, g_w->cfg.newW10 ? "n" : "", o.cols, o.rows, g_w->cfg.codepage, st.phases, wl.log.substr(0, 300).c_str());
        h.closeSession(s);
    });
}
// Output keeps being shown while something else keeps the agent busy.
// param bit 0: delays and stalls.
SCENARIO(flood) {
    Harness h; h.world(param & 1);
    int kind = choose(GEN, 3);          // 0 typing without end, 1 requests without end, 2 both
    int asked = 0, shown = 0; bool quit = false, stop = false; int64_t fed = 0, calls = 0;
    h.programs["app"] = [&](App &a) {
        for (;;) {
            waitFor("app-tick", [&] { return quit || shown < asked; }, -1); if (quit) break;
            a.con->appWrite(u16of(fmt("tick%d#\r\n", shown + 1))); shown++;
        }
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 20, 120); o.rows = range(GEN, 4, 50);
        Session s = h.open(o); Process *C = h.client.get(); Process *ag = s.agent;
        Reader *r = h.startReader(s.conout); r->keep = true; r->term.W = std::max(o.cols, s.con->active->W); r->term.H = o.rows; r->term.clamp = true;
        h.spawn(s, {});
        // Handing input to the console takes its time.
        int slow = choose(GEN, 5);
        h.w.onApi = [&, ag](Process *p, const char *api) { if (p == ag && slow && !strcmp(api, "WriteConsoleInputW")) { sleepFor(1 + choose(SCHED, 5 * slow)); if (s.con->allInput.size() > 20000) s.con->allInput.clear(); } };
        HANDLE in = CreateFileW(W(s.conin), GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, 0, nullptr); if (in == INVALID_HANDLE_VALUE) violate("no-conin", "the input pipe cannot be opened");
        int running = 0;
        if (kind == 0 || kind == 2) { running++; spawnThread(C, "typist", [&] {
            std::string block; static const int N[] = {20000, 100000, 400, 5000}; int n = 1 + choose(GEN, N[choose(GEN, 4)]); for (int i = 0; i < n; ++i) block.push_back(i % 61 == 60 ? '\r' : (char)('a' + i % 26));
            while (!stop && fed < 3000000) { DWORD put = 0; if (!WriteFile(in, block.data(), (DWORD)n, &put, nullptr) || put != (DWORD)n) violate("input-lost", "a write to the input pipe failed"); fed += n; }
            running--;
        }); }
        if (kind == 1 || kind == 2) { running++; spawnThread(C, "caller", [&] {
            while (!stop && calls < 20000) {
                ErrP e = nullptr; int b[8];
                if (choose(GEN, 4)) h.api.get_console_process_list(s.wp, b, 8, &e); else h.api.set_size(s.wp, o.cols, o.rows, &e);
                if (e) violate("request-failed", fmt("a request failed with %u", (unsigned)h.takeErr(e)));
                calls++;
            }
            running--;
        }); }
        int n = range(GEN, 2, 6); int64_t worst = 0;
        int64_t bound = 1000 + 40 * g_sched.stallMax + 40 * h.w.cfg.ioDelayMax;
        for (int i = 1; i <= n; ++i) {
            sleepFor(range(GEN, 1, 150)); asked = i; int64_t t0 = g_now; std::string want = fmt("tick%d#", i);
            if (!waitFor("tick-printed", [&] { return shown == i; }, 60000)) violate("program-stuck", "the program did not print");
            if (!waitFor("tick", [&] { return r->all.find(want) != std::string::npos; }, bound)) violate("output-starved", fmt("a line was not shown within %lld ms while %s kept the agent busy", (long long)bound, kind == 0 ? "input" : kind == 1 ? "requests" : "input and requests"));
            worst = std::max(worst, g_now - t0);
        }
        stop = true; if (!waitFor("busy", [&] { return running == 0; }, 60000)) violate("busy-stuck", "a caller or writer is still blocked a minute later");
        h.w.onApi = nullptr; CloseHandle(in); quit = true; nontrivial(); stat("bytes-typed", fed); stat("calls", calls); stateSig(mix((uint64_t)worst, (uint64_t)kind));
        g_sample = fmt("kind=%d fed=%lld calls=%lld worst=%lld ms", kind, (long long)fed, (long long)calls, (long long)worst);
        h.closeSession(s);
    });
}
static RegCheck c01("C01", "a run counts as non-trivial when at least one convergence point was compared cell by cell after a generated program phase",
    {{"screen", 0, 600, 6000}, {"screen", 1, 600, 9000}, {"flood", 0, 150, 2000}, {"flood", 1, 150, 2000}});

// ------------------------------------------------------------------ scrollback
// param bit 0: faults; bit 1: plain output.
SCENARIO(scroll) {
    Harness h; h.world(param & 1);
    bool plain = param & 2;
    Workload wl; wl.limit = 400 + 400 * choose(GEN, 3);
    RowModel m; bool done = false, quit = false;
    int pieces = range(GEN, 2, 25);
    h.programs["app"] = [&](App &a) {
        m.W = a.out()->W;
        for (int i = 0; i < pieces; ++i) {
            printPiece(a, wl, m, nullptr, 1200, !plain, "n");
            if (plain) a.out()->attr = 7;
            if (choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 80));
        }
        done = true;
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 12, 120); o.rows = range(GEN, 2, 50);
        if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout);
        r->term.W = std::max(o.cols, s.con->active->W); r->term.H = o.rows; r->term.clamp = true; r->term.plain = plain;
        if (choose(GEN, 3) == 2) { r->pausePct = 20; r->pauseMax = 300; }
        h.spawn(s, {});
        if (!waitFor("printed", [&] { return done; }, 300000)) violate("program-stuck", "the console program never finished printing");
        sleepFor(400);
        std::string why;
        pollFor([&] { if (!r->term.error.empty()) violate("bad-output", r->term.error); why = compareRows(m, r->term); return why.empty(); }, 8000, 50);
        if (!why.empty()) violate("scrollback", why);
        if (m.rows.size() > (size_t)o.rows) { nontrivial(); stat("rows", (int64_t)m.rows.size()); }
        stateSig(mix(r->term.hash(), m.rows.size()));
        sleepFor(300);
        why = compareRows(m, r->term);
        if (!why.empty()) violate("scrollback-later", why);
        quit = true;
        g_sample = fmt("%dx%d rows=%zu pieces=%d limit=%d bytes=%lld", o.cols, o.rows, m.rows.size(), pieces, wl.limit, (long long)r->term.bytes);
        h.closeSession(s);
    });
}
static RegCheck c02("C02", "a run counts as non-trivial when more rows were printed than fit on the screen and every row was compared with the terminal history",
    {{"scroll", 0, 900, 12000}, {"scroll", 1, 1200, 20000}, {"scroll", 2, 300, 4000}, {"scroll", 3, 300, 5000}});

// ------------------------------------------------------------------ final output
// param bit 0: faults; bit 1: separate error stream; bit 2: plain output.
SCENARIO(final) {
    Harness h; h.world(param & 1);
    bool conerr = param & 2, plain = param & 4;
    Workload wl; wl.limit = 1100; RowModel m, me; bool ran = false;
    int pieces = range(GEN, 0, 6), code = range(GEN, 0, 3) * 77; bool child = choose(GEN, 3) == 2;
    bool agentEnds = choose(GEN, 3) == 2; if (agentEnds && choose(GEN, 3) == 2) pieces = 0;
    if (agentEnds && (param & 1)) h.w.cfg.createDelay = 80;
    int64_t exitAt = -1;
    h.programs["app"] = [&](App &a) {
        ran = true;
        ScreenBuf *eb = nullptr;
        if (conerr) { HandleEntry *e = lookup(a.p, a.p->stdErr, false); if (!e || e->obj->type != O_SCREEN) violate("no-stderr", "the program has no console handle for standard error"); eb = static_cast<ScreenBuf *>(e->obj.get()); me.W = eb->W; }
        m.W = a.out()->W;
        if (pieces && choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 200));
        ProcP kid;
        for (int i = 0; i < pieces; ++i) {
            if (child && !kid && choose(GEN, 2)) {
                bool fin = false;
                kid = h.consoleChild(a, "kid", [&](App &b) { printPiece(b, wl, m, nullptr, 400, !plain, "k"); if (plain) b.out()->attr = 7; fin = true; });
                waitFor("kid", [&] { return fin; }, -1);
                continue;
            }
            if (conerr && choose(GEN, 2)) { printPiece(a, wl, me, eb, 400, !plain, "e"); if (plain) eb->attr = 7; }
            else { printPiece(a, wl, m, nullptr, 1000, !plain, "n"); if (plain) a.out()->attr = 7; }
            if (choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 80));
        }
        exitAt = g_now;
        processExit(a.p, code);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 12, 120); o.rows = range(GEN, 2, 50);
        if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (conerr) o.flags |= WINPTY_FLAG_CONERR;
        Session s = h.open(o);
        auto mk = [&](const ustr &n) {
            Reader *r = h.startReader(n);
            r->term.plain = plain;
            static const int delays[] = {0, 0, 5, 200, 5000, 30000};
            r->openDelay = delays[choose(GEN, 6)];
            if (choose(GEN, 3) == 2) { r->pausePct = 30; r->pauseMax = 500; }
            if (choose(GEN, 4) == 3) { r->maxChunk = 64; r->pausePct = std::min(r->pausePct, 5); }
            return r;
        };
        Reader *r = mk(s.conout), *e = conerr ? mk(s.conerr) : nullptr;
        HANDLE ph = nullptr;
        Harness::SpawnOpts so; so.ph = &ph; DWORD sc = 0; if (agentEnds) { so.flags = 3; so.code = &sc; so.must = false; }
        if (!h.spawn(s, so)) {
            // The handles are fetched from the agent; a program that ended at
            // once may have taken the agent with it before the caller ran (5: the
            // handle could not be fetched).  The reply itself always arrives.
            if (!s.agent->exited || exitAt < 0 || sc != 5) violate("spawn-failed", fmt("winpty_spawn failed with error %u", (unsigned)sc));
            ph = nullptr; stat("ended-during-spawn");
        }
        if (!waitFor("exit", [&] { return exitAt >= 0; }, 300000)) violate("program-stuck", "the program never exited");
        // The end must come within 10 s of the last byte a (slow) reader fetched.
        while (!(r->eof && (!e || e->eof))) {
            sleepFor(20);
            int64_t last = std::max(exitAt, r->lastData);
            if (e) last = std::max(last, e->lastData);
            for (Reader *x : {r, e}) if (x && !x->opened) last = std::max(last, g_now);
            for (Reader *x : {r, e}) if (x && x->opened) last = std::max(last, x->openTime);
            if (g_now > last + 10000) violate("no-eof", "the output stream did not end after the program exited");
        }
        auto check = [&](Reader *x, RowModel &mm, const char *n) {
            if (!x->term.error.empty()) violate("bad-output", x->term.error);
            std::string why = compareRows(mm, x->term);
            if (!why.empty()) violate("lost-output", fmt("%s at end of stream: ", n) + why);
        };
        check(r, m, "output"); if (e) check(e, me, "error output");
        if (agentEnds && !waitFor("agent-exit", [&] { return s.agent->exited; }, 45000)) violate("agent-left-behind", "the agent is still running after the streams ended although it was asked to exit then");
        nontrivial(); stat("rows", (int64_t)m.rows.size());
        stateSig(mix(r->term.hash(), g_now));
        DWORD ec = (DWORD)code; HandleEntry *he = ph ? lookup(h.client.get(), ph, true, "child") : nullptr;
        if (he && he->obj->type == O_PROCESS) ec = static_cast<Process *>(he->obj.get())->exitCode;
        if (ec != (DWORD)code) violate("exit-code", fmt("exit code %u instead of %d", (unsigned)ec, code));
        g_sample = fmt("%dx%d rows=%zu+%zu opendelay=%d eof=%lld ms after exit", o.cols, o.rows, m.rows.size(), conerr ? me.rows.size() : 0, r->openDelay, (long long)(r->eofTime - exitAt));
        h.closeSession(s);
    });
}
static RegCheck c03("C03", "a run counts as non-trivial when the stream ended and every row printed before exit was compared",
    {{"final", 0, 700, 8000}, {"final", 1, 900, 14000}, {"final", 2, 300, 4000}, {"final", 3, 500, 8000}, {"final", 4, 200, 2000}, {"final", 7, 300, 4000}});

// ------------------------------------------------------------------ escape safety
// param bit 0: faults; bits 1..: output mode
SCENARIO(hygiene) {
    Harness h; h.world(param & 1);
    int mode = (param >> 1) % 4;      // 0 normal, 1 plain, 2 plain+colour, 3 normal with error stream
    Workload wl; wl.garbage = true; wl.odd = true; wl.wide = true; wl.titles = true; wl.lvb = true;
    bool done = false, quit = false; int ops = range(GEN, 3, 60);
    h.w.cfg.codepage = choose(GEN, 3) == 2 ? 932 : 437;
    h.programs["app"] = [&](App &a) {
        ScreenBuf *eb = nullptr;
        if (mode == 3) { HandleEntry *e = lookup(a.p, a.p->stdErr, false); if (e && e->obj->type == O_SCREEN) eb = static_cast<ScreenBuf *>(e->obj.get()); }
        if (choose(GEN, 2)) a.out()->mode &= ~1u;      // unprocessed output stores control characters
        for (int i = 0; i < ops; ++i) {
            int k = choose(GEN, 8);
            ScreenBuf &b = eb && choose(GEN, 2) ? *eb : *a.out();
            if (k == 0) {           // raw cells: any character, any attribute
                int n = range(GEN, 1, 40);
                for (int j = 0; j < n; ++j) {
                    int y = b.win.Top + (int)choose(GEN, b.winH()), x = (int)choose(GEN, b.W);
                    CHAR_INFO &c = b.row(y)[x];
                    static const char16_t sp[] = {0, 7, 8, 9, 10, 13, 14, 15, 0x1b, 0x7f, 0x80, 0x9b, 0x9c, 0x9f, 0xd800, 0xdc00, 0xdbff, 0xdfff, 0xfffe, 0xffff, 0xfeff, 0x90, 0x85, 5};
                    c.Char.UnicodeChar = choose(GEN, 2) ? sp[choose(GEN, 24)] : (char16_t)choose(GEN, 65536);
                    c.Attributes = (WORD)choose(GEN, 65536);
                    if (choose(GEN, 4) == 3 && x + 1 < b.W) { c.Attributes |= 0x100; CHAR_INFO &d = b.row(y)[x + 1]; d = c; d.Attributes ^= 0x300; }
                    if (choose(GEN, 6) == 5 && x + 1 < b.W) { c.Char.UnicodeChar = 0xD83D; b.row(y)[x + 1].Char.UnicodeChar = 0xDE00 + choose(GEN, 256); }
                }
                b.gen++; maybeYield("rawcells");
            } else if (k == 1) {    // hostile titles
                ustr t; int n = range(GEN, 0, 80);
                static const char16_t sp[] = {7, 0x1b, ']', '0', ';', 'x', 0x9c, 0x9d, 10, 13, 0x7f, '[', 'c', 0x90, 0x2764, 0xd800, '\\', ' ', 8, 1};
                for (int j = 0; j < n; ++j) t.push_back(choose(GEN, 2) ? sp[choose(GEN, 20)] : (char16_t)(0x20 + choose(GEN, 600)));
                a.con->appSetTitle(t);
                if (choose(GEN, 2)) sleepFor(range(GEN, 1, 60));
            } else if (k == 2 && eb) { a.con->appWriteTo(eb, wl.text(range(GEN, 0, 200))); }
            else wl.op(a);
            if (choose(GEN, 4) == 3) sleepFor(range(GEN, 1, 60));
        }
        done = true;
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 5, 100); o.rows = range(GEN, 2, 40); o.mouse = choose(GEN, 3);
        if (mode == 1 || mode == 2) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (mode == 2) o.flags |= WINPTY_FLAG_COLOR_ESCAPES;
        if (mode == 3) o.flags |= WINPTY_FLAG_CONERR;
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout), *e = mode == 3 ? h.startReader(s.conerr) : nullptr;
        r->term.plain = mode == 1 || mode == 2; r->term.plainColor = mode == 2;
        h.spawn(s, {});
        if (!waitFor("hostile", [&] { return done; }, 120000)) violate("program-stuck", "the console program never finished");
        sleepFor(500);
        for (Reader *x : {r, e}) if (x) {
            if (!x->term.error.empty()) violate("bad-output", x->term.error);
            if (x->term.midSequence()) violate("bad-output", "the stream rests inside an unfinished sequence");
            if (x->eof) violate("session-died", "the output stream ended while the program was running");
            stateSig(x->term.hash());
        }
        if (e) for (auto &t : e->term.titles) violate("bad-output", "a title was sent to the error stream: " + hexdump(t));
        if (r->term.bytes) nontrivial();
        stat("bytes", r->term.bytes); stat("titles", (int64_t)r->term.titles.size());
        quit = true;
        g_sample = fmt("mode=%d %dx%d ops=%d bytes=%lld titles=%zu", mode, o.cols, o.rows, ops, (long long)r->term.bytes, r->term.titles.size());
        h.closeSession(s);
    });
}
static RegCheck c04("C04", "a run counts as non-trivial when output was produced from hostile cells and titles and every byte passed the strict parser",
    {{"hygiene", 0, 900, 9000}, {"hygiene", 1, 900, 12000}, {"hygiene", 2, 300, 3000}, {"hygiene", 3, 300, 3000}, {"hygiene", 5, 300, 3000}, {"hygiene", 7, 400, 5000}});

// ------------------------------------------------------------------ resize
// param bit 0: faults; bit 1: sequential output whose history is checked.
SCENARIO(resize) {
    Harness h; h.world(param & 1);
    bool seq = param & 2;
    h.w.cfg.newW10 = h.w.cfg.newW10 && choose(GEN, 2);
    if (choose(GEN, 4) == 3) { h.w.cfg.largestX = range(GEN, 60, 3000); h.w.cfg.largestY = range(GEN, 20, 120); }
    bool tall = choose(GEN, 8) == 7;            // a console window of up to 2000 rows
    if (tall) { h.w.cfg.largestX = range(GEN, 60, 300); h.w.cfg.largestY = range(GEN, 500, 2100); h.w.cfg.fontLimits = false; }
    Workload wl; wl.wide = choose(GEN, 3) == 2; wl.cls = !seq && choose(GEN, 2); wl.limit = 400;
    bool deep = seq && choose(GEN, tall ? 2 : 8) == 1;      // the buffer is nearly full, or full, of history
    RowModel m; bool ready = false, go = false, quit = false;
    int phases = range(GEN, 1, 4);
    h.programs["app"] = [&](App &a) {
        m.W = 1000;
        for (int i = 0; i < phases; ++i) {
            int n = range(GEN, 1, 30);
            for (int j = 0; j < n; ++j) {
                if (seq) {
                    wl.throttle(2);
                    ustr s = u16of(fmt("r%d ", wl.lineNo++)) + wl.text(range(GEN, 0, 12)) + u"\r\n";
                    m.put(s); a.con->appWrite(s);
                    if (choose(GEN, 6) == 5 || (deep && !i && !j)) { int k = deep && !i && !j ? range(GEN, 1000, 3300) : range(GEN, 1, 200); for (int q = 0; q < k; ++q) { wl.throttle(2); ustr t = u16of(fmt("b%d\r\n", wl.lineNo++)); m.put(t); a.con->appWrite(t); } }
                } else wl.op(a);
                if (choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 60));
            }
            ready = true;
            waitFor("app-phase", [&] { return go; }, -1);
            go = false;
        }
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, seq ? 24 : 10, 120); o.rows = range(GEN, 2, 50);
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout);
        r->term.W = std::max(3000, o.cols); r->term.H = o.rows;
        h.spawn(s, {});
        int resizes = 0;
        auto resizeOnce = [&] {
            int cols, rows;
            switch (choose(GEN, 12)) {
            case 6: cols = range(GEN, 1, 3000); rows = range(GEN, 1, 2200); break;
            case 7: { static const int ex[] = {1, 2, 19, 20, 2499, 2500, 2501, 32767, 32768, 65536, 100000, 0x7fffffff}; cols = ex[choose(GEN, 12)]; rows = ex[choose(GEN, 12)]; break; }
            default: cols = range(GEN, 10, choose(GEN, 4) == 3 ? 420 : 150); rows = tall && choose(GEN, 3) == 2 ? range(GEN, 60, 2000) : range(GEN, 2, 60);
            }
            if (seq) { cols = std::max(cols, 24); }
            if (tall && cols > 60) cols = 25 + cols % 30;
            size_t before = s.con->sizeEvents;
            ErrP e = nullptr;
            BOOL ok = h.api.set_size(s.wp, cols, rows, &e);
            if (!ok) violate("resize-failed", fmt("winpty_set_size(%d,%d) failed with error %u", cols, rows, (unsigned)h.takeErr(e)));
            resizes++;
            ScreenBuf &b = *s.con->primary;
            int wc = std::min(cols, 2500), wr = std::min(rows, 2000);
            if (b.W == wc) {
                int ww = std::min(wc, s.con->largestX), wh = std::min(wr, s.con->largestY);
                if (b.winW() != ww || b.winH() != wh) violate("wrong-size", fmt("after winpty_set_size(%d,%d) the console window is %dx%d instead of %dx%d", cols, rows, b.winW(), b.winH(), ww, wh));
            } else if (wc >= 20) violate("wrong-size", fmt("after winpty_set_size(%d,%d) the screen buffer is %d columns wide", cols, rows, b.W));
            if (b.H != 3000) violate("buffer-height", fmt("after winpty_set_size(%d,%d) the screen buffer has %d lines", cols, rows, b.H));
            if (s.con->sizeEvents == before) violate("no-size-event", fmt("winpty_set_size(%d,%d) delivered no size event to the program", cols, rows));
            for (size_t i = s.con->allInput.size(); i-- > 0;) if (s.con->allInput[i].EventType == WINDOW_BUFFER_SIZE_EVENT) {
                COORD d = s.con->allInput[i].Event.WindowBufferSizeEvent.dwSize;
                if (d.X != b.W || d.Y != b.H) violate("wrong-size-event", fmt("the size event says %dx%d, the buffer is %dx%d", d.X, d.Y, b.W, b.H));
                break;
            }
            stateSig(mix(mix(1, cols), rows));
        };
        for (int i = 0; i < phases; ++i) {
            while (!ready) {
                sleepFor(choose(GEN, 3) ? range(GEN, 0, 80) : range(GEN, 0, 400));
                if (choose(GEN, 3) == 2) { int k = range(GEN, 1, 5); while (k--) resizeOnce(); } else resizeOnce();
                if (resizes > 60) { if (!waitFor("phase-ready", [&] { return ready; }, 300000)) violate("program-stuck", "the console program never finished its phase"); }
            }
            if (choose(GEN, 2)) resizeOnce();
            ready = false;
            sleepFor(400);
            std::string why;
            if (seq) {
                pollFor([&] { if (!r->term.error.empty()) violate("bad-output", r->term.error); why = compareRows(m, r->term); return why.empty(); }, 4000, 50);
                if (!why.empty()) violate("resize-history", why);
            } else {
                MatchOpts mo; mo.skipCleared = true;
                why = convergeWith(s, r, 4000, mo);
                if (!why.empty()) violate("screen-diverged", fmt("phase %d after %d resizes: ", i, resizes) + why);
            }
            nontrivial();
            if (r->eof) violate("session-died", "the output stream ended");
            go = true;
        }
        quit = true; stat("resizes", resizes);
        g_sample = fmt("%dx%d resizes=%d final window %dx%d rows=%zu", o.cols, o.rows, resizes, s.con->primary->winW(), s.con->primary->winH(), m.rows.size());
        h.closeSession(s);
    });
}
// A terminal that keeps what a narrower window hides, and shows it again.
SCENARIO(narrow) {
    Harness h; h.world(param & 1);
    h.w.cfg.newW10 = false;
    Workload wl; wl.cls = false; wl.scrollBig = false; wl.attrs = choose(GEN, 2); wl.fills = true; wl.limit = 300;
    bool ready = false, go = false, quit = false; int phases = range(GEN, 2, 7);
    h.programs["app"] = [&](App &a) {
        for (int i = 0; i < phases; ++i) {
            if (!i || choose(GEN, 3)) wl.run(a, range(GEN, 1, i ? 8 : 30));
            ready = true;
            waitFor("app-phase", [&] { return go; }, -1);
            go = false;
        }
        ready = true;
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 20, 120); o.rows = range(GEN, 2, 40);
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout);
        r->term.W = o.cols; r->term.H = o.rows; r->term.keepHidden = true;
        h.spawn(s, {});
        std::string hist = fmt("%d", o.cols);
        for (int i = 0; i < phases; ++i) {
            if (!waitFor("phase-ready", [&] { return ready; }, 60000)) violate("program-stuck", "the console program never finished its phase");
            for (int k = range(GEN, 0, 2); k >= 0; --k) {
                sleepFor(300);
                MatchOpts mo; mo.skipCleared = true; mo.attrs = false;      // (how far coloured blanks reach on a widened terminal is up to it)
                std::string why = convergeWith(s, r, 3000, mo);
                if (!why.empty()) violate("screen-diverged", fmt("phase %d, widths %s: ", i, hist.c_str()) + why);
                if (k) {
                    // everything has arrived: the terminal changes its width
                    sleepFor(100 + 2 * h.w.cfg.ioDelayMax + 2 * g_sched.stallMax);
                    o.cols = range(GEN, 20, 120); hist += fmt(" %d", o.cols);
                    r->term.W = o.cols; ErrP er = nullptr;
                    if (!h.api.set_size(s.wp, o.cols, o.rows, &er)) violate("resize-failed", fmt("winpty_set_size failed with %u", (unsigned)h.takeErr(er)));
                    stat("width-changes");
                }
            }
            nontrivial(); stateSig(r->term.hash());
            ready = false; go = true;
        }
        quit = true;
        g_sample = fmt("%s x%d phases=%d", hist.c_str(), o.rows, phases);
        h.closeSession(s);
    });
}
static RegCheck c05("C05", "a run counts as non-trivial when resizes were interleaved with output and the terminal was compared with the console (or its history with the printed lines) afterwards",
    {{"resize", 0, 500, 6000}, {"resize", 1, 700, 10000}, {"resize", 2, 300, 4000}, {"resize", 3, 400, 6000}, {"narrow", 0, 400, 5000}, {"narrow", 1, 400, 5000}});

// ------------------------------------------------------------------ direct mode
SCENARIO(direct) {
    Harness h; h.world(param & 1);
    Workload wl; wl.cls = false; wl.wide = choose(GEN, 3) == 2; wl.fills = true;
    bool ready = false, go = false, quit = false; int phases = range(GEN, 2, 7);
    std::string what; std::vector<ScreenP> bufs; bool waited = false, quiet = false; int atW = 0, atH = 0, atTop = 0;
    h.programs["app"] = [&](App &a) {
        for (int i = 0; i < phases; ++i) {
            Console &c = *a.con; bool wasDirect = c.active->H != 3000; quiet = false;
            int k = choose(GEN, 8);
            if (k < 3) {                       // a full-screen program starts: its own buffer
                ScreenP b;
                if (!bufs.empty() && choose(GEN, 3) == 2) { b = bufs[choose(GEN, (uint32_t)bufs.size())]; what = "old buffer"; }
                else {
                    b = c.appNewBuffer(); what = "new buffer";
                    b->ci.bVisible = choose(GEN, 4) != 3;
                    // (a window edge that cuts a full-width character in half has no faithful rendering)
                    if (!wl.wide && choose(GEN, 2)) { int w = range(GEN, 1, choose(GEN, 4) == 3 ? 500 : 200), hh = range(GEN, 1, 150); std::string why; SMALL_RECT one = {0, 0, 0, 0}; b->win = one; b->resize(std::max(w, c.minBufWidth), hh, why);
                        b->win.Right = std::min(b->W, std::min(c.largestX, range(GEN, 1, choose(GEN, 4) == 3 ? 500 : 200))) - 1; b->win.Bottom = std::min(b->H, std::min(c.largestY, range(GEN, 1, 80))) - 1; }
                    bufs.push_back(b);
                }
                c.appActivate(b);
            } else if (k < 5) { c.appActivate(c.primary); what = "primary"; }
            else if (k == 5) {                 // the scrolling buffer itself is resized
                c.appActivate(c.primary);
                ScreenBuf &b = *c.primary;
                c.appResizeBuffer(std::max(b.winW(), b.W), range(GEN, b.winH(), b.winH() + 300)); what = "primary resized";
            } else if (k == 6) {               // and restored
                c.appActivate(c.primary); c.appResizeBuffer(c.primary->W, 3000); what = "primary restored";
                // (the previous screen was certainly seen, and this one is shown as it is)
                quiet = waited && wasDirect && choose(GEN, 2); atW = c.primary->winW(); atH = c.primary->winH(); atTop = c.primary->win.Top;
            } else what = "same";
            ScreenBuf &b = *c.active;
            if (b.H != 3000 || &b != c.primary.get()) {
                if (choose(GEN, 3) == 2) c.appSetWindow(range(GEN, 0, std::max(0, b.W - b.winW())), range(GEN, 0, std::max(0, b.H - b.winH())), b.winW(), b.winH());
            }
            wl.scrollBig = b.H == 3000;
            if (!quiet) wl.run(a, range(GEN, 1, 15));
            if (choose(GEN, 4) == 3 && b.H != 3000) c.appSetWindow(range(GEN, 0, std::max(0, b.W - b.winW())), range(GEN, 0, std::max(0, b.H - b.winH())), b.winW(), b.winH());
            ready = true;
            waited = quiet || choose(GEN, 4);
            if (waited) { waitFor("app-phase", [&] { return go; }, -1); go = false; }
            else { sleepFor(range(GEN, 0, 60)); }
        }
        waited = quiet = false; ready = true;
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 20, 120); o.rows = range(GEN, 2, 50);
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout);
        r->term.W = 3000; r->term.H = o.rows;
        h.spawn(s, {});
        int checked = 0; bool app = true;
        while (app) {
            if (!waitFor("phase-ready", [&] { return ready; }, 60000)) violate("program-stuck", "the console program never finished its phase");
            sleepFor(400);
            MatchOpts mo; mo.skipCleared = true; mo.ptyW = o.cols; mo.ptyH = o.rows;
            std::string why = convergeWith(s, r, 3000, mo);
            if (!why.empty()) violate("screen-diverged", fmt("(%s, buffer %dx%d window %d,%d %dx%d, terminal %dx%d) ", what.c_str(), s.con->active->W, s.con->active->H, s.con->active->win.Left, s.con->active->win.Top, s.con->active->winW(), s.con->active->winH(), o.cols, o.rows) + why);
            if (r->eof) violate("session-died", "the output stream ended");
            if (s.con->active->H != 3000) nontrivial();
            stateSig(r->term.hash());
            ScreenBuf &ab = *s.con->active;
            if (waited && ab.H == 3000 && (ab.winW() != std::min(o.cols, s.con->largestX) || ab.winH() != std::min(o.rows, s.con->largestY)))
                violate("wrong-size", fmt("back in the scrolling buffer the console window is %dx%d, the terminal %dx%d", ab.winW(), ab.winH(), o.cols, o.rows));
            if (quiet && atW == o.cols && atH == o.rows && atTop == ab.win.Top && r->term.cursorVisible) {
                int top = r->term.row - (ab.cur.Y - ab.win.Top);
                for (int k = r->term.base; k < top; ++k) if (!r->term.lineText(k).empty()) violate("history-repeated", fmt("back in the scrolling buffer the terminal shows \"%s\" above the console window", hexdump(r->term.lineText(k), 80).c_str()));
                stat("restored-checked");
            }
            // The terminal is resized and forgets what it showed (but for the line with the cursor): everything is drawn again.
            if (waited && ab.H != 3000 && !wl.wide && choose(GEN, 2)) for (int n = range(GEN, 1, 3); n--;) {
                for (int k = r->term.base; k < (int)r->term.lines.size(); ++k) if (k != r->term.row) r->term.lines[k].clear();
                ErrP er = nullptr; o.cols = range(GEN, 20, 120); o.rows = range(GEN, 2, 50);
                if (!h.api.set_size(s.wp, o.cols, o.rows, &er)) violate("resize-failed", fmt("winpty_set_size failed with %u", (unsigned)h.takeErr(er)));
                mo.ptyW = o.cols; mo.ptyH = r->term.H = o.rows;
                if (ab.winW() != std::min(o.cols, s.con->largestX) || ab.winH() != std::min(o.rows, s.con->largestY)) violate("wrong-size", fmt("after winpty_set_size(%d,%d) the window of the program's buffer is %dx%d", o.cols, o.rows, ab.winW(), ab.winH()));
                std::string why = convergeWith(s, r, 3000, mo);
                if (!why.empty()) violate("screen-diverged", fmt("(%s, buffer %dx%d window %d,%d %dx%d, terminal resized to %dx%d) ", what.c_str(), ab.W, ab.H, ab.win.Left, ab.win.Top, ab.winW(), ab.winH(), o.cols, o.rows) + why);
                stat("direct-resizes");
            }
            if (++checked > phases) break;
            ready = false; go = true;
            if (!waitFor("phase-ready", [&] { return ready; }, 3000)) break;
        }
        quit = true;
        g_sample = fmt("%dx%d phases=%d checked=%d buffers=%zu", o.cols, o.rows, phases, checked, bufs.size());
        h.closeSession(s);
    });
}
static RegCheck c22("C22", "a run counts as non-trivial when the terminal was compared with a program screen that is not the scrolling buffer",
    {{"direct", 0, 900, 9000}, {"direct", 1, 1300, 14000}});

// ------------------------------------------------------------------ title
SCENARIO(title) {
    Harness h; h.world(param & 1);
    bool plain = param & 2;
    bool done = false, quit = false; int changes = range(GEN, 1, 12);
    struct Change { int64_t when; std::string t; };
    std::vector<Change> hist;
    h.programs["app"] = [&](App &a) {
        hist.push_back({g_now, u8(a.con->title)});
        ustr last;
        for (int i = 0; i < changes; ++i) {
            ustr t; int n = choose(GEN, 4) == 3 ? range(GEN, 0, 2000) : range(GEN, 0, 60);
            for (int j = 0; j < n; ++j) { static const char16_t sp[] = {0x20, ';', '\\', 0xE9, 0x4E2D, 0xFF21, 0xD83D}; int k = choose(GEN, 10); char16_t c = k < 7 ? (char16_t)range(GEN, 0x21, 0x7e) : sp[choose(GEN, 7)];
                t.push_back(c); if (c == 0xD83D) t.push_back(0xDE00 + choose(GEN, 64)); }
            if (i && last.size() && choose(GEN, 4) == 3) {      // one character of the previous title changes
                t = last; size_t k = choose(GEN, 2) ? t.size() - 1 : choose(GEN, (uint32_t)t.size());
                if (t[k] < 0xD800 || t[k] > 0xDFFF) t[k] = t[k] == 'q' ? u'r' : u'q';
            }
            last = t;
            a.con->appSetTitle(t); hist.push_back({g_now, u8(t)});
            if (choose(GEN, 3)) sleepFor(range(GEN, 1, 200));
            if (choose(GEN, 3) == 2) { ustr q = u"noise\r\n"; a.con->appWrite(q); }
        }
        done = true;
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; if (plain) { o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; if (choose(GEN, 2)) o.flags |= WINPTY_FLAG_COLOR_ESCAPES; }
        Session s = h.open(o);
        Reader *r = h.startReader(s.conout);
        r->term.plain = plain; r->term.plainColor = (o.flags & WINPTY_FLAG_COLOR_ESCAPES) != 0;
        r->term.onTitle = [&](const std::string &t) {
            // every title shown was the console title at some moment, in order
            size_t n = r->term.titles.size();
            if (n >= 2 && r->term.titles[n - 2] == t) violate("title-repeated", "the same title was sent twice in a row: " + hexdump(t));
        };
        h.spawn(s, {});
        if (!waitFor("titles", [&] { return done; }, 60000)) violate("program-stuck", "the console program never finished");
        sleepFor(300 + 3 * h.w.cfg.ioDelayMax + 3 * g_sched.stallMax);
        std::vector<std::string> &t = r->term.titles;
        if (!r->term.error.empty()) violate("bad-output", r->term.error);
        if (plain) { if (!t.empty()) violate("title-plain", "a title sequence was sent although escapes are disabled"); }
        else {
            if (t.empty() ? !hist.back().t.empty() && hist.back().t != hist.front().t : t.back() != hist.back().t)
                violate("title-wrong", fmt("the console title is \"%s\" (%zu bytes) but the terminal title is \"%s\"", hexdump(hist.back().t, 80).c_str(), hist.back().t.size(), t.empty() ? "(none)" : hexdump(t.back(), 80).c_str()));
            size_t k = 0;
            for (auto &x : t) { while (k < hist.size() && hist[k].t != x) k++; if (k == hist.size()) violate("title-invented", "the terminal title \"" + hexdump(x, 80) + "\" was never the console title (in this order)"); }
            if (t.size() > hist.size()) violate("title-repeated", fmt("%zu title sequences for %zu titles", t.size(), hist.size()));
        }
        nontrivial(); stat("titles", (int64_t)t.size()); stateSig(mix(r->term.hash(), t.size()));
        quit = true;
        g_sample = fmt("changes=%d sent=%zu last=%zu bytes plain=%d", changes, t.size(), hist.back().t.size(), plain);
        h.closeSession(s);
    });
}
static RegCheck c23("C23", "a run counts as non-trivial when the history of console titles was compared with the title sequences received",
    {{"title", 0, 700, 7000}, {"title", 1, 1000, 12000}, {"title", 2, 150, 1500}, {"title", 3, 150, 1500}});

// ------------------------------------------------------------------ separate error stream
// param bit 0: faults; bit 1: sequential output with exact history, else free workload
SCENARIO(conerr) {
    Harness h; h.world(param & 1);
    bool seq = param & 2;
    Workload wl, we; wl.limit = we.limit = 500; wl.cls = we.cls = !seq && choose(GEN, 2); wl.wide = we.wide = choose(GEN, 3) == 2; we.lineNo = 100000;
    RowModel m, me; bool ready = false, go = false, quit = false; int phases = range(GEN, 1, 4);
    ScreenBuf *eb = nullptr;
    h.programs["app"] = [&](App &a) {
        HandleEntry *e = lookup(a.p, a.p->stdErr, false), *o = lookup(a.p, a.p->stdOut, false);
        if (!e || e->obj->type != O_SCREEN) violate("no-stderr", "the program has no console handle for standard error");
        if (!o || o->obj.get() != a.con->primary.get()) violate("no-stdout", "standard output of the program is not the primary screen buffer");
        eb = static_cast<ScreenBuf *>(e->obj.get());
        if (eb == a.con->primary.get()) violate("no-stderr", "standard error of the program is the primary screen buffer");
        m.W = a.con->primary->W; me.W = eb->W;
        for (int i = 0; i < phases; ++i) {
            int n = range(GEN, 1, 15);
            for (int j = 0; j < n; ++j) {
                bool err = choose(GEN, 2);
                if (!seq && choose(GEN, 20) == 19) a.con->appActivate(a.con->active == a.con->primary ? std::static_pointer_cast<ScreenBuf>(e->obj) : a.con->primary);
                if (seq) printPiece(a, err ? we : wl, err ? me : m, err ? eb : a.con->primary.get(), 300, true, err ? "e" : "n");
                else { a.con->target = err ? eb : a.con->primary.get(); (err ? we : wl).op(a); a.con->target = nullptr; }
                if (choose(GEN, 3) == 2) sleepFor(range(GEN, 1, 60));
            }
            ready = true;
            waitFor("app-phase", [&] { return go; }, -1);
            go = false;
        }
        waitFor("app-quit", [&] { return quit; }, -1);
    };
    h.start([&] {
        Harness::OpenOpts o; o.cols = range(GEN, 20, 120); o.rows = range(GEN, 2, 50); o.flags |= WINPTY_FLAG_CONERR;
        Session s = h.open(o);
        if (s.conerr.empty()) violate("no-conerr", "no error pipe name although the error stream was requested");
        Reader *r = h.startReader(s.conout), *e = h.startReader(s.conerr);
        for (Reader *x : {r, e}) { x->term.W = 3000; x->term.H = o.rows; }
        h.spawn(s, {});
        for (int i = 0; i < phases; ++i) {
            while (!waitFor("phase-ready", [&] { return ready; }, choose(GEN, 2) && !seq ? range(GEN, 1, 200) : 120000)) {
                if (seq) violate("program-stuck", "the console program never finished its phase");
                ErrP er = nullptr; int c = range(GEN, 20, 120), w = range(GEN, 2, 50);
                if (!h.api.set_size(s.wp, c, w, &er)) violate("resize-failed", fmt("winpty_set_size failed with %u", (unsigned)h.takeErr(er)));
            }
            ready = false;
            sleepFor(400);
            std::string why, which;
            pollFor([&] {
                for (Reader *x : {r, e}) if (!x->term.error.empty()) violate("bad-output", x->term.error);
                MatchOpts mo; mo.skipCleared = true;
                if (seq) { why = compareRows(m, r->term); which = "output"; if (why.empty()) { why = compareRows(me, e->term); which = "error output"; } }
                else {
                    ScreenBuf &b = *s.con->primary; why = screenMismatch(r->term, b, lvbMask(*s.con, b), mo); which = "output";
                    if (why.empty()) { why = screenMismatch(e->term, *eb, lvbMask(*s.con, *eb), mo); which = "error output"; }
                }
                return why.empty();
            }, 4000, 50);
            if (!why.empty()) violate("diverged", fmt("phase %d, %s: ", i, which.c_str()) + why);
            if (r->eof || e->eof) violate("session-died", "an output stream ended");
            nontrivial(); stateSig(mix(r->term.hash(), e->term.hash()));
            go = true;
        }
        quit = true;
        g_sample = fmt("%dx%d phases=%d out=%lld err=%lld bytes", o.cols, o.rows, phases, (long long)r->term.bytes, (long long)e->term.bytes);
        h.closeSession(s);
    });
}
static RegCheck c29("C29", "a run counts as non-trivial when both streams were compared with their own screen buffers or printed lines",
    {{"conerr", 0, 500, 5000}, {"conerr", 1, 700, 8000}, {"conerr", 2, 250, 3000}, {"conerr", 3, 350, 5000}, {"final", 3, 200, 2500}});
