#include "harness.h"
#include <dlfcn.h>
#include <string.h>
#include <winpty_constants.h>

namespace sim {
Harness *g_h = nullptr;

void Api::load(Module *m) {
#define L(n) *(void **)&n = m->sym("winpty_" #n); if (!n) harnessError("no winpty_" #n)
    L(error_code); L(error_msg); L(error_free); L(config_new); L(config_free); L(config_set_initial_size); L(config_set_mouse_mode);
    L(config_set_agent_timeout); L(open); L(agent_process); L(conin_name); L(conout_name); L(conerr_name); L(spawn_config_new);
    L(spawn_config_free); L(spawn); L(set_size); L(get_console_process_list); L(free);
#undef L
}

bool waitFor(const char *what, std::function<bool()> f, int64_t ms) {
    return blockUntil(what, std::move(f), ms < 0 ? -1 : g_now + ms);
}
bool pollFor(std::function<bool()> f, int64_t ms, int step) {
    int64_t end = g_now + ms;
    for (;;) {
        if (f()) return true;
        if (g_now >= end) return false;
        sleepFor(step);
    }
}

static bool endsWith(const ustr &s, const ustr &t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }

Harness::Harness() {
    g_h = this; g_w = &w;
    w.winsta0 = std::make_shared<WinSta>(); w.winsta0->name = u"WinSta0";
    w.desktopDefault = std::make_shared<Desktop>(); w.desktopDefault->name = u"Default"; w.desktopDefault->ws = w.winsta0;
    w.stations.push_back(w.winsta0); w.desktops.push_back(w.desktopDefault);
    w.exec = [this](ProcP c, const SpawnReq &r) -> uint32_t {
        if (execHook) { uint32_t e = execHook(c, r); if (e != ~0u) return e; }
        ustr prog = r.haveApp ? r.app : r.cmdline;
        if (r.haveApp && prog == w.cfg.installDir + u"winpty-agent.exe") {
            Module *m = takeModule("agent");
            if (!m) harnessError("out of agent modules");
            c->kind = "agent"; c->mod = m; c->label = "agent#" + std::to_string(c->pid);
            auto entry = (int (*)())m->sym("entry");
            agents.push_back(c);
            Process *cp = c.get();
            Fiber *f = spawnThread(cp, "agent", [entry, cp] { int code = entry(); processExit(cp, (uint32_t)code); fiberExit(); });
            (void)f;
            return 0;
        }
        std::string name = u8(prog);
        if (!r.haveApp && name[0] == '"') { name = name.substr(1, name.find('"', 1) - 1); }
        else { size_t sp = name.find_first_of(" \t"); if (sp != std::string::npos && !r.haveApp) name.resize(sp); }
        auto it = programs.find(name);
        if (it == programs.end()) return ERROR_FILE_NOT_FOUND;
        c->kind = "app"; c->label = name + "#" + std::to_string(c->pid);
        Program body = it->second; Process *cp = c.get(); ProcP self = c;
        spawnThread(cp, name, [body, cp, self] {
            App a; a.p = cp; a.con = cp->con.get(); a.self = self;
            body(a);
            processExit(cp, 0); fiberExit();
        });
        return 0;
    };
}

void Harness::world(int level) {
    WorldCfg &c = w.cfg;
    static const int vers[] = {7, 10, 10, 5, 8, 6};
    c.winver = vers[choose(GEN, 6)];
    c.newW10 = c.winver >= 10 && choose(GEN, 2) == 0;
    c.fontLimits = choose(GEN, 4) == 3;
    c.fontFaceSettable = choose(GEN, 4) != 3;
    // The window the agent's console starts with (a profile may ask for any).
    switch (choose(GEN, 24)) {
    case 21: c.conInitCols = c.conInitRows = 1; c.conInitBufRows = choose(GEN, 2) ? 1 : range(GEN, 1, 9999); break;
    case 22: c.conInitCols = range(GEN, 1, 200); c.conInitRows = range(GEN, 1, 80); c.conInitBufRows = c.conInitRows + choose(GEN, 500); break;
    case 23: c.conInitCols = range(GEN, 1, 30); c.conInitRows = range(GEN, 1, 3); c.conInitBufRows = c.conInitRows + choose(GEN, 9000); break;
    }
    // The installation directory is the user's choice.
    switch (choose(GEN, 16)) {
    case 10: c.installDir = u"C:\\Program Files (x86)\\winpty\\"; break;
    case 11: c.installDir = u"D:\\"; break;
    case 12: c.installDir = u"\\\\server\\a share\\b\\"; break;
    case 13: c.installDir = u"C:\\\u65e5\u672c \u00fc\\x'y &^%PATH%\\"; break;
    case 14: c.installDir = u"C:\\" + ustr(200, u'd') + u"\\e f\\"; break;
    case 15: c.installDir = u"C:\\winpty-agent.exe \\bin\\"; break;
    }
    static const int gaps[] = {40, 8, 200, 1000};
    g_sched.preemptGap = gaps[choose(GEN, 4)];
    if (level >= 1) {
        static const int dl[] = {0, 2, 0, 12, 40};
        c.ioDelayMax = dl[choose(GEN, 5)];
        static const int fr[] = {0, 30, 0, 80};
        c.fragPct = fr[choose(GEN, 4)];
        static const int st[] = {0, 0, 5, 20};
        g_sched.stallRate = st[choose(GEN, 4)];
        g_sched.stallMax = 60;
        if (choose(GEN, 4) == 3) { c.tickBase = 0xFFFFFFFFu - choose(GEN, 4000); countFault(F_CLOCK_JUMP); }
        static const int cpm[] = {400, 100, 2000};
        g_sched.apiCallsPerMs = cpm[choose(GEN, 3)];
        if (choose(GEN, 3) == 2) planFault(F_CANCEL_RACE, 3, 1000);
    }
}

void Harness::start(std::function<void()> body) {
    client = newProcess("client", nullptr);
    Module *m = takeModule("winpty"); client->mod = m;
    api.load(m);
    client->label = "client";
    addHandle(client.get(), std::make_shared<EventObj>(true, false), true, 0, "initial-inheritable");   // the caller's own business
    spawnThread(client.get(), "main", [this, body] { body(); finish(); });
    run();
}
void Harness::run() {
    runScheduler();
    if (g_verdict.violated) return;
    if (!done) {
        std::string s;
        for (Fiber *f : g_fibers) if (f->state != Fiber::Dead) s += f->name + " at " + f->where + "; ";
        violate("deadlock", "the system came to rest before the scenario finished: " + s);
    }
}
void Harness::finish() {
    for (auto &a : agents) if (a->crashed && a->crashWhy.compare(0, 8, "injected") != 0) violate("agent-crash", a->crashWhy);
    done = true; g_stopRun = true;
    for (;;) yieldNow("finished");
}
DWORD Harness::takeErr(ErrP e) { DWORD c = api.error_code(e); LPCWSTR m = api.error_msg(e); if (g_verbose && e) logf("error %u: %s", (unsigned)c, u8(U(m)).c_str()); api.error_free(e); return c; }

WpP Harness::tryOpen(const OpenOpts &o, DWORD *code) {
    ErrP e = nullptr;
    CfgP c = api.config_new(o.flags, &e);
    if (!c) { if (code) *code = takeErr(e); else api.error_free(e); return nullptr; }
    api.config_set_initial_size(c, o.cols, o.rows);
    api.config_set_mouse_mode(c, o.mouse);
    if (o.timeout) api.config_set_agent_timeout(c, o.timeout);
    e = nullptr;
    WpP wp = api.open(c, &e);
    api.config_free(c);
    if (wp && e) violate("open-err", "winpty_open returned both a session and an error");
    if (!wp && !e) violate("open-noerr", "winpty_open returned null without an error object");
    if (!wp) { DWORD k = takeErr(e); if (code) *code = k; } else if (code) *code = 0;
    return wp;
}
Process *Harness::agentOf(WpP wp) {
    HANDLE h = api.agent_process(wp);
    HandleEntry *e = lookup(client.get(), h, true, "agent_process");
    if (!e || e->obj->type != O_PROCESS) violate("agent-handle", "winpty_agent_process is not a process handle");
    return static_cast<Process *>(e->obj.get());
}
Session Harness::open(const OpenOpts &o) {
    DWORD code = 0;
    Session s; s.cols = o.cols; s.rows = o.rows;
    s.wp = tryOpen(o, &code);
    if (!s.wp) violate("open-failed", fmt("winpty_open failed with error %u although nothing was wrong", (unsigned)code));
    s.agent = agentOf(s.wp);
    s.con = s.agent->con.get(); s.con->primary->clearedTo = 0;
    s.conin = U(api.conin_name(s.wp)); s.conout = U(api.conout_name(s.wp));
    LPCWSTR e = api.conerr_name(s.wp); if (e) s.conerr = U(e);
    return s;
}
bool Harness::spawn(Session &s, const SpawnOpts &o) {
    ErrP e = nullptr; ustr app = u16of(o.prog);
    SpawnP c = api.spawn_config_new(o.flags, W(app), nullptr, nullptr, nullptr, &e);
    if (!c) violate("spawn-config", "winpty_spawn_config_new failed");
    DWORD cpe = 0;
    e = nullptr;
    BOOL ok = api.spawn(s.wp, c, o.ph, o.th, &cpe, &e);
    api.spawn_config_free(c);
    DWORD code = ok ? 0 : takeErr(e);
    if (ok && e) violate("spawn-err", "winpty_spawn succeeded but set an error");
    if (o.code) *o.code = code; if (o.cpErr) *o.cpErr = cpe;
    if (!ok && o.must) violate("spawn-failed", fmt("winpty_spawn failed with error %u (create-process error %u)", (unsigned)code, (unsigned)cpe));
    return ok;
}
Reader *Harness::startReader(const ustr &name, Process *owner) {
    Reader *r = new Reader();
    Process *p = owner ? owner : client.get();
    r->fiber = spawnThread(p, "reader", [r, name, p] {
        if (r->openDelay) sleepFor(r->openDelay);
        if (!r->pipe.open(p, name, g_now + 60000)) { r->stopped = true; return; }
        r->opened = true; r->openTime = g_now;
        while (!r->stop) {
            if (r->pausePct && chance(FAULT, r->pausePct, 100)) { countFault(F_SLOW_READER); sleepFor(1 + choose(FAULT, r->pauseMax)); }
            if (r->paused) blockUntil("reader-paused", [r] { return !r->paused || r->stop; });
            size_t want = r->maxChunk <= 64 ? 1 + choose(SCHED, r->maxChunk) : r->maxChunk;
            std::string s = r->pipe.read(want);
            if (r->pipe.eof) { r->eof = true; r->eofTime = g_now; break; }
            if (r->keep) r->all += s;
            r->lastData = g_now;
            if (g_verbose) logf("terminal <- %s", hexdump(s, 600).c_str());
            r->term.feed(s);
        }
        r->stopped = true;
    });
    return r;
}
void Harness::closeSession(Session &s) { api.free(s.wp); s.wp = nullptr; }
Process *Harness::childOf(Session &s) {
    for (auto &p : w.procs) if (p->parent == s.agent && p->kind == "app") return p.get();
    return nullptr;
}
ProcP Harness::consoleChild(App &a, const std::string &name, Program body) {
    ProcP c = newProcess("app2", a.p);
    c->label = name + "#" + std::to_string(c->pid);
    c->con = a.p->con; c->con->attach(c.get());
    Process *cp = c.get(); ProcP self = c;
    spawnThread(cp, name, [body, cp, self] {
        App b; b.p = cp; b.con = cp->con.get(); b.self = self;
        body(b);
        processExit(cp, 0); fiberExit();
    });
    return c;
}
void Harness::checkBadHandles(Process *p, const char *cls) {
    if (p->badHandleUses) violate(cls, p->label + ": " + p->firstBadHandle);
}

// ------------------------------------------------------------------ oracles
WORD lvbMask(Console &c, ScreenBuf &b) {
    bool cjk = c.cp == 932 || c.cp == 936 || c.cp == 949 || c.cp == 950;
    bool grid = (b.mode & 0x10) || (b.mode & 4);
    bool nw = g_w->cfg.newW10 && g_w->cfg.winver >= 8;
    WORD m = 0xff;
    if (cjk || grid || nw) m |= 0x4000;
    if (cjk || grid) m |= 0x8000;
    return m;
}
Sgr sgrOf(WORD a) {
    auto conv = [](int v) { int r = 0; if (v & 4) r |= 1; if (v & 2) r |= 2; if (v & 1) r |= 4; if (v & 8) r |= 8; return r; };
    int f = conv(a & 15), b = conv((a >> 4) & 15);
    if (a & 0x4000) { int t = f; f = b; b = t; }
    Sgr s;
    if (b == 0) {
        if (f == 7) {}
        else if (f == 15) s.bold = true;
        else s.fg = (int8_t)f;
    } else if (b == 15) {
        s.rev = true;
        if (f != 7 && f != 0) s.bg = (int8_t)f;
    } else { s.fg = (int8_t)f; s.bg = (int8_t)b; }
    if (f == b) s.hid = true;
    if (a & 0x8000) s.ul = true;
    return s;
}
struct ECell { uint32_t ch; WORD attr; int w; };
static std::vector<ECell> expectRow(ScreenBuf &b, int y, int x0, int w, WORD mask) {
    std::vector<ECell> r;
    const CHAR_INFO *d = b.row(y) + x0;
    auto full = [&](int x) { return x + 1 < w && (d[x].Attributes & 0x100) && (d[x + 1].Attributes & 0x200) && d[x].Char.UnicodeChar == d[x + 1].Char.UnicodeChar; };
    for (int x = 0; x < w;) {
        uint32_t c = (uint16_t)d[x].Char.UnicodeChar; int n = full(x) ? 2 : 1; WORD at = d[x].Attributes & mask;
        if (c >= 0xD800 && c < 0xE000) {
            uint32_t lo = x + n < w ? (uint16_t)d[x + n].Char.UnicodeChar : 0;
            if (c < 0xDC00 && lo >= 0xDC00 && lo < 0xE000) { c = 0x10000 + ((c & 0x3ff) << 10) + (lo & 0x3ff); n += full(x + n) ? 2 : 1; }
            else c = '?';
        } else if (c <= 6 && c >= 1) { static const uint32_t box[] = {0x2554, 0x2557, 0x255A, 0x255D, 0x2551, 0x2550}; c = box[c - 1]; }
        else if (c == 0) c = ' ';
        else if (c < 0x20 || (c >= 0x7f && c < 0xA0)) c = '?';
        r.push_back(ECell{c, at, n});
        x += n;
    }
    return r;
}
std::string conRowText(ScreenBuf &b, int y) {
    ustr s; for (int x = 0; x < b.W; ++x) s.push_back(b.row(y)[x].Char.UnicodeChar);
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return u8(s);
}
static std::string rowsAt(Term &t, ScreenBuf &b, WORD mask, int line0, const MatchOpts &o, int x0, int w, int h) {
    for (int y = 0; y < h; ++y) {
        auto e = expectRow(b, b.win.Top + y, x0, w, mask);
        int r = line0 + y;
        bool have = r >= t.base && r < (int)t.lines.size();
        if (o.skipCleared && b.scrolled + b.win.Top + y < b.clearedTo) {
            bool blank = true; for (auto &c : e) blank &= c.ch == ' ';
            if (blank) continue;       // scrollback the agent erased on the console is kept on the terminal
        }
        if (!have || t.lines[r].empty()) {
            // never written: must be blank and of one colour
            bool uniform = true, blank = true, dflt = true;
            for (auto &c : e) { blank &= c.ch == ' '; uniform &= c.attr == e[0].attr; dflt &= (c.attr & 0xffff) == 7; }
            if (!blank) return fmt("window row %d shows \"%s\" but the terminal has nothing there", y, hexdump(conRowText(b, b.win.Top + y), 100).c_str());
            if (o.attrs && !uniform) return fmt("window row %d has coloured blanks that the terminal does not show", y);
            continue;
        }
        TLine &l = t.lines[r];
        int x = 0;
        for (auto &c : e) {
            TCell d; if (x < (int)l.size()) d = l[x];
            if (d.ch != c.ch || (d.w == 0)) return fmt("row %d col %d: console U+%04X, terminal U+%04X (console \"%s\", terminal \"%s\")", y, x, c.ch, d.w ? d.ch : 0,
                hexdump(conRowText(b, b.win.Top + y), 100).c_str(), hexdump(t.lineText(r), 100).c_str());
            if (o.attrs) { Sgr want = sgrOf(c.attr); if (d.a != want) return fmt("row %d col %d: console attribute 0x%04x means %s, terminal shows %s", y, x, c.attr, want.str().c_str(), d.a.str().c_str()); }
            x += charWidth(c.ch);
        }
        for (; x < (t.keepHidden ? std::min(t.W, (int)l.size()) : (int)l.size()); ++x) if (l[x].ch != ' ' && l[x].w) return fmt("row %d: terminal shows extra text at column %d: \"%s\"", y, x, hexdump(t.lineText(r), 100).c_str());
    }
    return "";
}
std::string screenMismatch(Term &t, ScreenBuf &b, WORD mask, const MatchOpts &o) {
    if (!t.error.empty()) return "stream error: " + t.error;
    if (t.midSequence()) return "terminal is inside an unfinished sequence";
    bool inWin = b.cur.X >= b.win.Left && b.cur.X <= b.win.Right && b.cur.Y >= b.win.Top && b.cur.Y <= b.win.Bottom;
    bool direct = b.H != 3000;
    int x0 = direct ? b.win.Left : 0;
    int pw = o.ptyW ? o.ptyW : t.W, ph = o.ptyH ? o.ptyH : t.H;
    int w = direct ? std::min(b.winW(), pw) : std::min(b.W, t.W), h = std::min(b.winH(), direct ? ph : b.winH());
    bool show = b.ci.bVisible && inWin && (!direct || (b.cur.X - x0 < w && b.cur.Y - b.win.Top < h));
    if (t.cursorVisible != show) return fmt("cursor is %s in the console window but %s on the terminal", show ? "visible" : "hidden", t.cursorVisible ? "visible" : "hidden");
    if (show) {
        if (t.col != b.cur.X - x0) return fmt("cursor column: console %d, terminal %d", b.cur.X - x0, t.col);
        return rowsAt(t, b, mask, t.row - (b.cur.Y - b.win.Top), o, x0, w, h);
    }
    // Cursor hidden: some alignment must match.
    std::string first;
    int anchor = -1; std::string at;      // a row with text, to skip hopeless alignments quickly
    for (int y = h - 1; y >= 0 && anchor < 0; --y) {
        if (o.skipCleared && b.scrolled + b.win.Top + y < b.clearedTo) continue;
        for (auto &c : expectRow(b, b.win.Top + y, x0, w, mask)) if (c.ch > ' ' && c.ch < 127) { anchor = y; break; }
    }
    for (int k = (int)t.lines.size() - 1; k >= t.base; --k) {
        if (anchor >= 0 && !first.empty()) {
            if (k + anchor >= (int)t.lines.size()) continue;
            auto e = expectRow(b, b.win.Top + anchor, x0, std::min(w, 8), mask); TLine &l = t.lines[k + anchor];
            if (!e.empty() && e[0].w == 1 && e[0].ch != ' ' && (l.empty() || l[0].ch != e[0].ch)) continue;
        }
        std::string s = rowsAt(t, b, mask, k, o, x0, w, h);
        if (s.empty()) return "";
        if (first.empty()) first = s;
    }
    return "no alignment of the terminal matches the console window (" + first + ")";
}

INPUT_RECORD keyRec(bool down, WORD vk, WORD sc, wchar_t ch, DWORD state) {
    INPUT_RECORD r; memset((void *)&r, 0, sizeof r);
    r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = down; r.Event.KeyEvent.wRepeatCount = 1;
    r.Event.KeyEvent.wVirtualKeyCode = vk; r.Event.KeyEvent.wVirtualScanCode = sc; r.Event.KeyEvent.uChar.UnicodeChar = ch; r.Event.KeyEvent.dwControlKeyState = state;
    return r;
}
} // namespace sim
