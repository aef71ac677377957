#include "console.h"
#include <string.h>

namespace sim {

static int g_conId = 1;

void ScreenBuf::fillRow(int y, WORD a) {
    CHAR_INFO *r = row(y);
    for (int x = 0; x < W; ++x) { r[x].Char.UnicodeChar = L' '; r[x].Attributes = a; }
}
void ScreenBuf::init(int w, int h, WORD a) {
    W = w; H = h; base = 0; attr = a;
    cells.assign((size_t)w * h, CHAR_INFO());
    for (auto &c : cells) { c.Char.UnicodeChar = L' '; c.Attributes = a; }
}
void ScreenBuf::scrollUp() {
    base++; if (base >= H) base = 0;
    fillRow(H - 1, attr);
    scrolled++;
    gen++;
}
void ScreenBuf::ensureCursorVisible() {
    if (cur.Y > win.Bottom) { int d = cur.Y - win.Bottom; win.Top += d; win.Bottom += d; }
    if (cur.Y < win.Top) { int d = win.Top - cur.Y; win.Top -= d; win.Bottom -= d; }
    if (cur.X > win.Right) { int d = cur.X - win.Right; win.Left += d; win.Right += d; }
    if (cur.X < win.Left) { int d = win.Left - cur.X; win.Left -= d; win.Right -= d; }
}
void ScreenBuf::newline() {
    if (cur.Y == H - 1) scrollUp(); else cur.Y++;
    ensureCursorVisible();
}
// Overwriting one half of a full-width character blanks the other half.
void ScreenBuf::splitWide(int x, int y) {
    CHAR_INFO *r = row(y);
    WORD a = r[x].Attributes;
    if ((a & 0x100) && x + 1 < W && (r[x + 1].Attributes & 0x200)) { r[x + 1].Char.UnicodeChar = L' '; r[x + 1].Attributes &= ~0x300; }
    if ((a & 0x200) && x > 0 && (r[x - 1].Attributes & 0x100)) { r[x - 1].Char.UnicodeChar = L' '; r[x - 1].Attributes &= ~0x300; }
}
void ScreenBuf::putChar(char16_t ch) {
    gen++;
    if (mode & ENABLE_PROCESSED_OUTPUT) {
        switch (ch) {
        case '\r': cur.X = 0; ensureCursorVisible(); return;
        case '\n': cur.X = 0; newline(); return;
        case '\b': if (cur.X > 0) cur.X--; ensureCursorVisible(); return;
        case 7: return;
        case '\t': do { putChar(' '); } while (cur.X % 8 && cur.X != 0); return;
        }
    }
    splitWide(cur.X, cur.Y);
    CHAR_INFO &c = row(cur.Y)[cur.X];
    c.Char.UnicodeChar = ch; c.Attributes = attr;
    if (++cur.X >= W) {
        if (mode & ENABLE_WRAP_AT_EOL_OUTPUT) { cur.X = 0; newline(); }
        else cur.X = W - 1;
    }
    ensureCursorVisible();
}
void ScreenBuf::putWide(char16_t ch) {
    gen++;
    if (cur.X + 2 > W) { if (W < 2) return; cur.X = 0; newline(); }
    splitWide(cur.X, cur.Y); splitWide(cur.X + 1, cur.Y);
    CHAR_INFO *r = row(cur.Y);
    r[cur.X].Char.UnicodeChar = ch; r[cur.X].Attributes = attr | 0x100;
    r[cur.X + 1].Char.UnicodeChar = ch; r[cur.X + 1].Attributes = attr | 0x200;
    cur.X += 2;
    if (cur.X >= W) { cur.X = 0; newline(); }
    ensureCursorVisible();
}
bool ScreenBuf::resize(int w, int h, std::string &why) {
    if (w < 1 || h < 1 || w > 32766 || h > 32766) { why = "bad size"; return false; }
    if (w < winW() || h < winH()) { why = "smaller than window"; return false; }
    if (w < con->minBufWidth) { why = "font minimum"; return false; }
    if (w == W && h == H) return true;
    gen++;
    int top = 0;
    if (cur.Y >= h) top = cur.Y - h + 1;
    std::vector<CHAR_INFO> n((size_t)w * h);
    CHAR_INFO blank; blank.Char.UnicodeChar = L' '; blank.Attributes = attr;
    for (auto &c : n) c = blank;
    for (int y = 0; y < h && y + top < H; ++y) {
        CHAR_INFO *src = row(y + top);
        for (int x = 0; x < w && x < W; ++x) n[(size_t)y * w + x] = src[x];
    }
    cells.swap(n); W = w; H = h; base = 0;
    scrolled += top;
    cur.Y -= top;
    if (cur.X >= W) cur.X = W - 1;
    // keep the window inside the buffer
    int ww = winW(), wh = winH();
    if (win.Right >= W) { win.Right = W - 1; win.Left = win.Right - ww + 1; }
    if (win.Bottom >= H) { win.Bottom = H - 1; win.Top = win.Bottom - wh + 1; }
    if (con->active.get() == this && (con->inMode & ENABLE_WINDOW_INPUT)) {
        INPUT_RECORD r; memset(&r, 0, sizeof r);
        r.EventType = WINDOW_BUFFER_SIZE_EVENT;
        r.Event.WindowBufferSizeEvent.dwSize.X = W;
        r.Event.WindowBufferSizeEvent.dwSize.Y = H;
        con->pushInput(r);
    }
    return true;
}
bool ScreenBuf::setWindow(SMALL_RECT r, int maxX, int maxY) {
    if (r.Left < 0 || r.Top < 0 || r.Right < r.Left || r.Bottom < r.Top) return false;
    if (r.Right >= W || r.Bottom >= H) return false;
    if (r.Right - r.Left + 1 > maxX || r.Bottom - r.Top + 1 > maxY) return false;
    win = r;
    gen++;
    return true;
}

bool ConInObj::signaled() { return !con->input.empty(); }

std::shared_ptr<Console> newConsole(std::shared_ptr<Desktop> d) {
    auto c = std::make_shared<Console>();
    c->id = g_conId++;
    c->hwnd = (HWND)(uintptr_t)(0x10000 + c->id);
    c->desktop = d;
    const WorldCfg &cfg = g_w->cfg;
    c->cp = cfg.codepage;
    c->largestX = cfg.largestX; c->largestY = cfg.largestY;
    c->primary = std::make_shared<ScreenBuf>();
    c->primary->con = c.get();
    c->primary->init(cfg.conInitCols, cfg.conInitBufRows, 7);
    c->primary->win = SMALL_RECT{0, 0, (SHORT)(std::min(cfg.conInitCols, cfg.largestX) - 1),
                                 (SHORT)(std::min(cfg.conInitRows, cfg.largestY) - 1)};
    c->active = c->primary;
    c->inObj = std::make_shared<ConInObj>(c.get());
    c->title = u"console";
    c->fontFace = u"Terminal";
    g_w->consoles.push_back(c);
    return c;
}

void Console::pushInput(const INPUT_RECORD &r) {
    input.push_back(r);
    allInput.push_back(r);
    allInputTime.push_back(g_now);
    if (r.EventType == WINDOW_BUFFER_SIZE_EVENT) sizeEvents++;
}
void Console::attach(Process *p) {
    attached.push_back(p);
    // A console that is being closed also ends the programs that join it late.
    if (closing) { ProcP sp = shareProc(p); at(g_now + 1 + choose(FAULT, 40), [sp] { processExit(sp.get(), 0xC000013A); }); }
    if (onAttach) onAttach();
}
void Console::detach(Process *p) {
    for (size_t i = 0; i < attached.size(); ++i)
        if (attached[i] == p) { attached.erase(attached.begin() + i); break; }
    if (attached.empty()) { frozen = false; desktop.reset(); }
    if (onAttach) onAttach();
}
void Console::freeze(bool mark) {
    if (frozen) return;
    frozen = true; frozenByMark = mark; frozenSince = g_now;
    ev("freeze", mark, id);
    if (mark) {
        active->markSaved = active->cur; active->markActive = true;
        if (!g_w->cfg.newW10 && g_w->cfg.freezeMovesCursor) {
            active->cur.X = active->win.Left; active->cur.Y = active->win.Top;
        }
    }
}
void Console::unfreeze() {
    if (!frozen) return;
    frozen = false;
    maxFrozen = std::max(maxFrozen, g_now - frozenSince);
    ev("unfreeze", id);
    if (active->markActive) { active->cur = active->markSaved; active->markActive = false; }
}
void Console::ctrlC(DWORD type) {
    ev("ctrl-event", type, (int64_t)allInput.size());
    ctrlEvents.push_back(CtrlEvent{g_now, allInput.size(), type});
    std::vector<Process *> list = attached;
    for (Process *p : list) {
        if (p->exited) continue;
        if (type == CTRL_C_EVENT && p->ignoreCtrlC) continue;
        if (p->ctrlC) { p->ctrlC((int)type); continue; }
        bool handled = false;
        for (size_t i = p->ctrlHandlers.size(); i-- > 0 && !handled;)
            handled = p->ctrlHandlers[i](type) != 0;
        if (!handled) processExit(p, 0xC000013A);
    }
}
void Console::close() {
    if (closing) return;
    closing = true;
    ev("console-close", id, (int64_t)attached.size());
    for (Process *p : attached) {
        ProcP sp = shareProc(p);
        int64_t d = 1 + choose(FAULT, 40);
        at(g_now + d, [sp] { processExit(sp.get(), 0xC000013A); });
    }
}
void Console::waitThaw() {
    while (frozen) blockUntil("console-frozen", [this] { return !frozen; });
}
void Console::appWrite(const ustr &s) { appWriteTo(nullptr, s); }
void Console::appWriteTo(ScreenBuf *b, const ustr &s) {
    waitThaw();
    if (!b) b = tgt();
    for (char16_t c : s) b->putChar(c);
    ev("app-write", (int64_t)s.size(), b->cur.X, b->cur.Y);
    maybeYield("appWrite");
}
void Console::appWriteWide(const ustr &s) {
    waitThaw();
    for (char16_t c : s) tgt()->putWide(c);
    ev("app-wwide", (int64_t)s.size());
    maybeYield("appWriteWide");
}
void Console::appSetCursor(int x, int y) {
    auto &b = *tgt();
    if (x < 0 || y < 0 || x >= b.W || y >= b.H) return;
    b.cur.X = x; b.cur.Y = y; b.ensureCursorVisible(); b.gen++;
    ev("app-cursor", x, y);
    maybeYield("appSetCursor");
}
void Console::appSetAttr(WORD a) { tgt()->attr = a; maybeYield("appAttr"); }
void Console::appCls() {
    waitThaw();
    auto &b = *tgt();
    for (int y = 0; y < b.H; ++y) b.fillRow(y, b.attr);
    b.cur.X = 0; b.cur.Y = 0; b.ensureCursorVisible(); b.gen++;
    ev("app-cls");
    maybeYield("appCls");
}
void Console::appFill(int x, int y, char16_t c, WORD a, int n) {
    auto &b = *tgt();
    for (int i = 0; i < n; ++i) {
        if (y >= b.H) break;
        if (x >= 0 && y >= 0 && x < b.W) { b.splitWide(x, y); CHAR_INFO &q = b.row(y)[x]; q.Char.UnicodeChar = c; q.Attributes = a; }
        if (++x >= b.W) { x = 0; ++y; }
    }
    b.gen++;
    ev("app-fill", x, y, n);
    maybeYield("appFill");
}
void Console::appSetCursorVisible(bool v) { tgt()->ci.bVisible = v; tgt()->gen++; ev("app-curvis", v); maybeYield("appVis"); }
void Console::appSetTitle(const ustr &t) { title = t; titleChanges++; ev("app-title", (int64_t)t.size()); maybeYield("appTitle"); }
bool Console::appResizeBuffer(int w, int h) {
    waitThaw();
    std::string why;
    bool ok = active->resize(w, h, why);
    ev("app-resize", w, h, ok);
    maybeYield("appResize");
    return ok;
}
bool Console::appSetWindow(int l, int t, int w, int h) {
    SMALL_RECT r = {(SHORT)l, (SHORT)t, (SHORT)(l + w - 1), (SHORT)(t + h - 1)};
    bool ok = active->setWindow(r, largestX, largestY);
    ev("app-window", t, h, ok);
    maybeYield("appWindow");
    return ok;
}
ScreenP Console::appNewBuffer() {
    auto s = std::make_shared<ScreenBuf>();
    s->con = this;
    s->init(active->winW(), active->winH(), 7);
    s->win = SMALL_RECT{0, 0, (SHORT)(s->W - 1), (SHORT)(s->H - 1)};
    return s;
}
void Console::appActivate(ScreenP s) {
    waitThaw();
    active = s; s->gen++;
    ev("app-activate", s->W, s->H);
    maybeYield("appActivate");
}
bool Console::appRead(INPUT_RECORD &r) {
    if (input.empty()) return false;
    r = input.front(); input.pop_front();
    return true;
}

} // namespace sim
