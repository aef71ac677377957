#include "workload.h"
namespace sim {
ustr Workload::text(int n) {
    static const char pool[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;:!?-_=+*/\\|()[]{}<>@#$%^&~'\"   ";
    ustr s;
    uint32_t seed = choose(GEN, 1 << 16);
    for (int i = 0; i < n; ++i) {
        seed = seed * 1103515245u + 12345u;
        uint32_t k = (seed >> 16) & 0x7fff;
        if (odd && k % 23 == 0) { static const char16_t o[] = {1, 2, 3, 4, 5, 6, 0xE9, 0x2500, 0x20AC, 0xFFFD, 0x1b}; uint32_t j = (k / 23) % 14;
            if (j < 11) s.push_back(o[j]);
            else if (j < 13) { s.push_back((char16_t)0xD83C); s.push_back((char16_t)(0xDF00 + k % 200)); }   // a pair of surrogates, two columns wide
            else s.push_back((char16_t)(0xD800 + k % 0x800)); }
        else if (garbage && k % 7 == 0) s.push_back((char16_t)((k * 2654435761u) >> 8));
        else if (k % 31 == 0) { static const char16_t o[] = {0xE9, 0x2500, 0x20AC, 0x0416, 0x3B1}; s.push_back(o[(k / 31) % 5]); }
        else s.push_back((char16_t)pool[k % (sizeof pool - 1)]);
    }
    return s;
}
void Workload::throttle(int lines) {
    // The scraper can only follow programs that stay within its line buffer.
    if (g_w->scrapeReads != lastScrape) { lastScrape = g_w->scrapeReads; outstanding = 0; }
    if (outstanding + lines > limit) {
        int64_t want = g_w->scrapeReads + 12;
        blockUntil("app-throttle", [want] { return g_w->scrapeReads >= want; }, g_now + 5000);
        sleepFor(60);
        lastScrape = g_w->scrapeReads; outstanding = 0;
    }
    outstanding += lines;
}
void Workload::op(App &a) {
    ScreenBuf &b = *a.con->tgt();
    Console &c = *a.con;
    int k = (int)choose(GEN, 24);
    auto note = [&](const std::string &s) { if (log.size() < 600) log += s + " "; };
    switch (k) {
    case 0: case 1: case 2: { int n = range(GEN, 0, 60); throttle(n / std::max(b.W, 1) + 2); note(fmt("w%d", n)); c.appWrite(text(n)); break; }
    case 3: case 4: case 5: { int n = range(GEN, 0, 100); throttle(n / std::max(b.W, 1) + 2); note(fmt("l%d", n)); c.appWrite(text(n) + u"\r\n"); break; }
    case 6: { int n = range(GEN, 1, 30); note(fmt("lines%d", n)); for (int i = 0; i < n; ++i) { throttle(2); c.appWrite(u16of(fmt("line %d ", lineNo++)) + text(range(GEN, 0, 10)) + u"\r\n"); } break; }
    case 7: if (scrollBig) { int n = range(GEN, 50, 900); note(fmt("scroll%d", n)); for (int i = 0; i < n; ++i) { throttle(1); c.appWrite(u16of(fmt("row %d\r\n", lineNo++))); } } break;
    case 8: case 9: { int x = (int)choose(GEN, b.W), y = b.win.Top + (int)choose(GEN, b.winH()); note(fmt("cur%d,%d", x, y - b.win.Top)); c.appSetCursor(x, y); break; }
    case 10: case 11: case 12: if (attrs) {
        WORD at = (WORD)choose(GEN, 256);
        if (lvb) { if (choose(GEN, 3) == 2) at |= 0x4000; if (choose(GEN, 3) == 2) at |= 0x8000; }
        note(fmt("at%x", at)); c.appSetAttr(at); } break;
    case 13: if (attrs) { c.appSetAttr(7); note("at7"); } break;
    case 14: if (cls) { note("cls"); c.appCls(); } break;
    case 15: case 16: if (fills) {
        int y = b.win.Top + (int)choose(GEN, b.winH()), x = (int)choose(GEN, b.W), n = range(GEN, 1, b.W * 2);
        n = std::min(n, (b.win.Bottom - y) * b.W + b.W - x);
        char16_t ch = choose(GEN, 2) ? u' ' : u'#'; WORD at = choose(GEN, 2) ? 7 : (WORD)choose(GEN, 256);
        note(fmt("fill%d", n)); c.appFill(x, y, ch, at, n); } break;
    case 17: if (cursorVis) { bool v = choose(GEN, 2) == 0; note(v ? "show" : "hide"); c.appSetCursorVisible(v); } break;
    case 18: if (wide && choose(GEN, 4) == 3) {   // cells with the flags of a full-width character that are not one
        int y = b.win.Top + (int)choose(GEN, b.winH()), x = (int)choose(GEN, b.W); if (x + 1 >= b.W) break;
        note("halves"); b.gen++; b.splitWide(x, y); b.splitWide(x + 1, y); CHAR_INFO *r = b.row(y) + x; WORD at = (WORD)choose(GEN, 256);
        r[0].Char.UnicodeChar = (WCHAR)(u'A' + choose(GEN, 13)); r[0].Attributes = at | 0x100; r[1].Char.UnicodeChar = (WCHAR)(u'N' + choose(GEN, 13)); r[1].Attributes = at | 0x200;
        } else if (wide) { int n = range(GEN, 1, 12); ustr s; for (int i = 0; i < n; ++i) s.push_back((char16_t)(0x4E00 + choose(GEN, 500))); throttle(2); note(fmt("wide%d", n)); c.appWriteWide(s); } break;
    case 19: { note("\\b"); c.appWrite(u"\b\b"); break; }
    case 20: { int n = range(GEN, 1, 120); note(fmt("sleep%d", n)); sleepFor(n); break; }
    case 21: { note("\\r"); c.appWrite(u"\r"); break; }
    case 22: { // overwrite the same line repeatedly (progress bar)
        int n = range(GEN, 1, 15); note(fmt("prog%d", n));
        for (int i = 0; i < n; ++i) { c.appWrite(u16of(fmt("\rprogress %d%% ", i * 7))); if (choose(GEN, 2)) sleepFor(range(GEN, 1, 20)); }
        break; }
    case 23: if (titles) { note("title"); c.appSetTitle(text(range(GEN, 0, 60))); } break;
    }
}
void Workload::run(App &a, int ops) {
    for (int i = 0; i < ops; ++i) {
        op(a);
        if (choose(GEN, 4) == 3) sleepFor(range(GEN, 1, 40));
    }
}
} // namespace sim
