#include "term.h"
#include <string.h>
#include <stdlib.h>
namespace sim {

int charWidth(uint32_t c) {
    if ((c >= 0x1100 && c <= 0x115F) || (c >= 0x2E80 && c <= 0xA4CF) || (c >= 0xAC00 && c <= 0xD7A3) ||
        (c >= 0xF900 && c <= 0xFAFF) || (c >= 0xFF01 && c <= 0xFF60) || (c >= 0x1F300 && c <= 0x1FAFF) || (c >= 0x20000 && c <= 0x3FFFD)) return 2;
    return 1;
}
std::string Sgr::str() const {
    return fmt("fg%d/bg%d%s%s%s%s", fg, bg, bold ? " bold" : "", rev ? " reverse" : "", hid ? " hidden" : "", ul ? " underline" : "");
}
static std::string enc(uint32_t c) {
    std::string r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
std::string Term::lineText(int r) const {
    std::string s; size_t keep = 0;
    if (r < 0 || r >= (int)lines.size()) return s;
    for (auto &c : lines[r]) { if (c.w == 0) continue; s += enc(c.ch); if (c.ch != ' ') keep = s.size(); }
    s.resize(keep);
    return s;
}
uint64_t Term::hash() const {
    uint64_t h = mix(row - base, col * 2 + cursorVisible);
    for (size_t i = base; i < lines.size(); ++i) for (auto &c : lines[i]) h = mix(h, c.ch * 7 + c.a.fg * 31 + c.a.bg);
    return h;
}
void Term::bad(const std::string &why) {
    if (!error.empty()) return;
    size_t k = raw.size() > 60 ? raw.size() - 60 : 0;
    error = why + " after ..." + hexdump(raw.substr(k), 200);
}
void Term::put(uint32_t c) {
    int w = charWidth(c);
    if (col + w > W && checkWidth) {
        bad(fmt("text runs past column %d of the terminal", W));
    }
    TLine &l = at(row);
    while ((int)l.size() < col + w) l.push_back(TCell());
    // overwriting half of a wide character blanks the other half
    if (l[col].w == 0 && col > 0) { l[col - 1] = TCell(); }
    if (l[col].w == 2 && col + 1 < (int)l.size()) l[col + 1] = TCell();
    if (w == 2 && l[col + 1].w == 2 && col + 2 < (int)l.size()) l[col + 2] = TCell();
    l[col].ch = c; l[col].a = cur; l[col].w = (uint8_t)w;
    if (w == 2) { l[col + 1].ch = c; l[col + 1].a = cur; l[col + 1].w = 0; }
    col += w;
}
void Term::csi() {
    // buf holds everything after ESC [ including the final byte
    std::string s = buf;
    char fin = s.back(); s.pop_back();
    auto num = [&](int def) { return s.empty() ? def : atoi(s.c_str()); };
    if (plain && !(plainColor && fin == 'm')) { bad("escape sequence in plain mode: CSI " + s + fin); return; }
    for (char c : s) if (!(c >= '0' && c <= '9') && c != ';' && c != '?') { bad("unexpected byte in CSI sequence: " + hexdump(buf)); return; }
    switch (fin) {
    case 'm': {
        size_t i = 0; if (s.empty()) s = "0";
        while (i <= s.size()) {
            size_t j = s.find(';', i); if (j == std::string::npos) j = s.size();
            std::string part = s.substr(i, j - i);
            int n = atoi(part.c_str()); i = j + 1;
            if (n == 0) cur = Sgr();
            else if (n == 1) cur.bold = true; else if (n == 4) cur.ul = true; else if (n == 7) cur.rev = true; else if (n == 8) cur.hid = true;
            else if (n >= 30 && n <= 37) cur.fg = n - 30; else if (n >= 90 && n <= 97) cur.fg = n - 90 + 8;
            else if (n >= 40 && n <= 47) cur.bg = n - 40; else if (n >= 100 && n <= 107) cur.bg = n - 100 + 8;
            else { bad("unknown SGR parameter in CSI " + buf); return; }
        }
        return;
    }
    case 'K': {
        if (s != "0" && s != "") { bad("unknown erase CSI " + buf); return; }
        TLine &l = at(row);
        if (col > 0 && col < (int)l.size() && l[col].w == 0) l[col - 1] = TCell();
        // past the last column the cursor is still on the last cell: erasing takes that cell with it
        if (checkWidth && col >= W && W > 0) { int k = W - 1; if (k > 0 && k < (int)l.size() && l[k].w == 0) --k; if ((int)l.size() > k) l.resize(k); return; }
        if (keepHidden && (int)l.size() > W) { for (int k = col; k < W; ++k) { l[k] = TCell(); l[k].a = cur; } return; }
        if ((int)l.size() > col) l.resize(col);
        // the rest of the line shows the current rendition (erase colour)
        if (cur != Sgr()) { while ((int)l.size() < col) l.push_back(TCell()); while ((int)l.size() < W) { TCell c; c.a = cur; l.push_back(c); } }
        return;
    }
    case 'G': { int n = num(1); if (n < 1) { bad("bad column CSI " + buf); return; } col = n - 1; if (checkWidth && col >= W) bad(fmt("cursor column %d beyond the width %d", n, W)); return; }
    case 'A': {
        int n = num(1); if (n < 1) { bad("bad cursor-up CSI " + buf); return; }
        cursorUps++;
        int top = base;
        if (clamp) top = std::max(base, (int)lines.size() - H);
        if (row - n < top) { clampsHit++; row = top; } else row -= n;
        return;
    }
    case 'H':
        if (s != "1;1") { bad("unknown position CSI " + buf); return; }
        base = clamp ? std::max(base, (int)lines.size() - H) : base; row = base; col = 0; return;
    case 'J':
        if (s != "2") { bad("unknown clear CSI " + buf); return; }
        // The cleared screen becomes a fresh region; what was there counts as history.
        clears++;
        base = (int)lines.size(); row = base; col = 0; clearAt.push_back(base); at(base);
        return;
    case 'n': if (s != "6") { bad("unknown report CSI " + buf); return; } dsrQueries++; if (onDsr) onDsr(); return;
    case 'h': case 'l': {
        bool on = fin == 'h';
        if (s.empty() || s[0] != '?') { bad("unknown mode CSI " + buf); return; }
        int n = atoi(s.c_str() + 1);
        static const int modes[6] = {1000, 1002, 1003, 1015, 1006, 1005};
        if (n == 25) { cursorVisible = on; return; }
        for (int i = 0; i < 6; ++i) if (modes[i] == n) {
            if (n == 1003) { if (on) mouseOn++; else mouseOff++; }
            mouse[i] = on; return;
        }
        bad("unknown mode CSI " + buf); return;
    }
    }
    bad("unknown CSI sequence " + hexdump(buf));
}
void Term::feed(const std::string &s) {
    bytes += s.size();
    if (!s.empty()) lastByteTime = g_now;
    if (lines.empty()) at(0);
    for (unsigned char c : s) {
        if (raw.size() > 4000) raw.erase(0, 2000);
        raw += (char)c;
        if (plain && sawCr && c != '\n') bad("carriage return without line feed in plain mode");
        if (need) {
            if ((c & 0xC0) != 0x80) { bad("truncated UTF-8 sequence"); need = 0; }
            else {
                cp = cp << 6 | (c & 63);
                if (--need == 0) {
                    if (cp < minCp || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) bad("invalid UTF-8 scalar value");
                    else if (st == Osc) buf += enc(cp);
                    else if (st != Ground) bad("non-ASCII byte inside an escape sequence");
                    else if (cp >= 0x80 && cp < 0xA0) bad(fmt("C1 control U+%04X in the output", cp));
                    else put(cp);
                }
                continue;
            }
        }
        if (c >= 0x80) {
            if (c >= 0xC2 && c < 0xE0) { cp = c & 0x1F; need = 1; minCp = 0x80; }
            else if (c >= 0xE0 && c < 0xF0) { cp = c & 0xF; need = 2; minCp = 0x800; }
            else if (c >= 0xF0 && c < 0xF5) { cp = c & 7; need = 3; minCp = 0x10000; }
            else bad("invalid UTF-8 byte");
            sawCr = false;
            continue;
        }
        switch (st) {
        case Ground:
            if (c == 0x1b) { st = Esc; if (plain && !plainColor) bad("escape character in plain mode"); }
            else if (c == '\r') col = 0;
            else if (c == '\n') { if (!sawCr) bad("line feed without carriage return"); row++; at(row); }
            else if (c < 0x20 || c == 0x7f) bad(fmt("control character 0x%02x in the output", c));
            else put(c);
            break;
        case Esc:
            if (c == '[') { st = Csi; buf.clear(); }
            else if (c == ']') { st = Osc; buf.clear(); if (plain) bad("OSC in plain mode"); }
            else { bad(fmt("unknown escape ESC 0x%02x", c)); st = Ground; }
            break;
        case Csi:
            if (c < 0x20 || c == 0x7f) { bad("control character inside a CSI sequence"); st = Ground; break; }
            buf += (char)c;
            if (c >= 0x40) { st = Ground; csi(); }
            else if (buf.size() > 64) { bad("overlong CSI sequence"); st = Ground; }
            break;
        case Osc:
            if (c == 7) {
                st = Ground;
                if (buf.compare(0, 2, "0;") != 0) bad("unknown OSC " + hexdump(buf));
                else { titles.push_back(buf.substr(2)); if (onTitle) onTitle(titles.back()); }
            } else if (c < 0x20 || c == 0x7f) { bad(fmt("control character 0x%02x inside the title", c)); st = Ground; }
            else buf += (char)c;
            break;
        }
        sawCr = c == '\r' && st == Ground;
    }
}
} // namespace sim
