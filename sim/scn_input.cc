// C07 text, C08 lone escape, C09 key sequences, C10 Ctrl-C, C11 mouse, C30
// position query handshake.  All scenarios share one rig: a terminal user
// sends tokens whose meaning is known, a wire fragments them, and the console
// input queue must show exactly that meaning.
#include "harness.h"
#include "workload.h"
#include <winpty_constants.h>
#include <string.h>
using namespace sim;
extern "C" SHORT WINAPI VkKeyScanW(WCHAR ch);

namespace {
const DWORD S_RALT = 1, S_LALT = 2, S_LCTRL = 8, S_SHIFT = 0x10, S_ENH = 0x100;

struct Item {
    enum Kind { Key, Mouse, Ctrl, Any, Mixed } kind = Key;
    bool down = true; WORD vk = 0; uint16_t ch = 0; DWORD st = 0;
    COORD pos = {0, 0}; DWORD buttons = 0, flags = 0;
    int64_t t = 0;
    bool operator==(const Item &o) const {
        if (kind != o.kind) return false;
        if (kind == Key) return down == o.down && vk == o.vk && ch == o.ch && st == o.st;
        if (kind == Mouse) return pos.X == o.pos.X && pos.Y == o.pos.Y && buttons == o.buttons && flags == o.flags && st == o.st;
        return true;
    }
    std::string str() const {
        if (kind == Key) return fmt("key-%s vk=0x%02X ch=U+%04X state=0x%X", down ? "down" : "up", vk, ch, (unsigned)st);
        if (kind == Mouse) return fmt("mouse at %d,%d buttons=0x%X flags=0x%X state=0x%X", pos.X, pos.Y, (unsigned)buttons, (unsigned)flags, (unsigned)st);
        if (kind == Ctrl) return "ctrl-c event";
        return kind == Any ? "anything" : "ctrl-c event or key";
    }
};
struct Press { WORD vk; DWORD st; uint32_t dn, up; uint32_t vt; DWORD vtst; };

std::string utf8Of(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
std::u16string utf16Of(uint32_t c) {
    std::u16string s;
    if (c < 0x10000) s += (char16_t)c;
    else { c -= 0x10000; s += (char16_t)(0xD800 | c >> 10); s += (char16_t)(0xDC00 | (c & 0x3ff)); }
    return s;
}

// What a character typed on a US keyboard looks like to a console program.
Press pressOf(uint32_t c, bool alt) {
    if (c == 0x7f) return Press{VK_BACK, alt ? S_LALT : 0u, 8, alt ? 0u : 8u, 8, alt ? S_LALT : 0u};
    Press p{0, 0, c, c, c, 0};
    if (c == 3 && !alt) { p.vk = 'C'; p.st = S_LCTRL; p.vtst = S_LCTRL; return p; }
    SHORT k = c > 0xffff ? -1 : VkKeyScanW((WCHAR)c);
    if (k != -1) {
        p.vk = k & 0xff;
        if (k & 0x100) p.st |= S_SHIFT;
        if (k & 0x200) p.st |= S_LCTRL;
        if (k & 0x400) p.st |= S_RALT;
        if (alt && (p.st & S_LCTRL)) p.dn = p.up = 0;
    }
    if (alt) { p.up = 0; p.st |= S_LALT; p.vtst = S_LALT; }
    return p;
}
// A named key.
bool enhanced(WORD vk) { return (vk >= VK_PRIOR && vk <= VK_DOWN) || vk == VK_INSERT || vk == VK_DELETE; }
Press keyPress(WORD vk, uint32_t c, DWORD mods) {
    DWORD m = mods | (enhanced(vk) ? S_ENH : 0);
    if (mods & S_LCTRL) { if (c == '+' || c == '-' || c == '*' || c == '/') c = 0; else if (c == '\r') c = '\n'; }
    uint32_t dn = (mods & S_LCTRL) && (mods & S_LALT) ? 0 : c;
    return Press{vk, m, dn, (mods & S_LALT) ? 0 : dn, c, m};
}
// What the same key looks like in "virtual terminal input" mode.
std::string vtText(const Press &p) {
    DWORD m = p.vtst; int n = 1 + ((m & S_SHIFT) ? 1 : 0) + ((m & S_LALT) ? 2 : 0) + ((m & S_LCTRL) ? 4 : 0);
    static const struct { WORD vk; const char *num; char letter; } t[] = {
        {VK_UP, "", 'A'}, {VK_DOWN, "", 'B'}, {VK_RIGHT, "", 'C'}, {VK_LEFT, "", 'D'}, {VK_CLEAR, "", 'E'}, {VK_HOME, "", 'H'}, {VK_END, "", 'F'},
        {VK_F1, "11", 0}, {VK_F2, "12", 0}, {VK_F3, "13", 0}, {VK_F4, "14", 0}, {VK_F5, "15", 0}, {VK_F6, "17", 0}, {VK_F7, "18", 0}, {VK_F8, "19", 0},
        {VK_F9, "20", 0}, {VK_F10, "21", 0}, {VK_F11, "23", 0}, {VK_F12, "24", 0}, {VK_INSERT, "2", 0}, {VK_DELETE, "3", 0}, {VK_PRIOR, "5", 0}, {VK_NEXT, "6", 0}};
    for (auto &k : t) if (k.vk == p.vk) {
        std::string s = "\x1b[";
        if (k.letter) { if (n > 1) s += "1;" + std::to_string(n); s += k.letter; }
        else { s += k.num; if (n > 1) s += ";" + std::to_string(n); s += '~'; }
        return s;
    }
    if (p.vk == VK_BACK && p.vt == 8) return (m & S_LALT) ? "\x1b\x7f" : "\x7f";
    if (p.vk == VK_TAB && (m & S_SHIFT)) return "\x1b[Z";
    if (!p.vt) return "";
    return ((m & S_LALT) ? "\x1b" : "") + utf8Of(p.vt);
}

struct Tok {
    std::string bytes;
    std::vector<Item> exp;
    std::vector<Press> presses;
    bool hold = false;          // ambiguous: needs a reply or the timeout
    std::string name;
};

struct Rig {
    Harness &h; Session &s; Reader *r;
    std::vector<Item> exp, got;
    size_t ei = 0, gi = 0;                 // compared so far
    size_t recPos = 0, ctrlPos = 0;
    DWORD held = 0; bool heldR = false;
    bool vtMode = false, mouseWanted = false;
    // wire
    std::string wire; ActorPipe in; bool stop = false, busy = false;
    int maxFrag = 4096, gapPct = 0, gapMax = 0;
    int64_t lastWrite = 0;
    uint64_t written = 0, queued = 0;
    // replies
    int replyMode = 0;                     // 0 prompt, 1 delayed, 2 late, 3 never, 4 some lost
    int replies = 0, queries = 0; int replyDelay = 0;
    int64_t lastReplyQueuedAt = -1; uint64_t lastReplyEnd = 0; int64_t lastReplyAt = -1;
    int pendingReplies = 0;
    size_t startRec = 0;
    std::string trail;
    Rig(Harness &hh, Session &ss, Reader *rr) : h(hh), s(ss), r(rr) {}

    void begin() {
        recPos = startRec = s.con->allInput.size(); ctrlPos = s.con->ctrlEvents.size();
        spawnThread(h.client.get(), "wire", [this] {
            if (!in.open(h.client.get(), s.conin, g_now + 60000)) violate("conin-open", "the input pipe could not be opened");
            for (;;) {
                blockUntil("wire-idle", [this] { return stop || !wire.empty(); });
                if (wire.empty()) break;
                busy = true;
                size_t n = wire.size();
                if (maxFrag < 4096) n = std::min(n, (size_t)1 + choose(SCHED, maxFrag));
                std::string f = wire.substr(0, n); wire.erase(0, n);
                if (n < wire.size() + n) countFault(F_IO_FRAGMENT);
                logf("terminal -> %s", hexdump(f, 300).c_str());
                // (noted first: this thread may stall right after the agent has the data)
                written += n; lastWrite = g_now;
                if (lastReplyEnd && written >= lastReplyEnd && lastReplyAt < lastReplyQueuedAt) lastReplyAt = g_now;
                if (!in.write(f, g_now + 60000)) violate("conin-stuck", "input pipe stopped accepting data");
                if (!wire.empty() && gapPct && chance(SCHED, gapPct, 100)) sleepFor(1 + choose(SCHED, gapMax));
                busy = false;
            }
            in.close();
        });
        r->term.onDsr = [this] {
            queries++; pendingReplies++;
            if (pendingReplies > 1 + lostReplies) violate("dsr-flood", fmt("position query sent while %d are unanswered", pendingReplies - 1 - lostReplies));
            int d = 0;
            switch (replyMode) {
            case 0: d = choose(SCHED, 3); break;
            case 1: d = choose(FAULT, 300); countFault(F_IO_DELAY); break;
            case 2: d = 1200 + choose(FAULT, 1500); countFault(F_IO_DELAY); break;
            case 3: countFault(F_SLOW_READER); return;
            }
            int row = 1 + choose(SCHED, 3) * (1 + choose(SCHED, 30)), col = 1 + choose(SCHED, 2) * choose(SCHED, 150) + choose(SCHED, 9);
            if (chance(SCHED, 1, 8)) { row = range(SCHED, 1, 2500); col = range(SCHED, 1, 3000); }     // a huge terminal
            std::string rep = fmt("\x1b[%d;%dR", row, col);
            at(g_now + d, [this, rep] { if (stop) return; sendRaw(rep); replies++; pendingReplies--; lastReplyQueuedAt = g_now; lastReplyEnd = queued; stat("dsr-replies"); });
        };
    }
    int lostReplies = 0;
    void sendRaw(const std::string &b) { wire += b; queued += b.size(); }
    void expectPress(const Press &p) {
        if (vtMode) {
            WORD k = p.vk;
            if ((k == VK_UP || k == VK_DOWN || k == VK_LEFT || k == VK_RIGHT || k == VK_HOME || k == VK_END) && !(p.st & 0x1f)) {
                for (int d = 1; d >= 0; --d) { Item i; i.down = d; i.vk = k; i.st = S_ENH; if (d) exp.push_back(i); }
                return;
            }
            std::string t = vtText(p);
            if (p.vt > 0x7f) {
                if (p.vtst & S_LALT) { Item i; i.ch = 27; exp.push_back(i); }
                for (char16_t c : utf16Of(p.vt)) { Item i; i.ch = c; exp.push_back(i); }
            } else for (unsigned char c : t) { Item i; i.ch = c; exp.push_back(i); }
            return;
        }
        for (int d = 1; d >= 0; --d)
            for (char16_t c : utf16Of(d ? p.dn : p.up)) { Item i; i.down = d; i.vk = p.vk; i.ch = c; i.st = p.st; exp.push_back(i); }
    }
    void send(const Tok &t) {
        for (auto &p : t.presses) expectPress(p);
        for (auto &i : t.exp) exp.push_back(i);
        if (trail.size() < 3000) trail += (trail.empty() ? "" : " ") + hexdump(t.bytes, 40);
        sendRaw(t.bytes);
    }
    // Reads new console records and compares with the expectation.
    void poll() {
        auto &ai = s.con->allInput; auto &ce = s.con->ctrlEvents;
        while (recPos < ai.size() || ctrlPos < ce.size()) {
            if (ctrlPos < ce.size() && ce[ctrlPos].inputPos <= recPos) {
                Item i; i.kind = Item::Ctrl; i.t = ce[ctrlPos].when; got.push_back(i); ctrlPos++;
                continue;
            }
            if (recPos >= ai.size()) break;
            const INPUT_RECORD &r0 = ai[recPos]; Item i; i.t = s.con->allInputTime[recPos]; recPos++;
            if (r0.EventType == KEY_EVENT) {
                auto &k = r0.Event.KeyEvent;
                i.down = k.bKeyDown; i.vk = k.wVirtualKeyCode; i.ch = k.uChar.UnicodeChar; i.st = k.dwControlKeyState;
                if (k.wRepeatCount != 1) violate("bad-record", "repeat count is not 1");
                DWORD bit = i.vk == VK_CONTROL ? S_LCTRL : i.vk == VK_SHIFT ? S_SHIFT : i.vk == VK_MENU ? ((i.st & S_ENH) ? S_RALT : S_LALT) : 0;
                if (bit) {
                    if (i.ch) violate("bad-record", "modifier key with a character: " + i.str());
                    if (i.down) { if (held & bit) violate("modifier-stuck", "modifier pressed twice: " + i.str()); held |= bit; }
                    else { if (!(held & bit)) violate("modifier-stuck", "modifier released without a press: " + i.str()); held &= ~bit; }
                    if ((i.st & 0x1f) != held) violate("bad-record", fmt("modifier state 0x%X while holding 0x%X", (unsigned)i.st, (unsigned)held));
                    continue;
                }
                if (vtMode && !i.down) continue;
                if (!vtMode && (i.st & 0x1f) != held) violate("bad-record", fmt("%s while the held modifiers are 0x%X", i.str().c_str(), (unsigned)held));
            } else if (r0.EventType == MOUSE_EVENT) {
                auto &m = r0.Event.MouseEvent; i.kind = Item::Mouse;
                i.pos = m.dwMousePosition; i.buttons = m.dwButtonState; i.flags = m.dwEventFlags; i.st = m.dwControlKeyState;
            } else continue;       // window size events
            got.push_back(i);
        }
        while (gi < got.size()) {
            if (ei >= exp.size()) violate("input-extra", "the program received " + got[gi].str() + " that nobody typed; " + context());
            if (exp[ei].kind == Item::Any) {
                if (ei + 1 >= exp.size()) { gi++; continue; }
                if (got[gi] == exp[ei + 1]) { ei += 2; gi++; continue; }
                gi++; continue;
            }
            if (exp[ei].kind == Item::Mixed) {
                if (got[gi].kind == Item::Ctrl) { ei++; gi++; continue; }
                if (got[gi].kind == Item::Key && got[gi].vk == 'C' && got[gi].down) { gi++; continue; }
                if (got[gi].kind == Item::Key && got[gi].vk == 'C' && !got[gi].down) { gi++; ei++; continue; }
            }
            if (!(got[gi] == exp[ei])) violate("input-wrong", "the program received " + got[gi].str() + " instead of " + exp[ei].str() + "; " + context());
            ei++; gi++;
        }
    }
    std::string context() {
        std::string a = "received:";
        for (size_t i = gi > 4 ? gi - 4 : 0; i < got.size() && i < gi + 4; ++i) a += " [" + got[i].str() + "]";
        a += " expected:";
        for (size_t i = ei > 4 ? ei - 4 : 0; i < exp.size() && i < ei + 4; ++i) a += " [" + exp[i].str() + "]";
        return a + " typed: " + trail.substr(trail.size() > 300 ? trail.size() - 300 : 0);
    }
    bool delivered() { return ei >= exp.size() || (ei + 1 == exp.size() && exp[ei].kind == Item::Any); }
    bool wireEmpty() { return wire.empty() && !busy; }
    // Everything expected has arrived.
    void settle(int64_t ms, const char *cls) {
        pollFor([&] { poll(); return wireEmpty(); }, 3600000, 2);
        bool ok = pollFor([&] { poll(); return delivered(); }, ms, 2);
        if (!ok) violate(cls, fmt("after %d ms the program still misses %s; ", (int)ms, exp[ei].str().c_str()) + context());
        stateSig(mix(hashBytes(trail.data(), std::min<size_t>(trail.size(), 60)), got.size()));
    }
    void finish() {
        sleepFor(1400); poll();
        if (held) violate("modifier-stuck", fmt("modifiers 0x%X are still held at the end", (unsigned)held));
        if (!delivered()) violate("input-lost", "the program never received " + exp[ei].str() + "; " + context());
    }
};

// ------------------------------------------------------------- token generators
uint32_t randomChar() {
    switch (choose(GEN, 9)) {
    case 0: return 'a' + choose(GEN, 26);
    case 1: return ' ' + choose(GEN, 95);
    case 2: return 0x80 + choose(GEN, 0x780);
    case 3: return 0x800 + choose(GEN, 0xD000);
    case 4: return 0x10000 + choose(GEN, 0x100000);
    case 5: { static const uint32_t e[] = {0x7f, 0x80, 0x7ff, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x20AC, 0xA2}; return e[choose(GEN, 12)]; }
    case 6: { static const uint32_t e[] = {'\r', '\t', 8, '\n', 1, 2, 4, 0, 26, 28, 29, 30, 31, 0x7f, 5, 11}; return e[choose(GEN, 16)]; }
    case 7: return 0xE000 + choose(GEN, 0x2000 - 2);
    default: return 'A' + choose(GEN, 26);
    }
}
Tok charTok(uint32_t c) { Tok t; t.bytes = utf8Of(c); t.presses.push_back(pressOf(c, false)); return t; }
Tok textTok(int n) {
    Tok t;
    for (int i = 0; i < n; ++i) { uint32_t c = randomChar(); t.bytes += utf8Of(c); t.presses.push_back(pressOf(c, false)); }
    return t;
}
Tok altTok() {
    for (;;) {
        uint32_t c = randomChar();
        if (c == 27 || c == '[' || c == 'O' || c == 0x20AC) continue;
        Tok t; t.bytes = "\x1b" + utf8Of(c); t.presses.push_back(pressOf(c, true)); return t;
    }
}
DWORD modBits(int mod) { DWORD m = 0; if ((mod - 1) & 1) m |= S_SHIFT; if ((mod - 1) & 2) m |= S_LALT; if ((mod - 1) & 4) m |= S_LCTRL; return m; }

// Key encodings by terminal family.  f: 1 bare, 2 "1;mod" form, 4 "mod" form.
struct Enc { char pre; char fin; int f; WORD vk; uint32_t c; DWORD st; bool alt; };
const Enc kLetters[] = {
    {'[', 'A', 7, VK_UP, 0, 0, true}, {'[', 'B', 7, VK_DOWN, 0, 0, true}, {'[', 'C', 7, VK_RIGHT, 0, 0, true}, {'[', 'D', 7, VK_LEFT, 0, 0, true},
    {'O', 'A', 1, VK_UP, 0, 0, true}, {'O', 'B', 1, VK_DOWN, 0, 0, true}, {'O', 'C', 1, VK_RIGHT, 0, 0, true}, {'O', 'D', 1, VK_LEFT, 0, 0, true},
    {'[', 'a', 1, VK_UP, 0, S_SHIFT, true}, {'[', 'b', 1, VK_DOWN, 0, S_SHIFT, true}, {'[', 'c', 1, VK_RIGHT, 0, S_SHIFT, true}, {'[', 'd', 1, VK_LEFT, 0, S_SHIFT, true},
    {'O', 'a', 1, VK_UP, 0, S_LCTRL, true}, {'O', 'b', 1, VK_DOWN, 0, S_LCTRL, true}, {'O', 'c', 1, VK_RIGHT, 0, S_LCTRL, true}, {'O', 'd', 1, VK_LEFT, 0, S_LCTRL, true},
    {'[', 'E', 3, VK_CLEAR, 0, 0, true}, {'[', 'G', 3, VK_CLEAR, 0, 0, true}, {'O', 'G', 1, VK_CLEAR, 0, 0, true},
    {'[', 'H', 7, VK_HOME, 0, 0, true}, {'[', 'F', 7, VK_END, 0, 0, true}, {'O', 'H', 1, VK_HOME, 0, 0, true}, {'O', 'F', 1, VK_END, 0, 0, true},
    {'[', 'P', 2, VK_F1, 0, 0, true}, {'[', 'Q', 2, VK_F2, 0, 0, true}, {'[', 'S', 2, VK_F4, 0, 0, true},
    {'O', 'P', 7, VK_F1, 0, 0, false}, {'O', 'Q', 7, VK_F2, 0, 0, false}, {'O', 'R', 7, VK_F3, 0, 0, false}, {'O', 'S', 7, VK_F4, 0, 0, false},
    {'O', 'M', 5, VK_RETURN, '\r', 0, true}, {'O', 'j', 5, VK_MULTIPLY, '*', 0, true}, {'O', 'k', 5, VK_ADD, '+', 0, true}, {'O', 'm', 5, VK_SUBTRACT, '-', 0, true},
    {'O', 'n', 5, VK_DELETE, 0, 0, true}, {'O', 'o', 5, VK_DIVIDE, '/', 0, true}, {'O', 'p', 5, VK_INSERT, 0, 0, true}, {'O', 'q', 5, VK_END, 0, 0, true},
    {'O', 'r', 5, VK_DOWN, 0, 0, true}, {'O', 's', 5, VK_NEXT, 0, 0, true}, {'O', 't', 5, VK_LEFT, 0, 0, true}, {'O', 'u', 5, VK_CLEAR, 0, 0, true},
    {'O', 'v', 5, VK_RIGHT, 0, 0, true}, {'O', 'w', 5, VK_HOME, 0, 0, true}, {'O', 'x', 5, VK_UP, 0, 0, true}, {'O', 'y', 5, VK_PRIOR, 0, 0, true},
    {'[', 'j', 3, VK_MULTIPLY, '*', 0, true}, {'[', 'k', 3, VK_ADD, '+', 0, true}, {'[', 'm', 3, VK_SUBTRACT, '-', 0, true}, {'[', 'M', 2, VK_RETURN, '\r', 0, true},
    {'[', 'n', 3, VK_DELETE, 0, 0, true}, {'[', 'o', 3, VK_DIVIDE, '/', 0, true}, {'[', 'p', 3, VK_INSERT, 0, 0, true}, {'[', 'q', 3, VK_END, 0, 0, true},
    {'[', 'r', 3, VK_DOWN, 0, 0, true}, {'[', 's', 3, VK_NEXT, 0, 0, true}, {'[', 't', 3, VK_LEFT, 0, 0, true}, {'[', 'u', 3, VK_CLEAR, 0, 0, true},
    {'[', 'v', 3, VK_RIGHT, 0, 0, true}, {'[', 'w', 3, VK_HOME, 0, 0, true}, {'[', 'x', 3, VK_UP, 0, 0, true}, {'[', 'y', 3, VK_PRIOR, 0, 0, true},
    {'[', 'Z', 1, VK_TAB, '\t', S_SHIFT, false},
};
struct NumEnc { int n; WORD vk; DWORD st; };
const NumEnc kNums[] = {{1, VK_HOME, 0}, {2, VK_INSERT, 0}, {3, VK_DELETE, 0}, {4, VK_END, 0}, {5, VK_PRIOR, 0}, {6, VK_NEXT, 0}, {7, VK_HOME, 0}, {8, VK_END, 0},
    {11, VK_F1, 0}, {12, VK_F2, 0}, {13, VK_F3, 0}, {14, VK_F4, 0}, {15, VK_F5, 0}, {17, VK_F6, 0}, {18, VK_F7, 0}, {19, VK_F8, 0}, {20, VK_F9, 0}, {21, VK_F10, 0},
    {23, VK_F11, 0}, {24, VK_F12, 0}, {25, VK_F3, S_SHIFT}, {26, VK_F4, S_SHIFT}, {28, VK_F5, S_SHIFT}, {29, VK_F6, S_SHIFT}, {31, VK_F7, S_SHIFT}, {32, VK_F8, S_SHIFT},
    {33, VK_F9, S_SHIFT}, {34, VK_F10, S_SHIFT}};
Tok keyTok() {
    Tok t; std::string alt; DWORD am = 0;
    int kind = choose(GEN, 5);
    if (kind <= 1) {
        const Enc &e = kLetters[choose(GEN, sizeof kLetters / sizeof *kLetters)];
        int form; do form = 1 << choose(GEN, 3); while (!(e.f & form));
        if (e.alt && choose(GEN, 4) == 3) { alt = "\x1b"; am = S_LALT; }
        int mod = 2 + choose(GEN, 7);
        std::string p = alt + "\x1b" + e.pre;
        DWORD st = e.st | am;
        if (form == 1) p += e.fin;
        else { p += form == 2 ? "1;" : ""; p += std::to_string(mod); p += e.fin; st |= modBits(mod); }
        t.bytes = p; t.presses.push_back(keyPress(e.vk, e.c, st));
    } else if (kind <= 3) {
        const NumEnc &e = kNums[choose(GEN, sizeof kNums / sizeof *kNums)];
        if (choose(GEN, 4) == 3) { alt = "\x1b"; am = S_LALT; }
        DWORD st = e.st | am; std::string p = alt + "\x1b[" + std::to_string(e.n);
        if (choose(GEN, 2)) { int mod = 2 + choose(GEN, 7); p += ";" + std::to_string(mod); st |= modBits(mod); }
        int suf = choose(GEN, 4); p += "~$^@"[suf];
        if (suf == 1 || suf == 3) st |= S_SHIFT;
        if (suf >= 2) st |= S_LCTRL;
        t.bytes = p; t.presses.push_back(keyPress(e.vk, 0, st));
    } else {
        int n = choose(GEN, 6); bool a = choose(GEN, 3) == 2;
        if (n < 5) { t.bytes = std::string(a ? "\x1b" : "") + "\x1b[[" + (char)('A' + n); t.presses.push_back(keyPress((WORD)(VK_F1 + n), 0, a ? S_LALT : 0)); }
        else { t.bytes = std::string(a ? "\x1b" : "") + "\x7f"; t.presses.push_back(pressOf(0x7f, a)); }
    }
    return t;
}
// Unknown sequence: literal noise until a unique marker.
Tok noiseTok(int serial) {
    Tok t; static const char alpha[] = "0123456789;?>=!#$ABCDEFHIJKLNPQSTUVWXYZabcdefghijklmnopqrstuvwxyz~@^'\"";
    bool osc = choose(GEN, 3) == 2;
    t.bytes = osc ? "\x1b]" : "\x1b[";
    int n = range(GEN, 1, 8);
    for (int i = 0; i < n; ++i) t.bytes += alpha[choose(GEN, sizeof alpha - 1)];
    if (t.bytes[2] == 'M') t.bytes[2] = '?';
    uint32_t m = 0xE100 + serial % 0x700;
    Item any; any.kind = Item::Any; t.exp.push_back(any);
    t.bytes += utf8Of(m);
    Item i; i.ch = (uint16_t)m; i.st = 0; t.exp.push_back(i);
    // the key-up of the marker
    Item j = i; j.down = false; t.exp.push_back(j);
    return t;
}
// Ambiguous input: what it means if nothing more comes.
Tok holdTok() {
    Tok t; t.hold = true;
    auto lit = [&](const char *p) { for (; *p; ++p) t.presses.push_back(pressOf((unsigned char)*p, false)); };
    switch (choose(GEN, 8)) {
    default: t.bytes = "\x1b"; lit("\x1b"); break;
    case 2: t.bytes = "\x1b["; t.presses.push_back(pressOf('[', true)); break;
    case 3: t.bytes = "\x1bO"; t.presses.push_back(pressOf('O', true)); break;
    case 4: t.bytes = "\x1b\x1b"; lit("\x1b\x1b"); break;
    case 5: t.bytes = "\x1b[M"; t.presses.push_back(keyPress(VK_RETURN, '\r', 0)); break;
    case 6: t.bytes = "\x1b[1;"; t.presses.push_back(pressOf('[', true)); lit("1;"); break;
    case 7: t.bytes = "\x1b\x1b["; lit("\x1b"); t.presses.push_back(pressOf('[', true)); break;
    }
    return t;
}

struct Common {
    Harness h; struct { bool quit = false; } st;
    std::unique_ptr<Rig> rig; Session s; Reader *r = nullptr; bool plain = false; bool bg = false;
    int level;
    explicit Common(int lvl) : level(lvl) {
        h.world(lvl); g_sched.maxTime = 1800000;
        bg = choose(GEN, 3) == 2;
        h.programs["app"] = [this](App &a) {
            if (bg) {
                Workload wl; wl.cls = false; wl.limit = 300;
                while (!st.quit) { wl.run(a, 3); sleepFor(20 + choose(SCHED, 60)); }
            } else waitFor("app-quit", [this] { return st.quit; }, -1);
        };
    }
    void open(int mouse = 1, bool conerr = false) {
        Harness::OpenOpts o; o.mouse = mouse; if (conerr) o.flags |= WINPTY_FLAG_CONERR;
        plain = choose(GEN, 5) == 4;
        if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        s = h.open(o);
        r = h.startReader(s.conout); r->term.plain = plain;
        if (conerr) { Reader *e = h.startReader(s.conerr); e->term.plain = plain; }
        h.spawn(s, {});
        waitFor("reader", [this] { return r->opened; }, 60000);
        rig.reset(new Rig(h, s, r));
        static const int frag[] = {4096, 1, 2, 5, 12};
        rig->maxFrag = frag[choose(GEN, 5)];
        static const int gp[] = {0, 0, 30, 100};
        rig->gapPct = gp[choose(GEN, 4)]; static const int gm[] = {5, 60, 600}; rig->gapMax = gm[choose(GEN, 3)];
        if (rig->gapPct && rig->gapMax == 600) rig->gapPct = 10;
        rig->replyMode = choose(GEN, 4);
        sleepFor(100 + choose(SCHED, 60));
    }
    int slack() { return 120 + 4 * (int)h.w.cfg.ioDelayMax + (g_sched.stallRate ? 400 : 0) + (bg ? 150 : 0); }
    void close() {
        rig->finish();
        rig->stop = true; st.quit = true;
        if (!r->term.error.empty()) violate("bad-output", r->term.error);
        h.checkBadHandles(s.agent, "bad-handle");
        h.closeSession(s);
    }
};
} // namespace

// C07
SCENARIO(text) {
    Common c(param);
    c.h.start([&] {
        c.open();
        c.rig->begin();
        if (choose(GEN, 4) == 3 && !c.bg) { c.s.con->inMode |= 0x200; sleepFor(150); c.rig->vtMode = true; }
        int toks = range(GEN, 1, 25);
        for (int i = 0; i < toks; ++i) {
            Tok t = choose(GEN, 6) == 5 ? altTok() : textTok(!i && !c.bg && choose(GEN, 8) == 7 ? range(GEN, 2000, 8000) : choose(GEN, 8) == 7 ? range(GEN, 100, 400) : range(GEN, 1, 12));
            if (t.bytes.size() > 2000) { c.rig->maxFrag = 4096; c.rig->gapPct = 0; stat("big-pastes"); }
            c.rig->send(t);
            if (choose(GEN, 3) == 2) sleepFor(choose(SCHED, 200));
            if (choose(GEN, 6) == 5) { static const int w[] = {80, 60, 100}; ErrP e = nullptr; if (!c.h.api.set_size(c.s.wp, w[choose(GEN, 3)], 20 + choose(GEN, 20), &e)) violate("resize-failed", fmt("winpty_set_size failed with %u", (unsigned)c.h.takeErr(e))); }
            c.rig->poll();
        }
        // the terminal may go away right after the last key
        if (choose(GEN, 3) == 2) { c.rig->stop = true; c.rig->replyMode = 3; stat("hang-ups"); }
        c.rig->settle(2500, "input-lost");
        nontrivial();
        c.close();
    });
}
RegCheck c07("C07", "every run compares the complete stream of console input records with the text that was typed", {{"text", 0, 700, 12000}, {"text", 1, 900, 20000}});

// C08: params 0 calm, 1 delays.
SCENARIO(esc) {
    Common c(param);
    c.h.start([&] {
        c.open();
        Rig &g = *c.rig;
        g.begin();
        if (choose(GEN, 5) == 4 && !c.bg) { c.s.con->inMode |= 0x200; sleepFor(150); g.vtMode = true; }
        int n = range(GEN, 1, 8);
        for (int i = 0; i < n; ++i) {
            if (choose(GEN, 2)) { g.send(choose(GEN, 2) ? keyTok() : textTok(range(GEN, 1, 5))); g.settle(2500, "input-lost"); }
            Tok t = holdTok();
            int kind = choose(GEN, 3);
            if (kind == 0 || t.bytes != "\x1b") {
                // nothing follows
                int q0 = g.queries; (void)q0;
                size_t g0 = g.gi;
                g.maxFrag = 4096;
                g.send(t);
                int64_t sent = g_now;
                pollFor([&] { return g.wireEmpty(); }, 3600000, 1);
                int64_t wrote = g.lastWrite;
                bool answered = !c.plain && g.replyMode <= 1;
                int64_t bound = answered ? (g.replyMode == 1 ? 300 : 3) + 2 * c.slack() : 1000 + 25 + c.slack();
                g.settle(bound + 5, "esc-late");
                if (g.gi <= g0) harnessError("esc token without items");
                int64_t t0 = g.got[g0].t;
                // not before the reply or the documented delay
                bool replied = g.lastReplyAt >= sent;
                if (!replied && t0 < wrote + 1000) violate("esc-early", fmt("%s was released %d ms after it was typed, although the terminal had not answered", hexdump(t.bytes).c_str(), (int)(t0 - wrote)));
                stat(replied ? "released-by-reply" : "released-by-timeout");
            } else {
                // the rest of a key sequence follows before the delay is over
                Tok k; do k = keyTok(); while (k.bytes.size() < 3 || k.bytes[0] != 27 || k.bytes[1] == 27 || k.bytes[1] == 0x7f);
                if (!c.plain && g.replyMode != 3) { // only terminals that answer late leave time
                    g.replyMode = 2;
                }
                int gap = choose(SCHED, 1000 - 2 * c.slack() > 20 ? 1000 - 2 * c.slack() : 20);
                size_t cut = 1 + choose(SCHED, (uint32_t)k.bytes.size() - 1);
                g.maxFrag = 4096;
                for (auto &p : k.presses) g.expectPress(p);
                // a reply to an earlier query must not fall into the gap
                pollFor([&] { return g.pendingReplies == 0 || g.replyMode == 3; }, 10000, 5);
                pollFor([&] { return g.wireEmpty(); }, 3600000, 1);
                g.trail += " " + hexdump(k.bytes) + fmt("(cut %d, gap %d)", (int)cut, gap);
                g.sendRaw(k.bytes.substr(0, cut));
                sleepFor(gap);
                g.poll();
                g.sendRaw(k.bytes.substr(cut));
                g.settle(600, "key-lost");
                stat("completed-in-time");
                // let the answer to the query of the first half arrive
                pollFor([&] { return g.pendingReplies == 0 || g.replyMode == 3; }, 10000, 5);
            }
            nontrivial();
            if (choose(GEN, 2)) sleepFor(choose(SCHED, 1500));
        }
        c.close();
    });
}
RegCheck c08("C08", "every run types ambiguous prefixes and measures in virtual time when and how they are released", {{"esc", 0, 500, 10000}, {"esc", 1, 700, 15000}});

// C09
SCENARIO(keys) {
    Common c(param);
    c.h.start([&] {
        c.open();
        Rig &g = *c.rig;
        g.begin();
        if (choose(GEN, 4) == 3 && !c.bg) { c.s.con->inMode |= 0x200; sleepFor(150); g.vtMode = true; }
        int n = range(GEN, 1, 40);
        for (int i = 0; i < n; ++i) {
            int k = choose(GEN, 10);
            Tok t = k < 6 ? keyTok() : k < 8 ? textTok(range(GEN, 1, 4)) : k == 8 || g.vtMode ? altTok() : noiseTok(i);
            if (k == 9 && !g.vtMode) { g.settle(3000, "key-lost"); }
            g.send(t);
            if (choose(GEN, 4) == 3) sleepFor(choose(SCHED, 100));
            g.poll();
        }
        g.settle(2500, "key-lost");
        nontrivial();
        c.close();
    });
}
RegCheck c09("C09", "every run sends key sequences of all supported encodings in random fragments and compares the console records", {{"keys", 0, 700, 15000}, {"keys", 1, 900, 20000}});

// C30: the handshake under every kind of terminal.
SCENARIO(dsr) {
    Common c(param);
    c.h.start([&] {
        c.open();
        Rig &g = *c.rig;
        g.begin();
        bool whole = choose(GEN, 3) == 2;
        if (whole) {
            // complete keys only, delivered in one piece: no query is needed
            g.maxFrag = 4096; g.gapPct = 0; c.h.w.cfg.fragPct = 0;
            int n = range(GEN, 1, 15);
            for (int i = 0; i < n; ++i) {
                Tok t; do t = choose(GEN, 2) ? keyTok() : choose(GEN, 2) ? altTok() : textTok(range(GEN, 1, 6)); while (t.bytes.size() > 60);
                g.send(t); g.settle(2500, "input-lost");
            }
            if (g.queries) violate("dsr-needless", fmt("%d position queries although every key arrived complete", g.queries));
            nontrivial();
            c.close();
            return;
        }
        int n = range(GEN, 2, 12);
        for (int i = 0; i < n; ++i) {
            switch (choose(GEN, 4)) {
            case 0: g.send(holdTok()); g.settle(1025 + c.slack() + 300 + 5, "esc-late"); break;
            case 1: g.send(choose(GEN, 2) ? keyTok() : altTok()); break;
            case 2: g.send(textTok(range(GEN, 1, 8))); break;
            case 3: {
                // a terminal using another character set: an invalid byte, then text
                static const char *bad[] = {"\xE9", "\xC3", "\xF0\x9F", "\xFF", "\x80", "\xE2\x82"};
                Tok t; t.bytes = bad[choose(GEN, 6)]; g.settle(3000, "input-lost");
                g.send(t);
                // let the query for the unfinished character be answered
                int64_t end = g_now + 1025 + c.slack() + 300;
                pollFor([&] { g.poll(); return g.wireEmpty() && g_now >= end; }, 5000, 5);
                stat("invalid-bytes");
                break;
            }
            }
            if (choose(GEN, 3) == 2) sleepFor(choose(SCHED, 300));
            g.poll();
        }
        g.settle(3000, "input-lost");
        // all answers are swallowed, however late
        pollFor([&] { g.poll(); return g.pendingReplies == 0 || g.replyMode == 3; }, 10000, 10);
        nontrivial();
        c.close();
    });
}
RegCheck c30("C30", "every run lets the terminal answer, delay or drop the position queries and compares what the program receives", {{"dsr", 0, 500, 10000}, {"dsr", 1, 800, 15000}});

// C10
SCENARIO(ctrlc) {
    Common c(param);
    int seen = 0, seen2 = 0; bool second = choose(GEN, 2); bool ready = false; Process *ap = nullptr;
    auto base = c.h.programs["app"];
    c.h.programs["app"] = [&, base](App &a) {
        ap = a.p;
        a.p->ctrlC = [&seen](int) { seen++; };
        if (second) c.h.consoleChild(a, "second", [&](App &b) { b.p->ctrlC = [&seen2](int) { seen2++; }; ready = true; waitFor("quit", [&] { return c.st.quit; }, -1); });
        else ready = true;
        base(a);
    };
    c.h.start([&] {
        if (choose(GEN, 2)) c.h.client->ignoreCtrlC = true;      // started by a shell that ignores Ctrl-C
        c.open();
        Rig &g = *c.rig;
        g.begin();
        waitFor("app", [&] { return ready; }, 60000);
        if (ap->ignoreCtrlC) violate("ctrl-ignored", "the program was started with Ctrl-C disabled, so an interrupt cannot reach it");
        int n = range(GEN, 1, 12), want = 0; bool raced = false;
        if (choose(GEN, 4) == 3) { raced = true;
            // the program changes the mode while keys arrive: each Ctrl-C counts exactly once either way
            for (int i = 0; i < n; ++i) {
                Tok t; t.bytes = "\x03"; Item x; x.kind = Item::Mixed; t.exp.push_back(x);
                g.send(t);
                if (choose(SCHED, 2)) { c.s.con->inMode ^= 1; ev("app-mode", c.s.con->inMode); }
                if (choose(SCHED, 2)) sleepFor(choose(SCHED, 20));
                if (choose(GEN, 2)) g.send(textTok(2));
                g.poll();
            }
            g.settle(2500, "ctrlc-lost");
        } else for (int i = 0; i < n; ++i) {
            if (choose(GEN, 3) == 2) { g.settle(2500, "ctrlc-lost"); c.s.con->inMode ^= 1; ev("app-mode", c.s.con->inMode); }
            bool proc = c.s.con->inMode & 1;
            int k = choose(GEN, 3);
            if (k == 0) {
                Tok t; t.bytes = "\x03";
                if (proc) { Item x; x.kind = Item::Ctrl; t.exp.push_back(x); want++; } else t.presses.push_back(pressOf(3, false));
                g.send(t);
            } else if (k == 1) g.send(choose(GEN, 2) ? textTok(range(GEN, 1, 6)) : keyTok());
            else {
                // in the middle of a paste
                bool big = choose(GEN, 6) == 5 && !c.bg;
                if (big) { g.maxFrag = 4096; g.gapPct = 0; stat("big-pastes"); }
                Tok t = textTok(big ? range(GEN, 1500, 6000) : 2); g.send(t);
                Tok u; u.bytes = "\x03";
                if (proc) { Item x; x.kind = Item::Ctrl; u.exp.push_back(x); want++; } else u.presses.push_back(pressOf(3, false));
                g.send(u); g.send(textTok(2));
            }
            if (choose(GEN, 3) == 2) sleepFor(choose(SCHED, 60));
            g.poll();
        }
        g.settle(2500, "ctrlc-lost");
        if (!raced && seen != want) violate("ctrlc-count", fmt("the program saw %d interrupts, %d were typed in processed mode", seen, want));
        if (second && seen2 != seen) violate("ctrlc-count", fmt("the second program saw %d interrupts, the first %d", seen2, seen));
        if (seen != (int)c.s.con->ctrlEvents.size()) violate("ctrlc-count", "interrupts were raised that the program did not see");
        if (c.s.agent->exited) violate("agent-died", "the agent was hit by the interrupt");
        nontrivial();
        c.close();
    });
}
RegCheck c10("C10", "every run types Ctrl-C in both console modes, within pastes and racing mode changes", {{"ctrlc", 0, 600, 10000}, {"ctrlc", 1, 700, 15000}});

// C11
SCENARIO(mouse) {
    Common c(param);
    bool busyScroll = choose(GEN, 3) == 2; bool scrolled = false;
    c.bg = false; bool conerr = choose(GEN, 5) == 4;
    auto base = c.h.programs["app"];
    c.h.programs["app"] = [&](App &a) {
        if (busyScroll) { Workload wl; wl.cls = false; for (int i = 0; i < 30; ++i) { a.con->appWrite(u"line\r\n"); wl.throttle(1); } }
        if (choose(GEN, 4) == 3) { a.con->appResizeBuffer(a.out()->W + range(GEN, 0, 30), a.out()->winH() + range(GEN, 0, 60)); a.con->appSetWindow(range(GEN, 0, 5), range(GEN, 0, 10), std::max(10, a.out()->winW() - 5), std::max(5, a.out()->winH() - 8)); }
        if (HandleEntry *e = conerr ? lookup(a.p, a.p->stdErr, false) : nullptr) for (int i = 0, n = range(GEN, 0, 60); i < n; ++i) a.con->appWriteTo(static_cast<ScreenBuf *>(e->obj.get()), u"error\r\n");
        scrolled = true;
        base(a);
    };
    c.h.start([&] {
        int mode = choose(GEN, 3);      // none, auto, force
        c.open(mode, conerr);
        Rig &g = *c.rig;
        DWORD m0 = c.s.con->inMode;
        bool qe = m0 & 0x40;
        if ((mode == 1) != qe) violate("quick-edit", fmt("mouse mode %d starts with quick edit %s", mode, qe ? "on" : "off"));
        g.begin();
        waitFor("app", [&] { return scrolled; }, 60000);
        g.gapPct = 0;                  // the double click interval is measured
        static const int btnBit[3] = {1, 4, 2};
        int held = 0, heldOrder = -1;             // terminal side
        struct { int btn = -1; int x = 0, y = 0; int64_t t = 0; } dc; bool pressed = false; int px = 0, py = 0;
        int rounds = range(GEN, 1, 5);
        for (int rd = 0; rd < rounds; ++rd) {
            // the program configures its console
            sleepFor(c.slack());          // reports in flight are judged by the old mode
            DWORD m = c.s.con->inMode & ~(0x10u | 0x40u | 0x80u);
            if (choose(GEN, 3)) m |= 0x10;
            if (choose(GEN, 3) == 2) m |= 0x40;
            if (choose(GEN, 4) != 3) m |= 0x80;
            c.s.con->inMode = m; ev("app-mode", m);
            sleepFor(80 + c.slack());
            bool mi = m & 0x10, quick = m & 0x40, ext = m & 0x80;
            bool wantTerm = !c.plain && (mode == 2 || (mode == 1 && mi && !quick && ext));
            auto termMouse = [&] { return c.r->term.mouse[0] && c.r->term.mouse[1] && c.r->term.mouse[2]; };
            auto termAny = [&] { return c.r->term.mouse[0] || c.r->term.mouse[1] || c.r->term.mouse[2]; };
            if (wantTerm ? !termMouse() : termAny()) violate("mouse-mode", fmt("policy %d, console mode 0x%X: the terminal's mouse reports are %s", mode, (unsigned)m, termAny() ? "on" : "off"));
            if (wantTerm && !c.r->term.mouse[4] && !c.r->term.mouse[3]) violate("mouse-mode", "no extended coordinate encoding requested");
            bool deliver = mi && !quick;
            int evs = range(GEN, 0, 14);
            for (int i = 0; i < evs; ++i) {
                auto &b = *c.s.con->active;
                SMALL_RECT w = b.win;
                int proto = choose(GEN, 3);         // 1006, 1015, default
                bool inWin = choose(GEN, 4) != 3;
                int ww = b.winW(), wh = b.winH();
                int x = inWin ? (int)choose(GEN, std::min(ww, 200)) : range(GEN, 0, 220), y = inWin ? (int)choose(GEN, std::min(wh, 200)) : range(GEN, 0, 220);
                if (choose(GEN, 3) == 2 && dc.btn >= 0 && (proto == 0 || (dc.x >= 0 && dc.y >= 0))) { x = dc.x; y = dc.y; }
                else if (choose(GEN, 4) == 3 && pressed && (proto == 0 || (px >= 0 && py >= 0))) { x = px; y = py; }
                if (proto == 0 && choose(GEN, 12) == 11) { x = -1 - (int)choose(GEN, 50); }
                if (proto == 0 && choose(GEN, 12) == 11) { y = -1 - (int)choose(GEN, 50); }
                int mods = choose(GEN, 8) * 4;
                DWORD st = ((mods & 4) ? S_SHIFT : 0) | ((mods & 8) ? S_LALT : 0) | ((mods & 16) ? S_LCTRL : 0);
                Item e; e.kind = Item::Mouse; e.st = st;
                e.pos.X = (SHORT)(w.Left + std::max(0, std::min(x, ww - 1))); e.pos.Y = (SHORT)(w.Top + std::max(0, std::min(y, wh - 1)));
                int kind = choose(GEN, 5); int flags = mods; bool rel = false; int64_t now = g_now;
                bool nothing = false, entered = false;
                if (kind == 4 && choose(GEN, 4) == 3) {   // a wheel that turns sideways: no console event
                    flags |= 0x42 | choose(GEN, 2); nothing = true;
                } else if (kind == 4) {      // wheel
                    int d = choose(GEN, 2); flags |= 0x40 | d; e.flags = MOUSE_WHEELED; e.buttons = (d ? 0xff880000u : 0x00780000u) | (DWORD)held;
                } else if (kind == 3) {   // motion
                    flags |= 0x20;
                    int in = (int)choose(GEN, 3);
                    if (choose(GEN, 8) == 7 && !(held & btnBit[in]) && (dc.x != x || dc.y != y)) {     // dragged into the terminal: a button pressed elsewhere
                        flags |= in; held |= btnBit[in]; heldOrder = in; dc.btn = -1; entered = true; stat("drags-from-outside");
                    } else if (held) { int bn = (held & 1) ? 0 : (held & 4) ? 1 : 2; flags |= bn; } else flags |= 3;
                    e.flags = MOUSE_MOVED; e.buttons = held;
                } else if (held && (kind == 2 || choose(GEN, 2))) {   // release
                    int bn = heldOrder >= 0 && (held & btnBit[heldOrder]) && choose(GEN, 3) != 2 ? heldOrder : (held & 1) ? 0 : (held & 4) ? 1 : 2;
                    if (proto == 0) { rel = true; flags |= bn; held &= ~btnBit[bn]; if (dc.btn != bn) dc.btn = -1; }
                    else { flags |= 3; held = 0; }
                    e.buttons = held; heldOrder = -1;
                } else {              // press
                    int bn = choose(GEN, 3);
                    if (held & btnBit[bn]) continue;
                    bool repeat = dc.btn == bn && dc.x == x && dc.y == y;
                    if (repeat) {     // decide about the interval clearly
                        int gap = choose(GEN, 2) ? 700 + 2 * c.slack() : 0;
                        if (gap) sleepFor(std::max<int64_t>(0, dc.t + gap - g_now));
                        now = g_now;
                        int64_t el = now - dc.t;
                        if (el < 700 + 2 * c.slack() && el + c.slack() > 450) { sleepFor(700 + 2 * c.slack() - el); now = g_now; el = now - dc.t; }
                        if (el < 500) { e.flags = DOUBLE_CLICK; dc.btn = -1; stat("double-clicks"); }
                        else { dc.t = now; }
                    } else { dc.btn = bn; dc.x = x; dc.y = y; dc.t = now; }
                    held |= btnBit[bn]; heldOrder = bn; flags |= bn; pressed = true; px = x; py = y;
                    e.buttons = held;
                }
                Tok t;
                if (proto == 0) t.bytes = fmt("\x1b[<%d;%d;%d%c", flags, x + 1, y + 1, rel ? 'm' : 'M');
                else if (proto == 1) t.bytes = fmt("\x1b[%d;%d;%dM", flags + 32, x + 1, y + 1);
                else { t.bytes = "\x1b[M"; t.bytes += (char)(flags + 32); t.bytes += (char)(x + 33); t.bytes += (char)(y + 33); }
                if (deliver && !nothing) t.exp.push_back(e);
                g.send(t);
                if (choose(GEN, 4) == 3) g.send(choose(GEN, 2) ? textTok(2) : keyTok());
                g.settle(2500, "mouse-lost");
                if (entered) sleepFor(700 + 2 * c.slack());      // no double click with what follows
                if (!deliver) stat("ignored-reports");
                else stat("mouse-events");
            }
            nontrivial();
            (void)evs;
        }
        if (choose(GEN, 2)) {
            // the program ends by itself: the terminal is not left reporting the mouse
            g.finish(); c.st.quit = true; g.replyMode = 3;
            if (!waitFor("eof", [&] { return c.r->eof; }, 60000)) violate("no-eof", "the output stream did not end after the program");
            for (bool b : {c.r->term.mouse[0], c.r->term.mouse[1], c.r->term.mouse[2]}) if (b) violate("mouse-left-on", "the output ended with the terminal's mouse reports still on");
            stat("program-ended");
        }
        c.close();
        waitFor("agent-exit", [&] { return c.s.agent->exited; }, 60000);
        waitFor("eof", [&] { return c.r->stopped; }, 60000);
    });
}
RegCheck c11("C11", "every run changes console modes and sends mouse reports in all encodings, comparing each console mouse event", {{"mouse", 0, 500, 10000}, {"mouse", 1, 700, 15000}});
