// Model of a Windows console (conhost): screen buffers, window, cursor, input
// queue, selection freeze, title, attached processes.
#pragma once
#include "kernel.h"

namespace sim {

struct ScreenBuf : KObject {
    Console *con = nullptr;
    int W = 80, H = 25;
    int base = 0;                      // ring index of row 0
    std::vector<CHAR_INFO> cells;
    SMALL_RECT win = {0, 0, 79, 24};
    COORD cur = {0, 0};
    COORD markSaved = {0, 0}; bool markActive = false;
    WORD attr = 7;
    CONSOLE_CURSOR_INFO ci = {25, TRUE};
    DWORD mode = 3;                    // processed | wrap
    int64_t scrolled = 0;              // lines pushed out of the top
    int64_t clearedTo = 0;             // absolute line up to which the agent blanked the scrollback
    uint64_t gen = 0;                  // bumped on every visible change
    ScreenBuf() : KObject(O_SCREEN) {}
    CHAR_INFO *row(int y) { int r = base + y; if (r >= H) r -= H; return &cells[(size_t)r * W]; }
    void init(int w, int h, WORD a);
    void fillRow(int y, WORD a);
    int winW() const { return win.Right - win.Left + 1; }
    int winH() const { return win.Bottom - win.Top + 1; }
    void scrollUp();                   // whole buffer by one line
    void newline();
    void splitWide(int x, int y);
    void putChar(char16_t ch);
    void putWide(char16_t ch);         // full width
    void ensureCursorVisible();
    bool resize(int w, int h, std::string &why);
    bool setWindow(SMALL_RECT r, int maxX, int maxY);
};
typedef std::shared_ptr<ScreenBuf> ScreenP;

struct ConInObj : KObject { Console *con; explicit ConInObj(Console *c) : KObject(O_CONIN), con(c) {} bool signaled() override; };

struct CtrlEvent { int64_t when; size_t inputPos; DWORD type; };

struct Console {
    int id = 0;
    ScreenP primary, active;
    std::shared_ptr<ConInObj> inObj;
    std::deque<INPUT_RECORD> input;
    std::vector<INPUT_RECORD> allInput;    // every record ever written
    std::vector<int64_t> allInputTime;
    DWORD inMode = 0x1f7;
    ustr title;
    bool frozen = false; bool frozenByMark = false;
    int64_t frozenSince = 0, maxFrozen = 0;
    std::vector<Process *> attached;       // oldest first
    std::vector<CtrlEvent> ctrlEvents;
    std::vector<size_t> ctrlInputMarks;
    bool closing = false;
    HWND hwnd = nullptr;
    std::shared_ptr<Desktop> desktop;
    int cp = 437;
    ustr fontFace; int fontSize = 12;
    int largestX = 300, largestY = 120;
    int minBufWidth = 1;
    int64_t titleChanges = 0;
    size_t sizeEvents = 0, hwndKeys = 0;
    int64_t lastAgentTouch = 0;

    std::function<void()> onAttach;        // the set of attached processes changed
    void pushInput(const INPUT_RECORD &r);
    void attach(Process *p);
    void detach(Process *p);
    void freeze(bool mark);
    void unfreeze();
    void close();
    void ctrlC(DWORD type);
    // --- application-side helpers (block while the console is frozen)
    ScreenBuf *target = nullptr;           // buffer the helpers below act on (null: the active one)
    ScreenBuf *tgt() { return target ? target : active.get(); }
    void waitThaw();
    void appWrite(const ustr &s);
    void appWriteTo(ScreenBuf *b, const ustr &s);
    void appWriteWide(const ustr &s);      // full-width chars
    void appSetCursor(int x, int y);
    void appSetAttr(WORD a);
    void appCls();
    void appFill(int x, int y, char16_t c, WORD a, int n);   // not blocked by freeze
    void appSetCursorVisible(bool v);
    void appSetTitle(const ustr &t);
    bool appResizeBuffer(int w, int h);
    bool appSetWindow(int l, int t, int w, int h);
    ScreenP appNewBuffer();
    void appActivate(ScreenP s);
    // Application reads input (non-blocking).
    bool appRead(INPUT_RECORD &r);
};

std::shared_ptr<Console> newConsole(std::shared_ptr<Desktop> d);

} // namespace sim
