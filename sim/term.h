// A VT terminal: strict parser plus an emulator that keeps every line it ever
// showed (scrollback and screen) in absolute coordinates.
#pragma once
#include "core.h"
namespace sim {

struct Sgr {
    int8_t fg = -1, bg = -1;
    bool bold = false, rev = false, hid = false, ul = false;
    bool operator==(const Sgr &o) const { return fg == o.fg && bg == o.bg && bold == o.bold && rev == o.rev && hid == o.hid && ul == o.ul; }
    bool operator!=(const Sgr &o) const { return !(*this == o); }
    std::string str() const;
};
struct TCell { uint32_t ch = ' '; Sgr a; uint8_t w = 1; };   // w: 1, 2 or 0 (right half)
typedef std::vector<TCell> TLine;

int charWidth(uint32_t c);

struct Term {
    int W = 80, H = 25;
    bool plain = false;        // escapes are violations
    bool plainColor = false;   // plain mode with colour escapes (SGR allowed)
    bool keepHidden = false;   // erasing does not reach what a narrower window hides
    bool clamp = false;        // a real screen of height H: cursor-up stops at its top
    bool checkWidth = false;   // a write beyond column W is an error
    bool utfReplacement = false; // U+FFFD in the stream is an error
    std::vector<TLine> lines;
    int base = 0;              // first line that belongs to the current screen (after a clear)
    int row = 0, col = 0;
    Sgr cur;
    bool cursorVisible = true;
    std::vector<std::string> titles;
    std::vector<std::string> rawTitles;
    bool mouse[6] = {};        // 1000 1002 1003 1015 1006 1005
    int mouseOn = 0, mouseOff = 0;
    int dsrQueries = 0, clears = 0, cursorUps = 0, clampsHit = 0;
    int64_t bytes = 0, lastByteTime = 0;
    std::vector<int> clearAt;  // line index at which each cleared screen starts
    std::function<void()> onDsr;
    std::function<void(const std::string &)> onTitle;
    std::string raw;           // everything received, for messages
    std::string error;         // first malformed construct

    void feed(const std::string &s);
    bool midSequence() const { return st != Ground || need; }
    std::string lineText(int r) const;      // trailing blanks removed
    int lastLine() const { return (int)lines.size() - 1; }
    TLine &at(int r) { while ((int)lines.size() <= r) lines.push_back(TLine()); return lines[r]; }
    uint64_t hash() const;
private:
    enum St { Ground, Esc, Csi, Osc } st = Ground;
    std::string buf;
    uint32_t cp = 0; int need = 0; uint32_t minCp = 0;
    bool sawCr = false;
    void put(uint32_t c);
    void csi();
    void bad(const std::string &why);
    void ctrl(unsigned char c);
};
} // namespace sim
