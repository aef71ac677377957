// Sequential console output with an exact expected history.
#pragma once
#include "harness.h"
#include "workload.h"
#include <algorithm>
using namespace sim;
namespace {
// What a sequentially printing program produced, as console rows.
struct RowModel {
    int W; std::vector<ustr> rows{ustr()}; int x = 0;
    void put(const ustr &s) {
        for (char16_t c : s) {
            if (c == '\r') x = 0;
            else if (c == '\n') { x = 0; rows.push_back(ustr()); }
            else {
                ustr &r = rows.back();
                if ((int)r.size() <= x) r.resize(x + 1, u' ');
                r[x] = c;
                if (++x >= W) { x = 0; rows.push_back(ustr()); }
            }
        }
    }
    std::string row(size_t i) const { ustr r = rows[i]; while (!r.empty() && r.back() == ' ') r.pop_back(); return u8(r); }
};
// Every expected row once, in order; empty string when it holds.
std::string compareRows(const RowModel &m, const Term &t) {
    for (size_t i = 0; i < m.rows.size(); ++i) {
        std::string want = m.row(i), got = t.lineText((int)i);
        if (want != got) return fmt("row %zu of %zu: the program printed \"%s\" but the terminal has \"%s\"", i, m.rows.size(), hexdump(want, 90).c_str(), hexdump(got, 90).c_str());
    }
    for (size_t i = m.rows.size(); i < t.lines.size(); ++i) if (!t.lineText((int)i).empty())
        return fmt("the terminal has an extra line %zu: \"%s\"", i, hexdump(t.lineText((int)i), 90).c_str());
    return "";
}
// Prints a random piece of sequential output to `b` (null: active buffer).
void printPiece(App &a, Workload &wl, RowModel &m, ScreenBuf *b, int maxBurst, bool overwrite, const char *tag) {
    ScreenBuf &sb = b ? *b : *a.out();
    auto out = [&](const ustr &s) { m.put(s); a.con->appWriteTo(b, s); };
    int n = choose(GEN, 6) == 5 ? range(GEN, 1, maxBurst) : range(GEN, 1, 12);
    if (choose(GEN, 4) == 3) { sb.attr = choose(GEN, 2) ? 7 : (WORD)choose(GEN, 256); }
    int style = choose(GEN, 4);
    for (int i = 0; i < n; ++i) {
        int len = style == 0 ? 0 : style == 3 ? range(GEN, 0, 2 * sb.W) : range(GEN, 0, std::min(20, sb.W));
        wl.throttle(len / sb.W + 2);
        ustr s = u16of(fmt("%s%d:", tag, wl.lineNo++)) + wl.text(len);
        if (choose(GEN, 8) == 7) { size_t k = choose(GEN, (uint32_t)s.size()); out(s.substr(0, k)); if (choose(GEN, 2)) sleepFor(range(GEN, 1, 60)); out(s.substr(k)); }
        else out(s);
        if (overwrite && choose(GEN, 16) == 15 && sb.cur.X > 0 && sb.cur.X < sb.W - 4) { out(u"\r==="); sleepFor(range(GEN, 1, 60)); }
        out(u"\r\n");
    }
}
} // namespace
