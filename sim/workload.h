#pragma once
#include "harness.h"
namespace sim {
// Random but replayable console program behaviour.
struct Workload {
    bool wide = false, attrs = true, cls = true, lvb = false, scrollBig = true, cursorVis = true, fills = true, odd = false;
    bool movesWindow = false, resizesBuffer = false, ownBuffers = false, titles = false, garbage = false;
    int limit = 1000;
    int64_t outstanding = 0;      // lines written since the last scrape
    int64_t lastScrape = 0;
    int lineNo = 0;
    std::string log;
    std::vector<ScreenP> bufs;
    void run(App &a, int ops);
    void op(App &a);
    ustr text(int n);
    void throttle(int lines);     // keeps output below the documented limit
};
std::string convergeWith(Session &s, Reader *r, int64_t ms, const MatchOpts &o = MatchOpts());
}
