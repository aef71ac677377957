// POSIX (Cygwin) layer of the unix adapter: terminals, pipes, signals, threads.
#pragma once
#include "kernel.h"
#include <string>
#include <deque>

namespace sim {

// A terminal, or (tty = false) any other stream a standard descriptor may be.
// Plain fields mirror struct termios so that scenarios need no termios.h.
struct TtyModes {
    unsigned iflag = 0, oflag = 0, cflag = 0, lflag = 0; unsigned char cc[32] = {};
    bool operator==(const TtyModes &o) const { return iflag == o.iflag && oflag == o.oflag && cflag == o.cflag && lflag == o.lflag && !memcmp(cc, o.cc, sizeof cc); }
    std::string str() const;
};
struct Tty {
    bool tty = true;
    TtyModes modes;
    int cols = 80, rows = 25;
    std::deque<char> in; std::string line;      // readable bytes; canonical line being edited
    bool eof = false;                           // no more input
    bool quoteNext = false;
    std::string out; size_t outCap = 4096;      // written, not yet shown
    std::string shown;                          // what the terminal received
    bool paused = false; bool flowStopped = false;
    bool hup = false; bool hupRead0 = true;
    int sets = 0; int64_t lastSet = -1;
    int failGet = -1, failSet = -1;             // countdown to a failing tcgetattr / tcsetattr
    Process *fg = nullptr;
    void type(char c);                          // one byte from the keyboard through the line discipline
    void resize(int c, int r);                  // new size and SIGWINCH
    void hangup(bool killFg);
    TtyModes randomModes();
};
typedef std::shared_ptr<Tty> TtyP;

struct PosixProc;
// Gives a process descriptors 0, 1, 2 and a PATH.
void posixInit(Process *p, TtyP in, TtyP out, TtyP err);
int posixThreads(Process *p);                   // threads created so far
int posixSignals(Process *p);                   // handler invocations
void posixSignal(Process *p, int sig);
void posixEnv(Process *p, const std::string &n, const char *v);
void posixFile(Process *p, const std::string &path, bool exec);
void posixDeliver();                            // signal delivery point (basic blocks)
extern bool g_sigWaiting;
TtyModes cookedModes();
std::string notRaw(const TtyModes &m, bool input);  // why a terminal is not in raw mode ("" if it is)
} // namespace sim
