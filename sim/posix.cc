#define _WINSOCKAPI_
#define _WINSOCK2API_
#include "posix.h"
#include "runner.h"
#include "console.h"
#include "module.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/time.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

using namespace sim;
enum { CW_SYNC_WINENV = 1 };

namespace sim {
bool g_sigWaiting = false;

struct PxPipe { std::deque<char> q; size_t cap = 65536; int readers = 1, writers = 1; };
struct PxFd { TtyP tty; std::shared_ptr<PxPipe> pipe; bool wr = false; int fl = 0; };
struct PosixProc {
    std::map<int, PxFd> fds;
    struct sigaction act[65];
    bool pending[65] = {};
    Fiber *target = nullptr;
    std::set<Fiber *> inHandler;
    std::map<int, Fiber *> threads; int nextThread = 1;
    std::map<std::string, bool> files;
    std::map<std::string, std::string> env;     // the Unix side of the environment
    int created = 0, handled = 0;
    PosixProc() { memset(act, 0, sizeof act); }
};
static std::map<Process *, std::shared_ptr<PosixProc>> g_px;
static PosixProc &px(Process *p) { auto &r = g_px[p]; if (!r) r = std::make_shared<PosixProc>(); return *r; }
static PosixProc &cur() { return px(curProc()); }
static int &err() { static std::unordered_map<Fiber *, int> m; return m[g_cur]; }
static int fail(int e) { err() = e; return -1; }

std::string TtyModes::str() const {
    std::string s = fmt("iflag %o oflag %o cflag %o lflag %o cc", iflag, oflag, cflag, lflag);
    for (int i = 0; i < NCCS && i < 20; ++i) s += fmt(" %d", cc[i]);
    return s;
}
TtyModes cookedModes() {
    TtyModes m; m.iflag = BRKINT | ICRNL | IXON; m.oflag = OPOST | ONLCR; m.cflag = CS8 | CREAD | B38400; m.lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN;
    m.cc[VINTR] = 3; m.cc[VQUIT] = 28; m.cc[VERASE] = 127; m.cc[VKILL] = 21; m.cc[VEOF] = 4; m.cc[VSUSP] = 26; m.cc[VSTART] = 17; m.cc[VSTOP] = 19; m.cc[VLNEXT] = 22; m.cc[VMIN] = 1; m.cc[VTIME] = 0;
    return m;
}
TtyModes Tty::randomModes() {
    TtyModes m = cookedModes();
    switch (choose(GEN, 6)) {
    case 1: m.cc[VMIN] = (unsigned char)choose(GEN, 6); m.cc[VTIME] = (unsigned char)choose(GEN, 10); break;
    case 2: m.cflag = (m.cflag & ~CSIZE) | CS7 | PARENB; m.iflag |= ISTRIP | INPCK; break;
    case 3: m.lflag &= ~(unsigned)(choose(GEN, 2) ? ECHO : ICANON); break;
    case 4: m.oflag = choose(GEN, 2) ? 0 : OPOST; m.iflag |= choose(GEN, 2) ? IXOFF : 0; break;
    case 5: m.iflag = 0; m.oflag = 0; m.lflag = 0; m.cc[VMIN] = 1; break;
    }
    return m;
}
std::string notRaw(const TtyModes &m, bool input) {
    if (input) {
        if (m.lflag & (ECHO | ICANON | IEXTEN | ISIG)) return fmt("lflag %o", m.lflag);
        if (m.iflag & (BRKINT | ICRNL | INPCK | ISTRIP | IXON)) return fmt("iflag %o", m.iflag);
        if (m.cc[VMIN] != 1 || m.cc[VTIME] != 0) return "VMIN/VTIME";
        if ((m.cflag & CSIZE) != CS8 || (m.cflag & PARENB)) return fmt("cflag %o", m.cflag);
    } else if (m.oflag & OPOST) return fmt("oflag %o", m.oflag);
    return "";
}
void Tty::type(char ch) {
    if (hup || eof) return;
    unsigned char c = (unsigned char)ch;
    if (!tty) { in.push_back(ch); return; }
    if ((modes.cflag & CSIZE) == CS7 || (modes.iflag & ISTRIP)) c &= 0x7f;
    if ((modes.iflag & ICRNL) && c == 13) c = 10; else if ((modes.iflag & INLCR) && c == 10) c = 13; else if ((modes.iflag & IGNCR) && c == 13) return;
    bool lit = quoteNext; quoteNext = false;
    if (!lit) {
        if (modes.iflag & IXON) { if (c == modes.cc[VSTOP] && c) { flowStopped = true; return; } if (c == modes.cc[VSTART] && c) { flowStopped = false; return; } }
        if (modes.lflag & ISIG) {
            int sig = c && c == modes.cc[VINTR] ? SIGINT : c && c == modes.cc[VQUIT] ? SIGQUIT : 0;
            if (sig) { in.clear(); line.clear(); if (fg) posixSignal(fg, sig); return; }
            if (c && c == modes.cc[VSUSP]) return;      // job control is not modelled
        }
        if ((modes.lflag & IEXTEN) && c && c == modes.cc[VLNEXT]) { quoteNext = true; return; }
    }
    if (modes.lflag & ECHO) { out.push_back((char)c); }
    if (modes.lflag & ICANON) {
        if (!lit && c == modes.cc[VERASE]) { if (!line.empty()) line.pop_back(); return; }
        if (!lit && c == modes.cc[VEOF]) { in.insert(in.end(), line.begin(), line.end()); line.clear(); return; }
        line.push_back((char)c);
        if (c == 10) { in.insert(in.end(), line.begin(), line.end()); line.clear(); }
    } else in.push_back((char)c);
}
void Tty::resize(int c, int r) {
    bool ch = c != cols || r != rows; cols = c; rows = r;
    if (ch && fg && !hup) posixSignal(fg, SIGWINCH);
}
void Tty::hangup(bool killFg) { if (hup) return; hup = true; out.clear(); if (fg && killFg) posixSignal(fg, SIGHUP); }

void posixInit(Process *p, TtyP in, TtyP out, TtyP er) {
    PosixProc &x = px(p); TtyP t[3] = {in, out, er};
    for (int i = 0; i < 3; ++i) { PxFd f; f.tty = t[i]; x.fds[i] = f; if (t[i]) t[i]->fg = p; }
    if (!p->envA.count("PATH")) p->envA["PATH"] = "/usr/local/bin:/usr/bin";
    p->envA["TERM"] = "xterm";
    x.env = p->envA;
    for (const char *n : {"WINPTY_DEBUG", "WINPTY_SHOW_CONSOLE"}) p->envA.erase(n);
}
void posixEnv(Process *p, const std::string &n, const char *v) { auto &e = px(p).env; if (v) e[n] = v; else e.erase(n); }
void posixFile(Process *p, const std::string &path, bool exec) { px(p).files[path] = exec; }
int posixThreads(Process *p) { return px(p).created; }
int posixSignals(Process *p) { return px(p).handled; }

void posixSignal(Process *p, int sig) {
    if (p->exited) return;
    PosixProc &x = px(p);
    auto h = x.act[sig].sa_handler;
    ev("signal", sig);
    if (h == SIG_IGN || (h == SIG_DFL && (sig == SIGWINCH || sig == SIGCHLD || sig == SIGCONT))) return;
    if (h == SIG_DFL) {
        if (g_verbose) logf("signal %d ends %s", sig, p->label.c_str());
        processExit(p, (uint32_t)(128 + sig), false, "signal");
        p->detached = true;
        return;
    }
    std::vector<Fiber *> live; for (Fiber *f : p->fibers) if (f->state != Fiber::Dead) live.push_back(f);
    if (live.empty()) return;
    x.pending[sig] = true;
    x.target = live[0];
    if (live.size() > 1 && choose(SCHED, 4) == 3) x.target = live[1];     // the input thread
    if (x.target->sigPending >= 0) x.target->sigPending = 1;
    g_sigWaiting = true;
}
// Runs pending handlers in the current fiber.  True if one ran.
static bool deliver() {
    Fiber *f = g_cur;
    if (!f || !f->sigPending || !f->proc) return false;
    PosixProc &x = px(f->proc);
    if (x.inHandler.count(f)) return false;
    bool any = false;
    f->sigPending = 0;
    for (int s = 1; s < 65; ++s) if (x.pending[s]) {
        x.pending[s] = false;
        if (!x.act[s].sa_handler || x.act[s].sa_handler == SIG_IGN) continue;
        any = true; x.handled++; countFault(F_EINTR);
        int e = err(); uint32_t le = f->lastError;
        x.inHandler.insert(f);
        if (x.act[s].sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; x.act[s].sa_sigaction(s, &si, nullptr); }
        else x.act[s].sa_handler(s);
        x.inHandler.erase(f);
        err() = e; f->lastError = le;
        ev("handler", s);
    }
    g_sigWaiting = false;
    for (auto &kv : g_px) if (!kv.first->exited) for (Fiber *g : kv.first->fibers) if (g->sigPending) g_sigWaiting = true;
    return any;
}
void posixDeliver() { if (g_cur && g_cur->sigPending) deliver(); }

// Entry of a call: preemption point and signal delivery.  True if a handler ran.
static bool enter(const char *api) { apiEnter(api); return deliver(); }
// Blocks; false when a signal handler ran instead.
static bool waitOr(const char *what, std::function<bool()> pred, int64_t deadline = -1, bool *timeout = nullptr) {
    Fiber *f = g_cur;
    bool blockSig = px(f->proc).inHandler.count(f) != 0;
    bool ok = blockUntil(what, [f, pred, blockSig] { return (f->sigPending && !blockSig) || pred(); }, deadline);
    if (!ok) { if (timeout) *timeout = true; return true; }
    if (f->sigPending && !blockSig && deliver()) return false;
    return true;
}
static bool ttyReadable(Tty &t) {
    if (t.hup || t.eof) return true;
    return !t.in.empty() || (t.tty && !(t.modes.lflag & ICANON) && t.modes.cc[VMIN] == 0 && t.modes.cc[VTIME] == 0);
}
static bool readable(PxFd &f) {
    if (f.tty) return ttyReadable(*f.tty);
    if (f.pipe && !f.wr) return !f.pipe->q.empty() || f.pipe->writers == 0;
    return true;
}
static std::string posixPath(Process *p, const std::string &s) {
    PosixProc &x = px(p); std::string q;
    if (s.empty() || s[0] != '/') q = "/home/user/" + s; else q = s;
    std::vector<std::string> parts; size_t i = 0;
    while (i < q.size()) { size_t j = q.find('/', i); if (j == std::string::npos) j = q.size(); std::string c = q.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; } parts.push_back(c); }
    q.clear(); for (auto &c : parts) q += "/" + c;
    if (x.files.count(q) || x.files.count(q + ".exe")) return q;
    return "";
}
} // namespace sim

extern "C" {
int *px___errno_location() { return &err(); }
char **px_environ;

ssize_t px_read(int fd, void *buf, size_t n) {
    enter("read");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    PxFd f = it->second;
    if (f.pipe) {
        if (f.wr) return fail(EBADF);
        if (faultHere(F_EINTR)) return fail(EINTR);
        while (f.pipe->q.empty()) {
            if (f.pipe->writers == 0) return 0;
            if (f.fl & O_NONBLOCK) return fail(EAGAIN);
            auto pp = f.pipe; if (!waitOr("read-pipe", [pp] { return !pp->q.empty() || pp->writers == 0; })) return fail(EINTR);
        }
        size_t k = std::min(n, f.pipe->q.size());
        for (size_t i = 0; i < k; ++i) { ((char *)buf)[i] = f.pipe->q.front(); f.pipe->q.pop_front(); }
        return (ssize_t)k;
    }
    TtyP t = f.tty; if (!t) return 0;
    if (!(f.fl & O_NONBLOCK) && faultHere(F_EINTR)) return fail(EINTR);
    size_t need = t->tty && !(t->modes.lflag & ICANON) ? t->modes.cc[VMIN] : 1;
    for (;;) {
        if (t->hup) return t->hupRead0 ? 0 : fail(EIO);
        if (!t->in.empty() && t->in.size() >= std::min(need, n)) break;
        if (t->eof) { if (t->in.empty()) return 0; break; }
        if (need == 0 && t->modes.cc[VTIME] == 0) break;
        if (f.fl & O_NONBLOCK) return fail(EAGAIN);
        bool to = false; int64_t dl = need == 0 ? g_now + 100 * t->modes.cc[VTIME] : -1;
        if (!waitOr("read-tty", [t, need, n] { return t->hup || t->eof || (!t->in.empty() && t->in.size() >= std::min(need, n)); }, dl, &to)) {
            if (choose(SCHED, 2)) return fail(EINTR);       // SA_RESTART is not honoured everywhere
        }
        if (to) break;
    }
    size_t k = std::min(n, t->in.size());
    if (k > 1 && faultHere(F_SHORT_IO)) k = 1 + choose(FAULT, (uint32_t)k);
    for (size_t i = 0; i < k; ++i) { ((char *)buf)[i] = t->in.front(); t->in.pop_front(); }
    if (g_verbose) logf("tty -> adapter: %s", hexdump(std::string((char *)buf, k), 80).c_str());
    ev("tty-read", (int64_t)k);
    return (ssize_t)k;
}
ssize_t px_write(int fd, const void *buf, size_t n) {
    enter("write");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    PxFd f = it->second;
    if (f.pipe) {
        if (!f.wr) return fail(EBADF);
        if (faultHere(F_EINTR)) return fail(EINTR);
        if (f.pipe->readers == 0) { posixSignal(curProc(), SIGPIPE); return fail(EPIPE); }
        size_t room = f.pipe->cap - std::min(f.pipe->cap, f.pipe->q.size());
        if (room == 0) {
            if (f.fl & O_NONBLOCK) return fail(EAGAIN);
            auto pp = f.pipe; if (!waitOr("write-pipe", [pp] { return pp->q.size() < pp->cap; })) return fail(EINTR);
            room = pp->cap - pp->q.size();
        }
        size_t k = std::min(n, room);
        f.pipe->q.insert(f.pipe->q.end(), (const char *)buf, (const char *)buf + k);
        return (ssize_t)k;
    }
    TtyP t = f.tty; if (!t) return (ssize_t)n;
    if (n == 0) return 0;
    if (!(f.fl & O_NONBLOCK) && faultHere(F_EINTR)) return fail(EINTR);
    size_t want = n, done = 0;
    if (n > 1 && faultHere(F_SHORT_IO)) want = 1 + choose(FAULT, (uint32_t)n - 1);
    while (done < want) {
        if (t->hup) {
            if (!t->tty) { posixSignal(curProc(), SIGPIPE); if (curProc()->exited) fiberExit(); return done ? (ssize_t)done : fail(EPIPE); }
            return done ? (ssize_t)done : fail(EIO);
        }
        if (t->out.size() >= t->outCap) {
            if (f.fl & O_NONBLOCK) return done ? (ssize_t)done : fail(EAGAIN);
            if (!waitOr("write-tty", [t] { return t->hup || t->out.size() < t->outCap; })) { if (done) return (ssize_t)done; if (choose(SCHED, 2)) return fail(EINTR); }
            continue;
        }
        size_t k = std::min(want - done, t->outCap - t->out.size());
        for (size_t i = 0; i < k; ++i) {
            char c = ((const char *)buf)[done + i];
            if (t->tty && (t->modes.oflag & OPOST) && (t->modes.oflag & ONLCR) && c == '\n') t->out.push_back('\r');
            t->out.push_back(c);
        }
        done += k;
    }
    ev("tty-write", (int64_t)done);
    return (ssize_t)done;
}
int px_close(int fd) {
    enter("close");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    if (it->second.pipe) (it->second.wr ? it->second.pipe->writers : it->second.pipe->readers)--;
    x.fds.erase(it); return 0;
}
int px_pipe(int *p) {
    enter("pipe");
    PosixProc &x = cur(); auto q = std::make_shared<PxPipe>(); int fd = 3;
    for (int i = 0; i < 2; ++i) { while (x.fds.count(fd)) ++fd; PxFd f; f.pipe = q; f.wr = i == 1; x.fds[fd] = f; p[i] = fd; }
    return 0;
}
int px_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    enter("fcntl");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    if (cmd == F_GETFL) return it->second.fl | (it->second.wr ? O_WRONLY : 0);
    if (cmd == F_SETFL) { it->second.fl = (int)a & O_NONBLOCK; return 0; }
    return 0;
}
int px_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    enter("ioctl");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    TtyP t = it->second.tty;
    if (!t || !t->tty) return fail(ENOTTY);
    if (t->hup) return fail(EIO);
    if (req == TIOCGWINSZ) { winsize *w = (winsize *)a; w->ws_col = (unsigned short)t->cols; w->ws_row = (unsigned short)t->rows; w->ws_xpixel = (unsigned short)(t->cols * 8); w->ws_ypixel = (unsigned short)(t->rows * 16); return 0; }
    return fail(EINVAL);
}
int px_isatty(int fd) { enter("isatty"); PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return err() = EBADF, 0; if (it->second.tty && it->second.tty->tty) return 1; err() = ENOTTY; return 0; }
int px_tcgetattr(int fd, termios *m) {
    enter("tcgetattr");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    TtyP t = it->second.tty; if (!t || !t->tty) return fail(ENOTTY);
    if (t->hup) return fail(EIO);
    if (t->failGet >= 0 && t->failGet-- == 0) { countFault(F_TTY_ERROR); return fail(EIO); }
    memset(m, 0, sizeof *m);
    m->c_iflag = t->modes.iflag; m->c_oflag = t->modes.oflag; m->c_cflag = t->modes.cflag; m->c_lflag = t->modes.lflag; memcpy(m->c_cc, t->modes.cc, NCCS < 32 ? NCCS : 32);
    return 0;
}
int px_tcsetattr(int fd, int how, const termios *m) {
    enter("tcsetattr");
    PosixProc &x = cur(); auto it = x.fds.find(fd); if (it == x.fds.end()) return fail(EBADF);
    TtyP t = it->second.tty; if (!t || !t->tty) return fail(ENOTTY);
    if (t->failSet >= 0 && t->failSet-- == 0) { countFault(F_TTY_ERROR); return fail(EIO); }
    if (how == TCSADRAIN || how == TCSAFLUSH) while (!t->hup && !t->out.empty()) waitOr("tcdrain", [t] { return t->hup || t->out.empty(); });
    if (t->hup) return fail(EIO);
    if (how == TCSAFLUSH) { t->in.clear(); t->line.clear(); }
    t->modes.iflag = m->c_iflag; t->modes.oflag = m->c_oflag; t->modes.cflag = m->c_cflag; t->modes.lflag = m->c_lflag; memcpy(t->modes.cc, m->c_cc, NCCS < 32 ? NCCS : 32);
    if (!(m->c_iflag & IXON)) t->flowStopped = false;
    t->sets++; t->lastSet = g_now;
    ev("tcsetattr", fd);
    if (g_verbose) logf("tcsetattr %d: %s", fd, t->modes.str().c_str());
    return 0;
}
int px_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (enter("select") && tv == nullptr && choose(SCHED, 2)) return fail(EINTR);
    if (faultHere(F_EINTR)) return fail(EINTR);
    PosixProc &x = cur();
    std::vector<int> fds; for (int i = 0; i < nfds; ++i) if (r && FD_ISSET(i, r)) { if (!x.fds.count(i)) return fail(EBADF); fds.push_back(i); }
    if (w || e) harnessError("select with write or exception sets is not modelled");
    auto any = [&x, fds] { for (int i : fds) { auto it = x.fds.find(i); if (it == x.fds.end() || readable(it->second)) return true; } return false; };
    bool to = false; int64_t dl = tv ? g_now + tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000 : -1;
    if (!any() && !waitOr("select", any, dl, &to)) return fail(EINTR);
    int n = 0; FD_ZERO(r);
    for (int i : fds) { auto it = x.fds.find(i); if (it != x.fds.end() && readable(it->second)) { FD_SET(i, r); ++n; } }
    (void)to;
    return n;
}
int px_poll(struct pollfd *p, nfds_t n, int ms) {
    if (enter("poll") && choose(SCHED, 2)) return fail(EINTR);
    if (faultHere(F_EINTR)) return fail(EINTR);
    PosixProc &x = cur();
    auto count = [&x, p, n] { int k = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; auto it = x.fds.find(p[i].fd); if (it == x.fds.end()) continue; if ((p[i].events & POLLIN) && readable(it->second)) p[i].revents |= POLLIN; if (p[i].events & POLLOUT) p[i].revents |= POLLOUT; if (p[i].revents) ++k; } return k; };
    int k = count(); bool to = false;
    if (!k && ms != 0) { if (!waitOr("poll", [&] { return count() > 0; }, ms < 0 ? -1 : g_now + ms, &to)) return fail(EINTR); k = count(); }
    return k;
}
int px_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
    enter("sigaction");
    PosixProc &x = cur(); if (sig < 1 || sig > 64) return fail(EINVAL);
    if (o) *o = x.act[sig]; if (n) x.act[sig] = *n;
    return 0;
}
void (*px_signal(int sig, void (*h)(int)))(int) { PosixProc &x = cur(); enter("signal"); auto o = x.act[sig].sa_handler; memset(&x.act[sig], 0, sizeof x.act[sig]); x.act[sig].sa_handler = h; x.act[sig].sa_flags = SA_RESTART; return o; }
int px_sigprocmask(int, const sigset_t *, sigset_t *) { harnessError("signal masks are not modelled"); }
int px_pthread_sigmask(int, const sigset_t *, sigset_t *) { harnessError("signal masks are not modelled"); }
int px_kill(pid_t, int sig) { enter("kill"); posixSignal(curProc(), sig); if (curProc()->exited) fiberExit(); return 0; }
int px_raise(int sig) { return px_kill(0, sig); }
int px_pthread_kill(pthread_t, int sig) { return px_kill(0, sig); }
int px_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    enter("pthread_create");
    PosixProc &x = cur(); int id = x.nextThread++; x.created++;
    Fiber *f = spawnThread(curProc(), "thread" + std::to_string(id), [fn, arg] { fn(arg); });
    x.threads[id] = f; *t = (pthread_t)id;
    maybeYield("thread-started");
    return 0;
}
int px_pthread_join(pthread_t t, void **r) {
    enter("pthread_join");
    PosixProc &x = cur(); auto it = x.threads.find((int)t); if (it == x.threads.end() || !it->second) return ESRCH;
    Fiber *f = it->second; while (f->state != Fiber::Dead) waitOr("join", [f] { return f->state == Fiber::Dead; });
    it->second = nullptr; if (r) *r = nullptr; return 0;
}
int px_pthread_detach(pthread_t) { return 0; }
pthread_t px_pthread_self() { for (auto &kv : cur().threads) if (kv.second == g_cur) return (pthread_t)kv.first; return 0; }
int px_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { *(int *)m = 0; return 0; }
int px_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int px_pthread_mutex_lock(pthread_mutex_t *m) { maybeYield("mutex"); volatile int *p = (int *)m; if (*p) blockUntil("mutex", [p] { return *p == 0; }); *p = 1; return 0; }
int px_pthread_mutex_unlock(pthread_mutex_t *m) { *(int *)m = 0; maybeYield("unlock"); return 0; }
char *px_getenv(const char *n) { auto &e = cur().env; auto it = e.find(n); return it == e.end() ? nullptr : (char *)it->second.c_str(); }
int px_setenv(const char *n, const char *v, int o) { auto &e = cur().env; if (o || !e.count(n)) e[n] = v; return 0; }
int px_unsetenv(const char *n) { cur().env.erase(n); return 0; }
char *px_realpath(const char *p, char *out) {
    enter("realpath");
    std::string s = posixPath(curProc(), p); if (s.empty()) { err() = ENOENT; return nullptr; }
    if (!out) out = (char *)malloc(4096);
    strcpy(out, s.c_str()); return out;
}
int px_access(const char *p, int mode) {
    enter("access");
    auto &f = cur().files; auto it = f.find(p); if (it == f.end()) return fail(ENOENT);
    if ((mode & X_OK) && !it->second) return fail(EACCES);
    return 0;
}
ssize_t cygwin_conv_path(unsigned, const void *from, void *to, size_t size) {
    enter("cygwin_conv_path");
    std::string s = (const char *)from; if (!s.empty() && s[0] == '/') s = "C:\\cygwin" + s;
    for (auto &c : s) if (c == '/') c = '\\';
    if (!size) return (ssize_t)s.size() + 1;
    if (s.size() + 1 > size) return fail(ENOSPC);
    strcpy((char *)to, s.c_str()); return 0;
}
unsigned long cygwin_internal(int op, ...) { enter("cygwin_internal"); if (op == CW_SYNC_WINENV) for (auto &kv : cur().env) curProc()->envA[kv.first] = kv.second; return 0; }
char *px_strerror(int e) { static char b[64]; snprintf(b, sizeof b, "error %d", e); return b; }
char *px_setlocale(int, const char *) { static char b[] = "C.UTF-8"; return b; }
size_t px_mbstowcs(char16_t *d, const char *s, size_t n) {
    size_t k = 0;
    while (*s) {
        unsigned char c = (unsigned char)*s; uint32_t v; int len = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        if (c >= 0x80 && c < 0xC2) { err() = EILSEQ; return (size_t)-1; }
        v = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7;
        for (int i = 1; i < len; ++i) { if (((unsigned char)s[i] & 0xC0) != 0x80) { err() = EILSEQ; return (size_t)-1; } v = v << 6 | ((unsigned char)s[i] & 63); }
        s += len;
        if (v >= 0x10000) { if (d && k + 2 > n) return k; if (d) { d[k] = (char16_t)(0xD800 + ((v - 0x10000) >> 10)); d[k + 1] = (char16_t)(0xDC00 + ((v - 0x10000) & 1023)); } k += 2; }
        else { if (d && k >= n) return k; if (d) d[k] = (char16_t)v; k++; }
    }
    if (d && k < n) d[k] = 0;
    return k;
}
size_t px_wcstombs(char *d, const char16_t *s, size_t n) { std::string r = u8(ustr(s)); if (!d) return r.size(); size_t k = std::min(n, r.size()); memcpy(d, r.data(), k); if (k < n) d[k] = 0; return k; }
unsigned px_sleep(unsigned s) { enter("sleep"); bool to = false; waitOr("sleep", [] { return false; }, g_now + s * 1000, &to); return 0; }
int px_usleep(unsigned us) { enter("usleep"); bool to = false; if (!waitOr("usleep", [] { return false; }, g_now + (us + 999) / 1000, &to)) return fail(EINTR); return 0; }
int px_nanosleep(const struct timespec *t, struct timespec *) { return px_usleep((unsigned)(t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
int px_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = g_now / 1000; t->tv_nsec = g_now % 1000 * 1000000; return 0; }
int px_gettimeofday(struct timeval *t, void *) { t->tv_sec = g_now / 1000; t->tv_usec = g_now % 1000 * 1000; return 0; }
pid_t px_getpid() { return (pid_t)curProc()->pid; }
int64_t sim_steady_now() { return g_now * 1000000; }
int64_t sim_system_now() { return (1455321600000 + (int64_t)g_now) * 1000000; }
time_t sim_time(time_t *t) { time_t v = (time_t)(1455321600 + g_now / 1000); if (t) *t = v; return v; }
}
