#include "kernel.h"
#include "console.h"
#include <string.h>

namespace sim {

World *g_w = nullptr;

std::string u8(const ustr &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        uint32_t c = s[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && (s[i + 1] & 0xFC00) == 0xDC00) {
            c = 0x10000 + ((c & 0x3FF) << 10) + (s[++i] & 0x3FF);
        } else if (c >= 0xD800 && c < 0xE000) c = 0xFFFD;
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
}
ustr u16of(const std::string &a) { return ustr(a.begin(), a.end()); }

Process *curProc() { return g_cur ? g_cur->proc : nullptr; }

ProcP shareProc(Process *p) {
    for (auto &q : g_w->procs) if (q.get() == p) return q;
    return nullptr;
}
ProcP findProc(uint32_t pid) {
    for (auto &q : g_w->procs) if (q->pid == pid) return q;
    return nullptr;
}

ProcP newProcess(const std::string &kind, Process *parent) {
    auto p = std::make_shared<Process>();
    p->kind = kind;
    p->pid = g_w->nextPid; g_w->nextPid += 4;
    p->parent = parent;
    p->winsta = parent ? parent->winsta : g_w->winsta0;
    p->desktop = parent ? parent->desktop : g_w->desktopDefault;
    p->startTime = g_now;
    p->label = kind + "#" + std::to_string(p->pid);
    if (parent) p->envA = parent->envA; else if (!g_w->cfg.debugEnv.empty()) p->envA["WINPTY_DEBUG"] = g_w->cfg.debugEnv;
    g_w->procs.push_back(p);
    ev("proc-new", p->pid);
    if (g_verbose) logf("  new process %s", p->label.c_str());
    return p;
}

Fiber *spawnThread(Process *p, const std::string &name, std::function<void()> fn) {
    Fiber *f = spawnFiber(p, name, std::move(fn));
    p->fibers.push_back(f);
    return f;
}

bool ThreadObj::signaled() { return exited || p->exited || (f && f->state == Fiber::Dead); }

void processExit(Process *p, uint32_t code, bool crashed, const std::string &why) {
    if (p->exited) return;
    p->exited = true;
    p->exitCode = code;
    p->crashed = crashed;
    p->crashWhy = why;
    p->exitTime = g_now;
    ev("proc-exit", p->pid, code, crashed);
    if (g_verbose) logf("  %s exited code %u %s %s", p->label.c_str(), code, crashed ? "CRASH" : "", why.c_str());
    for (Fiber *f : p->fibers) {
        if (f != g_cur) f->state = Fiber::Dead;
    }
    if (p->con) { p->con->detach(p); }
    // cancel its outstanding I/O without touching its memory
    for (size_t i = 0; i < g_w->pending.size();) {
        IoP op = g_w->pending[i];
        if (op->proc == p) { op->completed = true; g_w->pending.erase(g_w->pending.begin() + i); }
        else ++i;
    }
    std::vector<uintptr_t> hs;
    for (auto &kv : p->handles) hs.push_back(kv.first);
    for (uintptr_t h : hs) closeHandleIn(p, (HANDLE)h, "exit");
    p->winsta.reset(); p->desktop.reset();
    if (p->onExit) p->onExit();
    if (g_cur && g_cur->proc == p) fiberExit();
}

void exitCurrentProcess(uint32_t code, bool crashed, const std::string &why) {
    processExit(curProc(), code, crashed, why);
    fiberExit();
}

HANDLE addHandle(Process *p, ObjP o, bool inherit, uint32_t access, const std::string &origin) {
    uintptr_t h = p->nextHandle;
    p->nextHandle += 4;
    HandleEntry e; e.obj = o; e.inherit = inherit; e.access = access; e.origin = origin;
    p->handles[h] = e;
    o->refs++;
    return (HANDLE)h;
}

void noteBadHandle(Process *p, const std::string &what) {
    if (p && !p->badHandleUses++) p->firstBadHandle = what;
    g_w->badHandles.push_back((p ? p->label : std::string("?")) + ": " + what);
    ev("bad-handle");
    logf("bad handle: %s", what.c_str());
}

HandleEntry *lookup(Process *p, HANDLE h, bool strict, const char *api) {
    auto it = p->handles.find((uintptr_t)h);
    if (it == p->handles.end()) {
        if (strict && h != nullptr && h != INVALID_HANDLE_VALUE) {
            bool closed = p->closedHandles.count((uintptr_t)h) != 0;
            noteBadHandle(p, fmt("%s called with %s handle 0x%llx", api, closed ? "already closed" : "unknown",
                                 (unsigned long long)(uintptr_t)h));
        }
        return nullptr;
    }
    return &it->second;
}

bool closeHandleIn(Process *p, HANDLE h, const char *api) {
    HandleEntry *e = lookup(p, h, true, api);
    if (!e) return false;
    ObjP o = e->obj;
    p->handles.erase((uintptr_t)h);
    p->closedHandles.insert((uintptr_t)h);
    if (--o->refs == 0) o->lastHandleClosed();
    return true;
}

int liveHandleCount(Process *p) { return (int)p->handles.size(); }
std::string handleReport(Process *p) {
    std::string s;
    for (auto &kv : p->handles) s += fmt("0x%llx:%s ", (unsigned long long)kv.first, kv.second.origin.c_str());
    return s;
}

void apiEnter(const char *api) {
    Fiber *f = g_cur;
    if (!f) return;
    static uint64_t calls = 0;
    if (++calls > 30000000) violate("runaway", std::string("a process calls the system without end: ") + api);
    if (g_w->onApi) g_w->onApi(f->proc, api);
    g_hash = mix(g_hash, (uint64_t)f->id * 1315423911u ^ hashBytes(api, strlen(api)));
    if (f->proc && f->proc->crashable && faultHere(F_PROC_CRASH)) {
        f->proc->crashable = false;
        processExit(f->proc, 0xC0000005, true, std::string("injected crash in ") + api);
    }
    maybeYield(api);
}
bool failApi(const char *api, uint32_t err) {
    Process *p = curProc();
    if (!p || !p->failSyscalls) return false;
    if (!g_w->failOnly.empty() && !g_w->failOnly.count(api)) return false;
    if (!(g_w->failPersist && g_w->injected) && !faultHere(F_SYSCALL_FAIL)) return false;
    g_w->lastInjectedApi = api; g_w->lastInjectedErr = err; g_w->injected++;
    ev("inject-fail", err);
    logf("FAIL %s -> %u", api, err);
    setErr(err);
    return true;
}

// ------------------------------------------------------------------ pipes
PipeEnd *PipeServer::peer() { return client.get(); }
PipeEnd *PipeClient::peer() { return serverGone ? nullptr : server.get(); }

static void removePending(const IoP &op) {
    auto &v = g_w->pending;
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == op) { v.erase(v.begin() + i); return; }
}
static void removeFrom(std::deque<IoP> &q, const IoP &op) {
    for (size_t i = 0; i < q.size(); ++i) if (q[i] == op) { q.erase(q.begin() + i); return; }
}

void completeIo(const IoP &op, uint32_t status) {
    if (op->completed) return;
    op->completed = true;
    op->status = status;
    removePending(op);
    ev("io-done", op->kind, op->done, status);
    if (op->ov) {
        op->ov->Internal = status;
        op->ov->InternalHigh = op->done;
    }
    if (op->event) op->event->state = true;
}

static bool serverSide(PipeEnd *e) { return e->type == O_PIPE_SERVER; }

// The state of the link as seen by end e: 0 = fine, otherwise the error that a
// read (after draining) / write gets.
static uint32_t readError(PipeEnd *e) {
    if (serverSide(e)) {
        auto *s = static_cast<PipeServer *>(e);
        switch (s->st) {
        case PipeServer::Listening: return ERROR_PIPE_LISTENING;
        case PipeServer::Connected: return 0;
        case PipeServer::ClientGone: return ERROR_BROKEN_PIPE;
        default: return ERROR_PIPE_NOT_CONNECTED;
        }
    }
    auto *c = static_cast<PipeClient *>(e);
    if (c->serverGone) return c->forceNotConnected ? ERROR_PIPE_NOT_CONNECTED : ERROR_BROKEN_PIPE;
    if (c->server->client.get() != c) return ERROR_PIPE_NOT_CONNECTED;
    return 0;
}
static uint32_t writeError(PipeEnd *e) {
    uint32_t r = readError(e);
    if (r == ERROR_BROKEN_PIPE) return ERROR_NO_DATA;
    return r;
}

static bool canRead(PipeEnd *e) {
    if (e->messageType() && e->msgRead) return !e->msgs.empty();
    if (!e->in.empty()) return true;
    PipeEnd *p = readError(e) == 0 ? e->peer() : nullptr;
    if (p) for (auto &w : p->writes) if (w->done < w->len) return true;
    return false;
}

static void pullFromPeer(PipeEnd *e, size_t want) {
    PipeEnd *p = readError(e) == 0 ? e->peer() : nullptr;
    if (!p) return;
    while (!p->writes.empty()) {
        IoP w = p->writes.front();
        size_t room = e->in.size() < e->quotaIn ? e->quotaIn - e->in.size() : 0;
        if (want > e->in.size()) room = std::max(room, want - e->in.size());
        size_t n = std::min<size_t>(room, w->len - w->done);
        if (n == 0 && w->len != w->done) break;
        e->arrive(w->buf + w->done, n);
        w->done += (uint32_t)n;
        if (w->done == w->len) {
            p->writes.pop_front();
            if (!w->armed && !w->canceled) {
                w->armed = true;
                int64_t d = g_w->cfg.ioDelayMax ? choose(FAULT, g_w->cfg.ioDelayMax + 1) : 0;
                if (d) countFault(F_IO_DELAY);
                at(g_now + d, [w] { if (!w->completed) completeIo(w, 0); });
            }
        } else break;
    }
}

static uint32_t takeData(PipeEnd *e, char *buf, uint32_t n) {
    pullFromPeer(e, n);
    uint32_t k = (uint32_t)std::min<size_t>(n, e->in.size());
    if (k > 1 && g_w->cfg.fragPct && chance(FAULT, g_w->cfg.fragPct, 100)) {
        k = 1 + choose(FAULT, k);
        countFault(F_IO_FRAGMENT);
    }
    memcpy(buf, e->in.data(), k);
    e->in.erase(0, k);
    return k;
}

static void finishRead(PipeEnd *e, const IoP &op) {
    if (op->completed) return;
    if (op->canceled) { removeFrom(e->reads, op); completeIo(op, ERROR_OPERATION_ABORTED); return; }
    if (e->messageType() && e->msgRead) {
        if (!e->msgs.empty()) {
            std::string &m = e->msgs.front();
            uint32_t k = (uint32_t)std::min<size_t>(op->len, m.size());
            memcpy(op->buf, m.data(), k);
            op->done = k;
            removeFrom(e->reads, op);
            if (k < m.size()) { m.erase(0, k); completeIo(op, ERROR_MORE_DATA); }
            else { e->msgs.pop_front(); completeIo(op, 0); }
            pumpPipe(e);
            return;
        }
    } else if (canRead(e)) {
        op->done = takeData(e, op->buf, op->len);
        removeFrom(e->reads, op);
        completeIo(op, 0);
        pumpPipe(e);
        return;
    }
    if (uint32_t err = readError(e)) {
        removeFrom(e->reads, op);
        completeIo(op, err == ERROR_PIPE_NOT_CONNECTED ? err : ERROR_BROKEN_PIPE);
        return;
    }
    op->armed = false;
}

// Progress everything that involves end e as the receiver.
void pumpPipe(PipeEnd *e) {
    if (!e) return;
    pullFromPeer(e, 0);
    std::shared_ptr<KObject> keep;
    for (auto &op : e->reads) {
        if (op->armed) break;       // keep FIFO order
        if (canRead(e) || readError(e)) {
            op->armed = true;
            IoP o = op;
            // A message goes straight into the waiting read.
            if (e->messageType() && e->msgRead && !e->msgs.empty()) { finishRead(e, o); return; }
            int64_t d = g_w->cfg.ioDelayMax ? choose(FAULT, g_w->cfg.ioDelayMax + 1) : 0;
            if (d) countFault(F_IO_DELAY);
            PipeEnd *end = e;
            at(g_now + d, [o, end] { if (!o->completed) finishRead(end, o); });
        }
        break;
    }
    if (writeError(e)) {
        while (!e->writes.empty()) {
            IoP w = e->writes.front(); e->writes.pop_front();
            if (!w->completed) {
                at(g_now, [w] { if (!w->completed) completeIo(w, ERROR_BROKEN_PIPE); });
            }
        }
    }
}

static bool waitOp(const IoP &op, uint32_t *got) {
    blockUntil(op->kind == IoOp::Read ? "sync-read" : "sync-write", [op] { return op->completed; });
    if (got) *got = op->done;
    if (op->status) { setErr(op->status); return false; }
    return true;
}

static IoP makeOp(IoOp::Kind k, HANDLE h, const void *buf, uint32_t n, OVERLAPPED *ov) {
    auto op = std::make_shared<IoOp>();
    op->kind = k; op->proc = curProc(); op->issuer = g_cur; op->ov = ov;
    op->buf = (char *)buf; op->len = n; op->h = h;
    op->seq = g_w->ioSeq++;
    if (ov) {
        ov->Internal = 0x103; ov->InternalHigh = 0;
        if (ov->hEvent) {
            HandleEntry *e = lookup(curProc(), (HANDLE)((uintptr_t)ov->hEvent & ~(uintptr_t)1), true, "overlapped hEvent");
            if (e && e->obj->type == O_EVENT) {
                op->event = std::static_pointer_cast<EventObj>(e->obj);
                op->event->state = false;
            }
        }
    }
    return op;
}

bool issueRead(const std::shared_ptr<PipeEnd> &e, HANDLE h, void *buf, uint32_t n, uint32_t *got, OVERLAPPED *ov) {
    bool async = e->overlapped && ov;
    uint32_t err = readError(e.get());
    if (err && !(err == ERROR_BROKEN_PIPE && canRead(e.get()))) { setErr(err); if (got) *got = 0; return false; }
    IoP op = makeOp(IoOp::Read, h, buf, n, async ? ov : nullptr);
    e->reads.push_back(op);
    if (async) {
        if (e->reads.size() == 1 && canRead(e.get()) && (g_w->cfg.ioDelayMax == 0 || readError(e.get()) || choose(SCHED, 3) == 0)) {
            op->armed = true;
            finishRead(e.get(), op);
            if (op->completed) {
                if (got) *got = op->done;
                if (op->status) { setErr(op->status); return false; }
                return true;
            }
        }
        g_w->pending.push_back(op);
        pumpPipe(e.get());
        setErr(ERROR_IO_PENDING);
        return false;
    }
    g_w->pending.push_back(op);
    std::shared_ptr<PipeEnd> keep = e;
    pumpPipe(e.get());
    return waitOp(op, got);
}

bool issueWrite(const std::shared_ptr<PipeEnd> &e, HANDLE h, const void *buf, uint32_t n, uint32_t *got, OVERLAPPED *ov) {
    bool async = e->overlapped && ov;
    if (uint32_t err = writeError(e.get())) { setErr(err); if (got) *got = 0; return false; }
    PipeEnd *p = e->peer();
    if (e->messageType()) {
        // Messages are queued whole.
        if (p->msgRead) p->msgs.push_back(std::string((const char *)buf, n));
        else p->arrive((const char *)buf, n);
        if (got) *got = n;
        if (async) { ov->Internal = 0; ov->InternalHigh = n;
            IoP op = makeOp(IoOp::Write, h, buf, n, ov); op->done = n; completeIo(op, 0); }
        pumpPipe(p);
        return true;
    }
    IoP op = makeOp(IoOp::Write, h, buf, n, async ? ov : nullptr);
    if (n == 0) { completeIo(op, 0); if (got) *got = 0; return true; }
    if (serverSide(e.get())) static_cast<PipeServer *>(e.get())->totalWritten += n;
    // Immediate completion when it fits.
    if (e->writes.empty() && p->in.size() + n <= p->quotaIn &&
            (g_w->cfg.ioDelayMax == 0 || choose(SCHED, 3) == 0)) {
        p->arrive((const char *)buf, n);
        op->done = n;
        completeIo(op, 0);
        pumpPipe(p);
        if (got) *got = n;
        return true;
    }
    e->writes.push_back(op);
    g_w->pending.push_back(op);
    pumpPipe(p);
    if (async) { setErr(ERROR_IO_PENDING); return false; }
    return waitOp(op, got);
}

static void abortOps(PipeEnd *e) {
    std::deque<IoP> ops = e->reads;
    ops.insert(ops.end(), e->writes.begin(), e->writes.end());
    e->reads.clear(); e->writes.clear();
    for (auto &op : ops) if (!op->completed) completeIo(op, ERROR_OPERATION_ABORTED);
}

// What the other end wrote before it closed reaches the waiting reads no later
// than the close (and the end of the process) is seen.
static void deliverAtClose(PipeEnd *e) {
    while (!e->reads.empty() && canRead(e)) {
        IoP o = e->reads.front();
        if (!o->armed || o->completed || o->canceled) break;
        finishRead(e, o);
        if (!o->completed) break;
    }
}

void PipeServer::lastHandleClosed() {
    closed = true;
    ev("pipe-srv-close", (int64_t)name.size());
    auto &v = g_w->pipes;
    std::shared_ptr<PipeServer> self;
    for (size_t i = 0; i < v.size(); ++i) if (v[i].get() == this) { self = v[i]; v.erase(v.begin() + i); break; }
    if (connectOp && !connectOp->completed) completeIo(connectOp, ERROR_OPERATION_ABORTED);
    // Data already accepted by the pipe stays readable; unfinished writes do not.
    if (client) {
        auto c = client;
        for (auto &w : writes) (void)w;
        abortOps(this);
        c->serverGone = true;
        client.reset();
        pumpPipe(c.get());
        if (!c->writes.empty()) pumpPipe(c.get());
        deliverAtClose(c.get());
    } else abortOps(this);
}

void PipeClient::lastHandleClosed() {
    closed = true;
    ev("pipe-cli-close");
    std::shared_ptr<PipeServer> s = server;
    if (s && !serverGone && s->client.get() == this) {
        // Unfinished client writes are lost.
        abortOps(this);
        s->st = PipeServer::ClientGone;
        auto keep = s->client;
        s->client.reset();
        pumpPipe(s.get());
        deliverAtClose(s.get());
    } else abortOps(this);
}

void breakServerPipe(PipeServer *s) {
    if (s->st == PipeServer::Connected && s->client) {
        auto c = s->client;
        countFault(F_PIPE_BREAK);
        s->st = PipeServer::ClientGone;
        s->in.clear();
        s->client.reset();
        c->serverGone = true; c->in.clear();
        pumpPipe(s); pumpPipe(c.get());
    }
}

int pendingIoOf(Process *p, Fiber *f) {
    int n = 0;
    for (auto &op : g_w->pending) if (op->proc == p && (!f || op->issuer == f)) ++n;
    return n;
}

static char16_t lower(char16_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool ieq(const ustr &a, const ustr &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (lower(a[i]) != lower(b[i])) return false;
    return true;
}

std::shared_ptr<PipeServer> findPipe(const ustr &name, bool listeningOnly) {
    for (auto &s : g_w->pipes)
        if (ieq(s->name, name) && (!listeningOnly || s->st == PipeServer::Listening)) return s;
    return nullptr;
}

void connectPipe(const std::shared_ptr<PipeServer> &s, const std::shared_ptr<PipeClient> &c) {
    c->server = s; c->quotaIn = std::max<uint32_t>(s->outSz, 1);
    s->quotaIn = std::max<uint32_t>(s->inSz, 1);
    s->client = c; s->st = PipeServer::Connected; s->everConnected = true;
    g_w->keep.push_back(c); g_w->keep.push_back(s);
    if (s->connectOp && !s->connectOp->completed) {
        IoP op = s->connectOp;
        int64_t d = g_w->cfg.ioDelayMax ? choose(FAULT, g_w->cfg.ioDelayMax + 1) : 0;
        at(g_now + d, [op] { if (!op->completed) completeIo(op, 0); });
    }
}
// Cancel one operation; the cancellation may lose the race to completion.
bool cancelOp(const IoP &op) {
    if (op->completed || op->canceled) return false;
    HandleEntry *he = nullptr;
    auto it = op->proc->handles.find((uintptr_t)op->h);
    if (it != op->proc->handles.end()) he = &it->second;
    PipeEnd *e = he && (he->obj->type == O_PIPE_SERVER || he->obj->type == O_PIPE_CLIENT) ? static_cast<PipeEnd *>(he->obj.get()) : nullptr;
    if (faultHere(F_CANCEL_RACE) && op->armed) return true;       // completes normally
    op->canceled = true;
    if (e) { removeFrom(e->reads, op); removeFrom(e->writes, op); }
    int64_t d = choose(FAULT, 4);
    at(g_now + d, [op] { if (!op->completed) completeIo(op, ERROR_OPERATION_ABORTED); });
    return true;
}

bool ActorPipe::open(Process *p, const ustr &name, int64_t deadline) {
    if (!blockUntil("actor-open", [name] { return findPipe(name, true) != nullptr; }, deadline)) return false;
    auto s = findPipe(name, true);
    c = std::make_shared<PipeClient>();
    c->owner = p;
    connectPipe(s, c);
    ev("actor-open", (int64_t)name.size());
    return true;
}
std::string ActorPipe::read(size_t max, int64_t deadline) {
    std::shared_ptr<PipeClient> keep = c; PipeClient *e = keep.get();
    if (!e) { eof = true; return ""; }
    if (!blockUntil("actor-read", [this, e] { return c.get() != e || canRead(e) || readError(e); }, deadline)) return "";
    if (c.get() != e || !canRead(e)) { eof = true; return ""; }
    std::string buf(max, '\0');
    pullFromPeer(e, 0);
    uint32_t k = (uint32_t)std::min<size_t>(max, e->in.size());
    if (k == 0) { pullFromPeer(e, 1); k = (uint32_t)std::min<size_t>(max, e->in.size()); }
    buf = e->in.substr(0, k);
    e->in.erase(0, k);
    pullFromPeer(e, 0);
    ev("actor-read", k);
    return buf;
}
bool ActorPipe::write(const std::string &s, int64_t deadline) {
    std::shared_ptr<PipeClient> keep = c; PipeClient *e = keep.get();
    size_t off = 0;
    if (e && s.size() > 1 && !writeError(e) && chance(SCHED, 1, 2)) {
        // one WriteFile of everything: a waiting read may take it beyond the quota
        auto buf = std::make_shared<std::string>(s);
        IoP op = makeOp(IoOp::Write, nullptr, buf->data(), (uint32_t)buf->size(), nullptr);
        e->writes.push_back(op);
        pumpPipe(e->peer());
        auto sent = [op] { return op->done == op->len; };
        bool ok = blockUntil("actor-write", [this, e, op, sent] { return sent() || op->completed || c.get() != e || writeError(e); }, deadline) && sent();
        if (!ok && !op->completed) { removeFrom(e->writes, op); op->completed = true; }
        if (!ok) return false;
        ev("actor-write", (int64_t)s.size());
        return true;
    }
    while (off < s.size()) {
        if (!e || c.get() != e || writeError(e)) return false;
        PipeEnd *p = e->peer();
        size_t room = p->in.size() < p->quotaIn ? p->quotaIn - p->in.size() : 0;
        // A pending overlapped read can take data beyond the quota.
        if (room == 0 && !p->reads.empty() && p->in.empty()) room = 1;
        if (room == 0) {
            if (!blockUntil("actor-write", [this, e, p] { return c.get() != e || writeError(e) || p->in.size() < p->quotaIn; }, deadline)) return false;
            continue;
        }
        size_t n = std::min(room, s.size() - off);
        p->arrive(s.data() + off, n);
        off += n;
        pumpPipe(p);
    }
    ev("actor-write", (int64_t)s.size());
    return true;
}
void ActorPipe::close() {
    if (!c) return;
    auto k = c;
    k->lastHandleClosed();
    c.reset();
}

} // namespace sim
