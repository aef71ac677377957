// Shared by the client library scenarios.
#pragma once
#include "harness.h"
#include "workload.h"
#include <winpty_constants.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
using namespace sim;

namespace {

const int64_t kAgentExitBound = 45000;     // orderly shutdown closes the console and waits up to 30 s

std::shared_ptr<PipeServer> pipeByPtr(PipeServer *p) { for (auto &s : g_w->pipes) if (s.get() == p) return s; return nullptr; }

struct Rig {
    Harness h;
    Session s;
    int64_t timeout = 30000;
    PipeServer *control = nullptr;         // most recent control pipe (kept alive by World::keep)
    // injected fault
    bool fired = false; int64_t firedAt = -1; enum Kind { None, Crash, Stall, Break } kind = None;
    int64_t stallMs = 0;
    int apiLeft = -1;                      // agent API calls until the fault
    bool failed = false;                   // a transport failure was reported
    bool spawned = false;
    uint64_t writtenAtFail = 0;
    int nFail = 0, nOk = 0;

    Rig() {
        h.w.onPipeCreate = [this](PipeServer &p) { if (p.name.find(u"winpty-control-") != ustr::npos) control = &p; };
    }
    int64_t slack() { return 3000 + 20 * g_sched.stallMax; }
    void fire() {
        if (fired || !s.agent || s.agent->exited) return;
        fired = true; firedAt = g_now;
        ev("fault", kind);
        logf("FAULT %d", kind);
        if (kind == Crash) { countFault(F_PROC_CRASH); Process *a = s.agent; processExit(a, 0xC0000005, true, "injected crash"); }
        else if (kind == Break) { if (control) breakServerPipe(control); }
        else if (kind == Stall) { countFault(F_STALL); for (Fiber *f : s.agent->fibers) f->stalledUntil = g_now + stallMs; if (g_cur && g_cur->proc == s.agent) maybeYield("stall"); }
    }
    void arm(Kind k) {
        kind = k;
        if (choose(FAULT, 2)) {            // at the n-th agent API call from now
            apiLeft = 1 + choose(FAULT, 60);
            h.w.onApi = [this](Process *p, const char *) { if (p == s.agent && apiLeft >= 0 && --apiLeft < 0) { apiLeft = -1; fire(); } };
        } else at(g_now + choose(FAULT, 60), [this] { fire(); });
    }
    // Checks what every completed call must satisfy.
    void judge(const char *what, int64_t t0, bool ok, DWORD code, bool cpFail = false) {
        int64_t el = g_now - t0;
        if (pendingIoOf(h.client.get(), g_cur)) violate("io-outstanding", fmt("%s returned while its pipe I/O was still in flight", what));
        if (el > 3 * timeout + slack()) violate("call-too-long", fmt("%s took %lld ms with an agent timeout of %lld ms", what, (long long)el, (long long)timeout));
        if (failed) {
            if (ok) violate("failed-session-answered", fmt("%s succeeded on a session whose connection had failed", what));
            if (code != WINPTY_ERROR_UNSPECIFIED) violate("failed-session-code", fmt("%s on a failed session reported error %u", what, (unsigned)code));
            if (el > 100 + 3 * g_sched.stallMax) violate("failed-session-slow", fmt("%s on a failed session took %lld ms", what, (long long)el));
            stat("calls-on-failed-session");
            return;
        }
        if (ok) { nOk++; return; }
        if (cpFail) return;
        nFail++; failed = true;
        writtenAtFail = control ? control->totalWritten : 0;
        stat(fmt("error-%u", (unsigned)code).c_str());
        if (!fired) violate("failed-without-cause", fmt("%s failed with error %u although nothing was wrong", what, (unsigned)code));
        bool gone = s.agent->exited;
        if (gone && g_now - std::max(t0, s.agent->exitTime) > 300 + 20 * g_sched.stallMax) violate("death-unnoticed", fmt("%s needed %lld ms to notice that the agent had died", what, (long long)(g_now - std::max(t0, s.agent->exitTime))));
        if (kind == Stall && stallMs + 20 * g_sched.stallMax + 500 < timeout) violate("gave-up-early", fmt("%s failed with error %u although the agent was only stalled for %lld of %lld ms", what, (unsigned)code, (long long)stallMs, (long long)timeout));
        switch (code) {
        case WINPTY_ERROR_AGENT_DIED: if (!gone) violate("untrue-error", fmt("%s reported that the agent died but it is running", what)); break;
        case WINPTY_ERROR_AGENT_TIMEOUT:
            if (el < timeout) violate("untrue-error", fmt("%s reported a timeout after %lld ms (timeout %lld ms)", what, (long long)el, (long long)timeout));
            if (kind != Stall) violate("untrue-error", fmt("%s reported a timeout but the agent was not stalled", what));
            break;
        case WINPTY_ERROR_LOST_CONNECTION: if (!gone && kind != Break) violate("untrue-error", fmt("%s reported a lost connection but the agent is connected", what)); break;
        case WINPTY_ERROR_UNSPECIFIED: if (!gone) violate("untrue-error", fmt("%s reported an unspecified error", what)); break;
        default: violate("untrue-error", fmt("%s reported error %u for a transport failure", what, (unsigned)code));
        }
    }
};

int handlesOf(Process *p) { int n = 0; for (auto &kv : p->handles) if (kv.second.origin.compare(0, 7, "initial") != 0) n++; return n; }
std::vector<int> pidsOf(Console *c) { std::vector<int> v; for (Process *p : c->attached) v.push_back((int)p->pid); std::sort(v.begin(), v.end()); return v; }

// Calls winpty_get_console_process_list and checks buffer discipline.
int procList(Rig &r, int cap, std::vector<int> &out, DWORD *code) {
    const int guard = 0x5a5a5a5a;
    std::vector<int> buf(cap + 8, guard);
    ErrP e = nullptr;
    int n = r.h.api.get_console_process_list(r.s.wp, buf.data(), cap, &e);
    for (int i = cap; i < cap + 8; ++i) if (buf[i] != guard) violate("proclist-overrun", fmt("winpty_get_console_process_list wrote element %d of a buffer of %d", i, cap));
    *code = e ? r.h.takeErr(e) : 0;
    if (!e && n >= 0 && n <= cap) { out.assign(buf.begin(), buf.begin() + n); for (int i = n; i < cap; ++i) if (buf[i] != guard) violate("proclist-overrun", "winpty_get_console_process_list wrote past the elements it reported"); }
    return n;
}

struct Spawner { // spawn with explicit results
    bool ok; DWORD code, cpe; HANDLE ph = nullptr, th = nullptr;
};
Spawner doSpawn(Rig &r, const char *prog, bool wantP, bool wantT, UINT64 flags = 0) {
    Spawner z; z.ok = false; z.code = z.cpe = 0;
    ErrP e = nullptr; ustr app = u16of(prog);
    SpawnP c = r.h.api.spawn_config_new(flags, W(app), nullptr, nullptr, nullptr, &e);
    if (!c) { z.code = r.h.takeErr(e); return z; }
    e = nullptr; z.cpe = 0xdeadbeef; z.ph = z.th = (HANDLE)(uintptr_t)0x5a5a;
    int before = handlesOf(r.h.client.get());
    BOOL ok = r.h.api.spawn(r.s.wp, c, wantP ? &z.ph : nullptr, wantT ? &z.th : nullptr, &z.cpe, &e);
    r.h.api.spawn_config_free(c);
    z.ok = ok; z.code = ok ? 0 : r.h.takeErr(e);
    if (!ok && !e) violate("no-error-object", "winpty_spawn failed without an error object");
    if (ok && e) violate("error-on-success", "winpty_spawn succeeded and set an error");
    if (!wantP) z.ph = nullptr; if (!wantT) z.th = nullptr;
    if (!ok) {
        if (z.ph || z.th) violate("spawn-handles", "winpty_spawn failed but left a handle in an output argument");
    } else {
        if (z.cpe) violate("spawn-cpe", "winpty_spawn succeeded but reported a CreateProcess error");
        int want = (wantP ? 1 : 0) + (wantT ? 1 : 0);
        if (handlesOf(r.h.client.get()) != before + want) violate("handle-count", fmt("winpty_spawn changed the client's handle count by %d instead of %d", handlesOf(r.h.client.get()) - before, want));
        for (int i = 0; i < 2; ++i) {
            HANDLE h = i ? z.th : z.ph; if (!(i ? wantT : wantP)) continue;
            HandleEntry *he = h ? lookup(r.h.client.get(), h, false, "spawn") : nullptr;
            if (!he || he->obj->type != (i ? O_THREAD : O_PROCESS)) violate("spawn-handles", fmt("winpty_spawn returned a %s handle that is not valid in the client", i ? "thread" : "process"));
            Process *p = i ? static_cast<ThreadObj *>(he->obj.get())->p : static_cast<Process *>(he->obj.get());
            if (p->parent != r.s.agent || p->kind != "app") violate("spawn-handles", "winpty_spawn returned a handle to another process");
        }
    }
    return z;
}

// A console program that keeps a changing set of children on the console.
struct Family {
    Harness &h; int target = 0, now = 0; bool quit = false; std::vector<ProcP> kids; bool busy = false; App *app = nullptr;
    // Starts n more children at this very moment (called from within another process's system call).
    void grow(int n) { if (!app || busy || quit) return; target += n; for (int i = 0; i < n; ++i) kids.push_back(h.consoleChild(*app, "kid", [this](App &) { waitFor("kid", [&] { return quit; }, -1); })); }
    explicit Family(Harness &hh) : h(hh) {
        h.programs["app"] = [this](App &a) {
            app = &a;
            for (;;) {
                waitFor("family", [&] { return quit || (int)kids.size() != target; }, -1);
                if (quit) { app = nullptr; return; }
                busy = true;
                while ((int)kids.size() < target) {
                    kids.push_back(h.consoleChild(a, "kid", [this](App &) { waitFor("kid", [&] { return quit; }, -1); }));
                }
                while ((int)kids.size() > target) {
                    size_t i = choose(GEN, (uint32_t)kids.size()); ProcP k = kids[i]; kids.erase(kids.begin() + i);
                    processExit(k.get(), 0);
                }
                busy = false;
            }
        };
    }
};

bool isAgent(const SpawnReq &q) { ustr p = q.haveApp ? q.app : q.cmdline; ustr t = u"winpty-agent.exe"; return p.size() >= t.size() && p.compare(p.size() - t.size(), t.size(), t) == 0; }

// ---- control protocol, written from the packet description in Buffer.h
struct Pkt {
    std::string b; Pkt() : b(8, '\0') {}
    void raw(const void *p, size_t n) { b.append((const char *)p, n); }
    void i32(int32_t v) { b.push_back(0); raw(&v, 4); }
    void i64(int64_t v) { b.push_back(1); raw(&v, 8); }
    void ws(const ustr &s) { b.push_back(2); uint64_t n = s.size(); raw(&n, 8); raw(s.data(), s.size() * 2); }
    std::string done() { uint64_t n = b.size(); memcpy(&b[0], &n, 8); return b; }
};
struct Unpack {
    std::string b; size_t o = 8;
    bool need(size_t n) { return b.size() >= o + n; }
    bool i32(int &v) { if (!need(5) || b[o] != 0) return false; int32_t x; memcpy(&x, &b[o + 1], 4); v = x; o += 5; return true; }
    bool i64(int64_t &v) { if (!need(9) || b[o] != 1) return false; memcpy(&v, &b[o + 1], 8); o += 9; return true; }
    bool ws(ustr &v) { if (!need(9) || b[o] != 2) return false; uint64_t n; memcpy(&n, &b[o + 1], 8); if (n > b.size() || !need(9 + n * 2)) return false; v.assign(n, 0); if (n) memcpy(&v[0], &b[o + 9], n * 2); o += 9 + n * 2; return true; }
    bool end() { return b.size() >= 8 && o == b.size(); }
};
// Receives packets through a server handle (client process of the harness).
struct WireReader {
    HANDLE p; std::string buf; bool failed = false;
    explicit WireReader(HANDLE h) : p(h) {}
    bool fill(size_t n) { while (buf.size() < n) { char t[4096]; DWORD got = 0; if (!ReadFile(p, t, sizeof t, &got, nullptr) || !got) { failed = true; return false; } buf.append(t, got); } return true; }
    Unpack next() { Unpack u; uint64_t n = 0; if (!fill(8)) return u; memcpy(&n, buf.data(), 8); if (n < 8 || n > (1u << 24)) violate("reply-wrong", fmt("the agent sent a packet with size %llu", (unsigned long long)n)); if (!fill(n)) return u; u.b = buf.substr(0, n); buf.erase(0, n); return u; }
};
ustr pipeArg(const SpawnReq &q) { // second word of the agent's command line
    size_t i = q.cmdline.find(u"\\\\.\\pipe\\"); if (i == ustr::npos) return u""; size_t j = q.cmdline.find(u' ', i); return q.cmdline.substr(i, j == ustr::npos ? j : j - i);
}
bool wantsDesktop(const SpawnReq &q) { return q.cmdline.find(u"--create-desktop") != ustr::npos; }
// A packet that no correct agent sends.
std::string spoil(std::string good, std::string &what) {
    auto put = [&](size_t at, uint64_t v) { memcpy(&good[at], &v, 8); };
    countFault(F_AGENT_BADREPLY);
    switch (choose(FAULT, 8)) {
    case 0: what = "size-too-small"; put(0, choose(FAULT, 8)); break;
    case 1: { static const uint64_t L[] = {0xffffffffffffffffull, 0x8000000000000000ull, 1ull << 40, 1ull << 31, 0x7fffffffffffffffull}; what = "size-huge"; put(0, L[choose(FAULT, 5)]); break; }
    case 2: what = "size-larger"; put(0, good.size() + 1 + choose(FAULT, 100)); break;
    case 3: if (good.size() > 8) { what = "wrong-tag"; good[8] = choose(FAULT, 2) ? (char)(good[8] == 0 ? 1 + choose(FAULT, 2) : 0) : (char)(good[8] == 0 ? 1 + choose(FAULT, 254) : 0); break; } // fall through
    case 4: what = "trailing"; good += std::string(1 + choose(FAULT, 20), (char)choose(FAULT, 256)); put(0, good.size()); break;
    case 5: if (good.size() > 8) { what = "truncated"; good.resize(8 + choose(FAULT, (uint32_t)(good.size() - 8))); put(0, good.size()); break; } what = "trailing"; good += "x"; put(0, good.size()); break;
    case 6: { what = "string-length"; static const uint64_t L[] = {0x7fffffffffffffffull, 0x4000000000000000ull, 0xffffffffffffffffull, 1ull << 33, 1000, 0x8000000000000000ull, 0x8000000000000001ull}; good.resize(8); good.push_back(2); uint64_t v = L[choose(FAULT, 7)]; good.append((char *)&v, 8); put(0, good.size()); break; }
    default: what = "empty"; if (good.size() == 8) { good += std::string("\0\1\0\0\0", 5); what = "trailing"; } else good.resize(8); put(0, good.size()); break;
    }
    return good;
}
// An agent that misbehaves during the opening handshake.
void startRogueOpen(Harness &h, ProcP c, const SpawnReq &q, int kind, int64_t timeout, bool *well) {
    c->kind = "rogue"; ustr name = pipeArg(q); bool desk = wantsDesktop(q); Process *p = c.get();
    bool conerr = q.cmdline.find(u"--create-desktop") == ustr::npos && (atoi(u8(q.cmdline.substr(q.cmdline.find(name) + name.size())).c_str()) & 1);
    *well = false; Harness *hp = &h;
    spawnThread(p, "rogue", [=] {
        sleepFor(choose(FAULT, 50));
        Pkt good; if (desk) good.ws(u""); else { good.ws(u"\\\\.\\pipe\\a"); good.ws(u"\\\\.\\pipe\\b"); if (conerr) good.ws(u"\\\\.\\pipe\\c"); }
        if (kind == 0) processExit(p, 1);                                   // dies at once
        if (kind == 1) { waitFor("never", [] { return false; }, -1); }      // never connects
        ActorPipe a;
        Process *owner = p; if (kind == 6) { owner = newProcess("impostor", nullptr).get(); }
        if (!a.open(owner, name, g_now + 3000)) { waitFor("never", [] { return false; }, -1); }
        if (kind == 2) { sleepFor(choose(FAULT, 40)); a.close(); }          // hangs up
        else if (kind == 3) { }                                             // stays silent
        else if (kind == 4) { std::string what; a.write(spoil(good.done(), what), g_now + 20000); if (choose(FAULT, 2)) a.close(); }
        else if (kind == 5) { std::string g = good.done(); a.write(g.substr(0, choose(FAULT, (uint32_t)g.size())), g_now + 20000); if (choose(FAULT, 2)) a.close(); }   // stops in the middle
        else { if (kind == 7 || hp->w.cfg.winver < 6) *well = true; a.write(good.done(), g_now + 20000); }   // 6: right words from the wrong process, 7: correct
        (void)timeout;
        waitFor("never", [] { return false; }, -1);
    });
}
bool rogueCodeOk(int kind, DWORD code, int winver) {
    switch (kind) {
    case 0: return code == WINPTY_ERROR_AGENT_DIED || code == WINPTY_ERROR_LOST_CONNECTION || code == WINPTY_ERROR_UNSPECIFIED;
    case 1: case 3: return code == WINPTY_ERROR_AGENT_TIMEOUT;
    case 2: return code == WINPTY_ERROR_LOST_CONNECTION || code == WINPTY_ERROR_UNSPECIFIED;
    case 4: return code == WINPTY_ERROR_UNSPECIFIED || code == WINPTY_ERROR_OUT_OF_MEMORY || code == WINPTY_ERROR_AGENT_TIMEOUT || code == WINPTY_ERROR_LOST_CONNECTION;
    case 5: return code == WINPTY_ERROR_AGENT_TIMEOUT || code == WINPTY_ERROR_LOST_CONNECTION || code == WINPTY_ERROR_UNSPECIFIED;
    case 6: return winver >= 6 && code == WINPTY_ERROR_UNSPECIFIED;
    }
    return false;
}
// An agent that serves requests, optionally answering one wrongly.
struct RogueCtl {
    bool bad = false, sentBad = false, disconnected = false; std::string what; uint64_t requests = 0; int lastA = 0, lastB = 0; uint32_t spawnErr = 0; std::vector<int> pids; ustr conin, conout;
};
void startRogueServer(Harness &h, ProcP c, const SpawnReq &q, RogueCtl *ctl) {
    (void)h; c->kind = "rogue"; ustr name = pipeArg(q); Process *p = c.get();
    ctl->conin = u"\\\\.\\pipe\\in-" + u16of(fmt("%u", choose(GEN, 1000))); ctl->conout = u"\\\\.\\pipe\\out"; ctl->conout.push_back(0x4E2D);
    spawnThread(p, "rogue", [=] {
        ActorPipe a; if (!a.open(p, name, g_now + 5000)) return;
        Pkt hello; hello.ws(ctl->conin); hello.ws(ctl->conout); a.write(hello.done());
        std::string in;
        for (;;) {
            auto need = [&](size_t n) { while (in.size() < n) { std::string s = a.read(4096); if (s.empty()) return false; in += s; } return true; };
            uint64_t n = 0; if (!need(8)) break; memcpy(&n, in.data(), 8); if (n < 8 || n > 1000000) violate("request-wrong", "the library sent a packet with a bad size"); if (!need(n)) break;
            Unpack u; u.b = in.substr(0, n); in.erase(0, n); ctl->requests++;
            int type = -1; if (!u.i32(type)) violate("request-wrong", "a request has no type");
            Pkt r;
            if (type == 1) { if (!u.i32(ctl->lastA) || !u.i32(ctl->lastB) || !u.end()) violate("request-wrong", "a SetSize request is malformed"); }
            else if (type == 2) { if (!u.end()) violate("request-wrong", "a GetConsoleProcessList request is malformed"); ctl->pids.clear(); int k = choose(GEN, 12); if (choose(GEN, 12) == 11) k = choose(GEN, 30000); for (int i = 0; i < k; ++i) ctl->pids.push_back(1 + (int)choose(GEN, 100000)); r.i32(k); for (int x : ctl->pids) r.i32(x); }
            else if (type == 0) { int64_t f; int w1, w2; ustr s; if (!u.i64(f) || !u.i32(w1) || !u.i32(w2)) violate("request-wrong", "a StartProcess request is malformed"); for (int i = 0; i < 5; ++i) if (!u.ws(s)) violate("request-wrong", "a StartProcess request is malformed"); if (!u.end()) violate("request-wrong", "a StartProcess request is too long");
                ctl->spawnErr = 1 + choose(GEN, 50000); r.i32(0); r.i32((int)ctl->spawnErr);
                if (ctl->bad && choose(FAULT, 3) == 2) { r = Pkt(); ctl->sentBad = true; ctl->what = "bogus-result"; countFault(F_AGENT_BADREPLY); if (choose(FAULT, 2)) { r.i32(choose(FAULT, 4) ? 2 + (int)choose(FAULT, 100) : -1); if (choose(FAULT, 2)) r.i32(5); else { r.i64(0); r.i64(0); } } else { r.i32(1); r.i64(0x7770 + 4 * choose(FAULT, 100)); r.i64(0); ctl->what = "bogus-handle"; } a.write(r.done()); continue; } }
            else violate("request-wrong", fmt("the library sent a request of unknown type %d", type));
            std::string s = r.done();
            if (ctl->bad) { ctl->sentBad = true; s = spoil(s, ctl->what); }
            // replies may arrive in pieces
            if (choose(FAULT, 3) == 2 && s.size() > 1 && s.size() < 200) { size_t k = 1 + choose(FAULT, (uint32_t)s.size() - 1); a.write(s.substr(0, k)); sleepFor(choose(FAULT, 100)); a.write(s.substr(k)); }
            else a.write(s);
        }
        ctl->disconnected = true;
    });
}
} // namespace
