// Simulated Windows kernel: processes, handles, waitable objects, named pipes,
// console objects.  See console.h for the console model.
#pragma once
#include "core.h"
#include <windows.h>

namespace sim {

typedef std::u16string ustr;
inline ustr U(const wchar_t *s) { ustr r; if (s) while (*s) r.push_back((char16_t)*s++); return r; }
inline const wchar_t *W(const ustr &s) { return reinterpret_cast<const wchar_t *>(s.c_str()); }
std::string u8(const ustr &s);
ustr u16of(const std::string &ascii);

struct Console;

enum ObjType { O_EVENT, O_PROCESS, O_THREAD, O_PIPE_SERVER, O_PIPE_CLIENT, O_CONIN, O_SCREEN,
               O_TOKEN, O_WINSTA, O_DESKTOP, O_FILE, O_MODULE };

struct KObject {
    ObjType type;
    int refs = 0;               // handle count
    std::string label;
    explicit KObject(ObjType t) : type(t) {}
    virtual ~KObject() {}
    virtual bool signaled() { return true; }
    virtual void lastHandleClosed() {}
};
typedef std::shared_ptr<KObject> ObjP;

struct EventObj : KObject {
    bool manual, state;
    EventObj(bool m, bool s) : KObject(O_EVENT), manual(m), state(s) {}
    bool signaled() override { return state; }
};

struct HandleEntry {
    ObjP obj;
    bool inherit = false;
    uint32_t access = 0;
    bool limited = false;          // a process or thread handle that only carries `access`
    std::string origin;
};

struct WinSta; struct Desktop;

// Overlapped operation.
struct IoOp {
    enum Kind { Read, Write, Connect, Transact } kind;
    Process *proc = nullptr;
    Fiber *issuer = nullptr;
    OVERLAPPED *ov = nullptr;
    std::shared_ptr<EventObj> event;
    char *buf = nullptr; uint32_t len = 0; uint32_t done = 0;
    bool completed = false; bool armed = false; bool canceled = false;
    uint32_t status = 0;        // win32 error
    bool sync = false;
    HANDLE h = nullptr;
    uint64_t seq = 0;
};
typedef std::shared_ptr<IoOp> IoP;

typedef std::vector<std::pair<std::string, uint32_t>> AclList;   // sid -> mask
struct PipeServer; struct PipeClient;
struct PipeEnd : KObject {
    using KObject::KObject;
    std::deque<IoP> reads, writes;
    std::string in;               // data waiting to be read by this end
    std::shared_ptr<std::string> tap;   // everything that ever arrived for this end
    void arrive(const char *p, size_t n) { in.append(p, n); if (tap) tap->append(p, n); }
    std::deque<std::string> msgs; // message mode input
    bool overlapped = false;
    bool closed = false;
    bool msgRead = false;
    uint32_t quotaIn = 4096;      // buffer quota of data waiting in `in`
    virtual PipeEnd *peer() = 0;
    virtual bool messageType() = 0;
    bool signaled() override { return false; }
};
struct PipeInstance;
struct PipeServer : PipeEnd {
    enum St { Listening, Connected, ClientGone, Disconnected } st = Listening;
    ustr name; uint32_t openMode = 0, pipeMode = 0, maxInst = 1, outSz = 0, inSz = 0;
    Process *owner = nullptr;
    std::shared_ptr<PipeClient> client;
    IoP connectOp;
    bool connectCalled = false;
    AclList acl; bool defaultAcl = true;
    std::string ownerUser;
    bool everConnected = false;
    uint64_t totalWritten = 0;
    bool connectCalledListening() { return st == Listening && connectOp && !connectOp->completed; }
    PipeServer() : PipeEnd(O_PIPE_SERVER) {}
    PipeEnd *peer() override;
    bool messageType() override { return (pipeMode & PIPE_TYPE_MESSAGE) != 0; }
    void lastHandleClosed() override;
};
struct PipeClient : PipeEnd {
    std::shared_ptr<PipeServer> server;
    Process *owner = nullptr;
    bool serverGone = false, forceNotConnected = false;
    PipeClient() : PipeEnd(O_PIPE_CLIENT) {}
    PipeEnd *peer() override;
    bool messageType() override { return server && server->messageType(); }
    void lastHandleClosed() override;
};

struct WinSta : KObject { ustr name; WinSta() : KObject(O_WINSTA) {} };
struct Desktop : KObject { ustr name; std::shared_ptr<WinSta> ws; Desktop() : KObject(O_DESKTOP) {} };
struct TokenObj : KObject { TokenObj() : KObject(O_TOKEN) {} };
struct FileObj : KObject { ustr path; FileObj() : KObject(O_FILE) {} };
struct ThreadObj : KObject {
    Process *p; Fiber *f = nullptr; bool exited = false;
    explicit ThreadObj(Process *pp) : KObject(O_THREAD), p(pp) {}
    bool signaled() override;
};

struct SpawnReq {
    ustr app, cmdline, cwd, env, desktop, title;
    bool haveApp = false, haveCmd = false, haveCwd = false, haveEnv = false, haveDesktop = false;
    uint32_t flags = 0; bool inherit = false;
    uint32_t siFlags = 0; HANDLE hin = 0, hout = 0, herr = 0; uint16_t show = 0;
};

struct Module;   // a loaded copy of repository code

struct Process : KObject {
    uint32_t pid = 0;
    std::string kind;
    ustr cmdline, cwd, env;
    bool haveEnv = false;
    bool exited = false;
    bool crashed = false;
    std::string crashWhy;
    uint32_t exitCode = 259;
    std::map<uintptr_t, HandleEntry> handles;
    std::set<uintptr_t> closedHandles;
    uintptr_t nextHandle = 0x40;
    std::vector<Fiber *> fibers;
    std::shared_ptr<Console> con;
    HANDLE stdIn = 0, stdOut = 0, stdErr = 0;
    std::shared_ptr<WinSta> winsta; std::shared_ptr<Desktop> desktop;
    std::map<std::string, std::string> envA;
    std::vector<BOOL(WINAPI *)(DWORD)> ctrlHandlers;
    bool ignoreCtrlC = false;
    Process *parent = nullptr;
    SpawnReq spawn;
    Module *mod = nullptr;
    int badHandleUses = 0;
    std::string firstBadHandle;
    uint64_t allocBytes = 0;
    std::function<void(int)> ctrlC;     // actor Ctrl-C callback
    std::function<void()> onExit;
    int64_t exitTime = -1, startTime = 0;
    bool detached = false;
    std::string user = "S-1-5-21-1000";
    HANDLE hWinsta = 0, hDesktop = 0;
    bool failSyscalls = false;      // target of injected system call failures
    bool crashable = false;         // target of injected crashes
    std::map<void *, size_t> localAllocs;
    int modulesLoaded = 0;
    int64_t heapLive = 0, heapCount = 0, heapPeak = 0, allocCalls = 0;   // operator new ledger
    std::map<std::string, std::string> files;
    bool cloexecHandles = false;
    std::vector<std::function<void()>> atExit;
    std::string out, err;           // stdout / stderr text
    bool stdoutBuffered = false; std::string outBuf;   // C stdio buffering: what was not flushed dies with the process
    std::function<void(const std::string &)> onStdout;
    std::function<void(uint32_t)> onTerminate;
    Process() : KObject(O_PROCESS) {}
    bool signaled() override { return exited; }
};
typedef std::shared_ptr<Process> ProcP;

struct WorldCfg {
    int winver = 10;           // 5 (XP), 6 (Vista), 7, 8, 10
    bool newW10 = false;       // new console (10)
    uint32_t tickBase = 0;     // GetTickCount at virtual time 0
    int codepage = 437;
    int largestX = 300, largestY = 120;
    uint32_t ioDelayMax = 0;   // ms
    uint32_t createDelay = 0;  // ms CreateProcess takes to return to its caller at most
    uint32_t fragPct = 0;      // percentage of reads that are fragmented
    bool interactiveStation = true;
    std::string debugEnv;      // WINPTY_DEBUG for agent and client
    int conInitCols = 80, conInitRows = 25, conInitBufRows = 300;
    bool alt_fonts = true;
    bool hasVistaFontApi = true;
    bool freezeMovesCursor = true;
    bool fontLimits = false;        // window limits follow the font
    bool fontFaceSettable = true;
    bool noRtlGenRandom = false;
    ustr installDir = u"C:\\winpty\\";    // where winpty.dll and winpty-agent.exe are installed
};
struct World {
    WorldCfg cfg;
    uint32_t nextPid = 1000;
    std::vector<ProcP> procs;
    std::vector<std::shared_ptr<PipeServer>> pipes;    // live server instances
    std::shared_ptr<WinSta> winsta0;
    std::shared_ptr<Desktop> desktopDefault;
    std::vector<std::weak_ptr<WinSta>> stations;
    std::vector<std::weak_ptr<Desktop>> desktops;
    std::vector<std::shared_ptr<Console>> consoles;
    // Called to create the process body for CreateProcessW; returns 0 or error.
    std::function<uint32_t(ProcP, const SpawnReq &)> exec;
    std::vector<IoP> pending;
    uint64_t ioSeq = 1;
    uint64_t rndCounter = 1;
    int64_t scrapeReads = 0;         // ReadConsoleOutputW count
    std::vector<std::string> badHandles;
    uint64_t pipesCreated = 0;
    std::function<void(PipeServer &)> onPipeCreate;
    std::function<void(Process *, const ustr &)> onPipePreCreate;
    std::function<void(const ustr &, std::shared_ptr<PipeServer>, std::shared_ptr<PipeClient>, uint32_t access, uint32_t flags)> onPipeOpen;
    std::function<void(Process *, const char *api)> onApi;
    std::function<void(Process *, const ustr &)> onOpenName;      // CreateFileW
    std::vector<std::shared_ptr<KObject>> keep;      // pipe ends live for the whole run
    std::string lastInjectedApi; uint32_t lastInjectedErr = 0; int injected = 0;
    std::function<bool(const ustr &path)> fileExists;
    std::function<void(unsigned char *, uint32_t)> onRandom;    // may alter the bytes handed out
    // A transaction starts (reply null) or ends.
    std::function<void(Process *, const std::string &msg, bool ok, const std::string *reply)> onTransact;
    std::set<std::string> failOnly;   // restrict injected failures to these calls
    bool failPersist = false;
};
extern World *g_w;

Process *curProc();
ProcP newProcess(const std::string &kind, Process *parent);
Fiber *spawnThread(Process *p, const std::string &name, std::function<void()> fn);
void processExit(Process *p, uint32_t code, bool crashed = false, const std::string &why = "");
[[noreturn]] void exitCurrentProcess(uint32_t code, bool crashed = false, const std::string &why = "");
ProcP findProc(uint32_t pid);
ProcP shareProc(Process *p);

void flushStdout(Process *p);
HANDLE addHandle(Process *p, ObjP o, bool inherit, uint32_t access, const std::string &origin);
HandleEntry *lookup(Process *p, HANDLE h, bool strict = true, const char *api = "");
template <class T> std::shared_ptr<T> objOf(HANDLE h, ObjType t, const char *api) {
    HandleEntry *e = lookup(curProc(), h, true, api);
    if (!e || e->obj->type != t) return nullptr;
    return std::static_pointer_cast<T>(e->obj);
}
bool closeHandleIn(Process *p, HANDLE h, const char *api);
int liveHandleCount(Process *p);
std::string handleReport(Process *p);

inline void setErr(uint32_t e) { if (g_cur) g_cur->lastError = e; }
// Entry of every API: log, preemption, crash injection.
void apiEnter(const char *api);
// True when the call must fail (sets last error).
bool failApi(const char *api, uint32_t err);

// pipes
void pumpPipe(PipeEnd *a);
void completeIo(const IoP &op, uint32_t status);
bool issueRead(const std::shared_ptr<PipeEnd> &e, HANDLE h, void *buf, uint32_t n, uint32_t *got, OVERLAPPED *ov);
bool issueWrite(const std::shared_ptr<PipeEnd> &e, HANDLE h, const void *buf, uint32_t n, uint32_t *got, OVERLAPPED *ov);
void breakServerPipe(PipeServer *s);   // fault: as if the client vanished
int pendingIoOf(Process *p, Fiber *f = nullptr);
bool cancelOp(const IoP &op);
void connectPipe(const std::shared_ptr<PipeServer> &s, const std::shared_ptr<PipeClient> &c);
std::shared_ptr<PipeServer> findPipe(const ustr &name, bool listeningOnly);

// Native client helpers for harness actors (no Win32 handles involved).
struct ActorPipe {
    std::shared_ptr<PipeClient> c;
    bool open(Process *p, const ustr &name, int64_t deadline = -1);
    // returns bytes, "" on EOF (eof set)
    bool eof = false;
    std::string read(size_t max, int64_t deadline = -1);   // blocks
    bool write(const std::string &s, int64_t deadline = -1); // blocks until placed
    void close();
};

// tracking
void noteBadHandle(Process *p, const std::string &what);

} // namespace sim
