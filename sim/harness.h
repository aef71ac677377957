// Scenario building blocks: client process with the libwinpty API, terminal
// actors, console programs, oracles.
#pragma once
#include "kernel.h"
#include "console.h"
#include "module.h"
#include "runner.h"
#include "term.h"

struct winpty_error_s; struct winpty_config_s; struct winpty_s; struct winpty_spawn_config_s;
typedef winpty_error_s *ErrP; typedef winpty_config_s *CfgP; typedef winpty_s *WpP; typedef winpty_spawn_config_s *SpawnP;

namespace sim {

struct Api {
    DWORD (*error_code)(ErrP);
    LPCWSTR (*error_msg)(ErrP);
    void (*error_free)(ErrP);
    CfgP (*config_new)(UINT64, ErrP *);
    void (*config_free)(CfgP);
    void (*config_set_initial_size)(CfgP, int, int);
    void (*config_set_mouse_mode)(CfgP, int);
    void (*config_set_agent_timeout)(CfgP, DWORD);
    WpP (*open)(CfgP, ErrP *);
    HANDLE (*agent_process)(WpP);
    LPCWSTR (*conin_name)(WpP);
    LPCWSTR (*conout_name)(WpP);
    LPCWSTR (*conerr_name)(WpP);
    SpawnP (*spawn_config_new)(UINT64, LPCWSTR, LPCWSTR, LPCWSTR, LPCWSTR, ErrP *);
    void (*spawn_config_free)(SpawnP);
    BOOL (*spawn)(WpP, SpawnP, HANDLE *, HANDLE *, DWORD *, ErrP *);
    BOOL (*set_size)(WpP, int, int, ErrP *);
    int (*get_console_process_list)(WpP, int *, const int, ErrP *);
    void (*free)(WpP);
    void load(Module *m);
};

// A console program: the body of a simulated child process.
struct App {
    Process *p; Console *con; ScreenBuf *out() { return con->active.get(); }
    std::shared_ptr<Process> self;
};
typedef std::function<void(App &)> Program;

struct Session {
    WpP wp = nullptr;
    Process *agent = nullptr;
    Console *con = nullptr;
    ustr conin, conout, conerr;
    int cols = 80, rows = 25;
};

struct Reader {                 // consumer of one output pipe
    ActorPipe pipe; Term term;
    bool eof = false, opened = false, stop = false, stopped = false;
    std::string all; bool keep = false;
    int maxChunk = 4096; int pausePct = 0; int pauseMax = 200;
    bool paused = false;
    int openDelay = 0;
    int64_t eofTime = -1, lastData = 0, openTime = 0;
    Fiber *fiber = nullptr;
};

struct Harness {
    World w;
    Api api;
    ProcP client;
    std::map<std::string, Program> programs;
    std::vector<ProcP> agents;
    std::function<uint32_t(ProcP, const SpawnReq &)> execHook;   // returns ~0u to use the default
    bool done = false;

    Harness();
    // World with randomised environment.  richness 0: calm, 1: realistic delays.
    void world(int level);
    void start(std::function<void()> body);      // creates the client and runs the simulation
    void run();
    void finish();
    // --- client helpers (client fiber only)
    struct OpenOpts { UINT64 flags = 0; int cols = 80, rows = 25; int mouse = 1; DWORD timeout = 0; };
    WpP tryOpen(const OpenOpts &o, DWORD *code);
    Session open(const OpenOpts &o);             // must succeed
    struct SpawnOpts { UINT64 flags = 1; const char *prog = "app"; HANDLE *ph = nullptr, *th = nullptr; bool must = true; DWORD *cpErr = nullptr; DWORD *code = nullptr; };
    bool spawn(Session &s, const SpawnOpts &o);
    Reader *startReader(const ustr &name, Process *owner = nullptr);
    void closeSession(Session &s);
    DWORD takeErr(ErrP e);                       // code and free
    Process *agentOf(WpP wp);
    Process *childOf(Session &s);
    // Another program on the same console, started by a console program.
    ProcP consoleChild(App &a, const std::string &name, Program body);
    // final generic invariants
    void checkBadHandles(Process *p, const char *cls);
};
extern Harness *g_h;

// Blocks the current fiber (harness fibers only).
bool waitFor(const char *what, std::function<bool()> f, int64_t ms);
// Polls f every few virtual ms (cheaper than waitFor for expensive checks).
bool pollFor(std::function<bool()> f, int64_t ms, int step = 10);

// Compares the terminal with the console window.  Empty string: equal.
struct MatchOpts { bool attrs = true; bool cursor = true; bool skipCleared = false; bool err = false; int ptyW = 0, ptyH = 0; };
std::string screenMismatch(Term &t, ScreenBuf &b, WORD attrMask, const MatchOpts &o = MatchOpts());
WORD lvbMask(Console &c, ScreenBuf &b);
Sgr sgrOf(WORD attr);
std::string conRowText(ScreenBuf &b, int y);

INPUT_RECORD keyRec(bool down, WORD vk, WORD sc, wchar_t ch, DWORD state);
} // namespace sim
