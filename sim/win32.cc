// The Win32 API surface used by the code under test, on the simulated kernel.
#include "console.h"
#include "module.h"
#include <aclapi.h>
#include <string.h>
#include <stdio.h>
#include <wincon.h>
#include <wincrypt.h>

using namespace sim;

#define API(name) apiEnter(name); Process *const P = curProc(); (void)P

static const uint32_t kMaxPath = 260;
static std::shared_ptr<PipeEnd> pipeEnd(HandleEntry *e) {
    if (!e) return nullptr;
    if (e->obj->type == O_PIPE_SERVER) return std::static_pointer_cast<PipeServer>(e->obj);
    if (e->obj->type == O_PIPE_CLIENT) return std::static_pointer_cast<PipeClient>(e->obj);
    return nullptr;
}
static BOOL fail(uint32_t e) { setErr(e); return FALSE; }
static HANDLE const kCurProcess = (HANDLE)(intptr_t)-1;
static HANDLE const kCurThread = (HANDLE)(intptr_t)-2;

extern "C" {

// ------------------------------------------------------------ basic
DWORD WINAPI GetLastError(void) { return g_cur ? g_cur->lastError : 0; }
void WINAPI SetLastError(DWORD e) { setErr(e); }
HANDLE WINAPI GetCurrentProcess(void) { return kCurProcess; }
HANDLE WINAPI GetCurrentThread(void) { return kCurThread; }
DWORD WINAPI GetCurrentProcessId(void) { return curProc()->pid; }
DWORD WINAPI GetCurrentThreadId(void) { return g_cur->tid; }
DWORD WINAPI GetTickCount(void) { apiEnter("GetTickCount"); return (DWORD)(g_w->cfg.tickBase + (uint64_t)g_now); }
ULONGLONG WINAPI GetTickCount64(void) { apiEnter("GetTickCount64"); return g_w->cfg.tickBase + (uint64_t)g_now; }
void WINAPI GetSystemTimeAsFileTime(LPFILETIME ft) {
    uint64_t t = 131000000000000000ull + (uint64_t)g_now * 10000;
    ft->dwLowDateTime = (DWORD)t; ft->dwHighDateTime = (DWORD)(t >> 32);
}
WINBOOL WINAPI QueryPerformanceCounter(LARGE_INTEGER *p) { p->QuadPart = g_now * 1000; return TRUE; }
WINBOOL WINAPI QueryPerformanceFrequency(LARGE_INTEGER *p) { p->QuadPart = 1000000; return TRUE; }
void WINAPI Sleep(DWORD ms) {
    API("Sleep");
    ev("Sleep", ms);
    if (ms == INFINITE) blockUntil("sleep-forever", [] { return false; });
    else sleepFor(ms);
}
WINBOOL WINAPI CloseHandle(HANDLE h) {
    API("CloseHandle");
    if (h == kCurProcess || h == kCurThread) return TRUE;
    if (!closeHandleIn(P, h, "CloseHandle")) {
        if (h == nullptr || h == INVALID_HANDLE_VALUE) noteBadHandle(P, "CloseHandle on a null/invalid handle");
        return fail(ERROR_INVALID_HANDLE);
    }
    return TRUE;
}
WINBOOL WINAPI DuplicateHandle(HANDLE sp, HANDLE sh, HANDLE tp, LPHANDLE out, DWORD access, WINBOOL inherit, DWORD opt) {
    API("DuplicateHandle");
    auto proc = [&](HANDLE h) -> Process * {
        if (h == kCurProcess) return P;
        auto o = objOf<Process>(h, O_PROCESS, "DuplicateHandle");
        return o.get();
    };
    Process *src = proc(sp), *dst = proc(tp);
    if (!src || !dst) return fail(ERROR_INVALID_HANDLE);
    if (failApi("DuplicateHandle", ERROR_ACCESS_DENIED)) return FALSE;
    if (src->exited || dst->exited) return fail(ERROR_ACCESS_DENIED);
    ObjP o; bool inh = inherit, limited = !(opt & DUPLICATE_SAME_ACCESS); uint32_t acc = access;
    if (sh == kCurProcess) o = shareProc(src);
    else {
        HandleEntry *e = lookup(src, sh, src == P, "DuplicateHandle");
        if (!e) return fail(ERROR_INVALID_HANDLE);
        o = e->obj;
        if (o->type != O_PROCESS && o->type != O_THREAD) { limited = false; acc = e->access; }
        else if (!limited) { limited = e->limited; acc = e->access; }
    }
    if (out) {
        *out = addHandle(dst, o, inh, acc, std::string("DuplicateHandle:") + o->label);
        if (limited) lookup(dst, *out, false, "DuplicateHandle")->limited = true;
    }
    if ((opt & DUPLICATE_CLOSE_SOURCE) && sh != kCurProcess) closeHandleIn(src, sh, "DuplicateHandle");
    ev("dup", src->pid, dst->pid);
    return TRUE;
}
HANDLE WINAPI CreateEventW(LPSECURITY_ATTRIBUTES, WINBOOL manual, WINBOOL state, LPCWSTR) {
    API("CreateEventW");
    if (failApi("CreateEventW", ERROR_NO_SYSTEM_RESOURCES)) return nullptr;
    auto e = std::make_shared<EventObj>(manual != 0, state != 0);
    setErr(0);
    return addHandle(P, e, false, 0, "CreateEventW");
}
WINBOOL WINAPI SetEvent(HANDLE h) {
    API("SetEvent");
    auto e = objOf<EventObj>(h, O_EVENT, "SetEvent");
    if (!e) return fail(ERROR_INVALID_HANDLE);
    e->state = true; ev("SetEvent"); return TRUE;
}
WINBOOL WINAPI ResetEvent(HANDLE h) {
    API("ResetEvent");
    auto e = objOf<EventObj>(h, O_EVENT, "ResetEvent");
    if (!e) return fail(ERROR_INVALID_HANDLE);
    e->state = false; return TRUE;
}
// A handle duplicated without DUPLICATE_SAME_ACCESS allows only what was asked for.
static bool permits(Process *P, HANDLE h, uint32_t need) {
    HandleEntry *e = lookup(P, h, false, "access");
    return !e || !e->limited || (e->access & need);
}
static ObjP waitable(Process *P, HANDLE h, const char *api) {
    if (h == kCurProcess) return shareProc(P);
    HandleEntry *e = lookup(P, h, true, api);
    if (e && !permits(P, h, SYNCHRONIZE)) return nullptr;
    return e ? e->obj : nullptr;
}
DWORD WINAPI WaitForMultipleObjects(DWORD n, const HANDLE *h, WINBOOL all, DWORD ms) {
    API("WaitForMultipleObjects");
    if (n == 0 || n > MAXIMUM_WAIT_OBJECTS) { setErr(ERROR_INVALID_PARAMETER); return WAIT_FAILED; }
    if (failApi("WaitForMultipleObjects", ERROR_NO_SYSTEM_RESOURCES)) return WAIT_FAILED;
    std::vector<ObjP> objs;
    for (DWORD i = 0; i < n; ++i) {
        ObjP o = waitable(P, h[i], "WaitForMultipleObjects");
        if (!o) { setErr(ERROR_INVALID_HANDLE); return WAIT_FAILED; }
        objs.push_back(o);
    }
    auto ready = [&]() -> int {
        int first = -1, cnt = 0;
        for (size_t i = 0; i < objs.size(); ++i) if (objs[i]->signaled()) { if (first < 0) first = (int)i; cnt++; }
        if (all) return cnt == (int)objs.size() ? 0 : -1;
        return first;
    };
    auto consume = [&](size_t i) {
        if (objs[i]->type == O_EVENT) { auto *e = static_cast<EventObj *>(objs[i].get()); if (!e->manual) e->state = false; }
    };
    int r = ready();
    if (r < 0) {
        if (ms == 0) return WAIT_TIMEOUT;
        blockUntil("WaitForMultipleObjects", [&] { return ready() >= 0; }, ms == INFINITE ? -1 : g_now + ms);
        r = ready();
        if (r < 0) { ev("wait-timeout", ms); return WAIT_TIMEOUT; }
    }
    if (all) for (size_t i = 0; i < objs.size(); ++i) consume(i); else consume(r);
    ev("wait", r);
    return WAIT_OBJECT_0 + r;
}
DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD ms) { return WaitForMultipleObjects(1, &h, FALSE, ms); }
DWORD WINAPI WaitForSingleObjectEx(HANDLE h, DWORD ms, WINBOOL) { return WaitForMultipleObjects(1, &h, FALSE, ms); }
DWORD WINAPI WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, WINBOOL all, DWORD ms, WINBOOL) { return WaitForMultipleObjects(n, h, all, ms); }

void WINAPI InitializeCriticalSection(LPCRITICAL_SECTION cs) { memset((void *)cs, 0, sizeof *cs); cs->LockCount = -1; }
WINBOOL WINAPI InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION cs, DWORD) { InitializeCriticalSection(cs); return TRUE; }
void WINAPI DeleteCriticalSection(LPCRITICAL_SECTION cs) {
    if (cs->OwningThread) violate("cs-delete", "a critical section was deleted while held");
    memset((void *)cs, 0xdd, sizeof *cs);
}
void WINAPI EnterCriticalSection(LPCRITICAL_SECTION cs) {
    API("EnterCriticalSection");
    HANDLE me = (HANDLE)(uintptr_t)g_cur->tid;
    if (cs->OwningThread == me) { cs->RecursionCount++; return; }
    if (cs->OwningThread) blockUntil("EnterCriticalSection", [cs] { return cs->OwningThread == nullptr; });
    cs->OwningThread = me; cs->RecursionCount = 1;
    ev("cs-enter");
}
WINBOOL WINAPI TryEnterCriticalSection(LPCRITICAL_SECTION cs) {
    API("TryEnterCriticalSection");
    HANDLE me = (HANDLE)(uintptr_t)g_cur->tid;
    if (cs->OwningThread == me) { cs->RecursionCount++; return TRUE; }
    if (cs->OwningThread) return FALSE;
    cs->OwningThread = me; cs->RecursionCount = 1; return TRUE;
}
void WINAPI LeaveCriticalSection(LPCRITICAL_SECTION cs) {
    HANDLE me = (HANDLE)(uintptr_t)g_cur->tid;
    if (cs->OwningThread != me) violate("cs-leave", "a critical section was left by a thread that does not own it");
    if (--cs->RecursionCount == 0) cs->OwningThread = nullptr;
    maybeYield("LeaveCriticalSection");
}

DWORD WINAPI GetEnvironmentVariableA(LPCSTR name, LPSTR buf, DWORD n) {
    API("GetEnvironmentVariableA");
    auto it = P->envA.find(name);
    if (it == P->envA.end()) { setErr(ERROR_ENVVAR_NOT_FOUND); return 0; }
    if (it->second.size() + 1 > n) return (DWORD)it->second.size() + 1;
    memcpy(buf, it->second.c_str(), it->second.size() + 1);
    return (DWORD)it->second.size();
}
DWORD WINAPI GetEnvironmentVariableW(LPCWSTR name, LPWSTR buf, DWORD n) {
    API("GetEnvironmentVariableW");
    auto it = P->envA.find(u8(U(name)));
    if (it == P->envA.end()) { setErr(ERROR_ENVVAR_NOT_FOUND); return 0; }
    if (it->second.size() + 1 > n) return (DWORD)it->second.size() + 1;
    for (size_t i = 0; i <= it->second.size(); ++i) buf[i] = (wchar_t)(unsigned char)it->second.c_str()[i];
    return (DWORD)it->second.size();
}
WINBOOL WINAPI SetEnvironmentVariableW(LPCWSTR name, LPCWSTR v) {
    API("SetEnvironmentVariableW");
    if (v) P->envA[u8(U(name))] = u8(U(v)); else P->envA.erase(u8(U(name)));
    return TRUE;
}
WINBOOL WINAPI SetEnvironmentVariableA(LPCSTR name, LPCSTR v) { API("SetEnvironmentVariableA"); if (v) P->envA[name] = v; else P->envA.erase(name); return TRUE; }
DWORD WINAPI FormatMessageW(DWORD flags, LPCVOID, DWORD id, DWORD, LPWSTR out, DWORD, va_list *) {
    API("FormatMessageW");
    if (!(flags & FORMAT_MESSAGE_ALLOCATE_BUFFER)) return fail(ERROR_INVALID_PARAMETER);
    if (id == 0xdead) return fail(ERROR_MR_MID_NOT_FOUND);
    ustr t = u16of(fmt("System error %u.\r\n", (unsigned)id));
    char16_t *p = (char16_t *)LocalAlloc(0, (t.size() + 1) * 2); if (!p) return 0;
    memcpy(p, t.c_str(), (t.size() + 1) * 2); *(char16_t **)out = p; return (DWORD)t.size();
}
LPWSTR WINAPI GetCommandLineW(void) { API("GetCommandLineW"); return (LPWSTR)const_cast<wchar_t *>(W(P->cmdline)); }

LPWSTR *WINAPI CommandLineToArgvW(LPCWSTR cmd, int *argc) {
    std::vector<ustr> out;
    const wchar_t *p = cmd;
    // first argument: simple quoting rule
    ustr cur; 
    if (*p == '"') { ++p; while (*p && *p != '"') cur.push_back(*p++); if (*p) ++p; }
    else while (*p && *p != ' ' && *p != '\t') cur.push_back(*p++);
    out.push_back(cur);
    for (;;) {
        while (*p == ' ' || *p == '\t') ++p;
        if (!*p) break;
        cur.clear();
        bool q = false;
        for (;;) {
            int bs = 0;
            while (*p == '\\') { ++bs; ++p; }
            if (*p == '"') {
                for (int i = 0; i < bs / 2; ++i) cur.push_back('\\');
                if (bs & 1) { cur.push_back('"'); ++p; }
                else if (q && p[1] == '"') { cur.push_back('"'); p += 2; }
                else { q = !q; ++p; }
                continue;
            }
            for (int i = 0; i < bs; ++i) cur.push_back('\\');
            if (!*p || (!q && (*p == ' ' || *p == '\t'))) break;
            cur.push_back(*p++);
        }
        out.push_back(cur);
    }
    LPWSTR *r = new LPWSTR[out.size() + 1];
    for (size_t i = 0; i < out.size(); ++i) {
        r[i] = new wchar_t[out[i].size() + 1];
        memcpy(r[i], out[i].c_str(), (out[i].size() + 1) * 2);
    }
    r[out.size()] = nullptr;
    *argc = (int)out.size();
    return r;
}

WINBOOL WINAPI GetVersionExW(LPOSVERSIONINFOW v) {
    int ver = g_w->cfg.winver;
    v->dwPlatformId = 2; v->dwBuildNumber = 7601;
    switch (ver) {
    case 5: v->dwMajorVersion = 5; v->dwMinorVersion = 1; break;
    case 6: v->dwMajorVersion = 6; v->dwMinorVersion = 0; break;
    case 7: v->dwMajorVersion = 6; v->dwMinorVersion = 1; break;
    default: v->dwMajorVersion = 6; v->dwMinorVersion = 2; break;
    }
    if (v->dwOSVersionInfoSize >= sizeof(OSVERSIONINFOEXW)) {
        auto *x = (OSVERSIONINFOEXW *)v;
        x->wProductType = 1;
    }
    return TRUE;
}
UINT WINAPI GetSystemDirectoryW(LPWSTR b, UINT n) {
    ustr s = u"C:\\Windows\\System32";
    if (n <= s.size()) return (UINT)s.size() + 1;
    memcpy(b, s.c_str(), (s.size() + 1) * 2);
    return (UINT)s.size();
}

// ------------------------------------------------------------ modules
WINBOOL WINAPI GetModuleHandleExW(DWORD, LPCWSTR, HMODULE *m) { API("GetModuleHandleExW"); *m = (HMODULE)(uintptr_t)0x400000; return TRUE; }
HMODULE WINAPI GetModuleHandleW(LPCWSTR) { return (HMODULE)(uintptr_t)0x400000; }
static ustr modPath(Process *p) { return g_w->cfg.installDir + u16of(p->kind == "agent" ? "winpty-agent.exe" : p->kind == "client" || p->kind == "adapter" ? "winpty.dll" : p->kind + ".exe"); }
DWORD WINAPI GetModuleFileNameW(HMODULE, LPWSTR b, DWORD n) {
    API("GetModuleFileNameW");
    ustr s = modPath(P);
    if (n <= s.size()) { setErr(ERROR_INSUFFICIENT_BUFFER); return n; }
    memcpy(b, s.c_str(), (s.size() + 1) * 2);
    return (DWORD)s.size();
}
DWORD WINAPI GetModuleFileNameA(HMODULE, LPSTR b, DWORD n) {
    API("GetModuleFileNameA");
    std::string s = u8(modPath(P));
    if (n <= s.size()) return n;
    memcpy(b, s.c_str(), s.size() + 1);
    return (DWORD)s.size();
}
DWORD WINAPI GetFileAttributesW(LPCWSTR path) {
    API("GetFileAttributesW");
    if (failApi("GetFileAttributesW", ERROR_FILE_NOT_FOUND)) return INVALID_FILE_ATTRIBUTES;
    if (g_w->fileExists && !g_w->fileExists(U(path))) { setErr(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; }
    return FILE_ATTRIBUTE_NORMAL;
}
HMODULE WINAPI LoadLibraryW(LPCWSTR name) {
    API("LoadLibraryW");
    P->modulesLoaded++;
    ustr n = U(name);
    uintptr_t h = n.find(u"advapi") != ustr::npos ? 0x7000000 : n.find(u"version") != ustr::npos ? 0x7200000 : 0x7100000;
    return (HMODULE)h;
}
WINBOOL WINAPI FreeLibrary(HMODULE) { API("FreeLibrary"); if (--P->modulesLoaded < 0) noteBadHandle(P, "FreeLibrary without a matching load"); return TRUE; }

// Functions only reachable through GetProcAddress.
static BOOLEAN WINAPI simRtlGenRandom(PVOID b, ULONG n) {
    API("SystemFunction036");
    if (failApi("SystemFunction036", ERROR_NO_SYSTEM_RESOURCES)) return FALSE;
    unsigned char *c = (unsigned char *)b;
    for (ULONG i = 0; i < n; ++i) { uint64_t x = mix(0x1234567, g_w->rndCounter++); c[i] = (unsigned char)(x >> 24); }
    if (g_w->onRandom) g_w->onRandom(c, n);
    ev("rand", n);
    return TRUE;
}
static WINBOOL WINAPI simGetNamedPipeClientProcessId(HANDLE h, PULONG pid) {
    API("GetNamedPipeClientProcessId");
    auto s = objOf<PipeServer>(h, O_PIPE_SERVER, "GetNamedPipeClientProcessId");
    if (!s) return fail(ERROR_INVALID_HANDLE);
    if (failApi("GetNamedPipeClientProcessId", ERROR_PIPE_NOT_CONNECTED)) return FALSE;
    if (s->st != PipeServer::Connected || !s->client) {
        return fail(ERROR_PIPE_NOT_CONNECTED);
    }
    *pid = s->client->owner ? s->client->owner->pid : 0;
    ev("client-pid", *pid);
    return TRUE;
}
static int fontWidth(int size) { return size <= 5 ? 3 : (size * 3 + 2) / 5; }
struct FontInfo { DWORD nFont; COORD size; };
struct FontInfoEx { ULONG cb; DWORD nFont; COORD size; UINT fam, weight; WCHAR face[32]; };
static ScreenP screenOf(Process *P, HANDLE h, const char *api);
static void applyFont(Console *c, int size) {
    c->fontSize = size;
    int w = fontWidth(size);
    // monitor of 1920x1080; the window itself needs roughly 120 pixels
    if (g_w->cfg.fontLimits) {
        c->largestX = std::max(20, 1900 / w); c->largestY = std::max(10, 1000 / size);
        c->minBufWidth = std::max(1, std::min(20, 100 / w));   // the agent relies on 20 columns always being possible
    }
    if (c->frozen && g_w->cfg.newW10)
        violate("conhost-hang", "the console font was changed while a selection was in progress on the new Windows 10 console");
}
static WINBOOL WINAPI simGetCurrentConsoleFont(HANDLE h, WINBOOL, FontInfo *f) {
    API("GetCurrentConsoleFont");
    auto s = screenOf(P, h, "GetCurrentConsoleFont"); if (!s) return fail(ERROR_INVALID_HANDLE);
    f->nFont = 0; f->size.X = fontWidth(s->con->fontSize); f->size.Y = s->con->fontSize; return TRUE;
}
static COORD WINAPI simGetConsoleFontSize(HANDLE h, DWORD i) {
    API("GetConsoleFontSize");
    COORD c = {0, 0};
    static const short sz[] = {6, 8, 12, 14, 16};
    if (i < 5) { c.Y = sz[i]; c.X = fontWidth(sz[i]); }
    return c;
}
static DWORD WINAPI simGetNumberOfConsoleFonts(void) { API("GetNumberOfConsoleFonts"); return 5; }
static WINBOOL WINAPI simSetConsoleFont(HANDLE h, DWORD i) {
    API("SetConsoleFont");
    auto s = screenOf(P, h, "SetConsoleFont"); if (!s) return fail(ERROR_INVALID_HANDLE);
    static const short sz[] = {6, 8, 12, 14, 16};
    if (i >= 5) return fail(ERROR_INVALID_PARAMETER);
    applyFont(s->con, sz[i]); ev("font", i); return TRUE;
}
static WINBOOL WINAPI simGetCurrentConsoleFontEx(HANDLE h, WINBOOL, FontInfoEx *f) {
    API("GetCurrentConsoleFontEx");
    auto s = screenOf(P, h, "GetCurrentConsoleFontEx"); if (!s) return fail(ERROR_INVALID_HANDLE);
    Console *c = s->con;
    f->nFont = 0; f->size.X = fontWidth(c->fontSize); f->size.Y = c->fontSize; f->fam = 0x36; f->weight = 400;
    memset(f->face, 0, sizeof f->face);
    for (size_t i = 0; i < c->fontFace.size() && i < 31; ++i) f->face[i] = c->fontFace[i];
    return TRUE;
}
static WINBOOL WINAPI simSetCurrentConsoleFontEx(HANDLE h, WINBOOL, FontInfoEx *f) {
    API("SetCurrentConsoleFontEx");
    auto s = screenOf(P, h, "SetCurrentConsoleFontEx"); if (!s) return fail(ERROR_INVALID_HANDLE);
    Console *c = s->con;
    ustr face; for (int i = 0; i < 32 && f->face[i]; ++i) face.push_back(f->face[i]);
    if (g_w->cfg.fontFaceSettable) c->fontFace = face;
    applyFont(c, f->size.Y);
    ev("fontex", f->size.Y);
    return TRUE;
}
static BOOL WINAPI simIsWow64(HANDLE, BOOL *b) { *b = FALSE; return TRUE; }
static DWORD WINAPI simGetFileVersionInfoSizeW(LPCWSTR p, DWORD *) {
    ustr s = U(p);
    if (s.find(u"ConEmu") != ustr::npos) { setErr(ERROR_FILE_NOT_FOUND); return 0; }
    return 64;
}
static BOOL WINAPI simGetFileVersionInfoW(LPCWSTR, DWORD, DWORD n, void *b) { memset(b, 0, n); return TRUE; }
static BOOL WINAPI simVerQueryValueW(const void *b, LPCWSTR, void **out, UINT *n) {
    static VS_FIXEDFILEINFO v; memset(&v, 0, sizeof v); v.dwSignature = 0xFEEF04BD; v.dwFileVersionMS = 0x60001;
    *out = &v; *n = sizeof v; return TRUE;
}
FARPROC WINAPI GetProcAddress(HMODULE, LPCSTR name) {
    API("GetProcAddress");
    std::string n = name; int ver = g_w->cfg.winver;
    const WorldCfg &c = g_w->cfg;
#define R(x) return (FARPROC)(x)
    if (n == "SystemFunction036") { if (c.noRtlGenRandom) { setErr(ERROR_PROC_NOT_FOUND); return nullptr; } R(simRtlGenRandom); }
    if (n == "GetNamedPipeClientProcessId" && ver >= 6) R(simGetNamedPipeClientProcessId);
    if (n == "GetCurrentConsoleFont") R(simGetCurrentConsoleFont);
    if (n == "GetConsoleFontSize") R(simGetConsoleFontSize);
    if (n == "SetConsoleFont") R(simSetConsoleFont);
    if (n == "GetNumberOfConsoleFonts") R(simGetNumberOfConsoleFonts);
    if (n == "GetCurrentConsoleFontEx" && ver >= 6) R(simGetCurrentConsoleFontEx);
    if (n == "SetCurrentConsoleFontEx" && ver >= 6) R(simSetCurrentConsoleFontEx);
    if (n == "IsWow64Process") R(simIsWow64);
    if (n == "GetFileVersionInfoSizeW") R(simGetFileVersionInfoSizeW);
    if (n == "GetFileVersionInfoW") R(simGetFileVersionInfoW);
    if (n == "VerQueryValueW") R(simVerQueryValueW);
#undef R
    setErr(ERROR_PROC_NOT_FOUND);
    return nullptr;
}
WINBOOL WINAPI CryptAcquireContextW(HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) { API("CryptAcquireContextW"); if (failApi("CryptAcquireContextW", 5)) return FALSE; *p = 77; P->modulesLoaded++; return TRUE; }
WINBOOL WINAPI CryptReleaseContext(HCRYPTPROV, DWORD) { API("CryptReleaseContext"); P->modulesLoaded--; return TRUE; }
WINBOOL WINAPI CryptGenRandom(HCRYPTPROV, DWORD n, BYTE *b) { return simRtlGenRandom(b, n); }

// ------------------------------------------------------------ text
int WINAPI WideCharToMultiByte(UINT, DWORD, LPCWCH s, int n, LPSTR out, int cap, LPCCH, LPBOOL) {
    if (n == 0) { setErr(ERROR_INVALID_PARAMETER); return 0; }
    ustr w;
    if (n < 0) { w = U(s); w.push_back(0); } else for (int i = 0; i < n; ++i) w.push_back((char16_t)s[i]);
    std::string r = u8(w);
    if (cap == 0) return (int)r.size();
    if ((int)r.size() > cap) { setErr(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, r.data(), r.size());
    return (int)r.size();
}
int WINAPI MultiByteToWideChar(UINT, DWORD, LPCCH s, int n, LPWSTR out, int cap) {
    std::string in = n < 0 ? std::string(s, strlen(s) + 1) : std::string(s, n);
    ustr r;
    for (size_t i = 0; i < in.size();) {
        unsigned char c = in[i]; uint32_t v; int len = c < 0x80 ? 1 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1;
        if (i + len > in.size()) len = 1;
        if (len == 1) v = c < 0x80 ? c : 0xFFFD;
        else { v = c & (0xFF >> (len + 1)); for (int k = 1; k < len; ++k) v = v << 6 | (in[i + k] & 63); }
        i += len;
        if (v > 0xFFFF) { v -= 0x10000; r.push_back(0xD800 + (v >> 10)); r.push_back(0xDC00 + (v & 0x3FF)); } else r.push_back((char16_t)v);
    }
    if (cap == 0) return (int)r.size();
    if ((int)r.size() > cap) { setErr(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, r.data(), r.size() * 2);
    return (int)r.size();
}

// ------------------------------------------------------------ security
HLOCAL WINAPI LocalAlloc(UINT, SIZE_T n) {
    API("LocalAlloc");
    if (failApi("LocalAlloc", ERROR_NOT_ENOUGH_MEMORY)) return nullptr;
    void *p = calloc(1, n + 16); P->localAllocs[p] = n; return (HLOCAL)p;
}
HLOCAL WINAPI LocalFree(HLOCAL p) {
    if (!p) return nullptr;
    Process *P = curProc();
    if (P->exited) return nullptr;
    auto it = P->localAllocs.find((void *)p);
    if (it == P->localAllocs.end()) { noteBadHandle(P, "LocalFree of memory that is not allocated"); return p; }
    P->localAllocs.erase(it); free((void *)p); return nullptr;
}
static std::string sidStr(PSID s) {
    SID *x = (SID *)s;
    std::string r = "S-1-" + std::to_string(x->IdentifierAuthority.Value[5]);
    for (int i = 0; i < x->SubAuthorityCount; ++i) r += "-" + std::to_string((unsigned)x->SubAuthority[i]);
    return r;
}
static size_t sidSize(int n) { return 8 + 4 * (size_t)n; }
WINBOOL WINAPI AllocateAndInitializeSid(PSID_IDENTIFIER_AUTHORITY a, BYTE n, DWORD a0, DWORD a1, DWORD a2, DWORD a3, DWORD a4, DWORD a5, DWORD a6, DWORD a7, PSID *out) {
    API("AllocateAndInitializeSid");
    if (failApi("AllocateAndInitializeSid", ERROR_NOT_ENOUGH_MEMORY)) return FALSE;
    SID *s = (SID *)calloc(1, sidSize(8)); P->localAllocs[s] = 1;
    s->Revision = 1; s->SubAuthorityCount = n; s->IdentifierAuthority = *a;
    DWORD v[8] = {a0, a1, a2, a3, a4, a5, a6, a7};
    for (int i = 0; i < n; ++i) s->SubAuthority[i] = v[i];
    *out = s; return TRUE;
}
PVOID WINAPI FreeSid(PSID s) { LocalFree((HLOCAL)s); return nullptr; }
WINBOOL WINAPI OpenThreadToken(HANDLE, DWORD, WINBOOL, PHANDLE) { API("OpenThreadToken"); if (failApi("OpenThreadToken", ERROR_ACCESS_DENIED)) return FALSE; return fail(ERROR_NO_TOKEN); }
WINBOOL WINAPI OpenProcessToken(HANDLE, DWORD, PHANDLE h) {
    API("OpenProcessToken");
    if (failApi("OpenProcessToken", ERROR_ACCESS_DENIED)) return FALSE;
    *h = addHandle(P, std::make_shared<TokenObj>(), false, 0, "OpenProcessToken"); return TRUE;
}
WINBOOL WINAPI GetTokenInformation(HANDLE h, TOKEN_INFORMATION_CLASS, LPVOID b, DWORD n, PDWORD need) {
    API("GetTokenInformation");
    if (!objOf<TokenObj>(h, O_TOKEN, "GetTokenInformation")) return fail(ERROR_INVALID_HANDLE);
    if (failApi("GetTokenInformation", ERROR_ACCESS_DENIED)) return FALSE;
    DWORD total = (DWORD)(sizeof(TOKEN_OWNER) + sidSize(2));
    *need = total;
    if (n < total) return fail(ERROR_INSUFFICIENT_BUFFER);
    TOKEN_OWNER *o = (TOKEN_OWNER *)b;
    SID *s = (SID *)((char *)b + sizeof(TOKEN_OWNER));
    memset((void *)s, 0, sidSize(2));
    s->Revision = 1; s->SubAuthorityCount = 2; s->IdentifierAuthority.Value[5] = 5; s->SubAuthority[0] = 21;
    s->SubAuthority[1] = (DWORD)atoi(P->user.c_str() + P->user.rfind('-') + 1);
    o->Owner = s;
    return TRUE;
}
struct SimAcl { uint32_t magic; AclList *list; };
DWORD WINAPI SetEntriesInAclW(ULONG n, PEXPLICIT_ACCESS_W e, PACL, PACL *out) {
    API("SetEntriesInAclW");
    if (failApi("SetEntriesInAclW", ERROR_NOT_ENOUGH_MEMORY)) return ERROR_NOT_ENOUGH_MEMORY;
    SimAcl *a = (SimAcl *)calloc(1, sizeof(SimAcl) + 64); P->localAllocs[a] = 1;
    a->magic = 0xac1; a->list = new AclList();
    for (ULONG i = 0; i < n; ++i) {
        std::string sid = sidStr((PSID)e[i].Trustee.ptstrName);
        if (e[i].grfAccessMode == SET_ACCESS || e[i].grfAccessMode == GRANT_ACCESS)
            a->list->push_back({sid, e[i].grfAccessPermissions});
    }
    *out = (PACL)a; return ERROR_SUCCESS;
}
struct SimSd { uint32_t magic; uint32_t present; SimAcl *dacl; };
WINBOOL WINAPI InitializeSecurityDescriptor(PSECURITY_DESCRIPTOR d, DWORD) {
    API("InitializeSecurityDescriptor");
    if (failApi("InitializeSecurityDescriptor", ERROR_INVALID_PARAMETER)) return FALSE;
    static_assert(sizeof(SimSd) <= SECURITY_DESCRIPTOR_MIN_LENGTH, "sd size");
    SimSd *s = (SimSd *)d; s->magic = 0x5d; s->present = 0; s->dacl = nullptr; return TRUE;
}
WINBOOL WINAPI SetSecurityDescriptorDacl(PSECURITY_DESCRIPTOR d, WINBOOL present, PACL a, WINBOOL) {
    API("SetSecurityDescriptorDacl");
    if (failApi("SetSecurityDescriptorDacl", ERROR_INVALID_PARAMETER)) return FALSE;
    SimSd *s = (SimSd *)d; s->present = present; s->dacl = (SimAcl *)a; return TRUE;
}
DWORD WINAPI GetSecurityInfo(HANDLE, SE_OBJECT_TYPE, SECURITY_INFORMATION, PSID *, PSID *, PACL *, PACL *, PSECURITY_DESCRIPTOR *) { return ERROR_ACCESS_DENIED; }

static const char *kSystemSid = "S-1-5-18", *kAdminSid = "S-1-5-32-544";
// Would `user` get `access` (bit 1 read, bit 2 write) to this pipe?
static bool aclAllows(PipeServer &s, const std::string &user, bool rd, bool wr, bool inst = false) {
    if (s.defaultAcl) {
        if (user == s.ownerUser) return true;
        return rd && !wr;              // the default DACL lets everyone read
    }
    uint32_t got = 0;
    for (auto &e : s.acl) {
        // every local user is also Everyone, an authenticated, interactive and network user, and one of BUILTIN\Users
        static const std::set<std::string> groups = {"S-1-1-0", "S-1-5-11", "S-1-5-4", "S-1-5-2", "S-1-5-32-545", "S-1-2-0"};
        if (e.first != user && !groups.count(e.first)) continue;
        uint32_t m = e.second;
        if (m & GENERIC_ALL) m |= FILE_GENERIC_READ | FILE_GENERIC_WRITE;
        if (m & GENERIC_READ) m |= FILE_GENERIC_READ;
        if (m & GENERIC_WRITE) m |= FILE_GENERIC_WRITE;
        got |= m;
    }
    if (rd && !(got & FILE_READ_DATA)) return false;
    if (wr && !(got & FILE_WRITE_DATA)) return false;
    if (inst && !(got & FILE_APPEND_DATA)) return false;       // FILE_CREATE_PIPE_INSTANCE
    return true;
}

// ------------------------------------------------------------ stations
static HWINSTA wsHandle(Process *P) {
    if (!P->hWinsta) P->hWinsta = addHandle(P, P->winsta, false, 0, "initial");
    return (HWINSTA)P->hWinsta;
}
HWINSTA WINAPI GetProcessWindowStation(void) { API("GetProcessWindowStation"); return wsHandle(P); }
HDESK WINAPI GetThreadDesktop(DWORD) {
    API("GetThreadDesktop");
    if (!P->hDesktop) P->hDesktop = addHandle(P, P->desktop, false, 0, "initial");
    return (HDESK)P->hDesktop;
}
HWINSTA WINAPI CreateWindowStationW(LPCWSTR name, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    API("CreateWindowStationW");
    if (failApi("CreateWindowStationW", ERROR_ACCESS_DENIED)) return nullptr;
    auto w = std::make_shared<WinSta>();
    static int n; // deterministic inside one run (fork per run)
    w->name = name ? U(name) : u16of(fmt("Service-0x0-%x$", 0x1000 + ++n));
    g_w->stations.push_back(w);
    ev("winsta-new");
    return (HWINSTA)addHandle(P, w, false, 0, "CreateWindowStationW");
}
WINBOOL WINAPI SetProcessWindowStation(HWINSTA h) {
    API("SetProcessWindowStation");
    auto w = objOf<WinSta>((HANDLE)h, O_WINSTA, "SetProcessWindowStation");
    if (!w) return fail(ERROR_INVALID_HANDLE);
    if (w != g_w->winsta0 && failApi("SetProcessWindowStation", ERROR_ACCESS_DENIED)) return FALSE;
    P->winsta = w; P->hWinsta = (HANDLE)h; ev("winsta-set"); return TRUE;
}
WINBOOL WINAPI CloseWindowStation(HWINSTA h) {
    API("CloseWindowStation");
    if (!objOf<WinSta>((HANDLE)h, O_WINSTA, "CloseWindowStation")) return fail(ERROR_INVALID_HANDLE);
    if ((HANDLE)h == P->hWinsta) { noteBadHandle(P, "CloseWindowStation on the station in use"); return FALSE; }
    return closeHandleIn(P, (HANDLE)h, "CloseWindowStation");
}
HDESK WINAPI CreateDesktopW(LPCWSTR name, LPCWSTR, LPDEVMODEW, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    API("CreateDesktopW");
    if (failApi("CreateDesktopW", ERROR_NOT_ENOUGH_MEMORY)) return nullptr;
    auto d = std::make_shared<Desktop>(); d->name = U(name); d->ws = P->winsta;
    g_w->desktops.push_back(d);
    ev("desktop-new");
    return (HDESK)addHandle(P, d, false, 0, "CreateDesktopW");
}
WINBOOL WINAPI CloseDesktop(HDESK h) {
    API("CloseDesktop");
    if (!objOf<Desktop>((HANDLE)h, O_DESKTOP, "CloseDesktop")) return fail(ERROR_INVALID_HANDLE);
    return closeHandleIn(P, (HANDLE)h, "CloseDesktop");
}
WINBOOL WINAPI GetUserObjectInformationW(HANDLE h, int, PVOID b, DWORD n, LPDWORD need) {
    API("GetUserObjectInformationW");
    HandleEntry *e = lookup(P, h, true, "GetUserObjectInformationW");
    if (!e) return fail(ERROR_INVALID_HANDLE);
    ustr name = e->obj->type == O_WINSTA ? static_cast<WinSta *>(e->obj.get())->name : e->obj->type == O_DESKTOP ? static_cast<Desktop *>(e->obj.get())->name : u"";
    DWORD sz = (DWORD)(name.size() + 1) * 2;
    if (need) *need = sz;
    if (n < sz) return fail(ERROR_INSUFFICIENT_BUFFER);
    if (failApi("GetUserObjectInformationW", ERROR_ACCESS_DENIED)) return FALSE;
    memcpy(b, name.c_str(), sz); return TRUE;
}

// ------------------------------------------------------------ files and pipes
static bool startsWithI(const ustr &s, const char *p) {
    for (size_t i = 0; p[i]; ++i) {
        if (i >= s.size()) return false;
        char16_t c = s[i]; if (c >= 'A' && c <= 'Z') c += 32;
        char d = p[i]; if (d >= 'A' && d <= 'Z') d += 32;
        if (c != (unsigned char)d) return false;
    }
    return true;
}
HANDLE WINAPI CreateNamedPipeW(LPCWSTR nm, DWORD open, DWORD mode, DWORD maxInst, DWORD outSz, DWORD inSz, DWORD, LPSECURITY_ATTRIBUTES sa) {
    API("CreateNamedPipeW");
    ustr name = U(nm);
    if (!startsWithI(name, "\\\\.\\pipe\\")) { setErr(ERROR_INVALID_NAME); return INVALID_HANDLE_VALUE; }
    if (failApi("CreateNamedPipeW", ERROR_ACCESS_DENIED)) return INVALID_HANDLE_VALUE;
    if (g_w->onPipePreCreate) g_w->onPipePreCreate(P, name);
    auto old = findPipe(name, false);
    if (old) {
        if (open & FILE_FLAG_FIRST_PIPE_INSTANCE) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
        int cnt = 0; for (auto &x : g_w->pipes) if (x->name == old->name) cnt++;
        if ((uint32_t)cnt >= old->maxInst) { setErr(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
        // another instance needs the create-instance right
        if (!aclAllows(*old, P->user, false, true, true)) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    }
    auto s = std::make_shared<PipeServer>();
    s->name = name; s->openMode = open; s->pipeMode = mode; s->maxInst = maxInst; s->outSz = outSz; s->inSz = inSz;
    s->owner = P; s->ownerUser = P->user;
    s->overlapped = (open & FILE_FLAG_OVERLAPPED) != 0;
    s->msgRead = (mode & PIPE_READMODE_MESSAGE) != 0;
    s->quotaIn = std::max<uint32_t>(inSz, 1);
    if (sa && sa->lpSecurityDescriptor) {
        SimSd *d = (SimSd *)sa->lpSecurityDescriptor;
        if (d->magic == 0x5d && d->present && d->dacl) { s->defaultAcl = false; s->acl = *d->dacl->list; }
        else if (d->magic == 0x5d && d->present) { s->defaultAcl = false; s->acl = {{"S-1-1-0", GENERIC_ALL}}; }
    }
    s->label = "pipe:" + u8(name);
    g_w->pipes.push_back(s);
    g_w->keep.push_back(s);
    g_w->pipesCreated++;
    evs("pipe-new", u8(name));
    HANDLE h = addHandle(P, s, sa && sa->bInheritHandle, 0, "CreateNamedPipeW:" + u8(name));
    if (g_w->onPipeCreate) g_w->onPipeCreate(*s);
    setErr(0);
    return h;
}
WINBOOL WINAPI ConnectNamedPipe(HANDLE h, LPOVERLAPPED ov) {
    API("ConnectNamedPipe");
    auto s = objOf<PipeServer>(h, O_PIPE_SERVER, "ConnectNamedPipe");
    if (!s) return fail(ERROR_INVALID_HANDLE);
    if (failApi("ConnectNamedPipe", ERROR_NO_SYSTEM_RESOURCES)) return FALSE;
    if (s->st == PipeServer::Disconnected) s->st = PipeServer::Listening;
    if (s->st == PipeServer::Connected) return fail(ERROR_PIPE_CONNECTED);
    if (s->st == PipeServer::ClientGone) return fail(ERROR_NO_DATA);
    auto op = std::make_shared<IoOp>();
    op->kind = IoOp::Connect; op->proc = P; op->issuer = g_cur; op->h = h; op->seq = g_w->ioSeq++;
    s->connectCalled = true;
    if (s->overlapped && ov) {
        op->ov = ov; ov->Internal = 0x103; ov->InternalHigh = 0;
        if (ov->hEvent) {
            HandleEntry *e = lookup(P, ov->hEvent, true, "ConnectNamedPipe event");
            if (e && e->obj->type == O_EVENT) { op->event = std::static_pointer_cast<EventObj>(e->obj); op->event->state = false; }
        }
        s->connectOp = op;
        g_w->pending.push_back(op);
        return fail(ERROR_IO_PENDING);
    }
    s->connectOp = op; op->sync = true;
    g_w->pending.push_back(op);
    blockUntil("ConnectNamedPipe", [op] { return op->completed; });
    if (op->status) return fail(op->status);
    return TRUE;
}
WINBOOL WINAPI DisconnectNamedPipe(HANDLE h) {
    API("DisconnectNamedPipe");
    auto s = objOf<PipeServer>(h, O_PIPE_SERVER, "DisconnectNamedPipe");
    if (!s) return fail(ERROR_INVALID_HANDLE);
    auto c = s->client;
    if (c) {
        c->serverGone = true; c->in.clear(); c->msgs.clear();   // unread data is discarded
        s->client.reset();
    }
    s->in.clear(); s->msgs.clear();
    s->st = PipeServer::Disconnected;
    ev("pipe-disconnect");
    pumpPipe(s.get()); if (c) { c->forceNotConnected = true; pumpPipe(c.get()); }
    return TRUE;
}
HANDLE WINAPI CreateFileW(LPCWSTR nm, DWORD access, DWORD, LPSECURITY_ATTRIBUTES sa, DWORD, DWORD flags, HANDLE) {
    API("CreateFileW");
    ustr name = U(nm);
    if (g_w->onOpenName) g_w->onOpenName(P, name);
    if (startsWithI(name, "CONOUT$") || startsWithI(name, "CONIN$")) {
        if (!P->con) { setErr(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
        if (startsWithI(name, "CONOUT$")) return addHandle(P, P->con->active, sa && sa->bInheritHandle, access, "CONOUT$");
        return addHandle(P, P->con->inObj, false, access, "CONIN$");
    }
    if (startsWithI(name, "\\\\.\\pipe\\")) {
        if (failApi("CreateFileW", ERROR_ACCESS_DENIED)) return INVALID_HANDLE_VALUE;
        bool rd = access & (GENERIC_READ | FILE_READ_DATA), wr = access & (GENERIC_WRITE | FILE_WRITE_DATA);
        auto any = findPipe(name, false);
        if (!any) { setErr(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
        auto s = findPipe(name, true);
        auto &chk = s ? s : any;
        bool canR = (chk->openMode & PIPE_ACCESS_OUTBOUND) != 0, canW = (chk->openMode & PIPE_ACCESS_INBOUND) != 0;
        if ((rd && !canR) || (wr && !canW) || !aclAllows(*chk, P->user, rd, wr)) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
        if (!s) { setErr(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
        auto c = std::make_shared<PipeClient>();
        c->owner = P; c->overlapped = (flags & FILE_FLAG_OVERLAPPED) != 0;
        c->label = "pipe-client:" + u8(name);
        connectPipe(s, c);
        ev("pipe-open", P->pid);
        HANDLE h = addHandle(P, c, sa && sa->bInheritHandle, access, "CreateFileW:" + u8(name));
        if (g_w->onPipeOpen) g_w->onPipeOpen(name, s, c, access, flags);
        setErr(0);
        return h;
    }
    setErr(ERROR_FILE_NOT_FOUND);
    return INVALID_HANDLE_VALUE;
}
WINBOOL WINAPI WaitNamedPipeW(LPCWSTR nm, DWORD ms) {
    API("WaitNamedPipeW");
    ustr name = U(nm);
    int64_t dl = ms == NMPWAIT_WAIT_FOREVER ? -1 : g_now + (ms == 0 ? 50 : ms);
    blockUntil("WaitNamedPipeW", [name] {
        auto any = findPipe(name, false);
        if (!any) return true;
        auto s = findPipe(name, true);
        return s && s->connectCalledListening();
    }, dl);
    if (!findPipe(name, false)) return fail(ERROR_FILE_NOT_FOUND);
    if (!findPipe(name, true)) return fail(ERROR_SEM_TIMEOUT);
    return TRUE;
}
WINBOOL WINAPI SetNamedPipeHandleState(HANDLE h, LPDWORD mode, LPDWORD, LPDWORD) {
    API("SetNamedPipeHandleState");
    auto e = pipeEnd(lookup(P, h, true, "SetNamedPipeHandleState"));
    if (!e) return fail(ERROR_INVALID_HANDLE);
    if (mode) e->msgRead = (*mode & PIPE_READMODE_MESSAGE) != 0;
    return TRUE;
}
WINBOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD n, LPDWORD got, LPOVERLAPPED ov) {
    API("ReadFile");
    auto e = pipeEnd(lookup(P, h, true, "ReadFile"));
    if (!e) return fail(ERROR_INVALID_HANDLE);
    if (failApi("ReadFile", ERROR_NO_SYSTEM_RESOURCES)) return FALSE;
    if (faultHere(F_PIPE_BREAK) && e->type == O_PIPE_SERVER) breakServerPipe(static_cast<PipeServer *>(e.get()));
    uint32_t g = 0;
    bool r = issueRead(e, h, buf, n, &g, ov);
    if (got) *got = g;
    return r;
}
WINBOOL WINAPI WriteFile(HANDLE h, LPCVOID buf, DWORD n, LPDWORD put, LPOVERLAPPED ov) {
    API("WriteFile");
    auto e = pipeEnd(lookup(P, h, true, "WriteFile"));
    if (!e) return fail(ERROR_INVALID_HANDLE);
    if (failApi("WriteFile", ERROR_NO_SYSTEM_RESOURCES)) return FALSE;
    if (faultHere(F_PIPE_BREAK) && e->type == O_PIPE_SERVER) breakServerPipe(static_cast<PipeServer *>(e.get()));
    uint32_t g = 0;
    bool r = issueWrite(e, h, buf, n, &g, ov);
    if (put) *put = g;
    return r;
}
WINBOOL WINAPI PeekNamedPipe(HANDLE h, LPVOID, DWORD, LPDWORD, LPDWORD avail, LPDWORD) {
    API("PeekNamedPipe");
    auto e = pipeEnd(lookup(P, h, true, "PeekNamedPipe"));
    if (!e) return fail(ERROR_INVALID_HANDLE);
    if (avail) *avail = (DWORD)e->in.size();
    return TRUE;
}
WINBOOL WINAPI TransactNamedPipe(HANDLE h, LPVOID in, DWORD nIn, LPVOID out, DWORD nOut, LPDWORD got, LPOVERLAPPED) {
    API("TransactNamedPipe");
    auto e = pipeEnd(lookup(P, h, true, "TransactNamedPipe"));
    if (!e) return fail(ERROR_INVALID_HANDLE);
    // One operation: the read waits before the server can answer.
    uint32_t g = 0;
    PipeEnd *pp = e->peer();
    if (g_w->onTransact) g_w->onTransact(P, std::string((const char *)in, nIn), pp != nullptr, nullptr);
    if (!issueWrite(e, h, in, nIn, &g, nullptr)) return FALSE;
    g = 0;
    bool r = issueRead(e, h, out, nOut, &g, nullptr);
    if (got) *got = g;
    if (g_w->onTransact) { std::string rep((const char *)out, r ? g : 0); g_w->onTransact(P, std::string((const char *)in, nIn), r, &rep); }
    return r;
}
WINBOOL WINAPI CancelIo(HANDLE h) {
    API("CancelIo");
    if (!lookup(P, h, true, "CancelIo")) return fail(ERROR_INVALID_HANDLE);
    auto ops = g_w->pending;
    for (auto &op : ops) if (op->proc == P && op->h == h && op->issuer == g_cur && !op->sync) cancelOp(op);
    ev("CancelIo");
    return TRUE;
}
WINBOOL WINAPI CancelIoEx(HANDLE h, LPOVERLAPPED ov) {
    API("CancelIoEx");
    if (!lookup(P, h, true, "CancelIoEx")) return fail(ERROR_INVALID_HANDLE);
    auto ops = g_w->pending; bool any = false;
    for (auto &op : ops) if (op->proc == P && op->h == h && (!ov || op->ov == ov)) any |= cancelOp(op);
    ev("CancelIoEx");
    if (!any) return fail(ERROR_NOT_FOUND);
    return TRUE;
}
WINBOOL WINAPI GetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD got, WINBOOL wait) {
    API("GetOverlappedResult");
    if (!lookup(P, h, true, "GetOverlappedResult")) return fail(ERROR_INVALID_HANDLE);
    if (ov->Internal == 0x103) {
        if (!wait) return fail(ERROR_IO_INCOMPLETE);
        blockUntil("GetOverlappedResult", [ov] { return ov->Internal != 0x103; });
        if (ov->Internal == 0x103) return fail(ERROR_IO_INCOMPLETE);
    }
    if (got) *got = (DWORD)ov->InternalHigh;
    uint32_t st = (uint32_t)ov->Internal;
    if (st) return fail(st);
    return TRUE;
}

// ------------------------------------------------------------ processes
WINBOOL WINAPI CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, WINBOOL inherit, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi) {
    API("CreateProcessW");
    SpawnReq r;
    if (app) { r.app = U(app); r.haveApp = true; }
    if (cmd) { r.cmdline = U(cmd); r.haveCmd = true; }
    if (cwd) { r.cwd = U(cwd); r.haveCwd = true; }
    if (env) {
        const wchar_t *e = (const wchar_t *)env; r.haveEnv = true;
        if (!(flags & CREATE_UNICODE_ENVIRONMENT)) r.env = u"<ansi>";
        else { size_t i = 0; while (e[i] || e[i + 1]) { if (i > 4000000) break; r.env.push_back(e[i]); ++i; } }
    }
    if (si->lpDesktop) { r.desktop = U(si->lpDesktop); r.haveDesktop = true; }
    r.flags = flags; r.inherit = inherit; r.siFlags = si->dwFlags; r.hin = si->hStdInput; r.hout = si->hStdOutput; r.herr = si->hStdError; r.show = si->wShowWindow;
    evs("CreateProcess", u8(r.cmdline), flags);
    if (failApi("CreateProcessW", ERROR_NOT_ENOUGH_MEMORY)) return FALSE;
    if (!r.haveApp && !r.haveCmd) return fail(ERROR_INVALID_PARAMETER);
    auto c = newProcess("child", P);
    c->user = P->user;
    c->spawn = r;
    c->cmdline = r.haveCmd ? r.cmdline : r.app;
    c->cwd = r.cwd;
    uint32_t err = g_w->exec ? g_w->exec(c, r) : ERROR_FILE_NOT_FOUND;
    if (err) {
        c->exited = true;
        for (size_t i = 0; i < g_w->procs.size(); ++i) if (g_w->procs[i] == c) { g_w->procs.erase(g_w->procs.begin() + i); break; }
        g_w->keep.push_back(c);
        return fail(err);
    }
    // desktop
    bool desktopOk = true;
    if (r.haveDesktop) {
        desktopOk = false;
        for (auto &wd : g_w->desktops) if (auto d = wd.lock()) {
            if (d->ws && d->ws->name + u"\\" + d->name == r.desktop) { c->desktop = d; c->winsta = d->ws; desktopOk = true; }
        }
    }
    // handle inheritance
    if (inherit) for (auto &kv : P->handles) if (kv.second.inherit) {
        if (kv.second.origin == "initial-inheritable") violate("handle-inherited", "an inheritable handle of the calling program was passed on to a process it did not ask for");
        c->handles[kv.first] = kv.second; kv.second.obj->refs++;
        c->nextHandle = std::max(c->nextHandle, kv.first + 4);
    }
    // console
    if (flags & CREATE_NEW_CONSOLE) { c->con = newConsole(c->desktop); }
    else if (!(flags & DETACHED_PROCESS)) c->con = P->con;
    if (c->con) {
        c->con->attach(c.get());
        c->ignoreCtrlC = P->ignoreCtrlC;     // inherited, also with a new console
        if ((flags & CREATE_NEW_PROCESS_GROUP) && !(flags & CREATE_NEW_CONSOLE)) c->ignoreCtrlC = true;
        if (r.siFlags & STARTF_USESTDHANDLES) { c->stdIn = r.hin; c->stdOut = r.hout; c->stdErr = r.herr; }
        else if (c->kind == "agent") {
            c->stdIn = addHandle(c.get(), c->con->inObj, true, 0, "initial:stdin");
            c->stdOut = addHandle(c.get(), c->con->active, true, 0, "initial:stdout");
            c->stdErr = addHandle(c.get(), c->con->active, true, 0, "initial:stderr");
        }
        if (r.siFlags & STARTF_USESTDHANDLES) {
            // The console hands a child its own references to console handles
            // even when they are not marked inheritable.
            for (HANDLE h : {r.hin, r.hout}) {
                auto it = P->handles.find((uintptr_t)h);
                if (it != P->handles.end() && (it->second.obj->type == O_SCREEN || it->second.obj->type == O_CONIN) && !c->handles.count((uintptr_t)h) && inherit && it->second.inherit) {
                    c->handles[(uintptr_t)h] = it->second; it->second.obj->refs++;
                }
            }
        }
    }
    memset((void *)pi, 0, sizeof *pi);
    pi->dwProcessId = c->pid;
    pi->dwThreadId = c->fibers.empty() ? 0 : c->fibers[0]->tid;
    pi->hProcess = addHandle(P, c, false, 0, "CreateProcessW:process:" + c->kind);
    auto t = std::make_shared<ThreadObj>(c.get());
    t->f = nullptr;
    pi->hThread = addHandle(P, t, false, 0, "CreateProcessW:thread:" + c->kind);
    if (!desktopOk) {
        for (Fiber *f : c->fibers) f->stalledUntil = g_now + 5;
        ProcP cc = c;
        at(g_now + 1, [cc] { processExit(cc.get(), 0xC0000142); });
    }
    if (g_w->cfg.createDelay) if (uint32_t d = choose(FAULT, g_w->cfg.createDelay + 1)) { countFault(F_STALL); sleepFor(d); }
    maybeYield("CreateProcessW-return");
    return TRUE;
}
WINBOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD code) {
    API("GetExitCodeProcess");
    if (h == kCurProcess) { *code = 259; return TRUE; }
    auto p = objOf<Process>(h, O_PROCESS, "GetExitCodeProcess");
    if (!p) return fail(ERROR_INVALID_HANDLE);
    if (!permits(P, h, PROCESS_QUERY_INFORMATION | 0x1000)) return fail(ERROR_ACCESS_DENIED);
    *code = p->exited ? p->exitCode : 259;
    return TRUE;
}
WINBOOL WINAPI TerminateProcess(HANDLE h, UINT code) {
    API("TerminateProcess");
    if (h == kCurProcess) { exitCurrentProcess(code); }
    auto p = objOf<Process>(h, O_PROCESS, "TerminateProcess");
    if (!p) return fail(ERROR_INVALID_HANDLE);
    processExit(p.get(), code);
    return TRUE;
}
HANDLE WINAPI OpenProcess(DWORD, WINBOOL, DWORD pid) {
    API("OpenProcess");
    auto p = findProc(pid);
    if (!p) { setErr(ERROR_INVALID_PARAMETER); return nullptr; }
    return addHandle(P, p, false, 0, "OpenProcess");
}
DWORD WINAPI GetProcessId(HANDLE h) {
    auto p = objOf<Process>(h, O_PROCESS, "GetProcessId");
    if (p && !permits(curProc(), h, PROCESS_QUERY_INFORMATION | 0x1000)) { setErr(ERROR_ACCESS_DENIED); return 0; }
    return p ? p->pid : 0;
}
DECLSPEC_NORETURN void WINAPI ExitProcess(UINT code) { exitCurrentProcess(code); }

// ------------------------------------------------------------ console
static ScreenP screenOf(Process *P, HANDLE h, const char *api) {
    HandleEntry *e = lookup(P, h, true, api);
    if (!e || e->obj->type != O_SCREEN) return nullptr;
    return std::static_pointer_cast<ScreenBuf>(e->obj);
}
HANDLE WINAPI GetStdHandle(DWORD w) {
    Process *P = curProc();
    switch (w) { case STD_INPUT_HANDLE: return P->stdIn; case STD_OUTPUT_HANDLE: return P->stdOut; default: return P->stdErr; }
}
HWND WINAPI GetConsoleWindow(void) { API("GetConsoleWindow"); return P->con ? P->con->hwnd : nullptr; }
UINT WINAPI GetConsoleCP(void) { Process *P = curProc(); return P->con ? P->con->cp : 0; }
UINT WINAPI GetConsoleOutputCP(void) { Process *P = curProc(); return P->con ? P->con->cp : 0; }
static Console *conOfWnd(HWND w) { for (auto &c : g_w->consoles) if (c->hwnd == w) return c.get(); return nullptr; }
LRESULT WINAPI SendMessageW(HWND w, UINT m, WPARAM wp, LPARAM) {
    API("SendMessageW");
    Console *c = conOfWnd(w);
    if (!c) return 0;
    // A program may act before the console thread handles the message.
    maybeYield("SendMessage");
    if (m == WM_SYSCOMMAND && wp == 0xFFF2) c->freeze(true);
    else if (m == WM_SYSCOMMAND && wp == 0xFFF5) c->freeze(false);
    else if (m == WM_CHAR && wp == 27) {
        if (c->frozen) c->unfreeze();
        else {
            INPUT_RECORD r; memset((void *)&r, 0, sizeof r);
            r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = TRUE; r.Event.KeyEvent.wRepeatCount = 1;
            r.Event.KeyEvent.wVirtualKeyCode = VK_ESCAPE; r.Event.KeyEvent.uChar.UnicodeChar = 27;
            c->pushInput(r);
        }
    } else if (m == WM_KEYDOWN || m == WM_KEYUP) {
        INPUT_RECORD r; memset((void *)&r, 0, sizeof r);
        r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = m == WM_KEYDOWN; r.Event.KeyEvent.wRepeatCount = 1;
        r.Event.KeyEvent.wVirtualKeyCode = (WORD)wp; r.Event.KeyEvent.dwControlKeyState = ENHANCED_KEY; c->hwndKeys++;
        c->pushInput(r);
    } else if (m == WM_CLOSE) c->close();
    return 0;
}
WINBOOL WINAPI PostMessageW(HWND w, UINT m, WPARAM wp, LPARAM) {
    API("PostMessageW");
    Console *c = conOfWnd(w);
    if (!c) return fail(ERROR_INVALID_WINDOW_HANDLE);
    if (m == WM_CLOSE) at(g_now + choose(FAULT, 10), [c] { c->close(); });
    ev("PostMessage", m);
    return TRUE;
}
WINBOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE f, WINBOOL add) {
    API("SetConsoleCtrlHandler");
    if (!f) { P->ignoreCtrlC = add != 0; return TRUE; }
    if (add) P->ctrlHandlers.push_back(f);
    else for (size_t i = P->ctrlHandlers.size(); i-- > 0;) if (P->ctrlHandlers[i] == f) { P->ctrlHandlers.erase(P->ctrlHandlers.begin() + i); break; }
    return TRUE;
}
WINBOOL WINAPI GenerateConsoleCtrlEvent(DWORD type, DWORD) {
    API("GenerateConsoleCtrlEvent");
    if (!P->con) return fail(ERROR_INVALID_HANDLE);
    P->con->ctrlC(type);
    return TRUE;
}
DWORD WINAPI GetConsoleProcessList(LPDWORD out, DWORD n) {
    API("GetConsoleProcessList");
    if (!P->con) { setErr(ERROR_INVALID_HANDLE); return 0; }
    auto &a = P->con->attached;
    if (n == 0) { setErr(ERROR_INVALID_PARAMETER); return 0; }
    if (a.size() <= n) for (size_t i = 0; i < a.size(); ++i) out[i] = a[a.size() - 1 - i]->pid;
    ev("proclist", (int64_t)a.size());
    return (DWORD)a.size();
}
DWORD WINAPI GetConsoleTitleW(LPWSTR b, DWORD n) {
    API("GetConsoleTitleW");
    if (!P->con) { setErr(ERROR_INVALID_HANDLE); return 0; }
    const ustr &t = P->con->title;
    int ver = g_w->cfg.winver;
    if (ver <= 5) {
        if (t.empty()) return 0;                       // buffer untouched
        DWORD k = std::min<DWORD>(n - 1, (DWORD)t.size());
        memcpy(b, t.c_str(), k * 2); b[k] = 0;
        return k;
    }
    DWORD cap = ver <= 7 ? n / 2 : n;                  // Vista/7 treat nSize as bytes
    if (cap == 0) return (DWORD)t.size();
    DWORD k = std::min<DWORD>(cap - 1, (DWORD)t.size());
    if (ver <= 7 && k < t.size()) { if (n) b[0] = 0; } // truncation stores nothing useful
    else { memcpy(b, t.c_str(), k * 2); b[k] = 0; }
    return (DWORD)t.size();
}
WINBOOL WINAPI SetConsoleTitleW(LPCWSTR t) { API("SetConsoleTitleW"); if (!P->con) return fail(6); P->con->title = U(t); ev("SetTitle"); return TRUE; }
WINBOOL WINAPI GetConsoleMode(HANDLE h, LPDWORD m) {
    API("GetConsoleMode");
    HandleEntry *e = lookup(P, h, true, "GetConsoleMode");
    if (!e) return fail(ERROR_INVALID_HANDLE);
    if (e->obj->type == O_CONIN) *m = static_cast<ConInObj *>(e->obj.get())->con->inMode;
    else if (e->obj->type == O_SCREEN) *m = static_cast<ScreenBuf *>(e->obj.get())->mode;
    else return fail(ERROR_INVALID_HANDLE);
    return TRUE;
}
WINBOOL WINAPI SetConsoleMode(HANDLE h, DWORD m) {
    API("SetConsoleMode");
    HandleEntry *e = lookup(P, h, true, "SetConsoleMode");
    if (!e) return fail(ERROR_INVALID_HANDLE);
    if (e->obj->type == O_CONIN) static_cast<ConInObj *>(e->obj.get())->con->inMode = m;
    else if (e->obj->type == O_SCREEN) static_cast<ScreenBuf *>(e->obj.get())->mode = m;
    else return fail(ERROR_INVALID_HANDLE);
    ev("SetConsoleMode", m);
    return TRUE;
}
WINBOOL WINAPI GetConsoleScreenBufferInfo(HANDLE h, PCONSOLE_SCREEN_BUFFER_INFO i) {
    API("GetConsoleScreenBufferInfo");
    auto s = screenOf(P, h, "GetConsoleScreenBufferInfo");
    if (!s) return fail(ERROR_INVALID_HANDLE);
    i->dwSize.X = s->W; i->dwSize.Y = s->H; i->dwCursorPosition = s->cur; i->wAttributes = s->attr; i->srWindow = s->win;
    i->dwMaximumWindowSize.X = std::min(s->W, s->con->largestX); i->dwMaximumWindowSize.Y = std::min(s->H, s->con->largestY);
    return TRUE;
}
WINBOOL WINAPI GetConsoleCursorInfo(HANDLE h, PCONSOLE_CURSOR_INFO i) {
    API("GetConsoleCursorInfo");
    auto s = screenOf(P, h, "GetConsoleCursorInfo");
    if (!s) return fail(ERROR_INVALID_HANDLE);
    *i = s->ci; return TRUE;
}
WINBOOL WINAPI SetConsoleCursorPosition(HANDLE h, COORD c) {
    API("SetConsoleCursorPosition");
    auto s = screenOf(P, h, "SetConsoleCursorPosition");
    if (!s) return fail(ERROR_INVALID_HANDLE);
    if (c.X < 0 || c.Y < 0 || c.X >= s->W || c.Y >= s->H) return fail(ERROR_INVALID_PARAMETER);
    s->cur = c; s->ensureCursorVisible(); s->gen++; ev("SetCursor", c.X, c.Y); return TRUE;
}
WINBOOL WINAPI SetConsoleTextAttribute(HANDLE h, WORD a) {
    API("SetConsoleTextAttribute");
    auto s = screenOf(P, h, "SetConsoleTextAttribute"); if (!s) return fail(6);
    s->attr = a; return TRUE;
}
COORD WINAPI GetLargestConsoleWindowSize(HANDLE h) {
    API("GetLargestConsoleWindowSize");
    COORD c = {0, 0};
    auto s = screenOf(P, h, "GetLargestConsoleWindowSize"); if (!s) { setErr(6); return c; }
    c.X = s->con->largestX; c.Y = s->con->largestY; return c;
}
WINBOOL WINAPI SetConsoleScreenBufferSize(HANDLE h, COORD c) {
    API("SetConsoleScreenBufferSize");
    auto s = screenOf(P, h, "SetConsoleScreenBufferSize"); if (!s) return fail(6);
    if (s->con->frozen && g_w->cfg.newW10 && s->con->active == s)
        violate("conhost-hang", "the screen buffer was resized while a selection was in progress on the new Windows 10 console");
    std::string why;
    bool ok = s->resize(c.X, c.Y, why);
    ev("SetBufSize", c.X, c.Y, ok);
    if (!ok) { logf("SetConsoleScreenBufferSize(%d,%d): %s", c.X, c.Y, why.c_str()); return fail(ERROR_INVALID_PARAMETER); }
    return TRUE;
}
WINBOOL WINAPI SetConsoleWindowInfo(HANDLE h, WINBOOL abs, const SMALL_RECT *r) {
    API("SetConsoleWindowInfo");
    auto s = screenOf(P, h, "SetConsoleWindowInfo"); if (!s) return fail(6);
    SMALL_RECT q = *r;
    if (!abs) { q.Left += s->win.Left; q.Right += s->win.Right; q.Top += s->win.Top; q.Bottom += s->win.Bottom; }
    bool ok = s->setWindow(q, s->con->largestX, s->con->largestY);
    ev("SetWindow", q.Top, q.Bottom, ok);
    if (!ok) { logf("SetConsoleWindowInfo(%d,%d,%d,%d) refused, buf %dx%d largest %dx%d", q.Left, q.Top, q.Right, q.Bottom, s->W, s->H, s->con->largestX, s->con->largestY); return fail(ERROR_INVALID_PARAMETER); }
    return TRUE;
}
WINBOOL WINAPI ReadConsoleOutputW(HANDLE h, PCHAR_INFO buf, COORD size, COORD at0, PSMALL_RECT r) {
    API("ReadConsoleOutputW");
    auto s = screenOf(P, h, "ReadConsoleOutputW"); if (!s) return fail(6);
    g_w->scrapeReads++;
    int w = r->Right - r->Left + 1, hh = r->Bottom - r->Top + 1;
    if (w > size.X || hh > size.Y) { w = std::min<int>(w, size.X); hh = std::min<int>(hh, size.Y); }
    bool outOfRange = r->Left < 0 || r->Top < 0 || r->Left + w > s->W || r->Top + hh > s->H;
    if (outOfRange && !g_w->cfg.newW10) {
        processExit(P, 0xC0000005, true, fmt("ReadConsoleOutputW with an out-of-range region (%d,%d,%d,%d) on a %dx%d buffer crashes the caller before Windows 10",
                r->Left, r->Top, r->Right, r->Bottom, s->W, s->H));
    }
    if ((int64_t)w * hh * 4 > 32000 && g_w->cfg.winver < 8) return fail(ERROR_NOT_ENOUGH_MEMORY);
    if (r->Top >= s->H || r->Left >= s->W) return fail(ERROR_INVALID_PARAMETER);
    ev("ReadOutput", r->Top, hh, s->cur.Y * 1000 + s->cur.X);
    // A frozen console gives a consistent snapshot; programs block on output.
    for (int y = 0; y < hh; ++y) {
        int sy = r->Top + y; if (sy < 0 || sy >= s->H) continue;
        CHAR_INFO *src = s->row(sy);
        for (int x = 0; x < w; ++x) {
            int sx = r->Left + x; if (sx < 0 || sx >= s->W) continue;
            buf[(size_t)(at0.Y + y) * size.X + at0.X + x] = src[sx];
        }
    }
    return TRUE;
}
// The agent must not change what a program has put into the visible window.
static bool visibleTo(Process *P, ScreenBuf &s, int y) {
    return P->kind == "agent" && P->con && y >= s.win.Top && y <= s.win.Bottom && P->con->attached.size() > 1;
}
WINBOOL WINAPI WriteConsoleOutputW(HANDLE h, const CHAR_INFO *buf, COORD size, COORD at0, PSMALL_RECT r) {
    API("WriteConsoleOutputW");
    auto s = screenOf(P, h, "WriteConsoleOutputW"); if (!s) return fail(6);
    for (int y = r->Top; y <= r->Bottom; ++y) for (int x = r->Left; x <= r->Right; ++x) {
        if (x < 0 || y < 0 || x >= s->W || y >= s->H) continue;
        CHAR_INFO old = s->row(y)[x]; const CHAR_INFO &z = buf[(size_t)(at0.Y + y - r->Top) * size.X + at0.X + x - r->Left];
        if (memcmp(&z, &old, sizeof z) && visibleTo(P, *s, y)) violate("window-altered", fmt("the agent overwrote row %d of the visible window, column %d", y - s->win.Top, x));
        s->row(y)[x] = buf[(size_t)(at0.Y + y - r->Top) * size.X + at0.X + x - r->Left];
    }
    s->gen++;
    ev("WriteOut", r->Top, r->Bottom);
    return TRUE;
}
static DWORD fillAt(ScreenBuf &s, COORD c, DWORD n, std::function<void(CHAR_INFO &)> f) {
    Process *P = curProc();
    int x = c.X, y = c.Y; DWORD k = 0;
    if (x < 0 || y < 0 || x >= s.W || y >= s.H) return 0;
    for (; k < n && y < s.H; ++k) { CHAR_INFO &z = s.row(y)[x], old = z; f(z); if (memcmp(&z, &old, sizeof z) && visibleTo(P, s, y)) violate("window-altered", fmt("the agent overwrote row %d of the visible window, column %d", y - s.win.Top, x)); if (++x >= s.W) { x = 0; ++y; } }
    s.gen++;
    return k;
}
WINBOOL WINAPI FillConsoleOutputCharacterW(HANDLE h, WCHAR c, DWORD n, COORD at0, LPDWORD got) {
    API("FillConsoleOutputCharacterW");
    auto s = screenOf(P, h, "FillConsoleOutputCharacterW"); if (!s) return fail(6);
    *got = fillAt(*s, at0, n, [c](CHAR_INFO &i) { i.Char.UnicodeChar = c; });
    if (at0.X == 0 && at0.Y == 0 && c == ' ' && P->kind == "agent") s->clearedTo = std::max<int64_t>(s->clearedTo, s->scrolled + n / s->W);
    ev("FillChar", at0.Y, n);
    return TRUE;
}
WINBOOL WINAPI FillConsoleOutputAttribute(HANDLE h, WORD a, DWORD n, COORD at0, LPDWORD got) {
    API("FillConsoleOutputAttribute");
    auto s = screenOf(P, h, "FillConsoleOutputAttribute"); if (!s) return fail(6);
    *got = fillAt(*s, at0, n, [a](CHAR_INFO &i) { i.Attributes = a; });
    return TRUE;
}
HANDLE WINAPI CreateConsoleScreenBuffer(DWORD access, DWORD, const SECURITY_ATTRIBUTES *sa, DWORD, LPVOID) {
    API("CreateConsoleScreenBuffer");
    if (!P->con) { setErr(6); return INVALID_HANDLE_VALUE; }
    auto b = P->con->appNewBuffer();
    return addHandle(P, b, sa && sa->bInheritHandle, access, "CreateConsoleScreenBuffer");
}
WINBOOL WINAPI SetConsoleActiveScreenBuffer(HANDLE h) {
    API("SetConsoleActiveScreenBuffer");
    auto s = screenOf(P, h, "SetConsoleActiveScreenBuffer"); if (!s) return fail(6);
    P->con->active = s; return TRUE;
}
WINBOOL WINAPI WriteConsoleInputW(HANDLE h, const INPUT_RECORD *r, DWORD n, LPDWORD got) {
    API("WriteConsoleInputW");
    auto c = objOf<ConInObj>(h, O_CONIN, "WriteConsoleInputW");
    if (!c) return fail(6);
    for (DWORD i = 0; i < n; ++i) c->con->pushInput(r[i]);
    ev("WriteInput", n);
    if (got) *got = n;
    return TRUE;
}
WINBOOL WINAPI ReadConsoleInputW(HANDLE h, PINPUT_RECORD r, DWORD n, LPDWORD got) {
    API("ReadConsoleInputW");
    auto c = objOf<ConInObj>(h, O_CONIN, "ReadConsoleInputW");
    if (!c) return fail(6);
    Console *con = c->con;
    blockUntil("ReadConsoleInput", [con] { return !con->input.empty(); });
    DWORD k = 0;
    while (k < n && !con->input.empty()) { r[k++] = con->input.front(); con->input.pop_front(); }
    *got = k;
    return TRUE;
}
WINBOOL WINAPI GetNumberOfConsoleInputEvents(HANDLE h, LPDWORD n) {
    auto c = objOf<ConInObj>(h, O_CONIN, "GetNumberOfConsoleInputEvents");
    if (!c) return fail(6);
    *n = (DWORD)c->con->input.size(); return TRUE;
}
WINBOOL WINAPI FlushConsoleInputBuffer(HANDLE h) {
    auto c = objOf<ConInObj>(h, O_CONIN, "FlushConsoleInputBuffer");
    if (!c) return fail(6);
    c->con->input.clear(); return TRUE;
}
UINT WINAPI GetDoubleClickTime(void) { return 500; }

// US keyboard layout.
SHORT WINAPI VkKeyScanW(WCHAR ch) {
    static const char plain[] = "`1234567890-=[]\\;',./";
    static const char shift[] = "~!@#$%^&*()_+{}|:\"<>?";
    static const unsigned char vk[] = {0xC0, '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 0xBD, 0xBB, 0xDB, 0xDD, 0xDC, 0xBA, 0xDE, 0xBC, 0xBE, 0xBF};
    if (ch >= 'a' && ch <= 'z') return ch - 32;
    if (ch >= 'A' && ch <= 'Z') return 0x100 | ch;
    if (ch == ' ') return VK_SPACE;
    if (ch == 0) return 0x200 | 0x100 | '2';
    if (ch == 8) return VK_BACK;
    if (ch == 9) return VK_TAB;
    if (ch == 13) return VK_RETURN;
    if (ch == 10) return 0x200 | VK_RETURN;
    if (ch == 27) return VK_ESCAPE;
    if (ch == 0x7f) return 0x200 | VK_BACK;
    if (ch >= 1 && ch <= 26) return 0x200 | (ch + 64);
    if (ch == 28) return 0x200 | 0xDC;
    if (ch == 29) return 0x200 | 0xDD;
    if (ch == 30) return 0x300 | '6';
    if (ch == 31) return 0x300 | 0xBD;
    for (size_t i = 0; i < sizeof(plain) - 1; ++i) {
        if (ch == (unsigned char)plain[i]) return vk[i];
        if (ch == (unsigned char)shift[i]) return 0x100 | vk[i];
    }
    if (ch == 0x20AC) return 0x600 | 'E';      // AltGr+E, as on many layouts
    return -1;
}
UINT WINAPI MapVirtualKeyW(UINT vk, UINT type) {
    if (type != MAPVK_VK_TO_VSC) return 0;
    static const char *row1 = "QWERTYUIOP", *row2 = "ASDFGHJKL", *row3 = "ZXCVBNM";
    for (int i = 0; row1[i]; ++i) if ((UINT)row1[i] == vk) return 0x10 + i;
    for (int i = 0; row2[i]; ++i) if ((UINT)row2[i] == vk) return 0x1E + i;
    for (int i = 0; row3[i]; ++i) if ((UINT)row3[i] == vk) return 0x2C + i;
    if (vk >= '1' && vk <= '9') return 2 + vk - '1';
    switch (vk) {
    case '0': return 0x0B; case 0xBD: return 0x0C; case 0xBB: return 0x0D; case VK_BACK: return 0x0E; case VK_TAB: return 0x0F;
    case 0xDB: return 0x1A; case 0xDD: return 0x1B; case VK_RETURN: return 0x1C; case VK_CONTROL: return 0x1D; case 0xBA: return 0x27;
    case 0xDE: return 0x28; case 0xC0: return 0x29; case VK_SHIFT: return 0x2A; case 0xDC: return 0x2B; case 0xBC: return 0x33; case 0xBE: return 0x34;
    case 0xBF: return 0x35; case VK_MENU: return 0x38; case VK_SPACE: return 0x39; case VK_ESCAPE: return 1;
    case VK_HOME: return 0x47; case VK_UP: return 0x48; case VK_PRIOR: return 0x49; case VK_LEFT: return 0x4B; case VK_CLEAR: return 0x4C; case VK_RIGHT: return 0x4D;
    case VK_END: return 0x4F; case VK_DOWN: return 0x50; case VK_NEXT: return 0x51; case VK_INSERT: return 0x52; case VK_DELETE: return 0x53;
    }
    if (vk >= VK_F1 && vk <= VK_F10) return 0x3B + vk - VK_F1;
    if (vk == VK_F11) return 0x57;
    if (vk == VK_F12) return 0x58;
    if (vk >= VK_F13 && vk <= VK_F24) return 0x64 + vk - VK_F13;
    if (vk >= VK_NUMPAD0 && vk <= VK_NUMPAD9) { static const int m[] = {0x52, 0x4F, 0x50, 0x51, 0x4B, 0x4C, 0x4D, 0x47, 0x48, 0x49}; return m[vk - VK_NUMPAD0]; }
    if (vk == VK_MULTIPLY) return 0x37; if (vk == VK_ADD) return 0x4E; if (vk == VK_SUBTRACT) return 0x4A; if (vk == VK_DECIMAL) return 0x53; if (vk == VK_DIVIDE) return 0x35;
    return 0;
}

} // extern "C"

// ------------------------------------------------------------ not used today
// Calls the repository does not make at present but a change might introduce.
extern "C" {
DWORD WINAPI SleepEx(DWORD ms, WINBOOL) { Sleep(ms); return 0; }
WINBOOL WINAPI SwitchToThread(void) { apiEnter("SwitchToThread"); return FALSE; }
void WINAPI OutputDebugStringA(LPCSTR) { apiEnter("OutputDebugStringA"); }
void WINAPI OutputDebugStringW(LPCWSTR) { apiEnter("OutputDebugStringW"); }
WINBOOL WINAPI IsDebuggerPresent(void) { return FALSE; }
WINBOOL WINAPI FlushFileBuffers(HANDLE h) {
    API("FlushFileBuffers");
    auto e = pipeEnd(lookup(P, h, true, "FlushFileBuffers")); if (!e) return fail(ERROR_INVALID_HANDLE);
    // waits until the peer has read everything
    auto left = [e]() -> size_t { PipeEnd *q = e->peer(); return q && !q->closed ? q->in.size() + q->msgs.size() : 0; };
    blockUntil("flush", [left] { return left() == 0; });
    return TRUE;
}
WINBOOL WINAPI GetHandleInformation(HANDLE h, LPDWORD f) { API("GetHandleInformation"); HandleEntry *e = lookup(P, h, true, "GetHandleInformation"); if (!e) return fail(ERROR_INVALID_HANDLE); *f = e->inherit ? HANDLE_FLAG_INHERIT : 0; return TRUE; }
WINBOOL WINAPI SetHandleInformation(HANDLE h, DWORD m, DWORD f) { API("SetHandleInformation"); HandleEntry *e = lookup(P, h, true, "SetHandleInformation"); if (!e) return fail(ERROR_INVALID_HANDLE); if (m & HANDLE_FLAG_INHERIT) e->inherit = (f & HANDLE_FLAG_INHERIT) != 0; return TRUE; }
DWORD WINAPI GetFileType(HANDLE h) { API("GetFileType"); HandleEntry *e = lookup(P, h, false); if (!e) { setErr(ERROR_INVALID_HANDLE); return FILE_TYPE_UNKNOWN; } return pipeEnd(e) ? FILE_TYPE_PIPE : FILE_TYPE_CHAR; }
WINBOOL WINAPI SetConsoleCursorInfo(HANDLE h, const CONSOLE_CURSOR_INFO *i) { API("SetConsoleCursorInfo"); auto s = screenOf(P, h, "SetConsoleCursorInfo"); if (!s) return fail(ERROR_INVALID_HANDLE); s->ci = *i; s->gen++; return TRUE; }
WINBOOL WINAPI ReadConsoleOutputCharacterW(HANDLE h, LPWSTR buf, DWORD n, COORD c, LPDWORD got) {
    API("ReadConsoleOutputCharacterW"); auto s = screenOf(P, h, "ReadConsoleOutputCharacterW"); if (!s) return fail(6);
    DWORD k = 0; for (int x = c.X, y = c.Y; k < n && y >= 0 && y < s->H && x >= 0; ++k) { buf[k] = s->row(y)[x].Char.UnicodeChar; if (++x >= s->W) { x = 0; ++y; } }
    *got = k; return TRUE;
}
WINBOOL WINAPI ReadConsoleOutputAttribute(HANDLE h, LPWORD buf, DWORD n, COORD c, LPDWORD got) {
    API("ReadConsoleOutputAttribute"); auto s = screenOf(P, h, "ReadConsoleOutputAttribute"); if (!s) return fail(6);
    DWORD k = 0; for (int x = c.X, y = c.Y; k < n && y >= 0 && y < s->H && x >= 0; ++k) { buf[k] = s->row(y)[x].Attributes; if (++x >= s->W) { x = 0; ++y; } }
    *got = k; return TRUE;
}
WINBOOL WINAPI WriteConsoleOutputCharacterW(HANDLE h, LPCWSTR t, DWORD n, COORD c, LPDWORD got) {
    API("WriteConsoleOutputCharacterW"); auto s = screenOf(P, h, "WriteConsoleOutputCharacterW"); if (!s) return fail(6);
    DWORD i = 0; *got = fillAt(*s, c, n, [&](CHAR_INFO &x) { x.Char.UnicodeChar = t[i++]; }); return TRUE;
}
WINBOOL WINAPI WriteConsoleOutputAttribute(HANDLE h, const WORD *t, DWORD n, COORD c, LPDWORD got) {
    API("WriteConsoleOutputAttribute"); auto s = screenOf(P, h, "WriteConsoleOutputAttribute"); if (!s) return fail(6);
    DWORD i = 0; *got = fillAt(*s, c, n, [&](CHAR_INFO &x) { x.Attributes = t[i++]; }); return TRUE;
}
WINBOOL WINAPI GetNamedPipeHandleStateW(HANDLE h, LPDWORD st, LPDWORD inst, LPDWORD, LPDWORD, LPWSTR, DWORD) {
    API("GetNamedPipeHandleStateW"); auto e = pipeEnd(lookup(P, h, true, "GetNamedPipeHandleStateW")); if (!e) return fail(ERROR_INVALID_HANDLE);
    if (st) *st = e->msgRead ? PIPE_READMODE_MESSAGE : 0; if (inst) *inst = 1; return TRUE;
}
HANDLE WINAPI GetProcessHeap(void) { return (HANDLE)0x110000; }
LPVOID WINAPI HeapAlloc(HANDLE, DWORD f, SIZE_T n) { apiEnter("HeapAlloc"); return f & HEAP_ZERO_MEMORY ? calloc(1, n ? n : 1) : malloc(n ? n : 1); }
WINBOOL WINAPI HeapFree(HANDLE, DWORD, LPVOID p) { apiEnter("HeapFree"); free(p); return TRUE; }
INT WINAPI lstrlenW(LPCWSTR s) { int n = 0; if (s) while (s[n]) ++n; return n; }
INT WINAPI lstrlenA(LPCSTR s) { return s ? (INT)strlen(s) : 0; }
LPWSTR WINAPI lstrcpyW(LPWSTR d, LPCWSTR s) { LPWSTR r = d; while ((*d++ = *s++)) {} return r; }
LPWSTR WINAPI lstrcpynW(LPWSTR d, LPCWSTR s, INT n) { LPWSTR r = d; while (--n > 0 && *s) *d++ = *s++; *d = 0; return r; }
INT WINAPI lstrcmpW(LPCWSTR a, LPCWSTR b) { while (*a && *a == *b) ++a, ++b; return (int)*a - (int)*b; }
INT WINAPI lstrcmpiW(LPCWSTR a, LPCWSTR b) { auto lo = [](WCHAR c) { return c >= 'A' && c <= 'Z' ? c + 32 : (int)c; }; while (*a && lo(*a) == lo(*b)) ++a, ++b; return lo(*a) - lo(*b); }
void WINAPI GetSystemTime(LPSYSTEMTIME t) { memset(t, 0, sizeof *t); t->wYear = 2016; t->wMonth = 2; t->wDay = 13; t->wSecond = (WORD)(g_now / 1000 % 60); t->wMilliseconds = (WORD)(g_now % 1000); }
void WINAPI GetLocalTime(LPSYSTEMTIME t) { GetSystemTime(t); }
WINBOOL WINAPI GetProcessTimes(HANDLE, LPFILETIME a, LPFILETIME b, LPFILETIME c, LPFILETIME d) { for (LPFILETIME f : {a, b, c, d}) f->dwLowDateTime = f->dwHighDateTime = 0; return TRUE; }
}
