// C runtime seen by the code under test (symbols are redirected at build time
// with objcopy, see build.sh).  wchar_t is 16 bits wide here.
#include "kernel.h"
#include "module.h"
#include "posix.h"
#include <malloc.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

using namespace sim;

namespace sim {
bool g_bbPreempt = false;
static int64_t g_bbLeft = -1;
uint32_t g_bbGap = 0;
size_t g_allocCap = 512u << 20;
}

// "%" subset used by the code under test, with 16-bit %ls.
static std::string vfmt16(const char *f, va_list ap) {
    std::string r;
    for (; *f; ++f) {
        if (*f != '%') { r += *f; continue; }
        std::string spec = "%"; ++f;
        while (*f && strchr("-+ #0123456789.*'", *f)) {
            if (*f == '*') spec += std::to_string(va_arg(ap, int)); else spec += *f;
            ++f;
        }
        std::string len;
        while (*f && strchr("hlLqjzt", *f)) len += *f++;
        if (*f == 'I' && f[1] == '6' && f[2] == '4') { len = "ll"; f += 3; }
        char c = *f;
        char buf[512];
        switch (c) {
        case '%': r += '%'; break;
        case 'd': case 'i':
            if (len == "ll" || len == "l" || len == "j" || len == "z" || len == "t") snprintf(buf, sizeof buf, (spec + "lld").c_str(), (long long)va_arg(ap, long long));
            else snprintf(buf, sizeof buf, (spec + "d").c_str(), va_arg(ap, int));
            r += buf; break;
        case 'u': case 'x': case 'X': case 'o':
            if (len == "ll" || len == "l" || len == "j" || len == "z" || len == "t") snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), va_arg(ap, unsigned long long));
            else snprintf(buf, sizeof buf, (spec + c).c_str(), va_arg(ap, unsigned));
            r += buf; break;
        case 'c': snprintf(buf, sizeof buf, (spec + "c").c_str(), va_arg(ap, int)); if (buf[0] == 0) r += '\0'; else r += buf; break;
        case 'p': snprintf(buf, sizeof buf, "%p", va_arg(ap, void *)); r += buf; break;
        case 'f': case 'g': case 'e': snprintf(buf, sizeof buf, (spec + c).c_str(), va_arg(ap, double)); r += buf; break;
        case 's':
            if (len == "l") { std::string s = u8(U(va_arg(ap, const wchar_t *))); r += s; }
            else {
                const char *s = va_arg(ap, const char *); if (!s) s = "(null)";
                size_t dot = spec.find('.');
                int prec = dot == std::string::npos ? -1 : atoi(spec.c_str() + dot + 1);
                std::string t = prec >= 0 ? std::string(s, strnlen(s, prec)) : std::string(s);
                int width = atoi(spec.c_str() + 1 + (spec[1] == '-'));
                bool left = spec.size() > 1 && spec[1] == '-';
                while ((int)t.size() < width) t = left ? t + " " : " " + t;
                r += t;
            }
            break;
        case 'S': r += u8(U(va_arg(ap, const wchar_t *))); break;
        default: r += '?'; break;
        }
        if (!*f) break;
    }
    return r;
}

static void emit(void *fp, const std::string &s);

extern "C" {
char sim_stdout_obj, sim_stderr_obj, sim_stdin_obj;
void *sim_stdout = &sim_stdout_obj, *sim_stderr = &sim_stderr_obj, *sim_stdin = &sim_stdin_obj;

[[noreturn]] void sim_exit(int code) {
    apiEnter("exit");
    flushStdout(curProc());
    exitCurrentProcess((uint32_t)code);
}
[[noreturn]] void sim_abort() {
    if (!g_cur) abort();
    exitCurrentProcess(3, true, "abort() called");
}
[[noreturn]] void sim_assert_fail(const char *e, const char *file, unsigned line, const char *) {
    const char *b = strrchr(file, '/');
    exitCurrentProcess(3, true, fmt("assertion %s failed at %s:%u", e, b ? b + 1 : file, line));
}
void sim_assert(const char *e, const char *file, int line) { sim_assert_fail(e, file, (unsigned)line, ""); }

void *sim_new(size_t n) {
    Fiber *f = g_cur;
    if (f && f->proc) {
        if (g_allocCountdown >= 0 && f->allocFaults) {
            if (g_allocCountdown == 0 || --g_allocCountdown == 0) {
                countFault(F_ALLOC_FAIL);
                ev("alloc-fail", (int64_t)n);
                if (!g_allocPersist) g_allocCountdown = -1;
                throw std::bad_alloc();
            }
        }
        if (n > g_allocCap) { ev("alloc-huge", (int64_t)n); throw std::bad_alloc(); }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (f && f->proc) {
        Process *P = f->proc;
        size_t u = malloc_usable_size(p);
        P->heapLive += (int64_t)u; P->heapCount++;
        if (P->heapLive > P->heapPeak) P->heapPeak = P->heapLive;
        P->allocCalls++;
        if (n <= 65536) memset(p, 0xCD, n);
    }
    return p;
}
void sim_delete(void *p) {
    if (!p) return;
    if (g_cur && g_cur->proc) {
        size_t u = malloc_usable_size(p);
        g_cur->proc->heapLive -= (int64_t)u; g_cur->proc->heapCount--;
        memset(p, 0xDD, u <= 65536 ? u : 65536);
    }
    free(p);
}
void sim_delete_sized(void *p, size_t) { sim_delete(p); }

int sim_guard_acquire(int64_t *g) {
    char *b = (char *)g;
    if (b[0]) return 0;
    while (b[1]) {
        if (!g_cur) abort();
        if (((int32_t *)g)[1] == g_cur->id) violate("recursive-static-init", "recursive initialisation of a function-local static");
        blockUntil("static-guard", [b] { return b[1] == 0; });
        if (b[0]) return 0;
    }
    b[1] = 1;
    ((int32_t *)g)[1] = g_cur ? g_cur->id : 0;
    return 1;
}
void sim_guard_release(int64_t *g) { char *b = (char *)g; b[1] = 0; b[0] = 1; }
void sim_guard_abort(int64_t *g) { ((char *)g)[1] = 0; }

size_t sim_wcslen(const char16_t *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t sim_wcsnlen(const char16_t *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int sim_wcscmp(const char16_t *a, const char16_t *b) { while (*a && *a == *b) ++a, ++b; return *a < *b ? -1 : *a > *b; }
int sim_wcsncmp(const char16_t *a, const char16_t *b, size_t n) { while (n && *a && *a == *b) ++a, ++b, --n; return !n ? 0 : *a < *b ? -1 : *a > *b; }
static char16_t lo(char16_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int sim_wcsicmp(const char16_t *a, const char16_t *b) { while (*a && lo(*a) == lo(*b)) ++a, ++b; return lo(*a) < lo(*b) ? -1 : lo(*a) > lo(*b); }
char16_t *sim_wcscpy(char16_t *d, const char16_t *s) { char16_t *r = d; while ((*d++ = *s++)) {} return r; }
char16_t *sim_wcsncpy(char16_t *d, const char16_t *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char16_t *sim_wcscat(char16_t *d, const char16_t *s) { sim_wcscpy(d + sim_wcslen(d), s); return d; }
const char16_t *sim_wcschr(const char16_t *s, char16_t c) { for (;; ++s) { if (*s == c) return s; if (!*s) return nullptr; } }
const char16_t *sim_wcsrchr(const char16_t *s, char16_t c) { const char16_t *r = nullptr; for (;; ++s) { if (*s == c) r = s; if (!*s) return r; } }
const char16_t *sim_wcsstr(const char16_t *s, const char16_t *t) { size_t n = sim_wcslen(t); for (;; ++s) { if (!sim_wcsncmp(s, t, n)) return s; if (!*s) return nullptr; } }
char16_t *sim_wmemcpy(char16_t *d, const char16_t *s, size_t n) { memcpy(d, s, n * 2); return d; }
char16_t *sim_wmemmove(char16_t *d, const char16_t *s, size_t n) { memmove(d, s, n * 2); return d; }
char16_t *sim_wmemset(char16_t *d, char16_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int sim_wmemcmp(const char16_t *a, const char16_t *b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
const char16_t *sim_wmemchr(const char16_t *a, char16_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] == c) return a + i; return nullptr; }
long sim_wcstol(const char16_t *s, char16_t **end, int base) {
    std::string t; const char16_t *p = s; while (*p && *p < 128) t += (char)*p++;
    char *e; long r = strtol(t.c_str(), &e, base); if (end) *end = (char16_t *)s + (e - t.c_str()); return r;
}
unsigned long sim_wcstoul(const char16_t *s, char16_t **end, int base) { return (unsigned long)sim_wcstol(s, end, base); }

int sim_vsnprintf(char *out, size_t n, const char *f, va_list ap) {
    std::string s = vfmt16(f, ap);
    if (n) { size_t k = std::min(n - 1, s.size()); memcpy(out, s.data(), k); out[k] = 0; }
    return (int)s.size();
}
int sim_snprintf(char *out, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(out, n, f, ap); va_end(ap); return r; }
int sim_sprintf(char *out, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(out, 1u << 30, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *out, const char *f, va_list ap) { return sim_vsnprintf(out, 1u << 30, f, ap); }
int sim_vfprintf(void *fp, const char *f, va_list ap) { std::string s = vfmt16(f, ap); emit(fp, s); return (int)s.size(); }
int sim_fprintf(void *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(fp, f, ap); va_end(ap); return r; }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_vprintf(const char *f, va_list ap) { return sim_vfprintf(sim_stdout, f, ap); }
int sim_puts(const char *s) { emit(sim_stdout, std::string(s) + "\n"); return 1; }
int sim_fputs(const char *s, void *fp) { emit(fp, s); return 1; }
int sim_fputc(int c, void *fp) { emit(fp, std::string(1, (char)c)); return c; }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
size_t sim_fwrite(const void *p, size_t a, size_t b, void *fp) { emit(fp, std::string((const char *)p, a * b)); return b; }
int sim_fflush(void *fp) { if (!fp || fp == sim_stdout) flushStdout(curProc()); return 0; }
void sim_perror(const char *s) { emit(sim_stderr, std::string(s) + ": error\n"); }

// Basic-block preemption point (modules compiled with -fsanitize-coverage).
[[noreturn]] void sim__exit(int c) { sim_exit(c); }
[[noreturn]] void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { sim_assert_fail(e, f, l, ""); }
void *sim__Znwm(size_t n) { return sim_new(n); }
void *sim__Znam(size_t n) { return sim_new(n); }
void sim__ZdlPv(void *p) { sim_delete(p); }
void sim__ZdaPv(void *p) { sim_delete(p); }
void sim__ZdlPvm(void *p, size_t) { sim_delete(p); }
void sim__ZdaPvm(void *p, size_t) { sim_delete(p); }
int sim___cxa_guard_acquire(int64_t *g) { return sim_guard_acquire(g); }
void sim___cxa_guard_release(int64_t *g) { sim_guard_release(g); }
void sim___cxa_guard_abort(int64_t *g) { sim_guard_abort(g); }
int sim__wcsicmp(const char16_t *a, const char16_t *b) { return sim_wcsicmp(a, b); }
int sim_wcscasecmp(const char16_t *a, const char16_t *b) { return sim_wcsicmp(a, b); }
int sim_putc(int c, void *fp) { return sim_fputc(c, fp); }
void __sanitizer_cov_trace_pc() {
    Fiber *f = g_cur;
    if (g_sigWaiting && f && f->sigPending && !f->noYield) posixDeliver();
    if (!g_bbPreempt || !f || f->noYield) return;
    if (g_bbLeft < 0) {
        uint32_t v = choose(SCHED, 2 * g_bbGap);
        g_bbLeft = v == 0 ? 20 * (int64_t)g_bbGap : v;
    }
    if (g_bbLeft-- > 0) return;
    g_bbLeft = -1;
    yieldNow("bb");
}
} // extern "C"

void sim::flushStdout(Process *p) {
    if (!p || p->outBuf.empty()) return;
    std::string s; s.swap(p->outBuf);
    p->out += s; if (p->onStdout) p->onStdout(s);
}
static void emit(void *fp, const std::string &s) {
    Process *p = curProc();
    if (!p) return;
    if (fp == sim_stdout && p->stdoutBuffered) { p->outBuf += s; if (p->outBuf.size() >= 4096) flushStdout(p); }
    else if (fp == sim_stdout) { p->out += s; if (p->onStdout) p->onStdout(s); }
    else p->err += s;
    if (p->out.size() + p->err.size() > (8u << 20)) violate("runaway", "a process prints without end: " + hexdump(s, 100));
    if (g_verbose) logf("%s: %s", fp == sim_stdout ? "stdout" : "stderr", hexdump(s).c_str());
}
