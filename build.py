#!/usr/bin/env python3
"""Builds the simulator and the simulated modules from /repo's working tree.

Every module is the repository's own sources, compiled natively against the
MinGW-w64 headers; Win32/CRT symbols are resolved by the simulator."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.path.abspath(sys.argv[1] if len(sys.argv) > 1 else os.path.join(HERE, 'build'))
MINGW = '/usr/share/mingw-w64/include'
NATIVE = ['/usr/include', '/usr/include/x86_64-linux-gnu',
          '/usr/lib/gcc/x86_64-linux-gnu/13/include', '/usr/include/c++/13']

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, 'w') as f:
        f.write(text)

def overlay():
    inc = OUT + '/inc'
    if os.path.isdir(inc):
        return
    os.makedirs(inc)
    for f in os.listdir(MINGW):
        if not (f.endswith('.h') or f in ('psdk_inc', 'sdks', 'sec_api')):
            continue
        if any(os.path.exists(n + '/' + f) for n in NATIVE):
            continue
        os.symlink(MINGW + '/' + f, inc + '/' + f)

def support():
    write(OUT + '/gen/pre.h', '''#include <stdint.h>
#include <stddef.h>
#define __cdecl
#define _cdecl
#define __stdcall
#define _stdcall
#define __fastcall
#define __thiscall
#define __declspec(x)
#define __int64 long long
''')
    write(OUT + '/gen/inc2/bits/c++config.h', '''#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
''')
    ver = open(REPO + '/VERSION.txt').read().strip()
    write(OUT + '/gen/GenVersion.h',
          'const char GenVersion_Version[] = "%s";\nconst char GenVersion_Commit[] = "simulated";\n' % ver)
    redirect = '''exit _exit abort __assert_fail _Znwm _Znam _ZdlPv _ZdaPv
        _ZdlPvm _ZdaPvm
        __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
        wcslen wcsnlen wcscmp wcsncmp wcsicmp _wcsicmp wcscasecmp wcscpy wcsncpy wcscat wcschr wcsrchr wcsstr
        wmemcpy wmemmove wmemset wmemcmp wmemchr wcstol wcstoul
        vsnprintf snprintf sprintf vsprintf vfprintf fprintf printf vprintf puts fputs fputc putchar putc
        fwrite fflush perror stdout stderr stdin'''.split()
    lines = ['main entry']
    for r in redirect:
        a, _, b = r.partition(':')
        lines.append('%s sim_%s' % (a, a))
    # std::mutex, std::this_thread and std::chrono, should a change use them
    std = ['%s px_%s' % (x, x) for x in 'pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock nanosleep clock_gettime gettimeofday'.split()]
    chrono = ['_ZNSt6chrono3_V212steady_clock3nowEv sim_steady_now', '_ZNSt6chrono3_V212system_clock3nowEv sim_system_now', 'time sim_time']
    lines += chrono
    write(OUT + '/gen/redef.txt', '\n'.join(lines + std) + '\n')
    posix = '''read write close select pipe fcntl ioctl isatty tcgetattr tcsetattr sigaction signal sigprocmask
        pthread_create pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock
        pthread_sigmask pthread_kill pthread_detach pthread_self
        pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
        getenv setenv unsetenv realpath kill raise usleep sleep strerror access poll getpid environ mbsrtowcs mbstowcs wcstombs setlocale nanosleep clock_gettime gettimeofday dup dup2 open
        __errno_location readlink stat'''.split()
    p = []
    for r in posix:
        a, _, b = r.partition(':')
        p.append('%s px_%s' % (a, a))
    write(OUT + '/gen/redef-posix.txt', '\n'.join(lines + p) + '\n')
    write(OUT + '/gen/export.map', '{ global: entry; winpty_*; local: *; };\n')

COMMON = ['-fshort-wchar', '-fPIC', '-w', '-g1', '-O1', '-fno-strict-aliasing', '-U_FORTIFY_SOURCE', '-fno-stack-protector',
          '-D__CYGWIN__', '-D_WIN64', '-include', 'gen/pre.h', '-D_WIN32_WINNT=0x0501', '-DUNICODE', '-D_UNICODE',
          '-isystem', 'gen/inc2', '-I', 'inc']
ASAN = os.environ.get('SIM_ASAN')
if ASAN:
    COMMON = COMMON + ['-fsanitize=address', '-fno-omit-frame-pointer']

def run(cmd):
    r = subprocess.run(cmd, cwd=OUT, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(' '.join(cmd)[:400] + '\n' + r.stderr[:6000] + '\n')
        raise SystemExit(2)
    return r.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0'); h.update(open(p, 'rb').read())
    return h.hexdigest()

def srcs(d, skip=('Test.cc',)):
    return [f for f in sorted(glob.glob('%s/src/%s/*.cc' % (REPO, d))) if not f.endswith(tuple(skip))]

def main():
    os.makedirs(OUT + '/o', exist_ok=True)
    overlay(); support()
    allsrc = [f for d in ('agent', 'shared', 'libwinpty', 'debugserver', 'unix-adapter', 'include')
              for e in ('*.cc', '*.h') for f in glob.glob('%s/src/%s/%s' % (REPO, d, e))]
    stamp = tree_hash(allsrc + [os.path.abspath(__file__), REPO + '/VERSION.txt'] + glob.glob(HERE + '/sim/cyg/*/*.h')) + str(bool(ASAN))
    old = open(OUT + '/stamp').read() if os.path.exists(OUT + '/stamp') else ''
    rebuild = stamp != old
    jobs = []
    def cc(src, obj, flags):
        jobs.append((['g++', '-c', src, '-o', obj] + flags, obj))
    mods = {}
    shared = srcs('shared')
    def module(name, parts):
        objs = []
        for files, flags in parts:
            for f in files:
                o = 'o/%s_%s.o' % (name, os.path.basename(f)[:-3])
                objs.append(o)
                cc(f, o, ['-std=c++11'] + COMMON + ['-I', REPO + '/src/include', '-I', 'gen'] + flags)
        mods[name] = objs
    if rebuild:
        cov = [] if ASAN else ['-fsanitize-coverage=trace-pc']
        module('agent', [(srcs('agent') + shared, ['-DWINPTY_AGENT_ASSERT'])])
        module('winpty', [(srcs('libwinpty') + shared, ['-DCOMPILING_WINPTY_DLL'] + cov)])
        module('debugserver', [(srcs('debugserver') + shared, [])])
        module('adapter', [(srcs('unix-adapter'), ['-I', HERE + '/sim/cyg', '-DPATH_MAX=4096', '-D_WINSOCKAPI_', '-D_WINSOCK2API_'] + cov)])
    # simulator objects: incremental through dependency files
    simobjs = []
    for f in sorted(glob.glob(HERE + '/sim/*.cc')):
        o = 'o/sim_%s.o' % os.path.basename(f)[:-3]
        simobjs.append(o)
        d = OUT + '/' + o[:-2] + '.d'
        op = OUT + '/' + o
        fresh = False
        if os.path.exists(d) and os.path.exists(op):
            t = os.path.getmtime(op)
            deps = open(d).read().replace('\\\n', ' ').split(':', 1)[1].split()
            fresh = all(os.path.exists(x if x[0] == '/' else OUT + '/' + x) and os.path.getmtime(x if x[0] == '/' else OUT + '/' + x) < t for x in deps)
            fresh = fresh and os.path.getmtime(os.path.abspath(__file__)) < t
        if not fresh:
            jobs.append((['g++', '-c', f, '-o', o, '-MMD', '-MP', '-std=gnu++17'] + [x for x in COMMON if x != '-fPIC'] +
                         (['-Wno-attributes', '-Wno-format'])+ ['-I', REPO + '/src/include'], o))
    # slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][2]))
    with ThreadPoolExecutor(10) as ex:
        list(ex.map(lambda j: run(j[0]), jobs))
    if rebuild:
        lib = mods['winpty']
        def link(name):
            objs = list(mods[name])
            if name == 'adapter':
                objs = objs + lib
            redef = 'gen/redef-posix.txt' if name == 'adapter' else 'gen/redef.txt'
            if name == 'adapter':
                # libwinpty inside the adapter process keeps the plain set
                run(['g++', '-r', '-nostdlib', '-o', 'o/adapter_a.o'] + mods[name])
                run(['objcopy', '--redefine-syms=' + redef, 'o/adapter_a.o'])
                run(['g++', '-r', '-nostdlib', '-o', 'o/adapter_l.o'] + lib)
                run(['objcopy', '--redefine-syms=gen/redef.txt', 'o/adapter_l.o'])
                ins = ['o/adapter_a.o', 'o/adapter_l.o']
                extra = ['-Wl,--allow-multiple-definition']
            else:
                run(['g++', '-r', '-nostdlib', '-o', 'o/%s_all.o' % name] + objs)
                run(['objcopy', '--redefine-syms=' + redef, 'o/%s_all.o' % name])
                ins = ['o/%s_all.o' % name]
                extra = []
            run(['g++', '-shared', '-o', name + '.so'] + ins + extra +
                ['-Wl,--version-script=gen/export.map', '-Wl,-Bsymbolic', '-fno-gnu-unique'] + (['-fsanitize=address'] if ASAN else []))
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(link, list(mods)))
    if jobs or not os.path.exists(OUT + '/sim'):
        run(['g++', '-o', 'sim.new'] + simobjs + ['-rdynamic', '-ldl'] + (['-fsanitize=address'] if ASAN else []))
        os.rename(OUT + '/sim.new', OUT + '/sim')
    with open(OUT + '/stamp', 'w') as f:
        f.write(stamp)

main()
