#!/usr/bin/env python3
"""Development aid: systematic small changes ("mutants") of the repository's
sources, each judged by the checks of the properties the file serves.

mutate.py OUTDIR [-j N] [--scale PCT] [--every K] [--offset K] [--again RESULT] [FILE ...]
mutate.py OUTDIR [-j N] [--scale PCT] --list LIST
(--again: only the mutants that RESULT lists as survivors; LIST: a Python file
with M = [(file, what, old, new[, 'C01 C02'])], hand-written changes)

FILE is relative to /repo/src.  Works in scratch copies under OUTDIR.  Writes
OUTDIR/result.txt: one line per mutant: verdict, file:line, change, check."""
import os, re, subprocess, sys, shutil, threading, queue, random

PROPS = {
    'agent/Terminal': 'C01 C05 C22 C04 C02 C23',
    'agent/Scraper': 'C01 C05 C22 C02 C29 C03 C31',
    'agent/ConsoleLine': 'C01 C05 C02',
    'agent/Win32ConsoleBuffer': 'C01 C05 C29 C22 C03',
    'agent/LargeConsoleRead': 'C01 C05 C22 C02',
    'agent/Win32Console': 'C23 C05 C01 C10',
    'agent/ConsoleFont': 'C05 C31 C04',
    'agent/ConsoleInputReencoding': 'C30 C07 C08',
    'agent/ConsoleInput': 'C07 C09 C11 C10 C08 C30 C31 C26',
    'agent/DefaultInputMap': 'C09 C07',
    'agent/InputMap': 'C09 C07 C08 C26',
    'agent/DebugShowInput': 'C31',
    'agent/NamedPipe': 'C27 C03 C20 C06 C07 C15 C17',
    'agent/EventLoop': 'C27 C03 C20 C06 C08 C15',
    'agent/AgentCreateDesktop': 'C28 C06 C15',
    'agent/Agent': 'C06 C20 C18 C19 C03 C05 C22 C23 C29 C27 C30 C28 C31 C12 C16 C26 C15',
    'agent/main': 'C16 C18 C28 C12 C29 C31',
    'debugserver/DebugServer': 'C26',
    'libwinpty/AgentLocation': 'C16 C21 C18',
    'libwinpty/winpty': 'C12 C13 C14 C16 C18 C19 C20 C21 C15 C17 C28 C06',
    'shared/BackgroundDesktop': 'C28 C15 C16',
    'shared/Buffer': 'C20 C18 C21 C12',
    'shared/DebugClient': 'C26 C16',
    'shared/GenRandom': 'C17 C16',
    'shared/OwnedHandle': 'C15 C16 C28',
    'shared/StringUtil': 'C26 C16 C18 C29',
    'shared/WindowsSecurity': 'C17 C16 C15 C26',
    'shared/WindowsVersion': 'C16 C26 C05',
    'shared/WinptyAssert': 'C31',
    'shared/WinptyException': 'C21 C12 C16',
    'shared/WinptyVersion': 'C16',
    'unix-adapter/': 'C24 C25',
}
MODULES = {'agent': ['agent'], 'libwinpty': ['winpty', 'adapter'], 'debugserver': ['debugserver'],
           'shared': ['agent', 'winpty', 'debugserver'], 'unix-adapter': ['adapter']}

def props_for(f):
    best = ''
    for k in PROPS:
        if f.startswith(k) and len(k) > len(best) and (k.endswith('/') or f[len(k)] == '.'):
            best = k
    return PROPS.get(best, '').split()

def code_mask(text):
    """1 for characters outside comments and literals."""
    m = bytearray(b'\1' * len(text)); i = 0
    for t in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', text, re.S):
        for k in range(t.start(), t.end()): m[k] = 0
    return m

def mutants(path):
    text = open(path).read(); mask = code_mask(text)
    out = []; pos = 0
    lines = text.split('\n'); skip = 0
    for ln, line in enumerate(lines, 1):
        start = pos; pos += len(line) + 1
        s = line.strip()
        if not s or s.startswith(('#', '//', '*', 'trace(', 'ASSERT(', 'assert(', 'static_assert', 'using ', 'template', 'namespace', 'class ', 'struct ', 'enum ', 'case ', 'default:')):
            continue
        def sub(a, b, new, what):
            out.append((ln, what, text[:start + a] + new + text[start + b:]))
        def code(a): return mask[start + a]
        for m in re.finditer(r'(?<![<>=!\-+&|])(<=|>=|==|!=|<|>)(?![<>=])', line):
            if not code(m.start()): continue
            op = m.group(1)
            if op in '<>' and not (line[m.start()-1:m.start()] == ' ' and line[m.end():m.end()+1] == ' '): continue
            new = {'<': '<=', '>': '>=', '<=': '<', '>=': '>', '==': '!=', '!=': '=='}[op]
            sub(m.start(), m.end(), new, op + ' -> ' + new)
        for m in re.finditer(r'&&|\|\|', line):
            if code(m.start()) : sub(m.start(), m.end(), '||' if m.group() == '&&' else '&&', m.group() + ' swapped')
        for m in re.finditer(r'(?<![+\-eE])([+\-])(?= \d| [A-Za-z_(])', line):
            if code(m.start()) and line[m.start()-1] == ' ': sub(m.start(), m.end(), '-' if m.group(1) == '+' else '+', m.group(1) + ' flipped')
        m = re.match(r'^\s*(?:\} else )?(if|while) \((.*)\) \{$', line)
        if m: sub(m.start(2), m.end(2), '!(' + m.group(2) + ')', 'condition negated'); 
        if m and m.group(1) == 'if': sub(m.start(2), m.end(2), 'false', 'condition false'); sub(m.start(2), m.end(2), 'true', 'condition true')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', line):
            if code(m.start()) and not s.startswith('{') and 'const ' not in line[:m.start()].split('=')[-1]:
                sub(m.start(), m.end(), str(int(m.group(1)) + 1), 'constant %s+1' % m.group(1))
        for m in re.finditer(r'\b(true|false)\b', line):
            if code(m.start()): sub(m.start(), m.end(), 'false' if m.group() == 'true' else 'true', m.group() + ' flipped')
        if s in ('break;', 'continue;'):
            i = line.index(s); sub(i, i + len(s), ';', 'dropped ' + s)
        prev = lines[ln - 2].strip() if ln > 1 else ''
        whole = s.endswith(';') and s.count('(') == s.count(')') and (prev == '' or prev[-1] in ';{}:' or prev.startswith(('//', '*', '#')))
        if whole and (re.match(r'^[\w.:>\-\[\]*()]+\(.*\);$', s) or re.match(r'^[\w.:>\-\[\]()*]+ ?(=|\+=|-=|\|=|&=|\^=) .*;$', s) or re.match(r'^(\+\+|--)?[\w.>\-]+(\+\+|--)?;$', s)) \
           and not s.startswith(('return', 'goto', 'throw', 'delete ', 'typedef')):
            i = line.index(s); sub(i, i + len(s), ';', 'dropped: ' + s[:70])
        elif s.startswith('throw') and whole:
            i = line.index(s); sub(i, i + len(s), ';', 'dropped: ' + s[:70])
    return out

def main():
    a = sys.argv[1:]; out = os.path.abspath(a.pop(0)); n = 8; scale = '25'; every = 1; files = []; offset = 0; again = ''; hand = ''
    while a:
        x = a.pop(0)
        if x == '-j': n = int(a.pop(0))
        elif x == '--scale': scale = a.pop(0)
        elif x == '--every': every = int(a.pop(0))
        elif x == '--offset': offset = int(a.pop(0))
        elif x == '--again': again = a.pop(0)
        elif x == '--list': hand = a.pop(0)
        else: files.append(x)
    os.makedirs(out, exist_ok=True)
    src = open('/verif/build.py').read().rsplit('\nmain()', 1)[0]
    base = out + '/base'
    if not os.path.exists(base + '/b/sim'):
        shutil.copytree('/repo', base + '/repo', ignore=shutil.ignore_patterns('.git', 'build*'))
        subprocess.check_call(['python3', '/verif/build.py', base + '/b'], env=dict(os.environ, SIM_REPO=base + '/repo'))
    done = set()
    res = out + '/result.txt'
    if os.path.exists(res):
        for l in open(res): done.add('|'.join(x.strip() for x in l.split('|', 2)[1:]))
    jobs = queue.Queue(); total = 0
    allm = []
    for f in files:
        allm += [(f, *m) for m in mutants('/repo/src/' + f)]
    allm = allm[offset::every]
    override = {}
    if hand:
        g0 = {}; exec(open(hand).read(), g0)
        for f, what, old, new, *pr in g0['M']:
            t = open('/repo/src/' + f).read()
            if t.count(old) != 1: print('%s %s: OLD occurs %d times' % (f, what, t.count(old)), flush=True)
            if t.count(old) == 0: continue
            allm.append((f, t[:t.index(old)].count('\n') + 1, what, t.replace(old, new, 1)))
            if pr: override[what] = pr[0].split()
    if again:
        left = set('|'.join(x.strip() for x in l.split('|', 2)[1:]) for l in open(again) if l.startswith('SURVIVED'))
        allm = [m for m in allm if '%s:%d|%s' % (m[0], m[1], m[2].strip()) in left]
    random.Random(1).shuffle(allm)
    for k, m in enumerate(allm): jobs.put((k, m)); total += 1
    print('%d mutants' % total, flush=True)
    lock = threading.Lock(); cnt = {}
    def worker(w):
        d = '%s/w%d' % (out, w)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base, d, symlinks=True)
        g = {'__name__': 'mutant', '__file__': '/verif/build.py'}
        exec(compile(src.replace("REPO = os.environ.get('SIM_REPO', '/repo')", 'REPO = %r' % (d + '/repo')).replace("OUT = os.path.abspath(sys.argv[1] if len(sys.argv) > 1 else os.path.join(HERE, 'build'))", 'OUT = %r' % (d + '/b')), 'build', 'exec'), g)
        while True:
            try: k, (f, ln, what, text) = jobs.get_nowait()
            except queue.Empty: break
            key = '%s:%d|%s' % (f, ln, what.strip())
            if key in done: continue
            p = d + '/repo/src/' + f; orig = open('/repo/src/' + f).read()
            open(p, 'w').write(text)
            verdict = ''
            mods = MODULES[f.split('/')[0]]
            b = d + '/b'; base_name = os.path.basename(f)[:-3]
            objs = []; ok = True
            for m in mods:
                o = '%s/o/%s_%s.o' % (b, 'winpty' if m == 'adapter' and f.startswith('libwinpty') else m, base_name)
                flags = {'agent': ['-DWINPTY_AGENT_ASSERT'], 'winpty': ['-DCOMPILING_WINPTY_DLL', '-fsanitize-coverage=trace-pc'], 'debugserver': [],
                         'adapter': ['-I', '/verif/sim/cyg', '-DPATH_MAX=4096', '-D_WINSOCKAPI_', '-D_WINSOCK2API_', '-fsanitize-coverage=trace-pc']}[m]
                if f.startswith('libwinpty') and m == 'adapter': continue
                r = subprocess.run(['g++', '-c', p, '-o', o, '-std=c++11'] + g['COMMON'] + ['-I', d + '/repo/src/include', '-I', 'gen'] + flags, cwd=b, capture_output=True)
                if r.returncode: ok = False; break
            if ok:
                for m in mods:
                    import glob
                    ob = sorted(o for o in glob.glob('%s/o/%s_*.o' % (b, m)) if not o.endswith(('_all.o', '_a.o', '_l.o')))
                    lib = sorted(o for o in glob.glob(b + '/o/winpty_*.o') if not o.endswith('_all.o'))
                    if m == 'adapter':
                        for nm, oo, rd in (('a', ob, 'gen/redef-posix.txt'), ('l', lib, 'gen/redef.txt')):
                            subprocess.check_call(['g++', '-r', '-nostdlib', '-o', 'o/adapter_%s.o' % nm] + oo, cwd=b)
                            subprocess.check_call(['objcopy', '--redefine-syms=' + rd, 'o/adapter_%s.o' % nm], cwd=b)
                        ins = ['o/adapter_a.o', 'o/adapter_l.o', '-Wl,--allow-multiple-definition']
                    else:
                        subprocess.check_call(['g++', '-r', '-nostdlib', '-o', 'o/%s_all.o' % m] + ob, cwd=b)
                        subprocess.check_call(['objcopy', '--redefine-syms=gen/redef.txt', 'o/%s_all.o' % m], cwd=b)
                        ins = ['o/%s_all.o' % m]
                    r = subprocess.run(['g++', '-shared', '-o', m + '.so'] + ins + ['-Wl,--version-script=gen/export.map', '-Wl,-Bsymbolic', '-fno-gnu-unique'], cwd=b, capture_output=True)
                    if r.returncode: ok = False
            if not ok: verdict = 'NOBUILD'
            else:
                for prop in override.get(what) or props_for(f):
                    try:
                        r = subprocess.run(['./sim', prop, '--scale', scale, '-j', '1', '--evidence', d + '/ev', '--known', '/verif/known-findings.txt', '--max-wall', '200'], cwd=b, env=dict(os.environ, SIM_VERDICT_ONLY='1', SIM_CPU_LIMIT='15'), capture_output=True, text=True, timeout=400)
                    except subprocess.TimeoutExpired:
                        verdict = 'TIMEOUT ' + prop; break
                    if r.returncode == 1:
                        mm = re.search(r'class=(\S+)', r.stdout); verdict = 'killed %s %s' % (prop, mm.group(1) if mm else '?'); break
                    if r.returncode != 0:
                        verdict = 'HARNESS %s %s' % (prop, r.stderr.strip()[:150].replace('\n', ' ')); break
                else: verdict = 'SURVIVED'
            open(p, 'w').write(orig)
            # put the unchanged object back
            for m in mods:
                mm = 'winpty' if m == 'adapter' and f.startswith('libwinpty') else m
                bo = '%s/b/o/%s_%s.o' % (base, mm, base_name)
                if os.path.exists(bo): shutil.copy2(bo, '%s/o/%s_%s.o' % (b, mm, base_name))
                shutil.copy2('%s/b/%s.so' % (base, m), '%s/%s.so' % (b, m))
            with lock:
                v = verdict.split()[0]; cnt[v] = cnt.get(v, 0) + 1
                with open(res, 'a') as fo: fo.write('%-40s|%s:%d|%s\n' % (verdict, f, ln, what.strip()))
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(cnt)
main()
