#!/usr/bin/env python3
"""Development aid: try.py FILE OLD NEW scenario:param:runs...
Replaces OLD by NEW once in a scratch copy of /repo's FILE, builds it there and runs the scenarios."""
import subprocess, sys, os, shutil, tempfile
BASE = os.environ.get('SIM_REPO', '/repo')
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='try', dir='/tmp')
try:
    subprocess.check_call(['rsync', '-a', '--exclude', '.git', BASE + '/', d + '/repo/'] if shutil.which('rsync') else ['cp', '-a', BASE, d + '/repo'])
    p = d + '/repo/src/' + f
    s = open(p).read()
    n = s.count(old)
    if n != 1: print('OLD occurs %d times' % n)
    if n == 0: sys.exit(2)
    open(p, 'w').write(s.replace(old, new, 1))
    env = dict(os.environ, SIM_REPO=d + '/repo')
    subprocess.check_call(['python3', '/verif/build.py', d + '/b'], env=env, stdout=subprocess.DEVNULL)
    for a in sys.argv[4:]:
        n, p, r = a.split(':')
        o = subprocess.run([d + '/b/sim', '--scenario', n, '--param', p, '--runs', r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        v = [l for l in o.splitlines() if 'VIOL' in l]
        print(a, '\n'.join(v) if v else 'CLEAN ' + o.splitlines()[0])
finally:
    shutil.rmtree(d)
