#!/usr/bin/env python3
"""Development aid: seedcheck.py [--prop ID] DIR...: builds each planted change (DIR/patch.diff, DIR/meta.json) in
a scratch copy of /repo and runs the quick check of its property there."""
import json, os, shutil, subprocess, sys, tempfile, time
a = sys.argv[1:]; prop = None
if a and a[0] == '--prop': prop = a[1]; a = a[2:]
for s in a:
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', d + '/repo']) if False else shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('build'))
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.abspath(s) + '/patch.diff'])
        if r.returncode: print(s, 'patch does not apply'); continue
        p = prop or json.load(open(s + '/meta.json'))['property']
        env = dict(os.environ, SIM_REPO=d + '/repo')
        subprocess.check_call(['python3', '/verif/build.py', d + '/b'], env=env, stdout=subprocess.DEVNULL)
        t = time.time()
        r = subprocess.run([d + '/b/sim', p, '--evidence', d + '/ev', '--known', '/verif/known-findings.txt', '--max-wall', '700'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'class' in x or 'HARNESS' in x]
        print(os.path.basename(s), p, 'CAUGHT' if r.returncode == 1 else 'exit %d' % r.returncode, '%.0fs' % (time.time() - t), ' | '.join(x[:200] for x in l), flush=True)
    finally:
        shutil.rmtree(d)
