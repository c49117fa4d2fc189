#!/usr/bin/env python3
"""run each planted bug's own check on a scratch copy.  usage: try.py [id...]"""
import os, sys, subprocess, shutil, tempfile, json, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
for i in ids:
    s = os.path.join(ROOT, 'seeded', i)
    m = json.load(open(s + '/meta.json'))
    d = tempfile.mkdtemp(prefix='try.', dir='/tmp')
    try:
        subprocess.run('cp -a %s/. %s/ && cd %s && git apply %s/patch.diff' % (os.environ.get('VERIF_REPO', '/repo'), d, d, s), shell=True, check=True)
        t = time.time()
        r = subprocess.run(['timeout', '900', 'python3', 'check.py', m['property']], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'))
        l = [x for x in r.stdout.split('\n') if x.startswith('  ')][:1] or r.stdout.strip().split('\n')[-1:]
        print('%-26s %s %s %3ds %s' % (i, m['property'], {1: 'CAUGHT', 0: 'missed'}.get(r.returncode, 'broken(%d)' % r.returncode), time.time() - t, l[0][:220] if l else ''))
        sys.stdout.flush()
    finally:
        shutil.rmtree(d)
