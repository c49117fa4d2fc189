#!/usr/bin/env python3
"""Behaviour-preserving edits on a scratch copy: every named check has to stay quiet.
usage: refactor.py SPECFILE [id...]   (REFACTORS = [dict(id, checks=[...], edits=[(file, old, new)])])"""
import os, sys, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)


g = {}
exec(open(sys.argv[1]).read(), g)
bad = 0
for r in g['REFACTORS']:
    if sys.argv[2:] and r['id'] not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix='rf.', dir='/tmp')
    try:
        sh('cp -a /repo/. %s/' % d)
        ok = True
        for f, old, new in r['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != r.get('times', 1):
                print('%s: text occurs %d times in %s: %s' % (r['id'], t.count(old), f, old[:80]))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        for c in r['checks']:
            ev = os.path.join(d, 'ev')
            o = sh('timeout 900 python3 check.py %s' % c, cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev))
            if o.returncode != 0:
                bad += 1
                print('%s: %s rc %d\n%s' % (r['id'], c, o.returncode, (o.stdout + o.stderr)[-1200:]))
            else:
                print('%s: %s quiet' % (r['id'], c))
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)
print('problems: %d' % bad)
