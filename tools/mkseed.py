#!/usr/bin/env python3
"""Make and validate planted bugs.  usage: mkseed.py SPECFILE [id...]
SPECFILE (python): SEEDS = [dict(id, property, edits=[(file, old, new)], sql=[...], expect='...'|None, asan=bool, needs, what, demo=optional shell)]
Applies each to /repo, builds, tests, runs demo and checks, and always restores /repo."""
import os, sys, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')      # or a scratch clone, which VERIF_REPO names


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)


HEAD = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
export TZ=Pacific/Auckland LC_ALL=C.UTF-8
'''
PLAIN = '''gcc -g -D_GNU_SOURCE -Iinclude -o "$d/sqlrun" "$here/sqlrun.c" -Lbuild/lib -lmidoridb -Wl,-rpath,"$PWD/build/lib" || exit 2
'''
ASAN = '''gcc -g -O0 -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_GNU_SOURCE -Iinclude -Ibuild/lib/parser -o "$d/sqlrun" "$here/sqlrun.c" $(find src -name '*.c' ! -path 'src/main/*') $(find build -name 'midorisql.*.c') -lm || exit 2
'''


def q(s):
    return "'" + s.replace("'", "'\\''") + "'"


def build():
    if REPO == '/repo':
        return sh('bash /opt/vp/build.sh')
    return sh('export TZ=Pacific/Auckland LC_ALL=C.UTF-8; rm -rf build && make all', cwd=REPO)


def tests():
    if REPO == '/repo':
        return sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    build()
    return sh('export TZ=Pacific/Auckland LC_ALL=C.UTF-8; gcc -O1 -w -shared -fPIC -o build/cunit_isolate.so /opt/vp/cunit_isolate.c -lcunit; '
              'VP_RESULTS=$PWD/build/results.txt LD_PRELOAD=$PWD/build/cunit_isolate.so timeout 600 ./build/tests/run_unit_tests > build/tests.log 2>&1; '
              'python3 /opt/vp/results.py /tmp/seedtest.json lines:$PWD/build/results.txt', cwd=REPO)


def demo(s):
    if 'demo' in s:
        return HEAD + s['demo']
    t = HEAD + (ASAN if s.get('asan') else PLAIN)
    t += '%sout=$(timeout 60 "$d/sqlrun" \\\n  %s 2>&1)\n' % ('export ASAN_OPTIONS=detect_leaks=%d\n' % (1 if s.get('leaks') else 0) if s.get('asan') else '',
                                                        ' \\\n  '.join(q(x) for x in s['sql']))
    if s.get('leaks'):
        t += 'case "$out" in *LeakSanitizer*|*AddressSanitizer*) echo "$out" | tail -30; exit 1;; esac\nexit 0\n'
    else:
        t += "want=%s\n[ \"$out\" = \"$want\" ] || { echo \"got: $out\"; echo \"want: $want\"; exit 1; }\n" % q(s['expect'].strip('\n'))
    return t


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    assert sh('git -C %s status --porcelain' % REPO).stdout.strip() == '', 'dirty /repo'
    build()
    todo = []
    for s in g['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(demo(s))
        for x in s.get('files', ['sqlrun.c']):
            shutil.copy(os.path.join(ROOT, 'tools', x), d)
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode != 0:
            print('%s: demo fails on the unchanged tree (%d)\n%s%s' % (s['id'], r.returncode, r.stdout, r.stderr[-1500:]))
            shutil.rmtree(d)
            continue
        todo.append((s, d))
    for s, d in todo:
        try:
            bad = None
            if 'patch' in s:
                a = sh('git -C %s apply %s' % (REPO, s['patch']))
                if a.returncode:
                    bad = a.stderr
            for f, old, new in s.get('edits', ()):
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = 'text occurs %d times in %s: %s' % (t.count(old), f, old)
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                print('%s: %s' % (s['id'], bad))
                shutil.rmtree(d)
                continue
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
            r = tests()
            j = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            r2 = sh('timeout 300 bash %s/demo.sh' % d, cwd=REPO)
            ok = not j['failed'] and len(j['passed']) >= 62 and r2.returncode != 0
            if not ok:
                print('%s: REJECTED tests %d passed %s failed; demo rc %d %s' % (s['id'], len(j['passed']), j['failed'], r2.returncode, (r.stdout + r.stderr)[-300:] if not j['passed'] else ''))
                shutil.rmtree(d)
                continue
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
            res = []
            for pid in [s['property']] + list(s.get('also', ())):
                r3 = sh('timeout 900 python3 check.py %s' % pid, cwd=ROOT)
                hit = r3.returncode == 1 and ('VIOLATION property=%s ' % pid) in r3.stdout
                lines = [l for l in r3.stdout.splitlines() if l.startswith('  ') and not l.startswith('      ')]
                res.append('%s %s %s' % (pid, 'CAUGHT' if hit else 'missed(rc %d)' % r3.returncode, (lines[0].strip() if lines else (r3.stdout + r3.stderr).strip()[-300:])))
            print('%s: kept; demo said: %s\n    %s' % (s['id'], (r2.stdout + r2.stderr).strip().replace('\n', ' / ')[:160], '\n    '.join(res)))
        finally:
            sh('git -C %s checkout -- .' % REPO)
            sys.stdout.flush()
    build()


main()
