"""Running a check: collect obligations, match known findings, write evidence, exit."""
import os, sys, json, time, traceback, functools, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis cannot give an answer (vanished anchor, budget, zero instances)"""


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []          # (key, message, where, trace)
        self.obligations = 0
        self.rules = []
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.notes = []
        self.assumptions = []

    def add(self, key, msg, where=None, trace=None):
        self.viol.append((key, msg, where, trace))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, k, least):
        """fail as broken when fewer instances than confirmed by hand were analysed"""
        if self.counts.get(k, 0) < least:
            raise Broken('only %d of at least %d instances of "%s" were found' % (self.counts.get(k, 0), least, k))


def known():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> :: <what fails>
                l = l[len('finding: '):]
                pid = l.split()[0].split('=', 1)[1]
                rest = l.split('key=', 1)[1]
                k, _, what = rest.partition(' :: ')
                out.append((pid, k.strip(), what.strip()))
    return out


def where_str(w):
    if not w:
        return '?'
    if isinstance(w, (tuple, list)):
        return '%s:%s (%s)' % (w[0], w[1], w[2]) if len(w) >= 3 else str(w)
    return str(w)


def finish(R, level, explanation):
    kn = [k for k in known() if k[0] == R.pid]
    new, seen_known = [], {}
    for v in R.viol:
        for pid, k, what in kn:
            if v[0] == k:
                seen_known[k] = what
                break
        else:
            new.append(v)
    R.notes += STOP
    ev = {
        'property': R.pid, 'tier': R.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {'explanation': explanation, 'obligations': R.obligations, 'rules': R.rules, 'instances': R.counts,
                     'functions_analysed': sorted(R.functions), 'samples': R.samples[:12], 'notes': R.notes},
        'assumptions': R.assumptions,
        'wall_s': round(time.time() - R.t0, 2), 'violations': len(new),
    }
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, R.pid + '.json'), 'w'), indent=1, default=str)
    for n in STOP:
        print('%s: %s' % (R.pid, n))
    print('%s: %d obligations, %s' % (R.pid, R.obligations, ', '.join('%s=%d' % kv for kv in sorted(R.counts.items()))))
    for k, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (R.pid, what))
    if not new:
        return 0
    groups = {}
    for v in new:
        groups.setdefault((v[0], where_str(v[2])), []).append(v)
    rp = os.path.join('evidence', R.pid + '.violations.json')
    json.dump([{'key': v[0], 'rule': v[1], 'at': where_str(v[2]), 'path': v[3]} for v in new][:200],
              open(os.path.join(evdir, R.pid + '.violations.json'), 'w'), indent=1, default=str)
    for (k, w), vs in list(groups.items())[:20]:
        print('  %s: %s [%s]%s' % (w, vs[0][1], k, ' x%d' % len(vs) if len(vs) > 1 else ''))
        if vs[0][3]:
            print('      path: %s' % ' '.join(str(a) for a in vs[0][3])[:600])
    print('VIOLATION property=%s replay=%s' % (R.pid, rp))
    return 1


def trace_str(t):
    return ['%s:%s' % (a[2], a[1]) + ('' if a[3] in ('call',) else '=%s' % a[3]) for a in t] if t else None


START = time.time()
STOP = []           # why an analysis ended before all of its units were done


def _many(fn, items):
    return [fn(i) for i in items]


def pmap(fn, items, procs=None, enough=None):
    """map over items in forked workers (the program model is inherited); stops once `enough` results satisfy it,
    and on every-change runs when violations are at hand and time runs out (result[1]: the violations of one unit)"""
    items = list(items)
    procs = procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    if procs <= 1 or len(items) < 4:
        return [fn(i) for i in items]
    quick = os.environ.get('VERIF_TIER', 'quick') == 'quick'
    n = max(1, min(8, len(items) // (procs * 60)))
    ctx = multiprocessing.get_context('fork')
    out = []
    with ctx.Pool(procs) as p:
        it = p.imap_unordered(functools.partial(_many, fn), [items[i:i + n] for i in range(0, len(items), n)])
        while True:
            try:
                out += it.next(timeout=5)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                pass
            late = time.time() - START
            if enough is not None and enough(out) or quick and late > 400 and any(r[1] for r in out):
                p.terminate()
                break
            if quick and late > 780:
                STOP.append('%d of %d units of the analysis were done when its time was up' % (len(out), len(items)))
                p.terminate()
                break
    return out


class Slow(Exception):
    """one unit of analysis used up its processor time"""


def limited(fn, seconds):
    """run fn() with a bound on processor time"""
    import signal

    def late(*a):
        raise Slow()
    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
