"""Whole statements, from their text to rows and results, against a reference database of unknown values."""
import itertools, random
import frontend
from common import *
from sqlmodel import *
from engine import Budget
from checks.insert import execute

_P = None
_setup = {}
LEAKS = False       # P21: does a statement release what it allocates?
MESSAGES = False    # P15: does a refusal say why?
LOCKS = False       # P16: are locks given back?


def program():
    global _P
    if _P is None:
        _P = frontend.load()
    return _P


# ------------------------------------------------------------ setting up a database
def fresh(setup):
    """a database after CREATE and INSERT of the given tables; computed once per process"""
    key = repr(setup[0])
    hit = _setup.get(key)
    if hit is None:
        E = PipeEngine(program())
        D = Db(E, program())
        for name, cols, rows in setup[1]:
            each = max(1, 60 // len(cols))
            for q in [create(name, cols)] + [insert(name, c) for c in chunks(rows, each)]:
                st, n, msg, o = D.execute(q)
                if st != 'ST_OK_EXECUTED':
                    raise Setup('%s is refused: %s' % (q[:200], msg))
                D.release(o)
            D.model[name] = Tab(name, cols)
            D.model[name].rows = [list(r) for r in rows]
            d = D.same(name)
            if d:
                raise Setup('after %s: %s' % (insert(name, rows)[:200], d))
        if E.bads:
            raise Setup('preparing the tables: %s at %s' % E.bads[0][:2])
        _setup.clear()
        hit = _setup[key] = (E, D, D.st, D.model)
    E, D, st, model = hit
    D.st = st.copy()
    D.model = {}
    for k, t in model.items():
        D.model[k] = Tab(k, t.cols)
        D.model[k].rows = [list(r) for r in t.rows]
    E.bads = []
    E.fail_allocs = False
    D.st.ghost.pop('lost', None)
    D.st.ghost.pop('allocs', None)
    D.st.ghost.pop('catalogue', None)
    E.lock_fails = False
    E.meet = None
    D.st.ghost.pop('met', None)
    return E, D


class Setup(Exception):
    pass


def envs(D, name):
    t = D.model[name]
    return [(r, {c.name: v for c, v in zip(t.cols, r)}) for r in t.rows]


# ------------------------------------------------------------ statements and what they should do
def s_delete(name, cond=None, full=False):
    return ('delete', name, cond, 'DELETE FROM %s%s;' % (name, ' WHERE ' + csql(cond, 0, full) if cond else ''))


def s_update(name, sets, cond=None, full=False):
    return ('update', name, sets, cond, 'UPDATE %s SET %s%s;' % (name, ', '.join('%s = %s' % (c, osql(v)) for c, v in sets), ' WHERE ' + csql(cond, 0, full) if cond else ''))


def s_insert(name, rows, cols=None):
    return ('insert', name, rows, cols, insert(name, rows, cols))


def s_create(name, cols, text=None):
    return ('create', name, cols, text or create(name, cols))


def s_refuse(text):
    return ('refuse', text)


def s_select(items, frm, where=None, on=None, group=None, full=False):
    """items: '*', 'COUNT(*)', column or table.column; frm: [(table, alias or None)]"""
    f = ['%s%s' % (t, ' AS ' + a if a else '') for t, a in frm]
    q = 'SELECT %s FROM %s' % (', '.join(items), (f[0] + ' JOIN ' + f[1] + ' ON ' + csql(on, 0, full)) if on else ', '.join(f))
    if where:
        q += ' WHERE ' + csql(where, 0, full)
    if group:
        q += ' GROUP BY ' + ', '.join(group)
    return ('select', items, frm, where, on, group, q + ';')


def do(E, D, s):
    """run one statement on the analysed and on the reference database; difference or None"""
    text = s[-1]
    if LOCKS:
        D.st.ghost['catalogue'] = E.catalogue(D.st)
    st, n, msg, o = D.execute(text)
    if E.bads:
        return None
    if LOCKS:
        d = held(E, D)
        if d:
            return d
        D.release(o)
        return held(E, D) if not E.bads else None
    d = judge(E, D, s, st, n, msg, o)
    if d:
        return d
    D.release(o)
    if E.bads:
        return None
    if not LEAKS:
        return None
    left = D.leaks(D.before, None)
    if left:
        return 'storage allocated at %s is never released' % where_str(D.st.mem[left[0]].site)
    return None


def closed(E, D):
    """closing the database releases all of it"""
    D.one(D.P.fn('database_close'), [('p', D.db, (), 0)])
    left = [o for k, o in D.st.mem.items() if not isinstance(k, tuple) and k != D.db and o.kind == 'heap' and o.freed is None and o.tag not in ('text', 'libc', 'arg')]
    return 'storage allocated at %s is not released when the database is closed' % where_str(left[0].site) if left else None


def held(E, D):
    """what is wrong with the locks when a statement has ended"""
    g = D.st.ghost
    for k, v in g.items():
        if isinstance(k, tuple) and k[0] == 'lock' and v:
            return 'a lock is still held when the statement has ended'
        if isinstance(k, tuple) and k[0] == 'mutex' and v == 1 and (k[1][1] not in D.st.mem or D.st.mem[k[1][1]].freed is not None):
            return 'a table is released and its lock is not'
    if E.catalogue(D.st) != g['catalogue']:
        return 'the tables of the database changed without its lock'
    return None


def judge(E, D, s, st, n, msg, o):
    k = s[0]
    if k == 'refuse':
        if st != 'ST_ERROR':
            return 'the statement is accepted'
        if MESSAGES and not readable(msg):
            return 'the refusal has no readable message'
        return unchanged(D)
    if st == 'ST_ERROR':
        return 'the statement is refused (%s)' % (msg or b'').decode(errors='replace').strip()[:90]
    if st != ('ST_OK_WITH_RESULTS' if k == 'select' else 'ST_OK_EXECUTED'):
        return 'the status is %s' % st
    if k == 'select':
        d = result_differs(E, D, s, o)
        return d or unchanged(D)
    if k == 'create':
        if s[1] not in D.model:
            D.model[s[1]] = Tab(s[1], s[2])
        want = 0
    else:
        t = D.model[s[1]]
    if k == 'insert':
        for r in s[2]:
            t.rows.append(list(r) if s[3] is None else [r[s[3].index(c.name)] if c.name in s[3] else None for c in t.cols])
        want = len(s[2])
    elif k == 'delete':
        keep = [r for r, env in envs(D, s[1]) if s[2] is not None and not truth(s[2], env)]
        want = len(t.rows) - len(keep)
        t.rows = keep
    elif k == 'update':
        want = 0
        for r, env in envs(D, s[1]):
            if s[3] is None or truth(s[3], env):
                want += 1
                for c, v in s[2]:
                    r[t.idx(c)] = v
    d = unchanged(D)
    if d:
        return d
    if n != C(want):
        return 'the number of affected rows is %s instead of %d' % (vis(n), want)
    return None


def readable(msg):
    return bool(msg) and msg.strip() != b'' and all(b >= 32 and b != 127 or b in b'\t\n' for b in msg)


def unchanged(D):
    for name in list(D.model):
        d = D.same(name)
        if d:
            return d
    return None


def result_differs(E, D, s, o):
    _, items, frm, where, on, group, text = s
    al = {a or t: t for t, a in frm}
    names = [t for t, a in frm]

    def find(ref):
        if '.' in ref:
            a, c = ref.split('.')
            return al.get(a, a), c
        for t in names:
            if ref in [c.name for c in D.model[t].cols]:
                return t, ref
        raise KeyError(ref)
    keys, src = [], []
    for it in items:
        if it == '*':
            for t in names:
                for c in D.model[t].cols:
                    keys.append('%s.%s' % (t, c.name))
                    src.append((t, c.name))
        elif it == 'COUNT(*)':
            keys.append(it)
            src.append(None)
        else:
            t, c = find(it)
            keys.append('%s.%s' % (t, c))
            src.append((t, c))
    rows = []
    for combo in itertools.product(*[envs(D, t) for t in names]):
        env = {}
        for t, (r, e) in zip(names, combo):
            for c, v in e.items():
                env.setdefault(c, v)
                for a, tt in al.items():
                    if tt == t:
                        env['%s.%s' % (a, c)] = v
                env['%s.%s' % (t, c)] = v
        if (on is None or truth(on, env)) and (where is None or truth(where, env)):
            rows.append(env)
    if group:
        cl = {}
        for env in rows:
            cl.setdefault(tuple(key(env['%s.%s' % find(g)]) for g in group), []).append(env)
        groups = list(cl.values())
    elif all(x is None for x in src):
        groups = [rows]
    else:
        groups = [[e] for e in rows]
    t, cols, got = D.result(o)
    have = [c.name for c in cols]
    if sorted(have) != sorted(set(keys)):
        lost, extra = sorted(set(keys) - set(have)), sorted(set(have) - set(keys))
        return 'the result %s' % ('lacks column %s' % short(lost[0]) if lost else 'has the extra or repeated column %s' % short((extra or have)[0]))
    for c in cols:
        if c.name == 'COUNT(*)':
            ty = 'CT_INTEGER'
        else:
            tt, cn = c.name.split('.', 1)
            w = [x for x in D.model[tt].cols if x.name == cn][0]
            ty = w.ty
            if ty == 'CT_VARCHAR' and c.prec < w.prec:
                return 'result column %s is shorter than its source' % short(c.name)
        if c.ty != ty:
            return 'result column %s has type %s instead of %s' % (short(c.name), c.ty[3:], ty[3:])
    if len(got) != len(groups):
        return 'the result has %d rows instead of %d' % (len(got), len(groups))
    G = [{c.name: None if null else val for c, (null, val, raw) in zip(cols, r)} for r in got]
    W = []
    for g in groups:
        W.append([{k: (C(len(g)) if x is None else None if e['%s.%s' % x] is None else e['%s.%s' % x].val) for k, x in zip(keys, src)} for e in g] or [{k: C(0) for k in keys}])
    from checks.select import match
    bad = match(G, W, keys)
    if bad is not None:
        return 'result row %d (%s) is not among the rows asked for' % (bad + 1, ', '.join('NULL' if G[bad][k] is None else vis(G[bad][k]) for k in keys)[:120])
    return None


# ------------------------------------------------------------ running
LIMIT = {'quick': 150, 'thorough': 600}


def one(job):
    """one setup and statements that each start from it (a list: statements run in sequence)"""
    key, setup, stmts = job
    out, cov = [], set()
    n = 0

    def work():
        nonlocal n
        for seq in stmts:
            n += 1
            sq = seq if isinstance(seq, list) else [seq]
            text = ' '.join(s[-1] for s in sq)
            E = D = None
            try:
                E, D = fresh(setup)
                for s in sq:
                    d = do(E, D, s)
                    cov.update(E.covered)
                    for b, l, t in E.bads[:3]:
                        out.append(('memory: ' + b, l, trace_str(t), text))
                    if d:
                        out.append((d, None, trace_str(D.st.trace_list()[-14:]), text))
                    if d or E.bads:
                        break
                if LEAKS and not d and not E.bads and n % 5 == 1:
                    d = closed(E, D)
                    if d and not E.bads:
                        out.append((d, None, None, text))
                    for b, l, t in E.bads[:2]:
                        out.append(('memory when the database is closed: ' + b, l, trace_str(t), text))
            except Setup as e:
                out.append((str(e), None, None, text))
                return
            except Fork as e:
                for b, l, t in E.bads[:3]:
                    out.append(('memory: ' + b, l, trace_str(t), text))
                if not E.bads:
                    out.append(('the outcome depends on stored values it should not depend on' if e.outs else 'the statement never completes', None, None, text))
            except (BadHeap, PathEnd) as e:
                for b, l, t in E.bads[:3]:
                    out.append(('memory: ' + b, l, trace_str(t), text))
                out.append(('the database is damaged: %s' % e, None, trace_str(D.st.trace_list()[-14:]), text))
    why = None
    try:
        limited(work, LIMIT.get(os.environ.get('VERIF_TIER', 'quick'), 60))
    except (Budget, Slow) as e:
        why = str(e) or 'processor time'
    return key, out, cov, why, n


def run_text(R, jobs, what, unit=None):
    """jobs: (key, setup, stmts); key = kind @ detail"""
    program()
    many = lambda j: j[2] if isinstance(j[2], list) else [j[2]]
    R.count(what, sum(len(many(j)) for j in jobs))
    res = pmap(unit or one, jobs, enough=lambda out: sum(1 for r in out if r[1]) >= 30)
    err = []
    for key, viol, cov, e, n in res:
        R.functions |= cov
        R.obligations += n
        if e:
            err.append((key, e))
        for m, l, t, text in viol:
            R.add(key.split(' @')[0] + ': ' + m.split(' (')[0], m + ' - ' + text[:400], l, t)
    if err and not R.viol:
        raise Broken('%d groups of statements undecided, e.g. %s: %s' % (len(err), err[0][0], err[0][1]))
    R.samples += [s[-1][:160] if not isinstance(s, list) else s[-1][-1][:160] for j in jobs[:: max(1, len(jobs) // 6)] for s in many(j)[:1]]


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def pool_rows(cols, k=None):
    """rows in which every column takes every pool value and NULL, shifted against each other"""
    n = max(npool(c.ty) for c in cols) + 1
    out = []
    for i in range(k or n):
        r = []
        for j, c in enumerate(cols):
            m = npool(c.ty) + 1
            v = (i + j * 2) % m
            r.append(None if v == m - 1 else lit(c.ty, v))
        out.append(r)
    return out


def where_tables():
    """per type: a table with two columns of the type among others"""
    out = {}
    for ty in TYPES:
        cols = [Col('CT_INTEGER', 'id'), Col(ty, 'x', 20 if ty == 'CT_VARCHAR' else None), Col('CT_VARCHAR', 's', 20), Col(ty, 'y', 20 if ty == 'CT_VARCHAR' else None), Col('CT_INTEGER', 'mark')]
        rows = []
        m = npool(ty)
        vals = [lit(ty, i) for i in range(m)] + [None]
        pairs = [(a, vals[(i * 2 + 1) % (m + 1)]) for i, a in enumerate(vals)] + [(vals[1], vals[1]), (None, vals[0]), (vals[0], None)]
        for i, (a, b) in enumerate(pairs):
            rows.append([lit('CT_INTEGER', i % 5), a, lit('CT_VARCHAR', i % 5), b, lit('CT_INTEGER', (i + 1) % 4)])
        out[ty] = (('W', ty), [('A', cols, rows)])
    return out


def three(cond, full=False):
    return [s_delete('A', cond, full), s_update('A', [('mark', lit('CT_INTEGER', 4))], cond, full), s_select(['*'], [('A', None)], cond, full=full)]
