"""P06: INSERT appends exactly the rows written."""
import itertools
import frontend
from common import *
from scn import *
from engine import Budget

_P = None


def names(n, style):
    if style == 'rev':
        return ['c%d' % (n - i) for i in range(n)]
    if style == 'long':
        return ['n' * 120 + '%06d' % i for i in range(n)]
    return ['c%d' % (i + 1) for i in range(n)]


PRECS = (20, 300, 33, 1000, 129, 5000)


def layout(tys, style='plain', prec=None):
    """string columns get declared lengths that differ from one another"""
    return [Col(t, nm, (prec or PRECS[(i + len(tys) // 2) % len(PRECS)]) if t == 'CT_VARCHAR' else None) for i, (t, nm) in enumerate(zip(tys, names(len(tys), style)))]


def longest(E, cols, vals):
    """a stored string may be as long as its column allows"""
    for c, v in zip(cols, vals):
        if c.ty == 'CT_VARCHAR' and v is not None:
            E.capof[v] = c.prec


def lit(E, st, ty, v):
    if v is None:
        return E.node(st, 'ast_ins_exprval_node', 'AST_TYPE_INS_EXPRVAL', {'value_type.is_null': C(1)}, []), 'ast_ins_exprval_node'
    f, fl = LITY[ty]
    return E.node(st, 'ast_ins_exprval_node', 'AST_TYPE_INS_EXPRVAL', {f: C(1), fl: v}, []), 'ast_ins_exprval_node'


def value(ty, nm):
    """(literal, value the column must then hold)"""
    if ty == 'CT_VARCHAR':
        return strv(nm), strv(nm)
    if ty in ('CT_DATE', 'CT_DATETIME'):
        fmt = [k for k, v in FMT.items() if v == ty][0]
        return strv(nm), ('x', 'mktime', ('x', 'tm', strv(nm), ('x', 'cstr', fmt), C(1)))
    return ('s', nm), ('s', nm)


def insert_tree(E, st, cols, rows, order=None):
    """order: list of column positions named in the statement, or None; rows: per row list of literals (None = NULL)"""
    kids = []
    tys = [cols[i].ty for i in (order if order is not None else range(len(cols)))]
    if order is not None:
        cn = [(E.node(st, 'ast_ins_column_node', 'AST_TYPE_INS_COLUMN', {'name': ('x', 'cstr', cols[i].name.encode())}, []), 'ast_ins_column_node') for i in order]
        kids.append((E.node(st, 'ast_ins_inscols_node', 'AST_TYPE_INS_INSCOLS', {'column_count': C(len(order))}, cn), 'ast_ins_inscols_node'))
    for r in rows:
        kids.append((E.node(st, 'ast_ins_values_node', 'AST_TYPE_INS_VALUES', {'value_count': C(len(r))},
                            [lit(E, st, t, v) for t, v in zip(tys, r)]), 'ast_ins_values_node'))
    return E.node(st, 'ast_ins_insvals_node', 'AST_TYPE_INS_INSVALS',
                  {'table_name': ('x', 'cstr', b'T'), 'row_count': C(len(rows)), 'opt_column_list': C(int(order is not None))}, kids)


def old_row(cols, nm, null=()):
    r = []
    for i, c in enumerate(cols):
        r.append(None if i in null else strv('%s.%d' % (nm, i)) if c.ty == 'CT_VARCHAR' else ('s', '%s.%d' % (nm, i)))
    return r


def scenario(kw):
    """run one INSERT (or several in a row) and compare the table with the oracle"""
    P = _P
    E = engine(ScnEngine)
    E.cap = kw.get('cap', 20)
    E.fail_allocs = kw.get('fail', False)
    st = E.begin()
    cols = kw['cols']
    blocks = []
    want = []
    for bi, spec in enumerate(kw.get('blocks', ())):
        rows = []
        for ri, ch in enumerate(spec):
            vals = old_row(cols, 'o%d.%d' % (bi, ri), kw.get('old_null', ()))
            longest(E, cols, vals)
            rows.append({'vals': vals, 'deleted': ch == 'd'})
            if ch != 'd':
                want.append(vals)
        blocks.append(rows)
    rs = row_size(P, cols)
    T = E.mk_table(st, 'T', cols, blocks)
    states = [st]
    msgs = []
    order = kw.get('order')
    idx = order if order is not None else list(range(len(cols)))
    for k, spec in enumerate(kw['stmts']):
        lits, exp = [], []
        for ri, nulls in enumerate(spec):
            l, e = [], [None] * len(cols)
            for ci in idx:
                if ci in nulls:
                    l.append(None)
                else:
                    a, b = value(cols[ci].ty, 'n%d.%d.%d' % (k, ri, ci))
                    l.append(a)
                    e[ci] = b
            lits.append(l)
            exp.append(e)
            longest(E, cols, e)
        want = want + exp
        nxt = []
        for s in states:
            s = s.copy()
            root = insert_tree(E, s, cols, lits, order)
            outs = E.run_root(P.fn('executor_run_insertvals_stmt'), [('p', E.db, (), 0), ('p', root, (), 0), ('p', E.output, (), 0)], s)
            for rv, s2 in outs:
                rv = s2.res(rv)
                tr = s2.trace_list()[-14:]
                if rv != C(0):
                    msgs.append(('an INSERT of valid values is reported as failed', None, tr))
                    continue
                na = E.getf(s2, ('p', E.output, (), 0), 'query_output', 'n_rows_aff')
                if na != C(len(spec)):
                    msgs.append(('the number of affected rows is %s after inserting %d' % (na, len(spec)), None, tr))
                for m in compare(E, s2, T, cols, want):
                    msgs.append((m, None, tr))
                nxt.append(s2)
        states = nxt
        if not states:
            break
    if not states and not msgs and not E.bads:
        msgs.append(('the INSERT never completes', None, None))
    return E, msgs + [('memory: ' + m, l, t) for m, l, t in E.bads]


def live_rows(E, s, T, cols):
    out = []
    for b in E.walk_blocks(s, T):
        for i in range(T.n):
            e, d, v = E.read_slot(s, b, i * T.rs, cols)
            if not e and not d:
                out.append((b, i, v))
    return out


def compare(E, s, T, cols, want):
    try:
        got = live_rows(E, s, T, cols)
    except (BadHeap, PathEnd) as e:
        return ['the table is damaged: %s' % e]
    if len(got) != len(want):
        return ['the table holds %d live rows instead of %d' % (len(got), len(want))]
    ptrs = {}
    for n, ((b, i, v), w) in enumerate(zip(got, want)):
        for ci, (g, x) in enumerate(zip(v, w)):
            null, val, raw = g
            what = 'row %d, %s column %d of %d' % (n + 1, cols[ci].ty[3:], ci + 1, len(cols))
            if bool(null) != (x is None):
                return ['%s is %sNULL' % (what, '' if null else 'not ')]
            if x is not None and val != x:
                return ['%s holds %s instead of %s' % (what, show(val), show(x))]
            if cols[ci].ty == 'CT_VARCHAR':
                if raw[0] != 'p' or s.mem[raw[1]].kind != 'heap' or raw[2] or raw[3]:
                    return ['%s points at memory the row does not own' % what]
                if raw[1] in ptrs:
                    return ['%s shares its storage with %s' % (what, ptrs[raw[1]])]
                if s.mem[raw[1]].freed is not None:
                    return ['%s points at freed memory' % what]
                sz = s.res(s.mem[raw[1]].size)
                if sz[0] == 'c' and sz[1] < cols[ci].prec:
                    return ['%s has %d bytes of storage instead of %d' % (what, sz[1], cols[ci].prec)]
                ptrs[raw[1]] = what
    return []


LIMIT = {'quick': 40, 'thorough': 300}
_E = None           # the engine of the scenario under way


def engine(cls):
    global _E
    _E = cls(_P or frontend.load())
    return _E


def guarded(fn, key, kw):
    """run one scenario; a scenario cut off by its budget still reports the bad accesses it met"""
    global _E
    _E = None
    try:
        E, msgs = limited(lambda: fn(kw), LIMIT.get(os.environ.get('VERIF_TIER', 'quick'), 40))
        why = None
    except (Budget, Slow) as e:
        E, msgs, why = _E, [('memory: ' + m, l, t) for m, l, t in (_E.bads if _E else ())], str(e) or 'processor time'
    return key, [(m, l, trace_str(t)) for m, l, t in msgs[:50]], E.covered if E else set(), why


def one(job):
    return guarded(scenario, *job)


def execute(R, jobs, fn=one):
    res = pmap(fn, jobs, enough=lambda out: sum(1 for r in out[-400:] if r[1]) >= 40 or sum(1 for r in out if r[3]) >= 24 and any(r[1] for r in out)
               or sum(1 for r in out if r[3]) >= 48)
    err = {}
    for key, viol, cov, e in res:
        R.functions |= cov
        R.obligations += 1
        if e and not viol:
            err[key] = e
        for m, l, t in viol:
            R.add(key.split(' @')[0] + ': ' + m, m + ' - ' + key, l, t)
    if err and not R.viol:
        k = sorted(err)[0]
        raise Broken('%d scenarios undecided, e.g. %s: %s' % (len(err), k, err[k]))
    if err:
        R.notes.append('undecided: %s' % sorted(err.items())[:5])
    R.samples = [j[0] for j in jobs[:: max(1, len(jobs) // 10)]]


def show(v):
    return str(v) if not (isinstance(v, tuple) and v and v[0] in ('s', 'c')) else str(v[1])


MIX = ['CT_INTEGER', 'CT_VARCHAR', 'CT_TINYINT', 'CT_DATE', 'CT_DOUBLE', 'CT_DATETIME']


def mixed(n, r=0):
    return [MIX[(i * 5 + r) % 6] for i in range(n)]


def inserts(R):
    global _P
    _P = frontend.load()
    jobs = []
    lay = [((t,), 'plain') for t in TYPES] + [(p, 'plain') for p in itertools.product(TYPES, repeat=2)]
    lay += [(tuple(mixed(n, r)), s) for n in (9, 17, 20) for r in (0, 1) for s in ('plain', 'rev', 'long')]
    lay += [(tuple(mixed(128)), 'plain'), (('CT_TINYINT',) * 128, 'rev')]
    if R.tier == 'thorough':
        lay += [(p, 'rev') for p in itertools.product(TYPES, repeat=3)] + [(tuple(mixed(n, n)), 'rev') for n in range(3, 128, 5)]
    for tys, style in lay:
        cols = layout(tys, style)
        n = len(cols)
        pos = range(n) if n <= 20 else (0, 7, 8, 63, 64, 126, 127)
        nulls = [()] + [(i,) for i in pos] + [tuple(range(n))] + [tuple(j for j in range(n) if j != i) for i in list(pos)[:: max(1, len(list(pos)) // 4)]]
        if n > 2:
            orders = [None, tuple(reversed(range(n))), tuple((i + n // 2) % n for i in range(n)), tuple(range(1, n)), (n - 1,), tuple(range(n - 1))]
        else:
            orders = [None, tuple(reversed(range(n))), tuple(range(n)), (n - 1,), (0,)]
        for order in dict.fromkeys(orders):
            for nl in (nulls if order is None or n <= 2 else [(), (n - 1,), (0, n // 2)]):
                R.count('rows of different layout, order and NULLs')
                jobs.append(('INSERT %s with NULL in %s @%s of %d columns, %s' % (
                    'in table order' if order is None else 'with a column list', 'no column' if not nl else 'some columns', nl[:3], n, style),
                    dict(cols=cols, order=order, stmts=[[nl]])))
    # where the rows land
    for tys in (('CT_INTEGER', 'CT_VARCHAR'), ('CT_TINYINT',), tuple(mixed(9)), tuple(mixed(128))):
        cols = layout(tys)
        rs = row_size(_P, cols)
        n = _P.field('datablock', 'data')['s'] // rs
        fit = [k for k in range(n) if k * rs + rs < 4096]
        last = len(fit)             # rows the writer puts in a block
        tops = sorted({0, 1, 2, last - 1, last} & set(range(0, n + 1)))
        for k in tops:
            if k == 0 and True:
                states = [[], ['']]
            else:
                states = [['l' * k], ['l' * last, 'l' * k], ['d' * k], ['d' + 'l' * (k - 1)], ['l' * (k - 1) + 'd'], ['d' * last, 'l' * k]]
            for blocks in states:
                if k == 0 and blocks == ['']:
                    continue
                for stmts in (([[()], [(0,), ()]],) if len(tys) > 20 and R.tier == 'quick' else ([[()]], [[(), (0,), ()]], [[()], [(0,)], [(), ()]])):
                    R.count('table states')
                    jobs.append(('INSERT into a table with %d blocks @%s %s' % (len(blocks), [len(b) for b in blocks], tys[:2]),
                                 dict(cols=cols, blocks=blocks, stmts=stmts)))
    # runs of rows long enough to open new blocks
    for tys in (tuple(mixed(128)), tuple(mixed(128, 2))):
        R.count('block boundaries')
        jobs.append(('INSERT of rows that fill several blocks @', dict(cols=layout(tys), stmts=[[()] * 4, [(127,)] * 2])))
    execute(R, jobs)
    import checks.families as families
    from checks.text import run_text
    run_text(R, families.inserts(R.tier), 'statements analysed from their text')
    R.need('rows of different layout, order and NULLs', 500)
    R.need('table states', 100)
    R.rules = ['After an INSERT succeeds the live rows of the table, in block and slot order, are the old live rows with unchanged values followed by the new rows in the '
               'order written; every named column holds the written value (dates converted by the column\'s own format), every other column is NULL; a VARCHAR owns its storage; '
               'the affected-row count is the number of rows.']
    R.assumptions = ['The statement tree has the shape the statement builder gives it; strptime/mktime/strncpy behave as documented.']
    return ('Abstract interpretation of executor_run_insertvals_stmt with table_insert_row and the storage primitives over enumerated table shapes and statement '
            'shapes; all stored and assigned values are unknown: %d scenarios.' % R.obligations)
