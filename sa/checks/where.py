"""P01-P05: conditions and row effects of DELETE, UPDATE and SELECT ... WHERE."""
import itertools
import frontend
from common import *
import checks.families as families
from checks.text import run_text
from rowscen import *
from engine import Budget

DIALECTS = ('delete', 'update', 'select')
ORDER_NAME = {-1: 'less', 0: 'equal', 1: 'greater'}
_P = None
_D = {}


def prog(R):
    global _P
    _P = frontend.load()
    for d in DIALECTS:
        try:
            _D[d] = Dialect(_P, d)
        except NotFound as e:
            raise Broken(str(e))
    return _P


def one(job):
    """one scenario -> (job key, violations, rows judged, functions covered, error)"""
    key, d, kw = job
    kw = dict(kw)
    soft = kw.pop('soft', False)
    try:
        E = run(_P, _D[d], **kw)
    except Budget as e:
        return key, [], 0, set(), None if soft else str(e)
    if not getattr(E, 'checked', 0) and not E.viol:
        return key, [], 0, E.covered, 'no row was judged'
    vs = E.viol
    if E.viol_count and kw.get('one_row', 1) == 0 and not kw.get('blocks'):
        pass        # the count is not kept row by row: decided on whole scans of bounded tables
    return key, [(m, l, trace_str(t)) for m, l, t in vs + E.viol_total], E.checked, E.covered, None


def execute(R, jobs):
    res = pmap(one, jobs)
    err = {}
    for key, viol, n, cov, e in res:
        R.functions |= cov
        R.obligations += 1
        R.count('rows judged', n)
        if e and not viol:
            err[key] = e
        for m, l, t in viol:
            R.add(key + ': ' + m, m + ' - ' + key, l, t)
    if err and not R.viol:
        k = sorted(err)[0]
        raise Broken('%d scenarios undecided, e.g. %s: %s' % (len(err), k, err[k]))
    if err:
        R.notes.append('undecided: %s' % sorted(err.items())[:5])
    R.samples = [j[0] for j in jobs[:: max(1, len(jobs) // 10)]]


def geometries(tier, cols, i=0):
    """(column count, column positions): adjacent, swapped, far apart across a bitmap byte"""
    cols = sorted(cols)
    far = dict(zip(cols, (17, 8, 9, 3)))
    a = dict(zip(cols, (1, 0, 2, 3)))
    if tier == 'quick':
        return [(5, a), (20, far)]
    out = [(20, far), (9, dict(zip(cols, (8, 7, 0, 4)))), (128, dict(zip(cols, (127, 64, 63, 0))))]
    return out + [(4, p) for p in positions(4, cols)]


def lit(ty, name, val=None):
    return ('lit', ty, name if val is None else val)


def add_cmp(jobs, R, d, shape, ty, op, o, vals=None):
    """all geometries of one comparison"""
    cols = {'C1': ty}
    a, b = ('col', 'C1'), lit(ty, 'L')
    V = {}
    lo, ro = o, None
    order = [('RC1', 'L', o)]
    if ty == 'CT_TINYINT':
        order = []
        V = {'C1': C(vals[0])}
        b = lit(ty, None, vals[1])
    if shape == 'value-column':
        a, b = b, a
        order = [('L', 'RC1', o)]
        if ty == 'CT_TINYINT':
            V = {'C1': C(vals[1])}
            a = lit(ty, None, vals[0])
    elif shape == 'column-column':
        cols['C2'] = ty
        a, b = ('col', 'C1'), ('col', 'C2')
        order = [('RC1', 'RC2', o)]
        if ty == 'CT_TINYINT':
            order = []
            V = {'C1': C(vals[0]), 'C2': C(vals[1])}
    elif shape == 'column-itself':
        b = a
        order = []
    elif shape == 'value-value':
        cols = {}
        a, b = lit(ty, 'L'), lit(ty, 'L2')
        order = [('L', 'L2', o)]
        if ty == 'CT_TINYINT':
            order = []
            a, b = lit(ty, None, vals[0]), lit(ty, None, vals[1])
    names = list(cols) + (['C3'] if d == 'update' else [])
    for g in geometries(R.tier, names):
        jobs.append(('%s WHERE %s %s %s, left %s right' % (d, shape, ty[3:], op, ORDER_NAME[o]), d,
                     dict(cols=cols, p=('cmp', op, a, b), expect=holds(op, o), order=order,
                          null={c: False for c in cols}, vals=V, N=g)))
        R.count(shape)
        if not cols and R.tier == 'quick':
            break


def comparisons(R):
    prog(R)
    jobs = []
    for d in DIALECTS:
        for ty in TYPES:
            for shape in ('column-value', 'value-column', 'column-column', 'column-itself', 'value-value'):
                if shape == 'value-value' and ty in ('CT_DATE', 'CT_DATETIME'):
                    continue
                for op in CMP:
                    if ty in ('CT_VARCHAR', 'CT_TINYINT') and op not in ('=', '<>'):
                        continue
                    if ty == 'CT_TINYINT':
                        if shape == 'column-itself':
                            for v in (0, 1):
                                add_cmp(jobs, R, d, shape, ty, op, 0, (v, v))
                        else:
                            for v, w in itertools.product((0, 1), repeat=2):
                                add_cmp(jobs, R, d, shape, ty, op, (v > w) - (v < w), (v, w))
                    else:
                        for o in ((0,) if shape == 'column-itself' else (-1, 0, 1)):
                            add_cmp(jobs, R, d, shape, ty, op, o)
    execute(R, jobs)
    run_text(R, families.comparisons(R.tier), 'statements analysed from their text')
    R.need('column-value', 150)
    R.need('column-column', 150)
    R.rules = ['A row is affected (DELETE removes it, UPDATE writes it, SELECT keeps it) exactly when `left op right` holds for the '
               'relative order of the two operands, at full width, whichever side the column is on.']
    R.assumptions = ['strptime/mktime turn a date literal into the instant it denotes when called with the format of the column type',
                     'strcmp orders strings; a column is found by comparing its name']
    return ('Abstract interpretation of the three row scans over one generic row: %d scenarios = statement x operand shape x column type x '
            'operator x order of the operands x table geometry; every path to the end of the row body is judged.' % R.obligations)


def nulls(R):
    prog(R)
    jobs = []

    def geo(d, cols, key, **kw):
        names = list(cols) + (['C3'] if d == 'update' else [])
        for g in geometries(R.tier, names):
            jobs.append((key, d, dict(cols=cols, N=g, **kw)))
            if not cols and R.tier == 'quick':
                break

    for d in DIALECTS:
        for ty in TYPES:
            ops = list(CMP)
            L = lit(ty, 'L') if ty != 'CT_TINYINT' else lit(ty, None, 1)
            for op in ops:
                for o in (-1, 0, 1):
                    for shape, a, b in (('column-value', ('col', 'C1'), L), ('value-column', L, ('col', 'C1'))):
                        R.count('NULL column compared')
                        geo(d, {'C1': ty}, '%s WHERE NULL %s column %s value (%s)' % (d, ty[3:], op, shape), p=('cmp', op, a, b),
                            expect=False, order=[('RC1', 'L', o)], null={'C1': True}, vals={'C1': C(1)} if ty == 'CT_TINYINT' else {})
                    for n1, n2 in ((True, False), (False, True), (True, True)):
                        R.count('NULL column-column')
                        geo(d, {'C1': ty, 'C2': ty}, '%s WHERE %s column %s column with NULL' % (d, ty[3:], op),
                            p=('cmp', op, ('col', 'C1'), ('col', 'C2')), expect=False, order=[('RC1', 'RC2', o)],
                            null={'C1': n1, 'C2': n2}, vals={'C1': C(1), 'C2': C(1)} if ty == 'CT_TINYINT' else {})
                    if R.tier == 'quick':
                        break
                for nl in (True, False):
                    for shape, a, b in (('column = NULL', ('col', 'C1'), ('null',)), ('NULL = column', ('null',), ('col', 'C1'))):
                        R.count('NULL literal')
                        geo(d, {'C1': ty}, '%s WHERE %s with %s %s' % (d, shape, ty[3:], op), p=('cmp', op, a, b), expect=False,
                            null={'C1': nl}, vals={'C1': C(1)} if ty == 'CT_TINYINT' else {})
                R.count('NULL column-itself')
                geo(d, {'C1': ty}, '%s WHERE NULL %s column %s itself' % (d, ty[3:], op), p=('cmp', op, ('col', 'C1'), ('col', 'C1')),
                    expect=False, null={'C1': True})
            for neg in (False, True):
                for nl in (True, False):
                    R.count('IS [NOT] NULL')
                    geo(d, {'C1': ty}, '%s WHERE %s column IS %sNULL, column %sNULL' % (d, ty[3:], 'NOT ' if neg else '', '' if nl else 'not '),
                        p=('isnull', 'C1', neg), expect=(nl != neg), null={'C1': nl})
            for neg in (False, True):
                R.count('NULL column [NOT] IN')
                geo(d, {'C1': ty}, '%s WHERE NULL %s column %sIN list' % (d, ty[3:], 'NOT ' if neg else ''),
                    p=('in', 'C1', [L, lit(ty, 'L2') if ty != 'CT_TINYINT' else L], neg, 0), expect=False,
                    order=[('RC1', 'L', 0), ('RC1', 'L2', 1)], null={'C1': True}, vals={'C1': C(1)} if ty == 'CT_TINYINT' else {})
        for nn in (('null',), lit('CT_INTEGER', 'L'), lit('CT_DOUBLE', 'L'), lit('CT_VARCHAR', 'L')):
            for op in CMP:
                if d != 'select' and nn[0] != 'null':
                    continue    # rejected before execution
                for a, b in ((('null',), nn), (nn, ('null',))):
                    R.count('NULL literal with literal')
                    geo(d, {}, '%s WHERE literal %s NULL' % (d, op), p=('cmp', op, a, b), expect=False)
    execute(R, jobs)
    run_text(R, families.nulls(R.tier), 'statements analysed from their text')
    R.need('IS [NOT] NULL', 72)
    R.need('NULL literal', 200)
    R.rules = ['A comparison or IN with a NULL operand never holds; IS NULL holds exactly for NULL and IS NOT NULL exactly for the rest.']
    R.assumptions = ['the null bitmap is read through the bit-test primitive (checked separately)']
    return 'Abstract interpretation of the three row scans with every nullness of the operands: %d scenarios.' % R.obligations


def truth(p, env):
    k = p[0]
    if k == 'isnull':
        return env[p[1]] != p[2]
    vs = [truth(q, env) for q in p[1:]]
    r = vs[0]
    for v in vs[1:]:
        r = {'and': r and v, 'or': r or v, 'xor': r != v}[k]
    return r


def logic(R):
    prog(R)
    jobs = []
    A, B = ('isnull', 'C1', False), ('isnull', 'C2', False)
    NB = ('isnull', 'C2', True)
    preds = [(k, A, B) for k in LOGOP] + [(k, A, NB) for k in LOGOP]
    C_ = ('isnull', 'C4', False)
    for k in LOGOP:
        for j in LOGOP:
            preds.append((k, (j, A, B), C_))
            preds.append((k, A, (j, B, C_)))
    if R.tier == 'thorough':
        for k, j, l in itertools.product(LOGOP, repeat=3):
            preds.append((k, (j, A, B), (l, C_, NB)))
            preds.append((k, (j, (l, A, C_), B), NB))

    def show_p(p):
        if p[0] == 'isnull':
            return p[1] + (' not' if p[2] else '')
        return '(' + (' %s ' % p[0].upper()).join(show_p(q) for q in p[1:]) + ')'

    for d in DIALECTS:
        for p in preds:
            cs = sorted({c for c in ('C1', 'C2', 'C4') if c in str(p)})
            for nl in itertools.product((True, False), repeat=len(cs)):
                env = dict(zip(cs, nl))
                cols = {c: 'CT_INTEGER' for c in cs}
                names = cs + (['C3'] if d == 'update' else [])
                g = (6, dict(zip(names, (4, 1, 2, 0))))
                R.count('AND/OR/XOR rows')
                jobs.append(('%s WHERE %s at %s' % (d, show_p(p), ''.join('TF'[not env[c]] for c in cs)), d,
                             dict(cols=cols, p=p, expect=truth(p, env), null=env, N=g)))
        # IN / NOT IN: the column equals none, the first, the middle, the last list element
        for ty in TYPES:
            for neg in (False, True):
                for n in ((1, 2, 3) if ty != 'CT_TINYINT' else (1, 2)):
                    for hit in range(-1, n):
                        for at in ((0,) if R.tier == 'quick' else (0, n)):
                            if ty == 'CT_TINYINT':
                                lits = [lit(ty, None, 1 if i == hit else 0) for i in range(n)]
                                order, vals = [], {'C1': C(1)}
                            else:
                                lits = [lit(ty, 'L%d' % i) for i in range(n)]
                                order = [('RC1', 'L%d' % i, 0 if i == hit else (1 if i % 2 else -1)) for i in range(n)]
                                vals = {}
                            names = ['C1'] + (['C3'] if d == 'update' else [])
                            for g in geometries('quick', names):
                                R.count('IN lists')
                                jobs.append(('%s WHERE %s column %sIN (%d values), equal to %s' % (
                                    d, ty[3:], 'NOT ' if neg else '', n, 'none' if hit < 0 else 'no. %d' % (hit + 1)), d,
                                    dict(cols={'C1': ty}, p=('in', 'C1', lits, neg, at), expect=((hit >= 0) != neg), order=order,
                                         null={'C1': False}, vals=vals, N=g)))
    execute(R, jobs)
    run_text(R, families.logic(R.tier), 'statements analysed from their text')
    R.need('AND/OR/XOR rows', 300)
    R.need('IN lists', 100)
    R.rules = ['AND/OR/XOR combine the truth values of their operands by the connective\'s truth table at any nesting; IN holds exactly when '
               'the column equals a listed value and NOT IN exactly when it equals none.']
    return 'Abstract interpretation of the three row scans over conditions built from two leaves of independent truth value: %d scenarios.' % R.obligations


def row_sizes(tier):
    """row sizes a table can have: 24 bytes of header, 1 to 128 columns of 8 or 1 bytes"""
    if tier == 'quick':
        return [1048, 1024, 1023, 820, 819, 816, 512, 200, 104, 64]
    return list(range(25, 200, 6)) + list(range(200, 1049, 7)) + [1024, 1023, 1025, 820, 819, 816, 512, 256, 255, 257, 128, 64, 32]


def scans(R):
    prog(R)
    jobs = []
    for d in DIALECTS:
        g = (1, {'C3': 0}) if d == 'update' else (2, {})
        for rs in row_sizes(R.tier):
            R.count('row sizes')
            jobs.append(('%s without condition' % d, d, dict(cols={}, p=None, expect=True, N=g, one_row=0, rs=rs, soft=4096 // rs > 8,
                                                                          max_states=150000 if R.tier == 'quick' else 1500000)))
        for n in (1, 2) if R.tier == 'quick' else (1, 2, 3):
            for rs in (1048, 1024) + ((512,) if R.tier != 'quick' else ()):
                R.count('whole tables')
                jobs.append(('%s of a table of at most %d blocks' % (d, n), d, dict(cols={}, p=None, expect=True, N=g, one_row=0, rs=rs, blocks=n)))
        for nl in (True, False):
            names = ['C1'] + (['C3'] if d == 'update' else [])
            for g in geometries(R.tier, names):
                R.count('conditional scans')
                jobs.append(('%s with a condition that is %s' % (d, nl), d,
                             dict(cols={'C1': 'CT_INTEGER'}, p=('isnull', 'C1', False), expect=nl, null={'C1': nl}, N=g, one_row=0, rs=1048)))
    execute(R, jobs)
    R.need('row sizes', 30)
    R.rules = ['Every row slot of every block that can hold a live row is examined in order before success is returned, for every row size.',
               'A live row satisfying the condition is affected exactly once, any other row not at all; the count reported at the end equals the rows affected.']
    return ('Abstract interpretation of the scans over an unknown list of blocks (to a fixpoint) whose rows are each live, deleted or unused: %d scans '
            '= statement x row size; the affected-row count is decided on tables of up to three blocks.' % R.obligations)


def assigns(R):
    prog(R)
    jobs = []
    d = 'update'
    for ty in TYPES:
        vals = [lit(ty, 'V')] if ty != 'CT_TINYINT' else [lit(ty, None, 0), lit(ty, None, 1)]
        for v in vals + [('null',)]:
            for nl in (True, False):
                for g in geometries(R.tier, ['C3']):
                    R.count('single assignment')
                    jobs.append(('update SET %s = %s' % (ty[3:], 'NULL' if v[0] == 'null' else 'value'), d,
                                 dict(cols={'C3': ty}, p=None, expect=True, null={'C3': nl}, N=g, assigns=[('C3', v)])))
                    R.count('conditional assignment')
                    jobs.append(('update SET %s = %s WHERE that column IS NULL' % (ty[3:], 'NULL' if v[0] == 'null' else 'value'), d,
                                 dict(cols={'C3': ty}, p=('isnull', 'C3', False), expect=nl, null={'C3': nl}, N=g, assigns=[('C3', v)])))
            for ty2 in TYPES:
                v2 = lit(ty2, 'W') if ty2 != 'CT_TINYINT' else lit(ty2, None, 1)
                for w in (v2, ('null',)):
                    for g in geometries(R.tier, ['C3', 'C4']):
                        R.count('double assignment')
                        jobs.append(('update SET %s = .., %s = ..' % (ty[3:], ty2[3:]), d,
                                     dict(cols={'C3': ty, 'C4': ty2}, p=None, expect=True, N=g, assigns=[('C3', v), ('C4', w)])))
                        if R.tier == 'quick':
                            break
    execute(R, jobs)
    run_text(R, families.assigns(R.tier), 'statements analysed from their text')
    R.need('single assignment', 40)
    R.need('double assignment', 100)
    R.rules = ['Each column named in SET ends with the assigned value in its own slot, at its own width, and with its NULL bit equal to '
               '"the value is NULL"; no other column is written.']
    return 'Abstract interpretation of the UPDATE scan: %d scenarios = column type(s) x value/NULL x previous nullness x geometry.' % R.obligations
