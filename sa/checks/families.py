"""Families of whole statements: which texts each property is decided on."""
import itertools
from checks.text import *

EQ = ('=', '<>')


def ops_of(ty):
    return EQ if ty in ('CT_VARCHAR', 'CT_TINYINT') else tuple(OPS)


def jobs_of(key, setup, items, n=12):
    return [('%s @%d' % (key, i), setup, c) for i, c in enumerate(chunks(items, n))]


# ------------------------------------------------------------ WHERE
def comparisons(tier):
    """every type x operator x operand shape, in each of the three statements"""
    jobs = []
    for ty, setup in where_tables().items():
        m = npool(ty)
        conds = []
        for k, op in enumerate(ops_of(ty)):
            for i in range(m) if tier == 'thorough' else sorted({0, k % m, m - 1}):
                conds += [('cmp', op, 'x', lit(ty, i)), ('cmp', op, lit(ty, (i + 1) % m), 'x')]
            conds += [('cmp', op, 'x', 'y'), ('cmp', op, 'y', 'x'), ('cmp', op, 'x', 'x')]
            if ty not in ('CT_DATE', 'CT_DATETIME'):
                conds += [('cmp', op, lit(ty, 0), lit(ty, 1)), ('cmp', op, lit(ty, 1), lit(ty, 1))]
        jobs += jobs_of('%s compared in WHERE' % ty[3:], setup, [s for c in conds for s in three(c)], 18)
    return jobs


def nulls(tier):
    jobs = []
    for ty, setup in where_tables().items():
        conds = [('null', c, n) for c in ('x', 'y', 'id') for n in (False, True)]
        conds += [('cmp', op, a, b) for op in EQ for a, b in (('x', None), (None, 'x'))]
        conds += [('and', ('null', 'x', True), ('null', 'y', False)), ('or', ('null', 'y', True), ('cmp', '=', 'x', 'y'))]
        jobs += jobs_of('%s and NULL in WHERE' % ty[3:], setup, [s for c in conds for s in three(c)], 18)
    return jobs


def trees(leaves, depth):
    """one tree of every form over fresh leaves"""
    if depth == 0:
        yield lambda it: next(it)
        return
    for k in PREC:
        for dl, dr in ((depth - 1, 0), (0, depth - 1), (depth - 1, depth - 1)) if depth > 1 else ((0, 0),):
            for a in trees(leaves, dl):
                for b in trees(leaves, dr):
                    yield lambda it, a=a, b=b, k=k: (k, a(it), b(it))


def logic(tier):
    """AND/OR/XOR trees, with all parentheses and with only the needed ones, over a table holding every truth assignment"""
    jobs = []
    cols = [Col('CT_INTEGER', n) for n in ('a', 'b', 'c', 'd')]
    L = [lit('CT_INTEGER', i) for i in (1, 3)]
    rows = [[L[x] for x in bits] for bits in itertools.product((0, 1), repeat=4)]
    setup = (('L',), [('A', cols, rows)])
    leaf = lambda n: ('cmp', '=', n, L[1])
    out, seen = [], set()
    for depth in (1, 2):
        for t in trees(None, depth):
            c = t(iter([leaf(n) for n in 'abcd']))
            if repr(c) in seen:
                continue
            seen.add(repr(c))
            for full in (False, True):
                out += [s_delete('A', c, full), s_update('A', [('a', L[0])], c, full), s_select(['a', 'b', 'c', 'd'], [('A', None)], c, full=full)]
    if tier == 'quick':
        deep = out[18:]
        out = out[:18] + [s for i, s in enumerate(deep) if (i // 3 * 5 + i % 3) % 7 < 2]
    for c in (('and', ('in', 'a', [L[1]], False), ('or', ('null', 'b', False), ('cmp', '<>', L[0], 'c'))),
              ('or', ('cmp', '<', 'a', 'b'), ('xor', ('in', 'c', L, True), ('null', 'd', True))),
              ('xor', ('and', ('cmp', '>=', 'a', L[1]), ('cmp', '<=', 'b', L[0])), ('or', leaf('c'), leaf('d')))):
        for full in (False, True):
            out += three_on('A', 'a', L[0], c, full)
    jobs += jobs_of('AND, OR, XOR in WHERE', setup, out, 12)
    for ty, setup in where_tables().items():
        m = npool(ty)
        conds = []
        for neg in (False, True):
            for ids in ([0], [1, 0], [0, 1, m - 1], [m - 1, 1, 0], [1, 1]):
                conds.append(('in', 'x', [lit(ty, i) for i in ids], neg))
            conds.append(('in', 'y', [lit(ty, 1)], neg))
            conds += [('in', 'x', [None, lit(ty, 1)], neg), ('in', 'x', [None], neg)]
        jobs += jobs_of('IN lists of %s' % ty[3:], setup, [s for c in conds for s in three(c)], 12)
    return jobs


def three_on(t, col, v, cond, full=False):
    return [s_delete(t, cond, full), s_update(t, [(col, v)], cond, full), s_select(['*'], [(t, None)], cond, full=full)]


def mixed_cols():
    return [Col('CT_INTEGER', 'i'), Col('CT_VARCHAR', 's', 20), Col('CT_TINYINT', 't'), Col('CT_DOUBLE', 'd'), Col('CT_DATE', 'dt'), Col('CT_DATETIME', 'dtt'),
            Col('CT_VARCHAR', 's2', 30), Col('CT_INTEGER', 'i2')]


def mixed_table():
    c = mixed_cols()
    return (('M',), [('A', c, pool_rows(c))])


def wide_table(n=20, k=3):
    """more columns than one byte of NULL bits, k rows"""
    ty = [t for t in TYPES]
    cols = [Col(ty[i % 6], 'c%d' % i, 20 if ty[i % 6] == 'CT_VARCHAR' else None) for i in range(n)]
    return (('W%d.%d' % (n, k),), [('A', cols, pool_rows(cols, k))])


def long_table(k):
    """rows over several blocks"""
    cols = [Col('CT_INTEGER' if i % 9 else 'CT_VARCHAR', 'c%d' % i, None if i % 9 else 12) for i in range(64)]
    rows = [[None if (r * 7 + i) % 11 == 3 else lit(c.ty, (r + i * (1 + r % 2)) % 5) for i, c in enumerate(cols)] for r in range(k)]
    return (('LONG', k), [('A', cols, rows)])


# ------------------------------------------------------------ UPDATE
def assigns(tier):
    jobs = []
    setup = mixed_table()
    cols = setup[1][0][1]
    out = []
    for c in cols:
        vals = [lit(c.ty, i) for i in range(npool(c.ty))] + [None]
        for v in vals if tier == 'thorough' else vals[-3:]:
            out.append(s_update('A', [(c.name, v)]))
            out.append(s_update('A', [(c.name, v)], ('null', c.name, v is None)))
            out.append(s_update('A', [(c.name, v)], ('cmp', '=', 'i', lit('CT_INTEGER', 1))))
    for (a, b) in itertools.permutations(cols, 2):
        if tier == 'thorough' or (len(a.name) * 5 + ord(a.name[0]) + ord(b.name[-1])) % 3 == 0:
            out.append(s_update('A', [(a.name, lit(a.ty, 1)), (b.name, None)]))
            out.append(s_update('A', [(a.name, None), (b.name, lit(b.ty, 1))], ('cmp', '<>', 'i2', lit('CT_INTEGER', 2))))
    out.append(s_update('A', [(c.name, lit(c.ty, 1)) for c in cols]))
    out.append(s_update('A', [(c.name, None) for c in cols], ('null', 's', True)))
    out.append(s_update('A', [(c.name, lit(c.ty, 0) if i % 2 else None) for i, c in enumerate(reversed(cols))]))
    for w in ("'a, b = c'", '"dq"', "''", "'%s'" % ('x' * 19), "'NULL'", "'-5'", "'WHERE'"):
        out.append(s_update('A', [('s', string(w[1:-1], w[0]))], ('cmp', '=', 'i', lit('CT_INTEGER', 1))))
    jobs += jobs_of('UPDATE of a table of all types', setup, out, 14)
    setup = wide_table()
    out = []
    for c in setup[1][0][1]:
        out += [s_update('A', [(c.name, lit(c.ty, 1))]), s_update('A', [(c.name, None)])]
    jobs += jobs_of('UPDATE of a wide table', setup, out, 14)
    seqs = []
    setup = mixed_table()
    for c in cols[::2]:
        seqs.append([s_update('A', [(c.name, None)]), s_update('A', [(c.name, lit(c.ty, 0))], ('null', c.name, False)), s_delete('A', ('cmp', '=', 'i', lit('CT_INTEGER', 0))),
                     s_update('A', [(c.name, lit(c.ty, 1)), ('i2', None)], ('cmp', '=', c.name, lit(c.ty, 0)))])
    jobs += jobs_of('UPDATE after UPDATE', setup, seqs, 3)
    return jobs


# ------------------------------------------------------------ INSERT
def inserts(tier):
    jobs = []
    cols = mixed_cols()
    setup = (('E',), [('A', cols, [])])
    out = []
    full = pool_rows(cols)
    out.append(s_insert('A', full))
    for r in full:
        out.append(s_insert('A', [r]))
    names = [c.name for c in cols]
    orders = [list(reversed(range(8))), [3, 1, 0, 2, 7, 6, 5, 4], [7, 0, 1, 2, 3, 4, 5, 6], [1], [6, 1], [0, 3, 5], [5, 4], [2, 7, 3]]
    for o in orders:
        for k in (1, 4):
            out.append(s_insert('A', [[full[k][j] if full[k][j] is not None else lit(cols[j].ty, 0) for j in o]], [names[j] for j in o]))
        out.append(s_insert('A', [[full[k][j] for j in o] for k in range(3)], [names[j] for j in o]))
    for c in cols:
        for v in range(npool(c.ty)):
            out.append(s_insert('A', [[lit(c.ty, v)]], [c.name]))
    for w in ("'a, b (c)'", '"dq"', "''", "'%s'" % ('x' * 19), "'NULL'", "'-5'", "'VALUES'", "'it is; so'", "'1.5'", "'TRUE'", '"it\'s"', "'say \"x\"'"):
        out.append(s_insert('A', [[string(w[1:-1], w[0]), lit('CT_INTEGER', 1)]], ['s', 'i']))
    jobs += jobs_of('INSERT into a table of all types', setup, out, 14)
    for n in (1, 9, 17, 33) if tier == 'quick' else (1, 8, 9, 16, 17, 33, 64, 65, 127, 128):
        su = wide_table(n, 1)
        cs = su[1][0][1]
        seqs = []
        for i in sorted({0, n // 2, n - 1, 7, 8} & set(range(n))):
            seqs.append(s_insert('A', [[lit(cs[i].ty, 1)]], [cs[i].name]))
            seqs.append(s_insert('A', [[None if j == i else lit(c.ty, 1) for j, c in enumerate(cs)]]))
        seqs.append(s_insert('A', [[lit(c.ty, 0) for c in reversed(cs)]], [c.name for c in reversed(cs)]))
        jobs += jobs_of('INSERT into %d columns' % n, su, seqs, 6)
    su = (('two',), [('A', cols, full[:2]), ('B', cols[:3], [full[0][:3]])])
    seqs = [[s_insert('A', [full[3]]), s_insert('B', [full[2][:3], full[4][:3]]), s_insert('A', full[:3])],
            [s_insert('B', [full[2][:3]]), s_delete('B', ('null', 's', True)), s_insert('B', [full[1][:3]]), s_insert('A', [full[5]])],
            [s_delete('A'), s_insert('A', full[2:4]), s_update('A', [('i', lit('CT_INTEGER', 3))]), s_insert('A', [full[4]])]]
    jobs += jobs_of('INSERT among other statements', su, seqs, 1)
    return jobs


# ------------------------------------------------------------ SELECT
def projections(tier):
    jobs = []
    setup = mixed_table()
    cols = setup[1][0][1]
    n = [c.name for c in cols]
    out = [s_select(['*'], [('A', None)])]
    for c in n:
        out += [s_select([c], [('A', None)]), s_select(['A.' + c], [('A', None)])]
    for a, b in itertools.permutations(n, 2):
        if tier == 'thorough' or (ord(a[0]) + ord(b[0]) * 3 + len(a) + 2 * len(b)) % 4 == 0:
            out += [s_select([a, b], [('A', None)]), s_select(['A.' + a, b], [('A', None)], ('null', a, True))]
    out += [s_select(list(reversed(n)), [('A', None)]), s_select(n[1::2], [('A', None)]), s_select(n[::3], [('A', None)]), s_select([n[6], n[1]], [('A', None)], ('null', n[1], False))]
    for w in (('cmp', '=', 'i', lit('CT_INTEGER', 1)), ('cmp', '<', 'd', lit('CT_DOUBLE', 3)), ('in', 's', [lit('CT_VARCHAR', 0), lit('CT_VARCHAR', 2)], False), ('null', 'i2', True),
              ('cmp', '>', 'dt', lit('CT_DATE', 1)), ('cmp', '=', 't', lit('CT_TINYINT', 1)), ('cmp', '=', 'i', 'i2')):
        for items in (['*'], ['s'], ['i2', 'd'], ['A.dtt', 'A.t'], ['s2', 'i', 's']):
            out.append(s_select(items, [('A', None)], w))
    out += [s_select(['x.i', 'x.s'], [('A', 'x')]), s_select(['i', 's'], [('A', 'x')], ('cmp', '=', 'i', lit('CT_INTEGER', 1))), s_select(['x.d'], [('A', 'x')], ('null', 'x.i', True))]
    q = lambda c: 'q.' + c
    out += [s_select([q('s'), q('i')], [('A', 'q')], w) for w in (('in', q('i'), [lit('CT_INTEGER', 0), lit('CT_INTEGER', 2)], True), ('cmp', '=', q('i'), q('i2')), ('cmp', '>=', lit('CT_DOUBLE', 2), q('d')),
            ('or', ('null', q('s2'), False), ('cmp', '<>', q('s'), lit('CT_VARCHAR', 1))), ('xor', ('cmp', '=', q('t'), lit('CT_TINYINT', 1)), ('cmp', '<', q('dt'), lit('CT_DATE', 2))))]
    out += [s_select(['*'], [('A', 'q')]), s_select(['COUNT(*)'], [('A', 'q')], ('null', q('dtt'), True))]
    jobs += jobs_of('SELECT from a table of all types', setup, out, 14)
    setup = wide_table(20, 6)
    n = [c.name for c in setup[1][0][1]]
    out = [s_select(['*'], [('A', None)])] + [s_select([c], [('A', None)], ('null', n[(i * 7 + 3) % 20], True)) for i, c in enumerate(n)] + [s_select(n[i::4], [('A', None)]) for i in range(4)] + [s_select([n[9], n[0], n[17], n[8]], [('A', None)])]
    jobs += jobs_of('SELECT from a wide table', setup, out, 10)
    setup = long_table(9)
    out = [s_select(['*'], [('A', None)]), s_select(['c0'], [('A', None)]), s_select(['c63', 'c9'], [('A', None)], ('cmp', '=', 'c1', lit('CT_INTEGER', 2))),
           s_select(['c20', 'c36', 'c5'], [('A', None)], ('null', 'c7', True)), s_delete('A', ('cmp', '<', 'c2', lit('CT_INTEGER', 3))), s_update('A', [('c45', string('new')), ('c44', None)], ('cmp', '>', 'c62', lit('CT_INTEGER', 0))),
           [s_delete('A', ('cmp', '<', 'c1', lit('CT_INTEGER', 3))), s_select(['c18', 'c2'], [('A', None)]), s_insert('A', [setup[1][0][2][1]]), s_select(['c3'], [('A', None)])],
           [s_delete('A'), s_select(['*'], [('A', None)]), s_insert('A', [setup[1][0][2][1]]), s_select(['c27'], [('A', None)])]]
    jobs += jobs_of('several blocks', setup, out, 2)
    setup = (('E',), [('A', cols, []), ('B', cols[:2], [])])
    jobs += jobs_of('SELECT from an empty table', setup, [s_select(['*'], [('A', None)]), s_select(['s', 'i'], [('A', None)], ('cmp', '=', 'i', lit('CT_INTEGER', 1))), s_select(['COUNT(*)'], [('A', None)]), [s_insert('A', pool_rows(cols)[:2]), s_delete('A'), s_select(['i'], [('A', None)])]], 5)
    return jobs


def group_rows(ty1, ty2):
    v1 = [lit(ty1, 0), lit(ty1, 1), None]
    v2 = [lit(ty2, 1), None]
    pat = [(0, 0), (1, 0), (0, 1), (2, 0), (0, 0), (1, 1), (2, 0), (2, 1), (1, 0)]
    return [[lit('CT_INTEGER', i % 5), v1[a], v2[b]] for i, (a, b) in enumerate(pat)]


def groupings(tier):
    jobs = []
    for i, ty in enumerate(TYPES):
        ty2 = TYPES[(i + 2) % 6]
        cols = [Col('CT_INTEGER', 'id'), Col(ty, 'g', 20 if ty == 'CT_VARCHAR' else None), Col(ty2, 'h', 20 if ty2 == 'CT_VARCHAR' else None)]
        setup = (('G', ty), [('A', cols, group_rows(ty, ty2))])
        out = []
        for g in (['g'], ['h'], ['g', 'h'], ['h', 'g']):
            for items in ([*g, 'COUNT(*)'], ['COUNT(*)', *g], list(g)):
                out.append(s_select(items, [('A', None)], group=g))
                out.append(s_select(items, [('A', None)], ('cmp', '>', 'id', lit('CT_INTEGER', 0)), group=g))
        out += [s_select(['COUNT(*)'], [('A', None)]), s_select(['COUNT(*)'], [('A', None)], ('null', 'g', False)), s_select(['COUNT(*)'], [('A', None)], ('cmp', '=', 'id', None)),
                s_select(['A.g', 'COUNT(*)'], [('A', None)], group=['A.g']), s_select(['q.g'], [('A', 'q')], group=['q.g']), s_select(['q.h', 'COUNT(*)', 'q.g'], [('A', 'q')], ('null', 'q.g', True), group=['q.g', 'q.h']),
                s_select(['A.h'], [('A', None)], group=['A.h']), s_select(['g', 'COUNT(*)'], [('A', 'q')], group=['g']),
                [s_delete('A', ('null', 'h', False)), s_select(['g', 'COUNT(*)'], [('A', None)], group=['g']), s_select(['COUNT(*)'], [('A', None)])]]
        jobs += jobs_of('GROUP BY %s' % ty[3:], setup, out, 8)
    return jobs


def joins(tier):
    jobs = []
    for i, ty in enumerate(TYPES):
        p = 20 if ty == 'CT_VARCHAR' else None
        A = [Col('CT_INTEGER', 'a'), Col(ty, 'x', p), Col('CT_VARCHAR', 'u', 20)]
        B = [Col(ty, 'y', p), Col('CT_DOUBLE', 'b'), Col('CT_INTEGER', 'c')]
        I, S, D = (lambda k: lit('CT_INTEGER', k)), (lambda k: lit('CT_VARCHAR', k)), (lambda k: lit('CT_DOUBLE', k))
        m = npool(ty)
        rA = [[I(0), lit(ty, 0), S(0)], [I(1), lit(ty, 1), None], [I(2), None, S(2)], [I(3), lit(ty, 1), S(3)]]
        rB = [[lit(ty, 1), D(0), I(1)], [None, D(1), I(3)], [lit(ty, m - 1), None, None], [lit(ty, 0), D(3), I(0)], [lit(ty, 1), D(2), I(2)]]
        setup = (('J', ty), [('A', A, rA), ('B', B, rB)])
        out = []
        on = [('cmp', '=', 'A.x', 'B.y'), ('cmp', '=', 'B.y', 'A.x'), ('cmp', '=', 'x', 'y')]
        for o in on:
            for items in (['*'], ['a', 'b'], ['B.c', 'A.u'], ['u'], ['y', 'x']):
                out.append(s_select(items, [('A', None), ('B', None)], on=o))
        out.append(s_select(['*'], [('B', None), ('A', None)], on=on[0]))
        out.append(s_select(['b', 'a'], [('B', None), ('A', None)], on=on[1]))
        for w in (('cmp', '=', 'a', lit('CT_INTEGER', 1)), ('cmp', '>', 'B.b', lit('CT_DOUBLE', 0)), ('null', 'u', False), ('in', 'c', [I(0), I(2)], False)):
            out.append(s_select(['a', 'b', 'u'], [('A', None), ('B', None)], w, on=on[0]))
            out.append(s_select(['a', 'b', 'u'], [('A', None), ('B', None)], w))
            out.append(s_select(['c', 'x'], [('A', None), ('B', None)], ('and', ('cmp', '=', 'A.x', 'B.y'), w)))
        out += [s_select(['*'], [('A', None), ('B', None)]), s_select(['COUNT(*)'], [('A', None), ('B', None)]), s_select(['COUNT(*)'], [('A', None), ('B', None)], on=on[0]),
                s_select(['p.a', 'q.c'], [('A', 'p'), ('B', 'q')], on=('cmp', '=', 'p.x', 'q.y')), s_select(['p.a', 'q.c'], [('A', 'p'), ('B', 'q')], ('cmp', '=', 'p.x', 'q.y')),
                s_select(['x', 'COUNT(*)'], [('A', None), ('B', None)], on=on[0], group=['x']), s_select(['p.u', 'B.b'], [('A', 'p'), ('B', None)], ('null', 'p.u', True), on=('cmp', '=', 'B.y', 'p.x')),
                s_select(['*'], [('A', 'p'), ('B', 'q')], ('in', 'q.c', [I(1), I(3)], False), on=('cmp', '=', 'q.y', 'p.x')), s_select(['q.y', 'COUNT(*)'], [('A', 'p'), ('B', 'q')], on=('cmp', '=', 'q.y', 'p.x'), group=['q.y']),
                [s_delete('B', ('cmp', '=', 'c', I(1))), s_delete('A', ('cmp', '=', 'a', I(0))), s_select(['*'], [('A', None), ('B', None)], on=on[0]), s_insert('B', [rB[3]]), s_select(['a', 'c'], [('A', None), ('B', None)])],
                [s_delete('B'), s_select(['*'], [('A', None), ('B', None)], on=on[0]), s_select(['a'], [('A', None), ('B', None)])]]
        if ty != 'CT_TINYINT' and ty != 'CT_VARCHAR':
            out += [s_select(['a', 'c'], [('A', None), ('B', None)], ('cmp', op, 'x', 'y')) for op in OPS]
            out += [s_select(['a', 'c'], [('A', None), ('B', None)], on=('cmp', op, 'x', 'y')) for op in ('<', '>=', '<>')]
        jobs += jobs_of('two tables joined on %s' % ty[3:], setup, out, 8)
    return jobs
