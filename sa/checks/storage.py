"""P09, P22, P23: the storage primitives keep the rows they are not asked to change, for enumerated tables and operation sequences."""
import itertools
import frontend
from common import *
from scn import *
import checks.insert as I
from checks.insert import layout, mixed, old_row, execute, guarded, longest, show

_P = None


def nulls_of(how, n, k):
    return {'none': (), 'diag': (k % n, (k + 7) % n), 'all': tuple(range(n)), 'last': (n - 1,) if k % 2 else ()}[how]


class Model:
    """live rows in order: dict column name -> value or None"""
    def __init__(self, cols):
        self.cols = list(cols)
        self.rows = []


def row_arg(E, st, cols, vals, nm, bare=False):
    """a row as a caller hands it in: its strings belong to the caller; bare: nothing is stored for a NULL"""
    P = E.P
    o = E.new_obj(st, 'heap', C(row_size(P, cols)), tag='arg', zero=True)
    before = set(st.mem)
    E.put_row(st, o, 0, cols, {'vals': vals}, nm)
    for k in set(st.mem) - before:
        st.mem[k].extra = ('root',)
        st.mem[k].tag = 'arg'
    off = P.off('row', 'data')
    for c, v in zip(cols, vals):
        if bare and v is None and c.ty == 'CT_VARCHAR':
            st.mem[o].cells[((), off)] = (NULL, 8, False)
        off += c.space
    longest(E, cols, vals)
    return ('p', o, (), 0)


def live_slots(E, s, T):
    out = []
    for b in E.walk_blocks(s, T):
        for i in range(T.n):
            e, d, v = E.read_slot(s, b, i * T.rs, T.cols)
            if not e and not d:
                out.append((b, i * T.rs, v))
    return out


def geometry(E, T, cols):
    T.cols = list(cols)
    T.rs = row_size(E.P, cols)
    T.n = E.P.field('datablock', 'data')['s'] // T.rs


def judge(E, s, T, M, free=None):
    """differences between the table and the model; well-formedness; ownership of strings"""
    P = E.P
    n = E.getf(s, ('p', T.oid, (), 0), 'table', 'column_count')
    if n != C(len(M.cols)):
        return 'the table has %s columns instead of %d' % (show(n), len(M.cols))
    cs, base = P.records['column']['size'], P.off('table', 'columns')
    for i, c in enumerate(M.cols):
        cp = ('p', T.oid, (), base + i * cs)
        nm = E.cstr(s, ('p', T.oid, (), cp[3] + P.off('column', 'name')))
        if nm != c.name.encode() or E.getf(s, cp, 'column', 'type') != C(P.enum(c.ty)) or E.getf(s, cp, 'column', 'precision') != C(c.prec):
            return 'column %d is not the declared one any more' % (i + 1)
    geometry(E, T, M.cols)
    blocks = E.walk_blocks(s, T)
    rows, owner = [], {}
    page = P.field('datablock', 'data')['s']
    fo = E.getf(s, ('p', T.oid, (), 0), 'table', 'free_dtbkl_offset')
    if fo[0] != 'c':
        return 'the offset of the next free row is unknown'
    for bi, b in enumerate(blocks):
        ended = False
        for i in range(T.n):
            e, d, v = E.read_slot(s, b, i * T.rs, T.cols)
            if e and d:
                return 'a slot is both empty and deleted'
            if e:
                ended = True
                continue
            if ended:
                return 'a row lies behind an empty slot, where scans do not look'
            if bi == len(blocks) - 1 and i * T.rs >= fo[1]:
                return 'a row lies at or behind the place where the next row will be written'
            for c, (null, val, raw) in zip(T.cols, v):
                if c.ty == 'CT_VARCHAR' and raw != NULL:
                    if raw[0] != 'p' or raw[1] not in s.mem or s.mem[raw[1]].kind != 'heap' or s.mem[raw[1]].freed is not None or raw[2] or raw[3] or s.mem[raw[1]].tag == 'arg':
                        return 'a %s row holds a string it does not own' % ('deleted' if d else 'live')
                    if raw[1] in owner:
                        return 'two rows share the storage of a string'
                    if s.res(s.mem[raw[1]].size)[1] < c.prec:
                        return 'a string has less storage than its column declares'
                    owner[raw[1]] = 1
            if not d:
                rows.append(v)
    if blocks and (fo[1] % T.rs or fo[1] > page):
        return 'the offset of the next free row is no row boundary'
    if blocks:
        for i in range(fo[1] // T.rs, T.n):
            if not E.read_slot(s, blocks[-1], i * T.rs, T.cols)[0]:
                return 'the place where the next row will be written is not empty'
    if len(rows) != len(M.rows):
        return 'the table holds %d live rows instead of %d' % (len(rows), len(M.rows))
    for k, (v, w) in enumerate(zip(rows, M.rows)):
        for c, (null, val, raw) in zip(M.cols, v):
            if c.name not in w:
                continue
            x = w[c.name]
            if bool(null) != (x is None):
                return 'live row %d of %d, column %s of %d: the NULL state changed' % (k + 1, len(rows), c.name, len(M.cols))
            if x is not None and val != x:
                return 'live row %d of %d, %s column %s: holds %s instead of %s' % (k + 1, len(rows), c.ty[3:], c.name, show(val), show(x))
    mine = set(blocks) | set(owner) | {T.oid, E.getf(s, ('p', T.oid, (), 0), 'table', 'datablock_head')[1]}
    for k, o in s.mem.items():
        if not isinstance(k, tuple) and o.kind == 'heap' and o.freed is None and k not in mine and o.tag not in ('arg', 'output', 'db'):
            return 'memory is not released: %s' % ('a string of a row that is gone' if str(o.tag).startswith('str') else 'a block' if str(o.tag).startswith('blk') else 'an allocation made on the way')
    if s.ghost.get('lost'):
        return 'memory is lost'
    return None


def step(E, s, T, M, op, k):
    """(states, new model) after one operation"""
    P = E.P
    tp = ('p', T.oid, (), 0)
    if op[0] == 'vac':
        return E.run_root(P.fn('table_vacuum'), [tp], s), M.rows, M.cols
    if op[0] == 'ins':
        vals = old_row(M.cols, 'n%d' % k, nulls_of(op[1], len(M.cols), k))
        r = row_arg(E, s, M.cols, vals, 'n%d' % k, k % 3 != 0)
        return E.run_root(P.fn('table_insert_row'), [tp, r, C(row_size(P, M.cols))], s), M.rows + [dict(zip([c.name for c in M.cols], vals))], M.cols
    if op[0] in ('del', 'upd'):
        sl = live_slots(E, s, T)
        i = op[1] if op[1] >= 0 else len(sl) + op[1]
        if not 0 <= i < len(sl):
            return None
        b, at, _ = sl[i]
        if op[0] == 'del':
            return E.run_root(P.fn('table_delete_row'), [tp, ('p', b, (), 0), C(at)], s), M.rows[:i] + M.rows[i + 1:], M.cols
        vals = old_row(M.cols, 'u%d' % k, nulls_of(op[2], len(M.cols), k))
        r = row_arg(E, s, M.cols, vals, 'u%d' % k)
        return E.run_root(P.fn('table_update_row'), [tp, ('p', b, (), 0), C(at), r, C(row_size(P, M.cols))], s), \
            M.rows[:i] + [dict(zip([c.name for c in M.cols], vals))] + M.rows[i + 1:], M.cols
    if op[0] == 'destroy':
        slot = E.new_obj(s, 'heap', C(8), tag='arg', zero=True)
        s.mem[slot].extra = ('root',)
        s.mem[slot].cells[((), 0)] = (tp, 8, False)
        return E.run_root(P.fn('table_destroy'), [('p', slot, (), 0)], s), M.rows, M.cols
    c = E.new_obj(s, 'heap', C(P.records['column']['size']), tag='arg', zero=True)
    s.mem[c].extra = ('root',)
    col = M.cols[op[1]] if op[0] == 'rem' else op[1]
    E.setf(s, c, 'column', 'name', ('x', 'cstr', col.name.encode()))
    E.setf(s, c, 'column', 'type', C(P.enum(col.ty)))
    E.setf(s, c, 'column', 'precision', C(col.prec))
    if op[0] in ('noadd', 'norem'):
        return E.run_root(P.fn('table_%s_column' % op[0][2:]), [tp, ('p', c, (), 0)], s), M.rows, M.cols
    if op[0] == 'add':
        return E.run_root(P.fn('table_add_column'), [tp, ('p', c, (), 0)], s), [dict(r) for r in M.rows], M.cols + [col]
    if op[0] == 'rem':
        rows = [{a: b for a, b in r.items() if a != col.name} for r in M.rows]
        return E.run_root(P.fn('table_rem_column'), [tp, ('p', c, (), 0)], s), rows, [x for x in M.cols if x is not col]
    raise Broken('operation %s' % op[0])


NAME = {'vac': 'compacting the table', 'ins': 'adding a row', 'del': 'deleting a row', 'upd': 'updating a row', 'add': 'adding a column', 'rem': 'removing a column', 'destroy': 'destroying the table',
        'noadd': 'adding a column that cannot be added', 'norem': 'removing a column that is not there'}


def scenario(kw):
    E = I.engine(ScnEngine)
    st = E.begin()
    cols = kw['cols']
    M = Model(cols)
    blocks = []
    k = 0
    for bi, spec in enumerate(kw['blocks']):
        bl = []
        for ch in spec:
            vals = old_row(cols, 'o%d' % k, nulls_of(kw.get('nulls', 'none'), len(cols), k))
            longest(E, cols, vals)
            bl.append({'vals': vals, 'deleted': ch == 'd'})
            if ch == 'l':
                M.rows.append(dict(zip([c.name for c in cols], vals)))
            k += 1
        blocks.append(bl)
    T = E.mk_table(st, 'T', cols, blocks)
    s = st
    for j, op in enumerate(kw['ops']):
        r = step(E, s, T, M, op, 100 + j)
        if r is None:
            continue
        outs, M.rows, M.cols = r
        what = NAME[op[0]] + (' after ' + NAME[kw['ops'][j - 1][0]] if j else '')
        if E.bads:
            break
        if len(outs) != 1:
            return E, [('%s: %s' % (what, 'the outcome depends on stored values' if outs else 'it never completes'), None, None)] + [('memory: ' + m, l, t) for m, l, t in E.bads]
        rv, s = outs[0]
        rv = s.res(rv)
        if op[0] == 'destroy':
            left = [o for i, o in s.mem.items() if not isinstance(i, tuple) and o.kind == 'heap' and o.freed is None and o.tag not in ('arg', 'output', 'db')]
            if left:
                return E, [('%s: %s is not released' % (what, 'a string' if str(left[0].tag).startswith('str') else 'an allocation'), None, s.trace_list()[-14:])]
            break
        tr = s.trace_list()[-14:]
        if op[0].startswith('no'):
            if rv == C(1):
                return E, [('%s is reported as done' % what, None, tr)]
        elif rv != C(1):
            return E, [('%s is reported as failed' % what, None, tr)]
        try:
            m = judge(E, s, T, M)
        except (BadHeap, PathEnd) as e:
            m = 'the table is damaged: %s' % e
        if m:
            return E, [('%s: %s' % (what, m), None, tr)]
    return E, [('memory: ' + m, l, t) for m, l, t in E.bads]


def one(job):
    return guarded(scenario, *job)


def cap(cols):
    """rows the writer puts in one block"""
    rs = row_size(_P, cols)
    page = _P.field('datablock', 'data')['s']
    return max(k for k in range(1, page // rs + 1) if (k - 1) * rs + rs < page or k == 1)


def patterns(full, nb, tier):
    """fills of nb blocks of which all but the last are full: every live/deleted pattern when small, a spread otherwise"""
    if full * nb <= 8:
        for last in range(0 if nb == 1 else 1, full + 1):
            tot = full * (nb - 1) + last
            for bits in itertools.product('ld', repeat=tot):
                w = ''.join(bits)
                yield [w[i * full:(i + 1) * full] for i in range(nb - 1)] + [w[(nb - 1) * full:]]
        return
    base = ['l' * full, 'd' * full, 'd' + 'l' * (full - 1), 'l' * (full - 1) + 'd', ('ld' * full)[:full], 'l' + 'd' * (full - 1), 'd' * (full - 1) + 'l', ('ddl' * full)[:full]]
    lasts = ['l', 'd', ('ld' * full)[:max(1, full // 2)], 'l' * full, ('dl' * full)[:full], 'd' * max(1, full - 1)]
    pre = list(itertools.product(base, repeat=nb - 1))
    if nb > 2 and tier == 'quick':
        pre = pre[::5]
    for i, p in enumerate(pre):
        for j, l in enumerate(lasts):
            if nb == 1 or tier == 'thorough' or full < 12 or (i + j) % 2 == 0:
                yield list(p) + [l]


# widths: narrow rows, rows that divide the page evenly, and the widest
def tables(tier):
    w = [('mixed128', mixed(128)), ('1016', ['CT_INTEGER'] * 124 + ['CT_VARCHAR'] * 1), ('17', mixed(17)), ('9', mixed(9, 1)), ('3', ['CT_VARCHAR', 'CT_INTEGER', 'CT_VARCHAR']),
         ('1', ['CT_VARCHAR']), ('5i', ['CT_INTEGER'] * 5), ('t', ['CT_TINYINT', 'CT_VARCHAR'])]
    if tier == 'thorough':
        w += [('m%d' % n, mixed(n, n)) for n in range(2, 128, 7)] + [('i%d' % n, ['CT_INTEGER'] * (n - 1) + ['CT_VARCHAR']) for n in (13, 29, 61, 125, 128)]
    return [(nm, layout(t, 'plain')) for nm, t in w]


def vacuum(R):
    global _P
    I._P = _P = frontend.load()
    jobs = []
    for nm, cols in tables(R.tier):
        full = cap(cols)
        rs = row_size(_P, cols)
        for nb in (1, 2, 3, 4) if full <= 6 else (1, 2, 3) if full < 30 else (1, 2):
            if full > 60 and nb > 1 and R.tier == 'quick' and nm != '5i':
                continue
            pats = list(patterns(full, nb, R.tier))
            if R.tier == 'quick':
                lim = 140 if full <= 6 else 36 if full < 30 else 12
                pats = pats[::max(1, -(-len(pats) // lim))]
            for i, p in enumerate(pats):
                nulls = ('none', 'diag', 'last')[i % 3]
                ops = [[('vac',), ('ins', 'none'), ('ins', 'last')], [('vac',), ('vac',)], [('del', -1), ('vac',), ('ins', 'diag')], [('del', 0), ('ins', 'none'), ('vac',), ('del', 1), ('vac',), ('ins', 'none')]][(i // 3) % 4]
                jobs.append(('compacting a table @%s columns, rows of %d bytes, blocks %s, then %s' % (nm, rs, p if full < 9 else [len(x) for x in p], [o[0] for o in ops]), dict(cols=cols, blocks=p, nulls=nulls, ops=ops)))
                R.count('tables compacted')
    execute(R, jobs, one)
    R.need('tables compacted', 300)
    R.rules = ['After table_vacuum the live rows of the table are the same, in the same order and with the same values and NULLs; no deleted row is left in front of them; rows added afterwards follow them; '
               'strings of removed rows and surplus blocks are released exactly once, and nothing else is.']
    return done(R, 'table_vacuum')


def columns(R):
    global _P
    I._P = _P = frontend.load()
    jobs = []
    sets = [['CT_VARCHAR'], ['CT_INTEGER', 'CT_VARCHAR'], ['CT_TINYINT', 'CT_VARCHAR', 'CT_DOUBLE'], mixed(8), mixed(9, 1), mixed(17, 2), mixed(65), mixed(127), mixed(128)]
    if R.tier == 'thorough':
        sets += [mixed(n, n) for n in range(4, 127, 6)]
    for tys in sets:
        cols = layout(tys)
        n, full = len(cols), cap(cols)
        fills = [[], ['l'], ['lldl'[:full]], ['d' * min(3, full)], ['l' * full, 'ld'[:full]], [('ld' * full)[:full], 'd' * full, 'l']]
        pos = sorted({0, n // 2, n - 1, 7, 8, 63, 64} & set(range(n)))
        for fi, f in enumerate(fills):
            if full > 40 and fi > 3 and R.tier == 'quick':
                f = f[:2]
            for nu in ('none', 'diag', 'all', 'last'):
                if not f and nu != 'none':
                    continue
                for p in pos:
                    if n > 20 and (fi + p + len(nu)) % 3:
                        continue
                    if n > 1:
                        seqs = [[('rem', p), ('ins', 'none'), ('vac',)], [('rem', p), ('rem', 0 if p else -1)] if n > 2 else [('rem', p)], [('vac',), ('rem', p), ('vac',), ('ins', 'last')]]
                        jobs.append(('removing a column @%d of %d, blocks %s, NULLs %s' % (p, n, [len(x) for x in f], nu), dict(cols=cols, blocks=f, nulls=nu, ops=seqs[(p + fi) % 3])))
                        R.count('columns removed')
                # columns that come back under their old name, and requests that cannot be met
                new, bad = Col('CT_INTEGER', 'fresh'), Col('CT_INTEGER', 'fresh')
                bad.prec = 0
                seqs = [[('noadd', Col('CT_DOUBLE', cols[-1].name)), ('norem', Col('CT_INTEGER', 'other')), ('ins', 'none')], [('noadd', new if n == 128 else bad), ('noadd', cols[0]), ('vac',)]]
                if n > 1:
                    seqs += [[('rem', -1), ('add', Col('CT_INTEGER', cols[-1].name)), ('ins', 'last')], [('rem', 0), ('add', Col('CT_DOUBLE', cols[0].name)), ('rem', 0), ('ins', 'none')],
                             [('rem', n // 2), ('norem', cols[n // 2]), ('add', new), ('noadd', new), ('ins', 'diag')]]
                for k, sq in enumerate(seqs):
                    if R.tier == 'thorough' or n < 9 and nu in ('none', 'diag') or (k + fi + len(nu)) % 4 == 0:
                        jobs.append(('columns that come back @%d columns, blocks %s, NULLs %s, %s' % (n, [len(x) for x in f], nu, [o[0] for o in sq]), dict(cols=cols, blocks=f, nulls=nu, ops=sq)))
                        R.count('columns that come back')
                for ty in ('CT_INTEGER', 'CT_TINYINT', 'CT_DOUBLE', 'CT_DATE') if n < 20 else ('CT_INTEGER', 'CT_TINYINT'):
                    if n < 128:
                        new = Col(ty, 'fresh')
                        seqs = [[('add', new)], [('add', new), ('ins', 'none'), ('del', 0), ('vac',)], [('add', new), ('rem', 0), ('ins', 'diag')], [('add', new), ('vac',), ('ins', 'last')]]
                        for sq in seqs if n < 20 and R.tier == 'thorough' else [seqs[(fi + len(nu) + len(ty)) % 4], seqs[(fi + 1 + len(ty)) % 4]]:
                            jobs.append(('adding a column @%s to %d, blocks %s, NULLs %s' % (ty, n, [len(x) for x in f], nu), dict(cols=cols, blocks=f, nulls=nu, ops=sq)))
                            R.count('columns added')
    execute(R, jobs, one)
    R.need('columns removed', 200)
    R.need('columns added', 200)
    R.need('columns that come back', 40)
    R.rules = ['After table_rem_column / table_add_column every live row is still there, in order, with its values and NULLs in all other columns; the column list is the old one without / with the column; '
               'rows added afterwards land behind the others; strings of a removed column are released exactly once.',
               'A column whose name is taken, that has no width, or that is one too many is not added, a column that is not there is not removed; then nothing changes. A removed name can be used again.']
    return done(R, 'table_rem_column and table_add_column')


def primitives(R):
    global _P
    I._P = _P = frontend.load()
    jobs = []
    for nm, cols in tables(R.tier):
        full = cap(cols)
        n = len(cols)
        for f in ([], ['l'], ['lldl'[:full]], ['l' * full], ['l' * full, 'ld'[:full]], ['d' * full, 'l']):
            for nu in ('none', 'diag', 'last', 'all'):
                seqs = [[('ins', 'none'), ('ins', 'diag'), ('del', 0), ('ins', 'all'), ('del', -1), ('ins', 'last')],
                        [('upd', 0, 'none'), ('upd', -1, 'diag'), ('ins', 'none'), ('upd', -1, 'all'), ('upd', -1, 'none')],
                        [('ins', 'last'), ('upd', 0, 'last'), ('del', 0), ('upd', 0, 'none'), ('vac',), ('upd', 0, 'diag')],
                        [('ins', 'none')] * (full + 1 if full <= 8 else 3) + [('vac',), ('del', 1), ('upd', 1, 'none'), ('vac',), ('ins', 'diag'), ('destroy',)],
                        [('del', 0), ('ins', 'diag'), ('destroy',)]]
                for i, sq in enumerate(seqs):
                    if n > 20 and (i + len(f) + len(nu)) % 2 and R.tier == 'quick':
                        continue
                    jobs.append(('row operations @%s columns, blocks %s, NULLs %s, %s' % (nm, [len(x) for x in f], nu, [o[0] for o in sq][:6]), dict(cols=cols, blocks=f, nulls=nu, ops=sq)))
                    R.count('operation sequences')
    execute(R, jobs, one)
    R.need('operation sequences', 400)
    R.rules = ['table_insert_row appends a copy of the row, table_update_row replaces the values and NULLs of one row, table_delete_row removes one row, table_destroy releases every block and string once; no other row changes, strings are copied into '
               'storage the table owns, and no storage is lost.']
    return done(R, 'table_insert_row, table_update_row, table_delete_row and table_destroy')


def done(R, what):
    R.assumptions = ['The starting table is well formed (blocks but the last filled as the writer fills them); libc string functions behave as documented.']
    return ('Abstract interpretation of %s over enumerated table shapes and operation sequences; the stored values are unknown: %d scenarios, each compared with a list of rows after every operation.' % (what, R.obligations))
