"""P07, P08, P13, P19: SELECT over enumerated tables and statements; stored values are unknown."""
import itertools
import frontend
from common import *
from scn import *
from engine import Budget
from checks.insert import layout, mixed, old_row, execute, show, longest, guarded
import checks.insert as I

_P = None


# ------------------------------------------------------------ statement trees
def cname(s):
    return ('x', 'cstr', s.encode())


def ref(E, st, r):
    """('f', table, col) or ('n', col)"""
    if r[0] == 'f':
        return E.node(st, 'ast_sel_fieldname_node', 'AST_TYPE_SEL_FIELDNAME', {'table_name': cname(r[1]), 'col_name': cname(r[2])}, []), 'ast_sel_fieldname_node'
    return E.node(st, 'ast_sel_exprval_node', 'AST_TYPE_SEL_EXPRVAL', {'value_type.is_name': C(1), 'name_val': cname(r[1])}, []), 'ast_sel_exprval_node'


def cond(E, st, c):
    if c[0] == 'null':
        return E.node(st, 'ast_sel_isxnull_node', 'AST_TYPE_SEL_EXPRISXNULL', {'is_negation': C(int(c[2]))}, [ref(E, st, c[1])]), 'ast_sel_isxnull_node'
    if c[0] == 'eq':
        return E.node(st, 'ast_sel_cmp_node', 'AST_TYPE_SEL_CMP', {'cmp_type': C(E.P.enum('AST_CMP_EQUALS_OP'))}, [ref(E, st, c[1]), ref(E, st, c[2])]), 'ast_sel_cmp_node'
    return E.node(st, 'ast_sel_logop_node', 'AST_TYPE_SEL_LOGOP', {'logop_type': C(E.P.enum('AST_LOGOP_TYPE_' + c[0].upper()))},
                  [cond(E, st, c[1]), cond(E, st, c[2])]), 'ast_sel_logop_node'


def table(E, st, t):
    if isinstance(t, tuple):
        return E.node(st, 'ast_sel_alias_node', 'AST_TYPE_SEL_ALIAS', {'alias_value': cname(t[1])}, [table(E, st, t[0])]), 'ast_sel_alias_node'
    return E.node(st, 'ast_sel_table_node', 'AST_TYPE_SEL_TABLE', {'table_name': cname(t)}, []), 'ast_sel_table_node'


def tree(E, st, q):
    kids = []
    for it in q['items']:
        if it[0] == '*':
            kids.append((E.node(st, 'ast_sel_selectall_node', 'AST_TYPE_SEL_SELECTALL', {}, []), 'ast_sel_selectall_node'))
        elif it[0] == 'count':
            kids.append((E.node(st, 'ast_sel_count_node', 'AST_TYPE_SEL_COUNT', {'all': C(1)}, []), 'ast_sel_count_node'))
        else:
            kids.append(ref(E, st, it))
    if q.get('on'):
        a, b = q['from']
        on = (E.node(st, 'ast_sel_onexpr_node', 'AST_TYPE_SEL_ONEXPR', {}, [cond(E, st, q['on'])]), 'ast_sel_onexpr_node')
        kids.append((E.node(st, 'ast_sel_join_node', 'AST_TYPE_SEL_JOIN', {'join_type': C(E.P.enum('AST_SEL_JOIN_INNER'))},
                            [table(E, st, a), table(E, st, b), on]), 'ast_sel_join_node'))
    else:
        kids += [table(E, st, t) for t in q['from']]
    if q.get('where'):
        kids.append((E.node(st, 'ast_sel_where_node', 'AST_TYPE_SEL_WHERE', {}, [cond(E, st, q['where'])]), 'ast_sel_where_node'))
    if q.get('group'):
        kids.append((E.node(st, 'ast_sel_groupby_node', 'AST_TYPE_SEL_GROUPBY', {}, [ref(E, st, g) for g in q['group']]), 'ast_sel_groupby_node'))
    return E.node(st, 'ast_sel_select_node', 'AST_TYPE_SEL_SELECT', {'distinct': C(0)}, kids)


# ------------------------------------------------------------ the reference model
def resolve(q, tabs, r):
    """(table, column position)"""
    al = {t[1]: t[0] for t in q['from'] if isinstance(t, tuple)}
    names = [t[0] if isinstance(t, tuple) else t for t in q['from']]
    if r[0] == 'f':
        t = al.get(r[1], r[1])
        return t, [c.name for c in tabs[t]['cols']].index(r[2])
    for t in names:
        ns = [c.name for c in tabs[t]['cols']]
        if r[1] in ns:
            return t, ns.index(r[1])
    raise KeyError(r)


def truth(q, tabs, c, env):
    if c[0] == 'null':
        t, i = resolve(q, tabs, c[1])
        return (env[t][i] is None) != bool(c[2])
    if c[0] == 'eq':
        a, b = ((lambda t, i: env[t][i])(*resolve(q, tabs, c[k])) for k in (1, 2))
        return a is not None and b is not None and a == b
    a, b = truth(q, tabs, c[1], env), truth(q, tabs, c[2], env)
    return (a and b) if c[0] == 'and' else (a or b) if c[0] == 'or' else a != b


def answer(q, tabs):
    """(column keys, [row: list of allowed dicts key->value])"""
    names = [t[0] if isinstance(t, tuple) else t for t in q['from']]
    keys, src = [], []
    for it in q['items']:
        if it[0] == '*':
            for t in names:
                for i, c in enumerate(tabs[t]['cols']):
                    keys.append('%s.%s' % (t, c.name))
                    src.append((t, i))
        elif it[0] == 'count':
            keys.append('COUNT(*)')
            src.append(None)
        else:
            t, i = resolve(q, tabs, it)
            keys.append('%s.%s' % (t, tabs[t]['cols'][i].name))
            src.append((t, i))
    live = [[r['vals'] for blk in tabs[t]['blocks'] for r in blk if not r['deleted']] for t in names]
    rows = []
    for combo in itertools.product(*live):
        env = dict(zip(names, combo))
        if q.get('on') and not truth(q, tabs, q['on'], env):
            continue
        if q.get('where') and not truth(q, tabs, q['where'], env):
            continue
        rows.append(env)
    if q.get('group'):
        g = [resolve(q, tabs, r) for r in q['group']]
        classes = {}
        for env in rows:
            classes.setdefault(tuple(env[t][i] for t, i in g), []).append(env)
        groups = list(classes.values())
    elif all(s is None for s in src):
        groups = [rows] if rows or q.get('count_of_none', True) else []
    else:
        groups = [[env] for env in rows]
    out = []
    for members in groups:
        n = len(members)
        out.append([{k: (C(n) if s is None else env[s[0]][s[1]]) for k, s in zip(keys, src)} for env in members] or [{k: C(0) for k in keys}])
    return keys, out


# ------------------------------------------------------------ reading the result table
def result_table(E, s):
    P = E.P
    rt = E.getf(s, ('p', E.output, (), 0), 'query_output', 'results.table')
    if rt[0] != 'p' or rt[1] not in s.mem or s.mem[rt[1]].freed is not None:
        raise BadHeap('there is no result table')
    n = E.getf(s, rt, 'table', 'column_count')
    if n[0] != 'c':
        raise BadHeap('the result has an unknown number of columns')
    base, cs = P.off('table', 'columns'), P.records['column']['size']
    by = {P.enum(t): t for t in TYPES}
    cols = []
    for i in range(n[1]):
        cp = ('p', rt[1], (), rt[3] + base + i * cs)
        nm = E.cstr(s, ('p', cp[1], (), cp[3] + P.off('column', 'name')))
        ty = E.getf(s, cp, 'column', 'type')
        pr = E.getf(s, cp, 'column', 'precision')
        if nm is None or ty[0] != 'c' or ty[1] not in by or pr[0] != 'c':
            raise BadHeap('column %d of the result is unreadable' % (i + 1))
        cols.append(Col(by[ty[1]], nm.decode(), pr[1]))
    T = type('T', (), {})()
    T.oid, T.cols, T.rs = rt[1], cols, row_size(P, cols)
    T.n = P.field('datablock', 'data')['s'] // T.rs
    return T


def visible_rows(E, s, T):
    out = []
    for b in E.walk_blocks(s, T):
        for i in range(T.n):
            e, d, v = E.read_slot(s, b, i * T.rs, T.cols)
            if e:
                break
            if d:
                raise BadHeap('a removed row is still in the result')
            out.append((b, i * T.rs, v))
    return out


def match(rows, want, keys):
    """bipartite matching of result rows with expected rows (each a list of alternatives)"""
    adj = [[j for j, alts in enumerate(want) if any(all(r[k] == a[k] for k in keys) for a in alts)] for r in rows]
    owner = {}

    def aug(i, seen):
        for j in adj[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or aug(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    for i in range(len(rows)):
        if not aug(i, set()):
            return i
    return None


def check_result(E, s, q, tabs, T=None):
    keys, want = answer(q, tabs)
    T = result_table(E, s)
    have = [c.name for c in T.cols]
    if sorted(set(keys)) != sorted(have):
        lost = sorted(set(keys) - set(have))
        extra = sorted(set(have) - set(keys))
        return ['the result %s' % ('lacks column %s' % short(lost[0]) if lost else 'has the extra or repeated column %s' % short(extra[0] if extra else have[0]))], None
    for c in T.cols:
        if c.name == 'COUNT(*)':
            ty = 'CT_INTEGER'
        else:
            t, n = c.name.split('.', 1)
            src = [x for x in tabs[t]['cols'] if x.name == n][0]
            ty = src.ty
            if src.ty == 'CT_VARCHAR' and c.prec < src.prec:
                return ['result column %s is shorter than its source' % short(c.name)], None
        if c.ty != ty:
            return ['result column %s has type %s instead of %s' % (short(c.name), c.ty[3:], ty[3:])], None
    got = visible_rows(E, s, T)
    if len(got) != len(want):
        return ['the result has %d rows instead of %d' % (len(got), len(want))], T
    owners = {}
    rows = []
    for b, at, v in got:
        r = {}
        for c, (null, val, raw) in zip(T.cols, v):
            r[c.name] = None if null else val
            if c.ty == 'CT_VARCHAR':
                if raw[0] != 'p' or raw[1] not in s.mem or s.mem[raw[1]].kind != 'heap' or s.mem[raw[1]].freed is not None:
                    return ['a result row holds a string in memory it does not own'], T
                if raw[1] in owners or s.mem[raw[1]].tag and str(s.mem[raw[1]].tag).startswith('str:'):
                    return ['a result row shares the storage of a string with %s' % ('another row' if raw[1] in owners else 'the table')], T
                owners[raw[1]] = 1
        rows.append(r)
    bad = match(rows, want, keys)
    if bad is not None:
        w = want[min(bad, len(want) - 1)][0]
        k = next((k for k in keys if rows[bad][k] != w[k]), keys[0])
        return ['result row %d, column %s holds %s, which no matching source row has (%s expected)' % (bad + 1, short(k), sh(rows[bad][k]), sh(w[k]))], T
    return [], T


def short(n):
    return n if len(n) < 30 else n[:8] + '..' + n[-6:]


def sh(v):
    return 'NULL' if v is None else show(v)


def source_intact(E, s, tabs):
    for t, d in tabs.items():
        T = E.tables[t]
        try:
            bl = E.walk_blocks(s, T)
            if bl != T.chain:
                return ['the blocks of table %s changed' % t]
            for b, rows in zip(bl, d['blocks']):
                for i, r in enumerate(rows):
                    e, de, v = E.read_slot(s, b, i * T.rs, T.cols)
                    if e or de != r['deleted']:
                        return ['a row of table %s changed its state' % t]
                    for (null, val, raw), x in zip(v, r['vals']):
                        if (x is None) != bool(null) or x is not None and x != val:
                            return ['a value of table %s changed' % t]
        except BadHeap as e:
            return ['table %s is damaged: %s' % (t, e)]
    return []


# ------------------------------------------------------------ running
class SelEngine(ScnEngine):
    """values written as ('s'|'d'..., (class, rank)) compare by rank"""
    ranks = {}

    def decide_hook(self, st, v):
        if v[1] in ('lt', 'eq', 'flt', 'feq') and self.ranks:
            a, b = v[2], v[3]
            for x, y, sg in ((a, b, 1), (b, a, -1)):
                k = None
                if x[0] == 'x' and x[1] == 'strcmp' and y == C(0):
                    ra, rb = self.ranks.get(x[2]), self.ranks.get(x[3])
                    if ra is None or rb is None:
                        return None
                    c = (ra > rb) - (ra < rb)
                    c *= sg
                    return c == 0 if v[1] == 'eq' else c < 0
            ra, rb = self.ranks.get(a), self.ranks.get(b)
            if ra is not None and rb is not None:
                return ra == rb if v[1] in ('eq', 'feq') else ra < rb
        return None


def scenario(kw):
    E = I.engine(SelEngine)
    P = E.P
    E.ranks = kw.get('ranks', {})
    E.fail_allocs = kw.get('fail', False)
    E.cap = kw.get('cap', 20)
    st = E.begin()
    tabs, q = kw['tabs'], kw['q']
    for t, d in tabs.items():
        E.mk_table(st, t, d['cols'], d['blocks'])
        for blk in d['blocks']:
            for r in blk:
                longest(E, d['cols'], r['vals'])
    root = tree(E, st, q)
    args = [('p', E.db, (), 0), ('p', root, (), 0), ('p', E.output, (), 0)]
    msgs = []
    fin = 0
    for rv, s in E.run_root(P.fn('optimiser_run_select_stmt'), args, st):
        if s.res(rv) != C(0):
            msgs.append(('a valid SELECT fails', None, s.trace_list()[-14:]))
            continue
        for rv2, s2 in E.run_root(P.fn('executor_run_select_stmt'), args, s):
            fin += 1
            tr = s2.trace_list()[-14:]
            if s2.res(rv2) != C(0):
                msgs.append(('a valid SELECT fails', None, tr))
                continue
            try:
                m, T = check_result(E, s2, q, tabs)
            except (BadHeap, PathEnd) as e:
                m, T = ['the result is damaged: %s' % e], None
            msgs += [(x, None, tr) for x in m]
            if not m and kw.get('intact', True):
                msgs += [(x, None, tr) for x in source_intact(E, s2, tabs)]
            if not m and kw.get('cursor'):
                msgs += [(x, None, tr) for x in walk_cursor(E, s2, T)]
    if not fin and not msgs and not E.bads:
        msgs.append(('the SELECT never completes', None, None))
    return E, msgs + [('memory: ' + m, l, t) for m, l, t in E.bads]


def walk_cursor(E, s, T, blocks=None):
    P = E.P
    want = visible_rows(E, s, T)
    if blocks is not None and len(want) != sum(len(b) for b in blocks):
        raise Broken('the stored result is not what was asked for')
    res = ('p', E.output, (), P.off('query_output', 'results'))
    step, col = P.fn('query_cur_step'), P.fn('query_column_int64')
    ints = [i for i, c in enumerate(T.cols) if c.ty == 'CT_INTEGER']
    ints = ints[:2] + ints[-1:] if len(ints) > 3 else ints
    for k in range(len(want) + 3):
        outs = E.run_root(step, [res], s)
        if not outs:
            return []           # reported where it aborts
        if len(outs) != 1:
            return ['stepping the cursor does not give one answer']
        rv, s = outs[0]
        rv = s.res(rv)
        if k >= len(want):
            if rv != C(0):
                return ['the cursor returns a row after the last one']
            continue
        if rv == C(0):
            return ['the cursor ends early']
        b, at, vals = want[k]
        blk, off = E.getf(s, res, 'result_set', 'cursor_blk'), E.getf(s, res, 'result_set', 'cursor_offset')
        if blk[0] != 'p' or (blk[1], off) != (b, C(at)):
            return ['a step of the cursor is not at the next row']
        for i in ints if k < 3 or k == len(want) - 1 else ():
            r = E.run_root(col, [res, C(i)], s)
            if len(r) != 1 or not vals[i][0] and r[0][1].res(r[0][0]) != vals[i][1]:
                return ['query_column_int64 does not read the value of the column']
    return []


def one(job):
    return guarded(scenario, *job)


def mk_rows(cols, spec, nm, nulls=lambda k: ()):
    """spec: string of l / d per slot"""
    rows = []
    for k, ch in enumerate(spec):
        rows.append({'vals': old_row(cols, '%s%d' % (nm, k), nulls(k)), 'deleted': ch == 'd'})
    return rows


# ------------------------------------------------------------ families
def q(items, frm, where=None, group=None, on=None):
    return {'items': items, 'from': frm, 'where': where, 'group': group, 'on': on}


def fill(n, at):
    """position of the NULLs of row k"""
    return {'none': lambda k: (), 'diag': lambda k: (k % n, (k + 7) % n), 'all': lambda k: tuple(range(n)), 'last': lambda k: (n - 1,) if k % 2 else (),
            'first': lambda k: (0,) if k % 2 == 0 else ()}[at]


def shapes(n, rs_n):
    """block fills: per block a string of l(ive) / d(eleted)"""
    out = [[], ['l'], ['lldl'], ['d'], ['dl'], ['ld', 'dl'], ['dd', 'l']]
    return out


def picks(n):
    cs = lambda *ix: [('n', i) for i in ix]
    out = [[('*',)], cs(0), cs(n - 1), cs(*reversed(range(n)))]
    if n > 2:
        out += [cs(n // 2), cs(*range(1, n)), cs(*range(n - 1)), cs(0, n - 1), cs(n - 1, n // 2, 0)]
    return out


def named(cols, items, how='n', t='A'):
    return [(('f', t, cols[i[1]].name) if how == 'f' else ('n', cols[i[1]].name)) if i[0] == 'n' else i for i in items]


def wheres(cols):
    n = len(cols)
    a, z = ('n', cols[0].name), ('n', cols[n - 1].name)
    return [None, ('null', a, 1), ('null', z, 0), ('null', z, 1), ('or', ('null', a, 0), ('null', z, 0)), ('and', ('null', a, 1), ('null', z, 1))]


def sizes(tier):
    return (1, 2, 3, 8, 9, 16, 17, 20, 33) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 24, 25, 32, 33, 40, 64, 65)


def thin(R, jobs, k):
    """the quick tier takes every k-th shape, at an offset that runs through the inner choices"""
    return jobs if R.tier == 'thorough' else [j for i, j in enumerate(jobs) if (i + i // 97) % k == 0]


def single(R, cursor=False):
    jobs = []
    for n in sizes(R.tier):
        for r in (0, 1, 2, 3, 4, 5) if n == 1 else (0, 3) if n < 20 else (1,):
            cols = layout(mixed(n, r), 'long' if (n + r) % 5 == 2 else 'plain' if n < 9 or r else 'rev')
            sh = shapes(n, row_size(_P, cols))
            if n >= 17:
                per = 4096 // row_size(_P, cols)
                sh = [['lldl'], ['l' * per, 'lld']]
            for bi, blocks in enumerate(sh):
                for wi, w in enumerate(wheres(cols)):
                    if len(blocks) == 0 and wi > 1:
                        continue
                    for at in ('none', 'diag', 'last', 'first', 'all'):
                        if wi == 0 and at in ('last', 'first') or n >= 17 and (bi + wi) % 3 != ('none', 'diag', 'last', 'first', 'all').index(at) % 3:
                            continue
                        ps = picks(n)
                        if bi != 2:
                            ps = [ps[(wi + bi) % len(ps)], ps[(wi + bi + 2) % len(ps)]]
                        for pi, it in enumerate(ps):
                            alias = (wi + pi) % 3
                            t = ('A', 'x') if alias == 2 else 'A'
                            items = named(cols, it, 'f' if alias else 'n', 'x' if alias == 2 else 'A')
                            key = 'SELECT of %s%s @%d columns, blocks %s, NULLs %s' % (
                                'all columns' if it[0] == ('*',) else 'some columns', '' if w is None else ' WHERE', n, [len(b) for b in blocks], at)
                            jobs.append((key, dict(tabs={'A': dict(cols=cols, blocks=[mk_rows(cols, b, 'a%d_' % k, fill(n, at)) for k, b in enumerate(blocks)])},
                                                   q=q(items, [t], w), cursor=cursor)))
    return jobs


def projection(R):
    global _P
    I._P = _P = frontend.load()
    jobs = thin(R, single(R), 5)
    R.count('single-table statements', len(jobs))
    execute(R, jobs, one)
    import checks.families as families
    from checks.text import run_text
    run_text(R, families.projections(R.tier), 'statements analysed from their text')
    R.need('single-table statements', 400)
    R.rules = ['For a SELECT over one table the result has exactly the requested columns (type and length of the source column) and, as a multiset, exactly one row per live '
               'source row that satisfies the WHERE; every value equals the source value or is NULL when the source is; strings are copies the result owns; the table is unchanged.']
    return done(R)


# groups: every way values can coincide, and every order between different values
def partitions(n):
    def go(i, cur):
        if i == n:
            yield tuple(cur)
            return
        for c in range(max(cur, default=-1) + 2):
            yield from go(i + 1, cur + [c])
    return list(go(0, []))


def val(ty, k, ranks):
    if ty == 'CT_TINYINT':
        return C(k % 2)
    v = strv('g%d' % k) if ty == 'CT_VARCHAR' else ('s', 'g.%s.%d' % (ty, k))
    ranks[v] = k
    return v


def grouping(R):
    global _P
    I._P = _P = frontend.load()
    jobs = []
    for ty in TYPES:
        for parts in partitions(4):
            for flip in (0, 1):
                for null in (None, 0, 1):
                    m = max(parts)
                    if null is not None and null > m:
                        continue
                    if ty == 'CT_TINYINT' and m > 1 or flip and m == 0 or null is not None and ty == 'CT_TINYINT' and m > 2:
                        continue
                    ranks = {}
                    cols = [Col('CT_INTEGER', 'id'), Col(ty, 'g'), Col('CT_VARCHAR', 'note')]
                    for blocks in (['llll'], ['ll', 'll'], ['ldll', 'l']):
                        rows, k = [], 0
                        for b in blocks:
                            bl = []
                            for ch in b:
                                p = parts[k] if ch == 'l' else 0
                                x = None if null == p else val(ty, (m - p) if flip else p, ranks)
                                nm = 'r%d%s' % (k, ch)
                                bl.append({'vals': [('s', nm), x, strv(nm)], 'deleted': ch == 'd'})
                                k += ch == 'l'
                            rows.append(bl)
                        tabs = {'A': dict(cols=cols, blocks=rows)}
                        for items in ([('n', 'g')], [('count',)], [('n', 'g'), ('count',)], [('count',), ('n', 'g')], [('n', 'note'), ('n', 'g'), ('count',)]):
                            if len(blocks) > 1 and len(items) == 1 or blocks[0] == 'ldll' and len(items) == 3:
                                continue
                            jobs.append(('GROUP BY a %s column%s @%s' % (ty[3:], ' with COUNT' if ('count',) in items else '', parts),
                                         dict(tabs=tabs, q=q(items, ['A'], None, [('n', 'g')]), ranks=ranks)))
    jobs = thin(R, jobs, 2)
    R.count('grouped statements', len(jobs))
    # two grouping columns
    k0 = len(jobs)
    for ta, tb in (('CT_INTEGER', 'CT_VARCHAR'), ('CT_VARCHAR', 'CT_DOUBLE'), ('CT_DATE', 'CT_INTEGER')):
        for pa in partitions(3):
            for pb in partitions(3):
                ranks = {}
                cols = [Col(ta, 'g'), Col('CT_INTEGER', 'id'), Col(tb, 'h')]
                rows = [{'vals': [val(ta, a, ranks), ('s', 'i%d' % k), val(tb, 10 + b, ranks)], 'deleted': False} for k, (a, b) in enumerate(zip(pa, pb))]
                tabs = {'A': dict(cols=cols, blocks=[rows])}
                jobs.append(('GROUP BY two columns with COUNT @%s%s' % (pa, pb),
                             dict(tabs=tabs, q=q([('n', 'h'), ('count',), ('n', 'g')], ['A'], None, [('n', 'g'), ('n', 'h')]), ranks=ranks)))
    R.count('statements with two grouping columns', len(jobs) - k0)
    k0 = len(jobs)
    for n in (1, 2, 9, 17, 20):
        cols = layout(mixed(n, 1))
        per = min(60, 4096 // row_size(_P, cols))
        for blocks in ([], ['d'], ['l'], ['lll'], ['ldl', 'dl'], ['dd', 'll'], ['l' * per, 'll'], ['l' * per, 'd' * 2, 'l']):
            for w in wheres(cols)[:4]:
                if len(blocks) == 3 and n < 17:
                    continue
                jobs.append(('COUNT(*)%s @%d columns, blocks %s' % (' WHERE' if w else '', n, [len(b) for b in blocks]),
                             dict(tabs={'A': dict(cols=cols, blocks=[mk_rows(cols, b, 'a%d_' % k, fill(n, 'last')) for k, b in enumerate(blocks)])},
                                  q=q([('count',)], ['A'], w))))
    # groups that span more rows than one block of the working table holds
    for n in (17, 20):
        cols = layout(mixed(n, 1))
        per = 4096 // row_size(_P, cols)
        g = [i for i, c in enumerate(cols) if c.ty == 'CT_INTEGER'][0]
        for period in (1, 2, 7, per + 1):
            ranks = {}
            blocks = [mk_rows(cols, 'l' * per, 'a', fill(n, 'none')), mk_rows(cols, 'l' * 4, 'b', fill(n, 'none'))]
            k = 0
            for b in blocks:
                for r in b:
                    r['vals'][g] = val('CT_INTEGER', k % period, ranks)
                    k += 1
            jobs.append(('GROUP BY over several blocks @%d columns, %d groups' % (n, period),
                         dict(tabs={'A': dict(cols=cols, blocks=blocks)}, q=q([('n', cols[g].name), ('count',)], ['A'], None, [('n', cols[g].name)]), ranks=ranks)))
    R.count('counts without groups and over several blocks', len(jobs) - k0)
    execute(R, jobs, one)
    import checks.families as families
    from checks.text import run_text
    run_text(R, families.groupings(R.tier), 'statements analysed from their text')
    R.need('grouped statements', 500)
    R.rules = ['GROUP BY gives one row per distinct combination of the grouping columns (NULLs form one group), whatever the order of the rows and the blocks they lie in; '
               'COUNT(*) is the number of rows in the group, and every other selected column has the value some row of the group has. Without GROUP BY, COUNT(*) is one row: the number of rows selected.']
    return done(R)


def joins(R):
    global _P
    I._P = _P = frontend.load()
    jobs = []
    for ty in TYPES:
        for na, nb in ((1, 1), (2, 2), (2, 3), (3, 1)):
            for parts in partitions(na + nb):
                for null in (None, 0, 1):
                    m = max(parts)
                    if null is not None and null > m:
                        continue
                    if ty == 'CT_TINYINT' and m > 1 or na + nb > 4 and (null is not None or ty not in ('CT_INTEGER', 'CT_VARCHAR')):
                        continue
                    ranks = {}
                    ca = [Col('CT_VARCHAR', 'a1'), Col(ty, 'a2')]
                    cb = [Col(ty, 'b1'), Col('CT_INTEGER', 'b2'), Col('CT_VARCHAR', 'b3')]
                    A = [{'vals': [strv('A%d' % k), None if null == parts[k] else val(ty, parts[k], ranks)], 'deleted': False} for k in range(na)]
                    B = [{'vals': [None if null == parts[na + k] else val(ty, parts[na + k], ranks), ('s', 'B%d' % k), strv('B%d' % k)], 'deleted': False} for k in range(nb)]
                    A.insert(na // 2, {'vals': [strv('Ad'), val(ty, 0, ranks)], 'deleted': True})
                    B.insert(1, {'vals': [val(ty, 0, ranks), ('s', 'Bd'), strv('Bd')], 'deleted': True})
                    if na + nb == 2:
                        shapesA = [[A], [[], A][1:]]
                    tabs = {'A': dict(cols=ca, blocks=[A]), 'B': dict(cols=cb, blocks=[B] if nb < 3 else [B[:2], B[2:]])}
                    forms = [q([('*',)], ['A', 'B'], None, None, ('eq', ('f', 'A', 'a2'), ('f', 'B', 'b1'))),
                             q([('n', 'b3'), ('n', 'a1')], ['B', ('A', 'x')], ('null', ('n', 'a1'), 1), None, ('eq', ('f', 'B', 'b1'), ('f', 'x', 'a2'))),
                             q([('n', 'a1'), ('f', 'B', 'b2')], ['A', 'B'], ('eq', ('n', 'a2'), ('n', 'b1')))]
                    for fi, f in enumerate(forms if na + nb <= 4 else forms[:1]):
                        jobs.append(('%s on a %s column @%d x %d rows %s' % (('JOIN', 'JOIN of an aliased table', 'FROM two tables WHERE')[fi], ty[3:], na, nb, parts),
                                     dict(tabs=tabs, q=f, ranks=ranks)))
    R.count('joins by equality pattern', len(jobs))
    k0 = len(jobs)
    for n in (2, 8, 9, 17):
        ca = [Col(c.ty, 'a' + c.name, c.prec if c.ty == 'CT_VARCHAR' else None) for c in layout(mixed(n, 0))]
        cb = [Col(c.ty, 'b' + c.name, c.prec if c.ty == 'CT_VARCHAR' else None) for c in layout(mixed(n + 1, 2))]
        for ba, bb in (([], ['l']), (['l'], []), (['d'], ['ll']), (['ll', 'd', 'l'], ['dl', 'l']), (['llll'], ['llllll'])):
            for at in ('none', 'diag', 'all'):
                for w in (None, ('null', ('n', ca[-1].name), 1), ('or', ('null', ('n', cb[0].name), 0), ('null', ('n', ca[0].name), 0))):
                    for items in ([('*',)], [('n', cb[-1].name), ('n', ca[0].name)], [('count',)]):
                        if items[0][0] == 'count' and at != 'diag':
                            continue
                        tabs = {'A': dict(cols=ca, blocks=[mk_rows(ca, b, 'a%d_' % k, fill(n, at)) for k, b in enumerate(ba)]),
                                'B': dict(cols=cb, blocks=[mk_rows(cb, b, 'b%d_' % k, fill(n + 1, at)) for k, b in enumerate(bb)])}
                        jobs.append(('FROM two tables @%d+%d columns, blocks %s %s, NULLs %s' % (n, n + 1, ba, bb, at), dict(tabs=tabs, q=q(items, ['A', 'B'], w))))
    R.count('products of two tables', len(jobs) - k0)
    execute(R, jobs, one)
    import checks.families as families
    from checks.text import run_text
    run_text(R, families.joins(R.tier), 'statements analysed from their text')
    R.need('joins by equality pattern', 400)
    R.rules = ['A SELECT over two tables (JOIN .. ON a = b, or a list of tables with WHERE) has one row for every pair of live rows that satisfies ON and WHERE, with the values of both rows; both tables are unchanged.']
    return done(R)


def result_of(kw):
    """a result table as a SELECT leaves it: every block but the last as full as the writer makes it"""
    E = I.engine(SelEngine)
    st = E.begin()
    cols = kw['cols']
    T = E.mk_table(st, 'early_mat_tbl', cols, kw['blocks'])
    E.setf(st, E.output, 'query_output', 'results.table', ('p', T.oid, (), 0))
    msgs = []
    try:
        msgs = [(m, None, None) for m in walk_cursor(E, st, T, kw['blocks'])]
    except (BadHeap, PathEnd) as e:
        msgs = [('the cursor damages the result: %s' % e, None, None)]
    return E, msgs + [('memory: ' + m, l, t) for m, l, t in E.bads]


def one_result(job):
    return guarded(result_of if 'tabs' not in job[1] else scenario, *job)


def cursor(R):
    global _P
    I._P = _P = frontend.load()
    jobs = thin(R, single(R, True), 9)
    R.count('results of SELECT walked', len(jobs))
    k0 = len(jobs)
    page = _P.field('datablock', 'data')['s']
    for n in (1, 2, 3, 5, 8, 9, 13, 16, 17, 20, 29, 33, 61, 100, 125, 128) if R.tier == 'quick' else range(1, 129):
        for tys in (mixed(n), ['CT_INTEGER'] * n, ['CT_TINYINT'] * (n - 1) + ['CT_INTEGER']):
            cols = layout(tys)
            rs = row_size(_P, cols)
            full = max(k for k in range(1, page // rs + 1) if (k - 1) * rs + rs < page or k == 1)
            for fills in ([], [0], [1], [full - 1], [full], [full, 1], [full, full], [full, full, 2]):
                if full > 40 and R.tier == 'quick' and len(fills) > 1 and n > 1:
                    continue
                jobs.append(('a result of %d blocks @%d columns, %s rows' % (len(fills), n, fills),
                             dict(cols=cols, blocks=[mk_rows(cols, 'l' * f, 'r%d_' % k) for k, f in enumerate(fills)])))
    R.count('stored results walked', len(jobs) - k0)
    execute(R, jobs, one_result)
    R.need('stored results walked', 100)
    R.rules = ['query_cur_step stops at every row of the result exactly once, in block and slot order, and then reports the end, also when asked again; '
               'on every row query_column_int64 reads the value stored in the asked column.']
    return done(R)


def done(R):
    R.assumptions = ['The statement tree has the shape the statement builder gives it; libc string functions behave as documented; tables joined have no column name in common (the semantic phase rejects those).']
    return ('Abstract interpretation of the optimiser and executor of SELECT over enumerated table shapes, statement shapes and patterns of coinciding values; the values themselves '
            'are unknown: %d scenarios compared with a reference model.' % R.obligations)
