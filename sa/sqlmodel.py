"""A reference database of unknown values, statements written against it, and the comparison with the analysed one."""
import itertools
from pipe import *
from pipe import PipeEngine, Session, Fork

SQLTY = {'CT_INTEGER': 'INTEGER', 'CT_DOUBLE': 'DOUBLE', 'CT_TINYINT': 'TINYINT', 'CT_DATE': 'DATE', 'CT_DATETIME': 'DATETIME', 'CT_VARCHAR': 'VARCHAR(%d)'}
# spelled representatives in increasing order; numbers stand for unknown numbers in the same order
POOL = {
    'CT_INTEGER': ['-9007199254740993', '-700123', '600456', '700789', '9223372036854775807'],
    'CT_DOUBLE': ['-70012.5', '-0.000375', '12345.675', '70012.25', '9.75e20'],
    'CT_TINYINT': ['FALSE', 'TRUE'],
    'CT_VARCHAR': ["'Zed'", "'abc'", "'abcd'", "'b c_9'", "'zzzz, (x)'"],
    'CT_DATE': ["'1999-12-31'", "'2020-02-29'", "'2021-03-04'", "'2021-11-12'", "'2035-01-01'"],
    'CT_DATETIME': ["'1999-12-31 23:59:59'", "'2020-02-29 10:20:30'", "'2021-03-04 00:00:01'", "'2021-03-04 10:00:00'", "'2035-01-01 05:06:07'"],
}
FMTOF = {'CT_DATE': b'%Y-%m-%d', 'CT_DATETIME': b'%Y-%m-%d %H:%M:%S'}
OPS = {'=': lambda a, b: a == b, '<>': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


class Lit:
    """a literal: its spelling, the value a column then holds, its place among the values of its type"""
    __slots__ = ('ty', 'sql', 'val', 'rank')

    def __init__(self, ty, sql, val, rank):
        self.ty, self.sql, self.val, self.rank = ty, sql, val, rank

    def __repr__(self):
        return self.sql


def lit(ty, i):
    s = POOL[ty][i]
    if ty in ('CT_INTEGER', 'CT_DOUBLE'):
        return Lit(ty, s, ('s', ty[3:] + str(i)), i)
    if ty == 'CT_TINYINT':
        return Lit(ty, s, C(i), i)
    t = ('x', 'cstr', s[1:-1].encode())
    if ty == 'CT_VARCHAR':
        return Lit(ty, s, t, i)
    return Lit(ty, s, ('x', 'mktime', ('x', 'tm', t, ('x', 'cstr', FMTOF[ty]), C(1))), i)


def string(text, quote="'"):
    return Lit('CT_VARCHAR', quote + text + quote, ('x', 'cstr', text.encode()), None)


def npool(ty):
    return len(POOL[ty])


def teach(E):
    """tell the engine which spelling stands for which unknown value, and how they compare"""
    for ty in POOL:
        for i in range(npool(ty)):
            l = lit(ty, i)
            if ty in ('CT_INTEGER', 'CT_DOUBLE'):
                E.literal(l.sql.encode(), l.val)
            if ty not in ('CT_VARCHAR', 'CT_TINYINT'):
                E.ranks[l.val] = i
        # dates of the other format read from the same text never come up: each is its own value


class Tab:
    def __init__(self, name, cols):
        self.name, self.cols, self.rows = name, cols, []

    def idx(self, n):
        return [c.name for c in self.cols].index(n)


def coldef(c):
    t = SQLTY[c.ty]
    return '%s %s' % (c.name, t % c.prec if '%' in t else t)


def create(name, cols):
    return 'CREATE TABLE %s (%s);' % (name, ', '.join(coldef(c) + ('' if c.nullable else ' PRIMARY KEY' if c.kw.get('primary_key') else ' NOT NULL') + (' UNIQUE' if c.kw.get('unique') and not c.kw.get('primary_key') else '') for c in cols))


def insert(name, rows, cols=None):
    return 'INSERT INTO %s%s VALUES %s;' % (name, ' (%s)' % ', '.join(cols) if cols else '', ', '.join('(%s)' % ', '.join('NULL' if v is None else v.sql for v in r) for r in rows))


# ------------------------------------------------------------ conditions
PREC = {'or': 1, 'xor': 2, 'and': 3}


def csql(c, outer=0, full=False):
    k = c[0]
    if k in PREC:
        # the parser associates to the left
        a, b = csql(c[1], PREC[k], full), csql(c[2], PREC[k] + 1, full)
        s = '%s %s %s' % (a, k.upper(), b)
        return '(%s)' % s if full or outer > PREC[k] else s
    if k == 'cmp':
        s = '%s %s %s' % (osql(c[2]), c[1], osql(c[3]))
    elif k == 'null':
        s = '%s IS %sNULL' % (osql(c[1]), 'NOT ' if c[2] else '')
    else:
        s = '%s %sIN (%s)' % (osql(c[1]), 'NOT ' if c[3] else '', ', '.join(osql(x) for x in c[2]))
    return '(%s)' % s if full else s


def osql(o):
    return 'NULL' if o is None else o if isinstance(o, str) else o.sql


def oval(o, env):
    """comparable value of an operand: None for NULL"""
    if o is None:
        return None
    if isinstance(o, str):
        return key(env[o])
    return key(o)


def key(l):
    return None if l is None else l.val[2] if l.ty == 'CT_VARCHAR' else l.rank


def truth(c, env):
    k = c[0]
    if k == 'and':
        return truth(c[1], env) and truth(c[2], env)
    if k == 'or':
        return truth(c[1], env) or truth(c[2], env)
    if k == 'xor':
        return truth(c[1], env) != truth(c[2], env)
    if k == 'null':
        return (oval(c[1], env) is None) != bool(c[2])
    if k == 'cmp':
        a, b = oval(c[2], env), oval(c[3], env)
        return a is not None and b is not None and OPS[c[1]](a, b)
    a = oval(c[1], env)
    vs = [oval(x, env) for x in c[2]]
    if a is None:
        return False
    if c[3]:
        return all(v is not None and v != a for v in vs)
    return any(v == a for v in vs)


# ------------------------------------------------------------ reading the analysed database
class Db(Session):
    def __init__(self, E, P):
        super().__init__(E, P)
        self.model = {}
        teach(E)

    def field(self, p, rec, f):
        return self.E.getf(self.st, p, rec, f)

    def table(self, name):
        E, st = self.E, self.st
        p = E.text_obj(st, name.encode())
        outs = E.run_root(self.P.fn('database_table_get'), [('p', self.db, (), 0), p], st.copy())
        if len(outs) != 1:
            raise BadHeap('looking a table up depends on stored values')
        rv = outs[0][1].res(outs[0][0])
        st.mem.pop(p[1], None)
        return rv if rv[0] == 'p' else None

    def columns(self, t):
        E, P, st = self.E, self.P, self.st
        n = E.getf(st, t, 'table', 'column_count')
        if n[0] != 'c' or not 0 <= n[1] <= 128:
            raise BadHeap('a table has %s columns' % (n,))
        base, cs = P.off('table', 'columns'), P.records['column']['size']
        by = {P.enum(x): x for x in TYPES}
        out = []
        for i in range(n[1]):
            cp = ('p', t[1], (), t[3] + base + i * cs)
            ty = E.getf(st, cp, 'column', 'type')
            pr = E.getf(st, cp, 'column', 'precision')
            nm = E.cstr(st, ('p', t[1], (), cp[3] + P.off('column', 'name')))
            if nm is None or ty[0] != 'c' or ty[1] not in by or pr[0] != 'c':
                raise BadHeap('column %d is unreadable' % (i + 1))
            c = Col(by[ty[1]], nm.decode(errors='replace'), pr[1])
            c.flags = {f: E.getf(st, cp, 'column', f) for f in ('nullable', 'unique', 'auto_inc', 'primary_key', 'indexed', 'is_count')}
            out.append(c)
        return out

    def rows(self, t, cols):
        """live rows: list of [(null, value, raw)]"""
        E, st = self.E, self.st
        T = type('T', (), {})()
        T.oid, T.cols, T.rs = t[1], cols, row_size(self.P, cols)
        T.n = self.P.field('datablock', 'data')['s'] // T.rs
        out, owner = [], {}
        for b in E.walk_blocks(st, T):
            for i in range(T.n):
                e, d, v = E.read_slot(st, b, i * T.rs, cols)
                if e:
                    break
                if d:
                    continue
                for c, (null, val, raw) in zip(cols, v):
                    if c.ty == 'CT_VARCHAR' and not null:
                        o = st.mem.get(raw[1]) if raw[0] == 'p' else None
                        if o is None or o.kind != 'heap' or o.freed is not None or raw[2] or raw[3]:
                            raise BadHeap('a row holds a string it does not own')
                        if raw[1] in owner:
                            raise BadHeap('two values share the storage of a string')
                        owner[raw[1]] = 1
                        if st.res(o.size)[0] == 'c' and st.res(o.size)[1] < c.prec:
                            raise BadHeap('a string has less storage than its column declares')
                out.append(v)
        return out

    # -------------------------------------------------------- comparing
    def same(self, name):
        """difference between the analysed table and the reference, or None"""
        t = self.table(name)
        m = self.model.get(name)
        if m is None:
            return 'table %s exists though nothing created it' % name if t else None
        if t is None:
            return 'table %s is gone' % name
        cols = self.columns(t)
        d = self.same_columns(cols, m.cols)
        if d:
            return 'table %s: %s' % (name, d)
        got = self.rows(t, cols)
        if len(got) != len(m.rows):
            return 'table %s holds %d live rows instead of %d' % (name, len(got), len(m.rows))
        for i, (g, w) in enumerate(zip(got, m.rows)):
            for c, (null, val, raw), x in zip(cols, g, w):
                d = differs(null, val, x)
                if d:
                    return 'table %s, row %d, %s column %s %s' % (name, i + 1, c.ty[3:], c.name, d)
        return None

    def same_columns(self, got, want):
        if [c.name for c in got] != [c.name for c in want]:
            return 'its columns are %s instead of %s' % ([short(c.name) for c in got][:9], [short(c.name) for c in want][:9])
        for g, w in zip(got, want):
            if g.ty != w.ty or g.prec != w.prec:
                return 'column %s is %s(%d) instead of %s(%d)' % (short(w.name), g.ty[3:], g.prec, w.ty[3:], w.prec)
            for f, x in g.flags.items():
                y = int(w.nullable) if f == 'nullable' else int(w.kw.get(f, 0))
                if x != C(y) and not (y and x[0] == 'c' and x[1]):
                    return 'column %s is %s%s' % (short(w.name), '' if x != C(0) else 'not ', f)
        return None

    def leaks(self, before, out):
        """storage allocated since `before` that nothing of the database or the result refers to"""
        E, st = self.E, self.st
        roots = {self.db} | ({out[1]} if out and out[0] == 'p' else set())
        seen, todo = set(), list(roots)
        while todo:
            k = todo.pop()
            if k in seen or k not in st.mem:
                continue
            seen.add(k)
            for (v, s, c) in st.mem[k].cells.values():
                v = st.res(v)
                if v[0] == 'p' and not isinstance(v[1], tuple):
                    todo.append(v[1])
        return [k for k, o in st.mem.items() if not isinstance(k, tuple) and o.kind == 'heap' and o.freed is None and k not in seen and k not in before
                and o.tag not in ('text', 'libc', 'arg')]

    # -------------------------------------------------------- statements
    def execute(self, text):
        """(status name, affected, message, output pointer)"""
        E, P = self.E, self.P
        self.before = {k for k, o in self.st.mem.items() if isinstance(k, tuple) or o.freed is None}
        o = self.run(text)
        if o[0] != 'p':
            return 'none', None, b'', o
        names = {P.enum(n): n for n in ('ST_OK_WITH_RESULTS', 'ST_OK_EXECUTED', 'ST_ERROR')}
        s = self.field(o, 'query_output', 'status')
        msg = E.cstr(self.st, ('p', o[1], (), o[3] + P.off('query_output', 'error.message')))
        return names.get(s[1] if s[0] == 'c' else None, 'unknown'), self.field(o, 'query_output', 'n_rows_aff'), msg, o

    def release(self, o):
        """query_free, as every caller has to do"""
        self.one(self.P.fn('query_free'), [o])
        gone = [k for k, b in self.st.mem.items() if not isinstance(k, tuple) and (b.freed is not None or b.tag == 'text') and k != self.db]
        live = set()
        for k, b in self.st.mem.items():
            if b.freed is None or isinstance(k, tuple):
                for (v, s, c) in b.cells.values():
                    if v[0] == 'p':
                        live.add(v[1])
        for k in gone:
            if k not in live:
                del self.st.mem[k]

    def result(self, o):
        """(columns, rows) of a result; rows in order"""
        t = self.field(o, 'query_output', 'results.table')
        if t[0] != 'p' or t[1] not in self.st.mem or self.st.mem[t[1]].freed is not None:
            raise BadHeap('there is no result table')
        cols = self.columns(t)
        return t, cols, self.rows(t, cols)


def tnorm(v):
    """a floating-point term, with the operands of commutative operations in one order"""
    if not isinstance(v, tuple) or v[0] != 'x':
        return v
    a = tuple(tnorm(x) for x in v[2:])
    if v[1] == 'fneg':
        return tnorm(('x', 'fmul', a[0], ('d', -1)))
    if v[1] in ('fadd', 'fmul'):
        a = tuple(sorted(a, key=lambda x: repr(('d', float(x[1])) if x[0] == 'd' else x)))
    a = tuple(('d', float(x[1])) if isinstance(x, tuple) and x[0] == 'd' else x for x in a)
    return ('x', v[1]) + a


def differs(null, val, x):
    if x is None or isinstance(x, Lit) and x.val is None:
        return None if null else 'holds %s instead of NULL' % vis(val)
    want = x.val if isinstance(x, Lit) else x
    if null:
        return 'is NULL instead of %s' % vis(want)
    if isinstance(x, Lit) and x.rank == 'computed' and tnorm(val) == tnorm(want):
        return None
    return None if val == want else 'holds %s instead of %s' % (vis(val), vis(want))


def vis(v):
    if isinstance(v, Lit):
        return v.sql
    if v[0] == 'x' and v[1] == 'cstr':
        return repr(v[2].decode(errors='replace'))[:60]
    if v[0] == 'c':
        return str(v[1])
    if v[0] == 's':
        return str(v[1])
    if v[0] == 'x' and v[1] == 'mktime' and v[2][0] == 'x' and v[2][1] == 'tm':
        return 'the time of %s' % vis(v[2][2])
    return str(v)[:80]


def short(n):
    return n if len(n) < 40 else n[:12] + '..' + n[-8:]
