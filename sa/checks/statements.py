"""CREATE TABLE and everything about statements that is not the evaluation of rows: refusals, spellings, messages, storage."""
from checks.text import *
from checks.families import *
import checks.text as TX

TYSQL = {'INT': 'CT_INTEGER', 'INTEGER': 'CT_INTEGER', 'INT4': 'CT_INTEGER', 'TINYINT': 'CT_TINYINT', 'DOUBLE': 'CT_DOUBLE', 'DATE': 'CT_DATE', 'DATETIME': 'CT_DATETIME'}
ATTR = {'NOT NULL': {'nullable': 0}, 'NULL': {}, 'AUTO_INCREMENT': {'auto_inc': 1}, 'UNIQUE': {'unique': 1}, 'PRIMARY KEY': {'primary_key': 1, 'nullable': 0, 'unique': 1}}
EMPTY = (('none',), [])


def column(name, sqlty, attrs=()):
    """(column, its definition)"""
    kw = {}
    for a in attrs:
        kw.update(ATTR[a])
    m = re_varchar(sqlty)
    c = Col('CT_VARCHAR' if m else TYSQL[sqlty], name, m or None)
    c.nullable = bool(kw.pop('nullable', 1))
    c.kw = dict(kw)
    return c, ' '.join([name, sqlty] + list(attrs))


def re_varchar(t):
    import re
    m = re.match(r'VARCHAR(?:ACTER)?\s*\(\s*(\d+)\s*\)$', t)
    return int(m.group(1)) if m else None


def made(table, defs, extra=(), ine=False):
    """CREATE of the columns with table-level definitions placed where `extra` says: [(position, text, {column: flags})]"""
    cols = [c for c, d in defs]
    parts = [d for c, d in defs]
    for pos, text, flags in sorted(extra, key=lambda e: -e[0]):
        parts.insert(pos, text)
    for pos, text, flags in extra:
        for c in cols:
            if c.name in flags:
                f = dict(flags[c.name])
                if 'nullable' in f:
                    c.nullable = bool(f.pop('nullable'))
                c.kw.update(f)
    return s_create(table, cols, 'CREATE TABLE %s%s (%s);' % ('IF NOT EXISTS ' if ine else '', table, ', '.join(parts)))


PK = {'primary_key': 1, 'nullable': 0, 'unique': 1}
IX = {'indexed': 1}


def creates(tier):
    jobs = []
    out = []
    types = list(TYSQL) + ['VARCHAR(1)', 'VARCHAR(20)', 'VARCHAR(255)', 'VARCHAR(256)', 'VARCHAR(1000)', 'VARCHAR(4096)', 'VARCHAR(9999)']
    for t in types:
        out.append(made('A', [column('c', t)]))
        out.append(made('A', [column('x', 'INT'), column('c', t), column('y', 'DOUBLE')]))
    attrs = [()] + [(a,) for a in ATTR] + [('NOT NULL', 'UNIQUE'), ('AUTO_INCREMENT', 'PRIMARY KEY'), ('UNIQUE', 'NOT NULL'), ('NULL', 'UNIQUE'), ('NOT NULL', 'AUTO_INCREMENT', 'UNIQUE'), ('PRIMARY KEY', 'AUTO_INCREMENT')]
    for i, a in enumerate(attrs):
        for t in types[i % 3::3] if tier == 'quick' else types:
            out.append(made('A', [column('a', 'INTEGER'), column('b', t, a), column('c', 'VARCHAR(7)')]))
    for i in range(len(attrs)):
        out.append(made('A', [column('c%d' % j, types[(i + j * 3) % len(types)], attrs[(i + j) % len(attrs)]) for j in range(len(attrs))]))
    jobs += jobs_of('CREATE TABLE column definitions', EMPTY, out, 30)
    out = []

    def base():
        return [column('a', 'INT'), column('b', 'VARCHAR(9)', ('UNIQUE',)), column('c', 'DATE', ('NOT NULL',)), column('d', 'DOUBLE')]
    for pos in range(5):
        for cs in (['a'], ['d'], ['a', 'c'], ['b', 'd', 'a']):
            out.append(made('A', base(), [(pos, 'PRIMARY KEY (%s)' % ', '.join(cs), {c: PK for c in cs})]))
            out.append(made('A', base(), [(pos, 'INDEX (%s)' % ', '.join(cs), {c: IX for c in cs})]))
        out.append(made('A', base(), [(pos, 'PRIMARY KEY (a)', {'a': PK}), (4, 'INDEX (b, d)', {'b': IX, 'd': IX})]))
        out.append(made('A', base(), [(pos, 'INDEX (a, b)', {'a': IX, 'b': IX}), (4, 'PRIMARY KEY (c)', {'c': PK})]))
        out.append(made('A', base(), [(pos, 'INDEX (a)', {'a': IX}), (4, 'PRIMARY KEY (a, d)', {'a': PK, 'd': PK})]))
        out.append(made('A', base(), [(pos, 'INDEX (a)', {'a': IX}), (pos, 'INDEX (c)', {'c': IX})]))
    # keys over columns whose names begin alike
    like = ['ab', 'a', 'A', 'abc', 'a_', 'n' * 100 + 'x', 'n' * 100, 'n' * 126, 'b', 'Ab']
    for i, n in enumerate(like):
        m = like[(i + 3) % len(like)]
        for k, d in (('PRIMARY KEY', PK), ('INDEX', IX)):
            out.append(made('A', [column(x, 'INT') for x in like], [(i % 3 * 5, '%s (%s)' % (k, n), {n: d})]))
            out.append(made('A', [column(x, 'INT') for x in reversed(like)], [(len(like), '%s (%s, %s)' % (k, m, n), {n: d, m: d})]))
    jobs += jobs_of('CREATE TABLE keys and indexes', EMPTY, out, 30)
    out = []
    for n in (1, 2, 9, 17, 64, 127, 128):
        out.append(made('A', [column('c%d' % i, types[i % len(types)], attrs[i % len(attrs)]) for i in range(n)]))
    long = 'n' + 'ame_0' * 24
    for k in (1, 2, 50, 100, 126):
        out.append(made((long * 2)[:k], [column('q', 'INT'), column((long * 2)[:k], 'VARCHAR(5)')]))
    out.append(made('A', [column(x, 'INT') for x in ('a', 'A', 'aa', 'a_', 'a1', 'AA', 'aA')]))
    out.append(made('A', [column(long[:100] + x, 'INT') for x in 'abc']))
    jobs += jobs_of('CREATE TABLE names and sizes', EMPTY, out, 4)
    A = mixed_cols()
    su = (('one',), [('A', A, pool_rows(A)[:3])])
    B = lambda name: made(name, [column('k', 'INT'), column('v', 'VARCHAR(30)', ('NOT NULL',))])
    rows = [[lit('CT_INTEGER', 1), lit('CT_VARCHAR', 2)], [None, lit('CT_VARCHAR', 0)]]
    seqs = [[B('B'), s_insert('B', rows), B('C'), s_insert('C', rows[:1]), s_delete('B', ('null', 'k', False))],
            [s_create('A', None, 'CREATE TABLE IF NOT EXISTS A (z INT);')],
            [made('Z', [column('z', 'INT')], ine=True), s_insert('Z', [[lit('CT_INTEGER', 3)]]), s_create('Z', None, 'CREATE TABLE IF NOT EXISTS Z (q VARCHAR(3), z INT);'), s_select(['z'], [('Z', None)])],
            [s_refuse('CREATE TABLE A (z INT);')], [s_refuse('CREATE TABLE B (z INT, y DATE, z INT);')], [s_refuse('CREATE TABLE B (z INT, y DATE, z VARCHAR(3));'), B('B')],
            [s_refuse('CREATE TABLE B (z INT, PRIMARY KEY (y));')], [s_refuse('CREATE TABLE B (z INT, INDEX (z, y));'), B('B')], [s_refuse('CREATE TABLE B (INDEX (y));')],
            [B('a'), s_insert('a', rows), B('AA'), s_select(['k'], [('a', None)]), s_insert('A', pool_rows(A)[3:5])],
            [s_refuse('CREATE TABLE B (%s);' % ', '.join('c%d INT' % i for i in range(129)))],
            [s_refuse('CREATE TABLE B (k INT, s VARCHAR(%s));' % n) for n in ('0', '-1', '10000', '20000', '-90000')] + [B('B')], [s_refuse('CREATE TABLE B (s VARCHAR(%s));' % n) for n in ('4294967297', '-30000', '99999')],
            [B('T%d' % i) for i in range(20)] + [s_insert('T7', rows)]]
    jobs += jobs_of('CREATE TABLE among other tables', su, seqs, 3)
    return jobs


# ------------------------------------------------------------ statements that have to be refused
WRONG = {'5': ('CT_INTEGER',), '-7.5': ('CT_DOUBLE',), 'TRUE': ('CT_TINYINT',), "'abc'": ('CT_VARCHAR',), "'2020-13-45'": ('CT_VARCHAR',), "'2021-03-04'": ('CT_VARCHAR', 'CT_DATE'), "'TRUE'": ('CT_VARCHAR',), "'5'": ('CT_VARCHAR',), "''": ('CT_VARCHAR',)}


def strict_table():
    """every type once nullable and once not"""
    cols = []
    for i, ty in enumerate(('CT_VARCHAR', 'CT_INTEGER', 'CT_TINYINT', 'CT_DOUBLE', 'CT_DATE', 'CT_DATETIME')):
        p = 10 if ty == 'CT_VARCHAR' else None
        cols += [Col(ty, 'n%d' % i, p), Col(ty, 'm%d' % i, p)]
        cols[-1].nullable = False
    rows = [[lit(c.ty, k) for c in cols] for k in (0, 1)] + [[lit(c.ty, 1) if not c.nullable else None for c in cols]]
    return (('S',), [('A', cols, rows), ('B', [Col('CT_INTEGER', 'b')], [[lit('CT_INTEGER', 1)]])])


def wrong_values(cols):
    """statements with one value of another type than its column"""
    ins, upd, whe = [], [], []
    for j, c in enumerate(cols):
        for w, ok in WRONG.items():
            if c.ty in ok:
                continue
            vals = [lit(x.ty, 1).sql for x in cols]
            vals[j] = w
            ins.append('INSERT INTO A VALUES (%s);' % ', '.join(vals))
            good = ', '.join(lit(x.ty, 0).sql for x in cols)
            ins.append('INSERT INTO A VALUES (%s), (%s);' % (good, ', '.join(vals)))
            k = [x for x in range(len(cols)) if x == j or not cols[x].nullable]
            ins.append('INSERT INTO A (%s) VALUES (%s);' % (', '.join(cols[x].name for x in k), ', '.join(vals[x] for x in k)))
            upd.append('UPDATE A SET %s = %s;' % (c.name, w))
            upd.append('UPDATE A SET %s = %s, %s = %s WHERE n1 = 5;' % (cols[j - 1].name, lit(cols[j - 1].ty, 0).sql, c.name, w))
            for q in ('DELETE FROM A WHERE %s;', 'UPDATE A SET m1 = 3 WHERE %s;', 'SELECT n1 FROM A WHERE %s;'):
                whe += [q % ('%s = %s' % (c.name, w)), q % ('%s <> %s' % (w, c.name)), q % ('%s IN (%s, %s)' % (c.name, lit(c.ty, 0).sql, w)), q % ('%s NOT IN (%s)' % (c.name, w)), q % ('n1 = 5 AND %s = %s' % (c.name, w))]
    return ins, upd, whe


def refusals(tier):
    jobs = []
    su = strict_table()
    cols = su[1][0][1]
    names = [c.name for c in cols]
    ins, upd, whe = wrong_values(cols)
    part = (lambda l, k: [x for i, x in enumerate(l) if i * 7 % k < 2]) if tier == 'quick' else (lambda l, k: l)
    jobs += jobs_of('a value of another type in INSERT', su, [s_refuse(q) for q in part(ins, 5)], 20)
    jobs += jobs_of('a value of another type in UPDATE', su, [s_refuse(q) for q in part(upd, 4)], 20)
    jobs += jobs_of('a value of another type in WHERE', su, [s_refuse(q) for q in part(whe, 23)], 20)
    out = []
    good = [lit(c.ty, 0).sql for c in cols]
    for j, c in enumerate(cols):
        if c.nullable:
            continue
        v = list(good)
        v[j] = 'NULL'
        out += ['INSERT INTO A VALUES (%s);' % ', '.join(v), 'INSERT INTO A VALUES (%s), (%s);' % (', '.join(good), ', '.join(v)),
                'INSERT INTO A (%s) VALUES (%s);' % (', '.join(n for n in names if n != c.name), ', '.join(g for n, g in zip(names, good) if n != c.name)),
                'UPDATE A SET %s = NULL;' % c.name, 'UPDATE A SET n1 = 3, %s = NULL WHERE n1 = 5;' % c.name]
    jobs += jobs_of('NULL in a NOT NULL column', su, [s_refuse(q) for q in out], 20)
    # one NOT NULL column at each place of the table, the column list in each order
    import itertools
    for j in range(4):
        t4 = [Col('CT_INTEGER', 'abcd'[i]) for i in range(4)]
        t4[j].nullable = False
        s4 = (('N%d' % j,), [('A', t4, [[lit('CT_INTEGER', 1)] * 4])])
        rest = [c.name for c in t4 if c.nullable]
        out = []
        for n in (1, 2, 3):
            for p in itertools.permutations(rest, n):
                out.append(s_refuse('INSERT INTO A (%s) VALUES (%s);' % (', '.join(p), ', '.join(['5', '6', 'NULL'][:n]))))
        for p in itertools.permutations('abcd'):
            out.append(s_refuse('INSERT INTO A (%s) VALUES (%s), (%s);' % (', '.join(p), '7, 8, 9, 1', ', '.join('NULL' if x == t4[j].name else '7' for x in p))))
        for n in (0, 2, 3):
            p = rest[:n] + [t4[j].name]
            out.append(s_insert('A', [[lit('CT_INTEGER', k) for k in range(n + 1)]], p))
        jobs += jobs_of('a NOT NULL column that is left out', s4, out if tier != 'quick' else out[:15] + out[15::2], 20)
    out = []
    for j, c in enumerate(cols):
        if c.ty == 'CT_VARCHAR':
            for n in (11, 12, 40, 255) if tier == 'quick' else (11, 12, 40, 255, 1000, 5000):
                v = list(good)
                v[j] = "'%s'" % ('long text ' * 500)[:n]
                out += ['INSERT INTO A VALUES (%s);' % ', '.join(v), 'UPDATE A SET %s = %s;' % (c.name, v[j]), 'INSERT INTO A VALUES (%s), (%s);' % (', '.join(good), ', '.join(v))]
    jobs += jobs_of('a string longer than its column', su, [s_refuse(q) for q in out], 12)
    g = ', '.join(good)
    out = ['INSERT INTO A VALUES (%s);' % ', '.join(good[:-1]), 'INSERT INTO A VALUES (%s, 5);' % g, 'INSERT INTO A VALUES (%s), (%s);' % (g, ', '.join(good[:-1])), 'INSERT INTO A VALUES (%s, 4), (%s);' % (g, g),
           'INSERT INTO A (%s) VALUES (%s);' % (', '.join(names), ', '.join(good[:-1])), 'INSERT INTO A (%s) VALUES (%s);' % (', '.join(names[:-1]), g), 'INSERT INTO A (n1, m1) VALUES (1, 2, 3);',
           'INSERT INTO A (n1, m1) VALUES (1), (2, 3);', 'INSERT INTO B VALUES (1), (2, 3);', 'INSERT INTO B VALUES (1, 2), (3);']
    jobs += jobs_of('another number of values than columns', su, [s_refuse(q) for q in out], 12)
    out = ['INSERT INTO C VALUES (1);', 'INSERT INTO a VALUES (%s);' % g, 'INSERT INTO AB VALUES (1);', 'DELETE FROM C;', 'DELETE FROM b;', 'DELETE FROM C WHERE b = 1;', 'UPDATE C SET b = 1;', 'UPDATE BB SET b = 1 WHERE b = 2;', 'SELECT * FROM C;', 'SELECT b FROM b;',
           'SELECT * FROM B, C;', 'SELECT * FROM B JOIN C ON b = n1;', 'SELECT C.b FROM B;', 'SELECT b FROM C AS B;', 'SELECT COUNT(*) FROM C;', 'SELECT x.b FROM B;', 'SELECT x.b FROM B AS y;']
    jobs += jobs_of('a table that does not exist', su, [s_refuse(q) for q in out], 12)
    out = []
    for n in ('zz', 'N1', 'n', 'n11', 'b', 'm'):
        out += ['INSERT INTO A (m0, m1, m2, m3, m4, m5, %s) VALUES (%s, 5);' % (n, ', '.join(g for c, g in zip(cols, good) if not c.nullable)), 'UPDATE A SET %s = 5;' % n, 'UPDATE A SET n1 = 1, %s = 5 WHERE n1 = 5;' % n, 'UPDATE A SET n1 = 5 WHERE %s = 5;' % n,
                'UPDATE A SET n1 = 5 WHERE n1 = 5 OR %s IS NULL;' % n, 'DELETE FROM A WHERE %s = 5;' % n, 'DELETE FROM A WHERE n1 = 1 AND %s IN (5);' % n, 'DELETE FROM A WHERE %s IS NOT NULL;' % n, 'DELETE FROM A WHERE 5 > %s;' % n,
                'SELECT %s FROM A;' % n, 'SELECT n1, %s FROM A;' % n, 'SELECT A.%s FROM A;' % n, 'SELECT n1 FROM A WHERE %s = 5;' % n, 'SELECT n1 FROM A WHERE A.%s IS NULL;' % n, 'SELECT n1 FROM A WHERE n1 = 5 AND %s IN (5);' % n,
                'SELECT n1 FROM A GROUP BY %s;' % n, 'SELECT %s, COUNT(*) FROM A GROUP BY %s;' % (n, n)]
        if n != 'b':
            out += ['SELECT n1, b FROM A JOIN B ON n1 = %s;' % n, 'SELECT n1, b FROM A, B WHERE b = %s;' % n, 'SELECT n1, B.%s FROM A, B;' % n]
    out += ['SELECT x.zz FROM A AS x;', 'SELECT x.n1 FROM A AS x WHERE x.zz = 5;', 'SELECT x.n1 FROM A AS x WHERE y.n1 = 5;', 'SELECT x.n1 FROM A AS x WHERE x.n1 IN (5) AND x.zz IS NULL;', 'SELECT x.n1 FROM A AS x GROUP BY x.zz;', 'SELECT x.n1 FROM A AS x GROUP BY y.n1;', 'SELECT x.n1 FROM A AS x GROUP BY x.m1;',
            'SELECT x.n1, y.b FROM A AS x JOIN B AS y ON x.n1 = y.n1;', 'SELECT x.n1, y.b FROM A AS x JOIN B AS y ON x.b = y.b;', 'SELECT x.b FROM A AS x JOIN B AS y ON x.n1 = y.b;', 'SELECT x.n1, y.b FROM A AS x, B AS y WHERE x.n1 = z.b;', 'SELECT x.n1 FROM A AS x WHERE x.n1 = 1 GROUP BY B.b;', 'SELECT n1 FROM A GROUP BY B.b;',
            'SELECT A.n1 FROM A GROUP BY A.zz;', 'SELECT A.n1 FROM A GROUP BY A.m1;', 'SELECT n1 FROM A WHERE B.b = 5;', 'SELECT n1 FROM A WHERE B.b IN (5);', 'SELECT n1 FROM A WHERE B.b IS NULL;', 'SELECT n1, b FROM A, B WHERE zz IS NULL;', 'SELECT n1, b FROM A JOIN B ON n1 = b WHERE A.b = 1;',
            'SELECT x.n1 FROM A AS x, B AS x;', 'SELECT n1 FROM A, A;', 'SELECT x.b FROM A AS B, B AS x WHERE B.b = 1;', 'DELETE FROM A WHERE A.zz = 1;', 'DELETE FROM A WHERE B.b = 1;', 'UPDATE A SET n1 = 1 WHERE B.b = 5;', 'UPDATE A SET n1 = 1 WHERE A.zz = 5;', 'UPDATE A SET B.b = 1;']
    jobs += jobs_of('a column that does not exist', su, [s_refuse(q) for q in out], 16)
    out = ['INSERT INTO A (n1, n1) VALUES (1, 2);', 'INSERT INTO B (b, b) VALUES (1, 1);', 'SELECT n1, COUNT(*) FROM A;', 'SELECT n1 FROM A GROUP BY m1;', 'SELECT n1, m1, COUNT(*) FROM A GROUP BY n1;', 'SELECT n1 FROM A WHERE COUNT(*) = 1;', 'SELECT COUNT(*) FROM A GROUP BY COUNT(*);',
           'DELETE FROM A WHERE n0 > m0;', "DELETE FROM A WHERE n0 >= 'a';", "UPDATE A SET n1 = 1 WHERE n0 < 'a';", "SELECT n1 FROM A WHERE n0 > 'abc';", 'DELETE FROM A WHERE n1 > NULL;', 'UPDATE A SET n1 = 1 WHERE n1 <= NULL;', 'SELECT n1 FROM A WHERE n1 < NULL;',
           'UPDATE A SET n1 = m1;', 'UPDATE A SET n1 = (m1 = 3);', 'UPDATE A SET n1 = n1 IS NULL;', 'DELETE FROM A WHERE n1 = n3;', 'UPDATE A SET n1 = 1 WHERE n1 = n3;', 'SELECT n1 FROM A WHERE n1 = n3;', 'DELETE FROM A WHERE n4 = n5;', 'SELECT n1 FROM A WHERE n4 = n5;',
           'SELECT n1 FROM A JOIN B ON n3 = b;', 'SELECT n1 FROM A JOIN B ON n0 = b;', 'DELETE FROM A WHERE n1 IN (m1);', 'UPDATE A SET n1 = 1 WHERE n1 NOT IN (m1, 4);', 'SELECT n1 FROM A WHERE n1 IN (m1);', 'DELETE FROM A WHERE 5 IS NULL;', 'SELECT n1 FROM A WHERE 5 IS NULL;']
    jobs += jobs_of('a statement without meaning', su, [s_refuse(q) for q in out], 12)
    # a refusal leaves everything as usable as before
    seqs = []
    row = [lit(c.ty, 1) for c in cols]
    for bad in ("INSERT INTO A VALUES (%s), (%s);" % (g, g.replace('FALSE', '7', 1)), "UPDATE A SET n1 = 'x';", 'DELETE FROM A WHERE zz = 1;', 'SELECT zz FROM A;', 'SELECT * FROM A WHERE n1 = 1.5;', 'CREATE TABLE B (x INT);', 'CREATE TABLE Q (x INT, x INT);', 'SELEC;', 'INSERT INTO A VALUES (1'):
        seqs.append([s_refuse(bad), s_insert('A', [row]), s_refuse(bad), s_update('A', [('n1', lit('CT_INTEGER', 3))], ('null', 'n0', False)), s_select(['n1', 'm0'], [('A', None)]), s_delete('B'), s_refuse(bad)])
    jobs += jobs_of('statements after a refused one', su, seqs, 2)
    # known to fail
    k = Col('CT_INTEGER', 'k')
    k.kw['unique'] = 1
    p = Col('CT_INTEGER', 'p')
    p.nullable, p.kw = False, {'primary_key': 1, 'unique': 1}
    uq = (('U',), [('K', [k, Col('CT_INTEGER', 'v')], [[lit('CT_INTEGER', 1), lit('CT_INTEGER', 2)]]), ('P', [p, Col('CT_INTEGER', 'v')], [[lit('CT_INTEGER', 1), lit('CT_INTEGER', 2)]])])
    one = lit('CT_INTEGER', 1).sql
    jobs.append(('a second equal value INSERTed in a UNIQUE column', uq, [s_refuse('INSERT INTO K VALUES (%s, 3);' % one)]))
    jobs.append(('a second equal value INSERTed in a PRIMARY KEY', uq, [s_refuse('INSERT INTO P VALUES (%s, 3);' % one)]))
    return jobs


# ------------------------------------------------------------ the same statement spelled in other ways
def tokens(text):
    import re
    return re.findall(r"(?i:NOT\s+EXISTS)|'(?:[^'])*'|\"[^\"]*\"|[A-Za-z_][A-Za-z0-9_]*|-?\d[\d.]*(?:[eE][-+]?\d+)?|<=|>=|<>|!=|&&|\|\||[^\sA-Za-z0-9]", text)


NAMES = {'A', 'B', 'id', 'x', 'y', 's', 'mark', 'k', 'v', 'Tab_1', 'q'}
KEYWORDS = set('SELECT FROM WHERE GROUP BY INSERT INTO VALUES UPDATE SET DELETE AND OR XOR NOT IN IS NULL JOIN ON AS CREATE TABLE IF EXISTS INT INTEGER VARCHAR DOUBLE DATE DATETIME TINYINT UNIQUE PRIMARY KEY INDEX AUTO_INCREMENT TRUE FALSE COUNT INNER'.split())


def cased(f):
    return lambda t: [f(w) if w in KEYWORDS or ' ' in w and w[0] == 'N' else w for w in t]


def joined(seps, glue=lambda a, b: False):
    """tokens with these separators in turn; nothing where glue allows it"""
    def f(t):
        out = t[0]
        for i, (a, b) in enumerate(zip(t, t[1:])):
            tight = a == '.' or b == '.' or a.upper() == 'COUNT' and b == '('
            out += ('' if tight or glue(a, b) else seps[i % len(seps)]) + b
        return out
    return f


def punct(a, b):
    return not (a[-1].isalnum() or a[-1] in "_'\"`") or not (b[0].isalnum() or b[0] in "_'\"`-")


def bracketed(t):
    """the conditions in parentheses, as a whole and one by one"""
    for w in ('WHERE', 'ON'):
        if w in t:
            i = t.index(w) + 1
            j = next(k for k in range(i, len(t)) if t[k] in ('GROUP', 'WHERE', ';'))
            c = t[i:j]
            if not set(c) & {'AND', 'OR', 'XOR'}:
                c = ['('] + c + [')']
            t = t[:i] + ['('] + c + [')'] + t[j:]
    return t


def swap(**kw):
    return lambda t: [kw.get(w, w) for w in t]


SPELL = {
    'lower-case keywords': (cased(str.lower), joined([' '])),
    'mixed-case keywords': (cased(lambda w: ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(w))), joined([' '])),
    'no blanks': (lambda t: t, joined([' '], lambda a, b: punct(a, b) and not (b[0] == '-' or a[-1] == '-'))),
    'tabs and newlines': (lambda t: t, joined(['\t', '\n', '  \n\t ', ' '])),
    'carriage returns': (lambda t: t, joined(['\r\n', ' ', '\r\n\r\n', ' \f', '\r'])),
    'parentheses': (lambda t: bracketed(t), joined([' '])),
    'comments next to each other': (lambda t: ['/*;*/'] + t + ['/* the end **/', '-- it'], joined([' /* a *//* b */', '/***/ ', ' -- x\n-- y\n', ' /* -- */ '])),
    'block comments': (lambda t: t, joined(['/* ; \' WHERE */', ' ', '/**/', ' /* a\nb */ ', ' '])),
    'line comments': (lambda t: t, joined([' ', ' -- it\'s; FROM\n', ' ', '\n# (x; "y\' */ -- #\n', ' ', '--\t--; /*\n'])),
    'quoted names': (lambda t: ['`%s`' % w if w in NAMES else w for w in t], joined([' '])),
    '!=': (swap(**{'<>': '!='}), joined([' '])),
    '&& and ||': (swap(AND='&&', OR='||'), joined([' '])),
    'double quotes': (lambda t: ['"%s"' % w[1:-1] if w[0] == "'" and '"' not in w else w for w in t], joined([' '])),
    'blanks around': (lambda t: [' \n'] + t + ['\n ', ' '], joined([' '])),
    'type synonyms': (swap(INTEGER='INT4', INT='INTEGER', VARCHAR='VARCHARACTER', VALUES='VALUE'), joined([' '])),
    'INSERT without INTO': (lambda t: [w for w in t if w != 'INTO'], joined([' '])),
    'INNER JOIN': (lambda t: [x for w in t for x in (['INNER', 'JOIN'] if w == 'JOIN' else [w])], joined([' '])),
    'alias without AS': (lambda t: [w for w in t if w != 'AS'], joined([' '])),
}


def respell(s, how):
    f, g = SPELL[how]
    return s[:-1] + (g(f(tokens(s[-1]))),)


def spellings(tier):
    jobs = []
    I, S = (lambda k: lit('CT_INTEGER', k)), (lambda k: lit('CT_VARCHAR', k))
    A = [Col('CT_INTEGER', 'id'), Col('CT_DOUBLE', 'x'), Col('CT_VARCHAR', 's', 20), Col('CT_TINYINT', 'y'), Col('CT_DATE', 'mark')]
    B = [Col('CT_INTEGER', 'k'), Col('CT_VARCHAR', 'v', 20)]
    su = (('sp',), [('A', A, pool_rows(A)), ('B', B, [[I(0), S(1)], [I(1), None], [None, S(2)], [I(3), S(1)]])])
    D = lambda k: lit('CT_DOUBLE', k)
    tree = ('or', ('and', ('cmp', '<', 'id', I(3)), ('cmp', '<>', 's', S(1))), ('xor', ('null', 'x', True), ('in', 'id', [I(0), I(2)], True)))
    sts = [s_select(['*'], [('A', None)]), s_select(['id', 's'], [('A', None)], tree), s_select(['A.x', 'A.y'], [('A', None)], ('in', 's', [S(0), S(2)], False)), s_select(['COUNT(*)'], [('A', None)], ('null', 'id', False)),
           s_select(['s', 'COUNT(*)'], [('A', None)], ('cmp', '>=', 'x', D(1)), group=['s']), s_select(['q.k', 'q.v'], [('B', 'q')]), s_select(['id', 'k'], [('A', None), ('B', None)], on=('cmp', '=', 'A.id', 'B.k')),
           s_select(['id', 'v'], [('A', None), ('B', None)], ('cmp', '=', 's', 'v')),
           s_insert('A', [[I(1), D(0), S(3), lit('CT_TINYINT', 1), lit('CT_DATE', 2)], [None, D(4), None, lit('CT_TINYINT', 0), None]]), s_insert('B', [[S(4), I(2)]], ['v', 'k']),
           s_update('A', [('s', S(2)), ('x', D(2)), ('y', None)], tree), s_update('B', [('v', S(0))]), s_delete('A', tree), s_delete('A', ('cmp', '=', 'mark', lit('CT_DATE', 1))), s_delete('B'),
           made('Tab_1', [column('k', 'INT', ('PRIMARY KEY',)), column('v', 'VARCHAR(12)', ('NOT NULL', 'UNIQUE')), column('x', 'DOUBLE'), column('y', 'INTEGER', ('AUTO_INCREMENT',))]),
           made('Tab_1', [column('k', 'TINYINT'), column('v', 'DATETIME')], [(2, 'PRIMARY KEY (k)', {'k': PK}), (2, 'INDEX (v, k)', {'v': IX, 'k': IX})], ine=True)]
    for how in SPELL:
        out = []
        for s in sts:
            r = respell(s, how)
            if ' '.join(tokens(r[-1])) != ' '.join(tokens(s[-1])) or how in ('no blanks', 'tabs and newlines', 'carriage returns', 'blanks around'):
                out.append(r)
        jobs += jobs_of('spelling: ' + how, su, out, 12)
    return jobs


# ------------------------------------------------------------ names and literals are taken as written
def num(text):
    return Lit('CT_INTEGER', text, C(int(text)), int(text))


def dbl(text):
    return Lit('CT_DOUBLE', text, ('d', float(text)), float(text))


def words(tier):
    jobs = []
    T = [Col('CT_INTEGER', 'i'), Col('CT_DOUBLE', 'd'), Col('CT_VARCHAR', 's', 1200), Col('CT_DATE', 'dt'), Col('CT_DATETIME', 'dtt'), Col('CT_VARCHAR', 'u', 3)]
    su = (('words',), [('A', T, [])])
    ints = ['0', '1', '-1', '7', '007', '-0', '9', '10', '255', '256', '65536', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '9007199254740993', '9223372036854775806', '-9223372036854775808', '1000000000000000000']
    dbls = ['0.0', '1.0', '-1.0', '1.', '.5', '-.5', '0.1', '-0.1', '1e5', '1E5', '1.5e-3', '-2.25E+10', '1e300', '1e-300', '1.7976931348623157e308', '4.9e-324', '0.30000000000000004', '123456789.123456789', '100000000000000000000.0', '3.141592653589793', '-0.0', '.0e1']
    strs = ["''"] + ["'%s'" % c for c in map(chr, range(32, 127)) if c not in "'\\\""] + ["'\"'", '"\'"', "' '", "'  x'", "'x  '", "' x '", "'%s'", "'%d%n'", "'a\tb'", "'SELECT'", "'STMT'", "'NULL'", "'null'", "'12'", "'1.5'", "'-7'", "'x''", "'/* c */'", "'-- c'", "'# c'", "'a;b'", "'(a,b)'", "'NAME i'", "'STRING x'", "'a b'", "'\u00e9\u00fc'", "'\u65e5\u672c'", "'`b`'",
             '"a"', '"it is"', '"O\'Neil"', "'say \"hi\"'", "'[]{}^$.*+?|()'", "'?'", "'%'", "'_'"]
    strs = [w for w in strs if w != "'x''"]
    for n in (1, 2, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 200, 246, 247, 248, 249, 250, 255, 256, 257, 300, 511, 512, 600, 1000, 1024, 1199):
        strs.append("'%s'" % ('0123456789abcdefghijklmnopqrstuvwxyz ' * 40)[:n])
    dates = ["'1970-01-02'", "'2000-02-29'", "'1999-12-31'", "'2038-01-19'", "'2100-01-01'", "'0999-01-01'"]
    times = ["'1970-01-02 00:00:00'", "'2000-02-29 23:59:59'", "'2021-07-01 12:34:56'", "'2100-12-31 01:02:03'"]
    vals = [('i', num(w)) for w in ints] + [('d', dbl(w)) for w in dbls] + [('s', string(w[1:-1], w[0])) for w in strs]
    for w in dates[:5]:
        vals.append(('dt', dated('CT_DATE', w)))
    for w in times:
        vals.append(('dtt', dated('CT_DATETIME', w)))
    if tier == 'quick':
        keep = [i for i, (c, v) in enumerate(vals) if c != 's' or len(v.sql) != 3 or v.sql[1] in '%,;()=<>#-`/*.:0Az ~!@']
        vals = [vals[i] for i in keep]
    kind = {'i': 'INTEGER literals', 'd': 'DOUBLE literals', 's': 'strings', 'dt': 'DATE literals', 'dtt': 'DATETIME literals'}
    groups = {}
    for c, v in vals:
        # stored by INSERT, found by a condition, replaced by UPDATE
        cond = ('cmp', '=', c, v)
        groups.setdefault(kind[c], []).append([s_insert('A', [[v]], [c]), s_select([c], [('A', None)], cond), s_delete('A', cond), s_update('A', [(c, v)]), s_delete('A', ('in', c, [v], False))])
    for k, seqs in groups.items():
        jobs += jobs_of(k, su, seqs, 6)
    for t, what in (("'a''b'", "a'b"), ("'''x'", "'x"), ("'x\\'y'", "x'y")):
        jobs.append(("a quote inside a string written %s" % t, su, [s_insert('A', [[Lit('CT_VARCHAR', t, ('x', 'cstr', what.encode()), None)]], ['s'])]))
    jobs.append(('a string of exactly the declared length', su, [s_insert('A', [[string('xyz')]], ['u'])]))
    jobs.append(('a string one shorter than the declared length', su, [s_insert('A', [[string('xy')]], ['u'])]))
    # names
    names = ['a', 'Z', 'x1', 'a_', 'a__b', 'sel', 'selects', 'nulls', 'inn', 'orx', 'android', 'notx', 'counts', 'Count_', 'tablex', 'dates', 'int5', 'string', 'name', 'number', 'stmt', 'fieldname', 'column', 'KEYS', 'truey', 'e5', 'x0x', 'a' * 31, 'b' * 64, 'c' * 100, 'd' * 120, 'e' * 126]
    names = [n for n in names if n.upper() not in KEYWORDS | {'COLUMN'}]
    out = []
    for i, n in enumerate(names):
        c = [Col('CT_INTEGER', n), Col('CT_VARCHAR', 'q' + n[:120], 9)]
        r = [[num('5'), string('p')], [None, string('r')]]
        tn = names[-1 - i] if len(names[-1 - i]) + len(n) < 126 else 'tt'
        out.append([s_create(tn, c), s_insert(tn, r), s_insert(tn, r[:1], None), s_select([n], [(tn, None)], ('cmp', '=', n, num('5'))), s_update(tn, [(n, num('6'))], ('null', n, False)), s_select(['%s.%s' % (tn, n), 'q' + n[:120]], [(tn, None)]), s_delete(tn, ('in', n, [num('5')], False)), s_select([n, 'COUNT(*)'], [(tn, None)], group=[n])])
    jobs += jobs_of('names', EMPTY, out, 3)
    pre = 'p' * 60
    cs = [Col('CT_INTEGER', pre + x) for x in ('', 'a', 'ab', 'b')] + [Col('CT_INTEGER', x) for x in ('p', 'P', 'pp')]
    rows = [[num(str(k * 10 + j)) for j in range(7)] for k in (1, 2)]
    out = []
    for c in cs:
        out.append([s_create('T', cs), s_insert('T', rows), s_update('T', [(c.name, num('99'))], ('cmp', '=', c.name, rows[0][cs.index(c)])), s_select([c.name], [('T', None)]), s_select(['T.' + c.name], [('T', None)], ('cmp', '=', c.name, num('99'))), s_delete('T', ('cmp', '=', c.name, num('99')))])
    jobs += jobs_of('names that begin alike', EMPTY, out, 2)
    out = []
    for n in (1, 63, 64, 65, 100, 120, 126):
        c = [Col('CT_INTEGER', 'w' * (n - 1) + x) for x in 'abc']
        v = [num('5'), num('6'), num('7')]
        k = [c[i].name for i in (2, 0, 1)]
        out.append([s_create('T', c), s_insert('T', [v], k), s_insert('T', [v[:2]], k[:2]), s_update('T', [(c[2].name, v[1]), (c[0].name, None)], ('and', ('cmp', '<>', c[1].name, num('1')), ('xor', ('in', c[2].name, v[:2], False), ('null', c[0].name, False)))),
                    s_select(k, [('T', None)], ('or', ('cmp', '>', c[1].name, num('2')), ('in', c[0].name, v, True))), s_select([k[1], 'COUNT(*)'], [('T', None)], group=[k[1]]), s_delete('T', ('or', ('cmp', '=', c[0].name, v[0]), ('null', c[1].name, True)))])
    jobs += jobs_of('names in every place', EMPTY, out, 1)
    tabs = ['t', 'T', 'tt', 't1', pre, pre + 'x']
    seq = [s_create(t, cs[:2]) for t in tabs] + [s_insert(t, [r[:2] for r in rows[: 1 + i % 2]]) for i, t in enumerate(tabs)] + [s_delete('tt'), s_update('T', [(cs[0].name, num('3'))])] + [s_select([cs[1].name], [(t, None)]) for t in tabs]
    jobs.append(('tables whose names begin alike', EMPTY, [seq]))
    return jobs


def dated(ty, w):
    return Lit(ty, w, ('x', 'mktime', ('x', 'tm', ('x', 'cstr', w[1:-1].encode()), ('x', 'cstr', FMTOF[ty]), C(1))), w)


# ------------------------------------------------------------ carried out in full or refused
def odd_table():
    A = [Col('CT_INTEGER', 'i'), Col('CT_INTEGER', 'j'), Col('CT_DOUBLE', 'd'), Col('CT_VARCHAR', 's', 20), Col('CT_TINYINT', 't'), Col('CT_DATE', 'dt')]
    I, S = (lambda k: lit('CT_INTEGER', k)), (lambda k: lit('CT_VARCHAR', k))
    rows = [[I(0), I(1), lit('CT_DOUBLE', 1), S(1), lit('CT_TINYINT', 1), lit('CT_DATE', 1)], [None, I(2), None, S(1), lit('CT_TINYINT', 0), None], [I(2), None, lit('CT_DOUBLE', 3), None, None, lit('CT_DATE', 0)]]
    return (('odd',), [('A', A, rows), ('B', [Col('CT_INTEGER', 'k'), Col('CT_VARCHAR', 'v', 9)], [[I(0), S(1)], [I(0), None]])])


IGNORED = {      # clauses that are read and then have no effect (known findings)
    'SELECT DISTINCT': ['SELECT DISTINCT s FROM A;'], 'ORDER BY': ['SELECT i FROM A ORDER BY i;', 'SELECT i, s FROM A WHERE j IS NULL ORDER BY s DESC, i ASC;'], 'LIMIT': ['SELECT i FROM A LIMIT 1;', 'SELECT i FROM A LIMIT 1, 2;'],
    'GROUP BY with a direction': ['SELECT i FROM A GROUP BY i DESC;'], 'HAVING': ['SELECT s FROM A GROUP BY s HAVING s IS NULL;'], 'LIKE': ["SELECT i FROM A WHERE s LIKE 'q%';"], 'NOT LIKE': ["SELECT i FROM A WHERE s NOT LIKE 'q%';"], 'COUNT of a column': ['SELECT COUNT(i) FROM A;'],
    'COUNT next to other columns': ['SELECT *, COUNT(*) FROM A;'],
}
UNSUPPORTED = {
    'outer and other joins': ['SELECT i, k FROM A LEFT JOIN B ON i = k;', 'SELECT i, k FROM A RIGHT JOIN B ON i = k;', 'SELECT i, k FROM A LEFT OUTER JOIN B ON i = k;', 'SELECT i, k FROM A RIGHT OUTER JOIN B ON i = k WHERE i > 3;', 'SELECT i, k FROM A NATURAL JOIN B;', 'SELECT i, k FROM A CROSS JOIN B;', 'SELECT i, k FROM A STRAIGHT_JOIN B;', 'SELECT i, k FROM A JOIN B USING (i);', 'SELECT i, k FROM A JOIN B;',
                              'SELECT i, k FROM A FULL JOIN B ON i = k;', 'SELECT * FROM (SELECT i FROM A);', 'SELECT * FROM (A);'],
    'values in the place of columns': ["SELECT 'x' FROM A;", 'SELECT 1;', 'SELECT 1 FROM A;', 'SELECT 1.5 FROM A;', 'SELECT TRUE FROM A;', 'SELECT NULL FROM A;', 'SELECT i, 7 FROM A;', 'SELECT i + 1 FROM A;', 'SELECT i * j FROM A;', 'SELECT -i FROM A;', 'SELECT i = 1 FROM A;', 'SELECT i > j, s FROM A;', 'SELECT COUNT(*) + 1 FROM A;', 'SELECT i IS NULL FROM A;',
                                       'SELECT i IN (1) FROM A;', 'SELECT i AND j FROM A;', 'SELECT (i) AS q FROM A;', 'SELECT CURRENT_DATE FROM A;', 'SELECT CASE i WHEN 1 THEN 2 END FROM A;', 'SELECT SUM(i) FROM A;', 'SELECT i AS x FROM A;', 'SELECT COUNT(*) AS n FROM A;', 'SELECT i x, j FROM A;', 'SELECT A.i AS i FROM A;', 'SELECT FROM A;', 'SELECT;', 'SELECT i, FROM A;', 'SELECT *, i FROM A LIMIT;'],
    'conditions that are no comparisons': ['%s WHERE 1;', '%s WHERE TRUE;', "%s WHERE 'x';", '%s WHERE NULL;', '%s WHERE i;', '%s WHERE t;', '%s WHERE i + 1;', '%s WHERE (i = 1) = (j = 2);', '%s WHERE i = 1 = 2;', '%s WHERE i + 1 = 2;', '%s WHERE 2 = j * 3;', '%s WHERE i = 1 + 1;', '%s WHERE i / 0 = 1;', '%s WHERE NOT i = 1;', '%s WHERE ! i = 1;', '%s WHERE NOT (i = 1 OR j = 2);', '%s WHERE i BETWEEN 1 AND 3;', '%s WHERE i NOT BETWEEN 1 AND 3;',
                                           '%s WHERE i IN (SELECT k FROM B);', '%s WHERE EXISTS (SELECT k FROM B);', '%s WHERE i = (SELECT k FROM B);', "%s WHERE s REGEXP 'a';", '%s WHERE i = CASE WHEN j = 1 THEN 2 END;', '%s WHERE i & 1 = 1;', '%s WHERE i | j = 3;', '%s WHERE i << 1 = 2;', '%s WHERE i ^ 1 = 2;', '%s WHERE i % 2 = 1;', '%s WHERE i - j = 0;', '%s WHERE 5 IN (i, j);', '%s WHERE 5 IN (5);', '%s WHERE i IN ();', '%s WHERE i IN (1 + 1);', '%s WHERE i IN (1, 2 * 3);',
                                           '%s WHERE i IS TRUE;', '%s WHERE (i = 1) IS NULL;', '%s WHERE i = 1 AND 1;', '%s WHERE t OR i = 1;', '%s WHERE i = 1 XOR NULL;', '%s WHERE i = j = 1 AND i > 2;', '%s WHERE COUNT(*) > 1;', '%s WHERE i == 1;', '%s WHERE i =;', '%s WHERE = 1;', '%s WHERE i = 1 AND;', '%s WHERE (i = 1;', '%s WHERE i = 1);', '%s WHERE;', '%s WHERE i < > 1;', '%s WHERE i => 1;', '%s WHERE dt = CURRENT_DATE;', '%s WHERE i = @x;', '%s WHERE i <=> 1;', '%s WHERE COUNT(i) = 1;'],
    'assignments that are no values': ['UPDATE A SET i > 5;', 'UPDATE A SET i = 5 + 1;', 'UPDATE A SET i = i + 1;', 'UPDATE A SET i = j;', 'UPDATE A SET i <> 5 WHERE j = 1;', 'UPDATE A SET i >= 5, j = 2;', 'UPDATE A SET j = 2, i < 5;', 'UPDATE A SET i = (j = 1);', 'UPDATE A SET i = COUNT(*);', 'UPDATE A SET i;', 'UPDATE A SET;', 'UPDATE A;', 'UPDATE A SET i = ;', 'UPDATE A SET 5 = i;', 'UPDATE A SET i = 5 j = 6;', 'UPDATE A SET i = (SELECT k FROM B);', 'UPDATE A, B SET i = 5;', 'UPDATE A SET i = 5 ORDER BY i;',
                                       'UPDATE A SET i = 5 LIMIT 1;', 'UPDATE LOW_PRIORITY A SET i = 5;', 'UPDATE IGNORE A SET i = 5;', 'UPDATE A JOIN B ON i = k SET i = 5;', 'UPDATE A SET i = 5, WHERE j = 1;', 'UPDATE A SET i = CASE WHEN j = 1 THEN 2 END;', 'UPDATE A SET s = CURRENT_DATE;', 'UPDATE A SET i = -j;', 'UPDATE A SET i = j IS NULL;'],
    'inserted values that are none': ['INSERT INTO B VALUES (i, NULL);', 'INSERT INTO B VALUES (k, NULL);', 'INSERT INTO B SELECT k, v FROM B;', 'INSERT INTO B (k) SELECT i FROM A;', 'INSERT INTO B VALUES (1 = 1, NULL);', 'INSERT INTO B VALUES (1 IS NULL, NULL);', 'INSERT INTO B VALUES (DEFAULT, NULL);', "INSERT INTO B VALUES (1, 'a' + 'b');", 'INSERT INTO B VALUES (1, 1);', 'INSERT INTO B VALUES (1, CURRENT_DATE);', 'INSERT INTO B VALUES ();', 'INSERT INTO B VALUES;', 'INSERT INTO B;', 'INSERT INTO B () VALUES (1);',
                                      'INSERT INTO B SET k = 1;', 'INSERT B VALUES (1, NULL) ON DUPLICATE KEY UPDATE k = 2;', 'INSERT IGNORE INTO B VALUES (1, NULL);', 'INSERT LOW_PRIORITY INTO B VALUES (1, NULL);', 'REPLACE INTO B VALUES (1, NULL);', "INSERT INTO B VALUES (1 'x');", "INSERT INTO B VALUES (1, 'x'), ;", "INSERT INTO B VALUES 1, 'x';", "INSERT INTO B VALUES (1, 'x') (2, 'y');", 'INSERT INTO B VALUES (1 AND 1, NULL);', 'INSERT INTO B VALUES (COUNT(*), NULL);', 'INSERT INTO B (5) VALUES (1);', 'INSERT INTO B VALUES (1 << 2, NULL);', 'INSERT INTO B VALUES (NOT 1, NULL);'],
    'deletions of another kind': ['DELETE A FROM A;', 'DELETE FROM A, B;', 'DELETE FROM A USING B;', 'DELETE A.* FROM A;', 'DELETE FROM A LIMIT 1;', 'DELETE FROM A ORDER BY i;', 'DELETE FROM A WHERE i = 1 LIMIT 1;', 'DELETE QUICK FROM A;', 'DELETE IGNORE FROM A;', 'DELETE LOW_PRIORITY FROM A;', 'DELETE A;', 'DELETE FROM;', 'DELETE;', 'DELETE * FROM A;', 'DELETE FROM A AS x;', 'DELETE i FROM A;'],
    'definitions of another kind': ['CREATE TABLE IF EXISTS C (x INT);', 'CREATE TEMPORARY TABLE C (x INT);', 'CREATE TABLE C SELECT * FROM A;', 'CREATE TABLE C (x INT) SELECT i FROM A;', 'CREATE TABLE C LIKE A;', 'CREATE TABLE C ();', 'CREATE TABLE C;', 'CREATE TABLE C (x);', 'CREATE TABLE C (x INT,);', 'CREATE TABLE C (x INT y INT);', 'CREATE TABLE C (x TEXT);', 'CREATE TABLE C (x BLOB);', 'CREATE TABLE C (x BIGINT);', 'CREATE TABLE C (x DECIMAL(3, 2));', 'CREATE TABLE C (x FLOAT);', 'CREATE TABLE C (x VARCHAR);', 'CREATE TABLE C (x CHAR(3));',
                                    'CREATE TABLE C (x INT DEFAULT 5);', "CREATE TABLE C (x VARCHAR(5) COMMENT 'q');", "CREATE TABLE C (x ENUM('a', 'b'));", 'CREATE TABLE C (x INT UNSIGNED);', 'CREATE TABLE C (x INT ZEROFILL);', 'CREATE TABLE C (x INT, FULLTEXT INDEX (x));', 'CREATE TABLE C (PRIMARY KEY (x));', 'CREATE TABLE C (x INT, PRIMARY KEY ());', 'CREATE TABLE db.C (x INT);', 'CREATE TABLE C (x INT, CHECK (x > 1));', 'CREATE TABLE C (x INT, FOREIGN KEY (x) REFERENCES A (i));', 'CREATE DATABASE q;', 'CREATE SCHEMA q;', 'CREATE INDEX q ON A (i);', 'CREATE VIEW q AS SELECT i FROM A;', 'CREATE TABLE 5 (x INT);', "CREATE TABLE 'C' (x INT);", 'CREATE TABLE C (5 INT);', 'CREATE C (x INT);'],
    'other statements': ['DROP TABLE A;', 'ALTER TABLE A ADD x INT;', 'TRUNCATE TABLE A;', 'SHOW TABLES;', 'SET @x = 1;', 'SET x = 1;', 'BEGIN;', 'COMMIT;', 'USE A;', 'EXPLAIN SELECT i FROM A;', 'DESCRIBE A;', ';', ';;', '', ' ', '\n', '-- nothing', '/* nothing */', 'i;', '5;', "'x';", '(SELECT i FROM A);', 'SELECT i FROM A UNION SELECT k FROM B;', 'SELECT DISTINCT DISTINCT i FROM A;', 'SELECT SQL_CALC_FOUND_ROWS i FROM A;', 'SELECT HIGH_PRIORITY i FROM A;', 'SELECT i FROM A FOR UPDATE;', 'SELECT i INTO q FROM A;',
                         'SELECT i FROM A GROUP BY i WITH ROLLUP;', 'SELECT i FROM A GROUP BY;', 'SELECT i FROM A GROUP BY 1;', 'SELECT i FROM A GROUP BY i + 1;', 'SELECT ALL i FROM A;', 'SELECT i FROM A USE INDEX (q);', 'SELECT i FROM A WHERE i = 1 WHERE j = 2;', 'SELECT i FROM A FROM B;', 'SELECT i i i FROM A;', 'SELECT i FROM A AS;', 'SELECT A. FROM A;', 'SELECT .i FROM A;', 'SELECT * * FROM A;', 'SELECT COUNT() FROM A;', 'SELECT COUNT(*), COUNT(*) FROM A;', 'SELECT COUNT(DISTINCT i) FROM A;', 'SELECT COUNT FROM A;', 'SELECT MAX(i) FROM A;', 'SELECT i FROM;', 'SELECT i FROM A,;', 'SELECT i FROM A JOIN;', 'SELECT i, k FROM A JOIN B ON;', 'SELECT i, k FROM A JOIN B ON i;', 'SELECT i, k FROM A JOIN B ON 1 = 1 = 1;'],
    'text that is no statement': ['SELECT @ FROM A;', 'SELECT i FROM A WHERE i = $1;', "SELECT i FROM A WHERE s = 'abc;", 'SELECT i FROM A WHERE s = "abc;', 'SELECT `i FROM A;', 'SELECT i FROM A /* never closed;', 'SELECT i FROM A WHERE i = 1 \\ 2;', 'SELECT {i} FROM A;', 'SELECT [i] FROM A;', 'SELECT i FROM A?;', 'SELECT i : FROM A;', "INSERT INTO B VALUES (1, 'x);", "INSERT INTO B VALUES (1, 'a'b');", "INSERT INTO B VALUES (1, 'a\nb');", "DELETE FROM A WHERE s = 'it's';", "UPDATE A SET s = 'x;", 'DELETE FROM `A;', 'DELETE FROM A WHERE i = 1x;', 'DELETE FROM A WHERE i = 1..2;',
                                  'DELETE FROM A WHERE i = 1e;', 'DELETE FROM A WHERE i = - 1;', 'DELETE FROM A WHERE i = +1;', 'DELETE FROM A WHERE i = --1;', 'DELETE FROM \x01A;', 'DELETE FROM A \x7f;', 'DELETE FROM \u00c4;', 'SELECT \u00e9 FROM A;', 'DELETE/FROM/A;', 'DELETE.FROM.A;', "DELETE FROM A WHERE s = ''';", 'DELETE FROM "A";', 'DELETEFROM A;', 'DELETE FROMA;', 'DELETE FROM A B;', 'DELETE FROM A)', 'DELETE FROM A (i);', 'delete update A set i = 1;', 'INSERT INTO INTO B VALUES (1, NULL);', 'UPDATE SET i = 1;', 'UPDATE A SET SET i = 1;', "X'41';", 'DELETE FROM A WHERE i IS;', 'DELETE FROM A WHERE i IS NOT;', 'DELETE FROM A WHERE IS NULL;', 'DELETE FROM A WHERE i NULL;', 'DELETE FROM A WHERE i NOT NULL;', 'DELETE FROM A WHERE NOT;'],
    'several statements': ['DELETE FROM A; DELETE FROM B;', 'SELECT i FROM A; DELETE FROM A;', 'DELETE FROM B WHERE k = 1; UPDATE A SET i = 5;', 'INSERT INTO B VALUES (1, NULL); INSERT INTO B VALUES (2, NULL);', 'CREATE TABLE C (x INT); CREATE TABLE D (x INT);', 'DELETE FROM A; ; DELETE FROM B;', 'DELETE FROM B; nonsense', 'DELETE FROM B; SELECT', 'DELETE FROM A DELETE FROM B;'],
}


def unsupported(tier):
    su = odd_table()
    jobs = []
    for key, l in UNSUPPORTED.items():
        qs = []
        for q in l:
            qs += [q.replace('%s', 'SELECT i FROM A', 1), q.replace('%s', 'DELETE FROM A', 1), q.replace('%s', 'UPDATE A SET j = 5', 1)] if q.startswith('%s') else [q]
        jobs += jobs_of(key, su, [s_refuse(q) for q in qs], 14)
    for key, l in IGNORED.items():
        jobs.append((key, su, [s_refuse(q) for q in l]))
    return jobs


# ------------------------------------------------------------ INSERT of computed values
class Calc:
    """an expression: its text, its value (a term over unknown numbers; None: NULL)"""

    def __init__(self, text, prec, val):
        self.text, self.prec, self.val = text, prec, val


PRIO = {'+': 1, '-': 1, '*': 2, '/': 2, '%': 2, 'neg': 3}


def calc(op, a, b, real):
    import engine as EN
    p = PRIO[op]
    wrap = lambda e, least: '(%s)' % e.text if e.prec < least else e.text
    if op == 'neg':
        v = None if a.val is None else (('d', -a.val[1]) if a.val[0] == 'd' else ('x', 'fmul', a.val, ('d', -1.0))) if real else EN.scale(a.val, -1)
        return Calc('- %s' % wrap(a, 4 if a.text[0] in '-0123456789.' else 3), p, v if v is None or v[0] != 'c' else C(wrap64(v[1])))
    text = '%s %s %s' % (wrap(a, p), op, wrap(b, p + 1))
    x, y = a.val, b.val
    if x is None or y is None or op in '/%' and y[0] in 'cd' and (int(y[1]) == 0 if op == '%' else y[1] == 0):
        return Calc(text, p, None)
    if real:
        if x[0] == 'd' and y[0] == 'd':
            v = ('d', float(int(x[1]) - int(y[1]) * trunc_div(int(x[1]), int(y[1]))) if op == '%' else x[1] + y[1] if op == '+' else x[1] - y[1] if op == '-' else x[1] * y[1] if op == '*' else x[1] / y[1])
        elif op == '%':
            v = ('x', 'sitofp', ('x', 'srem', ('x', 'fptosi', x), C(int(y[1]))))
        else:
            v = ('x', {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op], x, y)
    elif x[0] == 'c' and y[0] == 'c':
        q = 0 if op not in '/%' else trunc_div(x[1], y[1])
        v = C(wrap64(x[1] + y[1] if op == '+' else x[1] - y[1] if op == '-' else x[1] * y[1] if op == '*' else q if op == '/' else x[1] - q * y[1]))
    else:
        v = EN.add(x, y) if op == '+' else EN.add(x, y, -1) if op == '-' else EN.mul(x, y) if op == '*' else C(0) if op == '%' and y in (C(1), C(-1)) else x if op == '/' and y == C(1) else EN.scale(x, -1) if op == '/' and y == C(-1) else ('x', 'sdiv' if op == '/' else 'srem', x, y)
    return Calc(text, p, v)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def wrap64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def arithmetic(tier):
    import random
    rng = random.Random(7)
    jobs = []
    T = [Col('CT_INTEGER', 'i'), Col('CT_DOUBLE', 'd'), Col('CT_VARCHAR', 's', 9)]
    su = (('calc',), [('A', T, [[lit('CT_INTEGER', 1), lit('CT_DOUBLE', 1), lit('CT_VARCHAR', 1)]])])

    def leaf(real, kind):
        if kind == 'u':
            l = lit('CT_DOUBLE' if real else 'CT_INTEGER', rng.randrange(4))
            # a sign directly before digits is part of the number
            return Calc(l.sql, 4, l.val)
        t = rng.choice(['2.0', '3.0', '0.5', '7.25', '-1.5', '10.0'] if real else ['2', '3', '5', '7', '-4', '10'])
        return Calc(t, 4, ('d', float(t)) if real else C(int(t)))

    def tree(real, depth, unknown):
        if depth == 0:
            return leaf(real, rng.choice('uc') if unknown else 'c')
        op = rng.choice(list(PRIO))
        if op == 'neg':
            a = tree(real, depth - 1, unknown)
            return calc('neg', a, None, real)
        a = tree(real, depth - 1 if rng.random() < 0.7 else 0, unknown)
        if op in '/%' and unknown:
            b = leaf(real, 'c')
        else:
            b = tree(real, depth - 1 if rng.random() < 0.7 else 0, unknown)
        if op == '%' and real and not unknown and (a.val is None or b.val is None or abs(a.val[1]) > 2 ** 30 or abs(b.val[1]) > 2 ** 30):
            op = '-'
        return calc(op, a, b, real)

    def stored(cs):
        """rows with the expressions in their columns"""
        out = []
        for c in cs:
            out.append([Lit('CT_INTEGER', e.text, e.val, None) if e is not None and not real else Lit('CT_DOUBLE', e.text, e.val, None) if e is not None else None for e, real in c])
        return out
    for real, name, col in ((False, 'INTEGER', 'i'), (True, 'DOUBLE', 'd')):
        out = []
        ks = [('c', 'c'), ('u', 'c'), ('c', 'u'), ('u', 'u')]
        one = lambda e: out.append(s_calc('A', [[Lit('CT_DOUBLE' if real else 'CT_INTEGER', e.text, e.val, None)]], [col]))
        for op in '+-*/%':
            for k in ks:
                if op in '/%' and k[1] == 'u':
                    continue
                one(calc(op, leaf(real, k[0]), leaf(real, k[1]), real))
        for k in 'cu':
            one(calc('neg', leaf(real, k), None, real))
        zero = Calc('0.0' if real else '0', 4, ('d', 0.0) if real else C(0))
        for op in '/%':
            for k in 'cu':
                one(calc(op, leaf(real, k), zero, real))
                one(calc('+', leaf(real, 'c'), calc(op, leaf(real, k), zero, real), real))
                one(calc('*', calc(op, leaf(real, k), zero, real), leaf(real, 'c'), real))
                one(calc('neg', calc(op, leaf(real, k), zero, real), None, real))
        if real:
            for t in ('0.25', '-0.75'):
                one(calc('%', leaf(True, 'c'), Calc(t, 4, ('d', float(t))), True))
            big = lambda t: Calc(t, 4, ('d', float(t)))
            for op, a, b in (('/', '1.0', '0.0000000001'), ('/', '3.0', '1e-300'), ('/', '1.0', '-1e-12'), ('/', '1e300', '1e-3'), ('*', '1e200', '1e100'), ('*', '1e-200', '1e-100'), ('+', '1e20', '1.0'), ('-', '1e20', '1e20'), ('+', '0.1', '0.2'), ('-', '0.3', '0.1'), ('/', '1.0', '3.0'), ('/', '0.0', '5.0'), ('*', '0.0', '5.0'), ('/', '-7.0', '2.0'),
                             ('*', '123456789.5', '1000000.25'), ('%', '7.9', '2.9'), ('%', '-7.9', '3.5'), ('%', '7.0', '-3.0'), ('+', '16777217.0', '1.0'), ('-', '2147483648.5', '0.5'), ('*', '3.0', '0.1')):
                one(calc(op, big(a), big(b), True))
        else:
            big = lambda t: Calc(t, 4, C(int(t)))
            for op, a, b in (('+', '9223372036854775806', '5'), ('-', '-9223372036854775807', '9'), ('*', '4611686018427387904', '4'), ('*', '3037000500', '3037000500'), ('/', '-9223372036854775808', '-1'), ('%', '-9223372036854775808', '-1'), ('%', '-7', '3'), ('%', '7', '-3'), ('/', '-7', '3'), ('/', '7', '-3'),
                             ('/', '1', '2'), ('%', '5', '1'), ('%', '5', '-1'), ('/', '5', '-1'), ('+', '2147483647', '1'), ('*', '65536', '65536'), ('-', '0', '2147483648')):
                one(calc(op, big(a), big(b), False))
        jobs += jobs_of('%s computed by one operation' % name, su, out, 12)
        out = []
        for op1 in '+-*/%':
            for op2 in '+-*/%':
                for left in (True, False):
                    k = 'u' if rng.random() < 0.5 else 'c'
                    if left:
                        e = calc(op2, calc(op1, leaf(real, k), leaf(real, 'c'), real), leaf(real, 'c'), real)
                    else:
                        r = calc(op2, leaf(real, 'c' if op1 in '/%' else k), leaf(real, 'c'), real)
                        e = calc(op1, leaf(real, k), r, real)
                    one(e)
        n = 24 if tier == 'quick' else 200
        for k in range(n):
            one(tree(real, 2 + k % 3, k % 2 == 0))
        jobs += jobs_of('%s computed by nested operations' % name, su, out, 12)
    out = []
    mk = lambda real, u: tree(real, 2, u)
    for k in range(4 if tier == 'quick' else 20):
        rows = []
        for _ in range(1 + k % 3):
            a, b = mk(False, k % 2 == 0), mk(True, k % 2 == 1)
            rows.append([Lit('CT_INTEGER', a.text, a.val, None), Lit('CT_DOUBLE', b.text, b.val, None), lit('CT_VARCHAR', k % 4) if k % 2 else None])
        out.append(s_calc('A', rows, None))
        out.append(s_calc('A', [[r[1], r[2], r[0]] for r in rows], ['d', 's', 'i']))
    jobs += jobs_of('several computed values', su, out, 4)
    jobs.append(("a number subtracted without a blank before it", su, [s_calc('A', [[Lit('CT_INTEGER', '5-3', C(2), None)]], ['i'])]))
    bad = ["INSERT INTO A (s) VALUES ('a' + 'b');", "INSERT INTO A (s) VALUES (- 'a');", 'INSERT INTO A (i) VALUES (1 + 1.5);', "INSERT INTO A (i) VALUES (1 + 'x');", 'INSERT INTO A (d) VALUES (2.0 * 3);', 'INSERT INTO A (i) VALUES (TRUE + 1);', 'INSERT INTO A (i) VALUES (- TRUE);', 'INSERT INTO A (i) VALUES (1.5 + 1.5);', 'INSERT INTO A (d) VALUES (1 + 1);',
           'INSERT INTO A (s) VALUES (1 + 1);', 'INSERT INTO A (i) VALUES (i + 1);', 'INSERT INTO A (i) VALUES (1 +);', 'INSERT INTO A (i) VALUES (* 1);', 'INSERT INTO A (i) VALUES ((1 + 2);', 'INSERT INTO A (i) VALUES (1 + 2));', 'INSERT INTO A (i) VALUES (1 ^ 2);', 'INSERT INTO A (i) VALUES (1 MOD 2);', "INSERT INTO A (i, d) VALUES (1 + 1, 1.5 + 'x');", "INSERT INTO A (i) VALUES (1 + 1), (2 + 'x');"]
    jobs += jobs_of('a computation over other types', su, [s_refuse(q) for q in bad], 10)
    return jobs


def s_calc(name, rows, cols):
    return s_insert(name, [[None if v is None else Lit(v.ty, v.sql, v.val, 'computed') for v in r] for r in rows], cols)


# ------------------------------------------------------------ no storage to be had
PARTS = 8
LOCK = 1 << 20        # the number of the "allocation" that stands for taking a lock


def failing(job):
    """a statement, once for every allocation it makes, with that allocation refused"""
    key, setup, s, part, step = job
    out, cov, n, why = [], set(), 0, None

    def note(m, l=None, t=None, k=0):
        out.append((m, l, t, s[-1] + (' with allocation %d refused' % k if k != LOCK else ' when no lock can be taken')))

    def work():
        nonlocal n
        k = part + 1
        while len(out) < 6:
            E = D = None
            try:
                E, D = fresh(setup)
                D.st.ghost['allocs'] = 0
                E.fail_allocs = k if k != LOCK else False
                E.lock_fails = k == LOCK
                if TX.LOCKS:
                    D.st.ghost['catalogue'] = E.catalogue(D.st)
                st, na, msg, o = D.execute(s[-1])
                E.fail_allocs = E.lock_fails = False
                cov.update(E.covered)
                failed = D.st.ghost.pop('failed', 0)
                if not failed:
                    return
                n += 1
                d = None
                if TX.LOCKS and not E.bads:
                    d = held(E, D)
                if d or E.bads:
                    pass
                elif st == 'none':
                    d = unchanged(D)
                elif st == 'ST_ERROR':
                    d = unchanged(D)
                    if d:
                        d = 'the statement fails half way: ' + d
                else:
                    d = judge(E, D, s, st, na, msg, o)
                    if d:
                        d = 'the statement does not report that storage ran out: ' + d
                if not d and st != 'none':
                    D.release(o)
                if TX.LOCKS:
                    d = d or (held(E, D) if not E.bads else None)
                elif not d and not E.bads:
                    left = D.leaks(D.before, None)
                    if left:
                        d = 'storage allocated at %s is never released' % where_str(D.st.mem[left[0]].site)
                if not d and not E.bads and st in ('ST_ERROR', 'none') and (k // step) % 6 == part % 6:
                    d = do(E, D, s)     # the same statement with storage at hand
                    if d:
                        d = 'after a failure, the same statement goes wrong: ' + d
                for b, l, t in E.bads[:2]:
                    note('memory: ' + b, l, trace_str(t), k)
                if d:
                    note(d, None, None, k)
            except Setup as e:
                note(str(e))
                return
            except (Fork, BadHeap, PathEnd) as e:
                for b, l, t in E.bads[:2]:
                    note('memory: ' + b, l, trace_str(t), k)
                if not E.bads:
                    note('the statement ends the process' if isinstance(e, Fork) else 'the database is damaged: %s' % e, None, None, k)
            k += step
            if part == LOCK - 1:
                return
    try:
        limited(work, LIMIT.get(os.environ.get('VERIF_TIER', 'quick'), 60) * 2)
    except (Budget, Slow) as e:
        why = str(e) or 'processor time'
    return key, out, cov, why, n


def meeting(job):
    """two statements at once: the other one gets the lock of the database just before the first would take it"""
    key, setup, pairs = job
    out, cov, n, why = [], set(), 0, None

    def work():
        nonlocal n
        for s, other in pairs:
            text = '%s while another thread carries out %s' % (s[-1], other[-1])
            E = None
            try:
                E, D = fresh(setup)
                E.meet = other[-1]
                D.st.ghost['catalogue'] = E.catalogue(D.st)
                st, na, msg, o = D.execute(s[-1])
                cov.update(E.covered)
                if 'met' not in D.st.ghost:
                    if not E.bads:
                        out.append(('the statement does not take the lock of the database', None, None, text))
                    continue
                n += 1
                d = None
                if not E.bads:
                    d = held(E, D)
                if not d and not E.bads:
                    if other[1] not in D.model:
                        D.model[other[1]] = Tab(other[1], other[2])
                        own = s if s[1] != other[1] or 'IF NOT EXISTS' in s[-1] else s_refuse(s[-1])
                    else:
                        own = s
                    d = judge(E, D, own, st, na, msg, o)
                for b, l, t in E.bads[:2]:
                    out.append(('memory: ' + b, l, trace_str(t), text))
                if d:
                    out.append(('two statements that meet: ' + d, None, None, text))
            except Setup as e:
                out.append((str(e), None, None, text))
                return
            except (Fork, BadHeap, PathEnd) as e:
                for b, l, t in E.bads[:2]:
                    out.append(('memory: ' + b, l, trace_str(t), text))
                if not E.bads:
                    out.append(('the statement ends the process' if isinstance(e, Fork) else 'the database is damaged: %s' % e, None, None, text))
    try:
        limited(work, LIMIT.get(os.environ.get('VERIF_TIER', 'quick'), 60))
    except (Budget, Slow) as e:
        why = str(e) or 'processor time'
    return key, out, cov, why, n


def meetings():
    su = (('meet',), [('A', [Col('CT_INTEGER', 'i'), Col('CT_VARCHAR', 's', 20)], [[lit('CT_INTEGER', 0), lit('CT_VARCHAR', 1)], [None, None]])])
    mk = lambda ine, *names: [made(n, [column('k', t), column('v', 'VARCHAR(9)')], ine=ine) for n in names for t in ('INT', 'DATE')]
    out = []
    for ine in (False, True):
        for s in mk(ine, 'B') + [made('B', [column('c%d' % i, 'INT') for i in range(20)], ine=ine)]:
            for o in mk(False, 'B', 'C') + mk(True, 'B', 'BB') + [made('B', [column('k%d' % i, 'INT') for i in range(9)])]:
                out.append(('CREATE @%d' % len(out), su, [(s, o)]))
    return out


def shortage(tier):
    I, S, D = (lambda k: lit('CT_INTEGER', k)), (lambda k: lit('CT_VARCHAR', k)), (lambda k: lit('CT_DOUBLE', k))
    A = [Col('CT_INTEGER', 'i'), Col('CT_VARCHAR', 's', 20), Col('CT_DATE', 'd')]
    B = [Col('CT_INTEGER', 'k'), Col('CT_VARCHAR', 'v', 9)]
    su = (('short',), [('A', A, [[I(0), S(1), lit('CT_DATE', 1)], [I(1), None, None], [I(2), S(0), lit('CT_DATE', 0)]]), ('B', B, [[I(0), S(1)], [I(1), None]]), ('E', B, [])])
    two = ('or', ('cmp', '=', 'i', I(0)), ('in', 's', [S(0), S(2)], False))
    l = [('INSERT', s_insert('A', [[I(0), S(1), lit('CT_DATE', 1)]])), ('INSERT', s_insert('E', [[None, S(0)]], ['k', 'v'])), ('INSERT of several rows', s_insert('A', [[I(0), S(1), None], [I(2), S(3), None]])),
         ('INSERT', s_calc('B', [[Lit('CT_INTEGER', '600456 + 2 * 3', ('l', 6, ((I(2).val, 1),)), None), None]], None)),
         ('DELETE', s_delete('A', two)), ('DELETE', s_delete('B')), ('DELETE', s_delete('A', ('null', 'd', True))),
         ('UPDATE', s_update('A', [('s', S(2)), ('i', I(3))], ('null', 's', False))), ('UPDATE', s_update('A', [('d', None), ('s', S(4))], two)), ('UPDATE', s_update('B', [('k', I(4))])),
         ('CREATE', made('C', [column('a', 'INT', ('NOT NULL',)), column('b', 'VARCHAR(9)')], [(2, 'PRIMARY KEY (a)', {'a': PK}), (0, 'INDEX (b)', {'b': IX})])), ('CREATE', made('C', [column('a', 'DATE', ('UNIQUE',))], ine=True)),
         ('SELECT', s_select(['s', 'i'], [('A', None)], ('and', ('cmp', '<>', 'i', I(0)), ('null', 's', True)))), ('SELECT', s_select(['*'], [('A', None)])), ('SELECT', s_select(['x.v'], [('B', 'x')], ('in', 'k', [I(0)], True))),
         ('SELECT with COUNT or GROUP BY', s_select(['s', 'COUNT(*)'], [('A', None)], group=['s'])), ('SELECT with COUNT or GROUP BY', s_select(['COUNT(*)'], [('A', None)], two)),
         ('SELECT over two tables', s_select(['i', 'v'], [('A', None), ('B', None)], on=('cmp', '=', 'i', 'k'))), ('SELECT over two tables', s_select(['s', 'k'], [('A', None), ('B', None)], ('cmp', '=', 's', 'v'))),
         ('a refused statement', s_refuse('DELETE FROM A WHERE zz = 1;')), ('a refused statement', s_refuse('INSERT INTO B VALUES (1, 2, 3);')), ('a refused statement', s_refuse("SELECT i FROM A WHERE i = 'x';")), ('a refused statement', s_refuse('UPDATE A SET i = ;'))]
    if tier == 'quick':
        l = [x for i, x in enumerate(l) if i not in (1, 5, 6, 9, 11, 13, 16, 20)]
    # enough columns for the tables of names the analysis keeps to grow
    W = [Col('CT_INTEGER', 'c%d' % i) for i in range(9)]
    sw = (('wide',), [('W', W, [[I(i % 5) for i in range(9)]])])
    w = [('CREATE of many columns', made('C', [column('c%d' % i, 'INT') for i in range(9)])), ('SELECT from many columns', s_select(['c0'], [('W', None)], ('cmp', '=', 'c8', I(3)))),
         ('UPDATE of many columns', s_update('W', [('c0', I(2))], ('cmp', '=', 'c8', I(3)))), ('DELETE from many columns', s_delete('W', ('cmp', '=', 'c0', I(0)))), ('INSERT into many columns', s_insert('W', [[I(0)] * 9], ['c%d' % i for i in range(9)]))]
    step = PARTS * (5 if tier == 'quick' else 1)
    return ([('%s without storage @%d' % (k, i), su, s, p, PARTS) for i, (k, s) in enumerate(l) for p in range(PARTS)] +
            [('%s without storage @%d' % (k, i), sw, s, p, step) for i, (k, s) in enumerate(w) for p in range(PARTS)])


# ------------------------------------------------------------ the checks
TRUST = ['The scanner and parser are analysed as generated by flex and bison from the current grammar; regcomp, strptime and mktime behave as the C library documents.']


def finish(R, rules, expl):
    R.rules = rules
    R.assumptions = list(TRUST)
    return expl + ' %d statements analysed, each from its text to the state it leaves.' % R.obligations


def definitions(R):
    run_text(R, creates(R.tier), 'CREATE TABLE statements')
    R.need('CREATE TABLE statements', 150)
    return finish(R, ['After a CREATE TABLE that succeeds the database has the table with exactly the declared columns, in order, each with its type, length, nullability, uniqueness, key, index and auto-increment flag; no other table or row changes.',
                      'A CREATE TABLE with a repeated column or table name, an undeclared key column or too many columns is refused and changes nothing; with IF NOT EXISTS an existing table is left alone.'],
                  'Abstract interpretation of query_execute over enumerated definitions: every type, attribute and their combinations, table-level keys and indexes at every position, 1 to 129 columns, names up to the limit.')


def strictness(R):
    run_text(R, refusals(R.tier), 'statements that must be refused')
    R.need('statements that must be refused', 250)
    return finish(R, ['A statement that breaks a rule of the schema ends with an error status, and every table still holds exactly what it held before.', 'Statements after a refused one behave as if it had not been there.'],
                  'Abstract interpretation of query_execute over statements that each break one rule: type of a value, NOT NULL, length, number of values, unknown tables and columns, uniqueness; in INSERT, UPDATE, DELETE, SELECT and CREATE.')


def writing(R):
    run_text(R, spellings(R.tier), 'respelled statements')
    R.need('respelled statements', 120)
    return finish(R, ['A statement in another spelling has exactly the effect of the statement.'],
                  'Abstract interpretation of query_execute over %d ways of spelling x statements of every kind.' % len(SPELL))


def literals(R):
    run_text(R, words(R.tier), 'statements with a name or literal')
    R.need('statements with a name or literal', 120)
    return finish(R, ['A literal written in a statement is the value stored, compared and returned; a name means the column or table of exactly that name.'],
                  'Abstract interpretation of query_execute over enumerated literals (integers and doubles to the limits of their types, strings with every kind of character and many lengths, dates) and names.')


def computing(R):
    run_text(R, arithmetic(R.tier), 'INSERT of computed values')
    R.need('INSERT of computed values', 150)
    return finish(R, ['The value stored for an expression is its value: a term over the operands, compared for all values of the operands that are unknown.'],
                  'Abstract interpretation of query_execute over enumerated expressions of + - * / % and negation, one operation and nested, over unknown and known operands.')


def supported(R):
    run_text(R, unsupported(R.tier), 'statements that cannot be carried out')
    R.need('statements that cannot be carried out', 300)
    return finish(R, ['A statement outside of what the engine carries out ends with an error status; it changes nothing, and does not end the process.'],
                  'Abstract interpretation of query_execute over statements with clauses, expressions and text outside of what the engine supports.')


def messages(R):
    TX.MESSAGES = True
    jobs = [j for j in unsupported(R.tier) if j[0] not in IGNORED] + [j for j in refusals(R.tier) if not j[0].startswith(('a second', 'statements after'))]
    run_text(R, jobs, 'refused statements')
    R.need('refused statements', 500)
    return finish(R, ['The error message of a refused statement is a terminated, printable text that is not empty.'], 'Abstract interpretation of query_execute over statements of all kinds that are refused in the scanner, the parser, the semantic phase and the executor.')


def storage_released(R):
    TX.LEAKS = True
    pick = (lambda l, k: l[::k]) if R.tier == 'quick' else (lambda l, k: l)
    jobs = [j for j in unsupported(R.tier) if j[0] not in IGNORED] + creates(R.tier)
    jobs += [j for j in refusals(R.tier) if not j[0].startswith('a second')]
    import checks.families as F
    for f, k in ((F.comparisons, 3), (F.nulls, 3), (F.logic, 4), (F.assigns, 3), (F.inserts, 2), (F.projections, 3), (F.groupings, 3), (F.joins, 3)):
        jobs += pick(f(R.tier), k)
    run_text(R, jobs, 'statements')
    R.need('statements', 700)
    return finish(R, ['When a statement has been carried out or refused and its output has been given to query_free, every allocation made meanwhile is either reachable from the database or released; none is released twice or used afterwards.'],
                  'Abstract interpretation of query_execute and query_free over statements of every kind, refused ones included, with a heap in which every allocation is followed.')


def locking(R):
    TX.LOCKS = True
    import checks.families as F
    every = lambda l, k: l[::k] if R.tier == 'quick' else l
    jobs = creates(R.tier) + every([j for j in refusals(R.tier) if not j[0].startswith('a second')], 3) + every([j for j in unsupported(R.tier) if j[0] not in IGNORED], 3)
    for f, k in ((F.comparisons, 9), (F.inserts, 6), (F.projections, 6), (F.groupings, 6), (F.joins, 6)):
        jobs += every(f(R.tier), k)
    run_text(R, jobs, 'statements')
    l = shortage('thorough')
    jobs = [j for j in l if 'CREATE' in j[0] and 'many' not in j[0] or R.tier == 'thorough'] + [(j[0] + ' locks',) + j[1:3] + (LOCK - 1, 1) for j in l if j[3] == 0]
    run_text(R, jobs, 'statements without a lock or storage', unit=failing)
    run_text(R, meetings(), 'pairs of CREATE TABLE that meet', unit=meeting)
    R.need('statements', 300)
    R.need('statements without a lock or storage', 20)
    R.need('pairs of CREATE TABLE that meet', 40)
    return finish(R, ['When a statement has ended, by whatever path, no lock of the database or of a table is held; none is taken twice, released without being held, or destroyed while held or twice; a table released has had its lock destroyed.',
                      'What tables the database has changes only between taking and releasing its lock; a statement that cannot take the lock fails and changes nothing.',
                      'When another thread creates a table while a CREATE TABLE waits for the lock, that table stays as it is: the waiting statement is refused if it wants the same name, leaves it alone with IF NOT EXISTS, and is carried out otherwise.'],
                  'Typestate of every lock along the abstract interpretation of query_execute and query_free, over statements of every kind, carried out, refused, and with each allocation or the lock itself refused; the catalogue is compared at every lock operation.')


def no_storage(R):
    run_text(R, shortage(R.tier), 'statements', unit=failing)
    R.need('statements', 80)
    R.assumptions = []
    expl = finish(R, ['With any one allocation refused, a statement either has its full effect and says so, or ends with an error status and every table as before; it does not end the process, nothing is lost or released twice, and the same statement then works.'],
                  'Abstract interpretation of query_execute with the n-th allocation returning NULL, for every n and statements of every kind; allocations inside the generated scanner are not refused.')
    return expl
