"""Row-program analyses: what DELETE / UPDATE / SELECT do to one generic row.

The abstract input is a table with a symbolic number of columns, symbolic
column positions, a symbolic row size and an unknown list of blocks; the
statement tree is partitioned by node kind, operator, column type, operand
shape, relative order of the two operands and nullness (a finite set), and the
oracle is the meaning of the SQL operator.
"""
from engine import *
from engine import z_add, z_le, lin_diff, lin_parts, mk_cmp, _skey

CMP = {'=': 'AST_CMP_EQUALS_OP', '>=': 'AST_CMP_GTE_OP', '>': 'AST_CMP_GT_OP', '<=': 'AST_CMP_LTE_OP',
       '<': 'AST_CMP_LT_OP', '<>': 'AST_CMP_DIFF_OP'}


def holds(op, o):
    """does  left op right  hold when left is ordered o (-1,0,1) relative to right"""
    return {'=': o == 0, '<>': o != 0, '<': o < 0, '<=': o <= 0, '>': o > 0, '>=': o >= 0}[op]


TYPES = ['CT_INTEGER', 'CT_DOUBLE', 'CT_TINYINT', 'CT_DATE', 'CT_DATETIME', 'CT_VARCHAR']
ORDERED = ['CT_INTEGER', 'CT_DOUBLE', 'CT_DATE', 'CT_DATETIME']


class RowEngine(Engine):
    max_states = 40000

    def __init__(self, prog, scen):
        super().__init__(prog)
        P = prog
        self.scen = scen
        self.T = {k: P.off('table', k) for k in ('columns', 'column_count', 'datablock_head')}
        self.colsize = P.records['column']['size']
        self.colarr = P.field('table', 'columns')['s']
        self.c_name = P.off('column', 'name')
        self.c_type = P.off('column', 'type')
        self.c_prec = P.off('column', 'precision')
        self.r_empty = P.off('row', 'flags.empty')
        self.r_deleted = P.off('row', 'flags.deleted')
        self.r_null = P.off('row', 'null_bitmap')
        self.r_nullsz = P.field('row', 'null_bitmap')['s']
        self.r_data = P.off('row', 'data')
        self.b_data = P.off('datablock', 'data')
        self.b_head = P.off('datablock', 'head')
        self.b_page = P.field('datablock', 'data')['s']
        self.o_aff = P.off('query_output', 'n_rows_aff')
        self.RS = scen.get('rs') or 1024
        self.rs = C(self.RS)
        self.nrows = self.b_page // self.RS
        self.N = ('s', 'N')
        self.prov = {}
        self.viol = []
        self.viol_count = []
        self.viol_total = []
        self.keep_concrete = self.nrows + 8
        self.walk_mode = 2 if 'blocks' in scen else 1
        self.row_accesses = 0
        self.models.update({
            'database_table_exists': self.m_exists, 'database_table_get': self.m_get,
            'table_calc_row_size': self.m_rowsize, 'table_calc_column_space': self.m_colspace,
            'bit_test': self.m_bit_test, 'bit_set': self.m_bit_set, 'bit_clear': self.m_bit_clear,
            'strptime': self.m_strptime, 'mktime': self.m_mktime, 'strncpy': self.m_strncpy,
            'snprintf': self.m_snprintf, 'strncmp': self.m_strncmp,
            'table_check_var_column': self.m_isvar,
        })

    # ------------------------------------------------------------ set-up
    def setup(self):
        st = State()
        z = st.zone
        z_add(z, None, self.N, -1)
        z_add(z, self.N, None, 128)
        for c in self.scen['cols']:
            s = ('s', c)
            z_add(z, None, s, 0)
            z_add(z, s, self.N, -1)
        cs = list(self.scen['cols'])
        for i in range(len(cs)):
            for j in range(i):
                a, b = ('s', cs[i]), ('s', cs[j])
                st.facts[mk_cmp('eq', a, b)] = 0
        self.table = self.new_obj(st, 'lazy', tag='table')
        st.mem[self.table].extra = ('root',)
        self.dbhead = self.new_obj(st, 'lazy', tag='dbhead')
        st.mem[self.dbhead].extra = ('root',)
        st.mem[self.table].cells[((), self.T['datablock_head'])] = (('p', self.dbhead, (), 0), 8, False)
        st.mem[self.table].cells[((), self.T['column_count'])] = (self.N, 4, False)
        self.output = self.new_obj(st, 'lazy', tag='output')
        st.mem[self.output].extra = ('root',)
        self.db = self.new_obj(st, 'lazy', tag='db')
        st.ghost = {'row': None, 'eff': 0, 'aff': 0, 'pend': 0, 'done': 0, 'w': (), 'blocks': 0, 'tot': 0, 'cur': None}
        if 'blocks' in self.scen:
            st.mem[self.output].cells[((), self.o_aff)] = (C(0), self.P.field('query_output', 'n_rows_aff')['s'], False)
        return st

    def node(self, st, rec, ntype, fields, children):
        """explicit statement-tree node; children: list of (obj, rec)"""
        P = self.P
        o = self.new_obj(st, 'lazy', C(P.records[rec]['size']), tag='ast', zero=True)
        st.mem[o].zero = True
        h = self.new_obj(st, 'lazy', tag='ast', zero=True)
        m = st.mem[o].cells
        m[((), P.off(rec, 'node_type'))] = (C(P.enum(ntype)), 4, False)
        m[((), P.off(rec, 'node_children_head'))] = (('p', h, (), 0), 8, False)
        for f, v in fields.items():
            fi = P.field(rec, f)
            if v[0] == 'x' and v[1] == 'str':
                m[((), fi['o'])] = (v, 1, False)
            else:
                m[((), fi['o'])] = (v, fi['s'], False)
        nx, pv = P.off('list_head', 'next'), P.off('list_head', 'prev')
        chain = [('p', h, (), 0)]
        for (c, crec) in children:
            chain.append(('p', c, (), P.off(crec, 'head')))
        for i, p in enumerate(chain):
            nxt = chain[(i + 1) % len(chain)]
            prv = chain[i - 1]
            st.mem[p[1]].cells[((), p[3] + nx)] = (nxt, 8, False)
            st.mem[p[1]].cells[((), p[3] + pv)] = (prv, 8, False)
        return o

    # ------------------------------------------------------------ memory hooks
    def colref(self, p):
        """(index value, field offset) when p points into table->columns[index]"""
        off = p[3] - self.T['columns']
        ts = p[2]
        if any(k % self.colsize for a, k in ts):
            return None
        if not ts and not (0 <= off < self.colarr):
            return None
        q, r = divmod(off, self.colsize)
        return mk_lin(q, {a: k // self.colsize for a, k in ts}), r

    def colidx(self, st, e):
        """which scenario column is index e"""
        e = st.res(e)
        for c in self.scen['cols']:
            if st.res(('s', c)) == e:
                return c
        return None

    def rowsplit(self, p):
        """(offset of the row in the page, offset inside the row) of a pointer into a block"""
        off = p[3] - self.b_data
        base = off // self.RS * self.RS
        return base, mk_lin(off - base, dict(p[2]))

    def is_block(self, st, p):
        o = st.mem.get(p[1])
        return o is not None and o.tag == 'block'

    def lazy_value(self, st, oid, key, size, ty, ins):
        o = st.mem[oid]
        p = ('p', oid, key[0], key[1])
        if o.tag == 'table':
            cr = self.colref(p)
            if cr is not None:
                e, f = cr
                c = self.colidx(st, e)
                if c is not None:
                    if f == self.c_type:
                        return C(self.P.enum(self.scen['cols'][c]))
                    if f == self.c_prec:
                        return self.prec(c)
            return None
        if o.tag == 'block':
            rt, off = self.rowsplit(p)
            v = self.row_value(st, rt, off, size)
            if v is not None:
                return v
        if ty == 'ptr':
            s = self.sym()
            self.prov[s] = (o.tag, key, oid)
            return s
        return None

    def prec(self, c):
        if self.scen['cols'][c] == 'CT_VARCHAR':
            return ('s', 'prec' + c)
        return C(1 if self.scen['cols'][c] == 'CT_TINYINT' else 8)

    def row_value(self, st, rt, off, size):
        for c, t in self.scen['cols'].items():
            want = add(pfx(st.res(('s', c))), C(self.r_data))
            if off == want:
                need = 1 if t == 'CT_TINYINT' else 8
                if size == need:
                    v = self.scen.get('vals', {}).get(c)
                    if v is not None:
                        return v
                    return ('s', 'R' + c)
        return None

    def lazy_target(self, st, s, ins):
        if isinstance(s[1], str) and s[1].startswith('R'):
            return self.new_obj(st, 'lazy', tag='str:' + s[1])
        pr = self.prov.get(s)
        if pr and pr[0] in ('dbhead', 'block'):
            self.leave_row(st, ins)
            if st.ghost['pend']:
                self.report(st, 'block skipped before its rows were examined', ins)
            nb = st.ghost['blocks'] + 1
            if nb > self.scen.get('blocks', 1 << 30):
                raise PathEnd('enough blocks')
            if 'blocks' in self.scen:
                st.ghost['blocks'] = nb
            st.ghost['pend'] = 1
            oid = self.new_obj(st, 'lazy', tag='block')
            st.ghost['cur'] = ('p', oid, (), self.b_head)
            return ('p', oid, (), self.b_head)
        return self.new_obj(st, 'lazy')

    def on_rekey(self, st, oid, key):
        o = st.mem[oid]
        c = o.cells.get(key)
        if o.kind != 'lazy' or c is None or not c[2]:
            return
        v = st.res(c[0])
        w = self.lazy_value(st, oid, key, c[1], 'i%d' % (8 * c[1]), None)
        if w is not None and w != v and v[0] == 's' and not isinstance(v[1], str):
            self.bind(st, v, w)

    def wide(self, st, s):
        return isinstance(s[1], str) and (s[1][0] in 'RLV')

    # ------------------------------------------------------------ row events
    def report(self, st, msg, ins, extra=None):
        self.viol.append((msg, self.cur_loc(ins or self.cur), st.trace_list()[-14:]))

    def report_count(self, st, msg, ins):
        self.viol_count.append((msg, self.cur_loc(ins or self.cur), st.trace_list()[-14:]))

    def leave_row(self, st, ins):
        """the scan moves on: judge the row it was at"""
        g = st.ghost
        if g['row'] is None or g['done']:
            return
        self.finish_row(st, ins)
        if self.scen.get('one_row'):
            raise PathEnd('one row')
        row = st.res(g['row'])
        e, d = self.flags(st, row)
        if e is True or row[3] + 2 * self.RS > self.b_page:
            g['pend'] = 0
        self.drop_row(st)
        g['done'] = 1

    def touch(self, st, p, ins):
        """an access to a row: judge the previous row when a new one starts"""
        base, off = self.rowsplit(p)
        row = ('p', p[1], (), base)
        g = st.ghost
        cur = st.res(g['row']) if g['row'] is not None else None
        self.row_accesses += 1
        if base + self.RS > self.b_page:
            self.report(st, 'a row slot reaching past the end of the page is accessed', ins)
            raise PathEnd('past the page')
        if cur != row:
            self.leave_row(st, ins)
            if cur is None or cur[1] != p[1]:
                if base != 0:
                    self.report(st, 'scan of a block does not start at its first row', ins)
                    raise PathEnd('reported')
            elif base != cur[3] + self.RS:
                self.report(st, 'rows are not visited one after the other (from byte %d to byte %d of the page, rows are %d bytes)' % (cur[3], base, self.RS), ins)
                raise PathEnd('reported')
            g['done'] = 0
            g['row'] = row
        elif g['done']:
            g['done'] = 0
        return base, off

    def flags(self, st, row):
        o = st.mem.get(row[1])
        out = []
        for f in (self.r_empty, self.r_deleted):
            c = o.cells.get(((), self.b_data + row[3] + f)) if o is not None else None
            if c is None:
                out.append(None)
                continue
            v = st.res(c[0])
            if v[0] == 'c':
                out.append(bool(v[1]))
            else:
                f = st.facts.get(mk_cmp('eq', v, C(0)))
                out.append(None if f is None else not f)
        return out

    def on_load(self, st, p, v, size, ins):
        if self.is_block(st, p):
            rt, off = self.rowsplit(p)
            if p[2] == () and not 0 <= p[3] - self.b_data < self.b_page:
                return     # block header / list links
            self.touch(st, p, ins)

    def on_store(self, st, p, v, size, ins):
        o = st.mem.get(p[1])
        if o is None:
            return
        if o.tag == 'block':
            rt, off = self.touch(st, p, ins)
            if off == C(self.r_deleted) and size == 1:
                v = st.res(v)
                if v == C(0):
                    self.report(st, 'deleted flag cleared on a scanned row', ins)
                    return
                e, d = self.flags(st, ('p', p[1], (), rt))
                if e is not False or d is not False:
                    self.report(st, 'a row that is not live is marked deleted', ins)
                self.row_effect(st, 'del', ins)
            elif off == C(self.r_empty):
                self.report(st, 'the empty flag of a scanned row is written', ins)
            else:
                self.row_write(st, off, v, size, ins)
        elif o.tag == 'output' and (p[2], p[3]) == ((), self.o_aff):
            cur = o.cells.get(((), self.o_aff))
            d = add(st.res(v), st.res(cur[0]), -1) if cur is not None else None
            if d is not None and d[0] == 'c':
                st.ghost['aff'] = st.ghost['aff'] + d[1]
            elif v != C(0) or st.ghost['row'] is not None:
                st.ghost['aff'] = 99
        elif o.tag in ('table', 'dbhead', 'ast', 'db'):
            self.report(st, 'the scan writes to the %s' % {'table': 'table header', 'dbhead': 'block list', 'ast': 'statement tree', 'db': 'database'}[o.tag], ins)

    def row_effect(self, st, what, ins):
        if st.ghost['eff'] and what == 'del':
            self.report(st, 'row affected twice', ins)
        st.ghost['eff'] = 1

    def row_write(self, st, off, v, size, ins):
        st.ghost['w'] = st.ghost['w'] + (('data', off, st.res(v), size if isinstance(size, int) else 0),)

    def on_copy(self, st, d, s, n, x):
        if self.is_block(st, d):
            rt, off = self.touch(st, d, x)

    def finish_row(self, st, ins):
        g = st.ghost
        row = st.res(g['row'])
        e, d = self.flags(st, row)
        self.judge_row(st, e, d, ins)
        g['eff'] = 0
        g['aff'] = 0
        g['w'] = ()

    def judge_row(self, st, e, d, ins):
        """DELETE semantics; subclasses override"""
        g = st.ghost
        expected = self.expected(st)
        self.checked = getattr(self, 'checked', 0) + 1
        if g['eff']:
            if not expected:
                self.report(st, 'a row that does not satisfy the condition is removed', ins)
        else:
            if expected and not (e is True or d is True):
                self.report(st, 'a live row that satisfies the condition is not removed', ins)
        self.effect_done(st, g['eff'])
        if self.scen.get('count', True) and g['aff'] != g['eff']:
            self.report_count(st, 'affected-row count changes by %s for a row %s' % (g['aff'], 'affected' if g['eff'] else 'not affected'), ins)

    def expected(self, st):
        x = self.scen['expect']
        return x(self, st) if callable(x) else x

    def widened_cell(self, st, oid, key, v):
        return self.sym()

    def recursion(self, st, target, args, x):
        return None       # the statement tree is explicit and finite: analyse the recursive call too

    # ------------------------------------------------------------ scan bookkeeping
    def effect_done(self, st, n):
        if 'blocks' in self.scen:
            st.ghost['tot'] = st.ghost['tot'] + n

    def forgettable(self, obj):
        return obj.tag is None or obj.tag == 'block'

    def drop_row(self, st):
        if 'blocks' not in self.scen:
            for oid, o in st.mem.items():
                if o.tag == 'output' and ((), self.o_aff) in o.cells:
                    del st.wr(oid).cells[((), self.o_aff)]
                    break
        row = st.res(st.ghost['row'])
        if row[1] not in st.mem:
            return
        o = st.wr(row[1])
        for (ts, off) in list(o.cells):
            if self.b_data <= off < self.b_data + self.b_page and self.rowsplit(('p', row[1], ts, off))[0] == row[3]:
                del o.cells[(ts, off)]

    def list_ended(self, st):
        """the last block reached links to the list head"""
        cur = st.ghost['cur']
        cur = st.res(cur) if cur is not None else ('p', self.dbhead, (), 0)
        o = st.mem.get(cur[1])
        if o is None:
            return False
        for f in ('next', 'prev'):
            c = o.cells.get(((), cur[3] + self.P.off('list_head', f)))
            if c is not None:
                v = st.res(c[0])
                if v == ('p', self.dbhead, (), 0) or st.facts.get(mk_cmp('eq', v, ('p', self.dbhead, (), 0))):
                    return True
        return False

    def run_entry(self, fn, args, st, ok=0):
        """analyse the entry point; judge what is left at its returns"""
        outs = self.run_root(fn, args, st)
        self.callstack = [fn]
        for rv, s in outs:
            g = s.ghost
            if rv == C(ok):
                try:
                    self.leave_row(s, None)
                except PathEnd:
                    continue
                self.ok_returns = getattr(self, 'ok_returns', 0) + 1
                if g['pend']:
                    self.report(s, 'success is returned although a scan stopped before the last row of a block', None)
                elif not self.list_ended(s):
                    self.report(s, 'success is returned although a block was not examined', None)
                if 'blocks' in self.scen and self.scen.get('count', True):
                    c = s.mem[self.output].cells.get(((), self.o_aff)) if self.output in s.mem else None
                    v = s.res(c[0]) if c is not None else C(0)
                    if v != C(g['tot']):
                        self.report_total(s, 'the affected-row count is %s after %d rows were affected' % (show_val(v), g['tot']))
        self.callstack = []
        return outs

    def report_total(self, st, msg):
        self.viol_total.append((msg, self.cur_loc(self.cur), st.trace_list()[-14:]))

    def reach_fns(self, f):
        c = getattr(self.P, '_reach', None)
        if c is None:
            c = self.P._reach = {}
        if f.key in c:
            return c[f.key]
        out = set()
        work = [f]
        while work:
            g = work.pop()
            for b in g.blocks:
                for x in b:
                    if x['op'] == 'call' and 'g' in x.get('callee', {}):
                        t = self.P.resolve(g.mod, x['callee']['g'])
                        if t is not None and t.key not in out:
                            out.add(t.key)
                            work.append(t)
        c[f.key] = out
        return out

    # ------------------------------------------------------------ decisions
    def operand_of(self, v):
        """'R..'/'L'/… identity of a compared operand"""
        if v[0] == 's' and isinstance(v[1], str):
            return v[1]
        return None

    def order(self, a, b):
        """scenario order of two named operands, or None"""
        if a == b:
            return 0
        for x, y, o in self.scen.get('order', ()):
            if (a, b) == (x, y):
                return o
            if (b, a) == (x, y):
                return -o
        return None

    def str_operand(self, st, s):
        """identity of a string operand of strcmp"""
        if s[0] == 'x' and s[1] == 'str':
            p = st.res(s[2])
            if p[0] == 'p':
                o = st.mem.get(p[1])
                if o is not None and o.tag and o.tag.startswith('str:') and p[2] == () and p[3] == 0:
                    return o.tag[4:]
            elif p[0] == 's' and isinstance(p[1], str):
                return p[1]
        return None

    def decide_hook(self, st, v):
        op = v[1]
        if op in ('feq', 'flt'):
            a, b = self.operand_of(v[2]), self.operand_of(v[3])
            if a and b:
                o = self.order(a, b)
                if o is not None:
                    return o == 0 if op == 'feq' else o < 0
            return None
        if op in ('eq', 'lt'):
            a, b = v[2], v[3]
            x, y = self.operand_of(a), self.operand_of(b)
            if x and y:
                o = self.order(x, y)
                if o is not None:
                    return o == 0 if op == 'eq' else o < 0
            if a[0] == 'x' and b[0] == 'x' and a[1] == b[1] and a[1].startswith('trunc'):
                x, y = self.operand_of(a[2]), self.operand_of(b[2])
                if x and y and self.order(x, y) == 0:
                    return op == 'eq'
            for u, w, sign in ((a, b, 1), (b, a, -1)):
                if u[0] == 'x' and u[1] == 'strcmp' and w == C(0):
                    x, y = self.str_operand(st, u[2]), self.str_operand(st, u[3])
                    if x and y:
                        o = self.order(x, y)
                        if o is not None:
                            if op == 'eq':
                                return o == 0
                            return (o < 0) if sign == 1 else (o > 0)
        return None

    def fork_hook(self, st, v):
        if v[1] == 'eq':
            a, b = v[2], v[3]
            if b == C(0) and a[0] == 'x' and a[1] in ('strcmp', 'strncmp'):
                if a[1] == 'strncmp' and not (a[4][0] == 'c' and a[4][1] >= 128):
                    return None
                for s, n in ((a[2], a[3]), (a[3], a[2])):
                    if s[0] == 'x' and s[1] == 'str' and s[2][0] == 'p':
                        o = st.mem.get(s[2][1])
                        if o is not None and o.tag == 'table':
                            cr = self.colref(s[2])
                            col = self.name_of(n)
                            if cr is not None and cr[1] == self.c_name and col is not None:
                                e = cr[0]
                                if not col.startswith('C'):
                                    return [(False, st)]
                                return self.decide(st, mk_cmp('eq', e, ('s', col)))
        return None

    def name_of(self, s):
        """column symbol named by a string identity"""
        return self.scen['names'].get(s)

    # ------------------------------------------------------------ models
    def m_exists(self, E, st, args, x):
        return [(C(1 if self.scen.get('exists', True) else 0), st)]

    def m_get(self, E, st, args, x):
        return [(('p', self.table, (), 0), st)]

    def m_rowsize(self, E, st, args, x):
        return [(self.rs, st)]

    def m_colspace(self, E, st, args, x):
        p = E.deref(st, args[0], x)
        o = st.mem[p[1]]
        if o.tag == 'table':
            cr = self.colref(p)
            if cr is not None and cr[1] == 0:
                return [(add(pfx(add(cr[0], C(1))), pfx(cr[0]), -1), st)]
        return [(('x', 'space', p), st)]

    def m_isvar(self, E, st, args, x):
        p = E.deref(st, args[0], x)
        v = E.load(st, ('p', p[1], p[2], p[3] + self.c_type), 4, 'i32', x)
        return [(mk_cmp('eq', v, C(self.P.enum('CT_VARCHAR'))), st)]

    def bitref(self, E, st, args, x):
        p = E.deref(st, args[0], x)
        idx = st.res(args[1])
        if E.is_block(st, p):
            rt, off = self.touch(st, p, x)
            if off == C(self.r_null):
                return p, idx, self.colidx(st, idx)
        return p, idx, None

    def m_bit_test(self, E, st, args, x):
        p, idx, c = self.bitref(E, st, args, x)
        if c is not None and c in self.scen.get('null', {}):
            return [(C(1 if self.scen['null'][c] else 0), st)]
        return [(('x', 'bool', p, idx), st)]

    def m_bit_set(self, E, st, args, x):
        p, idx, c = self.bitref(E, st, args, x)
        self.bit_write(st, p, idx, c, 1, x)
        return [(C(0), st)]

    def m_bit_clear(self, E, st, args, x):
        p, idx, c = self.bitref(E, st, args, x)
        self.bit_write(st, p, idx, c, 0, x)
        return [(C(0), st)]

    def bit_write(self, st, p, idx, c, val, x):
        if self.is_block(st, p):
            st.ghost['w'] = st.ghost['w'] + (('bit', c or 'other', val, 0),)

    def m_strptime(self, E, st, args, x):
        s = E.str_id(st, args[0])
        f = E.cstr(st, args[1])
        d = E.deref(st, args[2], x, True)
        o = st.wr(d[1])
        clean = o.zero and not o.cells or (len(o.zr) > 0 and not o.cells)
        o.cells[(d[2], d[3])] = (('x', 'tm', s, ('x', 'cstr', f or b'?'), C(1 if clean else 0)), 1, False)
        return [(self.sym(), st)]

    def m_mktime(self, E, st, args, x):
        d = E.deref(st, args[0], x)
        c = st.mem[d[1]].cells.get((d[2], d[3]))
        v = c[0] if c else None
        if v is not None and v[0] == 'x' and v[1] == 'tm':
            if v[4] == C(1):
                lit = self.str_operand(st, v[2])
                fmt = v[3][2]
                return [(self.time_of(lit, fmt, v), st)]
        return [(('x', 'mktime', v if v is not None else C(0)), st)]

    FMT = {b'%Y-%m-%d': 'CT_DATE', b'%Y-%m-%d %H:%M:%S': 'CT_DATETIME'}

    def time_of(self, lit, fmt, v):
        t = self.FMT.get(fmt)
        if lit and t and t in self.scen['cols'].values():
            return ('s', lit)
        return ('x', 'mktime', v)

    def m_strncpy(self, E, st, args, x):
        d = E.deref(st, args[0], x, True)
        sid = E.str_id(st, args[1])
        n = st.res(args[2])
        o = st.mem[d[1]]
        if o.tag and o.tag.startswith('str:'):
            st.ghost['w'] = st.ghost['w'] + (('str', o.tag[4:] if d[2] == () and d[3] == 0 else '?', self.str_operand(st, sid) or '?', n),)
            return [(d, st)]
        o = st.wr(d[1])
        o.cells[(d[2], d[3])] = (sid, 1, False)
        return [(d, st)]

    def m_strncmp(self, E, st, args, x):
        return M_strncmp(E, st, args, x)

    def m_snprintf(self, E, st, args, x):
        d = E.deref(st, args[0], x, True)
        f = E.cstr(st, args[2])
        ids = tuple(E.str_id(st, a) if st.res(a)[0] == 'p' else st.res(a) for a in args[3:])
        o = st.wr(d[1])
        o.cells[(d[2], d[3])] = (('x', 'str', ('x', 'fmt', ('x', 'cstr', f or b'?')) + ids), 1, False)
        return [(self.sym(), st)]

    def on_bad(self, st, kind, ins, info=None):
        self.report(st, kind, ins)

    def on_abort(self, st, ins, name):
        self.report(st, 'the engine aborts (%s)' % name, ins)


def show_val(v):
    return str(v[1]) if v[0] == 'c' else 'not a known number'


def ev(v, env):
    """numeric value of a term under an assignment of its symbols"""
    if v in env:
        return env[v]
    t = v[0]
    if t == 'c':
        return v[1]
    if t == 'l':
        s = v[1]
        for a, k in v[2]:
            x = ev(a, env)
            if x is None:
                return None
            s += k * x
        return s
    if t == 'x':
        xs = [ev(a, env) if isinstance(a, tuple) else None for a in v[2:]]
        if any(x is None for x in xs):
            return None
        op = v[1]
        if op == 'mul':
            return xs[0] * xs[1]
        if op in ('udiv', 'sdiv'):
            return xs[0] // xs[1] if xs[1] else None
        if op in ('urem', 'srem'):
            return xs[0] % xs[1] if xs[1] else None
        if op == 'eq':
            return int(xs[0] == xs[1])
        if op == 'lt':
            return int(xs[0] < xs[1])
        if op == 'not':
            return int(not xs[0])
        if op == 'and':
            return int(xs[0] and xs[1])
        if op == 'or':
            return int(xs[0] or xs[1])
        if op.startswith('trunc') or op.startswith('lo'):
            return xs[0]
    return None
