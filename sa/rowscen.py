"""Finite partition of the statement trees handed to the row scans, and the
meaning of each of them."""
from rows import *
from engine import pfx, add

TV = {'CT_INTEGER': ('value_type.is_intnum', 'int_val'), 'CT_DOUBLE': ('value_type.is_approxnum', 'double_val'),
      'CT_TINYINT': ('value_type.is_bool', 'bool_val'), 'CT_DATE': ('value_type.is_str', 'str_val'),
      'CT_DATETIME': ('value_type.is_str', 'str_val'), 'CT_VARCHAR': ('value_type.is_str', 'str_val')}
LOGOP = {'and': 'AST_LOGOP_TYPE_AND', 'or': 'AST_LOGOP_TYPE_OR', 'xor': 'AST_LOGOP_TYPE_XOR'}


class NotFound(Exception):
    """a construct this analysis needs is not in the source any more"""


def strid(n):
    return ('x', 'str', ('s', n))


class Dialect:
    def __init__(self, P, name):
        self.P, self.name = P, name
        self.pre = {'delete': 'ast_del_', 'update': 'ast_upd_', 'select': 'ast_sel_'}[name]
        self.en = {'delete': 'AST_TYPE_DEL_', 'update': 'AST_TYPE_UPD_', 'select': 'AST_TYPE_SEL_'}[name]
        self.fn = self.find_entry()

    def find_entry(self):
        P = self.P
        if self.name == 'delete':
            f = P.fn('executor_run_deleteone_stmt')
        elif self.name == 'update':
            f = P.fn('executor_run_update_stmt')
        else:
            f = find_where_scan(P)
        if f is None:
            raise NotFound('entry point of the %s scan' % self.name)
        return f

    # ---- tree construction
    def operand(self, E, st, o):
        rec, nt = self.pre + 'exprval_node', self.en + 'EXPRVAL'
        if o[0] == 'col':
            if self.name == 'select':
                n = E.node(st, 'ast_sel_fieldname_node', 'AST_TYPE_SEL_FIELDNAME',
                           {'table_name': strid('nameT'), 'col_name': strid('name' + o[1])}, [])
                return n, 'ast_sel_fieldname_node'
            return E.node(st, rec, nt, {'value_type.is_name': C(1), 'name_val': strid('name' + o[1])}, []), rec
        if o[0] == 'null':
            return E.node(st, rec, nt, {'value_type.is_null': C(1)}, []), rec
        _, ty, ident = o
        flag, fld = TV[ty]
        if fld == 'str_val':
            v = strid(ident)
        elif isinstance(ident, int):
            v = C(ident)
        else:
            v = ('s', ident)
        return E.node(st, rec, nt, {flag: C(1), fld: v}, []), rec

    def pred(self, E, st, p):
        k = p[0]
        if k == 'cmp':
            rec = self.pre + 'cmp_node'
            return E.node(st, rec, self.en + 'CMP', {'cmp_type': C(self.P.enum(CMP[p[1]]))},
                          [self.operand(E, st, p[2]), self.operand(E, st, p[3])]), rec
        if k == 'isnull':
            rec = self.pre + 'isxnull_node'
            return E.node(st, rec, self.en + 'EXPRISXNULL', {'is_negation': C(1 if p[2] else 0)},
                          [self.operand(E, st, ('col', p[1]))]), rec
        if k == 'in':
            rec = self.pre + 'isxin_node'
            kids = [self.operand(E, st, o) for o in p[2]]
            kids.insert(p[4], self.operand(E, st, ('col', p[1])))
            return E.node(st, rec, self.en + 'EXPRISXIN', {'is_negation': C(1 if p[3] else 0)}, kids), rec
        rec = self.pre + 'logop_node'
        return E.node(st, rec, self.en + 'LOGOP', {'logop_type': C(self.P.enum(LOGOP[k]))},
                      [self.pred(E, st, q) for q in p[1:]]), rec

    def tree(self, E, st, p, assigns=()):
        kids = []
        if self.name == 'update':
            for col, val in assigns:
                a = E.node(st, 'ast_upd_assign_node', 'AST_TYPE_UPD_ASSIGN', {'field_name': strid('name' + col)},
                           [self.operand(E, st, val)])
                kids.append((a, 'ast_upd_assign_node'))
        if p is not None:
            kids.append(self.pred(E, st, p))
        rec, nt = {'delete': ('ast_del_deleteone_node', 'DELETEONE'), 'update': ('ast_upd_update_node', 'UPDATE'),
                   'select': ('ast_sel_where_node', 'WHERE')}[self.name]
        f = {} if self.name == 'select' else {'table_name': strid('nameT')}
        return E.node(st, rec, self.en + nt, f, kids)

    def args(self, E, tree):
        out = []
        for d in self.fn.dts[1:]:
            if d == 'struct database*':
                out.append(('p', E.db, (), 0))
            elif d == 'struct query_output*':
                out.append(('p', E.output, (), 0))
            elif d == 'struct table*':
                out.append(('p', E.table, (), 0))
            elif d and d.startswith('struct ast_'):
                out.append(('p', tree, (), 0))
            else:
                raise NotFound('parameter of type %s of %s' % (d, self.fn.name))
        return out

    def names(self, cols):
        if self.name == 'select':
            m = {}
            for c in cols:
                m[('x', 'str', ('x', 'fmt', ('x', 'cstr', b'%s.%s'), strid('nameT'), strid('name' + c)))] = c
            return m
        return {strid('name' + c): c for c in cols}


def calls(P, f):
    for b in f.blocks:
        for x in b:
            if x['op'] == 'call' and 'g' in x.get('callee', {}):
                yield P.resolve(f.mod, x['callee']['g']), x['callee']['g'], x


def find_where_scan(P):
    """the function that removes from the materialised rows those failing WHERE:
    it deletes rows, inserts and updates none, and takes a tree node and a table"""
    E = Engine(P)
    root = P.fn('executor_run_select_stmt')
    if root is None:
        return None
    R = RowEngine.reach_fns
    cands = []
    for k in [root.key] + sorted(R(E0(P), root)):
        f = P.fns.get(k)
        if f is None or f.mod != root.mod:
            continue
        names = {P.fns[q].name for q in R(E0(P), f) if q in P.fns} | {g for _, g, _ in calls(P, f)}
        ps = [d for d in f.dts[1:]]
        if 'table_delete_row' in names and not names & {'table_insert_row', 'table_update_row'} and \
                sorted(d for d in ps) == ['struct ast_node*', 'struct table*']:
            cands.append(f)
    tops = [f for f in cands if not any(g is not f and f.key in R(E0(P), g) for g in cands)]
    return tops[0] if len(tops) == 1 else None


class E0:
    """just enough of an engine for call-graph queries"""
    def __init__(self, P):
        self.P = P


class UpdateEngine(RowEngine):
    """UPDATE: the named columns of a matching live row receive the values, nothing else changes"""
    def judge_row(self, st, e, d, ins):
        g = st.ghost
        self.checked = getattr(self, 'checked', 0) + 1
        exp = self.expected(st)
        live = not (e is True or d is True)
        fin = {}
        bad = []
        for w in g['w']:
            if w[0] == 'bit':
                fin[('bit', w[1])] = w[2]
            elif w[0] == 'data':
                col = None
                for c in self.scen['cols']:
                    if w[1] == add(pfx(st.res(('s', c))), C(self.r_data)):
                        col = c
                if col is None:
                    bad.append('a write at row offset %s which is no column named in SET' % (w[1],))
                else:
                    fin[('data', col)] = w[2:4]
            elif w[0] == 'str':
                c = w[1][1:] if w[1].startswith('R') else None
                fin[('data', c)] = w[2:4]
        want = {}
        if exp and live:
            if e is not False or d is not False:
                pass
            for col, val in self.scen['assigns']:
                want[col] = val
        act = bool(g['w'])
        if act and not want:
            self.report(st, 'a row that does not satisfy the condition is modified' if live else 'a row that is not live is modified', ins)
            return
        if want and not act:
            self.report(st, 'a live row that satisfies the condition is not updated', ins)
        elif act:
            if e is not False or d is not False:
                self.report(st, 'a row not known to be live is modified', ins)
            for b in bad:
                self.report(st, b, ins)
            for (k, c), v in fin.items():
                if c not in want:
                    self.report(st, 'column %s, not named in SET, has its %s changed' % (c, 'null bit' if k == 'bit' else 'value'), ins)
            for c, val in want.items():
                bit = fin.get(('bit', c))
                if bit != (1 if val[0] == 'null' else 0):
                    self.report(st, 'null bit of the assigned column is %s' % {None: 'not written', 0: 'cleared for NULL', 1: 'set for a value'}[bit], ins)
                if val[0] != 'null':
                    self.value_ok(st, c, val, fin.get(('data', c)), ins)
        self.effect_done(st, 1 if act else 0)
        if self.scen.get('count', True) and g['aff'] != (1 if act else 0):
            self.report_count(st, 'affected-row count changes by %s for a row %s' % (g['aff'], 'updated' if act else 'not updated'), ins)

    def value_ok(self, st, c, val, got, ins):
        ty = self.scen['cols'][c]
        if got is None:
            self.report(st, 'value of an assigned %s column is not stored' % ty, ins)
            return
        v, n = got
        if ty == 'CT_VARCHAR':
            if v != val[2]:
                self.report(st, 'a VARCHAR column receives another string than the assigned one', ins)
            elif n not in (add(self.prec(c), C(-1)),):
                self.report(st, 'a VARCHAR copy is bounded by %s, not by the declared width' % (n,), ins)
            return
        want = C(val[2]) if isinstance(val[2], int) else ('s', val[2])
        if v != want:
            self.report(st, 'a %s column receives %s instead of the assigned value' % (ty, show(v)), ins)
        elif n != (1 if ty == 'CT_TINYINT' else 8):
            self.report(st, 'a %s value is stored as %s bytes' % (ty, n), ins)


def show(v):
    return str(v)[:80]


class WhereEngine(RowEngine):
    """SELECT's WHERE: exactly the rows failing the condition are removed"""
    def expected(self, st):
        return not super().expected(st)


ENG = {'delete': RowEngine, 'update': UpdateEngine, 'select': WhereEngine}


def positions(n, cols):
    import itertools
    return [dict(zip(cols, p)) for p in itertools.permutations(range(n), len(cols))]


def run(P, D, cols, p, expect, order=(), null=None, vals=None, assigns=None, one_row=1, N=None, max_states=None, rs=1024, blocks=None):
    cols = dict(cols)
    if D.name == 'update' and assigns is None:
        cols['C3'] = 'CT_INTEGER'
        assigns = [('C3', ('lit', 'CT_INTEGER', 'V'))]
    scen = {'cols': cols, 'names': D.names(cols), 'null': null or {}, 'expect': expect, 'order': list(order),
            'vals': vals or {}, 'one_row': one_row, 'rs': rs, 'count': D.name != 'select'}
    if blocks:
        scen['blocks'] = blocks
    if D.name == 'update':
        scen['assigns'] = assigns
    E = ENG[D.name](P, scen)
    if max_states:
        E.max_states = max_states
    st = E.setup()
    if N is not None:
        n, pos = N
        E.bind(st, E.N, C(n))
        for c, i in pos.items():
            E.bind(st, ('s', c), C(i))
        st.facts = {}
    t = D.tree(E, st, p, assigns or ())
    E.run_entry(D.fn, D.args(E, t), st)
    return E
