"""Table scenarios: the structure of the input (columns, rows, blocks, statement
tree) is one member of a finite, enumerated family; every stored and assigned
value is unknown.  The storage primitives themselves are analysed, not modelled."""
from engine import *
from engine import mk_cmp, add

SIZE = {'CT_INTEGER': 8, 'CT_DOUBLE': 8, 'CT_TINYINT': 1, 'CT_DATE': 8, 'CT_DATETIME': 8, 'CT_VARCHAR': 8}
TYPES = ['CT_INTEGER', 'CT_DOUBLE', 'CT_TINYINT', 'CT_DATE', 'CT_DATETIME', 'CT_VARCHAR']
FMT = {b'%Y-%m-%d': 'CT_DATE', b'%Y-%m-%d %H:%M:%S': 'CT_DATETIME'}
LITY = {'CT_INTEGER': ('value_type.is_intnum', 'int_val'), 'CT_DOUBLE': ('value_type.is_approxnum', 'double_val'),
        'CT_TINYINT': ('value_type.is_bool', 'bool_val'), 'CT_VARCHAR': ('value_type.is_str', 'str_val'),
        'CT_DATE': ('value_type.is_str', 'str_val'), 'CT_DATETIME': ('value_type.is_str', 'str_val')}


def strv(n):
    """identity of an unknown string"""
    return ('x', 'str', ('s', n))


class Col:
    def __init__(self, ty, name, prec=None, nullable=True, **kw):
        self.ty, self.name = ty, name
        self.prec = prec or (20 if ty == 'CT_VARCHAR' else SIZE[ty])
        self.nullable = nullable
        self.kw = kw

    @property
    def space(self):
        return SIZE[self.ty]


def row_size(P, cols):
    return P.off('row', 'data') + sum(c.space for c in cols)


class ScnEngine(Engine):
    max_states = 400000
    lone_paths = True
    max_depth = 60
    unroll = 5000
    zr_limit = 5000

    def __init__(self, P):
        super().__init__(P)
        self.tables = {}
        self.bads = []
        self.keep_concrete = 5000
        self.capof = {}
        self.fail_allocs = False
        self.pure, self.memo, self.reading = {}, {}, []
        self.models.update({
            'database_table_exists': self.m_exists, 'database_table_get': self.m_get,
            'strptime': self.m_strptime, 'mktime': self.m_mktime, 'snprintf': self.m_snprintf, 'sprintf': self.m_sprintf,
            'strncpy': self.m_strncpy, 'strcmp': self.m_strcmp, 'strncmp': self.m_strncmp, 'strlen': self.m_strlen,
            'strcpy': self.m_strcpy, 'memccpy': self.m_memccpy, 'floorl': self.m_floorl, 'floor': self.m_floorl,
            'qsort': self.m_qsort, 'memcmp': self.m_memcmp, 'strnlen': self.m_strnlen, 'memset': self.m_memset, 'memcpy': self.m_memcpy, 'memmove': self.m_memcpy,
            'pthread_mutex_lock': self.m_zero, 'pthread_mutex_unlock': self.m_zero, 'pthread_mutex_init': self.m_zero,
            'pthread_mutex_destroy': self.m_zero,
        })

    # ------------------------------------------------------------ construction
    def begin(self):
        st = State()
        self.db = self.new_obj(st, 'lazy', tag='db')
        st.mem[self.db].extra = ('root',)
        self.output = self.new_obj(st, 'heap', C(self.P.records['query_output']['size']), tag='output', zero=True)
        st.mem[self.output].extra = ('root',)
        return st

    def setf(self, st, oid, rec, field, v, base=0):
        f = self.P.field(rec, field)
        if v[0] == 'x' and v[1] in ('str', 'cstr'):
            st.wr(oid).cells[((), base + f['o'])] = (v, 1, False)
        else:
            st.wr(oid).cells[((), base + f['o'])] = (v, f['s'], False)

    def getf(self, st, p, rec, field):
        f = self.P.field(rec, field)
        p = st.res(p)
        return st.res(self.load(st, ('p', p[1], p[2], p[3] + f['o']), f['s'], 'ptr' if f['s'] == 8 else 'i%d' % (8 * f['s']), None))

    def mk_table(self, st, name, cols, blocks=(), free_off=None):
        """blocks: list of lists of rows; row = dict(vals=[value|None for NULL], deleted=bool) or None (unused slot)"""
        P = self.P
        t = self.new_obj(st, 'heap', C(P.records['table']['size']), tag='table:' + name, zero=True)
        st.mem[t].extra = ('root',)
        self.setf(st, t, 'table', 'name', ('x', 'cstr', name.encode()))
        self.setf(st, t, 'table', 'column_count', C(len(cols)))
        base = P.off('table', 'columns')
        cs = P.records['column']['size']
        for i, c in enumerate(cols):
            b = base + i * cs
            self.setf(st, t, 'column', 'name', ('x', 'cstr', c.name.encode()), b)
            self.setf(st, t, 'column', 'type', C(P.enum(c.ty)), b)
            self.setf(st, t, 'column', 'precision', C(c.prec), b)
            self.setf(st, t, 'column', 'nullable', C(int(c.nullable)), b)
            for k, v in c.kw.items():
                self.setf(st, t, 'column', k, C(int(v)), b)
        h = self.new_obj(st, 'heap', C(P.records['list_head']['size']), tag='bhead')
        self.setf(st, t, 'table', 'datablock_head', ('p', h, (), 0))
        rs = row_size(P, cols)
        chain = [('p', h, (), 0)]
        page = P.field('datablock', 'data')['s']
        n = page // rs
        for bi, rows in enumerate(blocks):
            b = self.new_obj(st, 'heap', C(P.records['datablock']['size']), tag='blk:%s:%d' % (name, bi), zero=True)
            for i in range(n):
                r = rows[i] if i < len(rows) else None
                self.put_row(st, b, P.off('datablock', 'data') + i * rs, cols, r, '%s.%d.%d' % (name, bi, i))
            chain.append(('p', b, (), P.off('datablock', 'head')))
        nx, pv = P.off('list_head', 'next'), P.off('list_head', 'prev')
        for i, p in enumerate(chain):
            nxt, prv = chain[(i + 1) % len(chain)], chain[i - 1]
            st.mem[p[1]].cells[((), p[3] + nx)] = (nxt, 8, False)
            st.mem[p[1]].cells[((), p[3] + pv)] = (prv, 8, False)
        if free_off is None:
            free_off = len(blocks[-1]) * rs if blocks else 0
        self.setf(st, t, 'table', 'free_dtbkl_offset', C(free_off))
        T = type('T', (), {})()
        T.oid, T.cols, T.rs, T.blocks, T.name, T.n = t, cols, rs, blocks, name, n
        T.chain = [p[1] for p in chain[1:]]
        T.head = h
        self.tables[name] = T
        return T

    def put_row(self, st, oid, at, cols, r, name):
        P = self.P
        m = st.mem[oid].cells
        m[((), at + P.off('row', 'flags.empty'))] = (C(1 if r is None else 0), 1, False)
        m[((), at + P.off('row', 'flags.deleted'))] = (C(1 if r and r.get('deleted') else 0), 1, False)
        if r is None:
            return
        nb = P.field('row', 'null_bitmap')
        bits = 0
        for i in range(nb['s'] * 8):
            if i >= len(cols) and r.get('junk') or i < len(cols) and r['vals'][i] is None:
                bits |= 1 << i
        for i in range(nb['s']):
            m[((), at + nb['o'] + i)] = (C(norm_int(bits >> (8 * i), 8)), 1, False)
        off = at + P.off('row', 'data')
        for i, c in enumerate(cols):
            v = r['vals'][i]
            if c.ty == 'CT_VARCHAR':
                o = self.new_obj(st, 'heap', C(c.prec), tag='str:%s.%d' % (name, i), zero=v is None)
                if v is not None:
                    st.mem[o].cells[((), 0)] = (v, 1, False)
                v = ('p', o, (), 0)
            elif v is None:
                v = C(0) if c.ty != 'CT_DOUBLE' else ('d', 0.0)
            m[((), off)] = (v, c.space, False)
            off += c.space

    def node(self, st, rec, ntype, fields, children):
        """explicit statement-tree node; children: list of (obj, rec)"""
        P = self.P
        o = self.new_obj(st, 'heap', C(P.records[rec]['size']), tag='ast', zero=True)
        h = self.new_obj(st, 'heap', C(P.records['list_head']['size']), tag='ast', zero=True)
        m = st.mem[o].cells
        m[((), P.off(rec, 'node_type'))] = (C(P.enum(ntype)), 4, False)
        m[((), P.off(rec, 'node_children_head'))] = (('p', h, (), 0), 8, False)
        for f, v in fields.items():
            self.setf(st, o, rec, f, v)
        nx, pv = P.off('list_head', 'next'), P.off('list_head', 'prev')
        hd = P.off(rec, 'head')
        m[((), hd + nx)] = (('p', o, (), hd), 8, False)
        m[((), hd + pv)] = (('p', o, (), hd), 8, False)
        chain = [('p', h, (), 0)]
        for (c, crec) in children:
            chain.append(('p', c, (), P.off(crec, 'head')))
        for i, p in enumerate(chain):
            st.mem[p[1]].cells[((), p[3] + nx)] = (chain[(i + 1) % len(chain)], 8, False)
            st.mem[p[1]].cells[((), p[3] + pv)] = (chain[i - 1], 8, False)
        return o

    # ------------------------------------------------------------ reading the result
    def walk_blocks(self, st, T):
        """block objects of the table in list order (NotList when the links are broken)"""
        P = self.P
        h = self.getf(st, ('p', T.oid, (), 0), 'table', 'datablock_head')
        out = []
        cur = h
        hd = P.off('datablock', 'head')
        prev = h
        while True:
            nxt = self.getf(st, cur, 'list_head', 'next')
            if nxt[0] != 'p':
                raise BadHeap('block list is not closed')
            back = self.getf(st, nxt, 'list_head', 'prev')
            if back != cur:
                raise BadHeap('block list links disagree')
            if nxt == h:
                return out
            if nxt[2] or nxt[3] != hd or len(out) > 64:
                raise BadHeap('block list is malformed')
            out.append(nxt[1])
            cur = nxt

    def read_slot(self, st, blk, at, cols):
        """(empty, deleted, [None | ('null',) | value]) of the row stored at byte `at` of the page"""
        P = self.P
        b = P.off('datablock', 'data') + at
        ld = lambda o, s, ty: st.res(self.load(st, ('p', blk, (), b + o), s, ty, None))
        e = ld(P.off('row', 'flags.empty'), 1, 'i8')
        d = ld(P.off('row', 'flags.deleted'), 1, 'i8')
        nb = P.field('row', 'null_bitmap')
        vals = []
        off = P.off('row', 'data')
        if e == C(1):
            return True, d == C(1), []
        for i, c in enumerate(cols):
            byte = ld(nb['o'] + i // 8, 1, 'i8')
            if byte[0] != 'c':
                raise BadHeap('null bitmap byte %d is unknown' % (i // 8))
            null = byte[1] >> (i % 8) & 1
            v = ld(off, c.space, {'CT_DOUBLE': 'double', 'CT_VARCHAR': 'ptr', 'CT_TINYINT': 'i8'}.get(c.ty, 'i64'))
            if c.ty == 'CT_VARCHAR':
                vals.append((null, self.str_at(st, v), v))
            else:
                vals.append((null, v, v))
            off += c.space
        if e[0] != 'c' or d[0] != 'c':
            raise BadHeap('row flags are unknown')
        return e != C(0), d != C(0), vals

    def str_at(self, st, p):
        """content of the string a stored pointer designates, or a reason string"""
        p = st.res(p)
        if p[0] != 'p':
            return 'not a pointer'
        o = st.mem.get(p[1])
        if o is None or o.freed is not None:
            return 'freed memory'
        return self.str_id(st, p)

    # ------------------------------------------------------------ memory
    cap = 20            # bytes an unknown string may need, terminator included

    def caps(self, sid):
        if sid[1] == 'cstr':
            return len(sid[2]) + 1
        if sid[1] == 'strn':
            return sid[3]
        return self.capof.get(sid, self.cap)

    def bounds(self, st, p, size, ins, what):
        o = st.mem.get(p[1])
        if o is None or o.size is None or p[2]:
            return
        n = st.res(o.size)
        if n[0] == 'c' and (p[3] < 0 or p[3] + size > n[1]):
            self.on_bad(st, 'out-of-bounds %s: bytes %d..%d of %d' % (what, p[3], p[3] + size, n[1]), ins)
            raise PathEnd('oob')

    def load(self, st, p, size, ty, ins):
        q = self.deref(st, p, ins)
        self.bounds(st, q, size, ins, 'read')
        if size == 1 and q[1] in st.mem:
            b = self.char_at(st.mem[q[1]], q)
            if b is not None:
                self.on_load(st, q, b, size, ins)
                return b
        return super().load(st, q, size, ty, ins)

    def char_at(self, o, p):
        """byte p of a known string stored as one cell"""
        c = o.cells.get((p[2], p[3]))
        if c is not None:
            if c[0][0] == 'x' and c[0][1] == 'cstr':
                return C(norm_int((c[0][2] + b'\0')[0], 8))
            return None
        for (ts, off), (v, s, cl) in o.cells.items():
            if ts == p[2] and off < p[3] and v[0] == 'x' and v[1] == 'cstr' and p[3] <= off + len(v[2]):
                return C(norm_int((v[2] + b'\0')[p[3] - off], 8))
        return None

    def store(self, st, p, v, size, ins):
        q = self.deref(st, p, ins, write=True)
        self.bounds(st, q, size, ins, 'write')
        if q[1] in st.mem:
            self.spell(st, q, size)
        return super().store(st, q, v, size, ins)

    def spell(self, st, p, n):
        """a write of n bytes at p may hit known strings stored as one cell: turn those into bytes"""
        o = st.mem[p[1]]
        for k, (v, s, c) in list(o.cells.items()):
            if v[0] == 'x' and v[1] == 'cstr' and k[0] == p[2] and k[1] < p[3] + n and k[1] + len(v[2]) >= p[3] and (k[1] < p[3] or len(v[2]) + 1 > n):
                o = st.wr(p[1])
                del o.cells[k]
                for i, b in enumerate(v[2] + b'\0'):
                    o.cells[(k[0], k[1] + i)] = (C(norm_int(b, 8)), 1, False)

    def cstr(self, st, p):
        r = super().cstr(st, p)
        p = st.res(p)
        if (r is None or r == b'') and p[0] == 'p' and not p[2] and p[1] in st.mem and not isinstance(p[1], tuple):
            o = st.mem[p[1]]
            out = b''
            for i in range(1 << 17):
                b = self.char_at(o, ('p', p[1], p[2], p[3] + i))
                if b is None:
                    b = self.gather(st, ('p', p[1], p[2], p[3] + i), 1)
                if b is None:
                    return r
                if b == C(0):
                    return out
                out += bytes([b[1] & 255])
        return r

    def m_memset(self, E, st, args, x):
        n = st.res(args[2])
        if n[0] == 'c' and n[1] > 0:
            self.bounds(st, self.deref(st, args[0], x, True), n[1], x, 'write')
        p = st.res(args[0])
        if p[0] == 'p' and n[0] == 'c' and st.res(args[1])[0] == 'c':
            self.spell(st, p, n[1])
            o = st.wr(p[1])
            self.cut(o, p, n[1])
            v = st.res(args[1])[1] & 255
            if v and n[1] <= 4096:
                M_memset(self, st, [args[0], C(0), args[2]], x)
                o = st.wr(p[1])
                k = 0
                while k < n[1]:
                    w = 4 if n[1] - k >= 4 else 1
                    o.cells[(p[2], p[3] + k)] = (C(norm_int(v * (0x01010101 if w == 4 else 1), 8 * w)), w, False)
                    k += w
                return [(p, st)]
        return M_memset(self, st, args, x)

    def cut(self, o, p, n):
        """forget what is known about n bytes at p"""
        lo, hi = p[3], p[3] + n
        for k in [k for k, (v, s, c) in o.cells.items() if k[0] == p[2] and k[1] < hi and k[1] + (s or 1) > lo]:
            v, s, c = o.cells.pop(k)
            s = s or 1
            if k[1] < lo:
                o.cells[k] = (self.sym(), lo - k[1], False)
            if k[1] + s > hi:
                o.cells[(k[0], hi)] = (self.sym(), k[1] + s - hi, False)
        if o.zr or o.zero:
            zr = []
            full = [((p[2], 0), 1 << 40)] if o.zero else []
            for (zp, zn) in list(o.zr) + full:
                a, b = zp[1], zp[1] + zn
                if zp[0] != p[2] or b <= lo or a >= hi:
                    zr.append((zp, zn))
                    continue
                if a < lo:
                    zr.append(((zp[0], a), lo - a))
                if b > hi:
                    zr.append(((zp[0], hi), b - hi))
            o.zr = tuple(zr)
            o.zero = False
        o.cps = tuple(c for c in o.cps if c[0][0] != p[2] or c[0][1] >= hi or c[0][1] + (c[1][1] if c[1][0] == 'c' else 1) <= lo)

    def m_memcpy(self, E, st, args, x):
        n = st.res(args[2])
        if n[0] != 'c':
            d, s = self.deref(st, args[0], x, True), self.deref(st, args[1], x)
            sid = self.str_id(st, s)
            k = self.past_end(n, sid)
            if k in (0, 1) and (k or st.mem[d[1]].zero):
                self.put_str(st, d, sid)
                return [(args[0], st)]
            return M_memcpy(self, st, args, x)
        n = n[1]
        if n == 0:
            return [(args[0], st)]
        d = self.deref(st, args[0], x, True)
        s = self.deref(st, args[1], x)
        self.bounds(st, d, n, x, 'write')
        self.bounds(st, s, n, x, 'read')
        self.on_store(st, d, ('x', 'copy', s), n, x)
        so = st.mem[s[1]]
        lo, hi = s[3], s[3] + n
        new = {}
        self.spell(st, d, n)
        if isinstance(s[1], tuple):
            t = self.cstr(st, s)
            if t is None:
                return M_memcpy(self, st, args, x)
            o = st.wr(d[1])
            self.cut(o, d, n)
            if n > len(t):
                o.cells[(d[2], d[3])] = (('x', 'cstr', t), 1, False)
                o.zr = o.zr + (((d[2], d[3] + len(t) + 1), n - len(t) - 1),)
            else:
                for i in range(n):
                    o.cells[(d[2], d[3] + i)] = (C(norm_int(t[i], 8)), 1, False)
            return [(args[0], st)]
        for k, (v, sz, c) in so.cells.items():
            if k[0] != s[2]:
                continue
            v = st.res(v)
            sz = sz or 1
            at = (d[2], d[3] + k[1] - lo)
            if v[0] == 'x' and v[1] in ('str', 'cstr', 'strn') and lo <= k[1] < hi:
                if self.caps(v) > hi - k[1]:
                    v = ('x', 'cstr', v[2][:hi - k[1]]) if v[1] == 'cstr' else ('x', 'strn', v, hi - k[1])
                new[at] = (v, 1, False)
            elif lo <= k[1] and k[1] + sz <= hi:
                new[at] = (v, sz, False)
            elif k[1] < hi and k[1] + sz > lo:
                a, b = max(lo, k[1]), min(hi, k[1] + sz)
                for i in range(a, b):
                    w = C(norm_int(v[1] >> (8 * (i - k[1])), 8)) if v[0] == 'c' else ('x', 'byte', v, C(i - k[1]), C(1))
                    new[(d[2], d[3] + i - lo)] = (w, 1, False)
        zr = []
        for (zp, zn) in list(so.zr) + ([((s[2], lo), n)] if so.zero else []):
            if zp[0] == s[2]:
                a, b = max(lo, zp[1]), min(hi, zp[1] + zn)
                if a < b:
                    zr.append(((d[2], d[3] + a - lo), b - a))
        o = st.wr(d[1])
        self.cut(o, d, n)
        o.cells.update(new)
        o.zr = o.zr + tuple(zr)
        return [(args[0], st)]

    def gather(self, st, p, size):
        """value assembled from smaller cells"""
        o = st.mem[p[1]]
        bits = 0
        for i in range(size):
            v = None
            for (ts, off), (cv, s, c) in o.cells.items():
                if ts == p[2] and off <= p[3] + i < off + (s or 1):
                    cv = st.res(cv)
                    if cv[0] == 'x' and cv[1] == 'cstr':
                        v = (cv[2] + b'\0')[0]
                    elif cv[0] == 'c':
                        v = cv[1] >> (8 * (p[3] + i - off)) & 255
                    else:
                        return None
            if v is None:
                cv = self.char_at(o, ('p', p[1], p[2], p[3] + i))
                v = cv[1] & 255 if cv is not None else None
            if v is None:
                if o.zero or any(z[0][0] == p[2] and z[0][1] <= p[3] + i < z[0][1] + z[1] for z in o.zr):
                    v = 0
                else:
                    return None
            bits |= v << (8 * i)
        return C(norm_int(bits, 8 * size))

    def default_load(self, st, p, o, key, size, ty, ins, overlap=False):
        if o.kind in ('heap', 'alloca') and ty not in ('double', 'float', 'ptr', 'x86_fp80') and size <= 8:
            v = self.gather(st, p, size)
            if v is not None:
                return v
        return super().default_load(st, p, o, key, size, ty, ins, overlap)

    def spared(self, x):
        """allocations that are not made to fail: those of the generated scanner, which ends the process itself"""
        w = self.cur_loc(x)
        return bool(w) and len(w) > 2 and w[2] in ('yyalloc', 'yyrealloc')

    def alloc(self, st, size, zero, x):
        n = st.ghost.get('allocs', 0) + 1
        if self.fail_allocs and self.spared(x):
            n = -1
        else:
            st.ghost['allocs'] = n
        if self.fail_allocs == n:
            st.ghost['failed'] = 1
            return [(NULL, st)]
        oid = self.new_obj(st, 'heap', size, site=self.cur_loc(x), zero=zero)
        return [(('p', oid, (), 0), st)]

    def free(self, st, p, x):
        p = st.res(p)
        if p == NULL:
            return [(C(0), st)]
        if p[0] != 'p' or p[1] not in st.mem:
            self.on_bad(st, 'free of a value that is no pointer to a heap object', x)
            raise PathEnd('bad free')
        o = st.mem[p[1]]
        if o.freed is not None:
            self.on_bad(st, 'double free', x)
            raise PathEnd('double-free')
        if o.kind != 'heap' or p[2] or p[3]:
            self.on_bad(st, 'free of memory that was not allocated', x)
            raise PathEnd('bad free')
        st.wr(p[1]).freed = self.cur_loc(x)
        return [(C(0), st)]

    def realloc(self, st, p, n, x):
        p = st.res(p)
        out = []
        for rv, s in self.alloc(st, n, False, x):
            if rv[0] == 'p' and p[0] == 'p' and p[1] in s.mem:
                src = s.mem[p[1]]
                o = s.wr(rv[1])
                o.cells = dict(src.cells)
                o.zr = src.zr
                if src.zero:
                    o.zr = o.zr + ((((), 0), st.res(src.size)[1]),)
                s.wr(p[1]).freed = self.cur_loc(x)
            out.append((rv, s))
        return out

    def llvm(self, fr, st, name, args, x):
        if name.startswith('llvm.memset'):
            return self.m_memset(self, st, args, x)
        if name.startswith('llvm.mem'):
            return self.m_memcpy(self, st, args, x)
        return super().llvm(fr, st, name, args, x)

    # ------------------------------------------------------------ models
    def m_zero(self, E, st, args, x):
        return [(C(0), st)]

    def m_exists(self, E, st, args, x):
        n = E.cstr(st, args[1])
        return [(C(1 if n and n.decode() in self.tables else 0), st)]

    def m_get(self, E, st, args, x):
        n = E.cstr(st, args[1])
        T = self.tables.get(n.decode()) if n else None
        return [(('p', T.oid, (), 0) if T else NULL, st)]

    def m_floorl(self, E, st, args, x):
        a = st.res(args[0])
        return [(('d', float(math.floor(a[1]))) if a[0] == 'd' else a, st)]

    def m_strptime(self, E, st, args, x):
        s = E.str_id(st, args[0])
        f = E.cstr(st, args[1])
        d = E.deref(st, args[2], x, True)
        o = st.wr(d[1])
        clean = not o.cells and (o.zero or len(o.zr) > 0)
        bad = s in getattr(self, 'unparsable', ())
        if bad:
            return [(NULL, st)]
        o.cells[(d[2], d[3])] = (('x', 'tm', s, ('x', 'cstr', f or b'?'), C(1 if clean else 0)), 1, False)
        return [(('f', 'strptime-rest', None), st)]

    def m_mktime(self, E, st, args, x):
        d = E.deref(st, args[0], x)
        c = st.mem[d[1]].cells.get((d[2], d[3]))
        v = c[0] if c else C(0)
        r = ('x', 'mktime', v)
        st.facts[mk_cmp('eq', r, C(-1))] = 0
        return [(r, st)]

    def put_str(self, st, d, v, n=None, ins=None):
        """string v lands at d (n: bytes written when limited by a count)"""
        need = self.caps(v)
        o = st.wr(d[1])
        sz = st.res(o.size) if o.size is not None else None
        room = sz[1] - d[3] if sz is not None and sz[0] == 'c' and not d[2] else None
        if room is not None and need > room:
            self.on_bad(st, 'out-of-bounds write: a string of up to %d bytes into %d' % (need, room), ins or self.cur)
            raise PathEnd('oob')
        self.spell(st, d, need if v[1] == 'cstr' else 1)
        o = st.wr(d[1])
        self.cut(o, d, min(need, room) if room else need)
        o.cells[(d[2], d[3])] = (v, 1, False)

    def m_snprintf(self, E, st, args, x):
        return self.fmt(st, args[0], args[1], args[2], args[3:], x)

    def m_sprintf(self, E, st, args, x):
        return self.fmt(st, args[0], None, args[1], args[2:], x)

    def fmt(self, st, dst, n, f, rest, x):
        d = self.deref(st, dst, x, True)
        fs = self.cstr(st, f) or b'?'
        ids = [self.str_id(st, a) if st.res(a)[0] == 'p' else st.res(a) for a in rest]
        out = b''
        it = iter(ids)
        ok = True
        for part in re.split(rb'(%%|%[-0-9.]*l*[a-z])', fs):
            if part == b'%%':
                out += b'%'
            elif part.startswith(b'%'):
                a = next(it, None)
                if a is not None and a[0] == 'x' and a[1] == 'cstr':
                    out += a[2]
                elif a is not None and a[0] == 'c':
                    out += str(a[1]).encode()
                else:
                    ok = False
            else:
                out += part
        v = ('x', 'cstr', out) if ok else ('x', 'str', ('x', 'fmt', ('x', 'cstr', fs)) + tuple(ids))
        if ok and n is not None and st.res(n)[0] == 'c' and len(out) >= st.res(n)[1]:
            v = ('x', 'cstr', out[:max(0, st.res(n)[1] - 1)])
        self.on_store(st, d, v, None, x)
        self.put_str(st, d, v)
        return [(C(len(out)) if ok else self.sym(), st)]

    def m_strncpy(self, E, st, args, x):
        d = E.deref(st, args[0], x, True)
        sid = E.str_id(st, args[1])
        n = st.res(args[2])
        o = st.wr(d[1])
        if n[0] != 'c':
            k = self.past_end(n, sid)
            if k is not None and k > 0 or k == 0 and o.zero:
                self.put_str(st, d, sid)
            else:
                self.put_str(st, d, ('x', 'strn', sid, self.caps(sid)))
            return [(d, st)]
        n = n[1]
        self.bounds(st, d, n, x, 'write')
        need = self.caps(sid)
        after = self.gather(st, ('p', d[1], d[2], d[3] + n), 1) if need == n + 1 else C(0)
        self.on_store(st, d, sid, None, x)
        self.cut(o, d, n)
        if need > n and (need > n + 1 or after != C(0)):
            sid = ('x', 'cstr', sid[2][:n]) if sid[1] == 'cstr' and self.gather(st, ('p', d[1], d[2], d[3] + n), 1) == C(0) else ('x', 'strn', sid, n)
        o.cells[(d[2], d[3])] = (sid, 1, False)
        if need < n:
            o.zr = o.zr + (((d[2], d[3] + need), n - need),)
        return [(d, st)]

    def past_end(self, n, sid):
        """k when n is the length of the string plus k"""
        d = add(n, ('x', 'strlen', sid), -1)
        return d[1] if d is not None and d[0] == 'c' else None

    def m_strcpy(self, E, st, args, x):
        d = E.deref(st, args[0], x, True)
        sid = E.str_id(st, args[1])
        self.on_store(st, d, sid, None, x)
        self.put_str(st, d, sid)
        return [(d, st)]

    def m_memccpy(self, E, st, args, x):
        d = E.deref(st, args[0], x, True)
        sid = E.str_id(st, args[1])
        n = st.res(args[3])
        if sid[1] == 'cstr' and n[0] == 'c' and len(sid[2]) >= n[1]:
            sid = ('x', 'cstr', sid[2][:n[1]])
        self.put_str(st, d, sid)
        return [(d, st)]

    def m_strcmp(self, E, st, args, x):
        return M_strcmp(E, st, args, x)

    def m_strncmp(self, E, st, args, x):
        return M_strncmp(E, st, args, x)

    def m_strlen(self, E, st, args, x):
        return M_strlen(E, st, args, x)

    def m_strnlen(self, E, st, args, x):
        a, n = E.str_id(st, args[0]), st.res(args[1])
        if a[1] == 'cstr' and n[0] == 'c':
            return [(C(min(n[1], len(a[2]))), st)]
        if n[0] == 'c' and n[1] + 1 >= self.caps(a):
            return M_strlen(E, st, args, x)
        return [(('x', 'strnlen', a, n), st)]

    def m_memcmp(self, E, st, args, x):
        n = st.res(args[2])
        if n[0] != 'c':
            return [(self.sym(), st)]
        a, b = E.deref(st, args[0], x), E.deref(st, args[1], x)
        self.bounds(st, a, n[1], x, 'read')
        self.bounds(st, b, n[1], x, 'read')
        if a == b:
            return [(C(0), st)]
        for i in range(n[1]):
            u, v = (self.gather(st, ('p', p[1], p[2], p[3] + i), 1) for p in (a, b))
            if u is None or v is None:
                return [(('x', 'memcmp', a, b, n, self.sym()), st)]
            u, v = u[1] & 255, v[1] & 255
            if u != v:
                return [(C(-1 if u < v else 1), st)]
        return [(C(0), st)]

    def m_qsort(self, E, st, args, x):
        p, n, w = st.res(args[0]), st.res(args[1]), st.res(args[2])
        if n[0] != 'c' or w != C(4):
            return [(C(0), st)]
        vs = [st.res(self.load(st, ('p', p[1], p[2], p[3] + 4 * i), 4, 'i32', x)) for i in range(n[1])]
        if all(v[0] == 'c' for v in vs):
            for i, v in enumerate(sorted(vs)):
                self.put(st, ('p', p[1], p[2], p[3] + 4 * i), v, 4)
        return [(C(0), st)]

    # a function that only reads gives the same result while what it read is unchanged
    def reads_only(self, fn, busy=()):
        r = self.pure.get(fn.key)
        if r is None:
            r = fn not in busy
            for b in fn.blocks if r else ():
                for x in b:
                    if x['op'] == 'store' or x['op'] == 'call' and not self.pure_call(fn, x, busy):
                        r = False
            if not busy or not r:
                self.pure[fn.key] = r
        return r

    def pure_call(self, fn, x, busy):
        n = x.get('callee', {}).get('g')
        if n is None:
            return False
        if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.expect')) or n in ('floorl', 'floor'):
            return True
        t = self.P.resolve(fn.mod, n)
        return t is not None and n not in self.models and self.reads_only(t, busy + (fn,))

    def on_load(self, st, p, v, size, ins):
        for r in self.reading:
            o = st.mem.get(p[1])
            if o is not None:
                r[p[1]] = o.ver

    def inline(self, fr, st, fn, b, i, target, args):
        if not self.reads_only(target):
            return super().inline(fr, st, fn, b, i, target, args)
        key = (target.key, tuple(args))
        m = self.memo.get(key)
        if m is not None and all(o in st.mem and st.mem[o].ver == v for o, v in m[1].items()):
            for r in self.reading:
                r.update(m[1])
            return [(m[0], st)]
        rd = {}
        self.reading.append(rd)
        before = (len(st.facts), len(st.sub), len(st.zone))
        nb = len(self.bads)
        try:
            outs = super().inline(fr, st, fn, b, i, target, args)
        finally:
            self.reading.pop()
        if len(outs) == 1 and outs[0][1] is st and before == (len(st.facts), len(st.sub), len(st.zone)) and nb == len(self.bads):
            self.memo[key] = (outs[0][0], rd)
        return outs

    def indirect(self, st, fv, args, x):
        return [(self.sym(), st)]

    def recursion(self, st, target, args, x):
        return None

    def wide(self, st, s):
        return isinstance(s[1], str)

    def on_unreachable_obj(self, st, oid, o, ins):
        if o.kind == 'heap' and o.freed is None:
            st.ghost['lost'] = 1

    def on_bad(self, st, kind, ins, info=None):
        self.bads.append((kind, self.cur_loc(ins), st.trace_list()[-14:]))

    def on_abort(self, st, ins, name):
        self.bads.append(('the engine aborts (%s)' % name, self.cur_loc(ins), st.trace_list()[-14:]))


class BadHeap(Exception):
    pass
