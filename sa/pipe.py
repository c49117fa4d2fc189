"""Whole statements: abstract interpretation of query_execute, from the statement text to the stored rows and the result.

The text of a statement is one representative of its shape: every number in it that is registered as a literal stands
for an unknown number (the text and the unknown value are two faces of one symbol: reading the text as a number gives
the unknown value, printing the value exactly gives the text back).  Names and strings are representatives of their
class and told apart by their spelling.  The scanner and the parser generated from the grammar are analysed like the
rest of the sources; the generated tables are constants of the program."""
import ctypes
import re as _re
from scn import *
from scn import ScnEngine, BadHeap
from engine import atoms_in

_libc = ctypes.CDLL('libc.so.6', use_errno=True)


class regmatch_t(ctypes.Structure):
    _fields_ = [('so', ctypes.c_int), ('eo', ctypes.c_int)]


_rx = {}


def posix_match(pat, text, eflags=0, flags=1):
    """[(start, end)] of the groups, or None: POSIX extended matching as documented by the C library"""
    r = _rx.get((pat, flags))
    if r is None:
        buf = ctypes.create_string_buffer(256)
        rc = _libc.regcomp(buf, ctypes.c_char_p(pat), flags)
        n = ctypes.cast(ctypes.byref(buf, 48), ctypes.POINTER(ctypes.c_size_t))[0] if rc == 0 else 0
        r = _rx[(pat, flags)] = (rc, buf, n)
    rc, buf, n = r
    if rc:
        return None
    m = (regmatch_t * (n + 1))()
    if _libc.regexec(buf, ctypes.c_char_p(text), ctypes.c_size_t(n + 1), m, eflags):
        return False
    return [(g.so, g.eo) for g in m]


CONV = _re.compile(rb'%(?P<fl>[-+ #0]*)(?P<w>\d+|\*)?(?:\.(?P<p>\d+|\*))?(?P<l>hh|h|ll|l|z|j|t|L)?(?P<c>[a-zA-Z%])')
BITS = {b'hh': 8, b'h': 16, None: 32, b'l': 64, b'll': 64, b'z': 64, b'j': 64, b't': 64}


class PipeEngine(ScnEngine):
    max_states = 4000000

    def __init__(self, P):
        super().__init__(P)
        for k in ('database_table_exists', 'database_table_get'):
            del self.models[k]
        self.ranks = {}
        self.unset = set()   # values read from memory nothing was written to
        self.num = {}        # text -> unknown value
        self.text = {}       # unknown value -> text
        self.printno = 0
        self.printed = []
        self.models.update({
            'strdup': self.m_strdup, 'strndup': self.m_strndup, 'vsnprintf': self.m_vsnprintf, 'vsprintf': self.m_vsprintf,
            'strtoll': self.m_toint, 'strtol': self.m_toint, 'strtoull': self.m_toint, 'strtoul': self.m_toint, 'atoi': self.m_toint32, 'atol': self.m_toint, 'atoll': self.m_toint,
            'atof': self.m_todbl, 'strtod': self.m_todbl,
            'regcomp': self.m_regcomp, 'regexec': self.m_regexec, 'regfree': self.m_regfree,
            'strerror': self.m_strerror, 'strstr': self.m_strstr, 'strchr': self.m_strchr, 'strrchr': self.m_strrchr, 'strcasecmp': self.m_strcasecmp,
            'fprintf': self.m_zero, 'printf': self.m_zero, 'vfprintf': self.m_zero, 'fputs': self.m_zero, 'fputc': self.m_zero, 'puts': self.m_zero, 'fwrite': self.m_zero, 'fflush': self.m_zero,
            '__errno_location': self.m_errno, 'pthread_mutex_lock': self.m_lock, 'pthread_mutex_unlock': self.m_unlock,
            'pthread_mutex_trylock': self.m_lock, 'pthread_mutex_init': self.m_mutex_init, 'pthread_mutex_destroy': self.m_mutex_destroy,
        })

    # ------------------------------------------------------------ unknown numbers
    def literal(self, text, val):
        self.num[text] = val
        self.text[val] = text

    def nominal(self, v, dbl=False):
        """the text an unknown value prints as"""
        t = self.text.get(v)
        if t is None:
            self.printno += 1
            t = (b'97%05d' % self.printno) + (b'.25' if dbl else b'')
            self.literal(t, v)
        return t

    def decide_hook(self, st, v):
        if v[1] in ('lt', 'eq', 'flt', 'feq') and self.ranks:
            ra, rb = self.rank(v[2]), self.rank(v[3])
            if ra is not None and rb is not None and type(ra) == type(rb):
                return ra == rb if v[1] in ('eq', 'feq') else ra < rb
        return None

    def rank(self, v):
        if v[0] == 'x' and v[1] == 'mktime':
            t = v[2][2] if v[2][0] == 'x' and v[2][1] == 'tm' else None
            return (v[2][3], t[2]) if t is not None and t[1] == 'cstr' else None
        return self.ranks.get(v)

    # ------------------------------------------------------------ text
    def m_strdup(self, E, st, args, x):
        t = self.cstr(st, args[0])
        if t is None:
            raise PathEnd('strdup of an unknown string')
        out = []
        for p, s in self.alloc(st, C(len(t) + 1), False, x):
            if p[0] == 'p':
                s.mem[p[1]].cells[((), 0)] = (('x', 'cstr', t), 1, False)
            out.append((p, s))
        return out

    def m_strndup(self, E, st, args, x):
        t, n = self.cstr(st, args[0]), st.res(args[1])
        if t is None or n[0] != 'c':
            raise PathEnd('strndup of an unknown string')
        t = t[:n[1]]
        out = []
        for p, s in self.alloc(st, C(len(t) + 1), False, x):
            if p[0] == 'p':
                s.mem[p[1]].cells[((), 0)] = (('x', 'cstr', t), 1, False)
            out.append((p, s))
        return out

    def render(self, st, f, rest):
        fs = self.cstr(st, f)
        if fs is None:
            return None
        out, pos, it = b'', 0, iter(rest)
        for m in CONV.finditer(fs):
            out += fs[pos:m.start()]
            pos = m.end()
            c = m.group('c')
            if c == b'%':
                out += b'%'
                continue
            if m.group('w') == b'*' or m.group('p') == b'*':
                return None
            a = st.res(next(it, C(0)))
            if c == b's':
                t = self.cstr(st, a) if a[0] == 'p' else None
                if t is None:
                    return None
                if m.group('p'):
                    t = t[:int(m.group('p'))]
                out += self.pad(t, m)
            elif c in b'di' or c in b'ux':
                bits = BITS[m.group('l')]
                if a[0] == 'c':
                    v = norm_int(a[1], bits)
                    if c in b'ux':
                        v &= (1 << bits) - 1
                    out += self.pad(b'%x' % v if c == b'x' else b'%d' % v, m)
                elif c == b'x':
                    return None
                else:
                    out += self.nominal(a if bits == 64 and c != b'u' or a in self.ints32 else ('x', 'cut', a, C(bits)))
            elif c == b'c':
                if a[0] != 'c':
                    return None
                out += bytes([a[1] & 255])
            elif c in b'gGfFeEa':
                p = int(m.group('p')) if m.group('p') else 6
                if a[0] == 'd':
                    out += (b'%' + (b'.%d' % p) + c) % a[1]
                elif c in b'a' or c in b'gG' and p >= 17 or c in b'eE' and p >= 16:
                    out += self.nominal(a, True)
                else:
                    out += self.nominal(('x', 'rounded', a, ('x', 'cstr', m.group(0))), True)
            else:
                return None
        return out + fs[pos:]

    ints32 = ()

    def pad(self, t, m):
        w = int(m.group('w') or 0)
        return t.ljust(w) if b'-' in m.group('fl') else t.rjust(w, b'0' if b'0' in m.group('fl') else b' ')

    def fmt(self, st, dst, n, f, rest, x):
        out = self.render(st, f, rest)
        if out is None:
            raise PathEnd('a text that cannot be told')
        full = len(out)
        dst = st.res(dst)
        if n is not None:
            n = st.res(n)
            if n[0] != 'c':
                raise PathEnd('a text limited to an unknown length')
            if n[1] == 0:
                return [(C(full), st)]
            out = out[:n[1] - 1]
        d = self.deref(st, dst, x, True)
        v = ('x', 'cstr', out)
        self.on_store(st, d, v, None, x)
        self.put_str(st, d, v, ins=x)
        return [(C(full), st)]

    def valist(self, st, p):
        p = st.res(p)
        c = st.mem[p[1]].cells.get((p[2], p[3])) if p[0] == 'p' and p[1] in st.mem else None
        if c is None or c[0][0] != 'x' or c[0][1] != 'valist':
            raise PathEnd('a list of arguments that was not started')
        return c[0][2:]

    def m_vsnprintf(self, E, st, args, x):
        return self.fmt(st, args[0], args[1], args[2], self.valist(st, args[3]), x)

    def m_vsprintf(self, E, st, args, x):
        return self.fmt(st, args[0], None, args[1], self.valist(st, args[2]), x)

    def llvm(self, fr, st, name, args, x):
        if name.startswith('llvm.va_start'):
            p = st.res(args[0])
            st.wr(p[1]).cells[(p[2], p[3])] = (('x', 'valist') + tuple(fr.args[len(fr.fn.args):]), 1, False)
            return [(C(0), st)]
        return super().llvm(fr, st, name, args, x)

    def known_text(self, st, p):
        t = self.cstr(st, p)
        if t is None:
            raise PathEnd('an unknown string is examined')
        return t

    def number(self, t):
        m = _re.match(rb'\s*[-+]?\d+', t)
        k = m.group(0).strip() if m else b''
        if k in self.num:
            return self.num[k]
        return C(int(k)) if k else C(0)

    def m_toint(self, E, st, args, x):
        t = self.known_text(st, args[0])
        v = self.number(t)
        if len(args) > 2 and st.res(args[2]) not in (C(10), C(0)):
            return [(self.sym(), st)]
        if v[0] == 'c':
            v = C(max(-(1 << 63), min((1 << 63) - 1, v[1])))
        return [(v, st)]

    def m_toint32(self, E, st, args, x):
        v = self.number(self.known_text(st, args[0]))
        return [(C(norm_int(v[1], 32)) if v[0] == 'c' else ('x', 'cut', v, C(32)), st)]

    def m_todbl(self, E, st, args, x):
        t = self.known_text(st, args[0])
        m = _re.match(rb'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', t)
        k = m.group(0).strip() if m else b''
        if k in self.num:
            return [(self.num[k], st)]
        return [(('d', float(k) if k else 0.0), st)]

    def m_regcomp(self, E, st, args, x):
        p = self.known_text(st, args[1])
        fl = st.res(args[2])
        d = self.deref(st, args[0], x, True)
        ok = posix_match(p, b'', 0, fl[1])
        if ok is None:
            return [(C(1), st)]
        out = []
        for mem, s in self.alloc(st, C(64), False, x):      # the compiled pattern
            if mem == NULL:
                out.append((C(12), s))
                continue
            o = s.wr(d[1])
            o.cells[(d[2], d[3])] = (('x', 'regex', p, fl[1]), 8, False)
            o.cells[(d[2], d[3] + 8)] = (mem, 8, False)
            o.cells[(d[2], d[3] + 48)] = (C(_rx[(p, fl[1])][2]), 8, False)
            out.append((C(0), s))
        return out

    def m_regfree(self, E, st, args, x):
        d = self.deref(st, args[0], x)
        c = st.mem[d[1]].cells.get((d[2], d[3]))
        if c is None or c[0][0] != 'x' or c[0][1] != 'regex':
            self.on_bad(st, 'release of a pattern that was not compiled', x)
            raise PathEnd('bad regfree')
        return self.free(st, st.mem[d[1]].cells[(d[2], d[3] + 8)][0], x)

    def m_regexec(self, E, st, args, x):
        d = self.deref(st, args[0], x)
        c = st.mem[d[1]].cells.get((d[2], d[3]))
        if c is None or c[0][0] != 'x' or c[0][1] != 'regex':
            raise PathEnd('a pattern that was not compiled')
        t = self.known_text(st, args[1])
        r = posix_match(c[0][2], t, 0, c[0][3])
        if r is False:
            return [(C(1), st)]
        n = st.res(args[2])
        m = st.res(args[3])
        for i in range(n[1] if m[0] == 'p' else 0):
            so, eo = r[i] if i < len(r) else (-1, -1)
            self.store(st, ('p', m[1], m[2], m[3] + 8 * i), C(so), 4, x)
            self.store(st, ('p', m[1], m[2], m[3] + 8 * i + 4), C(eo), 4, x)
        return [(C(0), st)]

    def m_strerror(self, E, st, args, x):
        return [(self.text_obj(st, b'an error'), st)]

    def text_obj(self, st, t):
        o = self.new_obj(st, 'heap', C(len(t) + 1), tag='libc')
        st.mem[o].cells[((), 0)] = (('x', 'cstr', t), 1, False)
        st.mem[o].extra = ('root',)
        return ('p', o, (), 0)

    def at(self, st, p, i):
        p = st.res(p)
        return NULL if i < 0 else (p[0], p[1], p[2], p[3] + i)

    def m_strstr(self, E, st, args, x):
        return [(self.at(st, args[0], self.known_text(st, args[0]).find(self.known_text(st, args[1]))), st)]

    def m_strchr(self, E, st, args, x):
        return [(self.at(st, args[0], (self.known_text(st, args[0]) + b'\0').find(bytes([st.res(args[1])[1] & 255]))), st)]

    def m_strrchr(self, E, st, args, x):
        return [(self.at(st, args[0], (self.known_text(st, args[0]) + b'\0').rfind(bytes([st.res(args[1])[1] & 255]))), st)]

    def m_strcasecmp(self, E, st, args, x):
        a, b = self.known_text(st, args[0]).lower(), self.known_text(st, args[1]).lower()
        return [(C((a > b) - (a < b)), st)]

    def m_errno(self, E, st, args, x):
        o = st.ghost.get('errno')
        if o is None:
            o = self.new_obj(st, 'heap', C(4), tag='libc', zero=True)
            st.mem[o].extra = ('root',)
            st.ghost['errno'] = o
        return [(('p', o, (), 0), st)]

    # values that were never set
    def undef_value(self, st, p, o, size, ty, ins):
        v = self.sym()
        if o.kind in ('heap', 'alloca') and o.tag not in ('libc', 'text'):
            self.unset.add(v)
        return v

    def deref(self, st, p, ins, write=False):
        v = st.res(p)
        if v[0] != 'p' and v != NULL and v[0] != 'c':
            self.on_bad(st, 'access to memory through a value that %s' % ('was never set' if v[0] == 'u' or v in self.unset else 'is no address'), ins)
            raise PathEnd('no address')
        return super().deref(st, p, ins, write)

    def decide(self, st, v):
        w = st.res(v)
        if w[0] == 'u' or self.unset and w[0] in ('s', 'x', 'l'):
            acc = set()
            atoms_in(w, acc)
            if w[0] == 'u' or acc & self.unset:
                self.on_bad(st, 'a decision depends on a value that was never set', None)
        return super().decide(st, v)

    # locks: ghost ('lock', mutex) = 1 held / 0 not, ('mutex', mutex) = 1 initialised / 2 destroyed
    lock_fails = False
    meet = None         # a statement of another thread, which gets hold of the lock just before

    def overtaken(self, st):
        text, self.meet = self.meet, None
        q = self.text_obj(st, text.encode())
        st.mem[q[1]].extra = ('root',)
        for fn, args in (('query_execute', [('p', self.db, (), 0), q]), ('query_free', None)):
            outs = self.run(self.P.fn(fn), args or [rv], st)
            if len(outs) != 1:
                raise Fork('%d outcomes' % len(outs), outs)
            rv, st = outs[0][1].res(outs[0][0]), outs[0][1]
        st.ghost['met'] = 1
        if 'catalogue' in st.ghost:
            st.ghost['catalogue'] = self.catalogue(st)
        return st

    def catalogue(self, st):
        """what the database refers to, down to its tables"""
        size = self.P.records['table']['size']
        seen, todo, out = set(), [self.db], []
        while todo:
            k = todo.pop()
            if k in seen or k not in st.mem:
                continue
            seen.add(k)
            o = st.mem[k]
            if k != self.db and o.freed is None and st.res(o.size) == C(size):
                out.append((k,))
                continue
            for key, (v, s, c) in o.cells.items():
                v = st.res(v)
                out.append((k, key, v))
                if v[0] == 'p' and not isinstance(v[1], tuple):
                    todo.append(v[1])
        return frozenset(out)

    def m_lock(self, E, st, args, x):
        p = st.res(args[0])
        k = ('lock', p)
        if st.ghost.get(k):
            self.on_bad(st, 'a lock is taken twice', x)
            raise PathEnd('deadlock')
        if st.ghost.get(('mutex', p)) == 2:
            self.on_bad(st, 'a lock is taken that was destroyed', x)
        if self.lock_fails:
            st.ghost['failed'] = 1
            return [(C(35), st)]
        if 'catalogue' in st.ghost and p[1] == self.db and self.catalogue(st) != st.ghost['catalogue']:
            self.on_bad(st, 'the tables of the database changed before its lock was taken', x)
        if self.meet and p[1] == self.db:
            st = self.overtaken(st)
        st.ghost[k] = 1
        return [(C(0), st)]

    def m_unlock(self, E, st, args, x):
        p = st.res(args[0])
        k = ('lock', p)
        if not st.ghost.get(k):
            self.on_bad(st, 'a lock is released that is not held', x)
        st.ghost[k] = 0
        if 'catalogue' in st.ghost and p[1] == self.db:
            st.ghost['catalogue'] = self.catalogue(st)
        return [(C(0), st)]

    def m_mutex_init(self, E, st, args, x):
        p = st.res(args[0])
        if st.ghost.get(('lock', p)) or st.ghost.get(('mutex', p)) == 1:
            self.on_bad(st, 'a lock is set up that is in use', x)
        st.ghost[('mutex', p)] = 1
        return [(C(0), st)]

    def m_mutex_destroy(self, E, st, args, x):
        p = st.res(args[0])
        if st.ghost.get(('lock', p)):
            self.on_bad(st, 'a lock is destroyed that is held', x)
        if st.ghost.get(('mutex', p)) == 2:
            self.on_bad(st, 'a lock is destroyed twice', x)
        st.ghost[('mutex', p)] = 2
        return [(C(0), st)]

    def m_strptime(self, E, st, args, x):
        s = self.str_id(st, args[0])
        f = self.cstr(st, args[1])
        if s[1] == 'cstr' and f is not None:
            buf = ctypes.create_string_buffer(64)
            _libc.strptime.restype = ctypes.c_void_p
            if not _libc.strptime(ctypes.c_char_p(s[2]), ctypes.c_char_p(f), buf):
                return [(NULL, st)]
        return super().m_strptime(E, st, args, x)


class Session:
    """one database and the statements run against it"""
    def __init__(self, E, P):
        self.E, self.P = E, P
        self.st = State()
        self.db = E.new_obj(self.st, 'heap', C(P.records['database']['size']), tag='db', zero=True)
        self.st.mem[self.db].extra = ('root',)
        E.db = self.db
        rv = self.one(P.fn('database_open'), [('p', self.db, (), 0)])
        if rv != C(0):
            raise BadHeap('the database cannot be opened')

    def one(self, fn, args):
        outs = self.E.run_root(fn, args, self.st)
        if len(outs) != 1:
            raise Fork('%d outcomes' % len(outs), outs)
        rv, self.st = outs[0]
        return self.st.res(rv)

    def run(self, text):
        """outcome of one statement: pointer to its query_output"""
        if isinstance(text, str):
            text = text.encode()
        E, st = self.E, self.st
        q = E.new_obj(st, 'heap', C(len(text) + 1), tag='text')
        st.mem[q].cells[((), 0)] = (('x', 'cstr', text), 1, False)
        st.mem[q].extra = ('root',)
        return self.one(self.P.fn('query_execute'), [('p', self.db, (), 0), ('p', q, (), 0)])


class Fork(Exception):
    def __init__(self, msg, outs):
        super().__init__(msg)
        self.outs = outs
