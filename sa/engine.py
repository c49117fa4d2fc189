"""Path-sensitive abstract interpreter over the project's IR (property
simulation): a worklist of abstract states per basic block, states that agree
on everything observable are merged, loops are closed by widening, callees are
analysed in the caller's abstract state.  Nothing is executed and no path
condition is handed to a solver: the numeric domain is linear forms over
symbolic atoms plus difference bounds (zones), the heap domain is a shape graph
whose unknown parts are materialised on demand.

Values are tuples:
  ('c', v)              integer constant (NULL is ('c', 0))
  ('s', n)              symbol (int n: anonymous, str n: named by a checker)
  ('l', c, ((atom,k)…)) linear form
  ('x', op, args…)      uninterpreted / comparison / boolean term
  ('p', obj, terms, off) pointer into an abstract object
  ('f', name, mod)      function pointer
  ('d', x)              floating constant
  ('u',)                undefined
  ('agg', (v…))         first-class aggregate
"""
import heapq
import math
import itertools
import re

from frontend import AnalysisBroken

NULL = ('c', 0)
UNDEF = ('u',)
TRUE = ('c', 1)
FALSE = ('c', 0)


class Budget(Exception):
    """the state budget of one analysis ran out (no verdict for that unit)"""


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ values
def width_of(ty):
    if ty == 'ptr':
        return 64
    m = re.match(r'i(\d+)$', ty)
    return int(m.group(1)) if m else 0


def norm_int(v, w):
    if w <= 1:
        return v & 1
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return v


def C(v):
    return ('c', v)


def lin_parts(v):
    """(const, dict atom->coef) of a numeric value, or None"""
    t = v[0]
    if t == 'c':
        return v[1], {}
    if t == 'l':
        return v[1], dict(v[2])
    if t in ('s', 'x'):
        return 0, {v: 1}
    return None


def _skey(t):
    return repr(t)


def mk_terms(d):
    return tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=_skey))


def mk_lin(c, d):
    ts = mk_terms(d)
    if not ts:
        return ('c', c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ('l', c, ts)


def add(a, b, kb=1):
    """a + kb*b on numeric or pointer values"""
    if a[0] == 'p':
        pb = lin_parts(b)
        if pb is None:
            return None
        c, d = pb
        t = dict(a[2])
        for at, k in d.items():
            t[at] = t.get(at, 0) + kb * k
        return ('p', a[1], mk_terms(t), a[3] + kb * c)
    if b[0] == 'p' and kb == 1:
        return add(b, a)
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return None
    c = pa[0] + kb * pb[0]
    d = pa[1]
    for at, k in pb[1].items():
        d[at] = d.get(at, 0) + kb * k
    return mk_lin(c, d)


def scale(a, k):
    p = lin_parts(a)
    if p is None:
        return None
    return mk_lin(p[0] * k, {at: c * k for at, c in p[1].items()})


def mul(a, b):
    if a[0] == 'c':
        return scale(b, a[1])
    if b[0] == 'c':
        return scale(a, b[1])
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return None
    # distribute: products of atoms become atoms with sorted operands
    c = pa[0] * pb[0]
    d = {}
    for at, k in pa[1].items():
        d[at] = d.get(at, 0) + k * pb[0]
    for at, k in pb[1].items():
        d[at] = d.get(at, 0) + k * pa[0]
    for x, kx in pa[1].items():
        for y, ky in pb[1].items():
            p = ('x', 'mul') + tuple(sorted((x, y), key=_skey))
            d[p] = d.get(p, 0) + kx * ky
    return mk_lin(c, d)


BOOLOPS = {'eq', 'lt', 'feq', 'flt', 'not', 'and', 'or', 'xor', 'bool'}


def is_bool(v):
    return v[0] == 'x' and v[1] in BOOLOPS or v in (TRUE, FALSE)


def bnot(v):
    if v[0] == 'c':
        return C(0 if v[1] else 1)
    if v[0] == 'x' and v[1] == 'not':
        return v[2]
    return ('x', 'not', v)


def pfx(e):
    """total column space of the columns before index e"""
    if e == ('c', 0):
        return ('c', 0)
    return ('x', 'pfx', e)


def atoms_in(v, out):
    t = v[0]
    if t == 's':
        out.add(v)
    elif t == 'l':
        for a, k in v[2]:
            atoms_in(a, out)
    elif t == 'x':
        for a in v[2:]:
            if isinstance(a, tuple):
                atoms_in(a, out)
    elif t == 'p':
        for a, k in v[2]:
            atoms_in(a, out)
    elif t == 'agg':
        for a in v[1]:
            atoms_in(a, out)


def objs_in(v, out):
    t = v[0]
    if t == 'p':
        out.add(v[1])
        for a, k in v[2]:
            objs_in(a, out)
    elif t == 'l':
        for a, k in v[2]:
            objs_in(a, out)
    elif t == 'x':
        for a in v[2:]:
            if isinstance(a, tuple):
                objs_in(a, out)
    elif t == 'agg':
        for a in v[1]:
            objs_in(a, out)


def subst(v, m):
    """replace symbols/atoms by values (m: atom -> value), renormalising"""
    if v in m:
        return subst(m[v], m)
    t = v[0]
    if t in ('c', 's', 'f', 'd', 'u'):
        return v
    if t == 'l':
        r = ('c', v[1])
        for a, k in v[2]:
            s = subst(a, m)
            if lin_parts(s) is None:
                if s[0] == 'p' and k == 1:
                    r = add(s, r) or ('x', 'opaque', s)
                    continue
                s = ('x', 'opaque', s)
            n = add(r, scale(s, k))
            r = n
        return r
    if t == 'x':
        return mk_x(v[1], *[subst(a, m) if isinstance(a, tuple) else a for a in v[2:]])
    if t == 'p':
        if not v[2]:
            return v
        r = ('p', v[1], (), v[3])
        for a, k in v[2]:
            s = subst(a, m)
            if lin_parts(s) is None:
                s = ('x', 'opaque', s)
            r = add(r, scale(s, k))
        return r
    if t == 'agg':
        return ('agg', tuple(subst(a, m) for a in v[1]))
    return v


def mk_x(op, *args):
    """rebuild a term, folding what became constant"""
    if op == 'pfx':
        return pfx(args[0])
    if op == 'not':
        return bnot(args[0])
    if op in ('eq', 'lt'):
        return mk_cmp(op, args[0], args[1])
    if op == 'mul':
        r = mul(args[0], args[1])
        return r if r is not None else ('x', op) + args
    if op in ('and', 'or', 'xor'):
        a, b = args
        if op == 'and':
            if FALSE in (a, b):
                return FALSE
            if a == TRUE:
                return b
            if b == TRUE:
                return a
        elif op == 'or':
            if TRUE in (a, b):
                return TRUE
            if a == FALSE:
                return b
            if b == FALSE:
                return a
        else:
            if a == FALSE:
                return b
            if b == FALSE:
                return a
            if a == TRUE:
                return bnot(b)
            if b == TRUE:
                return bnot(a)
            if a == b:
                return FALSE
        return ('x', op, a, b)
    if op in ('udiv', 'sdiv', 'urem', 'srem') and args[0][0] == 'c' and args[1][0] == 'c' and args[1][1] > 0 and args[0][1] >= 0:
        return C(args[0][1] // args[1][1] if op.endswith('div') else args[0][1] % args[1][1])
    return ('x', op) + tuple(args)


def mk_cmp(op, a, b):
    """op in eq, lt over integer/pointer values"""
    if a[0] == 'p' and b[0] == 'p':
        if a[1] == b[1]:
            if a[2] == b[2]:
                return C(int(a[3] == b[3] if op == 'eq' else a[3] < b[3]))
            la = mk_lin(a[3], dict(a[2]))
            lb = mk_lin(b[3], dict(b[2]))
            return mk_cmp(op, la, lb)
        if op == 'eq':
            return FALSE
        return ('x', 'lt', a, b)
    if a[0] in ('p', 'f') and b == NULL or b[0] in ('p', 'f') and a == NULL:
        return FALSE if op == 'eq' else ('x', op, a, b)
    if a[0] == 'f' and b[0] == 'f' and op == 'eq':
        return C(int(a[1] == b[1]))
    if op == 'eq' and is_bool(a) and b[0] == 'c':
        return bnot(a) if b[1] == 0 else (a if b[1] == 1 else FALSE)
    if op == 'eq' and is_bool(b) and a[0] == 'c':
        return bnot(b) if a[1] == 0 else (b if a[1] == 1 else FALSE)
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        if a == b and a[0] != 'u':
            return C(int(op == 'eq'))
        if op == 'eq' and _skey(b) < _skey(a):
            a, b = b, a
        return ('x', op, a, b)
    d = add(a, b, -1)
    if d[0] == 'c':
        return C(int(d[1] == 0 if op == 'eq' else d[1] < 0))
    # canonical: move to  (positive part) op (rest)
    c, ts = lin_parts(d)
    if op == 'eq':
        items = sorted(ts.items(), key=_skey)
        if items[0][1] < 0:
            c, ts = -c, {x: -k for x, k in ts.items()}
    g = 0
    for k in ts.values():
        g = math.gcd(g, k)
    if g > 1:
        if op == 'eq':
            if c % g:
                return FALSE
            c //= g
        else:              # g*X + c < 0  <=>  X < ceil(-c / g)
            c = c // g
        ts = {x: k // g for x, k in ts.items()}
    pos = {x: k for x, k in ts.items() if k > 0}
    neg = {x: -k for x, k in ts.items() if k < 0}
    L = mk_lin(0, pos) if pos else C(0)
    R = mk_lin(-c, neg)
    return ('x', op, L, R)


# ------------------------------------------------------------------ heap
VERSION = itertools.count(1)


class Obj:
    __slots__ = ('kind', 'size', 'cells', 'zero', 'freed', 'tag', 'site', 'cps', 'zr', 'extra', 'ver')

    def __init__(self, kind, size=None, tag=None, site=None, zero=False):
        self.kind = kind      # 'heap','alloca','lazy','global'
        self.size = size      # value or None
        self.cells = {}       # (terms, off) -> (value, size, clean)
        self.zero = zero
        self.freed = None
        self.tag = tag
        self.site = site
        self.cps = ()
        self.zr = ()
        self.extra = ()
        self.ver = next(VERSION)

    def clone(self):
        o = Obj(self.kind, self.size, self.tag, self.site, self.zero)
        o.cells = dict(self.cells)
        o.freed = self.freed
        o.cps = self.cps
        o.zr = self.zr
        o.extra = self.extra
        return o


class State:
    __slots__ = ('mem', 'sub', 'facts', 'zone', 'ghost', 'trace', 'pins', 'owned')

    def __init__(self):
        self.mem = {}
        self.sub = {}
        self.facts = {}     # bool atom -> 0/1
        self.zone = {}      # (a, b) -> k : a - b <= k   (None stands for 0)
        self.ghost = {}
        self.trace = None
        self.pins = ()
        self.owned = set()  # objects private to this state (may be mutated in place)

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.sub = dict(self.sub)
        s.facts = dict(self.facts)
        s.zone = dict(self.zone)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.pins = self.pins
        s.owned = set()
        self.owned = set()
        return s

    def wr(self, oid):
        """object for writing"""
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.clone()
            self.mem[oid] = o
            self.owned.add(oid)
        else:
            o.ver = next(VERSION)
        return o

    def res(self, v):
        if self.sub:
            return subst(v, self.sub)
        return v

    def step(self, what):
        self.trace = (self.trace, what)

    def trace_list(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


# ------------------------------------------------------------------ zones
def z_le(z, a, b):
    """best k with a - b <= k, or None"""
    if a == b:
        return 0
    return z.get((a, b))


def z_add(z, a, b, k):
    """add a - b <= k keeping closure; False when inconsistent"""
    if a == b:
        return k >= 0
    cur = z.get((a, b))
    if cur is not None and cur <= k:
        return True
    back = z.get((b, a))
    if back is not None and back + k < 0:
        return False
    vs = set()
    for (x, y) in z:
        vs.add(x)
        vs.add(y)
    vs.add(a)
    vs.add(b)
    ins = [(x, z_le(z, x, a)) for x in vs]
    outs = [(y, z_le(z, b, y)) for y in vs]
    z[(a, b)] = k
    for x, p in ins:
        if p is None:
            continue
        for y, q in outs:
            if q is None or x == y:
                continue
            n = p + k + q
            c = z.get((x, y))
            if c is None or n < c:
                z[(x, y)] = n
    for (x, y), n in list(z.items()):
        m = z.get((y, x))
        if m is not None and m + n < 0:
            return False
    return True


def lin_diff(a, b):
    """a-b as (x, y, k): x - y + k with x,y atoms or None; else None"""
    d = add(a, b, -1) if lin_parts(a) is not None and lin_parts(b) is not None else None
    if d is None:
        return None
    c, ts = lin_parts(d)
    pos = [x for x, k in ts.items() if k == 1]
    neg = [x for x, k in ts.items() if k == -1]
    if len(pos) + len(neg) != len(ts) or len(pos) > 1 or len(neg) > 1:
        return None
    return (pos[0] if pos else None, neg[0] if neg else None, c)


def z_decide_lt(z, a, b):
    """True/False/None for a < b"""
    d = lin_diff(a, b)
    if d is None:
        return None
    x, y, c = d
    up = z_le(z, x, y)          # x - y <= up
    if up is not None and up + c < 0:
        return True
    dn = z_le(z, y, x)          # y - x <= dn  =>  x - y >= -dn
    if dn is not None and -dn + c >= 0:
        return False
    return None


# ------------------------------------------------------------------ per-function static info
def fn_info(f):
    if f._live is None:
        n = len(f.blocks)
        # reverse post order
        seen = [False] * n
        order = []
        stack = [(0, iter(f.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(f.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in f.pred[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while rpo[x] > rpo[y]:
                            x = idom[x]
                        while rpo[y] > rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0 or b not in idom:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in f.succ[b]:
                if s in rpo and dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(p for p in f.pred[x] if p in rpo)
        # liveness of instruction results and args
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]   # on out-edge of pred

        def ops_of(x):
            for o in x['ops']:
                if x['op'] == 'phi':
                    continue
                yield o
            if x['op'] == 'getelementptr':
                for v in x['var']:
                    yield v['v']
            if x['op'] == 'call' and 'callee' in x:
                yield x['callee']
        for bi, b in enumerate(f.blocks):
            for x in b:
                if x['op'] == 'phi':
                    for o in x['ops']:
                        v = o['v']
                        if 'i' in v:
                            phiuse[o['b']].add(('i', v['i']))
                        elif 'a' in v:
                            phiuse[o['b']].add(('a', v['a']))
                    dfn[bi].add(('i', x['id']))
                    continue
                for o in ops_of(x):
                    k = None
                    if 'i' in o:
                        k = ('i', o['i'])
                    elif 'a' in o:
                        k = ('a', o['a'])
                    if k and k not in dfn[bi]:
                        use[bi].add(k)
                dfn[bi].add(('i', x['id']))
        livein = [set() for _ in range(n)]
        liveout = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                lo = set(phiuse[b])
                for s in f.succ[b]:
                    lo |= livein[s]
                li = use[b] | (lo - dfn[b])
                if lo != liveout[b] or li != livein[b]:
                    liveout[b] = lo
                    livein[b] = li
                    changed = True
        # phis of a block are live at the block when used later (we keep phi results that are live)
        usedafter = [set() for _ in range(n)]
        for bi, b in enumerate(f.blocks):
            later = set(liveout[bi])
            for x in b:
                if x['op'] == 'phi':
                    continue
                for o in ops_of(x):
                    if 'i' in o:
                        later.add(('i', o['i']))
                    elif 'a' in o:
                        later.add(('a', o['a']))
            usedafter[bi] = later
        # bodies ordered: process a loop completely before its exits
        # priority: rpo refined so that loop bodies precede their exits
        prio = _loop_prio(f, order, rpo, loops)
        f._live = {'rpo': rpo, 'order': order, 'loops': loops, 'livein': livein, 'liveout': liveout,
                   'used': usedafter, 'prio': prio, 'idom': idom}
    return f._live


def _loop_prio(f, order, rpo, loops):
    # depth-first numbering in which, at a block inside a loop, successors leaving the innermost loop come later
    innermost = {}
    for h, body in sorted(loops.items(), key=lambda kv: len(kv[1]), reverse=True):
        for b in body:
            innermost[b] = h
    seen = set()
    post = []

    def visit(b):
        stack = [(b, None)]
        while stack:
            x, it = stack[-1]
            if it is None:
                seen.add(x)
                h = innermost.get(x)
                body = loops.get(h, ()) if h is not None else None
                ss = list(f.succ[x])
                if body is not None:
                    ss.sort(key=lambda s: 0 if s not in body else 1)
                it = iter(ss)
                stack[-1] = (x, it)
            for s in it:
                if s not in seen:
                    stack.append((s, None))
                    break
            else:
                post.append(x)
                stack.pop()
    visit(0)
    post.reverse()
    return {b: i for i, b in enumerate(post)}


class Frame:
    __slots__ = ('fn', 'regs', 'loops', 'args', 'depth')

    def __init__(self, fn, regs, loops, args, depth):
        self.fn = fn
        self.regs = regs
        self.loops = loops   # header -> LoopInfo tuple (kappa, lastphis dict, count, forked)
        self.args = args
        self.depth = depth

    def copy(self):
        return Frame(self.fn, dict(self.regs), dict(self.loops), self.args, self.depth)


class Engine:
    """One analysis instance.  Subclass / set hooks for a specific checker."""

    lone_paths = False      # do not look for an equal earlier state while one path alone is followed
    max_states = 60000      # processed block visits per root
    max_depth = 40
    unroll = 64

    zr_limit = 12

    def __init__(self, prog):
        self.P = prog
        self.fresh = itertools.count(1)
        self.visits = 0
        self.models = dict(BASE_MODELS)
        self.covered = set()      # functions analysed
        self.events = []          # (kind, info)
        self.ends = []            # (why, state) terminated paths
        self.callstack = []
        self.blocks_seen = set()
        self.recursive = {}       # fn key -> handler
        self.cur = None
        self.kappa_owner = {}
        self.last_branch = None
        self.worklists = []
        self.elem = {}            # lazily known element size of arrays (unused by default)

    # ---- construction helpers
    def sym(self, name=None):
        if name is None:
            return ('s', next(self.fresh))
        return ('s', name)

    def new_obj(self, st, kind, size=None, tag=None, site=None, zero=False):
        oid = next(self.fresh)
        st.mem[oid] = Obj(kind, size, tag, site, zero)
        st.owned.add(oid)
        return oid

    def ptr(self, oid, off=0, terms=()):
        return ('p', oid, terms, off)

    # ---- hooks (override)
    def lazy_value(self, st, oid, key, size, ty, ins):
        """value of a never-written cell of a lazy object; None: fresh symbol"""
        return None

    def lazy_target(self, st, symv, ins):
        """object materialised when an unknown pointer is followed"""
        return self.new_obj(st, 'lazy')

    def on_store(self, st, ptr, val, size, ins):
        pass

    def on_load(self, st, ptr, val, size, ins):
        pass

    def on_call(self, st, name, args, ins):
        """return list of (ret, state) to override, or None"""
        return None

    def on_branch(self, st, atom, truth):
        pass

    def on_abort(self, st, ins, name):
        self.ends.append(('abort', st, self.cur_loc(ins)))

    def on_bad(self, st, kind, ins, info=None):
        """null dereference / use after free / out of bounds …"""
        pass

    def on_unreachable_obj(self, st, oid, obj, where):
        pass

    def on_free(self, st, ptr, ins):
        pass

    def on_loop_exit(self, st, frame, header, src, dst):
        pass

    def on_back_edge(self, st, fr, header):
        pass

    def on_return(self, st, fn, ret):
        pass

    def decide_hook(self, st, atom):
        """None: unknown; True/False: decided by the scenario"""
        return None

    def fork_hook(self, st, atom):
        """None or list of (truth, state): scenario-controlled forking"""
        return None

    def cur_loc(self, ins):
        f = self.callstack[-1] if self.callstack else None
        return (f.mod if f else '?', ins.get('line', 0) if ins else 0, f.name if f else '?')

    # ---- evaluation of operands
    def operand(self, fr, st, o):
        if 'i' in o:
            v = fr.regs.get(('i', o['i']))
            if v is None:
                return UNDEF
            return st.res(v)
        if 'a' in o:
            return st.res(fr.args[o['a']])
        if 'c' in o:
            return ('c', norm_int(o['c'], o['w']))
        if 'n' in o:
            return NULL
        if 'f' in o:
            return ('d', o['f'])
        if 'u' in o:
            return UNDEF
        if 'z' in o:
            return NULL
        if 'g' in o:
            return self.global_ptr(fr, st, o['g'], o.get('off', 0))
        return UNDEF

    def global_ptr(self, fr, st, name, off):
        mod = fr.fn.mod
        f = self.P.resolve(mod, name)
        if f is not None:
            return ('f', name, f.mod)
        g = self.P.global_(mod, name)
        if g is None:
            return ('f', name, None)
        if g.get('internal', True):
            oid = ('g', mod, name)
        else:
            oid = ('g', None, name)
        if oid not in st.mem:
            st.mem[oid] = self.make_global(st, oid, g)
        return ('p', oid, (), off)

    def make_global(self, st, oid, g):
        o = Obj('global', C(g.get('size', 0)), tag=oid[2])
        o.extra = ('const',) if g.get('const') else ()
        return o

    def global_bytes(self, oid, off, n):
        g = self.P.global_(oid[1], oid[2])
        if g is None:
            return None
        return g

    # ---- memory
    def deref(self, st, p, ins, write=False):
        """normalise a pointer operand for access; raises PathEnd on certain error"""
        p = st.res(p)
        if p[0] == 'p':
            o = st.mem.get(p[1])
            if o is None:
                raise PathEnd('dangling')
            if o.freed is not None:
                self.on_bad(st, 'use-after-free', ins, (p, o))
                raise PathEnd('uaf')
            return p
        if p == NULL or (p[0] == 'c' and 0 <= p[1] < 4096) or (p[0] == 'c' and -(1 << 20) < p[1] < 0):
            self.on_bad(st, 'null-deref', ins, (p,))
            raise PathEnd('null')
        if p[0] == 's':
            oid = self.lazy_target(st, p, ins)
            st.sub[p] = ('p', oid, (), 0) if not isinstance(oid, tuple) or oid[0] != 'p' else oid
            return st.res(p)
        if p[0] == 'l':
            # base symbol + offset: find the single pointer-like symbol
            c, ts = lin_parts(p)
            cand = [a for a, k in ts.items() if k == 1 and a[0] == 's' and a in st.facts.get('ptrs', ())] \
                or [a for a, k in ts.items() if k == 1 and a[0] == 's']
            if cand:
                b = cand[0]
                oid = self.lazy_target(st, b, ins)
                st.sub[b] = ('p', oid, (), 0) if not isinstance(oid, tuple) or oid[0] != 'p' else oid
                r = st.res(p)
                if r[0] == 'p':
                    return r
        # opaque pointer: give it a lazy object per term
        key = ('opq', p)
        oid = st.ghost.get(key)
        if oid is None or oid not in st.mem:
            oid = self.new_obj(st, 'lazy', tag='opaque')
            st.ghost[key] = oid
        return ('p', oid, (), 0)

    def load(self, st, p, size, ty, ins):
        p = self.deref(st, p, ins)
        o = st.mem[p[1]]
        key = (p[2], p[3])
        c = o.cells.get(key)
        if c is not None:
            v, s, clean = c
            v = st.res(v)
            if s == size:
                self.on_load(st, p, v, size, ins)
                return v
            if v[0] == 'c' and size < s:
                v = C(norm_int(v[1], size * 8))
                self.on_load(st, p, v, size, ins)
                return v
            if size < s:
                v = ('x', 'lo%d' % size, v)
                self.on_load(st, p, v, size, ins)
                return v
            v = self.default_load(st, p, o, key, size, ty, ins, overlap=True)
            self.on_load(st, p, v, size, ins)
            return v
        v = self.default_load(st, p, o, key, size, ty, ins)
        self.on_load(st, p, v, size, ins)
        return v

    def default_load(self, st, p, o, key, size, ty, ins, overlap=False):
        if o.kind == 'global':
            v = self.load_global(st, p, size, ty)
            if v is not None:
                return v
        if not overlap:
            for (do, n, src) in o.cps:
                if key[0] == do[0] and n[0] == 'c' and do[1] <= key[1] and key[1] + size <= do[1] + n[1]:
                    sp = ('p', src[1], src[2], src[3] + key[1] - do[1])
                    if src[1] in st.mem and st.mem[src[1]].freed is None:
                        v = self.load(st, sp, size, ty, ins)
                        st.wr(p[1]).cells[key] = (v, size, True)
                        return v
            for (zo, zn) in o.zr:
                if key[0] == zo[0] and zo[1] <= key[1] and key[1] + size <= zo[1] + zn:
                    return self.zero_of(ty)
            # inside a wider cell?
            for (ts, off), (v, s, cl) in o.cells.items():
                if ts == key[0] and off <= key[1] and key[1] + size <= off + s:
                    vv = st.res(v)
                    if vv[0] == 'c':
                        return C(norm_int(vv[1] >> (8 * (key[1] - off)), size * 8))
                    return ('x', 'byte', vv, C(key[1] - off), C(size))
            if o.zero:
                return self.zero_of(ty)
        v = None
        if o.kind == 'lazy' or o.kind == 'global':
            v = self.lazy_value(st, p[1], key, size, ty, ins)
        if v is None:
            v = self.undef_value(st, p, o, size, ty, ins)
        st.wr(p[1]).cells[key] = (v, size, o.kind == 'lazy')
        return v

    def undef_value(self, st, p, o, size, ty, ins):
        return self.sym()

    def zero_of(self, ty):
        if ty in ('double', 'float', 'x86_fp80'):
            return ('d', 0.0)
        return C(0)

    def load_global(self, st, p, size, ty):
        oid = p[1]
        if not isinstance(oid, tuple):
            return None
        g = self.P.global_(oid[1], oid[2])
        if g is None or 'cells' not in g:
            return None
        if not g.get('const'):
            return None
        if p[2]:
            return None
        off = p[3]
        for c in g['cells']:
            co, cs = c['o'], c['s']
            if co == off and cs == size and 'v' in c:
                v = c['v']
                if 'c' in v:
                    return C(norm_int(v['c'], size * 8))
                if 'f' in v:
                    return ('d', v['f'])
                if 'g' in v:
                    fr = type('F', (), {})()
                    fr.fn = type('G', (), {})()
                    fr.fn.mod = oid[1]
                    return self.global_ptr(fr, st, v['g'], v.get('off', 0))
                if 'n' in v:
                    return NULL
            if 'zero' in c and co <= off and off + size <= co + cs:
                return self.zero_of(ty)
            if 'str' in c and co <= off < co + cs and size == 1:
                b = c['str']
                i = off - co
                ch = b[i] if i < len(b) else 0
                if isinstance(ch, str):
                    ch = ord(ch)
                return C(norm_int(ch, 8))
        return None

    def store(self, st, p, v, size, ins):
        p = self.deref(st, p, ins, write=True)
        self.on_store(st, p, v, size, ins)
        self.put(st, p, v, size)

    def put(self, st, p, v, size, clean=False):
        o = st.wr(p[1])
        key = (p[2], p[3])
        if len(o.cells):
            lo, hi = p[3], p[3] + size
            dead = []
            for (ts, off), (cv, s, cl) in o.cells.items():
                if off < hi and off + s > lo and ts == p[2] and (off, s) != (p[3], size):
                    dead.append((ts, off))
            for k in dead:
                cv, s, cl = o.cells.pop(k)
                # keep what lies outside the written range as unknown bytes
                if k[1] < lo:
                    o.cells[k] = (self.sym(), lo - k[1], False)
                if k[1] + s > hi:
                    o.cells[(k[0], hi)] = (self.sym(), k[1] + s - hi, False)
        o.cells[key] = (v, size, clean)

    # ---- strings
    def cstr(self, st, p):
        """python bytes of a constant string, or None"""
        p = st.res(p)
        if p[0] != 'p' or p[2]:
            return None
        oid = p[1]
        if isinstance(oid, tuple) and oid[0] == 'g':
            g = self.P.global_(oid[1], oid[2])
            if g is None or 'cells' not in g:
                return None
            for c in g['cells']:
                if 'str' in c and c['o'] <= p[3] < c['o'] + c['s']:
                    b = c['str'][p[3] - c['o']:]
                    return b.split(b'\0')[0]
            return None
        o = st.mem.get(oid)
        if o is None:
            return None
        c = o.cells.get((p[2], p[3]))
        if c is not None:
            v = c[0]
            if v[0] == 'x' and v[1] == 'cstr':
                return v[2]
            if v == C(0):
                return b''
        elif o.zero:
            return b''
        return None

    def str_id(self, st, p):
        """identity of the string content at p"""
        p = st.res(p)
        s = self.cstr(st, p)
        if s is not None:
            return ('x', 'cstr', s)
        if p[0] == 'p':
            o = st.mem.get(p[1])
            if o is not None:
                c = o.cells.get((p[2], p[3]))
                if c is not None and c[0][0] == 'x' and c[0][1] in ('str',):
                    return c[0]
        return ('x', 'str', p)

    # ---- decisions
    def decide(self, st, v):
        """list of (truth, state) possible for boolean value v"""
        v = st.res(v)
        if v[0] == 'c':
            return [(bool(v[1]), st)]
        if v[0] in ('p', 'f'):
            return [(True, st)]
        if v[0] == 'u':
            s2 = st.copy()
            return [(True, st), (False, s2)]
        if v[0] == 'd':
            return [(v[1] != 0, st)]
        if v[0] == 'x':
            op = v[1]
            if op == 'not':
                return [(not t, s) for t, s in self.decide(st, v[2])]
            if op == 'and' or op == 'or':
                out = []
                for t, s in self.decide(st, v[2]):
                    if t == (op == 'or'):
                        out.append((t, s))
                    else:
                        out.extend(self.decide(s, v[3]))
                return out
            if op == 'xor':
                out = []
                for t, s in self.decide(st, v[2]):
                    for t2, s2 in self.decide(s, v[3]):
                        out.append((t != t2, s2))
                return out
            if op not in BOOLOPS:
                return self.decide(st, bnot(mk_cmp('eq', v, C(0))))
        else:
            return self.decide(st, bnot(mk_cmp('eq', v, C(0))))
        # truth values inside arithmetic are decided first
        for side in v[2:4]:
            if isinstance(side, tuple) and side[0] in ('l', 'x'):
                for a, k in (side[2] if side[0] == 'l' else ((side, 1),)):
                    if a[0] == 'x' and is_bool(a):
                        out = []
                        for t, s in self.decide(st, a):
                            out.extend(self.decide(s, s.res(subst(v, {a: C(1 if t else 0)}))))
                        return out
        # comparison atom
        h = self.decide_hook(st, v)
        if h is not None:
            return [(h, st)]
        f = st.facts.get(v)
        if f is not None:
            return [(bool(f), st)]
        k = self.known(st, v)
        if k is not None:
            return [(k, st)]
        fk = self.fork_hook(st, v)
        if fk is not None:
            return fk
        out = []
        s1 = st.copy()
        if self.assume(s1, v, True):
            out.append((True, s1))
        s2 = st.copy()
        if self.assume(s2, v, False):
            out.append((False, s2))
        return out

    def known(self, st, v):
        op = v[1]
        if op == 'lt':
            return z_decide_lt(st.zone, v[2], v[3])
        if op == 'eq':
            a, b = v[2], v[3]
            if lin_diff(a, b) is not None:
                if z_decide_lt(st.zone, a, b) is True or z_decide_lt(st.zone, b, a) is True:
                    return False
                le = z_decide_lt(st.zone, b, a)
                ge = z_decide_lt(st.zone, a, b)
                if le is False and ge is False:
                    return True
        return None

    def assume(self, st, v, truth):
        """record v==truth; False if inconsistent"""
        op = v[1]
        if op == 'eq' and truth:
            a, b = v[2], v[3]
            d = lin_diff(a, b) if lin_parts(a) is not None and lin_parts(b) is not None else None
            if a[0] == 's' and not isinstance(a[1], str):
                return self.bind(st, a, b)
            if b[0] == 's' and not isinstance(b[1], str):
                return self.bind(st, b, a)
            if d is not None:
                x, y, c = d
                if x is not None and x[0] == 's' and not isinstance(x[1], str):
                    return self.bind(st, x, add(y, C(-c)) if y is not None else C(-c))
                if y is not None and y[0] == 's' and not isinstance(y[1], str):
                    return self.bind(st, y, add(x, C(c)) if x is not None else C(c))
                if not (z_add(st.zone, x, y, -c) and z_add(st.zone, y, x, c)):
                    return False
                if a[0] == 's' and b[0] == 'c':
                    return self.bind(st, a, b)
            st.facts[v] = 1
            return True
        if op == 'lt':
            d = lin_diff(v[2], v[3])
            if d is not None:
                x, y, c = d
                if truth:      # x - y + c < 0
                    ok = z_add(st.zone, x, y, -c - 1)
                else:          # x - y + c >= 0
                    ok = z_add(st.zone, y, x, c)
                if not ok:
                    return False
                self.tighten(st)
                return True
            st.facts[v] = int(truth)
            return True
        if op == 'eq' and not truth:
            st.facts[v] = 0
            d = lin_diff(v[2], v[3]) if lin_parts(v[2]) is not None and lin_parts(v[3]) is not None else None
            if d is not None:
                x, y, c = d
                # x - y != -c : sharpen a touching bound
                up = z_le(st.zone, x, y)
                if up is not None and up == -c:
                    if not z_add(st.zone, x, y, -c - 1):
                        return False
                dn = z_le(st.zone, y, x)
                if dn is not None and dn == c:
                    if not z_add(st.zone, y, x, c - 1):
                        return False
            return True
        st.facts[v] = int(truth)
        return True

    def tighten(self, st):
        for v, t in list(st.facts.items()):
            if t == 0 and v[0] == 'x' and v[1] == 'eq':
                d = lin_diff(v[2], v[3]) if lin_parts(v[2]) is not None and lin_parts(v[3]) is not None else None
                if d is not None:
                    x, y, c = d
                    up = z_le(st.zone, x, y)
                    if up is not None and up == -c:
                        z_add(st.zone, x, y, -c - 1)
                    dn = z_le(st.zone, y, x)
                    if dn is not None and dn == c:
                        z_add(st.zone, y, x, c - 1)

    def bind(self, st, s, val):
        """substitute symbol s by val everywhere"""
        val = st.res(val)
        if val == s:
            return True
        acc = set()
        atoms_in(val, acc)
        if s in acc:
            return True
        st.sub[s] = val
        m = {s: val}
        moved = []
        # memory keys
        for oid, o in list(st.mem.items()):
            hit = False
            for (ts, off) in o.cells:
                if ts:
                    acc = set()
                    for a, k in ts:
                        atoms_in(a, acc)
                    if s in acc:
                        hit = True
                        break
            if hit:
                o = st.wr(oid)
                new = {}
                for (ts, off), c in o.cells.items():
                    if ts:
                        p = subst(('p', 0, ts, off), m)
                        k = (p[2], p[3])
                    else:
                        k = (ts, off)
                    if k in new:
                        # both name the same cell now: unify lazily read values
                        a, b = st.res(new[k][0]), st.res(c[0])
                        if a != b and new[k][1] == c[1]:
                            if a[0] == 's' and not isinstance(a[1], str):
                                st.sub[a] = b
                            elif b[0] == 's' and not isinstance(b[1], str):
                                st.sub[b] = a
                        continue
                    new[k] = c
                    if k != (ts, off):
                        moved.append((oid, k))
                o.cells = new
        # facts
        nf = {}
        for v, t in st.facts.items():
            w = st.res(v)
            if w[0] == 'c':
                if bool(w[1]) != bool(t):
                    return False
                continue
            if w[0] == 'x' and w[1] == 'not':
                w, t = w[2], 1 - t
            nf[w] = t
        st.facts = nf
        # zone
        if any(a == s or b == s for a, b in st.zone):
            oldz = st.zone
            st.zone = {}
            pend = []
            for (a, b), k in oldz.items():
                if a == s or b == s:
                    pend.append((a, b, k))
                else:
                    st.zone[(a, b)] = k
            for a, b, k in pend:
                va = C(0) if a is None else st.res(a)
                vb = C(0) if b is None else st.res(b)
                if lin_parts(va) is None or lin_parts(vb) is None:
                    continue
                d = lin_diff(va, vb)
                if d is None:
                    continue
                if not z_add(st.zone, d[0], d[1], k - d[2]):
                    return False
            # atoms that contain s inside
        for (a, b), k in list(st.zone.items()):
            na = st.res(a) if a is not None else None
            nb = st.res(b) if b is not None else None
            if na != a or nb != b:
                del st.zone[(a, b)]
                va = C(0) if na is None else na
                vb = C(0) if nb is None else nb
                if lin_parts(va) is None or lin_parts(vb) is None:
                    continue
                d = lin_diff(va, vb)
                if d is not None:
                    if not z_add(st.zone, d[0], d[1], k - d[2]):
                        return False
        for v, t in list(st.facts.items()):
            if v[0] == 'x' and v[1] in ('lt', 'eq'):
                kn = self.known(st, v)
                if kn is not None and kn != bool(t):
                    return False
        for oid, k in moved:
            self.on_rekey(st, oid, k)
        return True

    def on_rekey(self, st, oid, key):
        pass

    def on_generalise(self, st, fr, header, aff, kappa):
        """the loop position became symbolic: iteration kappa >= 1 after the last concrete one"""
        pass

    # ---- running functions
    def run_root(self, fn, args, st):
        self.callstack = []
        self.visits = 0
        return self.run(fn, args, st)

    def run(self, fn, args, st):
        """analyse fn in abstract state st; list of (ret value, exit state)"""
        self.covered.add(fn.key)
        info = fn_info(fn)
        prio = info['prio']
        fr = Frame(fn, {}, {}, list(args), len(self.callstack))
        self.callstack.append(fn)
        if len(self.callstack) > self.max_depth:
            self.callstack.pop()
            raise Budget('call depth in ' + fn.key)
        outs = []
        seen = {}
        exits = set()
        work = []
        self.worklists.append(work)
        seq = itertools.count()
        heapq.heappush(work, (0, next(seq), 0, None, st, fr))
        try:
            while work:
                pr, _, b, prev, st, fr = heapq.heappop(work)
                self.visits += 1
                if self.visits > self.max_states:
                    raise Budget('state budget in ' + fn.key)
                self.blocks_seen.add((fn.key, b))
                try:
                    ok = self.enter_block(fr, st, fn, info, b, prev, seen)
                except PathEnd as e:
                    self.ends.append((e.why, st, (fn.mod, 0, fn.name)))
                    continue
                if not ok:
                    continue
                for item in self.exec_block(fr, st, fn, b, 0):
                    kind = item[0]
                    if kind == 'goto':
                        _, s2, f2, nb = item
                        for h, body in info['loops'].items():
                            if b in body and nb not in body:
                                self.on_loop_exit(s2, f2, h, b, nb)
                                if h in f2.loops:
                                    f2.loops.pop(h)
                        heapq.heappush(work, (prio[nb], next(seq), nb, b, s2, f2))
                    elif kind == 'ret':
                        _, s2, f2, rv = item
                        # allocas of this frame die
                        self.kill_frame(s2, f2)
                        self.on_return(s2, fn, rv)
                        if self.lone_paths and not outs and not work:
                            outs.append((rv, s2))
                            continue
                        if self.lone_paths and len(outs) == 1 and not exits:
                            exits.add(self.canon(outs[0][1], [outs[0][0]]))
                        k = self.canon(s2, [rv])
                        if k not in exits:
                            exits.add(k)
                            outs.append((rv, s2))
        finally:
            self.worklists.pop()
            self.callstack.pop()
        return outs

    def kill_frame(self, st, fr):
        pass

    def enter_block(self, fr, st, fn, info, b, prev, seen):
        blk = fn.blocks[b]
        newphis = []
        for x in blk:
            if x['op'] != 'phi':
                break
            for o in x['ops']:
                if o['b'] == prev:
                    newphis.append((x, self.operand(fr, st, o['v'])))
                    break
        loops = info['loops']
        if b in loops:
            body = loops[b]
            if prev is not None and prev in body:
                self.on_back_edge(st, fr, b)
                if not self.back_edge(fr, st, fn, info, b, newphis):
                    return False
            else:
                fr.loops[b] = {'kappa': None, 'phis': {x['id']: v for x, v in newphis}, 'n': 0, 'forked': False,
                               'facts': None, 'base': next(self.fresh), 'mem': {}}
                for x, v in newphis:
                    fr.regs[('i', x['id'])] = v
        else:
            for x, v in newphis:
                fr.regs[('i', x['id'])] = v
        if self.lone_paths and not any(self.worklists):
            return True         # no other state to join with
        if prev is None or len(fn.pred[b]) > 1 or b in loops:
            live = info['used'][b] | info['livein'][b]
            fr.regs = {k: v for k, v in fr.regs.items() if k in live}
            roots = []
            names = []
            for k in sorted(fr.regs):
                roots.append(fr.regs[k])
                names.append(k)
            for a in fr.args:
                roots.append(a)
            for h in sorted(fr.loops):
                li = fr.loops[h]
                if li['kappa'] is not None:
                    roots.append(li['kappa'])
            self.forget(st, roots, b in loops and prev is not None and prev in loops[b])
            key = (tuple(names), tuple((h, fr.loops[h]['forked'], fr.loops[h]['n'] if not fr.loops[h]['forked'] else -1)
                                       for h in sorted(fr.loops)), self.canon(st, roots))
            ss = seen.setdefault(b, set())
            if key in ss:
                return False
            ss.add(key)
        return True

    # -- loops
    def back_edge(self, fr, st, fn, info, b, newphis):
        li = dict(fr.loops[b])
        fr.loops[b] = li
        li['n'] += 1
        if not li['forked']:
            # every exit test so far was decided by the abstract state: unroll
            if li['n'] > self.unroll:
                li['forked'] = True
            else:
                for x, v in newphis:
                    fr.regs[('i', x['id'])] = v
                li['phis'] = {x['id']: v for x, v in newphis}
                return True
        old = {i: st.res(v) for i, v in li['phis'].items()}
        if self.keep_concrete and li['kappa'] is None and li['n'] < self.keep_concrete and self.concrete_step(st, old, newphis):
            for x, v in newphis:
                fr.regs[('i', x['id'])] = v
            li['phis'] = {x['id']: v for x, v in newphis}
            return True
        if self.walk_mode and li['kappa'] is None:
            kinds = self.walk_step(st, old, newphis)
            if kinds:
                # a walk over a linked structure of unknown length
                li['phis'] = {}
                for x, v in newphis:
                    v = st.res(v)
                    o = old.get(x['id'])
                    if self.walk_mode == 1 and o is not None and o != v and v[0] in ('c', 'l') or (v[0] == 's' and v in li.get('wsyms', ())):
                        v = self.sym()
                        li['wsyms'] = li.get('wsyms', ()) + (v,)
                    fr.regs[('i', x['id'])] = v
                    li['phis'][x['id']] = v
                if self.walk_mode == 1:
                    self.widen_mem(st, fr, li, b)
                return True
        base = li['base']
        kap = li['kappa']
        vals = {x['id']: v for x, v in newphis}
        if kap is None and 'd1' not in li:
            # first undecided iteration: only note the steps
            li['d1'] = {i: self.delta(old[i], v) for i, v in vals.items() if old.get(i) is not None}
            for i, v in vals.items():
                fr.regs[('i', i)] = v
            li['phis'] = dict(vals)
            return True
        if kap is None:
            # find variables that moved by the same step twice and generalise
            aff = {}
            for i, v in vals.items():
                o = old.get(i)
                if o is None or o == v:
                    continue
                d = self.delta(o, v)
                if d is not None and d == li['d1'].get(i) and self.invariant(st, d, base) and d != C(0):
                    aff[i] = (o, d)
            kap2 = None
            if aff:
                kap2 = self.sym()
                self.kappa_owner[kap2] = (fn.key, b)
                li['kappa'] = kap2
                li['aff'] = {i: (o, d) for i, (o, d) in aff.items()}
                z_add(st.zone, None, kap2, -1)
                m1 = {}
                for i, (o, d) in aff.items():
                    step = mul(kap2, d)
                    w = add(o, step)
                    if w is None:
                        continue
                    m1[i] = w
                # templates: bounds that hold for the concrete value now are generalised
                for i, (o, d) in aff.items():
                    if o[0] == 'c' and d == C(1):
                        self.template(st, o[1], kap2)
                self.on_generalise(st, fr, b, aff, kap2)
                for i, v in list(vals.items()):
                    if i in m1:
                        vals[i] = m1[i]
                    elif old.get(i) is not None and old[i] != v:
                        t = self.pfx_template(old[i], v, C(li['n'] - 1), C(li['n']), kap2, old, m1, aff)
                        if t is not None:
                            vals[i] = t
                # everything else stays as is
                li['zs'] = {tuple('K' if q == kap2 else q for q in ab): k for ab, k in st.zone.items() if kap2 in ab}
            self.widen_mem(st, fr, li, b)
        else:
            k2 = self.sym()
            self.kappa_owner[k2] = (fn.key, b)
            li['kappa'] = k2
            cur = st.res(kap)
            if cur[0] == 's' and not isinstance(cur[1], str):
                # kappa -> kappa' - 1
                snap = {ab: k for ab, k in st.zone.items() if cur in ab}
                prevz = li.get('zs')
                if not self.rename_kappa(st, fr, cur, k2, vals):
                    return False
                li = fr.loops[b]
                self.drop_facts(st, k2)
                self.drop_stale(st, k2)
                self.widen_zone(st, cur, k2, prevz if prevz is not None else snap)
            else:
                # the counter was identified with a named position: generalise again from here
                kv = add(cur, C(1))
                d = lin_diff(C(0), kv)
                if d is not None:
                    # k2 >= kv
                    z_add(st.zone, d[1] if d[1] is not None else None, k2, d[2] if d[1] is not None else -kv[1])
                    self.template2(st, kv, k2)
                for i, (o, dd) in li.get('aff', {}).items():
                    if i in vals:
                        w0 = add(st.res(o), mul(kv, st.res(dd)))
                        if w0 == vals[i]:
                            vals[i] = add(st.res(o), mul(k2, st.res(dd)))
                for i in list(vals):
                    if i not in li.get('aff', {}) and old.get(i) != vals[i]:
                        for j, (o, dd) in li.get('aff', {}).items():
                            e = add(st.res(o), mul(kv, st.res(dd)))
                            e2 = add(st.res(o), mul(k2, st.res(dd)))
                            vals[i] = subst(vals[i], {('x', 'pfx', e): pfx(e2)})
            li['zs'] = {tuple('K' if q == k2 else q for q in ab): k for ab, k in st.zone.items() if k2 in ab}
            self.widen_mem(st, fr, li, b)
        if li['n'] > min(10, self.const_patience):
            for i, v in vals.items():
                if old.get(i) is not None and vals[i] != old[i] and lin_parts(v) is not None and v[0] != 'c':
                    if i not in li.get('aff', {}):
                        vals[i] = self.sym()
                elif old.get(i) is not None and v[0] == 'c' and old[i][0] == 'c' and v != old[i] and li['n'] > self.const_patience:
                    vals[i] = self.sym()
        # cap lower bound of kappa so that it converges
        k = li['kappa']
        if k is not None:
            lb = st.zone.get((None, k))
            if lb is not None and lb < -1:
                self.z_forget_pair(st, None, k, -1)
        for i, v in vals.items():
            fr.regs[('i', i)] = v
        li['phis'] = dict(vals)
        return True

    const_patience = 16
    walk_mode = 0            # 1: counters of a walk over linked objects become unknown at once; 2: they stay exact

    def walk_step(self, st, old, newphis):
        for x, v in newphis:
            o, v = old.get(x['id']), st.res(v)
            if o is not None and (v[0] == 'p' or v[0] == 's') and o[0] == 'p' and v != o and (v[0] == 's' or v[1] != o[1]):
                return True
        return False

    keep_concrete = 0        # iterations a loop stepping by constants is kept concrete

    def concrete_step(self, st, old, newphis):
        moved = False
        for x, v in newphis:
            o, v = old.get(x['id']), st.res(v)
            if o is None or o == v:
                continue
            if o[0] == 'c' and v[0] == 'c':
                moved = True
            elif o[0] == 'p' and v[0] == 'p':
                if o[1] != v[1]:
                    return False
                if o[2] == v[2]:
                    moved = True
            elif v[0] == 'p' or o[0] == 'p':
                return False
        return moved

    def z_forget_pair(self, st, a, b, k):
        if (a, b) in st.zone:
            st.zone[(a, b)] = max(st.zone[(a, b)], k)

    def delta(self, o, v):
        if o[0] == 'p' and v[0] == 'p':
            if o[1] != v[1]:
                return None
            return add(mk_lin(v[3], dict(v[2])), mk_lin(o[3], dict(o[2])), -1)
        if lin_parts(o) is None or lin_parts(v) is None:
            return None
        if is_bool(o) and o[0] == 'x' or is_bool(v) and v[0] == 'x':
            return None
        return add(v, o, -1)

    def invariant(self, st, d, base):
        acc = set()
        atoms_in(d, acc)
        for a in acc:
            if not isinstance(a[1], str) and a[1] > base:
                return False
        # per-column terms depend on the position, never invariant
        def has_pfx(v):
            if v[0] == 'x':
                return v[1] in ('pfx',) or any(has_pfx(a) for a in v[2:] if isinstance(a, tuple) and a)
            if v[0] == 'l':
                return any(has_pfx(a) for a, k in v[2])
            return False
        return not has_pfx(d)

    def widen_zone(self, st, old, k2, prevz):
        """keep only bounds on the counter that are stable across the back edge"""
        pz = {tuple('K' if q == 'K' or q == old else q for q in ab): k for ab, k in prevz.items()}
        for ab in list(st.zone):
            if k2 in ab:
                key = tuple('K' if q == k2 else q for q in ab)
                pk = pz.get(key)
                if pk is None:
                    if None not in ab:
                        del st.zone[ab]
                elif st.zone[ab] < pk:
                    st.zone[ab] = pk
                elif st.zone[ab] > pk:
                    del st.zone[ab]

    def template2(self, st, kv, k2):
        """S >= kv known  =>  assume S >= k2 for the generalised state"""
        d = lin_diff(kv, C(0))
        if d is None:
            return
        x, _, c = d
        for (a, b), k in list(st.zone.items()):
            # a - b <= k ; with a == x:  b >= x - k ; want b >= x + c  <=> k <= -c
            if a == x and b is not None and b != k2 and k <= -c:
                z_add(st.zone, k2, b, 0)

    def template(self, st, o, k):
        """lower bounds that hold for the current position o+1 become bounds on o+k"""
        for (a, b), c in list(st.zone.items()):
            if a is None and b is not None and b != k and self.tmpl_ok(b):       # -b <= c : b >= -c
                if -c >= o + 1:
                    z_add(st.zone, k, b, -o)

    def tmpl_ok(self, b):
        return True

    def pfx_template(self, o, v, i0, i1, kap, old, m1, aff):
        """old = T[pfx(e0)], new = T[pfx(e1)] with e an affine phi"""
        for i, (init, d) in aff.items():
            e0 = old[i]
            e1 = add(e0, d)
            ek = m1.get(i)
            if ek is None or lin_parts(e0) is None:
                continue
            ph = ('s', '#pfx')
            v2 = self.repl_pfx(v, e1, ph)
            if v2 == v:
                continue
            o2 = self.repl_pfx(o, e0, ph)
            if e0 == C(0):
                # pfx(0) vanished: restore with the same coefficient
                coef = 0
                if v2[0] == 'p':
                    coef = dict(v2[2]).get(ph, 0)
                else:
                    coef = lin_parts(v2)[1].get(ph, 0)
                o2 = add(o, scale(ph, coef)) if o[0] != 'p' else add(o, scale(ph, coef))
            if o2 == v2:
                return subst(v2, {ph: pfx(ek)})
        return None

    def repl_pfx(self, v, e, ph):
        return subst(v, {('x', 'pfx', e): ph}) if e != C(0) else v

    def rename_kappa(self, st, fr, k, k2, vals):
        m = {k: add(k2, C(-1))}
        for kk, v in list(fr.regs.items()):
            fr.regs[kk] = subst(v, m)
        for i in list(vals):
            vals[i] = subst(vals[i], m)
        for h, li in fr.loops.items():
            if li.get('aff'):
                pass
            if 'phis' in li:
                li2 = dict(li)
                li2['phis'] = {i: subst(v, m) for i, v in li['phis'].items()}
                fr.loops[h] = li2
        ok = self.bind(st, k, m[k])
        return ok

    def drop_facts(self, st, k):
        for v in list(st.facts):
            acc = set()
            atoms_in(v, acc)
            if k in acc:
                del st.facts[v]

    def drop_stale(self, st, k):
        """cells of lazy objects indexed by the previous iteration are forgotten"""
        for oid, o in list(st.mem.items()):
            dead = []
            for (ts, off), c in o.cells.items():
                if ts:
                    acc = set()
                    for a, kk in ts:
                        atoms_in(a, acc)
                    if k in acc and o.kind == 'lazy' and c[2]:
                        dead.append((ts, off))
            if dead:
                o = st.wr(oid)
                for d in dead:
                    del o.cells[d]

    def widen_mem(self, st, fr, li, b):
        """numeric cells that keep changing across iterations become unknown"""
        snap = li['mem']
        new = {}
        for oid, o in st.mem.items():
            for key, (v, s, clean) in o.cells.items():
                if clean:
                    continue
                v = st.res(v)
                if v[0] in ('c', 'l', 's', 'x'):
                    new[(oid, key)] = v
        if li['n'] >= 2:
            for ck, v in new.items():
                pv = snap.get(ck)
                if pv is not None and pv != v and not is_bool(v):
                    if v[0] == 'c' and pv[0] == 'c' and li['n'] < 4:
                        continue
                    oid, key = ck
                    o = st.wr(oid)
                    cv, s, cl = o.cells[key]
                    o.cells[key] = (self.widened_cell(st, oid, key, cv), s, cl)
        li['mem'] = new

    def widened_cell(self, st, oid, key, v):
        return self.sym()

    # -- garbage / forgetting
    def roots_all(self, st, roots):
        out = list(roots)
        for p in st.pins:
            out.extend(p)
        return out

    def reach(self, st, roots):
        seen = set()
        acc = set()
        for v in self.roots_all(st, roots):
            objs_in(st.res(v), acc)
        for oid, o in st.mem.items():
            if isinstance(oid, tuple) or o.extra == ('root',):
                acc.add(oid)
        for k, v in st.ghost.items():
            if isinstance(v, tuple) and v and v[0] in ('p', 'x', 'l', 's'):
                objs_in(st.res(v), acc)
            elif isinstance(k, tuple) and k[0] == 'opq':
                acc.add(v)
        stack = list(acc)
        while stack:
            x = stack.pop()
            if x in seen or x not in st.mem:
                continue
            seen.add(x)
            o = st.mem[x]
            nxt = set()
            for (ts, off), (v, s, cl) in o.cells.items():
                objs_in(st.res(v), nxt)
            for (do, n, src) in o.cps:
                objs_in(src, nxt)
            for e in o.extra:
                if isinstance(e, tuple):
                    objs_in(st.res(e), nxt)
            stack.extend(nxt - seen)
        return seen

    def forget(self, st, roots, at_back_edge):
        if at_back_edge:
            direct = set()
            for v in self.roots_all(st, roots):
                objs_in(st.res(v), direct)
            for oid, o in list(st.mem.items()):
                if o.kind != 'lazy':
                    continue
                dead = []
                for key, (v, s, clean) in o.cells.items():
                    if not clean:
                        continue
                    v = st.res(v)
                    if v[0] == 'p' and v[1] not in direct:
                        t = st.mem.get(v[1])
                        if t is not None and t.kind == 'lazy' and self.forgettable(t):
                            dead.append(key)
                    elif v[0] == 's' and not isinstance(v[1], str) and self.forget_scalar(st, oid, key, v):
                        dead.append(key)
                if dead:
                    o = st.wr(oid)
                    for k in dead:
                        del o.cells[k]
        live = self.reach(st, roots)
        for oid in list(st.mem):
            if oid not in live:
                o = st.mem[oid]
                self.on_unreachable_obj(st, oid, o, None)
                del st.mem[oid]
        self.prune_facts(st, roots)

    def forgettable(self, obj):
        return obj.tag is None

    def forget_scalar(self, st, oid, key, v):
        return False

    def prune_facts(self, st, roots):
        acc = set()
        oacc = set(st.mem)
        for v in self.roots_all(st, roots):
            atoms_in(st.res(v), acc)
        for oid, o in st.mem.items():
            for (ts, off), (v, s, cl) in o.cells.items():
                atoms_in(st.res(v), acc)
                for a, k in ts:
                    atoms_in(a, acc)
            if o.size is not None:
                atoms_in(st.res(o.size), acc)
            for e in o.extra:
                if isinstance(e, tuple):
                    atoms_in(st.res(e), acc)
        for v in st.ghost.values():
            if isinstance(v, tuple) and v and v[0] in ('p', 'x', 'l', 's'):
                atoms_in(st.res(v), acc)

        def dead(v):
            a = set()
            atoms_in(v, a)
            for s in a:
                if not isinstance(s[1], str) and s not in acc:
                    return True
            ob = set()
            objs_in(v, ob)
            return bool(ob - oacc)
        for v in list(st.facts):
            if dead(v):
                del st.facts[v]
        if st.zone:
            deadz = {a for ab in st.zone for a in ab if a is not None and dead(a)}
            if deadz:
                st.zone = {ab: k for ab, k in st.zone.items() if ab[0] not in deadz and ab[1] not in deadz}
        # substitutions stay only for symbols a live root can still mention
        if len(st.sub) > 64:
            need = set()
            for v in self.roots_all(st, roots):
                atoms_in(v, need)
            for oid, o in st.mem.items():
                for (ts, off), (v, s, cl) in o.cells.items():
                    atoms_in(v, need)
                if o.size is not None:
                    atoms_in(o.size, need)
                for e in o.extra:
                    if isinstance(e, tuple):
                        atoms_in(e, need)
            for v in st.ghost.values():
                if isinstance(v, tuple) and v and v[0] in ('p', 'x', 'l', 's'):
                    atoms_in(v, need)
            st.sub = {k: st.res(v) for k, v in st.sub.items() if k in need or isinstance(k[1], str)}

    def canon(self, st, roots):
        om, sm = {}, {}
        queue = []

        def cv(v):
            t = v[0]
            if t == 's':
                if isinstance(v[1], str):
                    return v
                n = sm.get(v[1])
                if n is None:
                    n = sm[v[1]] = len(sm)
                return ('s', n)
            if t in ('c', 'f', 'u'):
                return v
            if t == 'd':
                return ('d', repr(v[1]))
            if t == 'l':
                return ('l', v[1], tuple(sorted(((cv(a), k) for a, k in v[2]), key=repr)))
            if t == 'x':
                return ('x', v[1]) + tuple(cv(a) if isinstance(a, tuple) and a else a for a in v[2:])
            if t == 'p':
                o = v[1]
                if isinstance(o, tuple):
                    n = o
                    if o not in om:
                        om[o] = o
                        queue.append(o)
                else:
                    n = om.get(o)
                    if n is None:
                        n = om[o] = len(om)
                        queue.append(o)
                return ('p', n, tuple(sorted(((cv(a), k) for a, k in v[2]), key=repr)), v[3])
            if t == 'agg':
                return ('agg', tuple(cv(a) for a in v[1]))
            return v
        out = [cv(st.res(v)) for v in self.roots_all(st, roots)]
        for k in sorted(st.ghost, key=repr):
            v = st.ghost[k]
            if isinstance(k, tuple) and k and k[0] == 'opq':
                continue
            if isinstance(v, tuple) and v and v[0] in ('p', 'x', 'l', 's'):
                v = cv(st.res(v))
            out.append((k, v))
        for oid, o in st.mem.items():
            if o.extra == ('root',):
                cv(('p', oid, (), 0))
        qi = 0
        while qi < len(queue):
            oid = queue[qi]
            qi += 1
            o = st.mem.get(oid)
            if o is None:
                out.append((om[oid], 'gone'))
                continue
            cells = []
            for (ts, off) in sorted(o.cells, key=lambda k: (k[1], len(k[0]), repr(k[0]))):
                v, s, cl = o.cells[(ts, off)]
                cells.append((tuple(sorted(((cv(a), k) for a, k in ts), key=repr)) if ts else (), off, s, cv(st.res(v))))
            out.append((om[oid], o.kind, o.zero, o.freed is not None, o.tag, self.obj_key(o), tuple(cells),
                        tuple(cv(st.res(e)) if isinstance(e, tuple) else e for e in o.extra),
                        cv(st.res(o.size)) if o.size is not None else None,
                        tuple((do, cv(n), cv(src)) for do, n, src in o.cps), o.zr))
        fs = []
        for v, t in st.facts.items():
            a = set()
            atoms_in(v, a)
            if all(isinstance(s[1], str) or s[1] in sm for s in a):
                fs.append(repr((cv(v), t)))
        zs = []
        for (a, b), k in st.zone.items():
            aa = set()
            if a is not None:
                atoms_in(a, aa)
            if b is not None:
                atoms_in(b, aa)
            if all(isinstance(s[1], str) or s[1] in sm for s in aa):
                zs.append(repr((cv(a) if a is not None else None, cv(b) if b is not None else None, k)))
        return (tuple(out), tuple(sorted(fs)), tuple(sorted(zs)))

    def obj_key(self, o):
        return None

    # ---- executing a block; yields ('goto', st, fr, blk) / ('ret', st, fr, val)
    def exec_block(self, fr, st, fn, b, start):
        blk = fn.blocks[b]
        stack = [(fr, st, start)]
        while stack:
            fr, st, i = stack.pop()
            try:
                while True:
                    x = blk[i]
                    op = x['op']
                    if op == 'phi':
                        i += 1
                        continue
                    if op == 'br':
                        if len(x['succ']) == 1:
                            yield ('goto', st, fr, x['succ'][0])
                            break
                        c = self.operand(fr, st, x['ops'][0])
                        # ops: cond, false, true
                        fb, tb = x['ops'][1]['b'], x['ops'][2]['b']
                        if fb == tb:
                            yield ('goto', st, fr, fb)
                            break
                        self.cur = x
                        ds = self.decide(st, c)
                        multi = len({t for t, _ in ds}) > 1
                        first = True
                        for t, s in ds:
                            f2 = fr if first else fr.copy()
                            if first and len(ds) > 1:
                                f2 = fr.copy()
                            first = False
                            self.last_branch = (c, t, x)
                            if multi:
                                self.mark_fork(f2, fn, b, x)
                                s.step((fn.mod, x.get('line', 0), fn.name, t))
                            yield ('goto', s, f2, tb if t else fb)
                        break
                    if op == 'switch':
                        for r in self.exec_switch(fr, st, fn, b, x):
                            yield r
                        break
                    if op == 'ret':
                        v = self.operand(fr, st, x['ops'][0]) if x['ops'] else C(0)
                        yield ('ret', st, fr, v)
                        break
                    if op == 'unreachable':
                        break
                    if op == 'call':
                        self.cur = x
                        outs = self.exec_call(fr, st, fn, b, i, x)
                        if outs is None:
                            i += 1
                            continue
                        n = len(outs)
                        for j, (rv, s) in enumerate(outs):
                            f2 = fr.copy() if n > 1 else fr
                            f2.regs[('i', x['id'])] = rv
                            if n > 1:
                                s.step((fn.mod, x.get('line', 0), fn.name, 'call'))
                            stack.append((f2, s, i + 1))
                        break
                    if op == 'select':
                        c = self.operand(fr, st, x['ops'][0])
                        ds = self.decide(st, c)
                        for t, s in ds:
                            f2 = fr.copy() if len(ds) > 1 else fr
                            f2.regs[('i', x['id'])] = self.operand(f2, s, x['ops'][1 if t else 2])
                            stack.append((f2, s, i + 1))
                        break
                    self.exec_simple(fr, st, fn, x)
                    i += 1
            except PathEnd as e:
                self.ends.append((e.why, st, (fn.mod, blk[i].get('line', 0), fn.name)))

    def mark_fork(self, fr, fn, b, x):
        info = fn_info(fn)
        for h, body in info['loops'].items():
            if b in body and h in fr.loops and any(s not in body for s in fn.succ[b]):
                li = fr.loops[h]
                if not li['forked']:
                    li = dict(li)
                    li['forked'] = True
                    fr.loops[h] = li

    def exec_switch(self, fr, st, fn, b, x):
        v = self.operand(fr, st, x['ops'][0])
        if v[0] == 'c':
            for c in x['cases']:
                if c['c'] == v[1]:
                    yield ('goto', st, fr, c['b'])
                    return
            yield ('goto', st, fr, x['def'])
            return
        cur = st
        outs = []
        for c in x['cases']:
            nxt = None
            for t, s in self.decide(cur, mk_cmp('eq', v, C(c['c']))):
                if t:
                    outs.append((s, c['b'], c['c']))
                else:
                    nxt = s
            if nxt is None:
                cur = None
                break
            cur = nxt
        if cur is not None:
            outs.append((cur, x['def'], 'default'))
        for s, nb, lab in outs:
            f2 = fr.copy() if len(outs) > 1 else fr
            if len(outs) > 1:
                self.mark_fork(f2, fn, b, x)
                s.step((fn.mod, x.get('line', 0), fn.name, 'case %s' % lab))
            yield ('goto', s, f2, nb)

    def exec_simple(self, fr, st, fn, x):
        op = x['op']
        R = fr.regs
        if op == 'getelementptr':
            p = self.operand(fr, st, x['ops'][0])
            v = self.gep(st, p, x, fr)
            R[('i', x['id'])] = v
            return
        if op == 'load':
            p = self.operand(fr, st, x['ops'][0])
            self.cur = x
            R[('i', x['id'])] = self.load(st, p, x['size'], x['ty'], x)
            return
        if op == 'store':
            v = self.operand(fr, st, x['ops'][0])
            p = self.operand(fr, st, x['ops'][1])
            self.cur = x
            self.store(st, p, v, x['size'], x)
            return
        if op == 'alloca':
            cnt = self.operand(fr, st, x['ops'][0])
            size = scale(cnt, x['size'] // max(1, 1)) if cnt[0] == 'c' else None
            if cnt[0] != 'c':
                size = mul(cnt, C(x['size']))
            oid = self.new_obj(st, 'alloca', size, tag=None, site=(fn.mod, x.get('line', 0), x.get('name')))
            R[('i', x['id'])] = ('p', oid, (), 0)
            return
        ops = [self.operand(fr, st, o) for o in x['ops']]
        R[('i', x['id'])] = self.arith(st, op, x, ops)

    def gep(self, st, p, x, fr):
        t = C(x['off'])
        for v in x['var']:
            iv = self.operand(fr, st, v['v'])
            m = mul(iv, C(v['s'])) if lin_parts(iv) is not None else None
            if m is None:
                m = ('x', 'idx', iv, C(v['s'])) if iv[0] != 'p' else self.sym()
            t = add(t, m)
            if t is None:
                return self.sym()
        if p[0] == 'p':
            return add(p, t)
        if lin_parts(p) is not None:
            return add(p, t)
        return ('x', 'gep', p, t)

    def arith(self, st, op, x, ops):
        ty = x['ty']
        w = width_of(ty)
        a = ops[0] if ops else UNDEF
        b = ops[1] if len(ops) > 1 else None
        if op == 'icmp':
            return self.icmp(st, x['pred'], a, b)
        if op == 'fcmp':
            return self.fcmp(x['pred'], a, b)
        if op in ('zext', 'sext'):
            if a[0] == 'c':
                fw = width_of(x['from'])
                if op == 'zext':
                    return C(a[1] & ((1 << fw) - 1)) if fw < 64 else a
                return C(norm_int(a[1], fw)) if fw > 1 else C(-(a[1] & 1))
            return a
        if op == 'trunc':
            if a[0] == 'c':
                return C(norm_int(a[1], w))
            if is_bool(a):
                return a
            if w == 1:
                return bnot(mk_cmp('eq', a, C(0)))
            return self.trunc(st, a, w)
        if op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            return a
        if op in ('add', 'sub', 'mul') and UNDEF not in (a, b):
            if op == 'add':
                r = add(a, b)
            elif op == 'sub':
                if a[0] == 'p' and b[0] == 'p':
                    if a[1] == b[1]:
                        r = add(mk_lin(a[3], dict(a[2])), mk_lin(b[3], dict(b[2])), -1)
                    else:
                        r = None
                else:
                    r = add(a, b, -1) if b[0] != 'p' else None
            else:
                r = mul(a, b)
            if r is not None:
                if r[0] == 'c':
                    return C(norm_int(r[1], w))
                return r
            return ('x', op, a, b)
        if op in ('and', 'or', 'xor'):
            if w > 8 and UNDEF in (a, b):       # a small struct being put together in a register
                a, b = (C(0) if o == UNDEF else o for o in (a, b))
            if a[0] == 'c' and b[0] == 'c':
                f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
                return C(norm_int(f(a[1], b[1]), w))
            if w == 1 or (is_bool(a) and is_bool(b)):
                return mk_x(op, a, b)
            if op == 'and' and b == C(1) and is_bool(a):
                return a
            if op == 'and' and C(0) in (a, b):
                return C(0)
            if op in ('or', 'xor') and b == C(0):
                return a
            return ('x', 'b' + op, a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if b[0] == 'c':
                if a[0] == 'c':
                    if op == 'shl':
                        return C(norm_int(a[1] << b[1], w))
                    av = a[1] if op == 'ashr' else a[1] & ((1 << w) - 1)
                    return C(norm_int(av >> b[1], w))
                if op == 'shl' and lin_parts(a) is not None and not is_bool(a):
                    return scale(a, 1 << b[1])
            return ('x', op, a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if a[0] == 'c' and b[0] == 'c' and b[1] != 0:
                av, bv = a[1], b[1]
                if op[0] == 'u':
                    av &= (1 << w) - 1
                    bv &= (1 << w) - 1
                q = abs(av) // abs(bv)
                if (av < 0) != (bv < 0):
                    q = -q
                return C(norm_int(q if op.endswith('div') else av - q * bv, w))
            self.on_div(st, op, a, b, x)
            if b[0] == 'c' and b[1] > 0 and lin_parts(a) is not None and op.endswith('div'):
                c, ts = lin_parts(a)
                if c % b[1] == 0 and all(k % b[1] == 0 for k in ts.values()):
                    return mk_lin(c // b[1], {t: k // b[1] for t, k in ts.items()})
            return ('x', op, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            if op in ('sitofp', 'uitofp') and a[0] == 'c':
                return ('d', float(a[1]))
            if op in ('fptosi', 'fptoui') and a[0] == 'd':
                return C(int(a[1]))
            if op in ('fpext', 'fptrunc'):
                return a
            if op in ('fptosi', 'fptoui') and a[0] == 'x' and a[1] in ('sitofp', 'uitofp') and w == 64:
                return a[2]
            if all(o[0] == 'd' for o in ops) and ty == 'double':
                if op == 'fneg':
                    return ('d', -a[1])
                try:
                    return ('d', {'fadd': a[1] + b[1], 'fsub': a[1] - b[1], 'fmul': a[1] * b[1], 'fdiv': a[1] / b[1] if op == 'fdiv' else 0.0}[op])
                except (ZeroDivisionError, OverflowError):
                    pass
            return ('x', op) + tuple(ops)
        if op == 'extractvalue':
            v = a
            for ix in x['ix']:
                v = v[1][ix] if v[0] == 'agg' and ix < len(v[1]) else self.sym()
            return v
        if op == 'insertvalue':
            vs = list(a[1]) if a[0] == 'agg' else [UNDEF, UNDEF, UNDEF, UNDEF]
            vs[x['ix'][0]] = b
            return ('agg', tuple(vs))
        return self.sym()

    def on_div(self, st, op, a, b, x):
        pass

    def trunc(self, st, a, w):
        """value narrowed to w bits; keeps identity only for atoms known to fit"""
        if a[0] in ('p', 'f'):
            return ('x', 'trunc%d' % w, a)
        if self.fits(st, a, w):
            return a
        return ('x', 'trunc%d' % w, a)

    def fits(self, st, a, w):
        """does every symbol of a fit in w bits? (index-like values do)"""
        acc = set()
        atoms_in(a, acc)
        for s in acc:
            if self.wide(st, s):
                return False
        if a[0] == 'x' and a[1] in ('sub', 'fptosi', 'fptoui'):
            return False
        return True

    def wide(self, st, s):
        """symbols whose full 64-bit value matters"""
        return False

    ANY_SIZE = re.compile(r'(RC|L|INTEGER)\d*$')       # symbols that stand for numbers of a user

    def may_wrap(self, v):
        if v[0] != 'l' or not (v[1] or len(v[2]) > 1 or abs(v[2][0][1]) != 1):
            return False
        return any(s[0] == 's' and isinstance(s[1], str) and self.ANY_SIZE.match(s[1]) for s, k in v[2])

    def icmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            r = mk_cmp('eq', a, b)
            return r if pred == 'eq' else bnot(r)
        uns = pred[0] == 'u'
        p = pred[1:]
        # a sum of numbers that may be of any size can leave the range of its type: its order says nothing about theirs
        a, b = (('x', 'wrapped', v) if self.may_wrap(v) else v for v in (a, b))
        if uns:
            if a[0] == 'c' and a[1] < 0:
                a = C(a[1] + (1 << 64))
            if b[0] == 'c' and b[1] < 0:
                b = C(b[1] + (1 << 64))
        if p == 'lt':
            return mk_cmp('lt', a, b)
        if p == 'gt':
            return mk_cmp('lt', b, a)
        if p == 'le':
            return bnot(mk_cmp('lt', b, a))
        return bnot(mk_cmp('lt', a, b))

    def fcmp(self, pred, a, b):
        p = pred[1:]
        if a[0] == 'd' and b[0] == 'd':
            m = {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'lt': a[1] < b[1], 'le': a[1] <= b[1],
                 'gt': a[1] > b[1], 'ge': a[1] >= b[1]}
            return C(int(m[p]))
        if p == 'eq':
            return self.feq(a, b)
        if p == 'ne':
            return bnot(self.feq(a, b))
        if p == 'lt':
            return ('x', 'flt', a, b)
        if p == 'gt':
            return ('x', 'flt', b, a)
        if p == 'le':
            return bnot(('x', 'flt', b, a))
        if p == 'ge':
            return bnot(('x', 'flt', a, b))
        return self.sym()

    def feq(self, a, b):
        if a == b:
            return TRUE
        if _skey(b) < _skey(a):
            a, b = b, a
        return ('x', 'feq', a, b)

    # ---- calls
    def exec_call(self, fr, st, fn, b, i, x):
        """None: nothing to bind; else list of (ret, state)"""
        if 'callee' not in x or 'asm' in x.get('callee', {}):
            fr.regs[('i', x['id'])] = self.sym()
            return None
        ce = x['callee']
        args = [self.operand(fr, st, o) for o in x['ops']]
        if 'g' in ce:
            name = ce['g']
            target = self.P.resolve(fn.mod, name)
        else:
            fv = self.operand(fr, st, ce)
            if fv[0] == 'f':
                name = fv[1]
                target = self.P.resolve(fv[2], name) if fv[2] else self.P.fns.get(name)
            else:
                return self.indirect(st, fv, args, x)
        if name.startswith('llvm.'):
            return self.llvm(fr, st, name, args, x)
        r = self.on_call(st, name, args, x)
        if r is not None:
            return r
        if x.get('noreturn') or name in ('die', 'exit', 'abort', '__assert_fail') or (target is not None and target.noreturn):
            self.on_abort(st, x, name)
            return []
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, args, x)
            if r is not None:
                return r
        if target is not None:
            if target in self.callstack and self.callstack.count(target) >= 1:
                r = self.recursion(st, target, args, x)
                if r is not None:
                    return r
            return self.inline(fr, st, fn, b, i, target, args)
        return self.unknown_call(st, name, args, x)

    def recursion(self, st, target, args, x):
        return [(self.sym(), st)]

    def indirect(self, st, fv, args, x):
        return [(self.sym(), st)]

    def unknown_call(self, st, name, args, x):
        return [(self.sym() if x['ty'] != 'void' else C(0), st)]

    def inline(self, fr, st, fn, b, i, target, args):
        info = fn_info(fn)
        live = self.live_after(fn, info, b, i)
        pin = [v for k, v in fr.regs.items() if k in live]
        pin += list(fr.args)
        for h, li in fr.loops.items():
            if li['kappa'] is not None:
                pin.append(li['kappa'])
            pin.extend(v for v in li['phis'].values())
        # allocas stay alive for the whole frame
        saved = st.pins
        st.pins = saved + (tuple(pin),)
        outs = self.run(target, args, st)
        for rv, s in outs:
            s.pins = saved
        return outs

    def live_after(self, fn, info, b, i):
        cache = info.setdefault('la', {})
        k = (b, i)
        r = cache.get(k)
        if r is None:
            live = set(info['liveout'][b])
            blk = fn.blocks[b]
            for x in reversed(blk[i + 1:]):
                live.discard(('i', x['id']))
                for o in x['ops']:
                    if x['op'] == 'phi':
                        continue
                    if 'i' in o:
                        live.add(('i', o['i']))
                    elif 'a' in o:
                        live.add(('a', o['a']))
                if x['op'] == 'getelementptr':
                    for v in x['var']:
                        if 'i' in v['v']:
                            live.add(('i', v['v']['i']))
                if x['op'] == 'call' and 'i' in x.get('callee', {}):
                    live.add(('i', x['callee']['i']))
            cache[k] = r = live
        return r

    def llvm(self, fr, st, name, args, x):
        if name.startswith('llvm.mem'):
            if 'memset' in name:
                return M_memset(self, st, args, x)
            return M_memcpy(self, st, args, x)
        if name.startswith(('llvm.expect', 'llvm.threadlocal.address')):     # one thread is analysed
            return [(args[0], st)]
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.va_', 'llvm.assume')):
            return [(C(0), st)]
        if name.startswith('llvm.floor') or name.startswith('llvm.ceil'):
            a = args[0]
            return [(('x', 'floor', a) if a[0] != 'd' else ('d', float(a[1] // 1)), st)]
        return [(self.sym(), st)]


# ------------------------------------------------------------------ models
def M_memset(E, st, args, x):
    p, v, n = st.res(args[0]), st.res(args[1]), st.res(args[2])
    if n == C(0):
        return [(p, st)]
    p = E.deref(st, p, x, True)
    E.on_store(st, p, ('x', 'memset', v), n, x)
    o = st.wr(p[1])
    whole = (p[2] == () and p[3] == 0 and o.size is not None and st.res(o.size) == n)
    if whole:
        o.cells = {}
        o.cps = ()
        o.zr = ()
        o.zero = v == C(0)
        if not o.zero:
            o.cells[((), 0)] = (('x', 'memset', v), 1, False)
        return [(p, st)]
    if n[0] == 'c':
        lo, hi = p[3], p[3] + n[1]
        for k in list(o.cells):
            if k[0] == p[2] and lo <= k[1] < hi:
                del o.cells[k]
        if v == C(0):
            o.zr = tuple(z for z in o.zr if z[0][0] != p[2] or z[0][1] < lo or z[0][1] + z[1] > hi) + (((p[2], lo), n[1]),)
            if len(o.zr) > E.zr_limit:
                o.zr = o.zr[-E.zr_limit:]
        o.cps = tuple(c for c in o.cps if c[0][0] != p[2])
    else:
        E.memset_sym(st, p, v, n, o) if hasattr(E, 'memset_sym') else None
        o.cells[(p[2], p[3])] = (C(0) if v == C(0) else ('x', 'memset', v), 1, False)
    return [(p, st)]


def M_memcpy(E, st, args, x):
    d, s, n = st.res(args[0]), st.res(args[1]), st.res(args[2])
    if n == C(0):
        return [(d, st)]
    d = E.deref(st, d, x, True)
    s = E.deref(st, s, x)
    E.on_copy(st, d, s, n, x) if hasattr(E, 'on_copy') else None
    so = st.mem[s[1]]
    if n[0] == 'c' and n[1] <= 8 and n[1] in (1, 2, 4, 8):
        v = E.load(st, s, n[1], 'ptr' if n[1] == 8 else 'i%d' % (8 * n[1]), x)
        E.store(st, d, v, n[1], x)
        return [(d, st)]
    if n[0] == 'c':
        lo, hi = s[3], s[3] + n[1]
        o = st.wr(d[1])
        for k in list(o.cells):
            if k[0] == d[2] and d[3] <= k[1] < d[3] + n[1]:
                del o.cells[k]
        so = st.mem[s[1]]
        for (ts, off), c in list(so.cells.items()):
            if ts == s[2] and lo <= off < hi:
                o.cells[(d[2], d[3] + off - lo)] = (c[0], c[1], False)
        if so.zero:
            o.zr = o.zr + (((d[2], d[3]), n[1]),)
        else:
            o.cps = tuple(c for c in o.cps if c[0] != (d[2], d[3])) + (((d[2], d[3]), n, s),)
    else:
        o = st.wr(d[1])
        c = so.cells.get((s[2], s[3]))
        o.cells[(d[2], d[3])] = (('x', 'blob', s, n), 1, False)
    return [(d, st)]


def M_strcmp(E, st, args, x):
    a, b = E.str_id(st, args[0]), E.str_id(st, args[1])
    if a == b:
        return [(C(0), st)]
    if a[1] == 'cstr' and b[1] == 'cstr':
        return [(C(-1 if a[2] < b[2] else 1), st)]
    if _skey(b) < _skey(a):
        return [(scale(('x', 'strcmp', b, a), -1), st)]
    return [(('x', 'strcmp', a, b), st)]


def M_strncmp(E, st, args, x):
    a, b = E.str_id(st, args[0]), E.str_id(st, args[1])
    n = st.res(args[2])
    if a == b:
        return [(C(0), st)]
    if a[1] == 'cstr' and b[1] == 'cstr' and n[0] == 'c':
        p, q = a[2][:n[1]], b[2][:n[1]]
        return [(C(0 if p == q else (-1 if p < q else 1)), st)]
    return [(('x', 'strncmp', a, b, n), st)]


def M_strlen(E, st, args, x):
    a = E.str_id(st, args[0])
    if a[1] == 'cstr':
        return [(C(len(a[2])), st)]
    v = ('x', 'strlen', a)
    z_add(st.zone, None, v, 0)
    return [(v, st)]


def M_strcpy(E, st, args, x):
    d = E.deref(st, args[0], x, True)
    sid = E.str_id(st, args[1])
    E.on_store(st, d, sid, None, x)
    o = st.wr(d[1])
    _kill_str(o, d)
    o.cells[(d[2], d[3])] = (sid, 1, False)
    return [(d, st)]


def _kill_str(o, d):
    pass


def M_malloc(E, st, args, x):
    return E.alloc(st, args[0], False, x)


def M_calloc(E, st, args, x):
    return E.alloc(st, mul(args[0], args[1]) or E.sym(), True, x)


def M_free(E, st, args, x):
    return E.free(st, args[0], x)


def M_realloc(E, st, args, x):
    return E.realloc(st, args[0], args[1], x)


def _alloc(self, st, size, zero, x):
    oid = self.new_obj(st, 'heap', size, site=self.cur_loc(x), zero=zero)
    return [(('p', oid, (), 0), st)]


def _free(self, st, p, x):
    p = st.res(p)
    if p == NULL:
        return [(C(0), st)]
    if p[0] == 'p' and p[1] in st.mem:
        o = st.mem[p[1]]
        if o.freed is not None:
            self.on_bad(st, 'double-free', x, (p, o))
            raise PathEnd('double-free')
        self.on_free(st, p, x)
        st.wr(p[1]).freed = self.cur_loc(x)
    return [(C(0), st)]


def _realloc(self, st, p, n, x):
    p = st.res(p)
    out = []
    for rv, s in self.alloc(st, n, False, x):
        if rv[0] == 'p' and p[0] == 'p' and p[1] in s.mem:
            src = s.mem[p[1]]
            o = s.wr(rv[1])
            o.cells = dict(src.cells)
            o.cps = src.cps
            o.zr = src.zr
            s.wr(p[1]).freed = self.cur_loc(x)
        out.append((rv, s))
    return out


Engine.alloc = _alloc
Engine.free = _free
Engine.realloc = _realloc


def M_pure(name):
    def m(E, st, args, x):
        return [(('x', name) + tuple(E.str_id(st, a) if a[0] == 'p' else a for a in args), st)]
    return m


BASE_MODELS = {
    'memset': M_memset, 'memcpy': M_memcpy, 'memmove': M_memcpy,
    'strcmp': M_strcmp, 'strncmp': M_strncmp, 'strlen': M_strlen,
    'strcpy': M_strcpy,
    'malloc': M_malloc, 'calloc': M_calloc, 'free': M_free, 'realloc': M_realloc,
}
