"""P18: the containers of src/datastructure and the bit fields of src/lib keep exactly what they are given."""
import random
import frontend
from common import *
from pipe import *
from pipe import PipeEngine, Fork
from engine import Budget

_P = None


def program():
    global _P
    if _P is None:
        _P = frontend.load()
    return _P


class Box:
    """an engine, a state, and calls of single functions"""
    def __init__(self):
        self.P = program()
        self.E = PipeEngine(self.P)
        self.st = State()
        self.E.db = None
        self.n = 0

    def arg(self, size, cells=None, zero=True):
        o = self.E.new_obj(self.st, 'heap', C(size), tag='arg', zero=zero)
        self.st.mem[o].extra = ('root',)
        for k, v in (cells or {}).items():
            self.st.mem[o].cells[((), k)] = v
        return ('p', o, (), 0)

    def rec(self, name):
        return self.arg(self.P.records[name]['size'], zero=False)

    def call(self, fn, *args):
        outs = self.E.run_root(self.P.fn(fn), list(args), self.st)
        if self.E.bads:
            raise Wrong(None)
        if len(outs) != 1:
            raise Wrong('%s depends on what is stored' % fn if outs else '%s never completes' % fn)
        rv, self.st = outs[0]
        return self.st.res(rv)

    def value(self, spec):
        """something to store: an unknown number, or a text; (pointer, bytes)"""
        self.n += 1
        if isinstance(spec, bytes):
            return self.arg(len(spec) + 1, {0: (('x', 'cstr', spec), 1, False)}), C(len(spec) + 1)
        return self.arg(8, {0: (spec, 8, False)}), C(8)

    def holds(self, p, spec):
        if p[0] != 'p' or p[1] not in self.st.mem or self.st.mem[p[1]].freed is not None:
            return False
        if self.st.mem[p[1]].tag == 'arg':
            return False            # it is the caller's, not a copy
        if isinstance(spec, bytes):
            return self.E.cstr(self.st, p) == spec
        return self.st.res(self.E.load(self.st, p, 8, 'i64', {})) == spec

    def mine(self, p):
        """the caller takes it over"""
        self.st.wr(p[1]).tag = 'arg'
        self.st.wr(p[1]).extra = ('root',)

    def left(self):
        return [o for k, o in self.st.mem.items() if not isinstance(k, tuple) and o.kind == 'heap' and o.freed is None and o.tag not in ('arg', 'text', 'libc')]


class Wrong(Exception):
    pass


def truth(v):
    return v[0] == 'c' and v[1] & 1 == 1


def need(c, msg):
    if not c:
        raise Wrong(msg)


def sym(i):
    return ('s', 'V%d' % i)


# ------------------------------------------------------------ one container each: run the operations next to a reference
def run_queue(B, ops, kind='queue'):
    q = B.rec('queue')
    need(truth(B.call('queue_init', q)), 'a queue cannot be set up')
    M = []
    for op in ops:
        if op[0] == 'put':
            p, n = B.value(op[1])
            B.E.fail_allocs = op[2] if len(op) > 2 else False
            B.st.ghost['allocs'] = 0
            ok = truth(B.call('queue_offer', q, p, n))
            B.E.fail_allocs = False
            need(ok == (not B.st.ghost.pop('failed', 0)), 'queue_offer does not say whether it worked')
            if ok:
                M.append(op[1])
        elif op[0] == 'take':
            p = B.call('queue_poll', q)
            if not M:
                need(p == NULL, 'an empty queue hands something out')
                continue
            need(B.holds(p, M.pop(0)), 'queue_poll does not return the oldest element')
            B.mine(p)
        need(truth(B.call('queue_empty', q)) == (not M), 'queue_empty is wrong')
        need(B.call('queue_length', q) == C(len(M)), 'queue_length is wrong')
        for i, x in enumerate(M):
            if len(M) < 12 or i % 5 == 0 or i > len(M) - 3:
                need(B.holds(B.call('queue_peek_pos', q, C(i)), x), 'queue_peek_pos does not return the element at that place')
        p = B.call('queue_peek', q)
        need(B.holds(p, M[0]) if M else p == NULL, 'queue_peek does not return the oldest element')
    B.call('queue_free', q)
    need(not B.left(), 'queue_free leaves storage behind')


def run_stack(B, ops):
    s = B.rec('stack')
    need(truth(B.call('stack_init', s)), 'a stack cannot be set up')
    M = []
    for op in ops:
        if op[0] == 'put':
            p, n = B.value(op[1])
            B.E.fail_allocs = op[2] if len(op) > 2 else False
            B.st.ghost['allocs'] = 0
            ok = truth(B.call('stack_push', s, p, n))
            B.E.fail_allocs = False
            need(ok == (not B.st.ghost.pop('failed', 0)), 'stack_push does not say whether it worked')
            if ok:
                M.append(op[1])
        elif op[0] == 'take' and M:
            p = B.call('stack_pop', s)
            need(B.holds(p, M.pop()), 'stack_pop does not return the newest element')
            B.mine(p)
        need(truth(B.call('stack_empty', s)) == (not M), 'stack_empty is wrong')
        for i, x in enumerate(M):
            if len(M) < 12 or i % 5 == 0 or i > len(M) - 3:
                need(B.holds(B.call('stack_peek_pos', s, C(i)), x), 'stack_peek_pos does not return the element at that place')
        if M:
            need(B.holds(B.call('stack_peek', s), M[-1]), 'stack_peek does not return the newest element')
    B.call('stack_free', s)
    need(not B.left(), 'stack_free leaves storage behind')


def run_vector(B, ops):
    v = B.rec('vector')
    need(truth(B.call('vector_init', v)), 'a vector cannot be set up')
    M, end = [], 0
    for op in ops:
        if op[0] == 'put':
            p, n = B.value(op[1])
            B.E.fail_allocs = op[2] if len(op) > 2 else False
            B.st.ghost['allocs'] = 0
            ok = truth(B.call('vector_push', v, p, n))
            B.E.fail_allocs = False
            need(ok == (not B.st.ghost.pop('failed', 0)), 'vector_push does not say whether it worked')
            if ok:
                M.append((end, op[1]))
                end += n[1]
        else:
            B.call('vector_clear', v)
            M, end = [], 0
        need(B.E.getf(B.st, v, 'vector', 'len') == C(end), 'the length of the vector is wrong')
        d = B.E.getf(B.st, v, 'vector', 'data')
        need(d[0] == 'p', 'the vector has no storage')
        for at, x in M[-20:] + M[:6]:
            need(B.holds(('p', d[1], d[2], d[3] + at), x), 'the vector does not hold what was added')
        cap = B.E.getf(B.st, v, 'vector', 'capacity')
        need(cap[0] == 'c' and B.st.res(B.st.mem[d[1]].size) == cap, 'the capacity is not the size of the storage')
        need(end <= cap[1], 'the vector is longer than its storage')
    B.call('vector_free', v)
    need(not B.left(), 'vector_free leaves storage behind')


def run_hash(B, ops):
    h = B.rec('hashtable')
    f = lambda n: ('f', n, B.P.fn(n).mod)
    need(truth(B.call('hashtable_init', h, f('hashtable_str_compare'), f('hashtable_str_hash'))), 'a hash table cannot be set up')
    M = {}
    ever = []

    def key(k):
        return B.arg(len(k) + 1, {0: (('x', 'cstr', k), 1, False)}), C(len(k) + 1)

    def look(k):
        a, n = key(k)
        v = B.call('hashtable_get', h, a, n)
        if k not in M:
            need(v == NULL, 'a key that is not there is found')
            return
        need(v[0] == 'p', 'a key is not found')
        need(B.holds(B.st.res(B.E.getf(B.st, v, 'hashtable_value', 'content')), M[k]), 'a key leads to another value')
        need(B.E.getf(B.st, v, 'hashtable_value', 'len') == (C(len(M[k]) + 1) if isinstance(M[k], bytes) else C(8)), 'the length of a value is wrong')
    seen = []

    def collect(E, st, args, x):
        k = E.cstr(st, st.res(args[1]))
        seen.append((k, st.res(args[2]), st.res(args[3]), st.res(args[4]), st.res(args[5])))
        return [(C(0), st)]
    B.E.models['__each'] = collect
    for op in ops:
        if op[0] == 'put':
            k = op[1]
            if k not in ever:
                ever.append(k)
            a, n = key(k)
            p, m = B.value(op[2])
            B.E.fail_allocs = op[3] if len(op) > 3 else False
            B.st.ghost['allocs'] = 0
            ok = truth(B.call('hashtable_put', h, a, n, p, m))
            B.E.fail_allocs = False
            failed = B.st.ghost.pop('failed', 0)
            if k in M:
                need(not ok, 'a second value for a key is taken')
            else:
                need(ok or failed, 'a new key is not taken')
                if ok:
                    M[k] = op[2]
            look(k)
        elif op[0] == 'take':
            a, n = key(op[1])
            p = B.call('hashtable_remove', h, a, n)
            if op[1] in M:
                need(p[0] == 'p', 'a key that is there is not removed')
                need(B.holds(B.st.res(B.E.getf(B.st, p, 'hashtable_entry', 'value.content')), M.pop(op[1])), 'another entry is removed')
                B.call('hashtable_free_entry', p)
            else:
                need(p == NULL, 'a key that is not there is removed')
            look(op[1])
        elif op[0] == 'all':
            for k in ever:
                look(k)
            del seen[:]
            token = B.arg(8)
            B.call('hashtable_foreach', h, ('f', '__each', None), token)
            need(sorted(x[0] for x in seen) == sorted(M), 'hashtable_foreach does not visit each entry once')
            for k, kl, v, vl, t in seen:
                need(B.holds(v, M[k]) and kl == C(len(k) + 1) and t == token, 'hashtable_foreach hands over something else')
        need(B.E.getf(B.st, h, 'hashtable', 'count') == C(len(M)), 'the number of entries is wrong')
    for k in sorted(M):
        a, n = key(k)
        p = B.call('hashtable_remove', h, a, n)
        need(p[0] == 'p', 'a key that is there is not removed')
        B.call('hashtable_free_entry', p)
    B.call('hashtable_free', h)
    need(not B.left(), 'hashtable_free leaves storage behind')


def run_list(B, ops):
    head = B.rec('list_head')
    B.call('list_head_init', head)
    M, nodes = [], {}

    def walk(f):
        out, p = [], B.E.getf(B.st, head, 'list_head', f)
        while p != head:
            need(p[0] == 'p' and len(out) <= len(M), 'the list does not lead back to its head')
            out.append(p)
            p = B.E.getf(B.st, p, 'list_head', f)
        return out
    for op in ops:
        if op[0] == 'put':
            n = nodes[op[1]] = B.rec('list_head')
            at = op[2] if len(op) > 2 else None
            B.call('list_add', n, head if at is None else nodes[at])
            M.insert(0 if at is None else M.index(at) + 1, op[1])
        else:
            B.call('list_del', nodes[op[1]])
            M.remove(op[1])
        w = [nodes[x] for x in M]
        need(walk('next') == w, 'the list is not in the order of its insertions')
        need(walk('prev') == w[::-1], 'the list read backwards is another')
        need(B.call('list_length', head) == C(len(M)), 'list_length is wrong')


def run_bits(B, ops):
    n = ops[0]
    f = B.arg(n)
    M = set()
    for op, i in ops[1]:
        B.call('bit_' + op, f, C(i), C(n))
        M = M | {i} if op == 'set' else M - {i} if op == 'clear' else M ^ {i}
        for j in sorted({0, i - 1, i, i + 1, 8 * n - 1, i ^ 8, i ^ 1, 7, 8, 31, 32, 63, 64} & set(range(8 * n))):
            need(truth(B.call('bit_test', f, C(j), C(n))) == (j in M), 'bit %d is %s after %s of bit %d' % (j, 'lost' if j in M else 'set', op, i))
    for j in range(8 * n):
        need(truth(B.call('bit_test', f, C(j), C(n))) == (j in M), 'bit %d is %s' % (j, 'lost' if j in M else 'set'))


def run_btree(B, ops):
    """an ordered map: keys point to what the comparison looks at, values are the caller's pointers"""
    deg, cmp_, steps = ops
    t = B.call('btree_init', C(deg), ('f', cmp_, B.P.fn(cmp_).mod))
    need(t[0] == 'p', 'a B-tree cannot be set up')
    B.st.mem[t[1]].extra = ('root',)
    M, keys = {}, {}

    def key(k):
        if k not in keys:
            keys[k] = B.arg(8, {0: (C(k), 8, False)}) if cmp_ == 'btree_cmp_ul' else B.arg(len(k) + 1, {0: (('x', 'cstr', k), 1, False)})
        return keys[k]

    def inorder(p, depth=0):
        """keys of a subtree; the tree is balanced and its nodes are filled as a B-tree's"""
        n, leaf = B.E.getf(B.st, p, 'btree_node', 'key_count'), B.E.getf(B.st, p, 'btree_node', 'is_leaf')
        need(n[0] == 'c' and 0 <= n[1] <= 2 * deg - 1 and depth < 20, 'a node holds %s keys' % (n[1],))
        if depth:
            need(n[1] >= deg - 1, 'a node holds %d keys, less than a B-tree\'s' % n[1])
        ks, ch = B.E.getf(B.st, p, 'btree_node', 'keys'), B.E.getf(B.st, p, 'btree_node', 'children')
        out, deeps = [], set()
        tup, nod = B.P.records['btree_node_tuple']['size'], B.P.records['btree_node']['size']
        for i in range(n[1] + 1):
            if not truth(leaf):
                o, d = inorder(('p', ch[1], ch[2], ch[3] + i * nod), depth + 1)
                out += o
                deeps.add(d)
            if i < n[1]:
                out.append(B.E.getf(B.st, ('p', ks[1], ks[2], ks[3] + i * tup), 'btree_node_tuple', 'key'))
        need(len(deeps) <= 1, 'leaves lie at different depths')
        return out, (deeps.pop() if deeps else 0) + 1

    def check(full=False):
        r = B.E.getf(B.st, t, 'btree_head', 'root')
        got = inorder(r)[0] if r != NULL else []
        need(got == [key(k) for k in sorted(M, key=lambda k: k if isinstance(k, bytes) else k & (1 << 64) - 1)], 'the keys are not the ones inserted, in order')
        for k in sorted(keys) if full or len(keys) < 12 else sorted(keys)[len(M) % 3::3] if len(keys) < 41 else sorted(keys)[len(M) % 15::15]:
            v = B.call('btree_lookup', t, key(k))
            need(v == M.get(k, NULL), 'a key leads to another value' if k in M and v != NULL else 'a key is not found' if k in M else 'a key that is not there is found')
    def top(i):
        """a key of the root, or of one of its children"""
        p = B.E.getf(B.st, t, 'btree_head', 'root')
        if i % 3 == 2 and not truth(B.E.getf(B.st, p, 'btree_node', 'is_leaf')):
            ch, n = B.E.getf(B.st, p, 'btree_node', 'children'), B.E.getf(B.st, p, 'btree_node', 'key_count')
            p = ('p', ch[1], ch[2], ch[3] + i % (n[1] + 1) * B.P.records['btree_node']['size'])
        ks, n = B.E.getf(B.st, p, 'btree_node', 'keys'), B.E.getf(B.st, p, 'btree_node', 'key_count')
        q = B.E.getf(B.st, ('p', ks[1], ks[2], ks[3] + i // 3 % n[1] * B.P.records['btree_node_tuple']['size']), 'btree_node_tuple', 'key')
        return next(k for k in keys if keys[k] == q)

    for op in steps:
        if op[0] == 'top':
            if not M:
                continue
            op = ('take', top(op[1]))
        if op[0] == 'put':
            v = B.arg(8)
            B.E.fail_allocs = op[2] if len(op) > 2 else False
            B.st.ghost['allocs'] = 0
            ok = B.call('btree_insert', t, key(op[1]), v) == C(0)
            B.E.fail_allocs = False
            failed = B.st.ghost.pop('failed', 0)
            need(ok or failed, 'a key cannot be inserted')
            if ok:
                M[op[1]] = v
        elif op[0] == 'take':
            B.E.fail_allocs = op[2] if len(op) > 2 else False
            B.st.ghost['allocs'] = 0
            ok = B.call('btree_remove', t, key(op[1])) == C(0)
            B.E.fail_allocs = False
            failed = B.st.ghost.pop('failed', 0)
            need(ok or failed, 'a key cannot be removed')
            if ok:
                M.pop(op[1], None)
        elif op[0] == 'set':
            v = B.arg(8)
            ok = truth(B.call('btree_update', t, key(op[1]), v))
            need(ok == (op[1] in M), 'btree_update does not say whether the key was there')
            if ok:
                M[op[1]] = v
        check()
    check(True)
    slot = B.arg(8, {0: (t, 8, False)})
    B.call('btree_destroy', slot)
    need(not B.left(), 'btree_destroy leaves storage behind')


RUN = {'queue': run_queue, 'stack': run_stack, 'vector': run_vector, 'hash table': run_hash, 'list': run_list, 'bit field': run_bits, 'B-tree': run_btree}


def one(job):
    kind, name, ops = job
    out = []
    cov = set()

    def work():
        B = Box()
        try:
            RUN[kind](B, ops)
        except Wrong as e:
            if e.args[0]:
                out.append((e.args[0], None, None))
        except (Fork, BadHeap, PathEnd) as e:
            if not B.E.bads:
                out.append(('the %s is damaged: %s' % (kind, e), None, None))
        for m, l, t in B.E.bads[:2]:
            out.append(('memory: ' + m, l, trace_str(t)))
        cov.update(B.E.covered)
    why = None
    try:
        limited(work, 200)
    except (Budget, Slow) as e:
        why = str(e) or 'processor time'
    return '%s: %s' % (kind, name), out, cov, why


def jobs(tier):
    rnd = random.Random(18)
    deep = tier == 'thorough'
    val = lambda i: sym(i) if i % 3 else b'text %d' % i * (1 + i % 7)
    out = []
    for kind in ('queue', 'stack'):
        seqs = [('empty', [('take',)]), ('one', [('put', val(1)), ('take',), ('take',), ('put', val(2))]), ('growing', [('put', val(i)) for i in range(40)]),
                ('growing and shrinking', [('put', val(i)) for i in range(26)] + [('take',)] * 26 + [('put', val(i)) for i in range(9)]),
                ('alternating', [('put', val(0)), ('put', val(1))] + [x for i in range(14) for x in (('take',), ('put', val(i)))]),
                ('long texts', [('put', b'x' * n) for n in (1, 7, 8, 9, 63, 200, 4000)] + [('take',)] * 3)]
        for r in range(30 if deep else 8):
            seqs.append(('random %d' % r, [('put', val(i)) if rnd.random() < (0.7 if i % 20 < 12 else 0.3) else ('take',) for i in range(40)]))
        for size in (0, 1, 2, 3, 7, 10, 25):
            for n in (1, 2):
                seqs.append(('no storage at size %d' % size, [('put', val(i)) for i in range(size)] + [('put', val(50), n), ('put', val(51)), ('take',), ('put', val(52), n), ('take',)]))
        out += [(kind, n, o) for n, o in seqs]
    seqs = [('numbers', [('put', sym(i)) for i in range(60)]), ('texts', [('put', b'y' * n) for n in (1, 2, 3, 7, 8, 15, 16, 31, 100, 1000, 1)]), ('cleared', [('put', sym(i)) for i in range(9)] + [('clear',)] + [('put', b'again'), ('clear',), ('put', sym(1)), ('put', b'z' * 300)]),
            ('one byte at a time', [('put', b'')] * 40)]
    seqs += [('no storage at size %d' % n, [('put', sym(i)) for i in range(n)] + [('put', b'w' * 90, 1), ('put', sym(70)), ('put', b'w' * 500, 1), ('put', b'v')]) for n in (0, 1, 2, 5, 6, 14, 20)]
    seqs += [('first of %d bytes' % n, [('put', b'q' * (n - 1)), ('put', sym(3))]) for n in (7, 8, 9, 15, 16, 17, 48, 49)]
    out += [('vector', n, o) for n, o in seqs]
    names = [b'a', b'b', b'ab', b'ba', b'A', b'id', b'name', b'name2', b'nam', b'table_with_a_long_name' * 5, b'\xc3\xa4', b'x' * 126, b'A.a', b'B.a'] + [b'c%d' % i for i in range(90)]
    h = _djb
    coll = [k for k in names + [b'k%d' % i for i in range(900)] if h(k) % 16 == h(b'a') % 16][:12]
    full = [k for k in names + [b'k%d' % i for i in range(3000)] if h(k) % 128 == h(b'id') % 128][:8]
    pre = [p + s for p in (b'ab', b'id', b'name') for s in [b''] + [b'%d' % i for i in range(4000)] if h(p + s) % 128 == h(p) % 128][:60]
    put = lambda ks, at=0: [('put', k, val(at + i)) for i, k in enumerate(ks)]
    take = lambda ks: [('take', k) for k in ks]
    seqs = [('few', put(names[:7]) + [('all',)] + take(names[2:4]) + [('all',)] + put(names[2:3], 40) + [('all',)]), ('twice', put(names[:3]) + put(names[:3], 9) + [('all',)]), ('absent', take(names[:2]) + put(names[5:7]) + take(names[:2]) + [('all',)]),
            ('growing', put(names[:20]) + [('all',)]), ('growing twice', put(names[:40]) + [('all',)] + take(names[5:35]) + [('all',)] + put(names[10:14], 3) + [('all',)]), ('growing often', put(names[14:14 + (90 if deep else 66)]) + [('all',)]),
            ('in one bucket', put(coll) + [('all',)] + take(coll[::2]) + [('all',)] + put(coll[:4], 20) + take(coll[::-1]) + [('all',)]), ('in one bucket of every size', put(full + names[:34]) + [('all',)] + take(full[::-1]) + [('all',)]),
            ('one bucket, each the start of another', put(pre[:9]) + [('all',)] + take(pre[:4]) + [('all',)] + put(pre[30:36], 20) + [('all',)]), ('one bucket, the longer first', put(pre[8::-1]) + [('all',)] + take(pre[3:5]) + [('all',)]),
            ('first in its bucket removed', put(coll[:4]) + take([coll[3]]) + [('all',)] + take([coll[0]]) + [('all',)])]
    for r in range(24 if deep else 6):
        o = []
        for i in range(50):
            k = rnd.choice(coll[:6] + names[:12])
            o.append(('put', k, val(i)) if rnd.random() < 0.6 else ('take', k))
            if i % 16 == 15:
                o.append(('all',))
        seqs.append(('random %d' % r, o + [('all',)]))
    for size in (0, 1, 6, 7, 8, 15):
        for n in range(1, 7) if size != 7 and size != 15 else (1, 2, 3, 4, 5, 6, 7, 20, 35):
            seqs.append(('no storage at size %d, allocation %d' % (size, n), put(names[:size]) + [('put', b'late', val(60), n), ('all',)] + put(names[20:24], 30) + [('all',)]))
    out += [('hash table', n, o) for n, o in seqs]
    seqs = [('added', [('put', i) for i in range(9)]), ('added in the middle', [('put', 0), ('put', 1, 0), ('put', 2, 0), ('put', 3, 1), ('put', 4), ('put', 5, 4)]),
            ('removed', [('put', i) for i in range(6)] + [('take', i) for i in (5, 0, 3, 2, 4, 1)] + [('put', 9)]), ('first and last', [('put', 1), ('take', 1), ('put', 2), ('put', 3), ('take', 2), ('put', 4, 3), ('take', 3), ('take', 4)])]
    out += [('list', n, o) for n, o in seqs]
    for n in (1, 2, 3, 4, 8, 16, 32):
        top = 8 * n
        sets = [[(op, i) for i in range(j, top, 8)] for op in ('set', 'toggle') for j in range(0, 8, 2 if n > 4 else 1)]
        for s in sets if deep else sets[::2]:
            out.append(('bit field', '%d bytes, %s from %d' % (n, s[0][0], s[0][1]), (n, s)))
        out.append(('bit field', '%d bytes, set and cleared' % n, (n, [('set', i) for i in range(0, top, 1 if n < 8 else 5)] + [('clear', i) for i in range(0, top, 3)] + [('toggle', i) for i in range(0, top, 7)])))
    return out


def btrees(deep):
    import itertools
    rnd = random.Random(27)
    out = []
    U, put, take = 'btree_cmp_ul', (lambda l: [('put', k) for k in l]), (lambda l: [('take', k) for k in l])
    add = lambda name, deg, steps, c=U: out.append(('B-tree', 'degree %d, %s' % (deg, name), (deg, c, steps)))
    for deg in (2, 3, 4):
        for n in (1, 3, 4, 7, 12, 22) + ((60,) if deep else ()):
            up, down = list(range(10, 10 + n)), list(range(10, 10 + n))[::-1]
            mid = up[n // 2:] + up[:n // 2][::-1]
            add('%d keys, taken in order' % n, deg, put(up) + take(up) + put(down[:3]))
            add('%d keys backwards' % n, deg, put(down) + take(down))
            add('%d keys, taken backwards' % n, deg, put(up) + take(down) + put(up[:2]))
            add('%d keys from the middle' % n, deg, put(mid) + take(mid[::2]) + put(mid[::2]) + take(mid))
    for deg in (2, 3) if deep else (2,):
        for n in (3, 4, 5):
            ps = list(itertools.permutations(range(n)))
            for i, p in enumerate(ps):
                if n < 5 or i % (1 if deep else 6) == 0:
                    add('inserted as %s' % (p,), deg, put(p) + take(ps[-1 - i]) + put(p[:1]))
    for r in range(120 if deep else 36):
        deg = 2 + r % 3
        o = []
        have = set()
        grow = 0.75
        for i in range(70):
            if i % 25 == 24:
                grow = 1.05 - grow
            k = rnd.randrange(40)
            if rnd.random() < grow:
                o.append(('put', k) if k not in have else ('set', k))
                have.add(k)
            elif have and rnd.random() < 0.85:
                k = rnd.choice(sorted(have))
                o.append(('take', k))
                have.discard(k)
            else:
                o.append(('take', k) if rnd.random() < 0.6 or k in have else ('set', k))
                have.discard(k)
        add('random %d' % r, deg, o)
    # trees of three and four levels with nodes of every size; the keys high up go first
    for r in range(60 if deep else 20):
        deg = 2 + r % 3
        n = (44, 70, 110)[r % 3]
        ks = list(range(n))
        rnd.shuffle(ks)
        if r % 4 == 3:
            ks = ks[:n // 2] + sorted(ks[n // 2:], reverse=r % 8 == 3)
        add('%d keys at random %d, from the root' % (n, r), deg, put(ks) + [('top', i) for i in range(n // 2)] + put(range(n, n + 9)) + [('top', i) for i in range(9)])
    words = [b'a', b'ab', b'B', b'abc', b'', b'zeta', b'\xc3\xa4', b'id', b'id2', b'x' * 40, b'10', b'9']
    add('texts', 2, put(words) + take(words[::2]) + put(words[::2]), 'btree_cmp_str')
    big = [1 << 63, (1 << 64) - 1, 0, 1, (1 << 63) - 1, 5, 1 << 32]
    add('large numbers', 2, put([norm_int(k, 64) for k in big]) + take([0, 5]))
    for deg in (2, 3):
        for size in (0, 1, 3, 6, 7, 10, 20):
            for n in (1, 2, 3, 4, 5, 6):
                base = list(range(0, 4 * size, 4))
                add('no storage inserting in %d, allocation %d' % (size, n), deg, put(base) + [('put', 4 * size + 1, n), ('put', 2, n), ('put', 4 * (size // 2) + 3, n)])
        for size in (4, 5, 8, 11, 16):
            for n in (1, 2, 3, 4, 5, 6):
                base = list(range(size))
                for k in (0, size // 2, size - 1):
                    add('no storage removing from %d, allocation %d' % (size, n), deg, put(base) + [('take', k, n), ('take', (k + 3) % size)])
    return out


def _djb(k):
    x = 5381
    for b in k + b'\0':
        x = (x * 33 + (b - 256 if b > 127 else b)) & (1 << 64) - 1
    return x


def sequences(R, l, kinds):
    for j in l:
        R.count('operation sequences on a ' + j[0])
    bad = []
    for key, viol, cov, why in pmap(one, l, enough=lambda out: sum(1 for r in out if r[1]) >= 30):
        R.functions |= cov
        R.obligations += 1
        if why:
            bad.append((key, why))
        for m, loc, t in viol:
            R.add(key.split(':')[0] + ': ' + m, m + ' - ' + key, loc, t)
    if bad and not R.viol:
        raise Broken('%d sequences undecided, e.g. %s: %s' % (len(bad), bad[0][0], bad[0][1]))
    for k in kinds:
        R.need('operation sequences on a ' + k, 4)
    R.samples += ['%s: %s' % j[:2] for j in l[::max(1, len(l) // 8)]]


def containers(R):
    program()
    sequences(R, jobs(R.tier), [k for k in RUN if k != 'B-tree'])
    R.rules = ['A queue gives back what was put in, oldest first; a stack newest first; a vector holds the bytes added, in order; a hash table finds each key\'s own value and no other, whatever keys share a bucket and however often it grew; '
               'a list keeps the order of its insertions in both directions; a bit field changes only the bit it is asked to.',
               'They hold copies of what they are given; when storage runs out the operation says so and nothing else changes; freeing a container releases all it holds, once.']
    R.assumptions = ['libc memory functions behave as documented; calls a caller must not make (taking from an empty stack, positions beyond the end) are outside.']
    return 'Abstract interpretation of the functions of the containers over enumerated operation sequences with opaque values, each step compared with a reference container; %d sequences.' % R.obligations


def trees(R):
    program()
    sequences(R, btrees(R.tier == 'thorough'), ['B-tree'])
    R.rules = ['After every insertion, removal and change of a value a B-tree is balanced, its nodes hold as many keys as its degree allows and demands, its keys are those put in and not taken out, in order, and each is found with its own value and no other.',
               'When storage runs out the operation says so and the tree is as before, and goes on working; destroying it releases all it holds, once.']
    R.assumptions = ['libc memory functions behave as documented; inserting a key that is already in the tree is outside, as the header leaves it to the caller.']
    return 'Abstract interpretation of the functions of the B-tree over enumerated operation sequences with opaque values; the whole tree is read and compared with a reference map after every step; %d sequences.' % R.obligations
