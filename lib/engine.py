"""Path-sensitive dataflow engine over the SSA form of lib/ir.py.

Abstract values are hash-consed terms over the inputs of the analysed root
function; branch conditions refine a small constant/interval/relation domain;
loops are analysed as "first iteration" + "any later iteration" (every phi and
every memory cell that changed is widened to an opaque value); callees are
inlined on request of the client, otherwise they are opaque.  No solver."""
import sys, heapq
from itertools import count

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ('op', 'a', 'n', '_s')
    tab = {}
    cnt = count()

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = Term.tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a; t.n = next(Term.cnt); t._s = None
        Term.tab[k] = t
    return t


def C(n): return mk('c', n)


ZERO = C(0); ONE = C(1)


def isc(t): return t.op == 'c'


def show(t, d=0):
    if not isinstance(t, Term): return str(t)
    if d > 7: return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'c': return str(a[0])
    if o == 'arg': return str(a[1]) if len(a) > 1 else 'arg%d' % a[0]
    if o == '+': return '%s+%d' % (s(a[0]), a[1])
    if o == 'ld': return '*(%s)' % s(a[0])
    if o == '[]': return '%s[%s*%s]' % (s(a[0]), s(a[1]), a[2])
    if o == 'fn' or o == 'g': return str(a[0] if o == 'fn' else a[1])
    if o == 'str': return repr(a[0])
    if o == 'ret': return '%s()' % (a[0],)
    if o == 'out': return 'out%d:%s()' % (a[2], a[0])
    if o == 'lv': return 'lv%d.%s' % (a[1], a[2])
    if o == 'alloca': return '&%s' % (a[2] or a[1],)
    if o == 'heap': return 'heap@%s' % (a[0][-1],)
    if o == 'cmp': return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'not': return '!%s' % s(a[0])
    if o == 'pos': return 'pos#%d' % len(a[0])
    if o == 'rd': return 'rd#%d' % len(a[0])
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, Term): st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Term): st.append(z)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---- constructors with simplification -------------------------------------
def padd(b, off):
    if off == 0: return b
    if b.op == 'c': return C(b.a[0] + off)
    if b.op == '+': return padd(b.a[0], b.a[1] + off)
    return mk('+', b, off)


def pidx(b, i, sz):
    if i.op == 'c': return padd(b, i.a[0] * sz)
    off = 0
    if i.op == '+':
        off = i.a[1] * sz; i = i.a[0]
    return padd(mk('[]', b, i, sz), off) if off else mk('[]', b, i, sz)


def root_of(a):
    while a.op in ('+', '[]'): a = a.a[0]
    return a


def split_off(a):
    if a.op == '+': return a.a[0], a.a[1]
    return a, 0


INV = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}
SWP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}


def isbool(t):
    return t.op in ('cmp', 'not', 'fcmp') or (t.op == 'c' and t.a[0] in (0, 1) and False)


def tnot(t):
    if t.op == 'c': return C(0 if t.a[0] else 1)
    if t.op == 'not': return t.a[0]
    if t.op == 'cmp': return tcmp(INV[t.a[0]], t.a[1], t.a[2])
    return mk('not', t)


def tcmp(p, a, b):
    """canonical: constant on the right; only eq/ne/lt/ge (a<b, a>=b) remain,
    gt/le are rewritten by swapping operands."""
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        return C(int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]))
    if a is b:
        return C(int(p in ('eq', 'le', 'ge')))
    if b.op == 'c' and b.a[0] == 0 and p in ('eq', 'ne') and (isbool(a) or a.op == 'sel'):
        if isbool(a): return a if p == 'ne' else tnot(a)
    if b.op == 'c' and b.a[0] == 1 and p in ('eq', 'ne') and isbool(a):
        return a if p == 'eq' else tnot(a)
    if a.op == 'sel' and b.op == 'c':
        x, y = tcmp(p, a.a[1], b), tcmp(p, a.a[2], b)
        if x.op == 'c' and y.op == 'c':
            return x if x is y else (a.a[0] if x.a[0] else tnot(a.a[0]))
    elif b.op == 'sel' and a.op == 'c': return tcmp(SWP[p], b, a)
    if p == 'eq' or p == 'ne':
        if a.op == 'c' or (b.op != 'c' and a.n > b.n): a, b = b, a
        # pointer of a known object is never null / distinct objects differ
        if b.op == 'c' and b.a[0] == 0 and nonnull_root(a): return C(int(p == 'ne'))
        if b.op == 'c' and a.op == '+' and not ptrish(a): return tcmp(p, a.a[0], C(b.a[0] - a.a[1]))
        return mk('cmp', p, a, b)
    if p == 'gt': p, a, b = 'lt', b, a
    elif p == 'le': p, a, b = 'ge', b, a
    # now lt / ge
    # integers with constants: c < x  ->  x >= c+1 ; c >= x -> x < c+1
    if a.op == 'c':
        if p == 'lt': return mk('cmp', 'ge', b, C(a.a[0] + 1))
        return mk('cmp', 'lt', b, C(a.a[0] + 1))
    return mk('cmp', p, a, b)


def ptrish(a):
    r = root_of(a)
    return r.op in ('alloca', 'heap', 'g', 'ld', 'arg')


def nonnull_root(a):
    r = root_of(a)
    return r.op in ('alloca', 'g', 'fn', 'str') or (r.op == 'heap' and a is not r)


MASK = {8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: (1 << 64) - 1}


def tbin(op, a, b, w=64):
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << (y & 63), 'lshr': lambda: (x & ((1 << w) - 1)) >> (y & 63), 'ashr': lambda: x >> (y & 63),
                 'udiv': lambda: x // y, 'sdiv': lambda: int(x / y), 'urem': lambda: x % y, 'srem': lambda: x - int(x / y) * y}[op]()
            return C(r)
        except Exception:
            return mk('bin', op, a, b)
    if op == 'add':
        if a.op == 'c': a, b = b, a
        if b.op == 'c': return padd(a, b.a[0])
        # (x+c)+y -> (x+y)+c
        if a.op == '+' : return padd(tbin('add', a.a[0], b), a.a[1])
        if b.op == '+' : return padd(tbin('add', a, b.a[0]), b.a[1])
        if a.n > b.n and not ptrish(a): a, b = b, a
        return mk('bin', 'add', a, b)
    if op == 'sub':
        if b.op == 'c': return padd(a, -b.a[0])
        if a is b: return ZERO
        if a.op == 'bin' and a.a[0] == 'add':
            if a.a[1] is b: return a.a[2]
            if a.a[2] is b: return a.a[1]
        if a.op == '+':
            return padd(tbin('sub', a.a[0], b), a.a[1])
    if op == 'xor' and b.op == 'c' and b.a[0] in (1, -1) and isbool(a): return tnot(a)
    if op in ('and', 'or') and isbool(a) and b.op == 'c':
        v = b.a[0] & 1
        if op == 'and': return a if v else ZERO
        return ONE if v else a
    if op == 'mul':
        if a.op == 'c': a, b = b, a
        if b.op == 'c':
            if b.a[0] == 1: return a
            if b.a[0] == 0: return ZERO
            if a.op == '+': return padd(tbin('mul', a.a[0], b), a.a[1] * b.a[0])
        elif a.n > b.n: a, b = b, a
    if op in ('shl', 'lshr', 'ashr', 'or', 'xor') and b.op == 'c' and b.a[0] == 0: return a
    if op == 'and' and b.op == 'c' and b.a[0] == 0: return ZERO
    return mk('bin', op, a, b)


# ---- state -----------------------------------------------------------------
class Facts:
    """interval + excluded values per term, plus truth of relations."""
    __slots__ = ('iv', 'ne', 'rel')

    def __init__(self):
        self.iv = {}; self.ne = {}; self.rel = {}

    def copy(self):
        f = Facts(); f.iv = dict(self.iv); f.ne = dict(self.ne); f.rel = dict(self.rel); return f

    def key(self):
        return (frozenset(self.iv.items()), frozenset(self.ne.items()), frozenset(self.rel.items()))

    def const(self, t):
        if t.op == 'c': return t.a[0]
        if t.op == '+':
            c = self.const(t.a[0])
            return None if c is None else c + t.a[1]
        i = self.iv.get(t)
        if i and i[0] == i[1] and i[0] is not None: return i[0]
        return None

    def bounds(self, t):
        if t.op == 'c': return t.a[0], t.a[0]
        if t.op == '+':
            l, h = self.bounds(t.a[0])
            return (None if l is None else l + t.a[1]), (None if h is None else h + t.a[1])
        return self.iv.get(t, (None, None))

    def ev(self, c):
        """truth of boolean term c: True/False/None."""
        if c.op == 'c': return bool(c.a[0])
        if c.op == 'not':
            r = self.ev(c.a[0])
            return None if r is None else not r
        if c.op == 'cmp':
            p, a, b = c.a
            r = self.rel.get(c)
            if r is not None: return r
            r = self.rel.get(mk('cmp', INV[p], a, b))
            if r is not None: return not r
            la, ha = self.bounds(a); lb, hb = self.bounds(b)
            if p in ('eq', 'ne'):
                eq = None
                if la is not None and la == ha and la == lb and lb == hb: eq = True
                elif ha is not None and lb is not None and ha < lb: eq = False
                elif hb is not None and la is not None and hb < la: eq = False
                else:
                    cb = b.a[0] if b.op == 'c' else None
                    if cb is not None and cb in self.ne.get(a, ()): eq = False
                    elif self.rel.get(mk('cmp', 'lt', a, b)) or self.rel.get(mk('cmp', 'lt', b, a)): eq = False
                if eq is None: return None
                return eq if p == 'eq' else not eq
            lt = None
            if ha is not None and lb is not None and ha < lb: lt = True
            elif la is not None and hb is not None and la >= hb: lt = False
            else:
                if self.rel.get(mk('cmp', 'lt', b, a)): lt = False
                e = self.rel.get(tcmp('eq', a, b)) if b.op != 'c' else None
                if e: lt = False
            if lt is None: return None
            return lt if p == 'lt' else not lt
        # plain value used as a boolean
        k = self.const(c)
        if k is not None: return bool(k)
        if 0 in self.ne.get(c, ()): return True
        l, h = self.bounds(c)
        if (l is not None and l > 0) or (h is not None and h < 0): return True
        return None

    def learn(self, c, v):
        """returns False when contradictory."""
        e = self.ev(c)
        if e is not None:
            return e == v
        if c.op == 'not': return self.learn(c.a[0], not v)
        if c.op == 'cmp':
            p, a, b = c.a
            if not v: p = INV[p]
            return self._rel(p, a, b)
        return self._rel('ne' if v else 'eq', c, ZERO)

    def _rel(self, p, a, b):
        cb = self.const(b); ca = self.const(a)
        if cb is None and ca is not None:
            p, a, b, ca, cb = SWP[p], b, a, cb, ca
            if p == 'gt': return self._set(a, cb + 1, None)
            if p == 'le': return self._set(a, None, cb)
        if cb is not None:
            if a.op == '+':
                cb -= a.a[1]; a = a.a[0]
            if p == 'eq': return self._set(a, cb, cb)
            if p == 'ne':
                l, h = self.bounds(a)
                if l == cb: return self._set(a, cb + 1, None)
                if h == cb: return self._set(a, None, cb - 1)
                self.ne[a] = self.ne.get(a, frozenset()) | {cb}
                return True
            if p == 'lt': return self._set(a, None, cb - 1)
            if p == 'ge': return self._set(a, cb, None)
        self.rel[mk('cmp', p, a, b) if p in ('eq', 'ne', 'lt', 'ge') else tcmp(p, a, b)] = True
        if p == 'lt':
            # a < b : with a >= 0 -> b >= 1
            l, h = self.bounds(a)
            if l is not None and not self._set_sub(b, l + 1, None): return False
        return True

    def _set_sub(self, t, lo, hi):
        if t.op == 'c':
            v = t.a[0]
            return (lo is None or v >= lo) and (hi is None or v <= hi)
        if t.op == '+':
            return self._set_sub(t.a[0], None if lo is None else lo - t.a[1], None if hi is None else hi - t.a[1])
        return self._set(t, lo, hi)

    def _set(self, t, lo, hi):
        if t.op in ('c', '+'): return self._set_sub(t, lo, hi)
        l, h = self.iv.get(t, (None, None))
        if lo is not None: l = lo if l is None else max(l, lo)
        if hi is not None: h = hi if h is None else min(h, hi)
        ne = self.ne.get(t, ())
        while l is not None and l in ne: l += 1
        while h is not None and h in ne: h -= 1
        if l is not None and h is not None and l > h: return False
        self.iv[t] = (l, h)
        return True

    def purge(self, pred):
        hit = {}

        def bad(t):
            r = hit.get(t)
            if r is None:
                r = pred(t) or any(bad(x) for x in t.a if isinstance(x, Term)) or any(bad(y) for x in t.a if isinstance(x, tuple) for y in x if isinstance(y, Term))
                hit[t] = r
            return r
        for d in (self.iv, self.ne, self.rel):
            for k in [k for k in d if bad(k)]: del d[k]


class Frame:
    __slots__ = ('fn', 'ctx', 'env', 'block', 'prev', 'pc', 'loops', 'retid', 'cinst')

    def copy(self):
        f = Frame(); f.fn = self.fn; f.ctx = self.ctx; f.env = dict(self.env); f.block = self.block
        f.prev = self.prev; f.pc = self.pc; f.loops = dict(self.loops); f.retid = self.retid; f.cinst = self.cinst
        return f


class State:
    __slots__ = ('frames', 'mem', 'regions', 'facts', 'cl', 'cnt', 'trace', 'extra')

    def copy(self):
        s = State()
        s.frames = [f for f in self.frames[:-1]] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem); s.regions = self.regions; s.facts = self.facts.copy()
        s.cl = self.cl.copy() if self.cl is not None else None
        s.cnt = dict(self.cnt); s.trace = self.trace; s.extra = self.extra
        return s

    @property
    def fr(self): return self.frames[-1]


class Client:
    """override what is needed"""
    max_depth = 6

    def init(self, eng, st): return None
    def inline(self, eng, st, fn, args, inst): return fn.internal
    def on_call(self, eng, st, inst, name, callee, args): return None
    def on_load(self, eng, st, inst, addr, size): pass
    def on_store(self, eng, st, inst, addr, val, size): pass
    def on_branch(self, eng, st, inst, cond, taken): pass
    def on_ret(self, eng, st, inst, val): pass
    def on_div(self, eng, st, inst, op, a, b): pass
    def on_shift(self, eng, st, inst, op, a, b): pass
    def on_inline_ret(self, eng, st, frame, val): pass
    def on_enter(self, eng, st, fn, args): pass
    def on_header(self, eng, st, frame, block, k): pass
    def on_edge(self, eng, st, frame, block, k, newv, ctx): pass
    def key(self, st): return None
    def merge(self, S, st): return S.cl
    def pre_merge(self, S, st): pass
    def rejoin(self, S, st): return False
    def xkey(self, st): return None


READONLY = {'memcmp', 'bcmp', 'strlen', 'strcmp', 'strncmp', 'strnlen', 'memchr', 'strchr'}
NORETURN = {'abort', 'exit', '__assert_fail'}
IGN = ('llvm.dbg', 'llvm.lifetime', 'llvm.stacksave', 'llvm.stackrestore')


class Budget(Exception):
    pass


class Work:
    """depth first while the exploration is small, then in topological order so that merged states settle"""

    def __init__(self, eng):
        self.e = eng; self.l = []; self.heap = None; self.n = 0

    def append(self, s):
        if self.heap is None: self.l.append(s)
        else:
            self.n += 1
            heapq.heappush(self.heap, (self.prio(s), self.n, s))

    def extend(self, ss):
        for s in ss: self.append(s)

    def __bool__(self): return bool(self.l if self.heap is None else self.heap)

    def prio(self, s):
        if isinstance(s, tuple): s = self.e.jstate[s[1]]
        return tuple(f.fn.cfg()['rpo'].get(f.block, 0) for f in s.frames) + (1 << 30,)

    def pop(self):
        if self.heap is None:
            if self.e.nst < 400: return self.l.pop()
            self.heap = []
            l, self.l = self.l, []
            self.extend(l)
        return heapq.heappop(self.heap)[2]


class Engine:
    def __init__(self, prog, client, max_steps=400000, max_states=20000):
        self.p = prog; self.cl = client
        self.max_steps = max_steps; self.max_states = max_states
        self.incomplete = False
        self.flat = {}
        self.paths = 0
        self.prewiden = None; self.widened = {}

    # -- running ---------------------------------------------------------
    def run(self, fn, args=None, setup=None):
        self.root = fn
        self.steps = 0; self.paths = 0; self.incomplete = False
        self.visited = set(); self.jcount = {}; self.jstate = {}
        st = State(); st.frames = []; st.mem = {}; st.regions = (); st.facts = Facts(); st.cl = None; st.cnt = {}; st.trace = None; st.extra = None
        if args is None:
            args = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(fn.args)]
            for a, t in zip(fn.args, args):
                if a['dt'].replace('const ', '') in ('size_t', 'uint64_t', 'uint32_t', 'unsigned int', 'unsigned long'): st.facts.iv[t] = (0, None)
        self.push(st, fn, args, None)
        st.cl = self.cl.init(self, st)
        if setup: setup(st)
        self.work = Work(self); self.work.append(st); self.pending = set()
        nst = self.nst = 0
        while self.work:
            s = self.work.pop()
            nst += 1; self.nst = nst
            if nst > self.max_states or self.steps > self.max_steps:
                self.incomplete = True
                break
            if isinstance(s, tuple):
                self.pending.discard(s[1])
                s = self.jstate[s[1]].copy()
                self.go(s, True)
            else: self.go(s)
        return self

    def push(self, st, fn, args, inst):
        f = Frame(); f.fn = fn
        f.ctx = (st.fr.ctx + (inst.id,)) if inst is not None else ()
        if inst is not None: f.ctx = st.fr.ctx + ((st.fr.fn.name, inst.id),)
        f.env = {}
        for i, a in enumerate(args):
            if i < len(fn.args): f.env[i] = a
        f.block = 0; f.prev = None; f.pc = 0; f.loops = {}
        f.retid = inst.id if inst is not None else None
        f.cinst = inst
        st.frames.append(f)
        self.cl.on_enter(self, st, fn, args)

    def site(self, st, inst):
        return st.fr.ctx + ((st.fr.fn.name, inst.id),)

    # -- values ----------------------------------------------------------
    def val(self, st, v, fn=None):
        if isinstance(v, int):
            return st.fr.env.get(v) or mk('undefssa', st.fr.fn.name, v)
        return self.const(v, fn or st.fr.fn)

    def const(self, v, fn):
        k = v['k']
        if k == 'i': return C(v['v'])
        if k == 'null' or k == 'zero': return ZERO
        if k == 'f': return mk('f', v['v'])
        if k == 'fn': return mk('fn', v['v'], fn.tu if (fn.tu, v['v']) in self.p.stat else '')
        if k == 'g': return mk('g', fn.tu if (fn.tu, v['v']) in self.p.globals else '', v['v'])
        if k == 'str': return mk('str', v['v'])
        if k == 'gep':
            b = self.const(v['b'], fn)
            return self.gep(None, b, v['steps'], fn)
        if k == 'undef': return mk('undef')
        if k == 'ce' and v['op'] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.const(v['v'][0], fn)
        return mk('other')

    def gep(self, st, b, steps, fn):
        for s in steps:
            if 's' in s: b = padd(b, s['o'])
            else:
                i = self.val(st, s['i'], fn) if st is not None else self.const(s['i'], fn)
                b = pidx(b, i, s['sz'])
        return b

    def ginit(self, tu, name):
        k = (tu, name)
        if k not in self.flat:
            g = self.p.globals.get(k)
            self.flat[k] = None
            if g is not None and g['const'] or (g is not None and g.get('t', '').find('ops') >= 0 and 'init' in g):
                self.flat[k] = (g, {o: c for o, c in self.p.flat_init(g)})
        return self.flat[k]

    # -- memory ----------------------------------------------------------
    def load(self, st, addr, size):
        m = st.mem
        c = m.get(addr)
        if c is not None:
            v, z = c
            if z == size or size is None: return v
            if z > size: return self.part(v, 0, size)
            if size == 8 and z == 4:
                hi = self.load(st, padd(addr, 4), 4)
                return mk('pack', v, hi)
            return v
        b, o = split_off(addr)
        if size == 4 and o % 8 == 4:
            c = m.get(padd(b, o - 4))
            if c is not None and c[1] == 8: return self.part(c[0], 4, 4)
        if size == 8:
            c = m.get(padd(addr, 4))
            if c is not None and c[1] == 4:
                return mk('pack', self.load(st, addr, 4), c[0])
        # array summary
        if b.op == '[]':
            c = m.get(padd(mk('[]', b.a[0], STAR, b.a[2]), o))
            if c is not None: return c[0] if c[1] == size or size is None or c[1] < size else self.part(c[0], 0, size)
            if size == 4 and o % 8 == 4:
                c = m.get(padd(mk('[]', b.a[0], STAR, b.a[2]), o - 4))
                if c is not None and c[1] == 8: return self.part(c[0], 4, 4)
        # regions, newest first
        for r in st.regions:
            kind, rb, ro, rn, data = r
            if rb is b and ro <= o and (rn is None or o < ro + rn):
                if kind == 'copy':
                    return self.load(st, padd(data, o - ro), size)
                if kind == 'out':
                    return mk('out', data[0], data[1], data[2], o - ro) if not isinstance(data, Term) else (data if o == ro else mk('of', data, o - ro))
                if kind == 'zero':
                    return ZERO
        if b.op == 'g':
            gi = self.ginit(b.a[0], b.a[1])
            if gi is not None:
                c = gi[1].get(o)
                if c is not None:
                    fake = _FakeFn(gi[0]['tu'])
                    return self.const(c, fake)
        if b.op == 'heap' and b.a[1] == 'calloc': return ZERO
        if b.op == 'alloca': return mk('uninit', addr)
        return mk('ld', addr)

    def part(self, v, delta, size):
        if v.op == 'pack': return v.a[0] if delta == 0 else v.a[1]
        if v.op == 'c':
            x = (v.a[0] >> (8 * delta)) & ((1 << (8 * size)) - 1)
            if x >= 1 << (8 * size - 1): x -= 1 << (8 * size)
            return C(x)
        if v.op == 'ld': return v if delta == 0 else mk('ld', padd(v.a[0], delta))
        if v.op == 'out': return v if delta == 0 else mk('out', v.a[0], v.a[1], v.a[2], v.a[3] + delta)
        if delta == 0: return v
        return mk('part', v, delta)

    def store(self, st, addr, val, size):
        m = st.mem
        b, o = split_off(addr)
        # kill overlapping cells of the same base
        if size == 8:
            m.pop(padd(b, o + 4), None)
        elif size == 4 and o % 8 == 4:
            c = m.get(padd(b, o - 4))
            if c is not None and c[1] == 8:
                m[padd(b, o - 4)] = (self.part(c[0], 0, 4), 4)
        elif size == 4:
            c = m.get(addr)
            if c is not None and c[1] == 8:
                m[padd(b, o + 4)] = (self.part(c[0], 4, 4), 4)
        m[addr] = (val, size)
        if b.op == '[]':
            m[padd(mk('[]', b.a[0], STAR, b.a[2]), o)] = (val, size)

    def region(self, st, kind, dst, n, data):
        b, o = split_off(dst)
        m = st.mem
        for k in list(m):
            kb, ko = split_off(k)
            if kb is b and ko >= o and (n is None or ko < o + n): del m[k]
        # drop regions fully covered by the new one
        regs = tuple(r for r in st.regions if not (r[1] is b and r[2] >= o and (n is None or (r[3] is not None and r[2] + r[3] <= o + n))))
        st.regions = ((kind, b, o, n, data),) + regs

    def memcpy(self, st, dst, src, n):
        nn = st.facts.const(n)
        sb, so = split_off(src)
        cells = []
        for k, c in st.mem.items():
            kb, ko = split_off(k)
            if kb is sb and ko >= so and (nn is None or ko < so + nn):
                cells.append((ko - so, c))
        arr = [(k, c) for k, c in st.mem.items() if split_off(k)[0].op == '[]' and split_off(k)[0].a[0] is src]
        snap = src
        self.region(st, 'copy', dst, nn, snap)
        for d, c in cells: st.mem[padd(dst, d)] = c
        for k, c in arr:
            kb, ko = split_off(k)
            st.mem[padd(mk('[]', dst, kb.a[1], kb.a[2]), ko)] = c

    # -- main loop -------------------------------------------------------
    def go(self, st, joined=False):
        while True:
            f = st.fr
            bl = f.fn.blocks[f.block]
            if f.pc == 0:
                # merge: skip states already seen at this join
                cfg = f.fn.cfg()
                if len(cfg['pred'][f.block]) > 1 and not joined:
                    r = self.join(st, cfg)
                    if r is None: return
                    st = r; f = st.fr
                joined = False
                # phis are evaluated on the edge (goto_block)
                while f.pc < len(bl) and bl[f.pc].op == 'phi': f.pc += 1
            while f.pc < len(bl):
                i = bl[f.pc]; f.pc += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    self.incomplete = True
                    return
                r = self.step(st, f, i)
                if r is STOP: return
                if r is SWITCHED: break
            else:
                return

    def on_merge(self, st, k): pass

    # Joins: up to join_limit distinct states per (context, block, client key) are kept apart; beyond that they are
    # merged into one (differing values become opaque join terms, facts are intersected).
    join_limit = 10

    def join(self, st, cfg):
        k = self.skey(st, cfg)
        if k in self.visited:
            self.on_merge(st, k)
            return None
        self.visited.add(k)
        f = st.fr
        live = cfg['live'][f.block] | {i.id for i in f.fn.blocks[f.block] if i.op == 'phi'}
        loops = tuple(tuple(sorted((b, l[0]) for b, l in x.loops.items())) for x in st.frames)
        pk = (f.fn.name, f.ctx, f.block, tuple((x.block, x.pc) for x in st.frames[:-1]), loops, self.cl.key(st),
              tuple(self.sign(st, x) for x in st.frames))
        n = self.jcount.get(pk, 0) + 1
        self.jcount[pk] = n
        if n <= (self.join_limit if self.nst < 600 else 3 if self.nst < 1500 else 1): return st
        S = self.jstate.get(pk)
        if S is None:
            S = st.copy()
            S.fr.env = {v: t for v, t in S.fr.env.items() if v in live}
            self.jstate[pk] = S
            ch = True
        else:
            self.cl.pre_merge(S, st)
            ch = self.merge(S, st, live, pk)
            if self.cl.rejoin(S, st): ch = True
        if ch and pk not in self.pending:
            self.pending.add(pk)
            self.work.append(('J', pk))
        return None

    def sign(self, st, f):
        """outcome (failed / succeeded / open) held by the values that become the result: such states are not merged"""
        if f.fn.ret_type != 'ccs_result_t': return ()
        r = getattr(f.fn, '_retids', None)
        if r is None:
            d = {i.id: i for bl in f.fn.blocks for i in bl}; r = set(); todo = [o for bl in f.fn.blocks if bl[-1].op == 'ret' for o in bl[-1].ops]
            while todo:
                v = todo.pop()
                if not isinstance(v, int) or v in r: continue
                r.add(v)
                i = d.get(v)
                if i is not None and i.op in ('phi', 'select'): todo.extend(i.ops)
            r = f.fn._retids = sorted(r)
        out = []
        for v in r:
            t = f.env.get(v)
            if t is None: continue
            if t.op == 'raise': out.append((v, -1)); continue
            l, h = st.facts.bounds(t)
            if h is not None and h < 0: out.append((v, -1))
            elif l is not None and l >= 0: out.append((v, 1))
        # only the ones still alive matter
        lv = f.fn.cfg()['live'][f.block]
        ph = {i.id for i in f.fn.blocks[f.block] if i.op == 'phi'}
        return tuple(x for x in out if x[0] in lv or x[0] in ph)

    def merge(self, S, st, live, pk):
        """S := join(S, st); True when S changed"""
        ch = False
        tag = (f_ctx(pk), pk[2])
        hulls = {}

        def jn(j, x, y):
            a, b = S.facts.bounds(x), st.facts.bounds(y)
            l = None if a[0] is None or b[0] is None else min(a[0], b[0])
            h = None if a[1] is None or b[1] is None else max(a[1], b[1])
            nn = S.facts.ev(x) is True and st.facts.ev(y) is True if not (isbool(x) or isbool(y)) else False
            hulls[j] = (l, h, nn)
            return a != (l, h) or (nn != (S.facts.ev(x) is True) and not isbool(x))
        for d in range(len(S.frames)):
            a, b = S.frames[d].env, st.frames[d].env
            if a is b: continue
            S.frames[d] = S.frames[d].copy(); a = S.frames[d].env
            for v in list(a):
                if d == len(S.frames) - 1 and v not in live: del a[v]; continue
                x = b.get(v)
                j = mk('j', tag, d, v)
                if x is not a[v] or x is j:
                    if x is None: del a[v]; ch = True; continue
                    if jn(j, a[v], x) or a[v] is not j: ch = True
                    a[v] = j
        if S.regions != st.regions:
            regs = tuple(r for r in S.regions if r in st.regions)
            if regs != S.regions: S.regions = regs; ch = True
        for addr in list(S.mem):
            c = st.mem.get(addr)
            o = S.mem[addr]
            j = mk('jm', tag, addr)
            if c != o or o[0] is j:
                if c is not None:
                    if jn(j, o[0], c[0]): ch = True
                if o[0] is not j: ch = True
                S.mem[addr] = (j, o[1])
        for addr in st.mem:
            if addr not in S.mem:
                S.mem[addr] = (mk('jm', tag, addr), st.mem[addr][1]); ch = True
        F, G = S.facts, st.facts
        isj = lambda t: t.op in ('j', 'jm') and t.a[0] == tag
        for t in list(F.iv):
            if t in hulls: continue      # its range is the hull computed above
            l, h = F.iv[t]; gl, gh = G.bounds(t)
            nl = None if l is None or gl is None or gl < l else l
            nh = None if h is None or gh is None or gh > h else h
            if (nl, nh) != (l, h):
                ch = True
                if nl is None and nh is None: del F.iv[t]
                else: F.iv[t] = (nl, nh)
                # keep "non zero" when both sides know it
                if (l is not None and l > 0 or h is not None and h < 0) and G.ev(t) is True and not (nl is not None and nl > 0):
                    F.ne[t] = F.ne.get(t, frozenset()) | {0}
        for t in list(F.ne):
            if t in hulls: continue
            keep = frozenset(x for x in F.ne[t] if x in G.ne.get(t, ()) or outside(G.bounds(t), x))
            if keep != F.ne[t]:
                ch = True
                if keep: F.ne[t] = keep
                else: del F.ne[t]
        for t in list(F.rel):
            if G.rel.get(t) != F.rel[t] and G.ev(t) != F.rel[t]: del F.rel[t]; ch = True
        if ch:
            F.purge(isj)
            for j, (l, h, nn) in hulls.items():
                # few values, so that repeated merging ends
                if l is not None: l = l if l in (-1, 0, 1) else 1 if l > 1 else None
                if h is not None: h = h if h in (-1, 0, 1) else -1 if h < -1 else None
                if l is not None or h is not None: F.iv[j] = (l, h)
                elif nn: F.ne[j] = frozenset([0])
            S.cl = self.cl.merge(S, st)
        return ch

    def skey(self, st, cfg):
        f = st.fr
        live = cfg['live'][f.block]
        env = tuple((v, f.env.get(v)) for v in sorted(live)) + tuple(f.env.get(i.id) for i in f.fn.blocks[f.block] if i.op == 'phi')
        fr = tuple((x.fn.name, x.ctx, x.block, x.pc) for x in st.frames[:-1])
        ups = tuple(frozenset(x.env.items()) for x in st.frames[:-1])
        loops = tuple(frozenset((b, l[0]) for b, l in x.loops.items()) for x in st.frames)
        return (f.fn.name, f.ctx, f.block, env, fr, ups, loops, frozenset(st.mem.items()), st.regions, st.facts.key(), self.cl.key(st), self.cl.xkey(st))

    def goto(self, st, target):
        f = st.fr
        cur = f.block
        cfg = f.fn.cfg()
        newv = []
        for i in f.fn.blocks[target]:
            if i.op != 'phi': break
            for v, b in zip(i.ops, i.x['b']):
                if b == cur:
                    newv.append((i.id, self.val(st, v))); break
        for k, v in newv: f.env[k] = v
        f.prev = cur; f.block = target; f.pc = 0
        # leaving loops
        for h in list(f.loops):
            if target not in cfg['loops'][h]: del f.loops[h]
        if target in cfg['loops']:
            L = f.loops.get(target)
            ctx = f.ctx + (('h', f.fn.name, target),)
            if L is None:
                pw = self.prewiden.get(ctx) if self.prewiden else None
                self.cl.on_edge(self, st, f, target, 0, newv, ctx)
                if pw is None:
                    f.loops[target] = (0, dict(st.mem), {k: v for k, v in newv}, st.regions)
                    self.cl.on_header(self, st, f, target, 0)
                else:
                    # second pass: what the loop changes is known, start in the widened state
                    for pid in pw[0]: f.env[pid] = mk('lv', ctx, target, pid)
                    wm = set()
                    for a in pw[1]:
                        if a in st.mem: st.mem[a] = (mk('lvm', ctx, target, a), st.mem[a][1]); wm.add(a)
                    st.facts.purge(lambda t: t.op in ('lv', 'lvm') and t.a[0] == ctx)
                    f.loops[target] = (1, dict(st.mem), frozenset(pw[0]), frozenset(wm))
                    self.widen_facts(st, None, newv, f, ctx, target)
                    self.cl.on_header(self, st, f, target, 0)
            else:
                k, mem0, ph0, reg0 = L
                self.cl.on_edge(self, st, f, target, k + 1, newv, ctx)
                if k == 0:
                    # widen
                    for pid, v in newv:
                        if ph0.get(pid) is not v:
                            f.env[pid] = mk('lv', ctx, target, pid)
                        # keep loop-invariant phis
                    wid = frozenset(pid for pid, v in newv if ph0.get(pid) is not v)
                    wm = set()
                    for a, c in list(st.mem.items()):
                        o = mem0.get(a)
                        if o is None or o[0] is not c[0]:
                            if root_of(a).op in ('alloca',) or o is not None or True:
                                if self.widen_cell(st, a, o, c, mem0):
                                    st.mem[a] = (mk('lvm', ctx, target, a), c[1]); wm.add(a)
                    lvs = lambda t: t.op in ('lv', 'lvm') and t.a[0] == ctx
                    st.facts.purge(lvs)
                    f.loops[target] = (1, dict(st.mem), wid, frozenset(wm))
                    w = self.widened.setdefault(ctx, (set(), set())); w[0].update(wid); w[1].update(wm)
                    self.widen_facts(st, ph0, newv, f, ctx, target)
                    self.cl.on_header(self, st, f, target, 1)
                else:
                    wid, wm = ph0, reg0
                    for pid, v in newv:
                        if pid in wid: f.env[pid] = mk('lv', ctx, target, pid)
                    # phis that were invariant on the first trip but change now
                    for pid, v in newv:
                        if pid not in wid:
                            pass
                    for a, c in list(st.mem.items()):
                        o = mem0.get(a)
                        if a in wm:
                            st.mem[a] = (mk('lvm', ctx, target, a), c[1])
                        elif o is None or o[0] is not c[0]:
                            if self.widen_cell(st, a, o, c, mem0):
                                st.mem[a] = (mk('lvm', ctx, target, a), c[1])
                                wm = wm | {a}
                    st.facts.purge(lambda t: t.op in ('lv', 'lvm') and t.a[0] == ctx)
                    f.loops[target] = (min(k + 1, 2), dict(st.mem), wid, wm)
                    w = self.widened.setdefault(ctx, (set(), set())); w[0].update(wid); w[1].update(wm)
                    self.widen_facts(st, None, newv, f, ctx, target)
                    self.cl.on_header(self, st, f, target, min(k + 1, 2))

    def widen_facts(self, st, ph0, newv, f, ctx, target):
        """induction variables that start at a constant and only grow keep their lower bound"""
        for pid, v in newv:
            t = f.env.get(pid)
            if t is None or t.op != 'lv': continue
            lo = self.lv_lower(f.fn, target, pid)
            if lo is not None: st.facts._set(t, lo, None)

    def lv_lower(self, fn, header, pid):
        key = (fn.name, fn.tu, header, pid)
        if not hasattr(self, '_lvl'): self._lvl = {}
        if key in self._lvl: return self._lvl[key]
        cfg = fn.cfg(); res = None
        defs = {i.id: i for bl in fn.blocks for i in bl}
        ph = defs.get(pid)
        start = None; ok = True
        if ph is not None and ph.op == 'phi':
            def grows(v, seen):
                if v == pid: return True
                if not isinstance(v, int) or v in seen: return isinstance(v, int) and v in seen
                seen = seen | {v}
                d = defs.get(v)
                if d is None: return False
                if d.op == 'add':
                    c = [o for o in d.ops if isinstance(o, dict) and o.get('k') == 'i' and o['v'] >= 0]
                    x = [o for o in d.ops if isinstance(o, int)]
                    return len(c) == 1 and len(x) == 1 and grows(x[0], seen)
                if d.op == 'phi': return all(grows(o, seen) for o in d.ops)
                return False
            for v, b in zip(ph.ops, ph.x['b']):
                if b in cfg['loops'][header]:
                    if not grows(v, frozenset()): ok = False
                elif isinstance(v, dict) and v.get('k') == 'i': start = v['v'] if start is None else min(start, v['v'])
                else: ok = False
            if ok: res = start
        self._lvl[key] = res
        return res

    def widen_cell(self, st, a, o, c, mem0):
        """should a cell first written inside the loop be widened?"""
        if o is None:
            # array cells indexed by the loop variable describe "some element"
            return False
        return True

    def step(self, st, f, i):
        op = i.op
        env = f.env
        if op == 'load':
            a = self.val(st, i.ops[0])
            self.cl.on_load(self, st, i, a, i.x['z'])
            if i.x['z'] == 16 and (i.ty or '').startswith('{'):
                env[i.id] = mk('agg2', self.load(st, a, 8), self.load(st, padd(a, 8), 8))
            else: env[i.id] = self.load(st, a, i.x['z'])
        elif op == 'store':
            v = self.val(st, i.ops[0]); a = self.val(st, i.ops[1])
            self.cl.on_store(self, st, i, a, v, i.x['z'])
            self.store(st, a, v, i.x['z'])
        elif op == 'getelementptr':
            env[i.id] = self.gep(st, self.val(st, i.ops[0]), i.x['steps'], f.fn)
        elif op == 'icmp':
            p = i.x['p']
            va, vb = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if p not in ('eq', 'ne'):
                if p[0] == 'u':
                    for v in (va, vb):
                        if v.op not in ('c', '+') and self.unsigned_ok(v) and (st.facts.iv.get(v) or (None,))[0] is None: st.facts._set(v, 0, None)
                p = p[1:]
            env[i.id] = tcmp(p, va, vb)
        elif op == 'fcmp':
            env[i.id] = mk('fcmp', i.x['p'], self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        elif op in ('zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'addrspacecast', 'freeze'):
            env[i.id] = self.val(st, i.ops[0])
        elif op == 'trunc':
            v = self.val(st, i.ops[0])
            if v.op == 'c':
                w = int(i.ty[1:]); x = v.a[0] & ((1 << w) - 1)
                if w > 1 and x >= 1 << (w - 1): x -= 1 << w
                env[i.id] = C(x)
            elif isbool(v) or i.ty == 'i1': env[i.id] = v
            else: env[i.id] = mk('trunc', v, i.ty)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            w = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
            if op[1:] in ('div', 'rem'): self.cl.on_div(self, st, i, op, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            elif op in ('shl', 'lshr', 'ashr'): self.cl.on_shift(self, st, i, op, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            r = tbin(op, self.val(st, i.ops[0]), self.val(st, i.ops[1]), w)
            env[i.id] = r
        elif op == 'alloca':
            env[i.id] = mk('alloca', f.ctx + ((f.fn.name, i.id),), i.id, i.x.get('vn'))
        elif op == 'select':
            c = self.val(st, i.ops[0]); e = st.facts.ev(c)
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            env[i.id] = a if e is True else b if e is False else a if a is b else mk('sel', c, a, b)
        elif op == 'br':
            b = i.x['b']
            if len(b) == 1:
                self.goto(st, b[0]); return SWITCHED
            c = self.val(st, i.ops[0])
            return self.branch(st, i, c, b[0], b[1])
        elif op == 'switch':
            v = self.val(st, i.ops[0])
            k = st.facts.const(v)
            if k is not None:
                for cv, t in i.x['cases']:
                    if cv == k:
                        self.goto(st, t); return SWITCHED
                self.goto(st, i.x['b'][0]); return SWITCHED
            outs = []
            groups = {}
            for cv, t in i.x['cases']:
                s = st.copy()
                if s.facts.learn(tcmp('eq', v, C(cv)), True):
                    self.cl.on_branch(self, s, i, tcmp('eq', v, C(cv)), True)
                    self.goto(s, t); outs.append(s)
            s = st
            ok = True
            for cv, t in i.x['cases']:
                if not s.facts.learn(tcmp('eq', v, C(cv)), False): ok = False; break
            if ok:
                self.cl.on_branch(self, s, i, mk('default', v), True)
                self.goto(s, i.x['b'][0]); outs.append(s)
            self.work.extend(reversed(outs))
            return STOP
        elif op == 'ret':
            v = self.val(st, i.ops[0]) if i.ops else None
            if len(st.frames) == 1:
                self.paths += 1
                self.cl.on_ret(self, st, i, v)
                return STOP
            st.frames.pop()
            self.cl.on_inline_ret(self, st, f, v)
            # frames below are shared between copies: copy before writing
            st.frames[-1] = st.frames[-1].copy()
            if v is not None: st.fr.env[f.retid] = v
            return SWITCHED
        elif op == 'call' or op == 'invoke':
            return self.call(st, f, i)
        elif op == 'unreachable':
            return STOP
        elif op in ('extractvalue',):
            v = self.val(st, i.ops[0])
            if v.op == 'agg2' and len(i.x['x']) == 1: env[i.id] = v.a[i.x['x'][0]]
            elif v.op == 'agg' and len(i.x['x']) == 1 and i.x['x'][0] in dict(v.a[0]): env[i.id] = dict(v.a[0])[i.x['x'][0]]
            else: env[i.id] = mk('of', v, i.x['x'][0] * 8)
        elif op == 'insertvalue':
            env[i.id] = mk('ins', self.val(st, i.ops[0]), self.val(st, i.ops[1]), tuple(i.x['x']))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[i.id] = mk('bin', op, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        elif op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fneg'):
            env[i.id] = mk(op, self.val(st, i.ops[0]))
        elif op == 'phi':
            pass
        else:
            env[i.id] = mk('op', op, i.id, f.ctx)
        return None

    def unsigned_ok(self, v):
        """operand of an unsigned comparison: its value is taken as non-negative"""
        return v.op in ('arg', 'ld', 'ret', 'out', 'lv', 'lvm', 'j', 'jm')

    def branch(self, st, i, c, tb, fb):
        e = st.facts.ev(c)
        if e is not None:
            self.cl.on_branch(self, st, i, c, e)
            self.goto(st, tb if e else fb)
            return SWITCHED
        s2 = st.copy()
        outs = []
        if s2.facts.learn(c, False):
            self.cl.on_branch(self, s2, i, c, False)
            self.goto(s2, fb); outs.append(s2)
        if st.facts.learn(c, True):
            self.cl.on_branch(self, st, i, c, True)
            self.goto(st, tb); outs.append(st)
        self.work.extend(outs)
        return STOP

    def call(self, st, f, i):
        cv = i.x['c']
        args = [self.val(st, o) for o in i.ops]
        callee = None
        if isinstance(cv, dict) and cv.get('k') == 'fn':
            name = cv['v']
        else:
            t = self.val(st, cv)
            if t.op == 'fn': name = t.a[0]
            else: name = t      # indirect: a Term
        if isinstance(name, str):
            if name.startswith(IGN): return None
            callee = self.p.resolve(f.fn.tu, name)
            if callee is None and not isinstance(cv, dict):
                tt = self.val(st, cv)
                callee = self.p.stat.get((tt.a[1], tt.a[0])) if tt.a[1] else self.p.ext.get(tt.a[0])
            if name in NORETURN: return STOP
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
                self.cl.on_load(self, st, i, args[1], None)
                self.cl.on_store(self, st, i, args[0], mk('copyof', args[1], args[2]), None)
                self.memcpy(st, args[0], args[1], args[2])
                f.env[i.id] = args[0]
                return None
            if name.startswith('llvm.memset') or name == 'memset':
                self.cl.on_store(self, st, i, args[0], args[1], None)
                self.region(st, 'zero', args[0], st.facts.const(args[2]), None)
                f.env[i.id] = args[0]
                return None
            if name.startswith('llvm.expect'):
                f.env[i.id] = args[0]; return None
            if name.startswith('llvm.fabs') or name.startswith('llvm.'):
                f.env[i.id] = mk('call', name, tuple(args)); return None
        k = (f.ctx, f.fn.name, i.id)
        n = st.cnt.get(k, 0)
        if n < 2: st.cnt[k] = n + 1
        site = f.ctx + ((f.fn.name, i.id, n),)
        if n >= 2:
            st.facts.purge(lambda t: t.op in ('ret', 'out', 'heap') and site in t.a)
        r = self.cl.on_call(self, st, i, name, callee, args)
        if r is not None:
            # list of outcomes: (ret term or None, function(state) applying effects or None)
            if r is STOP: return STOP
            outs = []
            for k2, (rv, eff) in enumerate(r):
                s = st if k2 == len(r) - 1 else st.copy()
                if rv is not None: s.fr.env[i.id] = rv
                if eff is not None and eff(s) is False: continue
                outs.append(s)
            if len(outs) == 1 and outs[0] is st: return None
            self.work.extend(outs)
            return STOP
        if callee is not None and len(st.frames) <= self.cl.max_depth and not any(x.fn is callee for x in st.frames) and \
                self.cl.inline(self, st, callee, args, i):
            self.push(st, callee, args, i)
            return SWITCHED
        self.opaque(st, i, name, args, site)
        return None

    def opaque(self, st, i, name, args, site=None):
        site = site or self.site(st, i)
        nm = name if isinstance(name, str) else 'indirect'
        if nm in ('malloc', 'calloc', 'realloc'):
            h = mk('heap', site, nm)
            # a fresh block: forget what an earlier iteration stored there
            for k in [k for k in st.mem if root_of(k) is h]: del st.mem[k]
            st.regions = tuple(r for r in st.regions if root_of(r[1]) is not h)
            st.fr.env[i.id] = h
            return
        for k, a in enumerate(args):
            if root_of(a).op == 'alloca' and nm not in READONLY:
                self.region(st, 'out', a, None, (nm, site, k))
        if i.ty:
            st.fr.env[i.id] = mk('ret', nm if isinstance(name, str) else name, site)


def f_ctx(pk): return pk[1]


def outside(b, x):
    l, h = b
    return (l is not None and x < l) or (h is not None and x > h)


class _FakeFn:
    def __init__(self, tu): self.tu = tu


STAR = mk('*')
STOP = object(); SWITCHED = object()


def enc(t):
    """picklable form of a term"""
    return ('\0t', t.op) + tuple(enc(x) if isinstance(x, Term) else ('\0s',) + tuple(enc(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) and any(isinstance(y, Term) for y in x) else x for x in t.a)


def dec(e):
    def d(x):
        if isinstance(x, tuple) and x and x[0] == '\0t': return dec(x)
        if isinstance(x, tuple) and x and x[0] == '\0s': return tuple(d(y) for y in x[1:])
        return x
    return mk(e[1], *[d(x) for x in e[2:]])


def over_args(t):
    """is t built only from arguments, constants, loads and offsets?"""
    return all(x.op in ('arg', 'ld', '+', '[]', 'c', 'cmp', 'not') for x in subterms(t))


def subst(eng, st, t, args):
    """t over formal arguments -> term over the caller's values (loads go through the caller's memory)"""
    o = t.op
    if o == 'arg': return args[t.a[0]] if t.a[0] < len(args) else mk('?')
    if o == 'ld': return eng.load(st, subst(eng, st, t.a[0], args), t.a[1] if len(t.a) > 1 else 8)
    if o == '+': return padd(subst(eng, st, t.a[0], args), t.a[1])
    if o == '[]':
        return pidx(subst(eng, st, t.a[0], args), subst(eng, st, t.a[1], args), t.a[2])
    if o == 'c': return t
    if o == 'bin': return tbin(t.a[0], subst(eng, st, t.a[1], args), subst(eng, st, t.a[2], args))
    if o == 'cmp': return tcmp(t.a[0], subst(eng, st, t.a[1], args), subst(eng, st, t.a[2], args))
    if o == 'not': return tnot(subst(eng, st, t.a[0], args))
    if o == '*': return t
    return mk('?', t)
