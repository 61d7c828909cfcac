import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, pmap, slot_of, defs_of
from lin import Lin, lin, ineqs, index_like

ALLOC = ('malloc', 'calloc', 'realloc')
UNSIGNED = ('size_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t')
WIDTH = {'size_t': 8, 'uint64_t': 8, 'int64_t': 8, 'ccs_int_t': 8, 'ccs_float_t': 8, 'double': 8, 'uint32_t': 4, 'int32_t': 4, 'ccs_bool_t': 4,
         'uint16_t': 2, 'int16_t': 2, 'uint8_t': 1, 'int8_t': 1, 'ccs_hash_t': 4}


def weight(f): return sum(len(b) for b in f.blocks)


def position(f):
    """index of the (remaining size, position) pair of arguments of a reader"""
    for k in range(len(f.args) - 1):
        if f.args[k]['dt'].replace(' ', '') == 'size_t*' and f.args[k + 1]['dt'].replace(' ', '') == 'constchar**': return k
    return None


def inputv(t):
    if t.op == 'ld': r = root_of(t.a[0]) if isinstance(t.a[0], Term) else t; return r.op == 'out' and r.a[0] == 'position'
    return t.op == 'out' and isinstance(t.a[0], str) and t.a[0].startswith('input ')


def peeks(P, f):
    """a reader that leaves the position where it is and calls no other reader: its checks are facts for the caller"""
    k = position(f)
    if f.name not in _PEEK:
        ok = weight(f) < 120
        calls = [i.x['c'].get('v') if isinstance(i.x['c'], dict) else '?' for b in f.blocks for i in b if i.op == 'call']
        if f.internal and weight(f) < 60 and all(isinstance(c, str) and (c.startswith('llvm.') or c in ('memcpy', 'memmove', 'memset')) for c in calls):
            _PEEK[f.name] = 'helper'; return 'helper'   # cannot fail: what it may assume was checked by whoever calls it
        for b in f.blocks:
            for i in b:
                if i.op == 'store' and i.ops[1] in (k, k + 1): ok = False
                if i.op == 'call' and isinstance(i.x['c'], dict):
                    g = P.resolve(f.tu, i.x['c'].get('v'))
                    if g is not None and position(g) is not None: ok = False
        _PEEK[f.name] = ok
    return _PEEK[f.name]


_PEEK = {}


class Reader(Client):
    max_depth = 4

    def __init__(self): self.ob = {}; self.bad = {}; self.eof = {}

    # -- obligations ------------------------------------------------------------
    def note(self, st, inst, kind, verdict, text):
        k = (st.fr.fn.name, inst.id if inst is not None else 0, kind)
        old = self.ob.get(k, True)
        if verdict is False:
            self.ob[k] = False; self.bad.setdefault(k, (text(), st.fr.fn.loc(inst) if inst is not None else st.fr.fn.name))
        elif old is not False: self.ob[k] = None if verdict is None or old is None else True

    def prove(self, st, d):
        """d >= 0 on this path: True, False (some values allowed by the path break it) or None"""
        if all(v >= 0 and self.nonneg(t) for t, v in d.c.items()) and d.k >= 0: return True
        if not d.c: return False
        ins = [q for q in ineqs(st.facts) if q.c]
        trivial = lambda r: r.k >= 0 and all(v >= 0 and self.nonneg(t) for t, v in r.c.items())
        for q in ins:
            for m in (1, 2, 4, 8, 16, 32):
                if trivial(d.add(q, -m)): return True
        near = [q for q in ins if any(t in d.c for t in q.c)]
        for q, r in itertools.product(near, ins):
            if trivial(d.add(q, -1).add(r, -1)): return True
        cl = set(d.c); grown = True
        while grown:
            grown = False
            for q in ins:
                if any(t in cl for t in q.c):
                    for t in q.c:
                        if t not in cl: cl.add(t); grown = True
            if len(cl) > len(d.c) + 3: return None
        def cut(t):
            """(what a conversion is applied to, bits kept)"""
            w = 64
            while t.op in ('zext', 'trunc'):
                if t.op == 'trunc' and t.a[1][1:].isdigit(): w = min(w, int(t.a[1][1:]))
                t = t.a[0]
            return t, w
        base = {t: cut(t) for t in cl}
        if any(not self.free(t) for t, w in base.values()): return None
        atoms = sorted({t for t, w in base.values()}, key=lambda t: t.n)
        own = [q for q in ins if all(t in cl for t in q.c)]
        ks = {0, 1, 5, 1000}
        if len(atoms) <= 2: ks |= {abs(q.k) + j for q in own + [d] for j in (-1, 0, 1) if abs(q.k) + j >= 0}
        ks |= {(1 << w) + 5 for t, w in base.values() if w < 64}
        for vals in itertools.product(sorted(ks), repeat=len(atoms)):
            e = dict(zip(atoms, vals))
            e = {t: e[x] & ((1 << w) - 1) for t, (x, w) in base.items()}
            if any(q.k + sum(v * e[t] for t, v in q.c.items()) < 0 for q in own): continue
            if d.k + sum(v * e[t] for t, v in d.c.items()) < 0: return False
        return None

    def nonneg(self, t): return t.op in ('out', 'arg', 'ld', 'lv', 'lvm', 'ret', 'strlen', 'trunc', 'zext')

    def free(self, t):
        return inputv(t) or t.op == 'out' and t.a[0] == 'remaining' or t in self.sizes or t.op == 'arg' and self.sized(t)

    def sized(self, t): return True

    # -- the position -------------------------------------------------------------
    def init(self, eng, st):
        self.sizes = set()
        return {'pairs': frozenset(), 'cand': frozenset(), 'eof': False, 'strs': frozenset(), 'heaps': frozenset()}

    def key(self, st): return (st.cl['pairs'], st.cl['cand'], st.cl['eof'], st.cl['strs'], st.cl['heaps'])

    def fresh(self, eng, st, bs, b, site):
        p, n = mk('out', 'position', site, 0), mk('out', 'remaining', site, 1)
        eng.store(st, b, p, 8); eng.store(st, bs, n, 8)
        st.facts.learn(tcmp('ge', n, ZERO), True)
        self.sizes.add(n)
        st.cl = dict(st.cl); st.cl['pairs'] = frozenset(x for x in st.cl['pairs'] if x[0] is not p) | {(p, n)}

    def off(self, st, t):
        """(pair, offset) when the pointer lies in the input"""
        if not isinstance(t, Term): return None
        l = lin(t)
        for p, n in st.cl['pairs']:
            lp = lin(p)
            if len(lp.c) == 1 and not lp.k:
                if l.c.get(p) == 1: return (p, n), l.add(Lin(0, {p: 1}), -1)
        return None

    def consistent(self, st, p, s):
        """is [p, p+s) inside the input?  with the offsets as linear expressions"""
        r = self.off(st, p)
        if r is None: return 'unknown', None
        (bp, bn), o = r
        d = lin(bn).add(o, -1).add(lin(s), -1)
        v = self.prove(st, d)
        return v, d

    def inline(self, eng, st, fn, args, inst):
        if position(fn) is not None: return peeks(self.p, fn)
        return fn.internal and weight(fn) < 400

    def pair_obligation(self, eng, st, inst, p, s, kind, what):
        v, d = self.consistent(st, p, s)
        if v == 'unknown': return
        self.note(st, inst, kind, v, lambda: '%s with more bytes announced (%s) than the input has left behind the position' % (what, lin(s).show()))
        sl = lin(s)
        if any(c < 0 for c in sl.c.values()) or sl.k < 0:
            w = self.prove(st, sl)
            self.note(st, inst, kind + '-advance', w, lambda: '%s after the position was advanced by more than what was left: the remaining size %s was not checked' % (what, sl.show()))

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        site = st.fr.ctx + ((st.fr.fn.name, i.id),)
        k = position(callee) if callee is not None else None
        if k is not None and k + 1 < len(args) and not peeks(self.p, callee):
            bs, b = args[k], args[k + 1]
            p, s = eng.load(st, b, 8), eng.load(st, bs, 8)
            if isinstance(p, Term) and isinstance(s, Term): self.pair_obligation(eng, st, i, p, s, 'handed', '%s is called' % nm)
            r = mk('ret', nm, site)
            tys = [a['dt'].replace('const ', '').replace(' ', '') for a in callee.args]

            def eff(z, ok):
                if z.facts.learn(tcmp('lt', r, ZERO), not ok) is False: return False
                for j, a in enumerate(args):
                    if j in (k, k + 1) or not isinstance(a, Term) or not tys[j].endswith('*'): continue
                    if tys[j].count('*') == 1 and tys[j][:-1] in WIDTH or tys[j].endswith('_type_t*'):
                        v = mk('out', 'input ' + nm, site, j)
                        eng.store(z, a, v, WIDTH.get(tys[j][:-1], 4))
                        if tys[j][:-1] in UNSIGNED: z.facts.learn(tcmp('ge', v, ZERO), True)
                    elif root_of(a).op in ('alloca', 'heap') and not tys[j].startswith('_ccs_object_deserialize_options'): eng.region(z, 'out', a, None, (nm, site, j))
                self.fresh(eng, z, bs, b, site)
            return [(r, lambda z: eff(z, True)), (r, lambda z: eff(z, False))]
        if nm == 'read' and len(args) == 3:
            if st.cl['eof']:
                self.note(st, i, 'eof', False, lambda: 'reads again after the end of the file was reached: input that ends early is never rejected')
                return STOP
            self.note(st, i, 'eof', True, None)
            r = mk('ret', nm, site)

            def got(z, zero):
                z.cl = dict(z.cl); z.cl['eof'] = zero
                return z.facts.learn(tcmp('eq', r, ZERO), zero)
            return [(r, lambda z: got(z, True)), (r, lambda z: got(z, False))]
        if nm in ALLOC:
            ls = [lin(a) for a in args[(1 if nm == 'realloc' else 0):] if isinstance(a, Term)]
            whole = [l for l in ls if l.c]
            # calloc multiplies with an overflow check of its own
            safe = nm == 'calloc' and len(whole) == 1 and len(whole[0].c) == 1 and list(whole[0].c.values()) == [1] and whole[0].k == 0
            for l in whole:
                for t in l.c:
                    if not inputv(t): continue
                    if l.c[t] == 1 and position(eng.root) is None: continue  # a descriptor has no remaining size to compare with
                    v = True if safe or self.bounded(st, t) else False
                    self.note(st, i, 'alloc', v, lambda: 'allocates room for a number of elements (%s) taken from the input that was not compared with what is left: the size may wrap' % show(t))
            h = mk('heap', site, nm)
            z = Lin(0)
            if nm == 'calloc' and len(ls) == 2:
                z = ls[0].mul(ls[1].k) if ls[1].const() is not None else ls[1].mul(ls[0].k) if ls[0].const() is not None else None
            else: z = ls[-1]

            def eff(s):
                s.cl = dict(s.cl)
                s.cl['heaps'] = frozenset(x for x in s.cl['heaps'] if x[0] is not h) | ({(h, z.k, tuple(sorted(z.c.items(), key=lambda y: y[0].n)))} if z is not None else set())
                return s.facts.learn(tcmp('ne', h, ZERO), True)
            return [(h, eff)]
        # the input handed to somebody else together with a length
        if callee is None or not self.inline(eng, st, callee, args, i):
            for j in range(len(args)):
                a = args[j]
                if not isinstance(a, Term): continue
                r = self.off(st, a)
                if r is None: continue
                if j and isinstance(args[j - 1], Term) and self.lengthlike(i, j - 1, args[j - 1]):
                    self.pair_obligation(eng, st, i, a, args[j - 1], 'given', 'the input is given away')
                if nm in ('memcmp', 'memchr', 'strncmp', 'strnlen', 'bcmp') and isinstance(args[-1], Term):
                    self.pair_obligation(eng, st, i, a, args[-1], 'given', 'the input is compared')
                if nm in ('strlen', 'strcpy', 'strcmp', 'strdup'):
                    self.note(st, i, 'given', False if not self.terminated(st, r[0][0]) else True, lambda: 'the input is used as a string before it was found to be terminated')
        return None

    def lengthlike(self, i, j, t): return inputv(t) or t.op in ('out', 'ld', 'c', 'bin', 'lv', 'lvm') and not self.ptr(i, j)

    def ptr(self, i, j):
        x = i.x.get('at')
        return False if not x else x[j] == 'ptr'

    def bounded(self, st, t):
        return any(q.c.get(t, 0) < 0 and (all(v > 0 or x is t for x, v in q.c.items())) for q in ineqs(st.facts))

    # -- accesses ------------------------------------------------------------------
    def on_load(self, eng, st, inst, addr, size):
        n = C(size) if size is not None else eng.val(st, inst.ops[2]) if len(inst.ops) > 2 else None
        self.access(eng, st, inst, addr, n, 'read')

    def on_store(self, eng, st, inst, addr, val, size):
        if inst.op == 'store' and isinstance(val, Term) and size == 8:
            r = self.off(st, val)
            if r is not None and root_of(addr).op == 'arg':
                a = root_of(addr)
                k = a.a[0]
                f = eng.root
                kk = position(f)
                if isinstance(k, int) and kk is not None and k < len(f.args) and k != kk + 1 and f.args[k]['dt'].replace(' ', '') == 'constchar**':
                    st.cl = dict(st.cl); st.cl['strs'] = st.cl['strs'] | {(r[0][0], inst.id)}
        self.access(eng, st, inst, addr, C(size) if size is not None else None, 'written', wr=True)

    def access(self, eng, st, inst, addr, n, what, wr=False):
        if not isinstance(addr, Term): return
        r = self.off(st, addr)
        if r is not None and not wr and isinstance(n, Term):
            (bp, bn), o = r
            d = lin(bn).add(o, -1).add(lin(n), -1)
            v = self.prove(st, d)
            self.note(st, inst, 'access', v, lambda: 'reads %s bytes at offset %s behind the position without a check that so many are left' % (lin(n).show(), o.show()))
            if o.k < 0 or any(c < 0 for c in o.c.values()):
                w = self.prove(st, o)
                self.note(st, inst, 'before', w, lambda: 'reads at offset %s, which may lie before the position' % o.show())
            return
        l = lin(addr)
        for t, c in l.c.items():
            if inputv(t):
                self.note(st, inst, 'index', bool(self.bounded(st, t)), lambda: 'an index taken from the input (%s) is used without comparing it with the size of what it indexes' % show(t))

    def on_shift(self, eng, st, inst, op, a, b):
        if not isinstance(b, Term) or b.op == 'c': return
        w = int(inst.ty[1:]) if inst.ty[1:].isdigit() else 64
        base = b
        while base.op in ('zext', 'trunc', 'sext'): base = base.a[0]
        if not (index_like(base) or inputv(base)): return
        lo, hi = st.facts.bounds(base) if hasattr(st.facts, 'bounds') else (None, None)
        self.note(st, inst, 'shift', True if hi is not None and hi < w else False, lambda: 'shifts by an amount that grows with the input and is not bounded by the width of %d bits' % w)

    # -- loops ---------------------------------------------------------------------
    def on_edge(self, eng, st, frame, block, k, newv, ctx):
        ps = [(pid, v) for pid, v in newv if isinstance(v, Term) and self.off(st, v) is not None]
        st.cl = dict(st.cl)
        if k == 0:
            st.cl['cand'] = frozenset(x for x in st.cl['cand'] if x[0] is not ctx and x[0] != ctx)
            for pid, v in ps:
                (bp, bn), o = self.off(st, v)
                for sid, s in newv:
                    if sid == pid or not isinstance(s, Term): continue
                    d = lin(bn).add(o, -1).add(lin(s), -1)
                    if not d.c and d.k == 0: st.cl['cand'] = st.cl['cand'] | {(ctx, block, pid, sid)}
            return
        vals = dict(newv)
        for c, bl, pid, sid in list(st.cl['cand']):
            if c != ctx: continue
            p, s = vals.get(pid), vals.get(sid)
            if not isinstance(p, Term) or not isinstance(s, Term): continue
            v, d = self.consistent(st, p, s)
            first = st.fr.fn.blocks[block][0]
            if v != 'unknown': self.note(st, first, 'loop', v, lambda: 'on each trip of the loop the position moves further than the remaining size shrinks')
            if v is not True: st.cl['cand'] = st.cl['cand'] - {(c, bl, pid, sid)}

    def on_header(self, eng, st, frame, block, k):
        ctx = frame.ctx + (('h', frame.fn.name, block),)
        if k == 0: return
        st.cl = dict(st.cl)
        for c, bl, pid, sid in st.cl['cand']:
            if c != ctx: continue
            p, s = frame.env.get(pid), frame.env.get(sid)
            if isinstance(p, Term) and isinstance(s, Term) and p.op == 'lv':
                st.cl['pairs'] = st.cl['pairs'] | {(p, s)}
                if s.op == 'lv': self.sizes.add(s)
        kk = position(eng.root)
        if kk is not None and len(st.frames) == 1:
            b, bs = mk('arg', kk + 1, eng.root.args[kk + 1]['n'] or 'arg%d' % (kk + 1)), mk('arg', kk, eng.root.args[kk]['n'] or 'arg%d' % kk)
            p, n = st.mem.get(b), st.mem.get(bs)
            if p is not None and n is not None and p[0].op == 'lvm' and n[0].op == 'lvm':
                st.cl['pairs'] = st.cl['pairs'] | {(p[0], n[0])}; self.sizes.add(n[0])
                st.facts.learn(tcmp('ge', n[0], ZERO), True)

    def terminated(self, st, base):
        """was some byte of the input behind this position found to be zero?"""
        for t in list(st.facts.iv) + [c.a[1] for c in st.facts.rel if c.op == 'cmp'] :
            x = t
            while x.op in ('zext', 'sext', 'trunc'): x = x.a[0]
            if contains(x, lambda y: y is base) and x.op not in ('+', '[]') and (st.facts.const(t) == 0 or st.facts.ev(tcmp('eq', t, ZERO)) is True): return True
        for c, v in st.facts.rel.items():
            if c.op == 'cmp' and contains(c, lambda y: y.op in ('call', 'ret') and y.a[0] in ('memchr', 'strnlen')): return True
        return False

    def on_ret(self, eng, st, inst, val):
        if len(st.frames) > 1: return
        if isinstance(val, Term) and st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        kk = position(eng.root)
        if kk is None: return
        f = eng.root
        b, bs = mk('arg', kk + 1, f.args[kk + 1]['n'] or 'arg%d' % (kk + 1)), mk('arg', kk, f.args[kk]['n'] or 'arg%d' % kk)
        p, s = eng.load(st, b, 8), eng.load(st, bs, 8)
        if isinstance(p, Term) and isinstance(s, Term): self.pair_obligation(eng, st, inst, p, s, 'returned', '%s returns' % f.name)
        for base, iid in st.cl['strs']:
            self.note(st, inst, 'string', bool(self.terminated(st, base)), lambda: 'hands out a string inside the input that was not found to be terminated')


def scalar_out(ty):
    """the C type behind an out pointer when it is a number or a handle, else None"""
    return ty.count('*') == 1 and (ty[:-1] in WIDTH or ty.endswith('_type_t*') or ty.startswith('ccs_') and ty.endswith('_t*'))


class Filled(Client):
    """what a reader releases on its way out was written on the path that leads there"""
    max_depth = 3

    def __init__(self, P): self.p = P; self.ob = {}; self.bad = {}

    def init(self, eng, st): return {'esc': frozenset(), 'fail': False}

    def key(self, st): return (st.cl['esc'], st.cl['fail'])

    def inline(self, eng, st, fn, args, inst):
        k = position(fn)
        if k is None: return fn.internal and weight(fn) < 60
        t = fn.args[0]['dt'].replace('const ', '').replace(' ', '')
        return k > 0 and not scalar_out(t) and weight(fn) < 600 and fn is not eng.root

    def on_store(self, eng, st, inst, addr, val, size):
        if isinstance(val, Term) and root_of(val).op == 'alloca':
            st.cl = dict(st.cl); st.cl['esc'] = st.cl['esc'] | {root_of(val)}
        self.use(eng, st, inst, addr, 'written through', addr=True)

    def on_load(self, eng, st, inst, addr, size): self.use(eng, st, inst, addr, 'read through', addr=True)

    def garbage(self, eng, st, t, addr=False):
        if not isinstance(t, Term): return False
        if addr:
            t = root_of(t)
        x = t
        while x.op in ('zext', 'sext', 'trunc', 'of', 'pi', 'ip'): x = x.a[0]
        if x.op == 'uninit': return root_of(x.a[0]) not in st.cl['esc']
        if x.op == 'ld' and isinstance(x.a[0], Term):
            h = root_of(x.a[0])
            if h.op == 'heap' and h.a[1] == 'malloc':
                if any(r[1] is h or root_of(r[1]) is h for r in st.regions): return False
                return not any(root_of(k) is h for k in st.mem)
        return False

    def use(self, eng, st, inst, t, what, addr=False):
        k = (st.fr.fn.name, inst.id, 'garbage')
        if self.garbage(eng, st, t, addr):
            self.ob[k] = False
            self.bad.setdefault(k, ('a pointer that was not written on this path is %s when reading fails' % what, st.fr.fn.loc(inst)))
        elif not addr: self.ob.setdefault(k, True)

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(None, None)]
        site = st.fr.ctx + ((st.fr.fn.name, i.id),)
        if nm in ('free', 'ccs_release_object', 'realloc') and args:
            self.use(eng, st, i, args[0], 'given to %s' % nm)
            return None
        if nm in ALLOC:
            h = mk('heap', site, nm)

            def ok(z):
                for k in [k for k in z.mem if root_of(k) is h]: del z.mem[k]
                z.regions = tuple(r for r in z.regions if root_of(r[1]) is not h)
                return z.facts.learn(tcmp('ne', h, ZERO), True)
            return [(h, ok), (ZERO, None)]
        if callee is None or self.inline(eng, st, callee, args, i): return None
        tys = [a['dt'].replace('const ', '').replace(' ', '') for a in callee.args]
        r = mk('ret', nm, site)
        early = {x.ops[1] for x in callee.blocks[0] if x.op == 'store'} if callee.blocks else set()

        def eff(z, good):
            if z.facts.learn(tcmp('lt', r, ZERO), not good) is False: return False
            for j, a in enumerate(args[:len(tys)]):
                if not isinstance(a, Term) or root_of(a).op not in ('alloca', 'heap'): continue
                if not good and scalar_out(tys[j]) and j not in early: continue
                if scalar_out(tys[j]): eng.store(z, a, mk('out', nm, site, j), WIDTH.get(tys[j][:-1], 4 if tys[j].endswith('_type_t*') else 8))
                elif tys[j].endswith('*'):
                    eng.region(z, 'out', a, None, (nm, site, j))
                    z.cl = dict(z.cl); z.cl['esc'] = z.cl['esc'] | {root_of(a)}
        if i.ty != 'i32': return None
        return [(r, lambda z: eff(z, True)), (r, lambda z: eff(z, False))]


def one(f):
    P = ccs._W['prog']
    w = Filled(P)
    we = Engine(P, w, max_steps=120000, max_states=3000); we.run(f)
    c = Reader(); c.p = P
    e = Engine(P, c, max_steps=250000, max_states=5000)
    k = position(f)

    def setup(st):
        if k is None: return
        b, bs = mk('arg', k + 1, f.args[k + 1]['n'] or 'arg%d' % (k + 1)), mk('arg', k, f.args[k]['n'] or 'arg%d' % k)
        c.fresh(e, st, bs, b, ('entry',))
    e.run(f, setup=setup)
    c.ob.update(w.ob); c.bad.update(w.bad)
    return c.ob, c.bad, e.incomplete


def check(ctx):
    P = ccs.load(ctx.repo)
    ccs._W.update(prog=P, model=None)
    fs = []
    for f in P.unique_funcs():
        if position(f) is not None:
            if peeks(P, f) == 'helper': ctx.count('helpers'); continue
            fs.append(f); ctx.count('readers'); continue
        for b in f.blocks:
            if any(i.op == 'call' and isinstance(i.x['c'], dict) and (i.x['c'].get('v') == 'read' or (P.resolve(f.tu, i.x['c'].get('v')) is not None and position(P.resolve(f.tu, i.x['c']['v'])) is not None)) for i in b):
                fs.append(f); ctx.count('entry_functions'); break
    und = []
    for f, (ob, bad, inc) in zip(fs, pmap(one, fs)):
        ctx.count('functions')
        ctx.count('obligations', len(ob)); ctx.count('proved', sum(1 for v in ob.values() if v is True)); ctx.count('undecided', sum(1 for v in ob.values() if v is None))
        for k, v in ob.items():
            ctx.count(k[2])
            if v is None: und.append('%s:%s' % (k[0], k[2]))
        if inc: ctx.count('incomplete')
        for k, (txt, loc) in bad.items(): ctx.finding('%s:%s' % (k[0], k[2]), '%s %s' % (k[0], txt), loc)
    ctx.cov['undecided_obligations'] = und[:60]
    ctx.need('readers', 60); ctx.need('proved', 200)


if __name__ == '__main__':
    main('C03', check, 'reads, lengths, counts and indexes of readers are linear expressions over the remaining size; each must be covered by a comparison on the path', [])
