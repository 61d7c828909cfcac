import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, pmap, slot_of, defs_of
from lin import *

ALLOC = ('malloc', 'calloc', 'realloc')


def weight(f): return sum(len(b) for b in f.blocks)


def carves(f, v):
    """is this pointer computed by moving over whole parts, not by taking the address of a member or element?"""
    d = defs_of(f); n = len(f.args)
    while isinstance(v, int) and v >= n:
        g = d.get(v)
        if g is None: return False
        if g.op == 'bitcast': v = g.ops[0]; continue
        if g.op == 'inttoptr': return True
        if g.op != 'getelementptr' or any('s' in x for x in g.x['steps']): return False
        return len(g.ops) == 1 or g.x.get('et') == 'i8'
    return False


class Blocks(Client):
    max_depth = 5

    def __init__(self): self.acc = {}; self.sizes = {}; self.dec = self.und = 0; self.bad = {}

    def init(self, eng, st): return {'sz': frozenset(), 'cv': frozenset(), 'ac': frozenset()}

    def key(self, st): return (st.cl['sz'], st.cl['cv'], st.cl['ac'])

    def inline(self, eng, st, fn, args, inst):
        if fn.internal: return weight(fn) < 2500
        if weight(fn) < 80: return True
        return weight(fn) < 900 and any(a is not None and self.block(st, lin(a)) is not None for a in args if isinstance(a, Term))

    def block(self, st, l):
        hs = [t for t in l.c if t.op == 'heap']
        return hs[0] if len(hs) == 1 and l.c[hs[0]] == 1 else None

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm == 'strlen': return [(mk('strlen', args[0]), lambda s: s.facts.learn(tcmp('ge', mk('strlen', args[0]), ZERO), True))]
        if nm in ALLOC:
            site = st.fr.ctx + ((st.fr.fn.name, i.id),)
            h = mk('heap', site, nm)
            s = lin(args[0]) if nm == 'malloc' else lin(args[1])
            if nm == 'calloc':
                x = lin(args[0])
                s = s.mul(x.k) if x.const() is not None else x.mul(s.k) if s.const() is not None else None
            inl = any(st.fr.block in st.fr.fn.cfg()['loops'].get(hd, ()) for hd in st.fr.loops)

            def eff(z):
                z.cl = dict(z.cl)
                z.cl['sz'] = frozenset(x for x in z.cl['sz'] if x[0] is not h)
                z.cl['cv'] = frozenset(x for x in z.cl['cv'] if x[0] is not h)
                if s is not None: z.cl['sz'] = z.cl['sz'] | {(h, s.k, tuple(sorted(s.c.items(), key=lambda y: y[0].n)), i.x.get('l', 0))}
                return z.facts.learn(tcmp('ne', h, ZERO), True)
            return [(h, eff)]
        if nm in ('strcpy', '__strcpy_chk'):
            self.access(eng, st, i, None, args[0], Lin(1).add(lin(mk('strlen', args[1]))), 'strcpy')
            return [(args[0], None)]
        if nm in ('free',): return None
        z = self.decodes(callee) or 9
        if z <= 8:
            self.access(eng, st, i, None, args[0], Lin(z), 'access')
            site = st.fr.ctx + ((st.fr.fn.name, i.id),)
            r, o = mk('ret', nm, site), mk('out', 'deserialize ' + nm, site, 0)

            def eff(s):
                s.facts.learn(tcmp('lt', r, ZERO), False)
                eng.store(s, args[0], o, z)
                return s.facts.learn(tcmp('ge', o, ZERO), True)
            return [(r, eff)]
        # arrays handed to other functions together with their length
        if callee is not None and not (len(st.frames) <= self.max_depth and not any(x.fn is callee for x in st.frames) and self.inline(eng, st, callee, args, i)):
            self.handed(eng, st, i, callee, args)
        if callee is not None and callee.ret_type == 'ccs_result_t' and not self.inline(eng, st, callee, args, i):
            site = st.fr.ctx + ((st.fr.fn.name, i.id),)
            r = mk('ret', nm, site)
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, site, k))
            return [(r, lambda s: s.facts.learn(tcmp('lt', r, ZERO), False))]
        return None

    def decodes(self, f):
        """the width of the scalar a codec writes to its first argument, or None"""
        if f is None or len(f.args) != 3 or f.args[1]['dt'].replace(' ', '') != 'size_t*' or f.args[2]['dt'].replace(' ', '') != 'constchar**' or allocates(f): return None
        d = f.args[0]['dt']
        return size_of(self.p, d[:-1].strip()) if d.endswith('*') and d.count('*') == 1 else None

    def handed(self, eng, st, i, callee, args):
        for k in range(1, min(len(args), len(callee.args))):
            a, d = args[k], callee.args[k]['dt'].replace('const ', '')
            p = callee.args[k - 1]
            if not isinstance(a, Term) or p['dt'] != 'size_t' or not d.endswith('*'): continue
            z = size_of(self.p, d[:-1].strip())
            if z: self.access(eng, st, i, None, a, lin(args[k - 1]).mul(z), callee.name)

    def on_load(self, eng, st, inst, addr, size):
        if size != 1: self.touch(eng, st, inst, addr, size, 1)

    def on_store(self, eng, st, inst, addr, val, size):
        self.touch(eng, st, inst, addr, size, 0)
        if inst.op == 'store' and size == 8 and isinstance(val, Term):
            self.counted(eng, st, inst, addr, val)
            l = lin(val)
            h = self.block(st, l)
            if h is not None and self.block(st, lin(addr)) is not None and carves(st.fr.fn, inst.ops[0]):
                st.cl = dict(st.cl)
                o = l.add(Lin(0, {h: 1}), -1)
                st.cl['cv'] = st.cl['cv'] | {(h, o.k, tuple(sorted(o.c.items(), key=lambda y: y[0].n)))}
                sz = next((Lin(k, dict(c)) for x, k, c, l in st.cl['sz'] if x is h), None)
                for x, ok, oc, ek, ec, fn, ii, ln in st.cl['ac'] if sz is not None and not any(t not in sz.c for t in o.c) else ():
                    if x is not h: continue
                    po, en = Lin(ok, dict(oc)), Lin(ek, dict(ec)); g = o.add(po, -1)
                    if not (g.k > 0 or g.c) or not (g.k >= 0 and all(v >= 0 for v in g.c.values())): continue
                    self.one((st.fr.fn.name, inst.id, 'part', ok, ek, fn, ii), o.add(en, -1), ineqs(st.facts), st, inst, h, lambda: 'the part at byte %s, used up to byte %s in line %s, reaches into the part at byte %s of the block from line %s' % (
                        po.show(), en.show(), ln, o.show(), next(l for x, k, c, l in st.cl['sz'] if x is h)))

    def counted(self, eng, st, inst, addr, val):
        """a member num_X beside a member X that points into a block: the block holds num_X elements from there on"""
        g = defs_of(st.fr.fn).get(inst.ops[1]) if isinstance(inst.ops[1], int) else None
        if g is None or g.op != 'getelementptr' or not g.x['steps'] or 's' not in g.x['steps'][-1]: return
        s = g.x['steps'][-1]; sn = s['s'].replace('%', '')
        ms = (self.p.di.get(sn) or {}).get('m') or []
        me = next((m for m in ms if m['o'] == s['o']), None)
        if me is None: return
        cnt = me['n'].startswith('num_')
        other = me['n'][4:] if cnt else 'num_' + me['n']
        ot = next((m for m in ms if m['n'] == other), None)
        if ot is None or ot['z'] != 8: return
        ov = eng.load(st, padd(addr, ot['o'] - s['o']), 8)
        pv, nv, pt = (ov, val, ot) if cnt else (val, ov, me)
        if not isinstance(pv, Term) or not isinstance(nv, Term) or not pt['t'].rstrip().endswith('*'): return
        z = size_of(self.p, pt['t'].rstrip()[:-1].replace('const ', '').strip())
        a = lin(pv); h = self.block(st, a)
        if not z or h is None: return
        sz = next((Lin(k, dict(c)) for x, k, c, l in st.cl['sz'] if x is h), None)
        n = lin(nv)
        if sz is None or any(t.op == 'heap' for t in n.c): return
        end = a.add(Lin(0, {h: 1}), -1).add(n.mul(z))
        self.one((st.fr.fn.name, inst.id, 'count'), sz.add(end, -1), ineqs(st.facts), st, inst, h, lambda: 'the block of %s bytes from line %s has no room for the %s elements that %s announces for %s up to byte %s' % (
            sz.show(), next(l for x, k, c, l in st.cl['sz'] if x is h), n.show(), 'num_' + pt['n'], pt['n'], end.show()))

    def touch(self, eng, st, inst, addr, size, src):
        if size is None:
            n = eng.val(st, inst.ops[2]) if len(inst.ops) > 2 else None
            ln = lin(n) if n is not None else None
            base = inst.ops[1] if src else inst.ops[0]
        else:
            ln = Lin(size); base = inst.ops[0] if inst.op == 'load' else inst.ops[1] if inst.op == 'store' else None
        if ln is not None: self.access(eng, st, inst, base, addr, ln, 'access')

    def start(self, eng, st, ptr):
        """term of the pointer an element access starts from"""
        d = defs_of(st.fr.fn); n = len(st.fr.fn.args); v = ptr
        while isinstance(v, int) and v >= n:
            g = d.get(v)
            if g is None or g.op not in ('getelementptr', 'bitcast'): break
            v = g.ops[0]
        return eng.val(st, v) if v is not None else None

    def access(self, eng, st, inst, ptr, addr, ln, what):
        if not isinstance(addr, Term): return
        a = lin(addr); h = self.block(st, a)
        if h is None: return
        sz = next((Lin(k, dict(c)) for x, k, c, l in st.cl['sz'] if x is h), None)
        if sz is None: return
        off = a.add(Lin(0, {h: 1}), -1); end = off.add(ln)
        if any(v < 0 for v in off.c.values()): return
        ins = ineqs(st.facts)
        key = (st.fr.fn.name, inst.id, 'size')
        self.one(key, sz.add(end, -1), ins, st, inst, h, lambda: 'the block of %s bytes from line %s is %s up to byte %s' % (sz.show(), next(l for x, k, c, l in st.cl['sz'] if x is h), 'accessed' if what == 'access' else 'filled by %s' % what, end.show()))
        # parts: the array this access goes through must not reach into the next one
        b = self.start(eng, st, ptr) if ptr is not None else addr
        if b is None: return
        bl = lin(b)
        if self.block(st, bl) is not h: return
        o = bl.add(Lin(0, {h: 1}), -1)
        if any(index_like(t) for t in o.c):
            # the address of an element was handed on: it belongs to the part whose start it is counted from
            o2 = Lin(o.k, {t: v for t, v in o.c.items() if not index_like(t)})
            if any(x is h and (k, dict(c)) == (o2.k, o2.c) for x, k, c in st.cl['cv']): o = o2
        if not (any(index_like(t) for t in o.c)) and (o.c or o.k):
            m = bound(end.mul(-1), ins)
            if m is not None and not any(index_like(t) for t in m.c):
                m = m.mul(-1); f = lambda y: tuple(sorted(y.c.items(), key=lambda z: z[0].n))
                if all(t in sz.c for t in m.c) and all(t in sz.c for t in o.c):
                    st.cl = dict(st.cl)
                    st.cl['ac'] = frozenset(z for z in st.cl['ac'] if not (z[0] is h and (z[1], z[2]) == (o.k, f(o)) and z[4] == f(m) and z[3] <= m.k)) | {(h, o.k, f(o), m.k, f(m), st.fr.fn.name, inst.id, inst.x.get('l', 0))}
        for x, k, c in st.cl['cv']:
            if x is not h: continue
            p = Lin(k, dict(c)); g = p.add(o, -1)
            if any(t not in sz.c for t in p.c): continue
            if not (g.k > 0 or g.c) or not (g.k >= 0 and all(v >= 0 for v in g.c.values())): continue
            if not o.c and not g.c and (o.k, ()) not in {(kk, cc) for xx, kk, cc in st.cl['cv'] if xx is h} and o.k: continue
            if any(index_like(t) for t in p.c) or any(index_like(t) for t in o.c): continue
            self.one((st.fr.fn.name, inst.id, 'part', k, tuple(t.n for t, v in c)), p.add(end, -1), ins, st, inst, h, lambda: 'the part at byte %s of the block from line %s is %s up to byte %s, into the part at byte %s' % (
                o.show(), next(l for x, k, c, l in st.cl['sz'] if x is h), 'accessed' if what == 'access' else 'filled by %s' % what, end.show(), p.show()))

    def one(self, key, d, ins, st, inst, h, text):
        for t in list(d.c) if key[2] == 'count' else ():
            v = st.facts.const(t)
            if v is not None: d = Lin(d.k + d.c[t] * v, {x: y for x, y in d.c.items() if x is not t})
        r, w = judge(d, ins)
        old = self.acc.get(key)
        if r is False: self.acc[key] = False; self.bad.setdefault(key, (text() + (' (with %s)' % ', '.join('%s = %d' % x for x in w.items()) if w else ''), st.fr.fn.loc(inst)))
        elif old is not False: self.acc[key] = None if (r is None or old is None and key in self.acc) else True


def size_of(P, t):
    if t in ('size_t', 'int64_t', 'uint64_t', 'ccs_int_t', 'ccs_float_t', 'double'): return 8
    if t.endswith('*'): return 8
    if t in ('ccs_datum_t',): return (P.di.get('struct.ccs_datum_s') or {}).get('size')
    if t in ('ccs_interval_t',): return (P.di.get('struct.ccs_interval_s') or {}).get('size')
    if t in ('ccs_numeric_type_t', 'int32_t', 'uint32_t', 'ccs_bool_t'): return 4
    if t.startswith('ccs_') and t.endswith('_t') and ('struct._' + t[:-2] + '_s') in P.di and not t.endswith('_type_t'): return 8
    return None


def allocates(f):
    return any(i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('v') in ALLOC for b in f.blocks for i in b)


def one(f):
    P = ccs._W['prog']
    c = Blocks(); c.p = P
    e = Engine(P, c, max_steps=250000, max_states=4000); e.run(f)
    return c.acc, c.bad, e.incomplete


def check(ctx):
    P = ccs.load(ctx.repo)
    ccs._W.update(prog=P, model=None)
    fs = [f for f in P.unique_funcs() if allocates(f)]
    und = []
    for f, (acc, bad, inc) in zip(fs, pmap(one, fs)):
        ctx.count('functions')
        ctx.count('obligations', len(acc)); ctx.count('proved', sum(1 for v in acc.values() if v is True)); ctx.count('undecided', sum(1 for v in acc.values() if v is None))
        if inc: ctx.count('incomplete')
        und += ['%s %s' % (f.name, k[:3]) for k, v in acc.items() if v is None]
        for k, (txt, loc) in bad.items(): ctx.finding('%s:%s:%s' % (k[0], k[2], txt.split(' bytes')[0][:40]), txt, loc)
    ctx.cov['undecided_accesses'] = und[:60]
    ctx.need('functions', 40); ctx.need('proved', 300)


if __name__ == '__main__':
    main('C13', check, 'sizes of allocated blocks and the offsets accessed in them are linear expressions over counts and string lengths, derived path-sensitively', [])
