import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, pmap

MEMCMP = ('memcmp', 'bcmp', 'strcmp', 'strncmp')


def weight(f): return sum(len(b) for b in f.blocks)


class Path:
    """names of memory locations relative to the object: '@' is its data"""
    def __init__(self, A, B): self.A = A; self.B = B

    def name(self, t, n=0):
        """(operand, name, offset) of a pointer"""
        if not isinstance(t, Term) or n > 30: return None
        if t is self.A: return 'A', '@', 0
        if t is self.B: return 'B', '@', 0
        if t.op == '+':
            r = self.name(t.a[0], n + 1)
            if r and isinstance(t.a[0], Term) and t.a[0].op == '[]' and t.a[0].a[2]: return r[0], r[1], (r[2] + t.a[1]) % t.a[0].a[2]
            return r and (r[0], r[1], r[2] + t.a[1])
        if t.op == '[]':
            r = self.name(t.a[0], n + 1)
            return r and (r[0], r[1], r[2])
        if t.op == 'bin' and t.a[0] == 'add':
            return self.name(t.a[1], n + 1) or self.name(t.a[2], n + 1)
        if t.op in ('ld', 'zext', 'sext', 'trunc'):
            if t.op != 'ld': return self.name(t.a[0], n + 1)
            r = self.name(t.a[0], n + 1)
            return r and (r[0], '*(%s+%d)' % (r[1], r[2]), 0)
        return None

    def cells(self, addr, size):
        r = self.name(addr)
        if r is None: return None, ()
        w, b, o = r
        return w, tuple((b, c) for c in range(o - o % 4, o + max(size or 1, 1), 4))


def resolve(v, fx):
    while isinstance(v, Term) and v.op == 'sel':
        e = fx.ev(v.a[0])
        if e is None: break
        v = v.a[1] if e else v.a[2]
    return v


def narrow(x):
    while isinstance(x, Term) and x.op in ('zext', 'sext', 'trunc'):
        if x.op == 'trunc' and x.a[1] in ('i32', 'i16', 'i8', 'i1'): return True
        x = x.a[0]
    return False


def bare(x):
    while isinstance(x, Term) and x.op in ('zext', 'sext', 'trunc'): x = x.a[0]
    return x


class Base(Client):
    max_depth = 6

    def __init__(self, P, A, B, tags, voff): self.p = P; self.path = Path(A, B); self.tags = tags; self.vals = '*(@+%d)' % voff

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) < 1500


    def typed(self, st, addr, size):
        # the elements have the types under consideration
        r = self.path.name(addr)
        if r and r[1] == self.vals and r[2] % 16 == 8 and size == 4 and self.tags and self.tags.get(r[0]) is not None: st.mem[addr] = (C(self.tags[r[0]]), 4)


class Hash(Base):
    def __init__(self, *a):
        Base.__init__(self, *a); self.reads = {}; self.bytes = set(); self.subs = {}; self.ptrs = set()

    def init(self, eng, st): return frozenset()

    def on_load(self, eng, st, inst, addr, size):
        self.typed(st, addr, size)
        w, cs = self.path.cells(addr, size)
        r = self.path.name(addr)
        if r and st.facts.const(mk('ld', padd(addr, -(r[2] % 8)))) is not None: cs = ()  # its value is known: nothing depends on it
        for c in cs:
            self.reads.setdefault(c, (st.fr.fn.loc(inst)))
            if size and size < 8: self.bytes.add(c)
        if not cs and size == 1:
            # the bytes of a variable that holds the handle or the address of its data
            m = st.mem.get(root_of(addr))
            if m is not None and m[1] == 8 and isinstance(m[0], Term) and (m[0] is self.path.A or m[0].op == 'arg' and m[0].a[0] == 0):
                self.reads.setdefault(('the address of the object', 0), st.fr.fn.loc(inst))
        # every pointer on the way is read to get there, not for its own sake
        t = addr
        while isinstance(t, Term):
            t = root_of(t)
            if t.op == 'bin': t = t.a[1]; continue
            if t.op == 'ld' and isinstance(t.a[0], Term):
                r = self.path.name(t.a[0])
                if r: self.ptrs |= {(r[1], r[2]), (r[1], r[2] + 4)}
                t = t.a[0]
            else: break

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm == 'strlen':
            return [(mk('ret', nm, args[0]), None)]
        if callee is not None and not self.inline(eng, st, callee, args, i) and nm and nm.endswith('_hash') and args:
            a = args[0]
            r = self.path.name(a.a[0]) if isinstance(a, Term) and a.op == 'ld' else None
            if r: self.subs.setdefault((r[1], r[2]), st.fr.fn.loc(i)); self.ptrs |= {(r[1], r[2]), (r[1], r[2] + 4)}
        return None


class Cmp(Base):
    def __init__(self, *a):
        Base.__init__(self, *a); self.ends = []; self.root = None; self.mixed = {}; self.signs = {}

    def init(self, eng, st): return {'calls': frozenset(), 'seen': frozenset(), 'rel': frozenset()}

    def key(self, st): return (st.cl['calls'], st.cl['seen'], self.plain(st), self.root and st.mem.get(self.root), st.cl['rel'], frozenset((r, st.facts.ev(tcmp('eq', r, ZERO))) for r, cs, w in st.cl['calls']))

    def on_load(self, eng, st, inst, addr, size):
        self.typed(st, addr, size)
        w, cs = self.path.cells(addr, size)
        if cs and not set(cs) <= st.cl['seen']: st.cl = dict(st.cl); st.cl['seen'] = st.cl['seen'] | set(cs)

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        site = st.fr.ctx + ((st.fr.fn.name, i.id),)
        if nm in MEMCMP:
            n = st.facts.const(args[2]) if nm in ('memcmp', 'bcmp') else 1
            wa, ca = self.path.cells(args[0], n or 1); wb, cb = self.path.cells(args[1], n or 1)
            r = mk('ret', nm, tuple(args[:2]))
            if wa and wb:
                if wa == wb or ca != cb: self.mix(st, i, '%s compares different parts of the two operands' % nm)
                self.add(st, (r, tuple(('cell',) + c for c in ca) if n is not None and nm in ('memcmp', 'bcmp') else (('all', ca[0][0]),), wa))
                return [(r, None)]
            return None
        if callee is not None and not self.inline(eng, st, callee, args, i) and nm and nm.endswith('_cmp') and len(args) >= 3:
            ps = [self.path.name(a.a[0]) if isinstance(a, Term) and a.op == 'ld' else None for a in args[:2]]
            if ps[0] and ps[1]:
                if ps[0][1:] != ps[1][1:] or ps[0][0] == ps[1][0]: self.mix(st, i, '%s is called with different parts of the two operands' % nm)
                r = mk('out', nm, site, 2)
                rv = mk('ret', nm, site)

                def eff(z):
                    eng.store(z, args[2], r, 4)
                    self.add(z, (r, (('sub',) + ps[0][1:],), ps[0][0]))
                    return z.facts.learn(tcmp('ge', rv, ZERO), True)
                return [(rv, eff), (rv, lambda z: z.facts.learn(tcmp('lt', rv, ZERO), True))]
        return None

    def add(self, st, x):
        if x not in st.cl['calls']: st.cl = dict(st.cl); st.cl['calls'] = st.cl['calls'] | {x}

    def mix(self, st, i, t): self.mixed.setdefault((st.fr.fn.name, i.line), (t, st.fr.fn.loc(i)))

    def plain(self, st):
        out = []
        for c, tv in st.facts.rel.items():
            if c.op != 'cmp': continue
            x, y = bare(c.a[1]), bare(c.a[2])
            if x.op == 'ld' and y.op == 'ld':
                px, py = self.path.name(x.a[0]), self.path.name(y.a[0])
                if px and py and px[0] != py[0]: out.append((c, tv))
        return frozenset(out)

    def cells_in(self, t, out, n=0, small=False):
        if not isinstance(t, Term) or n > 12: return
        small = small or t.op == 'trunc' and t.a[1] in ('i32', 'i16', 'i8', 'i1')
        if t.op == 'ld':
            r = self.path.name(t.a[0])
            if r: out.setdefault(r[0], set()).update({r[1:]} if small else {r[1:], (r[1], r[2] + 4)})
            return
        for x in t.a:
            if isinstance(x, Term): self.cells_in(x, out, n + 1, small)

    def equal(self, st):
        """locations for which this path found the two operands equal"""
        out = set()
        f = st.facts
        cands = {}
        for c in f.rel:
            if c.op == 'cmp': cands[(c.a[1], c.a[2])] = 1
        for t in list(f.iv):
            pass
        for (a, b) in cands:
            x, y = a, b
            while x.op in ('zext', 'sext', 'trunc'): x = x.a[0]
            while y.op in ('zext', 'sext', 'trunc'): y = y.a[0]
            if x.op != 'ld' or y.op != 'ld': continue
            px, py = self.path.name(x.a[0]), self.path.name(y.a[0])
            if not px or not py or px[0] == py[0]: continue
            e = f.ev(tcmp('eq', a, b)) is True or f.ev(tcmp('lt', a, b)) is False and f.ev(tcmp('lt', b, a)) is False
            if e and px[1:] == py[1:]: out |= {px[1:]} if narrow(a) or narrow(b) else {px[1:], (px[1], px[2] + 4)}
        return out

    def on_branch(self, eng, st, inst, cond, taken):
        c = cond
        f = eng.root
        out = self.root = mk('arg', 2, f.args[2]['n'] or 'arg2')
        m = st.mem.get(out)
        if m is not None and m[0].op != 'c':
            v = resolve(m[0], st.facts)
            cv = st.facts.const(v)
            if cv is not None: st.mem[out] = (C(cv), m[1])
        if not isinstance(c, Term): return
        x, y = (bare(c.a[1]), bare(c.a[2])) if c.op == 'cmp' else (None, None)
        if not isinstance(x, Term) or not isinstance(y, Term) or x.op != 'ld' or y.op != 'ld':
            # a condition over both operands of a form not understood: taken as a comparison
            cs = {}
            self.cells_in(c, cs)
            both = cs.get('A', set()) & cs.get('B', set())
            if both: st.cl = dict(st.cl); st.cl['rel'] = st.cl['rel'] | {('cell',) + q for q in both}
            return
        px, py = self.path.name(x.a[0]), self.path.name(y.a[0])
        if px and py and px[0] != py[0] and px[1:] != py[1:]: self.mix(st, inst, 'compares %s+%d of one operand with %s+%d of the other' % (px[1:] + py[1:]))

    def on_ret(self, eng, st, inst, val):
        if len(st.frames) > 1: return
        if isinstance(val, Term) and st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        f = eng.root
        v = eng.load(st, mk('arg', 2, f.args[2]['n'] or 'arg2'), 4)
        fx = st.facts
        v = resolve(v, fx)
        cv = fx.const(v)
        if fx.ev(tcmp('eq', v, ZERO)) is False and cv is None: return
        if self.path.A is not self.path.B and fx.ev(tcmp('eq', self.path.A, self.path.B)) is True: return
        if len(f.args) > 1:
            h = [mk('arg', k, f.args[k]['n'] or 'arg%d' % k) for k in (0, 1)]
            if fx.ev(tcmp('eq', h[0], h[1])) is True: return
        if cv is not None and cv != 0:
            # which ordering led here: the last location found different
            for c, tv in fx.rel.items():
                if c.op != 'cmp': continue
                p, a, b = c.a
                if not tv: p = INV[p]
                if p not in ('lt', 'gt'): continue
                x, y = a, b
                while x.op in ('zext', 'sext', 'trunc'): x = x.a[0]
                while y.op in ('zext', 'sext', 'trunc'): y = y.a[0]
                if x.op != 'ld' or y.op != 'ld': continue
                px, py = self.path.name(x.a[0]), self.path.name(y.a[0])
                if not px or not py or px[0] == py[0] or px[1:] != py[1:]: continue
                d = p if px[0] == 'A' else {'lt': 'gt', 'gt': 'lt'}[p]
                self.signs.setdefault((px[1:], d), set()).add((cv > 0) - (cv < 0))
            return
        eq = {('cell',) + c for c in self.equal(st)} | st.cl['rel']
        for r, cs, w in st.cl['calls']:
            if v is r or fx.ev(tcmp('eq', mk('bin', 'sub', ZERO, r), ZERO)) is True or fx.ev(tcmp('eq', r, ZERO)) is True: eq |= set(cs)
        if cv == 0 or any(v is r for r, cs, w in st.cl['calls']) :
            # a count that may be one on this path
            zero = True
            for c in st.cl['seen']:
                if c[0] == '@':
                    for r in (self.path.A, self.path.B):
                        b = fx.bounds(mk('ld', padd(r, c[1])))
                        if b and b[1] is not None and 1 <= b[1] <= 16: zero = False
            self.ends.append((frozenset(eq), st.cl['seen'], zero, f.loc(inst)))


def roots(P, f, slot):
    """data of the first and of the second operand"""
    args = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]
    off = ccs._W['off']
    A = args[0] if slot else mk('ld', padd(args[0], off))
    B = mk('ld', padd(args[1], off)) if len(args) > 1 else A
    return args, A, B


def one(job):
    name, hf, cf, slot, tag, other = job
    P = ccs._W['prog']; voff = ccs._W['voff']
    args, A, _ = roots(P, hf, slot)
    h = Hash(P, A, None, slot and {'A': tag}, voff)
    e = Engine(P, h, max_steps=600000, max_states=20000); e.join_limit = 4

    e.run(hf)
    args, A, B = roots(P, cf, slot)
    c = Cmp(P, A, B, slot and {'A': tag, 'B': other}, voff)
    e2 = Engine(P, c, max_steps=600000, max_states=20000); e2.join_limit = 40
    e2.run(cf)
    return h.reads, h.subs, h.ptrs - h.bytes, c.ends, c.mixed, {k: sorted(v) for k, v in c.signs.items()}, e.incomplete or e2.incomplete


def covered(x, eq):
    if x in eq: return True
    b = x[1]
    # the same memory, or memory compared as a whole
    while b.startswith('*(') and b.endswith(')') and '+' in b:
        if ('all', b) in eq: return True
        p, o = b[2:-1].rsplit('+', 1)
        if ('cell', p, int(o)) in eq: return True
        b = p
    return False


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    d = P.di.get('struct._ccs_binding_s') or {}
    off = next((m['o'] for m in d.get('m', ()) if m['n'] == 'data'), None)
    d = P.di.get('struct._ccs_binding_data_s') or {}
    voff = next((m['o'] for m in d.get('m', ()) if m['n'] == 'values'), None)
    if off is None or voff is None: raise CheckError('layout of bindings not found')
    tags = {k[len('CCS_DATA_TYPE_'):]: v for k, v in P.enum('ccs_data_type_e', 'ccs_data_type_t').items() if k.startswith('CCS_DATA_TYPE_') and 'FORCE' not in k and not k.endswith('_MAX')}
    ccs._W.update(prog=P, model=M, off=off, voff=voff)
    pairs = {}
    for (t, n), g in P.globals.items():
        fns = {}
        for o, c in P.flat_init(g):
            if c.get('k') != 'fn': continue
            for s, oo in M.inner(g['t'], o):
                fn = M.slot_name((s.lstrip('%'), oo)).split('.')[-1]
                if fn in ('hash', 'cmp'): fns[fn] = P.stat.get((g['tu'], c['v'])) or P.ext.get(c['v'])
        if fns.get('hash') and fns.get('cmp'): pairs['%s:%s' % (t, n)] = (fns['hash'], fns['cmp'], True)
    for n in sorted(P.public):
        if n.endswith('_hash') and n[:-5] + '_cmp' in P.public:
            h, c = P.ext[n], P.ext[n[:-5] + '_cmp']
            ind = any(i.op == 'call' and not (isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn') for f in (h, c) for b in f.blocks for i in b)
            if not ind and len(c.args) == 3 and c.args[0]['dt'].endswith('_t'): pairs[n[4:-5]] = (h, c, False)
    jobs = []
    for n, (h, c, s) in sorted(pairs.items()):
        ctx.count('pairs')
        for tn, tv in (sorted(tags.items()) if s else [('-', None)]): 
            jobs.append((n, h, c, s, tv, tv))
            for tn2, tv2 in (sorted(tags.items()) if s else ()):
                if tv2 != tv: jobs.append((n, h, c, s, tv, tv2))
    inv = {v: k for k, v in tags.items()}
    inc = []
    for (n, h, c, s, tv, tv2), (reads, subs, ptrs, ends, mixed, signs, i) in zip(jobs, pmap(one, jobs)):
        ctx.count('runs')
        if i: inc.append('%s/%s' % (n, inv.get(tv)))
        hs = [(('cell',) + x, l) for x, l in reads.items() if x not in ptrs] + [(('sub',) + x, l) for x, l in subs.items()]
        ctx.count('hashed_locations', len(hs)); ctx.count('equal_paths', len(ends))
        for k, (t, l) in mixed.items(): ctx.finding('%s:mixed' % c.name, '%s %s' % (c.name, t), l)
        for (loc, dr), v in signs.items():
            o = signs.get((loc, 'gt' if dr == 'lt' else 'lt'))
            ctx.count('ordered_locations')
            if o is not None and dr == 'lt' and len(v) == 1 and len(o) == 1 and v == o:
                ctx.finding('%s:sign' % c.name, '%s answers %s both when %s+%d of the first operand is smaller and when it is larger' % (c.name, v[0], *loc), c.loc(c.blocks[0][0]))
        cell = '*(@+%d)' % voff
        for eq, seen, zero, l in ends:
            if tv != tv2:
                ctx.count('obligations')
                if (cell, 8) in reads and any(b == cell for b, o in seen):
                    ctx.finding('%s:tag:%s:%s' % (c.name, inv.get(tv), inv.get(tv2)), '%s finds two objects equal whose values are of different types (%s, %s); %s includes the type in the hash' % (c.name, inv.get(tv), inv.get(tv2), h.name), l)
                continue
            for x, hl in hs:
                ctx.count('obligations')
                if covered(x, eq) or (tv is not None and x[1:] == (cell, 8)): continue
                # a part of an array that this path did not visit (no elements)
                if x[0] == 'cell' and x[1].startswith('*') and not any(b == x[1] for b, o in seen) and zero: continue
                key = '%s:%s:%s' % (c.name, x[1], x[2])
                ctx.finding(key, '%s finds two objects equal without comparing %s+%d%s, which %s includes in the hash (values of type %s)' % (c.name, x[1], x[2], ' (an object)' if x[0] == 'sub' else '', h.name, inv.get(tv, '-')), l)
    ctx.cov['incomplete'] = inc
    ctx.need('pairs', 4); ctx.need('obligations', 100); ctx.need('equal_paths', 10)


if __name__ == '__main__':
    main('C10', check, 'on every path on which a comparison answers "equal", each location the hash reads was found equal in both operands', [])
