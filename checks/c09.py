import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, ALLOC, pmap, slot_of


def query(f):
    """(capacity, [arrays], count_ret) argument positions of an array query, or None"""
    a = f.args
    if f.ret_type != 'ccs_result_t' or len(a) < 3 or a[-1]['dt'] != 'size_t *': return None
    k = len(a) - 2; arrs = []
    while k >= 0 and a[k]['t'] == 'ptr' and a[k]['dt'].endswith('*') and not a[k]['dt'].startswith('const '): arrs.insert(0, k); k -= 1
    if k < 0 or not arrs or a[k]['dt'] != 'size_t': return None
    nm = lambda x: a[x]['n'] or ''
    # by the names of the interface: a count goes out through *_ret; plain outputs next to an index are not arrays
    if not nm(len(a) - 1).endswith('_ret') or any(nm(x).endswith('_ret') for x in arrs): return None
    return k, arrs, len(a) - 1


class Q(Client):
    """one run under fixed assumptions about which of the three are null"""
    max_depth = 5

    def __init__(self, prog, model, fn, q, null, counts=None):
        self.p = prog; self.m = model; self.fn = fn
        self.cap = mk('arg', q[0], fn.args[q[0]]['n'] or 'arg%d' % q[0])
        self.arrs = [mk('arg', k, fn.args[k]['n'] or 'arg%d' % k) for k in q[1]]
        self.ret = mk('arg', q[2], fn.args[q[2]]['n'] or 'arg%d' % q[2])
        self.null = null                     # terms assumed null in this run
        self.counts = counts                 # count terms collected in the first run, or None
        self.seen = set()                    # counts collected in this run
        self.src = {}; self.finds = []; self.ok = 0; self.stores = 0; self.succ = 0; self.unclear = set()

    def init(self, eng, st): return {'tail': frozenset(), 'del': frozenset(), 'wr': frozenset(), 'st': frozenset()}
    def key(self, st): return tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in st.cl.items()))
    def merge(self, S, st): return {'tail': S.cl['tail'] & st.cl['tail'], 'del': S.cl['del'] | st.cl['del'], 'wr': S.cl['wr'] | st.cl['wr'], 'st': S.cl['st'] | st.cl['st']}
    def inline(self, eng, st, fn, args, inst): return fn.name not in RAISE

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(mk('raise', 0), None)]
        site = st.fr.ctx + ((st.fr.fn.name, i.id, st.cnt.get((st.fr.ctx, st.fr.fn.name, i.id), 0)),)
        def roots(): return [k for k, x in enumerate(self.arrs) if any(self.base(st, a) is x for a in args)]
        if nm in ALLOC:
            h = mk('heap', site, nm)
            return [(ZERO, None), (h, lambda s: s.facts.learn(tcmp('ne', h, ZERO), True))]
        if callee is None:
            d = roots()
            if any(a is self.ret for a in args) and (d or any(x in self.null for x in self.arrs)) and any(a is self.cap for a in args):
                st.cl = dict(st.cl); st.cl['del'] = st.cl['del'] | {'all'}
            elif d and any(a is self.cap for a in args):
                # array and capacity both handed to an operation, which has the obligation
                st.cl = dict(st.cl); st.cl['del'] = st.cl['del'] | {('d', k) for k in d}
            elif d and nm not in ('memcmp',):
                for k in d: self.element(eng, st, i, k, [a for a in args if self.base(st, a) is self.arrs[k]][0], None)
            if self.m.is_result(st.fr.fn, i, name, callee):
                for k, a in enumerate(args):
                    if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm or 'ind', site, k))
                r = mk('ret', nm or 'ind', site)
                return [(r, lambda s: s.facts.learn(tcmp('lt', r, ZERO), True)), (r, lambda s: s.facts.learn(tcmp('eq', r, ZERO), True))]
            return None
        # callees that do not see the array are only inlined when they are small
        if not roots() and not any(a is self.ret for a in args) and callee.ret_type == 'ccs_result_t' and sum(len(b) for b in callee.blocks) > 120:
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, site, k))
            r = mk('ret', nm, site)
            return [(r, lambda s: s.facts.learn(tcmp('lt', r, ZERO), True)), (r, lambda s: s.facts.learn(tcmp('eq', r, ZERO), True))]
        return None

    def base(self, st, a):
        r = root_of(a)
        n = 0
        while r.op in ('lv', 'j') and n < 4:        # a pointer that walks over the array
            n += 1
            r2 = self.walk(st, r)
            if r2 is None: break
            r = r2
        return r

    def walk(self, st, t):
        if t.op != 'lv': return None
        for f in st.frames:
            if t.a[0] == f.ctx + (('h', f.fn.name, t.a[1]),):
                L = f.loops.get(t.a[1])
                d = ccs.defs_of(f.fn).get(t.a[2])
                if d is None or d.op != 'phi': return None
                # a pointer phi starting at the array
                for o in d.ops:
                    if isinstance(o, int) and o < len(f.fn.args):
                        v = f.env.get(o)
                        if v is not None and root_of(v) in self.arrs: return root_of(v)
        return None

    def index(self, a):
        """index term of an element address, or None when it is not of the form array[index]"""
        off = 0
        if a.op == '+' and a.a[0].op == '[]': off = a.a[1]; a = a.a[0]
        if a.op == '[]' and a.a[0].op == 'arg': return padd(a.a[1], off // a.a[2])
        if a.op == '+' and a.a[0].op == 'arg': return None
        return None

    def on_store(self, eng, st, i, addr, val, size):
        r = self.base(st, addr)
        for k, x in enumerate(self.arrs):
            if r is x: self.element(eng, st, i, k, addr, val)
        if addr is self.ret:
            st.cl = dict(st.cl); st.cl['wr'] = st.cl['wr'] | {'ret'}
            self.retinst = i

    def element(self, eng, st, i, k, addr, val):
        self.stores += 1
        f = st.facts
        st.cl = dict(st.cl); st.cl['st'] = st.cl['st'] | {k}
        x = self.arrs[k]
        if f.ev(x) is None: self.finds.append(('null', k, i, st.fr.fn))
        zero = val is not None and (f.const(val) == 0 or (val.op == 'f' and float(val.a[0]) == 0) or (val.op == 'copyof' and root_of(val.a[0]).op == 'g' and 'none' in str(root_of(val.a[0]).a)))
        if not zero and val is not None:
            v = val.a[0] if val.op in ('copyof', 'ld') else None
            if v is not None: self.src.setdefault(k, set()).add(split_off(v)[1] if split_off(v)[0].op != 'alloca' else None)
        ix = self.index(addr)
        if root_of(addr) is not x: self.unclear.add(k)       # walking pointer: the position is not tracked
        if zero and root_of(addr) is not x: st.cl['tail'] = st.cl['tail'] | {(k, 'walk')}
        if ix is None:
            if zero and addr is not x: self.unclear.add(k)
            if zero and addr is x: ix = ZERO
            else: return
        if zero:
            # a clearing loop that clears the same element again on a later trip does not reach the rest of the tail
            if (k, ix) in st.cl['tail'] and root_of(addr) is x and not contains(ix, lambda t: t.op in ('lv', 'lvm', 'j', 'jm')):
                cfg = st.fr.fn.cfg()
                if any(l[0] >= 1 and st.fr.block in cfg['loops'].get(h, ()) for h, l in st.fr.loops.items()):
                    self.finds.append(('tail', k, i, st.fr.fn, show(ix)))
            st.cl['tail'] = st.cl['tail'] | {(k, ix)}
        if f.ev(tcmp('lt', ix, self.cap)) is True: return
        # off by one: the loop admits index == bound
        for c in [self.cap] + list(self.counts or ()):
            if f.ev(tcmp('lt', ix, c)) is not True and f.ev(tcmp('ge', c, ix)) is True and ix is not c and f.rel.get(mk('cmp', 'ge', c, ix)):
                if c is self.cap or not self.strict(f, c): self.finds.append(('over', k, i, st.fr.fn, show(ix), show(c)))

    def strict(self, f, c):
        return f.ev(tcmp('lt', c, self.cap)) is True

    def on_ret(self, eng, st, inst, val):
        if val is None: return
        f = st.facts
        if f.ev(tcmp('lt', val, ZERO)) is True or val.op == 'raise': return
        self.succ += 1
        if 'all' in st.cl['del']: return
        live = [k for k, x in enumerate(self.arrs) if x not in self.null]
        if not live and self.ret in self.null:
            self.finds.append(('neither', None, inst, eng.root)); return
        cnt = None
        if self.ret not in self.null:
            if 'ret' not in st.cl['wr']:
                self.finds.append(('noret', None, inst, eng.root)); return
            cnt = eng.load(st, self.ret, 8)
            self.seen.add(cnt)
            cs = [cnt]
        else: cs = sorted(self.counts or (), key=lambda c: c.n)
        for k in live:
            if ('d', k) in st.cl['del']: continue
            good = [c for c in cs if f.ev(tcmp('ge', self.cap, c)) is True or c is self.cap]
            if not good:
                if all(c.op in ('j', 'jm') for c in cs): continue
                if cs and not (self.ret in self.null and not self.counts): self.finds.append(('small', k, inst, eng.root, ', '.join(sorted(show(c) for c in cs))))
                continue
            self.ok += 1
            if k in self.unclear or self.ret in self.null or ('d', k) in st.cl['del']: continue
            if any((k, c) in st.cl['tail'] for c in good): continue
            c = good[0]
            t = f.ev(tcmp('lt', c, self.cap))
            if c is self.cap or t is False: continue
            if f.const(self.cap) is not None and f.const(c) == f.const(self.cap): continue
            if any(kk == k and ix.op in ('lv', '+', 'j', 'bin') for kk, ix in st.cl['tail'] if ix != 'walk'):
                # a zero filling loop that does not start at the count
                if t is None: continue
                z = [ix for kk, ix in st.cl['tail'] if kk == k]
                if any(ix.op != 'lv' or not self.from_count(st, ix, c) for ix in z) and not any(self.from_count(st, ix, c) for ix in z):
                    pass
                else: continue
            self.finds.append(('tail', k, inst, eng.root, show(c)))

    def from_count(self, st, ix, c): return ix is c


def runq(P, M, f, q, null, counts=None, zero_cap=None):
    c = Q(P, M, f, q, null, counts)
    e = Engine(P, c, max_steps=150000, max_states=6000)
    args = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]

    def setup(st):
        for t in args:
            if t in null: continue
        for k, a in enumerate(f.args):
            if a['dt'] == 'size_t': st.facts.iv[args[k]] = (0, None)
        for x in c.arrs + [c.ret]:
            if x in null: st.facts.learn(tcmp('eq', x, ZERO), True)
            else: st.facts.learn(tcmp('ne', x, ZERO), True)
        if zero_cap is True: st.facts._set(c.cap, 0, 0)
        if zero_cap is False: st.facts._set(c.cap, 1, None)
    e.run(f, args, setup)
    return c, e


def work(item):
    P, M = ccs._W['prog'], ccs._W['model']
    f, public = item
    q = query(f)
    arrs = [mk('arg', k, f.args[k]['n'] or 'arg%d' % k) for k in q[1]]
    ret = mk('arg', q[2], f.args[q[2]]['n'] or 'arg%d' % q[2])
    finds = []; inc = False; st = dict(runs=0, paths=0, stores=0, obligations=0)

    def go(null, counts=None, zc=None, keep=True):
        nonlocal inc
        c, e = runq(P, M, f, q, null, counts, zc)
        inc |= e.incomplete
        st['runs'] += 1; st['paths'] += e.paths; st['stores'] += c.stores; st['obligations'] += c.stores + c.succ
        if keep:
            for x in c.finds:
                finds.append((x[0], x[1], x[3].name, x[2].line, x[3].file, x[4:]))
        return c
    a = go(frozenset(), keep=False)
    counts = a.seen
    # without an array and a capacity of zero: the count is reported
    z = go(frozenset(arrs), None, True)
    counts = {c for c in counts | z.seen if c.op not in ('j', 'jm')}
    go(frozenset(), counts)
    go(frozenset([ret]), counts)
    if public:
        n = go(frozenset(arrs + [ret]), counts, True)
        n = go(frozenset(arrs), counts, False, keep=False)
        if n.succ: finds.append(('capnull', None, f.name, f.line, f.file, ()))
    return finds, inc, st, {f.args[q[1][k]]['n']: v for k, v in a.src.items()}


MSG = {'null': 'the array {a} is written without having been found non-null',
       'over': 'the array {a} is written at index {0} that may equal {1}',
       'neither': 'a request for neither the array nor the count succeeds',
       'capnull': 'a non-zero capacity without an array is accepted',
       'noret': 'success is returned without the number of elements having been stored',
       'small': 'the array {a} is filled although the capacity was not found to be at least the number of elements ({0})',
       'tail': 'the elements of {a} beyond the count {0} are not cleared'}


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    pub = set(P._public_names()) if callable(getattr(P, '_public_names', None)) else set()
    items = []
    for f in P.unique_funcs():
        if query(f) is None: continue
        public = not f.internal
        slot = any(n == f.name for fs in M.slots.values() for _, n in fs)
        if public or slot: items.append((f, public))
    ccs._W['prog'] = P; ccs._W['model'] = M
    inc = []; src = {}
    for (f, public), (finds, i, st, sr) in zip(items, pmap(work, items)):
        ctx.count('queries'); ctx.count('public_queries', int(public))
        for k, v in st.items(): ctx.count(k, v)
        if i: inc.append(f.name)
        q = query(f)
        for n, v in sr.items():
            if None not in v: src.setdefault((f.args[0]['dt'], n), []).append((f, v, len(q[1])))
        for kind, k, fn, line, file, ex in finds:
            an = f.args[q[1][k]]['n'] if k is not None else ''
            ctx.finding('%s:%s:%s' % (f.name, kind, an), '%s: %s' % (f.name, MSG[kind].format(*ex, a=an)), '%s:%s' % (file, line))
    # the same attribute asked for alone or together with others comes from the same place
    for (ty, n), l in src.items():
        for f, v, w in l:
            for g, u, x in l:
                if w == 1 and x > 1:
                    ctx.count('sibling_pairs')
                    if not v & u: ctx.finding('%s:source:%s' % (f.name, n), '%s fills %s from another attribute than %s does' % (f.name, n, g.name), f.loc())
    ctx.cov['incomplete_functions'] = inc
    ctx.samples = ['%s(%s)' % (f.name, ', '.join(a['n'] or '' for a in f.args)) for f, _ in items[::5]]
    ctx.need('public_queries', 25)


if __name__ == '__main__':
    main('C09', check, 'every query with trailing (capacity, array.., count) arguments is analysed on all paths under each combination of null and non-null arrays and count: '
         'success requires capacity >= stored count, the count stored, element indexes below count or capacity, the tail from the count on cleared; no success with neither output or a capacity without array',
         ['user-supplied tuner callbacks obey the same contract', 'an iterator over a collection yields as many elements as the collection reports'])
