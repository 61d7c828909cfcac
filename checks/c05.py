import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs, summ
from ccs import Model, RAISE, ALLOC, slot_of

DATA, OPS = 48, 24
# libc functions that dereference their pointer arguments
LIBC = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strdup': (0,), 'strcat': (0, 1), 'memcmp': (0, 1),
        'open': (0,), 'fstat': (1,), 'vsnprintf': (2,), 'snprintf': (2,)}


class Kinds:
    """handle types and the object kinds their constructors give them"""

    def __init__(self, P):
        self.P = P
        self.handles = {t for t, d in P.typedefs.items() if re.match(r'(struct )?_ccs_\w+_s \*$', d) and t.startswith('ccs_')} | {'ccs_object_t'}
        t = P.structs.get('%struct._ccs_object_template_s'); d = P.di.get('struct._ccs_object_internal_s')
        if not t or not d: raise CheckError('object layout not found')
        ot = P.enum('ccs_object_type_e', 'ccs_object_type_t')
        self.names = {v: k for k, v in ot.items()}
        self.kinds = {}
        for k, v in ot.items():
            h = 'ccs_' + k[len('CCS_OBJECT_TYPE_'):].lower() + '_t'
            if h in self.handles: self.kinds.setdefault(h, set()).add(v)
        self.specific = {h for h in self.kinds}
        og = P.structs.get('%struct._ccs_object_ops_s')
        if not og: raise CheckError('object operations layout not found')
        self.gops = og['size']


def base_type(dt): return (dt or '').replace('const ', '').strip()


class Val(Client):
    max_depth = 1

    def __init__(self, prog, model, kinds, fn):
        self.p = prog; self.m = model; self.k = kinds; self.fn = fn
        self.obl = {}        # (what, term) -> list of guard frozensets
        self.loc = {}
        self.post = None     # {param term: set of kinds} guaranteed on success
        self.wrong = {}
        self.sites = set(); self.wr = set()
        self.pargs = [(mk('arg', i, a['n'] or 'arg%d' % i), a) for i, a in enumerate(fn.args) if a['t'] == 'ptr' or base_type(a['dt']) == 'size_t']
        self.types = {i: base_type(a['dt']) for i, a in enumerate(fn.args)}

    def init(self, eng, st): return {'val': frozenset()}
    def key(self, st):
        # states that know different things about the arguments are never merged
        f = st.facts
        return (st.cl['val'], tuple(f.ev(t) if a['t'] == 'ptr' else f.bounds(t)[1] == 0 for t, a in self.pargs))
    def merge(self, S, st): return {'val': S.cl['val'] & st.cl['val']}
    def inline(self, *a): return False

    # -- classification --------------------------------------------------
    def htype(self, t):
        """declared handle type of an untrusted value, or None"""
        if t.op == 'arg':
            d = self.types.get(t.a[0], '')
            return d if d in self.k.handles else None
        if t.op == 'ld':
            r = root_of(t.a[0])
            if r.op == 'arg':
                d = self.types.get(r.a[0], '')
                if d.endswith('*') and base_type(d[:-1]) in self.k.handles: return base_type(d[:-1])
        return None

    def untrusted(self, t):
        if t.op == 'arg': return True
        if t.op == 'ld':
            r = root_of(t.a[0])
            if r.op == 'arg' and self.htype(r) is None:
                d = self.types.get(r.a[0], '')
                return d.endswith('*') and (d[:-1].rstrip().endswith('*') or base_type(d[:-1]) in self.k.handles)
        return False

    def arr_root(self, t):
        """elements of a caller's array stand for each other"""
        if t.op == 'ld':
            a = t.a[0]; off = 0
            if a.op == '+': off = a.a[1]; a = a.a[0]
            if a.op == '[]': return mk('elem', root_of(a), a.a[2], off if off < a.a[2] else off % a.a[2])
            if a.op == 'arg': return mk('elem', a, 8, 0) if off % 8 == 0 and self.htype(t) and self.htype(t) != 'ccs_object_t' else t
        return t

    def known_kind(self, st, h):
        f = st.facts
        ty = mk('ld', h)
        c = f.const(ty)
        if c is None:
            m = st.mem.get(h)
            if m is not None: c = f.const(m[0])
        if c is not None: return frozenset([c])
        e = self.arr_root(h)
        ks = [k for (x, k) in st.cl['val'] if x is e or x is h]
        if ks: return ks[0]
        return None

    def guards(self, st):
        g = set()
        for t, iv in st.facts.iv.items():
            if t.op == 'arg': g.add((t, 'iv', iv))
        for t, ne in st.facts.ne.items():
            if t.op == 'arg': g.add((t, 'ne', tuple(sorted(ne))))
        for t, v in st.facts.rel.items():
            if v and t.op == 'cmp' and all(x.op in ('arg', 'c', '+') for x in subterms(t) if x is not t): g.add((t, 'rel', True))
        return frozenset(g)

    def oblige(self, st, what, t, inst):
        k = (what, t)
        gs = self.guards(st)
        if what == 'nn' and t.op == 'arg' and not self.htype(t):
            # a count that was compared with a number of elements: with 0 there is no element to visit
            for c, v in st.facts.rel.items():
                if v and c.op == 'cmp' and c.a[0] in ('ge', 'eq'):
                    for n in (c.a[1:] if c.a[0] == 'eq' else c.a[1:2]):
                        if n.op == 'arg': gs = frozenset(x for x in gs if x[0] is not n) | {(n, 'iv', (1, None))}
        l = self.obl.setdefault(k, [])
        if any(x <= gs for x in l): return
        l[:] = [x for x in l if not gs <= x] + [gs]
        if len(l) > 8:
            c = frozenset.intersection(*l)
            l[:] = [c]
        fn = st.fr.fn
        self.loc.setdefault(k, fn.loc(inst))

    # -- uses ------------------------------------------------------------
    def need_nn(self, eng, st, t, inst):
        """t is about to be dereferenced"""
        if t.op == 'arg' and self.fn.args[t.a[0]].get('byval'): return
        if t.op == 'arg' or (t.op == 'ld' and self.untrusted(t)):
            if t.op == 'arg' and not self.htype(t) and self.empty_query(st): return
            self.sites.add((inst.id, 'nn'))
            if st.facts.ev(t) is not True and not (t.op == 'ld' and any(x is self.arr_root(t) for x, k in st.cl['val'])):
                self.oblige(st, 'nn', t, inst)
        elif t.op == 'ld':
            a = t.a[0]; r = root_of(a); b, o = split_off(a)
            if b is r and (r.op == 'arg' or self.untrusted(r)) and self.htype(r) and o == DATA:
                self.need_kind(eng, st, r, inst)

    def empty_query(self, st):
        """capacity 0 was accepted as at least the number of elements: there are none (C09 bounds the writes by that number)"""
        f = st.facts
        for t, v in f.rel.items():
            if v and t.op == 'cmp' and t.a[0] == 'ge' and t.a[1].op == 'arg' and t.a[2].op != 'c' and f.bounds(t.a[1])[1] == 0: return True
        return any(t.op not in ('arg', 'c') and f.bounds(t)[1] == 0 and f.bounds(t)[0] in (0, None) and t.op in ('ld', 'sel', 'j') and contains(t, lambda x: x.op == 'arg') and
                   any(a.op == 'arg' and f.bounds(a)[1] == 0 for a in list(f.iv)) for t in list(f.iv))

    def need_kind(self, eng, st, h, inst):
        self.sites.add((inst.id, 'kind'))
        k = self.known_kind(st, h)
        if k is None: self.oblige(st, 'kind', h, inst)
        else:
            exp = self.k.kinds.get(self.htype(h))
            if exp is not None and not k <= exp:
                self.wrong.setdefault((h, tuple(sorted(k))), st.fr.fn.loc(inst))

    def access(self, eng, st, inst, addr):
        r = root_of(addr)
        self.need_nn(eng, st, r, inst)
        if r.op == 'ld':
            b, o = split_off(addr); hb, ho = split_off(r.a[0])
            if b is r and ho == OPS and o >= self.k.gops and self.htype(hb) and self.untrusted(hb): self.need_kind(eng, st, hb, inst)

    def on_load(self, eng, st, inst, addr, size):
        if size is None and self.zero_len(st, inst, eng): return
        self.access(eng, st, inst, addr)

    def zero_len(self, st, inst, eng):
        if inst.op != 'call' or len(inst.ops) < 3: return False
        n = eng.val(st, inst.ops[2])
        l, h = st.facts.bounds(n)
        if h is not None and h <= 0: return True
        return any(x.op == 'arg' and st.facts.bounds(x)[1] is not None and st.facts.bounds(x)[1] <= 0 for x in subterms(n) if x.op != 'ld')

    def on_store(self, eng, st, inst, addr, val, size):
        if size is None and self.zero_len(st, inst, eng): return
        self.access(eng, st, inst, addr)
        # keeping a handle is using it
        r = root_of(addr)
        if r.op == 'arg': self.wr.add(r.a[0])
        if size == 8 and r.op in ('heap', 'ld', 'ret', 'out', 'lv', 'j'):
            if r.op == 'ld' and self.untrusted(r): return
            h = self.htype(val) if val.op in ('arg', 'ld') else None
            if h in self.k.specific and st.facts.const(val) is None and self.untrusted(val): self.need_kind(eng, st, val, inst)

    # -- calls -----------------------------------------------------------
    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(mk('raise', 0), None)]
        if callee is None and nm is not None:
            for k in LIBC.get(nm, ()):
                if k < len(args): self.access(eng, st, i, args[k])
            return None
        if callee is not None: targets = [callee]
        else:
            sl = slot_of(self.p, st.fr.fn, i)
            targets = self.m.slot_funcs(sl) if sl else []
        post = None
        own = None
        if callee is None and isinstance(name, Term) and name.op == 'ld':
            b = root_of(name.a[0])
            if b.op == 'ld' and split_off(b.a[0])[1] == OPS: own = split_off(b.a[0])[0]
        wr = set()
        for g in targets:
            s = summ.of(g)
            if s is None: post = {} ; continue
            pub = g.name in self.p.public and not g.internal
            if not pub:
                for (what, et), gss in s['obl'].items():
                    t = subst(eng, st, dec(et), args)
                    if own is not None and (t is own or (t.op == 'ld' and root_of(t.a[0]) is own)): continue
                    if all(self.refuted(eng, st, gs, args) for gs in gss): continue
                    if what == 'nn': self.need_nn(eng, st, t, i)
                    elif t.op in ('arg', 'ld') and self.untrusted(t) and self.htype(t): self.need_kind(eng, st, t, i)
            wr |= set(s['wr'])
            p = s['post'] or {}
            if post is None: post = dict(p)
            else: post = {k: v | p[k] for k, v in post.items() if k in p}
        for k in wr:
            if k < len(args):
                r = root_of(args[k])
                if r.op == 'arg' and not self.htype(r):
                    self.wr.add(r.a[0])
                    eng.region(st, 'out', args[k], None, (g.name, st.fr.ctx + ((st.fr.fn.name, i.id),), k))
        if not post or i.ty != 'i32': return None
        site = st.fr.ctx + ((st.fr.fn.name, i.id, st.cnt.get((st.fr.ctx, st.fr.fn.name, i.id), 0)),)
        eng.opaque(st, i, name, args, site)
        r = st.fr.env.get(i.id)
        learn = []
        for et, ks in post.items():
            t0 = dec(et)
            if t0.op == 'elem': continue
            t = subst(eng, st, t0, args)
            if t.op in ('arg', 'ld'): learn.append((t, ks))

        def fail(s): return s.facts.learn(tcmp('lt', r, ZERO), True)

        def ok(s):
            if not s.facts.learn(tcmp('lt', r, ZERO), False): return False
            for t, ks in learn:
                if not s.facts.learn(tcmp('ne', t, ZERO), True): return False
                if len(ks) == 1 and not s.facts.learn(tcmp('eq', mk('ld', t), C(next(iter(ks)))), True): return False
                s.cl['val'] = s.cl['val'] | {(self.arr_root(t), frozenset(ks))}
            return True
        return [(r, fail), (r, ok)]

    def refuted(self, eng, st, gs, args):
        """can the callee's guard not hold here?"""
        for et, kind, v in gs:
            t = subst(eng, st, dec(et), args)
            if kind == 'iv':
                l, h = st.facts.bounds(t)
                lo, hi = v
                if (lo is not None and h is not None and h < lo) or (hi is not None and l is not None and l > hi): return True
                if lo is not None and lo >= 1 and st.facts.ev(tcmp('ne', t, ZERO)) is False: return True
                if hi == 0 and lo == 0 and st.facts.ev(tcmp('ne', t, ZERO)) is True: return True
            elif kind == 'ne':
                c = st.facts.const(t)
                if c is not None and c in v: return True
            elif kind == 'rel':
                if st.facts.ev(t) is False: return True
        return False

    def on_branch(self, eng, st, inst, cond, taken):
        if cond.op == 'cmp' and cond.a[0] in ('eq', 'ne') and taken == (cond.a[0] == 'eq') and cond.a[2].op == 'c':
            x = cond.a[1]
            if x.op == 'ld':
                h = x.a[0]
                if h.op == 'ld' and self.untrusted(h): 
                    st.cl['val'] = st.cl['val'] | {(self.arr_root(h), frozenset([cond.a[2].a[0]]))}

    def on_ret(self, eng, st, inst, val):
        if val is None or self.fn.ret_type != 'ccs_result_t': return
        if st.facts.ev(tcmp('lt', val, ZERO)) is True or val.op == 'raise': return
        cur = {}
        for i, a in enumerate(self.fn.args):
            t = mk('arg', i, a['n'] or 'arg%d' % i)
            if self.types[i] in self.k.handles:
                k = self.known_kind(st, t)
                if k: cur[t] = set(k)
        self.post = cur if self.post is None else {t: v | cur[t] for t, v in self.post.items() if t in cur}


def work(f):
    W = ccs._W
    c = Val(W['prog'], W['model'], W['kinds'], f)
    e = Engine(W['prog'], c, max_steps=400000, max_states=20000)
    e.join_limit = 6
    e.run(f)
    return dict(obl={(w, enc(t)): [frozenset((enc(x), k, v) for x, k, v in gs) for gs in l] for (w, t), l in c.obl.items() if over_args(t)},
                loc={(w, enc(t)): c.loc[(w, t)] for (w, t) in c.obl}, sites=len(c.sites),
                show={(w, enc(t)): show(t) for (w, t) in c.obl},
                post={enc(t): v for t, v in (c.post or {}).items()}, wrong=[(show(h), k, l) for (h, k), l in c.wrong.items()], incomplete=e.incomplete, wr=sorted(c.wr))


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P); K = Kinds(P)
    ccs._W['kinds'] = K
    S = summ.compute(P, M, work)
    inc = []
    pub = [P.ext[n] for n in sorted(P.public)]
    for f in pub:
        s = S[(f.name, f.file, f.line)]
        ctx.count('public_functions'); ctx.count('obligations', s['sites'])
        for (w, et), l in s['obl'].items():
            t = s['show'][(w, et)]
            d = dec(et)
            root = d if d.op == 'arg' else root_of(d.a[0]) if d.op == 'ld' else d
            key = '%s:%s:%s' % (f.name, w, re.sub(r'[^\w.*+\[\]-]', '', t))
            if w == 'nn': msg = '%s dereferences %s without having checked that it is not null' % (f.name, t)
            else: msg = '%s uses the object %s without having checked that it is of an accepted kind' % (f.name, t)
            ctx.finding(key, msg, s['loc'][(w, et)])
    for f in P.unique_funcs():
        s = S.get((f.name, f.file, f.line))
        if s is None: continue
        ctx.count('functions'); 
        if s['incomplete']: inc.append(f.name)
        for h, k, l in s['wrong']:
            ctx.finding('%s:wrongkind:%s' % (f.name, h), '%s accepts %s as %s' % (f.name, '/'.join(K.names.get(x, str(x)) for x in k), h), l)
    ctx.cov['incomplete_functions'] = inc
    ctx.need('public_functions', 200); ctx.need('obligations', 600)
    ctx.samples = ['%s: %d uses' % (f.name, S[(f.name, f.file, f.line)]['sites']) for f in pub[::40]]


if __name__ == '__main__':
    main('C05', check, 'every dereference reachable from a public function (directly, through helpers or through operation tables) of a pointer the caller supplied must be '
         'dominated on each path by a non-null fact about it, and every use of the private part of a caller-supplied object (or keeping the handle) by a fact about its kind',
         ['handles stored in live objects were validated when stored', 'function results and parameters passed on to other public functions are validated there'])
