import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, pmap

OUT = {-1: 'better', 0: 'equivalent', 1: 'worse', 2: 'not comparable'}
FLIP = {-1: 1, 0: 0, 1: -1, 2: 2}


def weight(f): return sum(len(b) for b in f.blocks)


class Tell(Client):
    """follows one reported evaluation through the update of the optima"""
    max_depth = 4

    def __init__(self, P, ooff, loops, outer, elem):
        self.p = P; self.ooff = ooff; self.loops = loops; self.outer = outer; self.newouter = set(); self.elem = elem; self.newelem = set(); self.found = {}; self.n = {}; self.newloops = set()

    def count(self, k): self.n[k] = self.n.get(k, 0) + 1

    def init(self, eng, st): return {'cur': None, 'kept': False, 'any': False, 'dom': None, 'new': False, 'res': None, 'in': False, 'pins': (), 'arr': None, 'at': None, 'ev': None, 'unk': False}

    def key(self, st):
        c = st.cl
        res = c['res'] is not None and st.facts.ev(tcmp('eq', c['res'], ZERO))
        return (c['cur'], c['kept'], c['dom'], c['new'], c['in'], c['any'], c['pins'], c['at'], c['arr'], c['ev'], c['unk'], res)

    def put(self, st, **kw): st.cl = dict(st.cl); st.cl.update(kw)

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) < 1500 and not fn.name.endswith('_compare')

    def say(self, st, i, key, text):
        if st.cl['unk']: return
        f = st.fr.fn
        self.found.setdefault(key, (text, f.loc(i) if i is not None else f.loc(f.blocks[0][0])))

    def optima(self, eng, st):
        d = self.data
        return eng.load(st, padd(d, self.ooff), 8)

    def into(self, eng, st, dst):
        """does the address lie in the storage of the array of optima?"""
        o = self.optima(eng, st)
        r = root_of(dst)
        for _ in range(3):
            if r.op == 'bin': r = root_of(r.a[1])
        if r is o: return True
        for k in range(0, 72, 8):
            if eng.load(st, padd(o, k), 8) is r: return True
        return contains(r, lambda x: x is o)

    def where(self, st, out):
        for fr in reversed(st.frames):
            if fr.loops:
                h = min(fr.loops, key=lambda h: len(fr.fn.cfg()['loops'][h]))
                out.add((fr.fn.name, h)); break

    def fresh(self, eng, st, p):
        return self.isnew(p) or st.cl['ev'] is not None and root_of(p).op == 'alloca' and eng.load(st, p, 8) is st.cl['ev']

    def isnew(self, p): return contains(p, lambda x: x is self.evals)

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        site = st.fr.ctx + ((st.fr.fn.name, i.id),)
        if nm and nm.endswith('_get_result') and len(args) == 2:
            r = mk('out', nm, site, 1); rv = mk('ret', nm, site)
            if not self.isnew(args[0]): return None
            self.where(st, self.newouter)

            def eff(z):
                eng.store(z, args[1], r, 4)
                self.put(z, res=r, ev=args[0], unk=False)
                return z.facts.learn(tcmp('ge', rv, ZERO), True)
            return [(rv, eff), (rv, lambda z: z.facts.learn(tcmp('lt', rv, ZERO), True))]
        if nm and nm.endswith('_compare') and len(args) == 3:
            a, b = self.isnew(args[0]), self.isnew(args[1])
            if a == b: a, b = args[0] is st.cl['ev'], args[1] is st.cl['ev']
            if a == b: self.put(st, unk=True); return None
            old = args[1] if a else args[0]
            self.where(st, self.newloops)
            if isinstance(old, Term) and old.op == 'ld':
                fr = st.fr
                self.newelem |= {(fr.fn.name, k) for k, v in fr.env.items() if v is old.a[0]}
            rv = mk('ret', nm, site)
            self.count('comparisons')

            def res(v):
                o = v if a else FLIP[v]

                def eff(z):
                    eng.store(z, args[2], C(v), 4)
                    self.put(z, cur=o)
                    if o in (0, 1): self.put(z, dom=OUT[o])
                    return z.facts.learn(tcmp('ge', rv, ZERO), True)
                return eff
            return [(rv, res(v)) for v in OUT] + [(rv, lambda z: z.facts.learn(tcmp('lt', rv, ZERO), True))]
        if nm is None and callee is None and len(args) == 2:
            if isinstance(args[0], Term) and isinstance(args[1], Term) and self.into(eng, st, args[0]): self.copied(eng, st, i, self.fresh(eng, st, args[1]))
        return None

    def on_store(self, eng, st, inst, addr, val, size):
        if isinstance(val, Term) and val.op == 'copyof':
            if self.into(eng, st, addr): self.copied(eng, st, inst, self.fresh(eng, st, val.a[0]))
        elif size == 8 and isinstance(val, Term) and val.op == 'ld' and root_of(addr) is not self.data and self.into(eng, st, addr) and root_of(addr) is not self.optima(eng, st):
            self.copied(eng, st, inst, self.isnew(val) or val is st.cl['ev'])

    def copied(self, eng, st, i, new):
        c = st.cl
        self.count('insertions')
        if new:
            if c['dom']: self.say(st, i, 'dominated', 'adds the new evaluation to the optima although it was found %s with respect to a retained one' % c['dom'])
            if c['res'] is not None and st.facts.ev(tcmp('eq', c['res'], ZERO)) is not True: self.say(st, i, 'failed', 'adds an evaluation whose result is not known to be a success to the optima')
            self.put(st, new=True)
        else:
            if c['cur'] == -1 and c['in']: self.say(st, i, 'kept-worse', 'keeps an optimum although the new evaluation was found better')
            self.put(st, kept=True)

    def on_edge(self, eng, st, frame, block, k, newv, ctx):
        me = (frame.fn.name, block)
        pins = frozenset([(pid, st.facts.const(v)) for pid, v in newv if isinstance(v, Term) and st.facts.const(v) in (0, 1)]
                         + [(a, st.facts.const(m[0])) for a, m in st.mem.items() if a.op == 'alloca' and m[1] in (1, 4) and st.facts.const(m[0]) in (0, 1)])
        self.put(st, pins=pins)
        c = st.cl
        if me in self.loops:
            if k == 0: self.put(st, cur=None, kept=False, at=None, arr=self.optima(eng, st), **{'in': True, 'any': True})
            else:
                self.count('iterations')
                if c['cur'] != -1 and not c['kept']:
                    self.say(st, None, 'dropped', 'drops an optimum that was not found worse than the new evaluation (%s)' % ('the comparison answered: the new one is %s' % OUT[c['cur']] if c['cur'] is not None else 'no comparison was made'))
                self.put(st, cur=None, kept=False, at=None)
        elif k > 0 and me in self.outer: self.final(eng, st); self.put(st, cur=None, kept=False, at=None, any=False, dom=None, new=False, res=None, **{'in': False})

    def on_branch(self, eng, st, inst, cond, taken):
        if not isinstance(cond, Term) or cond.op != 'cmp' or not st.cl['in']: return
        fr = st.fr
        if not any(h in fr.loops for fn, h in self.loops if fn == fr.fn.name): return
        for fn, k in self.elem:
            v = fr.env.get(k) if fn == fr.fn.name else None
            if isinstance(v, Term) and (cond.a[1] is v and cond.a[2] is ZERO or cond.a[2] is v and cond.a[1] is ZERO):
                self.put(st, at=st.facts.ev(tcmp('ne', v, ZERO)))

    def on_header(self, eng, st, frame, block, k):
        for pid, v in st.cl['pins']:
            t = frame.env.get(pid) if not isinstance(pid, Term) else (st.mem.get(pid) or (None,))[0]
            if isinstance(t, Term) and t.op in ('lv', 'lvm'): st.facts.learn(tcmp('eq', t, C(v)), True)

    def final(self, eng, st):
        c = st.cl
        if c['res'] is None: return
        ok = st.facts.ev(tcmp('eq', c['res'], ZERO))
        self.count('reports')
        fr = st.frames[0]
        if c['in'] and c['at'] is True and c['cur'] != -1 and not c['kept'] and self.optima(eng, st) is c['arr'] and all(h not in fr.loops for fn, h in self.loops if fn == fr.fn.name):
            self.say(st, None, 'left', 'stops going through the optima before the last one and loses the others')
        if ok is True and not c['new'] and not c['dom']:
            self.say(st, None, 'lost', 'leaves a successful evaluation out of the optima although no comparison found it worse than or equivalent to a retained one')

    def on_ret(self, eng, st, inst, val):
        if len(st.frames) > 1: return
        if isinstance(val, Term) and st.facts.ev(tcmp('lt', val, ZERO)) is not False: return
        self.final(eng, st)


def one(job):
    f, ooff = job
    P = ccs._W['prog']; off = ccs._W['off']
    loops = set(); outer = set(); elem = set(); cl = None; inc = False
    for _ in range(2):
        cl = Tell(P, ooff, loops, outer, elem)
        args = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]
        cl.data = mk('ld', padd(args[0], off)); cl.evals = args[-1]
        e = Engine(P, cl, max_steps=400000, max_states=20000); e.join_limit = 60
        e.run(f)
        loops = cl.newloops; outer = cl.newouter; elem = cl.newelem; inc = e.incomplete
    return cl.found, cl.n, len(loops), inc


FP = {'lt': {'olt', 'ole', 'one', 'ult', 'ule', 'une', 'ord'}, 'gt': {'ogt', 'oge', 'one', 'ugt', 'uge', 'une', 'ord'}, 'eq': {'oeq', 'ole', 'oge', 'ueq', 'ule', 'uge', 'ord'}}
FALL = ('olt', 'ole', 'ogt', 'oge', 'oeq', 'one', 'ult', 'ule', 'ugt', 'uge', 'ueq', 'une', 'ord', 'uno')


class Dominance(Client):
    """the comparison of two evaluations, objective by objective, under an assumed order of each pair of values"""
    max_depth = 4

    def __init__(self, P, f, tags, types):
        self.p = P; self.f = f; self.tags = tags; self.types = types; self.found = {}; self.n = {}
        self.a = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]

    def init(self, eng, st): return {'typ': None, 'side': (), 'signs': frozenset(), 'nc': False, 'open': False, 'seen': False, 'count': None, 'unk': False, 'pins': (), 'idx': None, 'rel': None, 'twice': False}

    def key(self, st): return tuple(sorted((k, str(v) if isinstance(v, frozenset) else v) for k, v in st.cl.items() if k not in ('pins',)) ) + (st.mem.get(self.a[2]), st.facts.const((st.mem.get(self.a[2]) or (ZERO,))[0]))

    def put(self, st, **kw): st.cl = dict(st.cl); st.cl.update(kw)

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) < 800

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm is None: self.put(st, unk=True); return None
        site = st.fr.ctx + ((st.fr.fn.name, i.id),)
        rv = mk('ret', nm, site)
        bad = (rv, lambda z: z.facts.learn(tcmp('lt', rv, ZERO), True))
        ok = lambda z: z.facts.learn(tcmp('ge', rv, ZERO), True)
        if nm.endswith('_get_objectives') and len(args) == 5:
            c = mk('out', nm, site, 4)

            def eff(z):
                eng.store(z, args[4], c, 8); self.put(z, count=c); return ok(z)
            return [(rv, eff), bad]
        if nm.endswith('_get_objective') and len(args) == 4:
            def res(t):
                def eff(z):
                    if not z.cl['seen']:
                        k = z.facts.const(args[1])
                        if (k is not None and k > 0) or (args[1].op in ('cmp', 'not') and z.facts.ev(args[1]) is not False):
                            self.found.setdefault('skipped', ('starts with an objective other than the first', self.f.loc(i) if st.fr.fn is self.f else st.fr.fn.loc(i)))
                    eng.store(z, args[2], mk('out', nm, site, 2), 8); eng.store(z, args[3], C(t), 4)
                    self.put(z, typ=t, open=True, seen=True, side=(), idx=args[1], rel=None); return ok(z)
                return eff
            return [(rv, res(t)) for t in self.types.values()] + [bad]
        if nm.endswith('_expression_eval') and len(args) == 4:
            sa, sb = (contains(args[2], lambda x: x is self.a[k]) for k in (0, 1))
            if sa == sb or st.cl['typ'] is None: self.put(st, unk=True); return None
            me = 'A' if sa else 'B'
            if any(w == me for w, t, v in st.cl['side']): self.put(st, unk=True, twice=True); return None
            v = mk('out', nm, me, 0)
            outs = []
            for tag in self.tags:
                rels = [None]
                if st.cl['side'] and st.cl['side'][0][1] == tag and tag in ('INT', 'FLOAT'): rels = ['lt', 'eq', 'gt']
                for rel in rels:
                    def eff(z, tag=tag, rel=rel):
                        z.facts.purge(lambda t: t is v)
                        eng.store(z, args[3], v, 8); eng.store(z, padd(args[3], 8), C(self.tags[tag]), 4)
                        side = z.cl['side'] + ((me, tag, v),)
                        self.put(z, side=side)
                        if len(side) == 2:
                            if rel is None: self.put(z, nc=True)
                            else:
                                d = {w: x for w, t, x in side}
                                self.put(z, rel=rel)
                                x, y = d['A'], d['B']
                                if tag == 'INT':
                                    if not z.facts.learn(tcmp(rel, x, y), True): return False
                                else:
                                    for p in FALL:
                                        z.facts.learn(mk('fcmp', p, x, y), p in FP[rel])
                                        z.facts.learn(mk('fcmp', p, y, x), p in FP[{'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[rel]])
                                mini = z.cl['typ'] == self.types['MINIMIZE']
                                if rel != 'eq': self.put(z, signs=z.cl['signs'] | {'better' if (rel == 'lt') == mini else 'worse'})
                        return ok(z)
                    outs.append((rv, eff))
            return outs + [bad]
        if nm.endswith('_cmp') and len(args) == 3:
            def res2(c):
                def eff(z):
                    eng.store(z, args[2], C(c), 4)
                    if c: self.put(z, nc=True)
                    return ok(z)
                return eff
            return [(rv, res2(c)) for c in (-1, 0, 1)] + [bad]
        if callee is None and not nm.startswith('llvm.') or callee is not None and not self.inline(eng, st, callee, args, i): self.put(st, unk=True)
        return None

    def on_edge(self, eng, st, frame, block, k, newv, ctx):
        ints = (-1, 0, 1, 2)
        pins = [(pid, st.facts.const(v)) for pid, v in newv if isinstance(v, Term) and st.facts.const(v) in ints]
        pins += [(a, st.facts.const(m[0])) for a, m in st.mem.items() if (a.op == 'alloca' or a is self.a[2]) and m[1] in (1, 4) and st.facts.const(m[0]) in ints]
        self.put(st, pins=frozenset(pins))
        if k > 0 and st.cl['open']: self.put(st, open=False, typ=None, side=(), idx=None, rel=None)

    def on_header(self, eng, st, frame, block, k):
        for pid, v in st.cl['pins']:
            t = frame.env.get(pid) if not isinstance(pid, Term) else (st.mem.get(pid) or (None,))[0]
            if isinstance(t, Term) and t.op in ('lv', 'lvm'): st.facts.learn(tcmp('eq', t, C(v)), True)

    def on_ret(self, eng, st, inst, val):
        if len(st.frames) > 1: return
        fx = st.facts; c = st.cl
        if isinstance(val, Term) and fx.ev(tcmp('lt', val, ZERO)) is not False: return
        if c['twice'] and len(c['side']) == 1:
            self.found.setdefault('onesided', ('evaluates an objective twice for one of the two evaluations and never for the other', self.f.loc(inst))); return
        if c['unk'] or fx.ev(tcmp('eq', self.a[0], self.a[1])) is True: return
        v = fx.const(eng.load(st, self.a[2], 4))
        if v is None: self.n['undetermined'] = self.n.get('undetermined', 0) + 1; return
        self.n['answers'] = self.n.get('answers', 0) + 1
        want = 2 if c['nc'] or len(c['signs']) == 2 else -1 if 'better' in c['signs'] else 1 if 'worse' in c['signs'] else 0
        loc = self.f.loc(inst)
        what = 'not comparable' if c['nc'] else ' and '.join(sorted(c['signs'])) or 'equal'
        if v != want: self.found.setdefault('answer-%s-%s' % (what.replace(' ', ''), v), ('answers "%s" for two evaluations of which the first was found %s in the objectives' % (OUT.get(v, v), what), loc))
        elif c['open'] and v != 2 and not any(x.op == 'cmp' and (contains(x.a[1], lambda q: q is c['idx']) or contains(x.a[2], lambda q: q is c['idx'])) and (x.a[1] is not c['idx'] and x.a[2] is not c['idx']) for x in fx.rel):
            self.found.setdefault('early', ('answers "%s" before all objectives were examined' % OUT[v], loc))
        elif not c['seen'] and not c['nc'] and c['count'] is not None:
            b = fx.bounds(c['count'])
            if b and b[1] is not None and 1 <= b[1] <= 8: self.found.setdefault('skipped', ('answers without examining an objective that exists', loc))


SAMPLES = {('INT', 'lt'): ((1, 2), (-5, 0), (-1 << 40, 1 << 40), (7, 7 + (1 << 32))), ('INT', 'eq'): ((0, 0), (-3, -3), (1 << 40, 1 << 40)),
           ('FLOAT', 'lt'): ((1.5, 2.0), (-4.0, 0.0), (0.25, 0.5), (-1e300, 1e300)), ('FLOAT', 'eq'): ((0.0, 0.0), (-1.5, -1.5), (1e300, 1e300))}
for _t in ('INT', 'FLOAT'): SAMPLES[_t, 'gt'] = tuple((y, x) for x, y in SAMPLES[_t, 'lt'])


class Unsupported(Exception): pass


def value(t, sub, fx):
    """a term over two values, for members of the assumed order class"""
    if t in sub: return sub[t]
    k = fx.const(t)
    if k is not None: return k
    o = t.op
    if o == '+': return value(t.a[0], sub, fx) + t.a[1]
    if o == 'not': return 0 if value(t.a[0], sub, fx) else 1
    if o == 'sel': return value(t.a[1] if value(t.a[0], sub, fx) else t.a[2], sub, fx)
    if o == 'trunc':
        x = value(t.a[0], sub, fx)
        if not isinstance(x, int): raise Unsupported
        w = int(t.a[1][1:]); x &= (1 << w) - 1
        return x - (1 << w) if w > 1 and x >> (w - 1) else x
    if o in ('fptosi', 'fptoui'): return int(value(t.a[0], sub, fx))
    if o in ('sitofp', 'uitofp'): return float(value(t.a[0], sub, fx))
    if o == 'fneg': return -value(t.a[0], sub, fx)
    if o in ('cmp', 'fcmp'):
        x, y = value(t.a[1], sub, fx), value(t.a[2], sub, fx)
        p = t.a[0] if o == 'cmp' else t.a[0][1:] if t.a[0] not in ('ord', 'uno') else t.a[0]
        if p == 'ord': return 1
        if p == 'uno': return 0
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    if o == 'bin':
        x, y = value(t.a[1], sub, fx), value(t.a[2], sub, fx)
        f = {'add': lambda: x + y, 'fadd': lambda: x + y, 'sub': lambda: x - y, 'fsub': lambda: x - y, 'mul': lambda: x * y, 'fmul': lambda: x * y,
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}.get(t.a[0])
        if f is not None: return f()
    raise Unsupported


class Ordered(Engine):
    """conditions over the two values are decided from their assumed order alone, and left open where the order does not decide them"""
    def step(self, st, f, i):
        r = Engine.step(self, st, f, i)
        if i.op in ('icmp', 'fcmp', 'select', 'add', 'sub', 'mul', 'or', 'and', 'xor', 'zext', 'trunc', 'sext') and st.cl['rel']:
            t = f.env.get(i.id)
            d = {w: v for w, _, v in st.cl['side']}
            if isinstance(t, Term) and t.op != 'c' and contains(t, lambda q: q is d['A'] or q is d['B']) and t is not d['A'] and t is not d['B']:
                try:
                    vs = {value(t, {d['A']: a, d['B']: b}, st.facts) for a, b in SAMPLES[st.cl['side'][0][1], st.cl['rel']]}
                    if len(vs) == 1:
                        v = vs.pop()
                        if isinstance(v, int): f.env[i.id] = C(v)
                except (Unsupported, TypeError, KeyError, OverflowError, ValueError):
                    if i.op in ('icmp', 'fcmp'): self.cl.put(st, unk=True)
        return r


def two(job):
    f, tags, types = job
    P = ccs._W['prog']
    cl = Dominance(P, f, tags, types)
    e = Ordered(P, cl, max_steps=600000, max_states=40000); e.join_limit = 60
    e.run(f)
    return cl.found, cl.n, e.incomplete


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    d = P.di.get('struct._ccs_tuner_s') or P.di.get('struct._ccs_binding_s') or {}
    off = next((m['o'] for m in d.get('m', ()) if m['n'] == 'data'), None)
    if off is None: raise CheckError('layout of tuners not found')
    en = P.enum('ccs_comparison_e', 'ccs_comparison_t')
    if (en.get('CCS_COMPARISON_BETTER'), en.get('CCS_COMPARISON_EQUIVALENT'), en.get('CCS_COMPARISON_WORSE'), en.get('CCS_COMPARISON_NOT_COMPARABLE')) != (-1, 0, 1, 2): raise CheckError('comparison results have other values')
    ccs._W.update(prog=P, model=M, off=off)
    structs = {}
    for k, d in P.di.items():
        ms = {m['n']: m['o'] for m in d.get('m', ())}
        if k.startswith('struct.') and 'optima' in ms and 'history' in ms and not any(x in k for x in ('clone', 'mock')): structs[k] = (set(k[7:].strip('_').split('_')), ms['optima'])
    jobs = []; inc = []
    for (t, n), g in sorted(P.globals.items()):
        for o, c in P.flat_init(g):
            if c.get('k') != 'fn': continue
            if not any(M.slot_name((s.lstrip('%'), oo)).split('.')[-1] == 'tell' for s, oo in M.inner(g['t'], o)): continue
            f = P.stat.get((g['tu'], c['v'])) or P.ext.get(c['v'])
            if f is None: continue
            want = set((f.args[0]['dt'] or '').split('_')) - {'ccs', 't', ''}
            cand = sorted((len(ts), k) for k, (ts, oo) in structs.items() if want <= ts)
            if not cand: continue
            calls = {i.x['c'].get('v') for g2 in ccs_reach(P, f) for b in g2.blocks for i in b if i.op == 'call' and isinstance(i.x['c'], dict)}
            if not any(isinstance(x, str) and x.endswith('_compare') for x in calls): continue
            if (f, structs[cand[0][1]][1]) not in jobs: jobs.append((f, structs[cand[0][1]][1]))
    for (f, oo), (found, n, nl, i) in zip(jobs, pmap(one, jobs)):
        ctx.count('tuners')
        for k, v in n.items(): ctx.count(k, v)
        if i: inc.append(f.name)
        if not nl: continue
        for k, (t, l) in sorted(found.items()): ctx.finding('%s:%s' % (f.name, k), '%s %s' % (f.name, t), l)
    tg = P.enum('ccs_data_type_e', 'ccs_data_type_t'); ty = P.enum('ccs_objective_type_e', 'ccs_objective_type_t')
    tags = {k: tg['CCS_DATA_TYPE_' + k] for k in ('INT', 'FLOAT', 'STRING')}
    types = {k: ty['CCS_OBJECTIVE_TYPE_' + k] for k in ('MINIMIZE', 'MAXIMIZE')}
    jobs = [(P.ext[n], tags, types) for n in sorted(P.public) if n.endswith('evaluation_compare') and len(P.ext[n].args) == 3]
    for (f, _, _), (found, n, i) in zip(jobs, pmap(two, jobs)):
        ctx.count('comparison_functions')
        for k, v in n.items(): ctx.count(k, v)
        if i: inc.append(f.name)
        for k, (t, l) in sorted(found.items()): ctx.finding('%s:%s' % (f.name, k), '%s %s' % (f.name, t), l)
    ctx.cov['incomplete'] = inc
    ctx.need('tuners', 1); ctx.need('comparisons', 1)


def ccs_reach(P, f):
    seen = {}; st = [f]
    while st:
        g = st.pop()
        if id(g) in seen: continue
        seen[id(g)] = g
        for b in g.blocks:
            for i in b:
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                    h = P.stat.get((g.tu, i.x['c']['v']))
                    if h is not None: st.append(h)
    return seen.values()


if __name__ == '__main__':
    main('C16', check, 'on every path through a tuner\'s report of an evaluation: an optimum is dropped only when the new evaluation was found better, kept only when it was not, and the new evaluation is left out only when found worse or equivalent', [])
