import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, pmap, slot_of
from lin import lin


def weight(f): return sum(len(b) for b in f.blocks)


def base_of(t):
    while isinstance(t, Term):
        t = root_of(t)
        if t.op == 'ld' and isinstance(t.a[0], Term): t = t.a[0]
        else: return t
    return t


def bare(t):
    while isinstance(t, Term) and t.op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'): t = t.a[0]
    return t


class Eng(Engine):
    def load(self, st, addr, size):
        b, o = split_off(addr)
        if b.op == '[]' and addr not in st.mem:
            for x in st.cl['arr']:
                if x[0] is b.a[0] and x[1:3] == (b.a[2], o) and x[3] is not None: return x[3]
        if b.op == '[]' and not 0 <= o < b.a[2] and addr not in st.mem:
            for d in (0, 4):
                x = st.mem.get(padd(mk('[]', b.a[0], STAR, b.a[2]), o % b.a[2] - d))
                if x is not None and x[1] >= (size or 8) + d: return self.part(x[0], d, size or 8) if x[1] != size else x[0]
        if b.op == '[]' and addr not in st.mem and padd(mk('[]', b.a[0], STAR, b.a[2]), o) not in st.mem:
            rb, ro = split_off(b.a[0])
            for kind, xb, xo, xn, data in st.regions:
                if kind == 'copy' and xn is None and xb is rb and xo == ro: return self.load(st, padd(mk('[]', data, b.a[1], b.a[2]), o), size)
        return Engine.load(self, st, addr, size)


class Sig:
    """what the parameters of a function are for the caller"""
    def __init__(self, f):
        self.f = f; self.strings = []; self.datums = []; self.arrays = []; self.pointers = []; self.outs = []; self.state = set()
        for k, a in enumerate(f.args):
            d = a['dt'].replace('const ', '').replace(' const', '').replace(' ', ''); n = a['n'] or ''
            ret = n.endswith('_ret')
            if d == 'ccs_datum_t' and k + 1 < len(f.args) and f.args[k + 1]['n'] == n + '#hi': self.datums.append(k)
            elif d == 'ccs_datum_t' and a.get('t') == 'ptr': self.arrays.append(k)       # by reference
            elif d == 'ccs_datum_t*': (self.outs if ret else self.arrays).append(k)
            elif d == 'char*': self.strings.append(k)
            elif d.endswith('*') and d != 'void*' and not d.startswith(('_', 'gsl_', 'FILE')): self.pointers.append(k)
            elif d.startswith('_') and d.endswith('*') or a.get('t') == 'ptr' and d.endswith('_t') and not d.endswith(('user_data_t', 'callback_t')): self.state.add(k)


class Keep(Client):
    max_depth = 5

    def __init__(self, P, sig, hi): self.p = P; self.s = sig; self.hi = hi; self.bad = {}; self.rets = 0; self.cells = 0; self.sinks = set()

    def init(self, eng, st): return {'freed': frozenset(), 'bulk': frozenset(), 'kept': frozenset(), 'arr': frozenset()}

    def key(self, st): return (st.cl['freed'], st.cl['bulk'], st.cl['kept'], st.cl['arr'], tuple(st.facts.ev(tcmp('eq', t, ZERO)) for t in self.ds))

    def inline(self, eng, st, fn, args, inst):
        return fn.internal and weight(fn) < 3000

    def persistent(self, st, addr):
        b = base_of(addr)
        if not isinstance(b, Term): return False
        if b.op == 'heap': return b not in st.cl['freed']
        if b.op == 'arg':
            k = b.a[0]
            if k in self.s.outs: return bool(self.s.datums or self.s.arrays)
            return k in self.s.state
        return b.op in ('g', 'ret')

    def caller(self, st, v):
        """the parameter whose memory a value points to"""
        v = bare(v)
        if not isinstance(v, Term): return None
        r = root_of(v)
        if r.op == 'arg':
            k = r.a[0]
            if k in self.s.strings or k in self.s.arrays or k in self.s.pointers: return k, 'the address of'
            if k in self.s.datums: return k, 'the transient string of'
        if v.op == 'ld' and isinstance(v.a[0], Term):
            b = root_of(v.a[0])
            if b.op == 'arg' and b.a[0] in self.s.arrays:
                l = lin(v.a[0])
                if l.k % 16 == 0: return b.a[0], 'a transient string of'
        return None

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm in ('free', 'realloc') and args and isinstance(args[0], Term):
            h = root_of(args[0])
            if h.op == 'heap': st.cl = dict(st.cl); st.cl['freed'] = st.cl['freed'] | {h}
            return None
        if nm in ('malloc', 'calloc'): return None
        if nm == 'strlen':
            r = mk('ret', nm, args[0])
            return [(r, lambda z: z.facts.learn(tcmp('ge', r, ZERO), True))]
        site = st.fr.ctx + ((st.fr.fn.name, i.id),)
        if callee is None and nm is None:
            sl = slot_of(self.p, st.fr.fn, i)
            fs = ccs._W['model'].slot_funcs(sl) if sl else []
            ro = [j for j in range(len(args)) if fs and all(j < len(g.args) and g.args[j]['dt'].startswith('const ') for g in fs)]
            if ro:
                def eff(z):
                    rw = {root_of(a) for j, a in enumerate(args) if j not in ro and isinstance(a, Term)}
                    for j, a in enumerate(args):
                        if isinstance(a, Term) and root_of(a).op == 'alloca' and root_of(a) in rw: eng.region(z, 'out', a, None, ('slot', site, j))
                return [(mk('ret', 'slot', site), eff)]
            return None
        if callee is not None and not (self.inline(eng, st, callee, args, i) and len(st.frames) <= self.max_depth):
            outs = []
            for j, a in enumerate(callee.args):
                d = a['dt'].replace(' ', '')
                if d == 'ccs_datum_t*' and j < len(args) and isinstance(args[j], Term) and args[j] is not ZERO: outs.append(j)
            if outs:
                def eff(z):
                    for j in outs:
                        if base_of(args[j]).op == 'arg' and base_of(args[j]).a[0] in self.s.arrays: continue
                        self.word(eng, z, args[j], mk('out', nm, site, j))
                        eng.store(z, args[j], mk('out', nm, site, j), 8); eng.store(z, padd(args[j], 8), mk('out', nm, site, j, 8), 8)
                r = mk('ret', nm, site)
                return [(r, lambda z: (eff(z), z.facts.learn(tcmp('ge', r, ZERO), True))[1]), (r, lambda z: z.facts.learn(tcmp('lt', r, ZERO), True))]
        return None

    def fixed(self, st, addr):
        if not isinstance(addr, Term): return
        b, o = addr, 0
        hit = [x for x in st.cl['bulk'] if not x[2] and contains(addr, lambda y: y is x[0])]
        if hit:
            st.cl = dict(st.cl); st.cl['bulk'] = (st.cl['bulk'] - set(hit)) | {(d, k, True, n) for d, k, f, n in hit}

    def on_store(self, eng, st, inst, addr, val, size):
        if not isinstance(addr, Term): return
        if isinstance(val, Term) and val.op == 'copyof':
            src, n = val.a[0], val.a[1]
            r = root_of(src)
            if r.op == 'arg' and r.a[0] in self.s.arrays and st.facts.const(n) is None:
                st.cl = dict(st.cl); st.cl['bulk'] = frozenset(x for x in st.cl['bulk'] if x[0] is not addr) | {(addr, r.a[0], False, n)}
            elif st.facts.const(n) is not None and 8 <= st.facts.const(n) <= 256:
                for o in range(0, st.facts.const(n) - 7, 8): self.word(eng, st, padd(addr, o), eng.load(st, padd(src, o), 8))
            return
        b, o = split_off(addr)
        if b.op == 'arg' and o == 0 and size in (1, 4): b = mk('[]', b, ZERO, size)
        if b.op == '[]' and root_of(b).op == 'arg':
            # a flag array of the caller in which every store of the path puts the same constant
            old = [x for x in st.cl['arr'] if x[0] is b.a[0] and x[1:3] == (b.a[2], o)]
            v = val if isinstance(val, Term) and val.op == 'c' and all(x[3] is val for x in old) else None
            new = (st.cl['arr'] - set(old)) | {(b.a[0], b.a[2], o, v)}
            if new != st.cl['arr']: st.cl = dict(st.cl); st.cl['arr'] = new
        if size == 8: self.word(eng, st, addr, val)

    def word(self, eng, st, addr, v):
        self.fixed(st, addr)
        if not self.persistent(st, addr): return
        self.cells += 1
        w = self.caller(st, v)
        kept = frozenset(x for x in st.cl['kept'] if x[0] is not addr)
        if w is not None and st.facts.ev(tcmp('eq', bare(v), ZERO)) is not True: kept |= {(addr,) + w + (bare(v),)}
        if kept != st.cl['kept']: st.cl = dict(st.cl); st.cl['kept'] = kept

    def on_ret(self, eng, st, inst, val):
        if len(st.frames) > 1: return
        if isinstance(val, Term) and st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        self.rets += 1
        f = eng.root
        for a, k, what, v in st.cl['kept']:
            if not self.persistent(st, a) or st.facts.ev(tcmp('eq', v, ZERO)) is True: continue
            self.bad.setdefault((f.args[k]['n'] or str(k)), ('%s keeps %s the caller\'s %s in %s instead of a copy' % (f.name, what, f.args[k]['n'], show(a)), f.loc(inst)))
        for d, k, fx, n in st.cl['bulk']:
            self.cells += 1
            if fx or not self.persistent(st, d): continue
            l = lin(n)
            cnt = mk('arg', k - 1, f.args[k - 1]['n'] or 'arg%d' % (k - 1)) if k else None
            zero = any(st.facts.ev(tcmp('eq', t, ZERO)) is True or st.facts.const(t) == 0 or st.facts.bounds(t)[1] == 0 for t in list(l.c) + ([cnt] if cnt is not None else []))
            if zero: continue
            if st.facts.ev(tcmp('eq', mk('arg', k, f.args[k]['n'] or 'arg%d' % k), ZERO)) is True: continue
            self.bad.setdefault((f.args[k]['n'] or str(k)), ('%s copies the values in %s with the addresses of their transient strings and does not replace them' % (f.name, f.args[k]['n']), f.loc(inst)))


def one(f):
    P = ccs._W['prog']; hi = ccs._W['hi']
    s = Sig(f)
    c = Keep(P, s, hi)
    e = Eng(P, c, max_steps=400000, max_states=6000)
    args = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]
    c.ds = [args[k] for k in s.datums]
    for k in s.datums: args[k + 1] = C(hi)

    def setup(st):
        for a, t in zip(f.args, args):
            if a['dt'].replace('const ', '') in ('size_t', 'uint64_t', 'uint32_t'): st.facts.iv[t] = (0, None)
        for k in s.arrays:
            for b in (args[k], mk('[]', args[k], STAR, 16)):
                st.mem[padd(b, 8)] = (C(hi), 8)
    e.run(f, args=args, setup=setup)
    return c.bad, c.rets, c.cells, e.incomplete


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    dt = P.enum('ccs_data_type_e', 'ccs_data_type_t'); fl = P.enum('ccs_datum_flag_e', 'ccs_datum_flag_t')
    if 'CCS_DATA_TYPE_STRING' not in dt or 'CCS_DATUM_FLAG_TRANSIENT' not in fl: raise CheckError('value tags not found')
    ccs._W.update(prog=P, model=M, hi=dt['CCS_DATA_TYPE_STRING'] | fl['CCS_DATUM_FLAG_TRANSIENT'] << 32)
    slots = {f.name for v in M.slots.values() for t, n in v for f in [P.stat.get((t, n)) or P.ext.get(n)] if f}
    fs = []
    for f in P.unique_funcs():
        if not (f.name in P.public or f.name in slots): continue
        if 'error_stack' in f.name or 'thread_error' in f.name: continue      # source locations are literals by contract
        s = Sig(f)
        if s.strings or s.datums or s.arrays or s.pointers: fs.append(f)
        ctx.count('strings', len(s.strings)); ctx.count('values', len(s.datums) + len(s.arrays)); ctx.count('arrays', len(s.pointers))
    inc = []
    for f, (bad, rets, cells, i) in zip(fs, pmap(one, fs)):
        ctx.count('functions'); ctx.count('success_returns', rets); ctx.count('stored_words_checked', cells)
        if i: inc.append(f.name)
        for k, (t, l) in bad.items(): ctx.finding('%s:%s' % (f.name, k), t, l)
    ctx.cov['incomplete_functions'] = inc
    ctx.need('functions', 100); ctx.need('strings', 20); ctx.need('values', 15); ctx.need('stored_words_checked', 500)


if __name__ == '__main__':
    main('C18', check, 'at every successful return no word of object memory is an address in memory of the caller', [])
