import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, pmap, slot_of, defs_of

# what the public headers document about the members of the callback vectors
OPTIONAL = {'suggest', 'serialize_user_state', 'deserialize_state'}
MANDATORY = {'del', 'ask', 'tell', 'get_optima', 'get_history', 'get_child'}


def weight(f): return sum(len(b) for b in f.blocks)


def is_fnptr(P, t):
    t = (t or '').replace('const ', '')
    for _ in range(5):
        if '(' in t: return True
        b = t.rstrip(' *')
        if b not in P.typedefs: return False
        t = P.typedefs[b]
    return '(' in t


def vectors(P):
    """struct name -> {offset: member} of the callback vectors a caller supplies"""
    out = {}
    for n, d in P.di.items():
        if not re.match(r'struct\.ccs_\w*vector_s$', n): continue
        m = {x['o']: x['n'] for x in d['m'] if is_fnptr(P, x['t'])}
        if m: out[n] = m
    return out


def gep_slot(fn, v):
    d = defs_of(fn); g = d.get(v) if isinstance(v, int) else None
    if g is None or g.op != 'getelementptr': return None
    ss = [s for s in g.x['steps'] if 's' in s]
    return (ss[-1]['s'].lstrip('%'), ss[-1]['o']) if ss else None


class Calls(Client):
    """every call through a function pointer of a caller: is it known to be there?"""
    max_depth = 4

    def __init__(self, slots, creators): self.slots = slots; self.creators = creators; self.src = {}; self.res = {}; self.own = set(); self.rets = []; self.want = None

    def init(self, eng, st): return {'cp': frozenset(), 'nn': frozenset()}

    def key(self, st): return (st.cl['cp'], st.cl['nn'])

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) < 600

    def note(self, eng, st, inst, addr):
        s = gep_slot(st.fr.fn, inst.ops[0])
        if s is None and inst.op == 'load':
            # the first member of a structure is reached without an offset
            a = inst.ops[0]
            if isinstance(a, int) and a < len(st.fr.fn.args):
                d = st.fr.fn.args[a]['dt'].replace('const ', '')
                m = re.match(r'(ccs_\w+_vector)_t \*$', d)
                if m: s = ('struct.' + m.group(1) + '_s', 0)
        return s

    def on_load(self, eng, st, inst, addr, size):
        if inst.op != 'load' or size != 8: return
        s = self.note(eng, st, inst, addr)
        if s in self.slots:
            t = eng.load(st, addr, 8)
            if isinstance(t, Term): self.src[t] = (s, addr)

    def on_branch(self, eng, st, inst, cond, taken):
        if not isinstance(cond, Term) or cond.op != 'cmp' or cond.a[0] not in ('eq', 'ne'): return
        for t, o in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
            if t in self.src and o is ZERO and (cond.a[0] == 'ne') == bool(taken):
                # the members of a vector kept in an object do not change: found present once, present later
                st.cl = dict(st.cl); st.cl['nn'] = st.cl['nn'] | {self.src[t][0]}

    def on_store(self, eng, st, inst, addr, val, size):
        if inst.op == 'store' and size == 8 and isinstance(val, Term):
            s = gep_slot(st.fr.fn, inst.ops[1])
            if s in self.slots and val.op != 'c' or s in self.slots and val is not ZERO:
                ok = st.facts.ev(tcmp('ne', val, ZERO)) is True or self.src.get(val, (None,))[0] == s
                k = ('store', s, st.fr.fn.name, inst.id)
                self.res[k] = self.res.get(k, (True,))[0] and ok, st.fr.fn.loc(inst)
        if size is None and self.want is not None:
            n = eng.val(st, inst.ops[2]) if len(inst.ops) > 2 else None
            src = eng.val(st, inst.ops[1]) if len(inst.ops) > 1 else None
            if src is self.want[0] and isinstance(n, Term) and n.op == 'c':
                st.cl = {'nn': st.cl['nn'], 'cp': st.cl['cp'] | frozenset(o for o in self.want[1] if o + 8 <= n.a[0])}
        elif self.want is not None and isinstance(val, Term) and val in self.src and inst.op == 'store':
            s, a = self.src[val]
            if root_of(a) is self.want[0] and root_of(addr).op in ('heap', 'ret', 'call'):
                st.cl = {'nn': st.cl['nn'], 'cp': st.cl['cp'] | {s[1]}}

    def on_call(self, eng, st, i, name, callee, args):
        if isinstance(name, str):
            if name in RAISE: return STOP
            if name in self.creators and callee is not None:
                k, sn = self.creators[name]
                site = st.fr.ctx + ((st.fr.fn.name, i.id),)
                r = mk('ret', name, site); v = args[k] if k < len(args) else None
                if isinstance(v, Term):
                    st.cl = dict(st.cl); ok = []
                    for o, m in sorted(VEC[sn].items()):
                        if m in MANDATORY: ok.append((padd(v, o), o))

                    def good(s):
                        if s.facts.learn(tcmp('lt', r, ZERO), False) is False: return False
                        for a, o in ok:
                            t = eng.load(s, a, 8)
                            if isinstance(t, Term): s.facts.learn(tcmp('ne', t, ZERO), True)

                    def bad(s): return s.facts.learn(tcmp('lt', r, ZERO), True)
                    for j, a in enumerate(args):
                        if root_of(a).op == 'alloca' and a is not v: eng.region(st, 'out', a, None, (name, site, j))
                    return [(r, good), (r, bad)]
            return None
        t = name if isinstance(name, Term) else eng.val(st, i.x['c'])
        s = self.src.get(t, (None,))[0] or slot_of(self.p, st.fr.fn, i)
        if s not in self.slots:
            return None
        addr = self.src.get(t, (None, None))[1]
        known = st.facts.ev(tcmp('ne', t, ZERO)) is True or s in st.cl['nn']
        # a vector kept inside an object was verified when the object was created
        kept = addr is not None and not (root_of(addr).op == 'arg' and not any(x.op == 'ld' for x in subterms(addr)))
        k = ('call', s, st.fr.fn.name, i.id)
        o = self.res.get(k, (True, None, True))
        self.res[k] = (o[0] and known, st.fr.fn.loc(i), o[2] and kept)
        return None

    def on_ret(self, eng, st, inst, val):
        if self.want is None or len(st.frames) > 1: return
        if isinstance(val, Term) and st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        v, ms = self.want
        seen = {}
        for t, (s, a) in self.src.items():
            if root_of(a) is v: seen.setdefault(s[1], []).append(t)
        nn = {o for o, ts in seen.items() if any(st.facts.ev(tcmp('ne', t, ZERO)) is True for t in ts)}
        nul = {o for o, ts in seen.items() if any(st.facts.ev(tcmp('ne', t, ZERO)) is False for t in ts)}
        self.rets.append((nn, nul, st.cl['cp'], st.fr.fn.loc(inst)))


def subterms(t, n=0):
    if not isinstance(t, Term) or n > 30: return
    yield t
    for a in t.a:
        if isinstance(a, Term): yield from subterms(a, n + 1)


VEC = {}


def one(f):
    P = ccs._W['prog']
    c = Calls(ccs._W['slots'], {k: v for k, v in ccs._W['creators'].items() if k != f.name}); c.p = P
    if f.name in ccs._W['creators']:
        k, sn = ccs._W['creators'][f.name]
        a = mk('arg', k, f.args[k]['n']) if False else None
        c.wantk = (k, VEC[sn])
    e = Engine(P, c, max_steps=300000, max_states=8000)
    if f.name in ccs._W['creators']:
        def setup(st):
            k, ms = c.wantk
            c.want = (st.frames[0].env.get(k) if hasattr(st.frames[0].env, 'get') else st.frames[0].env[k], ms)
        e.run(f, setup=setup)
    else: e.run(f)
    return c.res, c.rets, e.incomplete


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    VEC.clear(); VEC.update(vectors(P))
    slots = {(n, o): m for n, ms in VEC.items() for o, m in ms.items()}
    for n, d in P.di.items():
        if re.search(r'_ops_s$|^struct\.UT_|^union|^struct\.(rb|_IO)', n) or n in VEC: continue
        for m in d['m']:
            if is_fnptr(P, m['t']) and (n, m['o']) not in M.slots and n in {'struct._ccs_object_callback_s', 'struct._ccs_object_internal_s', 'struct._ccs_object_serialize_options_s', 'struct._ccs_object_deserialize_options_s'}:
                slots[(n, m['o'])] = m['n']
    creators = {}
    for f in P.unique_funcs():
        if f.internal or f.ret_type != 'ccs_result_t': continue
        for k, a in enumerate(f.args):
            m = re.match(r'(ccs_\w*vector)_t \*$', a['dt'].replace('const ', ''))
            if m and 'struct.' + m.group(1) + '_s' in VEC: creators[f.name] = (k, 'struct.' + m.group(1) + '_s')
    ctx.count('callback_vectors', len(VEC)); ctx.count('callback_slots', len(slots)); ctx.count('creators', len(creators))
    ccs._W.update(prog=P, model=M, slots=set(slots), creators=creators)
    touch = {s[0] for s in slots}

    def relevant(f):
        d = defs_of(f)
        for b in f.blocks:
            for i in b:
                if i.op == 'call' and isinstance(i.x['c'], int): return True
                if i.op == 'getelementptr' and any((s.get('s') or '').lstrip('%') in touch and 's' in s for s in i.x['steps']): return True
        return f.name in creators
    rel = [f for f in P.unique_funcs() if relevant(f)]
    # callers of static helpers: the guard may stand there
    names = {f.name for f in rel if f.internal}
    callers = {}
    for f in P.unique_funcs():
        for b in f.blocks:
            for i in b:
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('v') in names: callers.setdefault(i.x['c']['v'], set()).add(f.key())
    byk = {f.key(): f for f in P.unique_funcs()}
    todo = {f.key(): f for f in rel}
    for n in names:
        for k in callers.get(n, ()): todo[k] = byk[k]
    fs = list(todo.values())
    out = dict(zip([f.key() for f in fs], pmap(one, fs)))
    mand_ok = {}
    # 1. creation
    for f in fs:
        res, rets, inc = out[f.key()]
        ctx.count('functions')
        if inc: ctx.count('incomplete')
        if f.name not in creators: continue
        k, sn = creators[f.name]
        if not rets: raise CheckError('no successful path found in ' + f.name)
        for o, m in sorted(VEC[sn].items()):
            ctx.count('obligations')
            if m in MANDATORY:
                miss = [r for r in rets if o not in r[0]]
                mand_ok[(sn, o)] = mand_ok.get((sn, o), True) and not miss
                if miss: ctx.finding('%s:mandatory:%s' % (f.name, m), '%s succeeds although the mandatory callback %s of the vector may be missing' % (f.name, m), miss[0][3])
            elif m in OPTIONAL and all(o in r[0] for r in rets):
                ctx.finding('%s:optional:%s' % (f.name, m), '%s refuses a vector without the optional callback %s' % (f.name, m), f.loc(f.blocks[0][0]))
            miss = [r for r in rets if o not in r[2]]
            if miss and not inc: ctx.finding('%s:kept:%s' % (f.name, m), '%s does not keep the callback %s it was given' % (f.name, m), miss[0][3])
    # 2. calls
    stores = {}
    for key, (res, rets, inc) in out.items():
        for k, v in res.items():
            if k[0] == 'store': stores.setdefault(k[1], []).append((v[0], k[2]))
    calls = {}
    for key, (res, rets, inc) in out.items():
        f = byk[key]
        for k, v in res.items():
            if k[0] == 'call': calls.setdefault(k[1:], {})[f.name] = v
    for (s, fn, iid), by in sorted(calls.items(), key=str):
        ctx.count('callback_calls')
        nm = slots[s]
        # judged in the function itself or, for a static helper, in all its callers
        ctxs = {n: v for n, v in by.items() if n != fn}
        vs = list(ctxs.values()) if ctxs and fn not in {f.name for f in fs if not f.internal} else [by[fn]] if fn in by else list(by.values())
        if fn in by and by[fn][0]: continue
        for known, loc, kept in vs:
            if known: continue
            if s[0] in VEC and kept and mand_ok.get(s): continue
            if s[0] not in VEC and stores.get(s) and all(x for x, _ in stores[s]): continue
            ctx.finding('%s:call:%s' % (fn, nm), '%s calls the callback %s which was not verified to be present' % (fn, nm), loc)
            break
    ctx.need('callback_vectors', 4); ctx.need('creators', 4); ctx.need('callback_calls', 30)


if __name__ == '__main__':
    main('C17', check, 'a callback is only called on paths that found it present, or when creation verified it; creation succeeds only with every mandatory callback', [])
