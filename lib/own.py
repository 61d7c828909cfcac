"""Ownership of references, memory blocks and descriptors along every path of a function (see DESIGN.md, C04)."""
import re
from engine import *
import ccs, summ
from ccs import RAISE, slot_of, defs_of

BLK_NEW = {'malloc', 'calloc', 'strdup', 'strndup'}
GSL_NEW = {'gsl_rng_alloc', 'gsl_rng_clone'}
FREE = {'free': 'block', 'gsl_rng_free': 'rng', 'munmap': 'map', 'close': 'fd'}
RETAIN, RELEASE = 'ccs_retain_object', 'ccs_release_object'
OPS_OFF = 24
RESFN = BLK_NEW | GSL_NEW | set(FREE) | {'realloc', 'mmap', 'open', RETAIN, RELEASE}


def relevant(P, M, f):
    """does f, or something it calls, acquire, release or store pointers?"""
    r = getattr(f, '_ownrel', None)
    if r is not None: return r
    f._ownrel = False
    d = defs_of(f)
    res = False
    for bl in f.blocks:
        for i in bl:
            if i.op == 'store':
                v = i.ops[0]
                if isinstance(v, int):
                    t = f.args[v]['t'] if v < len(f.args) else d[v].ty if v in d else None
                    if t == 'ptr': res = True
                elif v.get('k') in ('null', 'fn', 'g', 'gep'): res = True
            elif i.op == 'call':
                c = i.x['c']
                if isinstance(c, dict) and c.get('k') == 'fn':
                    n = c['v']
                    if n in RESFN: res = True
                    elif n in RAISE or n.startswith('llvm.'):
                        if n.startswith('llvm.mem'): res = True
                    else:
                        g = P.resolve(f.tu, n)
                        if g is not None and relevant(P, M, g): res = True
            if res: break
        if res: break
    f._ownrel = res
    return res


def creator(f):
    """hands an object over through a pointer: described by its summary"""
    return f.ret_type == 'ccs_result_t' and any(handle_ptr(a['dt']) for a in f.args)


def handle_ptr(dt):
    return bool(re.match(r'^(const )?ccs_(?!datum|bool|int|float|hash)\w+_t \*$', dt or '')) and not re.match(r'^ccs_\w*(type|format|operation|result|comparison)_t', dt)


def writes(P, f):
    """argument positions whose pointee f may write (or keep): least fixpoint over the call graph"""
    W = getattr(P, '_writes', None)
    if W is None: W = P._writes = all_writes(P)
    r = W.get(summ.rep(P, f))
    return r if r is not None else set(range(len(f.args)))


def all_writes(P):
    M = ccs._W['model']
    W = {f: set() for f in summ.canon(P).values()}
    local = {}       # (f, k) -> [(callees or None, position)] : where the argument goes
    for f in W:
        for k in range(len(f.args)):
            if 'ptr' not in f.args[k]['t']: continue
            der = {k}; ch = True; w = False; to = []
            while ch:
                ch = False
                for bl in f.blocks:
                    for i in bl:
                        if i.op in ('getelementptr', 'bitcast', 'select', 'phi', 'freeze', 'ptrtoint', 'inttoptr', 'add', 'sub'):
                            if i.id not in der and any(isinstance(o, int) and o in der for o in i.ops): der.add(i.id); ch = True
            for bl in f.blocks:
                for i in bl:
                    if i.op == 'store':
                        if any(isinstance(o, int) and o in der for o in i.ops): w = True
                    elif i.op == 'call':
                        hit = [n for n, o in enumerate(i.ops) if isinstance(o, int) and o in der]
                        if not hit: continue
                        c = i.x['c']; nm = c['v'] if isinstance(c, dict) and c.get('k') == 'fn' else None
                        if nm is None:
                            sl = slot_of(P, f, i); fs = M.slot_funcs(sl) if sl else None
                            if not fs: w = True
                            else: to += [(summ.rep(P, g), n) for g in fs for n in hit]
                            continue
                        if nm.startswith('llvm.dbg') or nm in READONLY or nm in RAISE: continue
                        if nm.startswith(('llvm.mem', 'mem')):
                            if 0 in hit: w = True
                            continue
                        if nm.startswith('llvm.'): continue
                        g = P.resolve(f.tu, nm)
                        if g is None: w = True
                        else: to += [(summ.rep(P, g), n) for n in hit]
            if w: W[f].add(k)
            else: local[f, k] = to
    ch = True
    while ch:
        ch = False
        for (f, k), to in local.items():
            if k not in W[f] and any(n in W[g] or n >= len(g.args) for g, n in to): W[f].add(k); ch = True
    return W


def ut_off(P):
    for n, d in P.structs.items():
        if 'UT_array' in n: return d['e'][-1]['o']
    return -1


def container_allocs(f):
    """allocations that become part of a hash table (table header, buckets): the container's own bookkeeping"""
    r = getattr(f, '_contal', None)
    if r is None:
        r = set(); d = defs_of(f)
        users = {}
        for bl in f.blocks:
            for i in bl:
                for o in i.ops:
                    if isinstance(o, int): users.setdefault(o, []).append(i)
        for bl in f.blocks:
            for i in bl:
                c = i.x.get('c') if i.op == 'call' else None
                if not (isinstance(c, dict) and c.get('v') in ('malloc', 'calloc', 'realloc')): continue
                todo = [i.id]; seen = set()
                while todo:
                    v = todo.pop()
                    if v in seen: continue
                    seen.add(v)
                    for u in users.get(v, ()):
                        if u.op in ('phi', 'select', 'bitcast'): todo.append(u.id)
                        elif u.op == 'store' and u.ops[0] == v and isinstance(u.ops[1], int):
                            g = d.get(u.ops[1])
                            if g is not None and g.op == 'getelementptr':
                                ss = [x for x in g.x['steps'] if 's' in x]
                                if ss and 'UT_hash' in ss[-1]['s'] and ss[-1]['o'] == 0: r.add(i.id)
                                if ss and 'UT_array' in ss[-1]['s'] and c['v'] == 'realloc': r.add(i.id)
        f._contal = r
    return r


def weight(f): return sum(len(b) for b in f.blocks)


_N = {}


def norm(t):
    """t with array indices and iteration counts dropped"""
    r = _N.get(t)
    if r is None: r = _N[t] = norm_(t)
    return r


def norm_(t):
    o = t.op
    if o == '[]': return norm(t.a[0])
    if o == '+':
        x = t.a[0]      # element i - 1 or i + 1 is an element too
        return padd(norm(x), t.a[1] % x.a[2] if x.op == '[]' and isinstance(x.a[2], int) and x.a[2] > 1 else t.a[1])
    if o == 'ld': return mk('ld', norm(t.a[0]))
    if o in ('heap', 'out', 'ret'):
        k = 0 if o == 'heap' else 1
        s = t.a[k]
        if isinstance(s, tuple) and s and isinstance(s[-1], tuple) and len(s[-1]) == 3:
            s = s[:-1] + (s[-1][:2] + ('*',),)
            a = list(t.a); a[k] = s
            return mk(o, *a)
    return t


_NS = {}


def names(v):
    r = _NS.get(v)
    if r is None: r = _NS[v] = tuple({v, norm(v), root_of(v), norm(root_of(v))})
    return r


_HI = {}


def has_idx(a):
    r = _HI.get(a)
    if r is None:
        x = a
        while x.op == '+': x = x.a[0]
        r = _HI[a] = x.op == '[]' or (x.op == '+' and has_idx(x.a[0]))
    return r


FZ = ('j', 'jm', 'lv', 'lvm', 'sel')


def neg_(inst): return False


_BN = {}
_BK = {}


def broker(P, D, f):
    """{argument: operations table} of a function that picks the table for a kind"""
    r = _BK.get(f.key())
    if r is None:
        r = {}
        if len(f.args) == 1 and f.internal and weight(f) < 400 and f.args[0]['t'].startswith('i') and not any(i.op == 'call' and not str((i.x['c'] or {}).get('v') if isinstance(i.x['c'], dict) else '').startswith('llvm.') for b in f.blocks for i in b):
            class R(Client):
                def on_ret(self, eng, st, inst, val): self.out.add(val)
            for c in range(-1, 64):
                cl = R(); cl.out = set()
                Engine(P, cl, max_steps=2000, max_states=200).run(f, [C(c)])
                if len(cl.out) == 1:
                    v = cl.out.pop()
                    if v is not None and v.op == 'g' and (v.a[0], v.a[1]) in D.tab: r[c] = v
        _BK[f.key()] = r
    return r


class Own(Client):
    max_depth = 8
    dels = None; delnames = slotnames = frozenset()

    def __init__(self, P, M, looprel=None, wmax=900, coarse=False):
        self.coarse = coarse; self.edge = None; self.wr = {}; self.utd = set(); self.ut_d = ut_off(P)
        self.p = P; self.m = M; self.finds = {}; self.looprel_in = looprel or {}; self.looprel = {}
        self.wmax = wmax; self.acq = set(); self.rels = set(); self.rets = 0; self.obl = 0
        self.outs = None; self.frees = None; self.retnew = None; self.root_ok = []; self.neutral = True; self.lenw = set(); self.straight = {}; self.delrets = []

    # cl: res {key: (kind, n, old, label, id)}, dead {terms}, neg {term: n}
    def init(self, eng, st): return {'res': {}, 'dead': frozenset(), 'neg': {}, 'al': {}}

    def key(self, st):
        c = st.cl
        if self.coarse: return tuple(sorted((k.n, v[1], v[2]) for k, v in c['res'].items() if v[5]))
        if not c['res']: return (c['dead'], tuple(sorted((k.n, v) for k, v in c['neg'].items())))
        h = self.held(st)
        return (c['dead'], tuple(sorted((k.n, v) for k, v in c['neg'].items())), tuple(sorted((k.n, v[1], v[2], h.get(k, 0)) for k, v in c['res'].items())))

    def xkey(self, st): return frozenset(st.cl['al'].items())

    def holds(self, st, v):
        """tracked resources that value v is, points into, or may be after a join"""
        res = st.cl['res']; out = [x for x in names(v) if x in res]
        if v.op in FZ or root_of(v).op in FZ:
            al = st.cl['al']
            for t in (v, root_of(v)):
                if t.op == 'sel':
                    for y in t.a[1:]: out += self.holds(st, y)
                for x in al.get(t, ()):
                    if x in res and x not in out: out.append(x)
        return out

    def cell(self, st, a, v):
        """resources a memory cell may hold; an array cell stands for all elements"""
        h = self.holds(st, v)
        if st.cl['al'] and has_idx(a):
            res = st.cl['res']
            for x in st.cl['al'].get(mk('@', norm(a)), ()):
                if x in res and x not in h: h = h + [x]
        return h

    def held(self, st):
        """how often each resource is kept in memory: 0 nowhere, 1.. in that many places that survive, -1 only in locals"""
        good, seen = self.reach(None, st, None, False)
        out = {}
        res = st.cl['res']
        for a, v in good.items():
            for x in self.cell(st, a, v): out[x] = min(out.get(x, 0) + 1, 1 if res[x][5] or res[x][0] != 'ref' else res[x][1])
        for a, (v, z) in st.mem.items():
            for x in self.cell(st, a, v):
                if x not in out: out[x] = -1
        return out

    def holdings(self, st):
        """(place, resources) for every memory cell and local value that may hold one"""
        if not st.cl['res']: return {}
        out = {}
        for a, (v, z) in st.mem.items():
            h = self.holds(st, v)
            if h: out[a] = h
        for d, f in enumerate(st.frames):
            for k, v in f.env.items():
                h = self.holds(st, v)
                if h: out[(d, k)] = h
        return out

    def realias(self, st, before):
        """places whose value was replaced by a join or loop term keep the resources they may hold"""
        al = None
        for p, h in before.items():
            if isinstance(p, tuple):
                if p[0] >= len(st.frames): continue
                v = st.frames[p[0]].env.get(p[1])
            else: v = (st.mem.get(p) or (None,))[0]
            if v is None: continue
            t = v if v.op in FZ else root_of(v)
            if t.op not in FZ: continue
            cur = (al if al is not None else st.cl['al']).get(t, frozenset())
            new = cur | frozenset(x for x in h if x not in names(t))
            if new != cur:
                if al is None: al = dict(st.cl['al'])
                al[t] = new
        if al is not None:
            st.cl = dict(st.cl); st.cl['al'] = al
            return True
        return False

    def pre_merge(self, S, st):
        self.pm = (self.holdings(S), self.holdings(st))

    def rejoin(self, S, st):
        a = self.realias(S, self.pm[0]); b = self.realias(S, self.pm[1]); c = False
        for k, v in st.cl['al'].items():
            o = S.cl['al'].get(k, frozenset())
            if not v <= o:
                S.cl = dict(S.cl); S.cl['al'] = dict(S.cl['al']); S.cl['al'][k] = o | v; c = True
        return a or b or c

    def cow(self, st):
        c = st.cl; st.cl = {'res': dict(c['res']), 'dead': c['dead'], 'neg': dict(c['neg']), 'al': c['al']}
        return st.cl

    def inline(self, eng, st, fn, args, inst):
        if not (fn.internal and weight(fn) <= self.wmax and relevant(self.p, self.m, fn) and not creator(fn)): return False
        s = (ccs._W.get('sum') or {}).get((fn.name, fn.file, fn.line))
        # everything it takes it gives back itself
        return not (s and s.get('neutral'))

    def on_store(self, eng, st, inst, addr, val, size):
        for f in st.frames:
            for h in f.loops: self.wr.setdefault(f.ctx + (('h', f.fn.name, h),), set()).add(addr)
        self.lenw.add(addr)
        if root_of(addr).op != 'alloca' and (val.op == 'copyof' or size == 8) and self.inloop(st):
            # an element of one array is handed over to another, element by element
            src = val.a[0] if val.op == 'copyof' else None if val.op in ('c', 'f', 'str', 'g', 'fn', 'arg') else self.cell_of(st, val, True)
            if src is not None and (has_idx(src) or val.op != 'copyof') and norm(src) is not norm(addr):
                for f in st.frames:
                    for h in f.loops: self.looprel.setdefault(f.ctx + (('h', f.fn.name, h),), set()).add(('ref', None, norm(src)))
        if size == 8 and self.neutral and val.op not in ('c', 'f', 'str', 'g', 'fn') and not self.ownblk(st, addr) and inst is not None and self.ptrval(st, inst): self.neutral = False
        if val.op == 'copyof' and self.neutral and not self.ownblk(st, addr) and not self.plain(val.a[0]) and not self.ints(st, inst): self.neutral = False
        if has_idx(addr):
            if val.op == 'copyof':
                sb, so = split_off(val.a[0])
                todo = [(addr, mk('ld', val.a[0]))] + [(padd(addr, split_off(a)[1] - so), v) for a, (v, z) in st.mem.items() if split_off(a)[0] is sb and split_off(a)[1] >= so]
            elif size == 8: todo = [(addr, val)]
            else: return
            al = None
            if val is ZERO and addr in st.mem and not self.inloop(st):
                # the very element is cleared again
                old = st.mem[addr][0]; k = mk('@', norm(addr)); r = st.cl['res'].get(old)
                if r is not None and not r[5] and old.op not in FZ and old in st.cl['al'].get(k, ()) and not any(v is old and a is not addr and norm(a) is norm(addr) for a, (v, z) in st.mem.items()):
                    al = dict(st.cl['al']); al[k] = al[k] - {old}
            for a, v in todo:
                if v.op in ('c', 'f', 'str', 'g', 'fn'): continue
                k = mk('@', norm(a)); cur = (al or st.cl['al']).get(k, frozenset())
                new = cur | frozenset(names(v))
                if new != cur:
                    if al is None: al = dict(st.cl['al'])
                    al[k] = new
            if al is not None: st.cl = dict(st.cl); st.cl['al'] = al

    def ownblk(self, st, addr):
        """a local variable, or memory of this function's own that it has to give back anyway"""
        r = root_of(addr)
        return r.op == 'alloca' or r.op == 'heap' and (st.cl['res'].get(r) or st.cl['res'].get(norm(r)) or ('',))[0] == 'block'

    def ints(self, st, inst):
        """a copy from an element of an array of an arithmetic type"""
        if inst is None or inst.op != 'call' or len(inst.ops) < 2 or not isinstance(inst.ops[1], int): return False
        g = defs_of(st.fr.fn).get(inst.ops[1])
        return g is not None and g.op == 'getelementptr' and bool(re.match(r'(i16|i32|i64|double|float)$', g.x['steps'][-1].get('t') or ''))

    def plain(self, a):
        """a local variable of an arithmetic type"""
        if a.op != 'alloca': return False
        name, iid = a.a[0][-1]
        m = _BN.get(id(self.p))
        if m is None:
            m = _BN[id(self.p)] = {}
            for f in self.p.unique_funcs(): m.setdefault(f.name, []).append(f)
        for f in m.get(name, ()):
            i = defs_of(f).get(iid)
            if i is not None and i.op == 'alloca': return bool(re.match(r'(i\d+|double|float)$', i.x.get('at') or ''))
        return False

    def ptrval(self, st, inst):
        if inst.op != 'store': return True
        v = inst.ops[0]
        if not isinstance(v, int): return True
        f = st.fr.fn
        t = f.args[v]['t'] if v < len(f.args) else defs_of(f)[v].ty
        if t != 'ptr': return False
        g = defs_of(f).get(inst.ops[1]) if isinstance(inst.ops[1], int) else None
        if g is not None and g.op == 'getelementptr':
            ss = [x for x in g.x['steps'] if 's' in x]
            if ss and 'UT_array' in ss[-1]['s']: return False
        return True

    def inloop(self, st): return any(f.loops for f in st.frames)

    # -- acquire / release ------------------------------------------------
    def acquire(self, eng, st, t, kind, i, label):
        c = self.cow(st)
        self.acq.add((st.fr.fn.name, i.id))
        c['dead'] = c['dead'] - {t}
        if self.inloop(st):
            k = norm(t)
            r = c['res'].get(k)
            if r is None: c['res'][k] = (kind, 1, False, label, (st.fr.fn.name, i.id), True)
            else: c['res'][k] = (kind, 1 if r[1] == 0 else r[1] + (kind == 'ref' and t.op not in ('out', 'heap')), r[2], label, r[4], True)
        else:
            r = c['res'].get(t)
            if r is None: c['res'][t] = (kind, 1, False, label, (st.fr.fn.name, i.id), False)
            else: c['res'][t] = (kind, min(r[1] + 1, 3), r[2], label, r[4], False)
            n = c['neg'].get(t)
            if n:
                # released earlier, taken again
                pass

    def on_edge(self, eng, st, frame, block, k, newv, ctx):
        self.edge = self.holdings(st)

    def on_header(self, eng, st, frame, block, k):
        if self.edge: self.realias(st, self.edge)
        self.edge = None
        ctx = frame.ctx + (('h', frame.fn.name, block),)
        c = st.cl
        if k:
            ch = [x for x, r in c['res'].items() if r[5] and r[1]]
            if ch:
                c = self.cow(st)
                for x in ch:
                    r = c['res'][x]; c['res'][x] = (r[0], 0, True) + r[3:]
        lr = self.looprel_in.get(ctx)
        if lr and c['res']:
            # this loop releases every instance of these
            for pat in lr:
                for x in list(st.cl['res']):
                    if self.matches(st, x, pat):
                        c = self.cow(st); del c['res'][x]

    def matches(self, st, x, pat):
        kind, what, addr = pat
        if st.cl['res'][x][0] != kind: return False
        if what is not None and (x is what or norm(x) is what): return True
        if addr is not None:
            for a, (v, z) in st.mem.items():
                if norm(a) is addr and x in self.cell(st, a, v): return True
        return False

    def drop(self, st, x, kind, eng, i):
        """forget resource x entirely; release of an object constructed here also disposes of what it holds"""
        c = self.cow(st)
        del c['res'][x]

    def owned_by(self, st, h):
        """resources stored (transitively) inside block h"""
        out = set(); todo = [h]; seen = set()
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b)
            for a, (v, z) in st.mem.items():
                if root_of(a) is not b: continue
                for x in self.cell(st, a, v):
                    if x not in seen: out.add(x); todo.append(root_of(x))
        return out

    def release(self, eng, st, t, kind, i, name):
        if t is ZERO or st.facts.const(t) == 0: return
        self.rels.add((st.fr.fn.name, i.id))
        c = self.cow(st)
        inl = self.inloop(st)
        addr = norm(t.a[0]) if t.op == 'ld' else None
        if inl:
            for f in st.frames:
                for h in f.loops:
                    pats = self.looprel.setdefault(f.ctx + (('h', f.fn.name, h),), set())
                    pats.add((kind, norm(t), self.cell_of(st, t)))
        k = t if t in c['res'] else norm(t) if norm(t) in c['res'] else None
        if k is not None and c['res'][k][0] != kind and not (kind == 'ref' and c['res'][k][0] == 'block'): k = None
        if k is not None:
            r = c['res'][k]
            if kind == 'ref' and r[0] == 'block':
                # object constructed in this function
                for x in self.owned_by(st, k): c['res'].pop(x, None)
            n = r[1] - 1
            if r[5]:
                if r[1] > 0: c['res'][k] = (r[0], n, r[2]) + r[3:]
                else: c['res'][k] = (r[0], 0, False) + r[3:]
                r = c['res'][k]
                if not r[1] and not r[2]: del c['res'][k]
            elif n: c['res'][k] = (r[0], n) + r[2:]
            else:
                del c['res'][k]
                if t.op in ('heap', 'out') and not inl: c['dead'] = c['dead'] | {t}
            return
        if t in c['dead'] and not inl:
            self.report('double', t, i, st, (kind, name, None, show(t), i.line))
            return
        # by the address it was loaded from
        hit = [x for x in self.holds(st, t) if t.op in FZ and c['res'][x][0] in (kind, 'block')]
        if addr is not None:
            for a, (v, z) in list(st.mem.items()):
                if norm(a) is addr and (a is not t.a[0] or has_idx(a)):
                    for x in self.cell(st, a, v):
                        if c['res'][x][0] == kind: hit.append(x)
        for x in hit:
            if kind == 'ref' and c['res'].get(x, ('',))[0] == 'block':
                for y in self.owned_by(st, x): c['res'].pop(y, None)
            c['res'].pop(x, None)
        if hit: return
        if fuzzy(t): return
        if over_args(t):
            c['neg'][t] = min(c['neg'].get(t, 0) + 1, 3)
            if not inl and not contains(t, lambda x: x.op == '[]'):
                self.straight.setdefault(t, (kind, st.fr.fn.loc(i)))
                if c['neg'][t] == 2: self.report('double', t, i, st, (kind, name, None, show(t), i.line))

    def maybe(self, t, x, st):
        return True

    def cell_of(self, st, t, idx=False):
        if idx:
            if t.op == 'ld': return t.a[0] if has_idx(t.a[0]) else None
            for a, (v, z) in st.mem.items():
                if v is t and has_idx(a): return a
            return None
        if t.op == 'ld': return norm(t.a[0])
        # where the value sits
        for a, (v, z) in st.mem.items():
            if v is t and root_of(a).op != 'alloca': return norm(a)
        return None

    def report(self, kind, t, i, st, msg, where=None):
        k = (kind,) + (where or (st.fr.fn.name, i.id))
        self.finds.setdefault(k, (msg, st.fr.fn.loc(i) if i is not None else None))

    # -- calls --------------------------------------------------------------
    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(mk('raise', 0), None)]
        if callee is not None and self.dels is not None and len(args) == 1 and not isinstance(callee, str) and callee.ret_type != 'ccs_result_t':
            bk = broker(self.p, self.dels, callee)
            if bk:
                by = {}
                for c, g in bk.items():
                    if st.facts.ev(tcmp('eq', args[0], C(c))) is not False: by.setdefault(self.dels.tab[g.a[0], g.a[1]][0].key(), g)
                if by: return [(g, None) for g in by.values()]
        site = st.fr.ctx + ((st.fr.fn.name, i.id, st.cnt.get((st.fr.ctx, st.fr.fn.name, i.id), 0)),)
        if nm in BLK_NEW or nm in GSL_NEW:
            h = mk('heap', site, nm)
            kind = 'rng' if nm in GSL_NEW else 'block'
            if nm not in GSL_NEW and i.id in container_allocs(st.fr.fn):
                return [(h, lambda s: s.facts.learn(tcmp('ne', h, ZERO), True))]

            def fresh(s):
                for k in [k for k in s.mem if root_of(k) is h]: del s.mem[k]
                s.regions = tuple(r for r in s.regions if root_of(r[1]) is not h)
                s.cl['dead'] = s.cl['dead'] - {h}
                self.lost(eng, s, h, i)
                self.acquire(eng, s, h, kind, i, nm)
                return s.facts.learn(tcmp('ne', h, ZERO), True)
            return [(ZERO, None), (h, fresh)]
        if nm == 'realloc':
            h = mk('heap', site, nm); old = args[0]
            cont = i.id in container_allocs(st.fr.fn)

            def moved(s):
                c = self.cow(s)
                # contents move along
                if root_of(old).op == 'heap' and old is not h:
                    for a, cell in list(s.mem.items()):
                        if root_of(a) is old: s.mem[rebase(a, old, h)] = cell; del s.mem[a]
                if old is not ZERO and s.facts.const(old) != 0:
                    if old in c['res']: del c['res'][old]
                    elif norm(old) in c['res']: del c['res'][norm(old)]
                    elif old.op in FZ:
                        for x in self.holds(s, old): c['res'].pop(x, None)
                self.acquire(eng, s, h, 'cont' if cont else 'block', i, nm)
                return s.facts.learn(tcmp('ne', h, ZERO), True)
            return [(ZERO, None), (h, moved)]
        if nm == 'mmap':
            h = mk('heap', site, nm)
            def mok(s):
                self.acquire(eng, s, h, 'map', i, nm)
                return s.facts.learn(tcmp('ne', h, ZERO), True) and s.facts.learn(tcmp('ne', h, C(-1)), True)
            return [(C(-1), None), (h, mok)]
        if nm == 'open':
            r = mk('ret', nm, site)
            def ook(s):
                self.acquire(eng, s, r, 'fd', i, nm)
                return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(C(-1), None), (r, ook)]
        if nm in FREE:
            self.release(eng, st, args[0], FREE[nm], i, nm)
            return [(ZERO if i.ty else None, None)]
        if nm == RETAIN:
            t = args[0]; r = mk('ret', nm, site)
            def rok(s):
                self.acquire(eng, s, t, 'ref', i, nm)
                return s.facts.learn(tcmp('ne', t, ZERO), True)
            if st.facts.ev(tcmp('ne', t, ZERO)) is True: return [(ZERO, rok)]
            return [(C(-1), None), (ZERO, rok)]
        if nm == RELEASE:
            self.release(eng, st, args[0], 'ref', i, nm)
            return [(ZERO, None)]
        if nm is None and callee is None:
            sl = slot_of(self.p, st.fr.fn, i)
            # element hooks of the array container: no table in the program sets them
            if sl and 'UT_icd' in sl[0] and not self.m.slots.get(sl): return STOP
        if callee is not None and self.inline(eng, st, callee, args, i) and len(st.frames) <= self.max_depth and not any(x.fn is callee for x in st.frames):
            return None
        if callee is not None or self.m.is_result(st.fr.fn, i, name, callee):
            S = self.summary(st, i, name, callee)
            r = mk('ret', nm or 'ind', site)
            isres = self.m.is_result(st.fr.fn, i, name, callee)
            can_fail = isres and (callee is None or self.m.may_fail(callee))
            wr = writes(self.p, callee) if callee is not None else None; na = len(callee.args) if callee is not None else 0
            if callee is None:
                sl = slot_of(self.p, st.fr.fn, i); fs = self.m.slot_funcs(sl) if sl else None
                if fs: wr = set().union(*(writes(self.p, g) for g in fs)); na = min(len(g.args) for g in fs)
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca' and (wr is None or k in wr or k >= na): eng.region(st, 'out', a, None, (nm or 'ind', site, k))

            def good(s):
                if isres and not s.facts.learn(tcmp('lt', r, ZERO), False): return False
                if callee is not None:
                    for k, a in enumerate(args):
                        # borrowed handles written through a pointer
                        if k < len(callee.args) and handle_ptr(callee.args[k]['dt']) and root_of(a).op != 'alloca' and s.facts.const(a) != 0:
                            eng.store(s, a, mk('out', nm, site, k, 0), 8)
                if S:
                    for k, w in S['new'].items():
                        if k >= len(args) or args[k] is ZERO or s.facts.const(args[k]) == 0: continue
                        o = mk('out', nm or 'ind', site, k, 0)
                        if w == 'arr':
                            # one reference per element
                            self.on_store(eng, s, i, pidx(args[k], STAR, 8), o, 8)
                            eng.store(s, pidx(args[k], STAR, 8), o, 8)
                            c = self.cow(s); c['res'][norm(o)] = ('ref', 0, True, nm or 'ind', (s.fr.fn.name, i.id), True)
                            self.acq.add((s.fr.fn.name, i.id))
                        else:
                            self.on_store(eng, s, i, args[k], o, 8)
                            eng.store(s, args[k], o, 8)
                            self.lost(eng, s, o, i)
                            self.acquire(eng, s, o, 'ref', i, nm or 'ind')
                            s.facts.learn(tcmp('ne', o, ZERO), True)
                    if S['ret'] and i.ty == 'ptr': self.acquire(eng, s, r, S['ret'], i, nm)
                    for k, w in S['rel'].items():
                        if k < len(args): self.release(eng, s, args[k], w, i, nm)
            def bad(s):
                if S:
                    for k, w in S['relf'].items():
                        if k < len(args): self.release(eng, s, args[k], w, i, nm)
                return s.facts.learn(tcmp('lt', r, ZERO), True)
            if not i.ty:
                return [(None, good)]
            if can_fail: return [(r, bad), (r, good)]
            return [(r, good)]
        return None

    def lost(self, eng, st, h, i):
        """the same site acquires again: the previous instance must be reachable somewhere"""
        pass

    def summary(self, st, i, name, callee):
        S = ccs._W.get('sum') or {}
        if callee is not None: return S.get((callee.name, callee.file, callee.line))
        sl = slot_of(self.p, st.fr.fn, i)
        if sl is None: return None
        fs = self.m.slot_funcs(sl)
        ss = [S.get((f.name, f.file, f.line)) for f in fs]
        if not ss or any(x is None for x in ss): return None
        new = {k: w for k, w in ss[0]['new'].items() if all(x['new'].get(k) == w for x in ss)}
        return {'new': new, 'ret': None, 'rel': {}, 'relf': {}}

    # -- returns ------------------------------------------------------------
    def reach(self, eng, st, val, fail):
        """cells that survive the call: {addr: value}, and the roots reached"""
        fn = eng.root if eng is not None else None
        byroot = {}; arr = {}
        for a, (v, z) in st.mem.items(): byroot.setdefault(root_of(a), []).append((a, v))
        for k, vs in st.cl['al'].items():
            if k.op == '@':
                r = root_of(k.a[0])
                for x in vs: arr.setdefault(r, []).append((k, x))
        good = {}; todo = []; seen = set()
        for r in byroot:
            if r.op not in ('alloca', 'heap'): todo.append(r)
        for r in arr:
            if r.op not in ('alloca', 'heap'): todo.append(r)
        if val is not None: todo.append(root_of(val))
        dead = st.cl['dead']
        while todo:
            r = todo.pop()
            if r in seen or r.op == 'alloca': continue
            seen.add(r)
            if r in dead: continue
            cells = byroot.get(r, ())
            ar = arr.get(norm(r), ())
            popped = (ar or any(has_idx(a) for a, v in cells)) and self.popped(st, r)
            for a, v in cells:
                if fail and fn is not None and a.op == 'arg' and not fn.internal and fn.args[a.a[0]]['dt'].rstrip().endswith('_t *'): continue
                if popped and has_idx(a): continue
                good[a] = v
                todo.append(root_of(v))
                for x in self.holds(st, v): todo.append(root_of(x))
            if not popped:
                for k, x in ar:
                    good[mk('cp', k, x)] = x; todo.append(root_of(x))
            # copies of whole structures
            for (kind, rb, ro, rn, data) in st.regions:
                if kind == 'copy' and root_of(rb) is r:
                    for a, v in byroot.get(root_of(data), ()):
                        good[mk('cp', a, r)] = v; todo.append(root_of(v))
        return good, seen

    def popped(self, st, r):
        """r is the storage of a growable array whose length is what it was at entry: what was appended has been taken back"""
        for ad in self.utd:
            if r.op == 'ld' and r.a[0] is ad: pass
            else:
                c = st.mem.get(ad)
                if c is None or root_of(c[0]) is not r: continue
            s = padd(ad, -self.ut_d)
            c = st.mem.get(s)
            if s not in self.lenw: continue
            if c is None or c[0] is mk('ld', s): return True
            if c[0] is ZERO and root_of(s).op == 'heap': return True
        return False

    def on_load(self, eng, st, inst, addr, size):
        if inst.op != 'load': return
        a = inst.ops[0]
        g = defs_of(st.fr.fn).get(a) if isinstance(a, int) else None
        if g is not None and g.op == 'getelementptr':
            ss = [x for x in g.x['steps'] if 's' in x]
            if ss and 'UT_array' in ss[-1]['s'] and ss[-1]['o'] >= 16 and inst.ty == 'ptr' and ss[-1]['o'] == self.ut_d: self.utd.add(addr)

    def on_ret(self, eng, st, inst, val):
        fn = eng.root
        self.rets += 1
        c = st.cl
        neg = None
        if val is not None and fn.ret_type == 'ccs_result_t': neg = st.facts.ev(tcmp('lt', val, ZERO)) if val.op != 'raise' else True
        good, seen = self.reach(eng, st, val, neg is True)
        if c['res']:
            vals = {}
            for t, xs in c['al'].items():
                # known to be null here: on this path it does not hold what it may hold on others
                if t.op in FZ and st.facts.const(t) == 0:
                    for x in xs: vals[x] = vals.get(x, 0) + 9
            for a, v in good.items():
                for x in self.cell(st, a, v): vals[x] = vals.get(x, 0) + 1
            if val is not None:
                for x in self.holds(st, val): vals[x] = vals.get(x, 0) + 1
            for x, r in c['res'].items():
                kind, n, old, label, where, cls = r[:6]
                if kind == 'cont': continue
                self.obl += 1
                if kind != 'ref' or cls: ok = vals.get(x, 0) > 0
                else: ok = vals.get(x, 0) >= n
                if not ok: self.report('leak', x, None, st, (kind, label, neg, show(x), inst.line), where)
        if any(r[0] != 'cont' for r in c['res'].values()) or c['neg'] or c['dead'] and any(root_of(x).op not in ('heap', 'out', 'ret') for x in c['dead']): self.neutral = False
        if not self.coarse:
            if fn.name in self.delnames:
                if neg is not True: self.delrets.append((set(c['neg']), st, inst))
            elif (not fn.internal or fn.name in self.slotnames) and fn.name != RELEASE:
                for t in c['neg']:
                    if t.op == 'ld' and not contains(t, lambda x: x.op == '[]') and (st.mem.get(t.a[0]) or (t,))[0] is t and self.inplace(st, t.a[0]):
                        self.report('dangling', t, None, st, ('ref', 'release', neg, show(t), inst.line), (fn.name, show(t)))
        if self.dels is not None and not self.coarse and neg is not True: self.ownership(eng, st, inst, val, good)
        self.collect(eng, st, val, neg, good, seen)

    def collect(self, eng, st, val, neg, good, seen):
        """summary of the root"""
        fn = eng.root; c = st.cl
        if fn.ret_type == 'ccs_result_t' and neg is not True or fn.ret_type != 'ccs_result_t':
            new = {}
            for k, a in enumerate(fn.args):
                if not (a['dt'] or '').rstrip().endswith('*'): continue
                t = mk('arg', k, a['n'] or 'arg%d' % k)
                v = good.get(t)
                if v is not None:
                    x = v if v in c['res'] else norm(v) if norm(v) in c['res'] else None
                    if x is not None and self.isobj(st, x, c['res'][x]) : new[k] = 'one'
                for ad, v in good.items():
                    if ad.op == '[]' and ad.a[0] is t:
                        x = v if v in c['res'] else norm(v) if norm(v) in c['res'] else None
                        if x is not None and self.isobj(st, x, c['res'][x]): new[k] = 'arr'
            nulls = set()
            for k, a in enumerate(fn.args):
                t = mk('arg', k, a['n'] or 'arg%d' % k)
                if st.facts.const(t) == 0: nulls.add(k)
                elif (t not in good or good[t] is ZERO) and fn.ret_type == 'ccs_result_t' and neg is not False: nulls.add(k)
            rel = {k: 'x' for k in ()}
            self.root_ok.append((new, nulls, self.relargs(fn, c), self.retkind(st, val)))
        if neg is True: self.root_ok.append(('fail', self.relargs(fn, c)))

    # -- what is stored in an object against what its destructor releases -----
    def inplace(self, st, a):
        """is address a still reachable through the arguments by the same way as at entry?"""
        x = root_of(a)
        if x.op == 'arg': return x not in st.cl['neg']
        if x.op != 'ld' or x in st.cl['neg']: return False
        cur = st.mem.get(x.a[0])
        return (cur is None or cur[0] is x) and self.inplace(st, x.a[0])

    def del_complete(self, fn):
        """every successful way through a destructor releases the same things"""
        for neg, st, inst in self.delrets:
            for t, (kind, loc) in self.straight.items():
                if t in neg or t.op != 'ld' or st.facts.const(t) == 0: continue
                r = root_of(t.a[0])          # fields of the object itself
                if r.op != 'ld' or root_of(r.a[0]).op != 'arg': continue
                if not self.inplace(st, t.a[0]) and root_of(t.a[0]) not in neg: continue
                if any(x.op == 'ld' and (st.facts.const(x) == 0 or contains(x, lambda y: y.op in FZ)) for x in subterms(t)): continue
                self.report('skipped', t, None, st, (kind, 'release', False, show(t), inst.line), (fn.name, show(t)))

    def bases(self, eng, st):
        """(object, [what each destructor that may apply releases])"""
        D = self.dels; fn = eng.root; out = []
        for a, (v, z) in st.mem.items():
            if a.op == '+' and a.a[1] == OPS_OFF and a.a[0].op == 'heap':
                if v.op == 'g' and (v.a[0], v.a[1]) in D.tab: out.append((a.a[0], [D.tab[v.a[0], v.a[1]][1]], True))
                elif v.op == 'ld':
                    for x in fn.args:
                        if handle_ptr(x['dt']):
                            ts = D.kind.get(re.sub(r'[ *]+$', '', x['dt']))
                            if ts: out.append((a.a[0], [D.tab[t][1] for t in ts], True)); break
        for k, a in enumerate(fn.args):
            R = D.of_arg(fn, k)
            if R: out.append((mk('arg', k, a['n'] or 'arg%d' % k), R, False))
        return out

    def resolve(self, st, t, base):
        """what term t over an object may be for this object now"""
        if t.op == 'arg': return {base}
        if t.op == '+': return {padd(x, t.a[1]) for x in self.resolve(st, t.a[0], base)}
        if t.op == '[]': return self.resolve(st, t.a[0], base)
        if t.op == 'ld':
            out = set()
            for a in self.resolve(st, t.a[0], base):
                c = st.mem.get(a)
                if c is None: out.add(mk('ld', a)); continue
                out.add(c[0])
                if c[0].op in FZ: out |= set(st.cl['al'].get(c[0], ())); out.add(mk('ld', a))
            return out
        return {t}

    def borrowed(self, fn, v):
        """a handle the caller lent: an object argument or an element of an array of objects"""
        x = v
        if x.op == 'ld': x = root_of(x.a[0])
        if x.op != 'arg': return False
        dt = (fn.args[x.a[0]]['dt'] or '').strip()
        if v.op == 'ld': return handle_ptr(dt) or dt == 'ccs_datum_t *'
        return dt in self.dels.kind or dt in ('ccs_object_t', 'ccs_context_t')

    def ownership(self, eng, st, inst, val, good):
        fn = eng.root; c = st.cl; res = c['res']
        isdel = fn.name in self.delnames
        bs = self.bases(eng, st)
        if not bs: return
        bynorm = {}
        for a, v in good.items():
            if a.op != 'cp': bynorm.setdefault(norm(a), []).append((a, v))
        for k, xs in c['al'].items():
            if k.op == '@':
                for x in xs: bynorm.setdefault(k.a[0], []).append((k, x))
        for (kind, rb, ro, rn, data) in st.regions:
            if kind == 'copy' and isinstance(data, Term):
                db, do = split_off(data)
                for a, (v, z) in list(st.mem.items()):
                    if split_off(a)[0] is db and split_off(a)[1] >= do: bynorm.setdefault(norm(padd(rb, ro + split_off(a)[1] - do)), []).append((rb, v))
                bynorm.setdefault(norm(padd(rb, ro)), []).append((rb, mk('ld', data)))
        relcells = {}      # normalised address -> (kind, release location) agreed on by all destructors
        allcells = set(); owner = {}
        for b, Rs, new in bs:
            per = []
            for R in Rs:
                m = {}
                for (kind, p), loc in R.items():
                    for A in self.resolve(st, p.a[0], b): m[norm(A)] = (kind, loc); allcells.add(norm(A))
                per.append(m)
            for A in set(per[0]).intersection(*per[1:]) if per else (): relcells[A] = per[0][A]
            owner[norm(b)] = new
        self.part = getattr(self, 'part', 0) + len(relcells)
        # (1) a lent object stored where the destructor releases it needs a reference of its own
        if not isdel and not fn.internal:
            cnt = {}
            for A, (kind, loc) in relcells.items():
                if kind != 'ref': continue
                for a, v in bynorm.get(A, ()):
                    if v.op in FZ or v.op == 'c': continue
                    if v.op == 'ld' and norm(v.a[0]) is A: continue       # what was there already
                    if self.holds(st, v):
                        continue
                    if self.borrowed(fn, v) and st.facts.const(v) != 0:
                        self.report('unowned', A, None, st, ('ref', show(v), neg_(inst), show(A), inst.line), (fn.name, show(norm(v))))
        # (2) what was acquired and stored in the object is released by its destructor
        if not isdel:
            grown = {norm(v): mk('ld', a) for a, (v, z) in st.mem.items() if v.op == 'heap' and (res.get(v) or res.get(norm(v)) or ('',))[0] == 'cont' and root_of(a).op != 'alloca'}
            for x, r in res.items():
                if r[0] == 'cont': continue
                bad = None; ok = False
                if val is not None and x in self.holds(st, val): continue
                for A, cells in bynorm.items():
                    for a, v in cells:
                        if x not in self.holds(st, v) and x is not v: continue
                        if A in allcells: ok = True
                        elif A.op == 'arg': ok = True
                        else:
                            rt = root_of(A)
                            if root_of(x) is rt: continue
                            b = grown.get(rt, rt); n = 0
                            while b.op == 'ld' and b not in owner and n < 5:
                                # through the private parts of an object, not through another object
                                q = b.a[0]
                                if q.op == '+' and q.a[1] == 48 and q.a[0] not in owner:
                                    q = q.a[0]
                                    if not (q.op == 'ld' and q.a[0].op == '+' and q.a[0].a[1] == 48 and q.a[0].a[0] in owner): break
                                b = root_of(b.a[0]); n += 1
                            if b not in owner: b = None
                            if b is not None and norm(x) is not b: bad = (A, b)
                            elif b is None and rt.op != 'alloca': ok = True
                if bad and not ok and owner.get(norm(x)) is not True:
                    self.report('undestroyed', x, None, st, (r[0], r[3], False, show(bad[0]), inst.line), r[4])
        # (3) an owning field is not overwritten while it still holds a reference
        if not isdel and not fn.internal:
            for A, (kind, loc) in relcells.items():
                if kind not in ('ref', 'rng'): continue
                cell = st.mem.get(A)
                if cell is None or root_of(A).op == 'heap': continue
                old = mk('ld', A)
                if cell[0] is old or cell[0].op in FZ or c['neg'].get(old) or st.facts.const(old) == 0: continue
                if any(v is old for v, z in st.mem.values()): continue
                if contains(A, lambda t: t.op in FZ or t.op == '[]'): continue
                self.report('overwritten', A, None, st, ('ref', 'store', False, show(A), inst.line), (fn.name, show(A)))

    def relargs(self, fn, c):
        out = {}
        for k, a in enumerate(fn.args):
            t = mk('arg', k, a['n'] or 'arg%d' % k)
            if c['neg'].get(t): out[k] = c.get('nk', {}).get(t, 'any')
        return out

    def retkind(self, st, val):
        if val is None: return None
        x = val if val in st.cl['res'] else None
        return st.cl['res'][x][0] if x is not None else None

    def isobj(self, st, x, r):
        if r[0] == 'ref': return True
        if r[0] != 'block': return False
        # constructed here: header written
        for a, (v, z) in st.mem.items():
            if a is padd(x, OPS_OFF) or norm(a) is padd(x, OPS_OFF): return True
        return False

    def summ(self):
        new = None; rel = None; relf = None; ret = []
        for r in self.root_ok:
            if r[0] == 'fail':
                relf = r[1] if relf is None else {k: v for k, v in relf.items() if k in r[1]}
                continue
            n, nulls, rl, rk = r
            if new is None: new = dict(n), set(n) | nulls
            else:
                cand, ok = new
                cand = {**cand, **n}
                new = cand, ok & (set(n) | nulls)
            rel = rl if rel is None else {k: v for k, v in rel.items() if k in rl}
            ret.append(rk)
        nn = {k: w for k, w in new[0].items() if k in new[1]} if new else {}
        rr = ret[0] if ret and all(x == ret[0] for x in ret) else None
        return {'new': nn, 'ret': rr, 'rel': rel or {}, 'relf': relf or {}}


class Dels:
    """what the destructor of each operations table releases: values as terms over the object (argument 0)"""

    def __init__(self, P, M):
        self.tab = {}      # table name -> (destructor, {(kind, term)})
        self.kind = {}     # handle type -> {table names}
        self.fam = {}      # function name -> {table names} it appears in
        self.n = 0
        done = {}
        for (t, n), g in P.globals.items():
            fns = {}
            for o, c in P.flat_init(g):
                if c.get('k') == 'fn':
                    for s, oo in M.inner(g['t'], o):
                        if s.lstrip('%') == 'struct._ccs_object_ops_s' and oo == 0 and o == 0: fns['del'] = c['v']
                    fns.setdefault('all', []).append(c['v'])
            if 'del' not in fns: continue
            f = P.resolve(g['tu'], fns['del'])
            if f is None: continue
            if f.key() not in done: done[f.key()] = released(f)
            self.tab[g['tu'], n] = (f, done[f.key()])
            m = re.match(r'%?struct\._(ccs_\w+)_ops_s', g['t'])
            if m: self.kind.setdefault(m.group(1) + '_t', set()).add((g['tu'], n))
            for x in fns['all']: self.fam.setdefault(x, set()).add((g['tu'], n))
    def of_arg(self, fn, k):
        """destructors that may apply to argument k of fn"""
        ts = self.kind.get((fn.args[k]['dt'] or '').strip())
        if not ts: return []
        own = self.fam.get(fn.name)
        if own and own & ts: ts = own & ts
        return [self.tab[t][1] for t in ts]


def released(f):
    P, M = ccs._W['prog'], ccs._W['model']
    out = {}
    class R(Own):
        dels = None
        def release(self, eng, st, t, kind, i, name):
            v = norm(t)
            if over_args(v) and v.op == 'ld': out.setdefault((kind, v), (st.fr.fn.loc(i)))
            return Own.release(self, eng, st, t, kind, i, name)
    loops = has_loops(P, f, R(P, M), set())
    c = R(P, M, coarse=loops); e = Engine(P, c, max_steps=100000, max_states=6000); e.join_limit = 1 if loops else 6; e.run(f)
    if loops:
        c2 = R(P, M, c.looprel); e2 = Engine(P, c2, max_steps=100000, max_states=6000); e2.join_limit = 6
        e2.prewiden = {x: (ph, {a for a in ms if a in c.wr.get(x, ())}) for x, (ph, ms) in e.widened.items()}
        e2.run(f)
    return out


def fuzzy(t): return contains(t, lambda x: x.op in ('j', 'jm', 'lv', 'lvm', 'sel', 'undef', 'uninit'))


def rebase(a, old, new):
    if a is old: return new
    if a.op == '+': return padd(rebase(a.a[0], old, new), a.a[1])
    if a.op == '[]': return mk('[]', rebase(a.a[0], old, new), a.a[1], a.a[2])
    return a


def has_loops(P, f, c, seen):
    if f in seen: return False
    seen.add(f)
    if f.cfg()['loops']: return True
    for bl in f.blocks:
        for i in bl:
            if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                g = P.resolve(f.tu, i.x['c']['v'])
                if g is not None and c.inline(None, None, g, None, None) and has_loops(P, g, c, seen): return True
    return False


def run(f, steps=300000, states=10000, join=6):
    P, M = ccs._W['prog'], ccs._W['model']
    loops = has_loops(P, f, Own(P, M), set())
    c = Own(P, M, coarse=loops); e = Engine(P, c, max_steps=steps, max_states=states); e.join_limit = 1 if loops else join
    e.run(f)
    if loops:
        # second pass: loops start in their general iteration, and a loop that releases every element of something has released it when it ends
        c2 = Own(P, M, c.looprel); e2 = Engine(P, c2, max_steps=steps, max_states=states); e2.join_limit = join
        e2.prewiden = {x: (ph, {a for a in ms if a in c.wr.get(x, ())}) for x, (ph, ms) in e.widened.items()}
        e2.run(f)
        c, e = c2, e2
    if f.name in c.delnames: c.del_complete(f)
    return c, e


def work_sum(f):
    if not relevant(ccs._W['prog'], ccs._W['model'], f): return {'new': {}, 'ret': None, 'rel': {}, 'relf': {}}
    import time; t0 = time.time()
    c, e = run(f)
    s = c.summ(); s['t'] = time.time() - t0
    s['neutral'] = c.neutral and not c.finds and f.ret_type in ('ccs_result_t', None) and not s['new'] and not s['ret'] and not s['rel'] and not s['relf'] and (len(c.acq) + len(c.rels) > 0 or e.nst > 300)
    s['finds'] = c.finds; s['inc'] = e.incomplete; s['n'] = (len(c.acq), len(c.rels), c.rets, c.obl); s['st'] = e.nst; s['part'] = getattr(c, 'part', 0)
    return s
