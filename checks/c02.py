import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs, wire
from ccs import Model, pmap
from wire import *

OBJ = mk('arg', 0, 'object')


def ld(a): return mk('ld', a)


KIND = ld(OBJ)
SUB = ld(ld(padd(OBJ, 48)))


# ---- values -----------------------------------------------------------------
def rng_of(F, t):
    """(low, high, excluded) of a value under a path condition"""
    if t is None: return None, None, ()
    if t.op in ('cmp', 'not'):
        e = F.ev(t)
        return (int(e), int(e), ()) if e is not None else (0, 1, ())
    while t.op in ('trunc', 'zext', 'sext') and isinstance(t.a[0], Term): t = t.a[0]
    l, h = F.bounds(t)
    return l, h, F.ne.get(t, ())


def compat(WF, x, RF, y):
    """can the value written be the value read on this path?"""
    l1, h1, n1 = rng_of(WF, x.val); l2, h2, n2 = rng_of(RF, y.val)
    if x.k is not None: l1 = h1 = x.k
    sgn = lambda v: v + (1 << 32) if v is not None and v < 0 and v >= -(1 << 31) else v
    if l1 is not None and h2 is not None and l1 > h2: return False
    if l2 is not None and h1 is not None and l2 > h1: return False
    if l1 is not None and l1 == h1 and l1 in n2: return False
    if l2 is not None and l2 == h2 and l2 in n1: return False
    return True


def env_of(ws, rs):
    """reader value -> writer value for positions aligned so far"""
    e = {}
    for x, y in zip(ws, rs):
        if isinstance(x, Loop) or isinstance(y, Loop): continue
        if y.val is not None and x.val is not None: e[y.val] = x.val
    return e


def translate(t, env):
    """a reader quantity in the writer's terms, as addends; None when unclear"""
    c = Counter()
    for k, n in addends(t).items():
        if k is ONE: c[ONE] += n; continue
        w = env.get(k)
        if w is None: return None
        for a, m in addends(w).items(): c[a] += n * m
    return Counter({k: v for k, v in c.items() if v})


def same(c, t):
    """is the translated quantity the writer's? None when unclear"""
    d = addends(t)
    if c is None or not all(clean(k) for k in c) or not all(clean(k) for k in d): return None
    return c == d


class Why:
    def __init__(self): self.depth = -1; self.msg = ''

    def note(self, depth, msg):
        if depth > self.depth: self.depth = depth; self.msg = msg


def walk(ws, rs, WF, RF, why, env=None, base=0, weak=False):
    """does the reader path consume what the writer path emits? -> the aligned pairs, or None"""
    stack = [(0, 0, dict(env or {}), ())]
    tied = {x.trip[1] for x in ws if isinstance(x, Loop) and x.trip and x.trip[1] is not None}
    counts = {y.trip[1] for y in rs if isinstance(y, Loop) and y.trip and y.trip[1] is not None}
    while stack:
        i, j, env, pairs = stack.pop()
        ok = True
        while i < len(ws) or j < len(rs):
            x = ws[i] if i < len(ws) else None; y = rs[j] if j < len(rs) else None
            at = base + i
            # an empty run of bytes is as good as none
            if x is not None and not isinstance(x, Loop) and x.cls == 'raw' and (y is None or isinstance(y, Loop) or y.cls != 'raw') and zero(x.n, WF): i += 1; continue
            if y is not None and not isinstance(y, Loop) and y.cls == 'raw' and (x is None or isinstance(x, Loop) or x.cls != 'raw'):
                t = translate(y.n, env)
                if t is not None and (not t or zero(total(t), WF)) or zero(y.n, RF): j += 1; continue
            # a repetition that cannot happen on this path
            if x is not None and isinstance(x, Loop) and not isinstance(y, Loop) and x.trip and x.trip[1] is not None and zero(x.trip[1], WF): i += 1; continue
            if y is not None and isinstance(y, Loop) and not isinstance(x, Loop) and y.trip and y.trip[1] is not None:
                t = translate(y.trip[1], env)
                if zero(y.trip[1], RF) or (t is not None and (not t or zero(total(t), WF))): j += 1; continue
            if weak and isinstance(y, Loop) and not isinstance(x, Loop): j += 1; continue
            if x is None: why.note(at, 'the reader reads %s after the last item' % (y,)); ok = False; break
            if y is None: why.note(at, 'the reader never reads %s (item %d)' % (x, at + 1)); ok = False; break
            if isinstance(x, Loop) != isinstance(y, Loop): why.note(at, 'item %d is written as %s and read as %s' % (at + 1, x, y)); ok = False; break
            if isinstance(x, Loop):
                if x.trip and y.trip and None not in x.trip and None not in y.trip and x.trip[0] == y.trip[0] == 1:
                    b, o = translate(y.trip[1], env), translate(y.trip[2], env)
                    if b is not None and o is not None:
                        b.subtract(o); b = Counter({k: v for k, v in b.items() if v})
                        d = addends(x.trip[1]); d.subtract(addends(x.trip[2])); d = Counter({k: v for k, v in d.items() if v})
                        if all(clean(k) for k in b) and all(clean(k) for k in d) and b != d:
                            why.note(at, 'repetition: %s written, %s read' % (show(total(d)), show(total(b)))); ok = False; break
                for wb, wc in zip(x.bodies, x.conds):
                    if not wb and any(x.bodies): continue
                    if not any(walk(wb, rb, f, g, why, env, at) is not None for f in wc for rb, rc in zip(y.bodies, y.conds) for g in rc): ok = False; break
                if not ok: break
            elif x.cls != y.cls: why.note(at, 'item %d is written as %s and read as %s' % (at + 1, x, y)); ok = False; break
            elif x.cls == 'raw':
                if same(translate(y.n, env), x.n) is False: why.note(at, 'item %d: %s bytes written, %s read' % (at + 1, show(x.n), show(total(translate(y.n, env))))); ok = False; break
            else:
                if not (y.val in counts and x.val not in tied) and not compat(WF, x, RF, y): why.note(at, 'item %d: no path of the reader accepts this value' % (at + 1)); ok = False; break
                if y.val is not None and x.val is not None: env[y.val] = x.val
            pairs += ((x, y),)
            i += 1; j += 1
        if ok: return pairs
    return None


def zero(t, F):
    if t.op == 'c': return t.a[0] == 0
    l, h = F.bounds(t)
    return h == 0


def variants(F, ws):
    """the writer path with every repetition happening, and with none"""
    loops = [x for x in ws if isinstance(x, Loop)]
    if not loops: return [(F, ws, '')]
    out = []
    for z in (False, True):
        G = F.copy(); ok = True
        for x in loops:
            b = x.trip[1] if x.trip else None
            if b is None: continue
            if z: ok = ok and (G.bounds(b)[0] or 0) <= 0 and 0 not in G.ne.get(b, ()) and G._set(b, 0, 0)
            else: ok = ok and G._set(b, 1, None)
        if ok: out.append((G, [x for x in ws if not isinstance(x, Loop)] if z else ws, 'none' if z else 'all'))
    return out


def nloops(ws): return sum(isinstance(x, Loop) for x in ws)


def required(rows):
    """drop repetition-taking rows of paths on which another repetition was skipped: whether they can happen depends on the object"""
    sh = {tuple(x.cls if not isinstance(x, Loop) else '{' for x in s) for _, s, _, v in rows if v == 'all'}
    less = set()
    def cut(t, n=0):
        for i, x in enumerate(t):
            if x == '{':
                u = t[:i] + t[i + 1:]
                if u not in less: less.add(u); cut(u)
    for t in sh: cut(t)
    return [(F, s, p) for F, s, p, v in rows if not (v == 'all' and tuple(x.cls if not isinstance(x, Loop) else '{' for x in s) in less)]


def thin(rows):
    """one row per printed form and value condition"""
    seen = {}
    for F, s, p in rows:
        k = (repr(s), tuple(rng_of(F, x.val) if not isinstance(x, Loop) and x.cls != 'raw' else None for x in s))
        seen.setdefault(k, (F, s, p))
    return list(seen.values())


# ---- provenance ---------------------------------------------------------------
def ev(eng, st, t):
    o = t.op
    if o == 'arg': return st.cl['obj'] if t is OBJ else mk('?', t)
    if o == 'ld':
        a = ev(eng, st, t.a[0])
        if contains(a, lambda x: x.op in ('?', 'uninit')): return mk('?', t)
        return eng.load(st, a, None)
    if o == '+': return padd(ev(eng, st, t.a[0]), t.a[1])
    if o == '[]': return pidx(ev(eng, st, t.a[0]), ev(eng, st, t.a[1]), t.a[2])
    if o == 'c': return t
    if o == 'bin': return tbin(t.a[0], ev(eng, st, t.a[1]), ev(eng, st, t.a[2]))
    if o == 'cmp': return tcmp(t.a[0], ev(eng, st, t.a[1]), ev(eng, st, t.a[2]))
    if o == 'not': return tnot(ev(eng, st, t.a[0]))
    if o in ('trunc', 'zext', 'sext') and t.a and isinstance(t.a[0], Term): return ev(eng, st, t.a[0])
    return mk('?', t)


def header(t):
    """user data and callbacks attached to an object are not part of what is rebuilt"""
    return contains(t, lambda x: x.op == 'ld' and x.a[0].op == '+' and x.a[0].a[0] is OBJ and x.a[0].a[1] in (4, 8, 16, 32, 40, 56, 64))


def consistent(eng, st, WF):
    """could the rebuilt object satisfy the writer's path condition?"""
    F = st.facts
    for t, (l, h) in WF.iv.items():
        if not clean(t) or header(t): continue
        v = ev(eng, st, t)
        a, b = F.bounds(v) if v.op not in ('cmp', 'not') else (None, None)
        if l is not None and b is not None and b < l: return False
        if h is not None and a is not None and a > h: return False
        if v.op == 'heap' and h == 0: return False
    for t, s in WF.ne.items():
        if not clean(t) or header(t): continue
        v = ev(eng, st, t); k = F.const(v)
        if k is not None and k in s: return False
    for t, tv in WF.rel.items():
        if not clean(t) or header(t): continue
        e = F.ev(ev(eng, st, t))
        if e is not None and e != tv: return False
    return True


def pure(t):
    """built from items and constants only"""
    if t.op in ('rd', 'c', 'f'): return True
    return t.op in ('bin', '+', 'uitofp', 'sitofp', 'fptosi', 'fneg') and all(pure(x) for x in t.a if isinstance(x, Term))


def provenance(eng, st, al, rs, stats, pin, agg):
    """each attribute the writer emits, looked up in the rebuilt object: does it hold the item read at that position?"""
    out = []
    pos = {}
    for n, y in enumerate(rs):
        if not isinstance(y, Loop) and y.val is not None and y.cls != 'raw': pos[y.val] = n
    F = st.facts
    counts = {y.trip[1] for y in rs if isinstance(y, Loop) and y.trip and y.trip[1] is not None}
    for x, y in al:
        n = rs.index(y)
        if isinstance(x, Loop) or x.val is None or x.k is not None: continue
        if x.cls == 'raw':
            if x.val is None or not clean(x.val): continue
            v = ev(eng, st, x.val)
            c = st.mem.get(mk('strof', v))
            if c is None or c[0].op != 'pos' or y.val is None or y.val.op != 'pos': continue
            stats['strings'] += 1
            if c[0] is not y.val: out.append((n, x, 'string'))
            continue
        if x.val is OBJ: continue
        v = ev(eng, st, x.val)
        while v.op in ('trunc', 'zext', 'sext') and isinstance(v.a[0], Term): v = v.a[0]
        if y.val in counts: continue
        g = agg.setdefault((x.val, x.cls), [0, 0, 0, ()])
        m = eng.may(v)
        if y.val in m: g[0] += 1
        elif all(pure(t) for t in m): g[1] += 1; g[3] = (n, x, sorted(show(t) for t in m))
        else: g[2] += 1
        if v is y.val: stats['attributes'] += 1; continue
        if v in pos: out.append((n, x, 'holds item %d' % (pos[v] + 1))); continue
        if x.cls == 'obj' and v.op == 'heap' and y.val.op == 'rd':
            out.append((n, x, 'is a new object')); continue
        k = v.a[0] if v.op == 'c' else None
        if k is not None and x.cls != 'obj':
            l, h = F.bounds(y.val)
            if l == h == k or (h == k == 0): stats['attributes'] += 1
            elif not pin(x.val): out.append((n, x, 'is always %s' % k))
    return out


# ---- constructors: attributes that no caller can choose -------------------------
class Maker(Client):
    max_depth = 12

    def __init__(self, P, f): self.p = P; self.out = mk('arg', len(f.args) - 1, f.args[-1]['n'] or 'out'); self.made = []

    def inline(self, eng, st, fn, args, inst): return weight(self.p, fn) <= 1500

    def on_call(self, eng, st, i, name, callee, args):
        if isinstance(name, str) and name in ccs.RAISE: return STOP

    def on_ret(self, eng, st, inst, val):
        if val is None or eng_zero(st, val):
            o = eng.load(st, self.out, 8)
            if o.op == 'heap': st.cl = dict(obj=o); self.made.append(st)


def eng_zero(st, v):
    l, h = st.facts.bounds(v)
    return not (h is not None and h < 0)


def constructors(P):
    """table -> public functions whose code, with what it calls, installs it"""
    out = {}
    for f in P.unique_funcs():
        if f.internal or not f.args or not f.args[-1]['dt'].endswith('_t *') or f.ret_type != 'ccs_result_t': continue
        seen = set(); todo = [f]
        while todo:
            g = todo.pop()
            if g.key() in seen: continue
            seen.add(g.key())
            if g is not f and not g.internal and g.tu != f.tu: continue
            for bl in g.blocks:
                for i in bl:
                    for o in i.ops:
                        if isinstance(o, dict) and o.get('k') == 'g': out.setdefault(o['v'], []).append(f)
                    if i.op == 'call':
                        c = i.x['c']
                        if isinstance(c, dict) and c.get('k') == 'fn':
                            h = P.resolve(g.tu, c['v'])
                            if h is not None: todo.append(h)
    return out


def fixed(P, keys, f, memo={}):
    """numeric attributes that every public constructor of these tables sets to one constant and no setter changes"""
    D = ld(padd(OBJ, 48)); both = None
    for key in keys:
        pinned(P, key, OBJ, f)
        for eng, st in pinned.__defaults__[0][key]:
            d = eng.load(st, padd(st.cl['obj'], 48), 8); b, o = split_off(d)
            m = {}
            for a, (v, z) in st.mem.items():
                x, y = split_off(a)
                if x is b and 0 <= y - o < 256 and v.op == 'c' and isinstance(v.a[0], int): m[y - o] = v.a[0]
            both = m if both is None else {k: v for k, v in both.items() if m.get(k, None) == v}
    S = setters(P, f)
    return [(ld(padd(D, k)), v) for k, v in sorted((both or {}).items()) if padd(D, k) not in S]


class Setter(Client):
    max_depth = 12

    def __init__(self, P): self.p = P; self.sets = set()

    def inline(self, eng, st, fn, args, inst): return weight(self.p, fn) <= 300

    def on_call(self, eng, st, i, name, callee, args):
        if isinstance(name, str) and name in ccs.RAISE: return STOP

    def on_store(self, eng, st, i, addr, val, size):
        if contains(val, lambda x: x.op == 'arg' and x is not OBJ) and root_of(addr).op == 'ld': self.sets.add(addr)


def setters(P, f, memo={}):
    """attributes of the reader's kind of object that a public call on an existing object changes"""
    ht = f.args[0]['dt'].rstrip('* ')
    if ht not in memo:
        memo[ht] = set()
        for g in P.unique_funcs():
            if g.internal or len(g.args) < 2 or g.args[0]['dt'] != ht or g.ret_type != 'ccs_result_t': continue
            if not any(i.op == 'store' for bl in g.blocks for i in bl) and weight(P, g) > 2000: continue
            cl = Setter(P); eng = Engine(P, cl, max_steps=60000, max_states=1500)
            eng.run(g, [OBJ] + [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(g.args)][1:])
            memo[ht] |= cl.sets
    return memo[ht]


def pinned(P, key, val, f, memo={}):
    """is the attribute the same constant whatever the public constructors and setters are given?"""
    if val.op == 'ld' and val.a[0] in setters(P, f): return False
    if 'ctors' not in memo: memo['ctors'] = constructors(P)
    if key not in memo:
        memo[key] = []
        for f in {f.key(): f for f in memo['ctors'].get(key[1], ())}.values():
            cl = Maker(P, f); eng = Engine(P, cl, max_steps=200000, max_states=4000)
            eng.run(f)
            for st in cl.made:
                ops = eng.load(st, padd(st.cl['obj'], 24), 8)
                if ops.op == 'g' and ops.a[1] == key[1]: memo[key].append((eng, st))
    vs = {ev(eng, st, val) for eng, st in memo[key]}
    if os.environ.get('VP_DBG'): print('PINNED', key, show(val), [show(v) for v in vs][:5])
    return not any(contains(v, lambda x: x.op == 'arg') for v in vs)


# ---- elements of repetitions ------------------------------------------------------
class Elem(Wire):
    """what becomes of the arrays a reader fills: which calls get them, whole or element by element"""
    RELEASE = ('ccs_release_object', 'free', '_ccs_object_release', 'ccs_retain_object')

    def __init__(self, *a):
        Wire.__init__(self, *a); self.laddr = {}; self.calls = []; self.vals = set(); self.hidden = set()

    def matters(self, fn, v):
        """is a loaded value used for more than a null test or a release?"""
        u = getattr(fn, '_realuses', None)
        if u is None:
            u = fn._realuses = set()
            for bl in fn.blocks:
                for i in bl:
                    c = i.x.get('c') if i.op == 'call' else None
                    if i.op == 'icmp' or (isinstance(c, dict) and c.get('v') in self.RELEASE): continue
                    u.update(fn._uses(i))
        return v in u

    def on_load(self, eng, st, i, addr, size):
        self.laddr[(st.fr.ctx, i.id)] = addr
        if self.second and self.matters(st.fr.fn, i.id): self.calls.append(('load', (), (addr,)))
        Wire.on_load(self, eng, st, i, addr, size)

    def on_store(self, eng, st, i, addr, val, size):
        if self.second:
            if val.op == 'copyof': self.calls.append(('copy', (val.a[0],), ()))
            elif val.op == 'rd': self.vals.add((val, addr))
        Wire.on_store(self, eng, st, i, addr, val, size)

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else 'cb'
        r = Wire.on_call(self, eng, st, i, name, callee, args)
        if self.second and nm not in self.RELEASE and nm not in self.lv and nm not in RAISE and nm not in ALLOC:
            if callee is None or not self.takes(callee):
                self.calls.append((nm, tuple(args), tuple(self.laddr.get((st.fr.ctx, o)) if isinstance(o, int) else None for o in i.ops)))
                if r is not None and callee is not None: self.hidden |= {root_of(a) for a in args if root_of(a).op == 'alloca'}
        return r


def index(a):
    """element number an address selects"""
    b, o = split_off(a)
    return padd(b.a[1], o // b.a[2])


def elements(P, M, f):
    """-> [(key, message)], counts"""
    out = []; n = Counter()
    Wire.limit = 60
    c = explore(P, M, f, 'r', client=Elem)
    if c is None: return out, n
    arrays = {}; counts = {}
    eng = c.eng; memo = {}

    def base(b):
        if b not in memo:
            v = {x for x in eng.may(b) if x is not ZERO} if b.op in ('jm', 'lvm') else {b}
            memo[b] = list(v)[0] if len(v) == 1 else b
        return memo[b]

    def canon(a):
        if a is None: return None
        b, o = split_off(a)
        if b.op == '[]': return padd(mk('[]', base(b.a[0]), b.a[1], b.a[2]), o)
        return padd(base(b), o)

    def loops(s):
        for y in s:
            if isinstance(y, Loop):
                yield y
                for b in y.bodies: yield from loops(b)
    for p in c.paths:
        for y in loops(seq(c, p.tr, zeros=True)):
            b = y.trip[1] if y.trip else None
            if b is not None: counts[b] = y
            for body in y.bodies:
                for x in body:
                    if isinstance(x, Loop) or x.val is None or x.val not in c.dest: continue
                    a = split_off(canon(c.dest[x.val]))[0]
                    if a.op == '[]' and a.a[1].op == 'lv' and a.a[1].a[0] == y.ctx:
                        e = arrays.setdefault(a.a[0], dict(bound=set(), items=set(), sz=a.a[2])); e['bound'].add(y.trip); e['items'].add(x.val)
    known = {k for k in counts if k.op == 'rd'}
    calls = [(nm, tuple(canon(a) for a in args), tuple(canon(a) for a in la)) for nm, args, la in c.calls]
    calls = list(dict.fromkeys(calls))
    stores = {(v, canon(a)) for v, a in c.vals}
    for m, e in sorted(arrays.items(), key=lambda t: show(t[0])):
        n['arrays'] += 1
        used = False
        bd = list(e['bound'])[0] if len(e['bound']) == 1 else None
        bound = bd[1] if bd else None
        for nm, args, la in calls:
            if any(a is m for a in args):
                used = True
                if bound is not None and nm != 'copy':
                    n['hand-overs'] += 1
                    pre = {args[q - 1] for q in range(1, len(args)) if args[q] is m}
                    if bound not in args and any(a in known for a in args) or (bound in known and bound not in pre and pre & known):
                        out.append(('count:%s' % nm, 'the %s items read into one array are handed to %s with the count of another' % (show(bound), nm)))
            idx = set()
            for a in args:
                b = split_off(a)[0]
                if b.op == '[]' and b.a[0] is m:
                    used = True; k = b.a[1]
                    t = c.trip.get(k.a[0]) if k.op == 'lv' else None; t = list(t)[0] if t and len(t) == 1 else None
                    if t and bound in known and t[1] is not bound and t[1] in known:
                        out.append(('count:%s' % nm, 'the items of an array of %s items are passed on in a loop of %s rounds' % (show(bound), show(t[1]))))
            for a in la:
                if a is None: continue
                b = split_off(a)[0]
                if b.op == '[]' and b.a[0] is m: used = True; idx.add(index(a))
            if idx and nm != 'load':
                n['hand-overs'] += 1
                k = next(iter(idx))
                if k.op == '+': k = k.a[0]
                if k.op == 'bin' and k.a[0] == 'sub':
                    down = {x for x in subterms(k) if x.op == 'lv'}
                    if any(a is None and v.op == 'lv' and any(v.a[0] == x.a[0] and v is not x for x in down) for a, v in zip(la, args)):
                        out.append(('index:%s' % nm, 'elements are handed to %s from the last to the first while another argument advances' % nm))
                if k.op == 'lv':
                    t = c.trip.get(k.a[0]); t = list(t)[0] if t and len(t) == 1 else None
                    if t and bound is not None and t[1] is not bound and t[1] in known and bound in known:
                        out.append(('count:%s' % nm, 'the items of an array of %s items are handed to %s in a loop of %s rounds' % (show(bound), nm, show(t[1]))))
                    others = set(idx)
                    for a, v in zip(la, args):
                        b = split_off(a)[0] if a is not None else None
                        if b is not None and b.op == '[]' and b.a[0] in arrays: others.add(index(a))
                        elif a in arrays: others.add(ZERO)
                        if a is None and contains(v, lambda x: x is k): others.add(v)
                    if len(others) > 1: out.append(('index:%s' % nm, 'elements of different positions (%s) are combined in the call of %s' % (', '.join(sorted(map(show, others))), nm)))
        if not used and not any(v in e['items'] and root_of(a).op != 'alloca' and root_of(a) is not root_of(m) for v, a in stores) and not any(m in h and root_of(a) in c.hidden for a, h in eng.hist.items()):
            out.append(('unused:%s' % show(m)[-40:], 'the items read into an array of %s items are never passed on' % (show(bound) if bound is not None else '?')))
    return sorted(set(out)), n


# ---- driver ---------------------------------------------------------------------
def readers(P):
    return [f for f in P.unique_funcs() if len(f.args) == 6 and f.ret_type == 'ccs_result_t' and f.args[4]['dt'] == 'const char * *' and f.args[3]['dt'] == 'size_t *' and f.args[0]['dt'].endswith('*')
            and f.args[5]['dt'].endswith('_options_t *') and f.name.endswith('_deserialize')]


def first(p):
    return next((e[3] for e in p.tr if e[0] == 'it' and e[1] != 'raw'), None)


def reader_job(P, M, T, f):
    """sequences and rebuilt objects of one reader"""
    r = dict(name=f.name, file=f.file, line=f.line, finds=[], stats=Counter(), kinds=[])
    Wire.limit = 60
    c = explore(P, M, f, 'r')
    if c is None or not c.paths: r['big'] = True; return r
    rows = [(p.facts, seq(c, p.tr, zeros=True), p) for p in c.paths]
    for p in c.paths:
        if p.bad is not None: r['finds'].append(('account', 'the bytes consumed and the bytes taken off the remaining size differ by %s' % show(p.bad)))
    fe, ne = elements(P, M, f)
    r['finds'] += fe; r['stats'] += ne
    kinds = {p.facts.const(first(p)) for p in c.paths if first(p) is not None}
    r['kinds'] = sorted(k for k in kinds if k is not None)
    if None in kinds: r['dispatch'] = True; return r
    # what the reader builds
    Wire.limit = 1500
    Wire.fine = True
    b = explore(P, M, f, 'r', keep=True, max_steps=700000)
    Wire.fine = False
    if b is None: b = explore(P, M, f, 'r', keep=True)
    built = {}
    if b is not None:
        for p in b.paths:
            st = p.st; eng = b.eng
            o = eng.load(st, mk('arg', 0, 'ret'), 8)
            ops = eng.load(st, padd(o, 24), 8)
            if ops.op != 'g': continue
            key = next((k for k in (tuple(ops.a), ('', ops.a[1])) if k in T), None)
            if key is None: continue
            st.cl = dict(st.cl); st.cl['obj'] = o
            built.setdefault(key, []).append(p)
    subs = {}
    for key, ps in built.items():
        vs = {b.eng.load(p.st, ev(b.eng, p.st, ld(padd(OBJ, 48))), 4) for p in ps}
        if len(vs) == 1 and list(vs)[0].op == 'c': subs[key] = list(vs)[0].a[0]
        elif all(v.op == 'rd' or v.op == 'c' for v in vs): subs[key] = None
    tabs = [k for k in T if T[k][0] in r['kinds'] and T[k][2] is not None]
    byw = {}
    for key in tabs: byw.setdefault((T[key][2].key(), subs.get(key)), []).append(key)
    for (wk, sub), keys in byw.items():
        key = keys[0]; kind, s, w = T[key]
        r['stats']['tables'] += len(keys)
        known = [(KIND, kind)]
        wn = explore(P, M, w, 'w')
        if wn is None: r['stats']['writers too large'] += 1; continue
        hassub = sub is not None and any(x.val is SUB for p in wn.paths[:1] for x in seq(wn, p.tr) if not isinstance(x, Loop))
        if hassub: known.append((SUB, sub))
        wn = explore(P, M, w, 'w', known=known)
        if wn is None: r['stats']['writers too large'] += 1; continue
        narrow = None; again = True
        while again:
          again = False
          W = thin(required([(G, s, p, v) for p in wn.paths for G, s, v in variants(p.facts, seq(wn, p.tr, zeros=True))])); R = thin(rows)
          bad = 0; most = max(nloops(ws) for _, ws, _ in W)
          for F, ws, p in W:
            why = Why()
            r['stats']['writer paths'] += 1
            if not any(walk(ws, rs, F, G, why, weak=nloops(ws) < most) is not None for G, rs, _ in R):
                if not narrow:
                    # with what is constant in every such object
                    narrow = fixed(P, keys, f)
                    w2 = explore(P, M, w, 'w', known=known + narrow) if narrow else None
                    if w2 is not None: wn = w2; again = True; break
                bad += 1
                r['finds'].append(('order:%s' % w.name, '%s writes what %s does not read back: %s; written: %s' % (w.name, f.name, why.msg, ws)))
                break
        if bad: continue
        # provenance
        agg = {}
        for k in keys:
            for p in built.get(k, ()):
                st = p.st; eng = b.eng
                rs = seq(b, p.tr, zeros=True)
                res = []
                for F, ws, q in W:
                    if not consistent(eng, st, F): r['stats']['inconsistent'] += 1; continue
                    why = Why()
                    al = walk(ws, rs, F, p.facts, why)
                    if al is None: r['stats']['unaligned'] += 1; r['why'] = why.msg; continue
                    res.append((provenance(eng, st, al, rs, r['stats'], lambda t: pinned(P, k, t, f), agg.setdefault(k, {})), ws))
                if not res: r['stats']['rebuilt objects without a writer path'] += 1; continue
                r['stats']['rebuilt objects'] += 1
                if all(x for x, _ in res):
                    n, x, m = res[0][0][0]
                    r['finds'].append(('value:%s:%s' % (w.name, show(x.val)), 'item %d (%s) of %s: in the rebuilt object it %s' % (n + 1, show(x.val), w.name, m)))
        for k in keys:
            for (val, cls), (ok, no, un, what) in agg.get(k, {}).items():
                r['stats']['attributes traced'] += 1
                if ok == 0 and un == 0 and no and not pinned(P, k, val, f):
                    n, x, m = what
                    kk = 'value:%s:%s' % (w.name, show(val))
                    if not any(a == kk for a, _ in r['finds']):
                        r['finds'].append((kk, 'item %d (%s) of %s: no rebuilt object ever holds what was read there, only %s' % (n + 1, show(val), w.name, ', '.join(m)[:120])))
    r['subs'] = {k[1]: v for k, v in subs.items()}
    return r


def run(ctx):
    P = ccs.load(); M = Model(P)
    lv = leaves(P)
    for L in sorted({l for _, l in lv.values()}, key=lambda l: l.name):
        ctx.count('scalar encodings')
        for a in 'rp':
            if L.enc.get(a) and L.enc.get('w') and L.enc[a] != L.enc['w']:
                ctx.finding('leaf:%s:%s' % (L.name, a), 'scalar %s is written as %s and read as %s' % (L.name, L.enc['w'], L.enc[a]), '%s:%s' % (L.f[a].file, L.f[a].line))
            for m in leafcheck(P, L, a): ctx.finding('leaf:%s:%s:%s' % (L.name, a, m), 'reader of scalar %s: %s' % (L.name, m), '%s:%s' % (L.f[a].file, L.f[a].line))
    T = {k: (kind, s, w) for k, kind, s, w in tables(P, M)}
    fs = readers(P)
    fs.sort(key=lambda f: -weight(P, f))
    served = set()
    for r in pmap(lambda f: reader_job(P, M, T, f), fs):
        ctx.count('readers')
        if r.get('big'): ctx.count('readers too large'); ctx.sample('too large: ' + r['name']); continue
        served |= set(r['kinds'])
        for k, v in r['stats'].items(): ctx.count(k, v)
        ctx.sample('%s (kinds %s): %s' % (r['name'], r['kinds'], dict(r['stats'])), 30)
        for k, m in r['finds']: ctx.finding('%s:%s' % (r['name'], k), m, '%s:%s %s' % (r['file'], r['line'], r['name']))
    ctx.counts['obligations'] = sum(ctx.counts.get(k, 0) for k in ('writer paths', 'attributes', 'strings', 'scalar encodings'))
    ctx.need('writer paths', 100); ctx.need('attributes', 100)


RULE = """For every reader of an object kind and every writer installed in an operation table for that kind: each path of the writer (a sequence of
items with encoding, optional parts and repetitions, under its path condition) has a path of the reader that consumes the same items in the same
order with the same encodings, byte counts and repetition counts; scalar codecs decode what they encode and account for the bytes they take.
Then each attribute the writer emits is looked up in the object the reader built: it has to hold the item read at that position (per rebuilt
object: not another item, not a constant a caller could have chosen otherwise, not a fresh object; over all rebuilt objects: the item reaches the
attribute at all).  Arrays filled by a repetition have to be handed on with their own count and position."""
ASSUME = ['values that do not resolve to an item, a constant or a fresh object are not judged', 'user callbacks that serialize opaque state are trusted to read what they wrote']

if __name__ == '__main__':
    main('C02', run, RULE, ASSUME)
