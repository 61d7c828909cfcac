"""Model of the binary wire format: what a writer emits, what a size query adds up, what a reader consumes.

Each function is explored symbolically (lib/engine.py, no solver) along its successful paths; the result per path is a
sequence of items (encoding class, value), with loops folded into the set of their bodies."""
import re, os
from collections import Counter
from engine import *
import ccs
from ccs import RAISE, ALLOC, slot_of, defs_of

OPS = 'struct._ccs_object_ops_s'
PRE = {'s': '_ccs_serialize_bin_size_', 'r': '_ccs_deserialize_bin_', 'p': '_ccs_peek_bin_', 'w': '_ccs_serialize_bin_'}
BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'float': 32, 'double': 64, 'ptr': 64}


class Leaf:
    """a scalar encoding: writer, size, reader (and peek) of one scalar type"""
    def __init__(self, name): self.name = name; self.f = {}; self.enc = {}; self.bits = None


def leaves(P):
    """leaf families: {function name: (role, Leaf)}"""
    r = getattr(P, '_leaves', None)
    if r is not None: return r
    fam = {}
    for f in P.unique_funcs():
        n = f.name
        for role in ('p', 'r', 's', 'w'):
            if n.startswith(PRE[role]):
                x = n[len(PRE[role]):]
                if role == 'w' and x == 'size': pass
                elif role == 'w' and n.startswith(PRE['s']): continue
                if role == 's' and f.ret_type != 'size_t': continue
                fam.setdefault(x, {}).setdefault(role, f)
                break
    out = {}
    for x, d in fam.items():
        if not all(k in d for k in 'swr'): continue
        w, s, r = d['w'], d['s'], d['r']
        if len(w.args) != 3 or len(s.args) != 1 or len(r.args) != 3: continue
        t = w.args[0]
        if t['t'] not in BITS or (t['dt'] or '').rstrip().endswith('*'): continue
        if t['t'] == 'ptr' and not (t['dt'] or '').endswith('_t'): continue
        L = Leaf(x); L.f = d; L.bits = BITS[t['t']]
        for role, f in d.items(): out[f.name] = (role, L)
    P._leaves = out
    for role, L in set(out.values()):
        if role in L.f: L.enc[role] = encoding(P, out, L.f[role], role, set())
    return out


def encoding(P, lv, f, role, seen):
    """how this function encodes the scalar on the wire: ('fix', n) / ('leb',) / ('zz', ...) / None when not recognised"""
    if f.name in seen: return None
    seen = seen | {f.name}
    zz = False; sub = None; loop = bool(f.cfg()['loops'])
    sizes = set(); shifts = set(); masks = set()
    for bl in f.blocks:
        for i in bl:
            if i.op == 'call':
                c = i.x['c']
                n = c['v'] if isinstance(c, dict) and c.get('k') == 'fn' else None
                if n is None: continue
                if n in lv: sub = encoding(P, lv, lv[n][1].f[lv[n][0]], role, seen)
                elif 'zigzag' in n: zz = True
                elif n.startswith(('llvm.memcpy', 'memcpy')):
                    z = i.ops[2]
                    if isinstance(z, dict) and z.get('k') == 'i': sizes.add(z['v'])
            elif i.op in ('lshr', 'ashr', 'shl') and loop:
                z = i.ops[1]
                if isinstance(z, dict) and z.get('k') == 'i': shifts.add(z['v'])
            elif i.op == 'and' and loop:
                for z in i.ops:
                    if isinstance(z, dict) and z.get('k') == 'i': masks.add(z['v'] & 0xff)
            elif i.op == 'add' and loop and role in 'rp':
                for z in i.ops:
                    if isinstance(z, dict) and z.get('k') == 'i' and z['v'] > 1: shifts.add(z['v'])
            elif i.op == 'ret' and role == 's' and i.ops and isinstance(i.ops[0], dict) and i.ops[0].get('k') == 'i': sizes.add(i.ops[0]['v'])
    if sub is not None: e = sub
    elif loop and len(shifts) == 1: e = ('leb', list(shifts)[0])
    elif len(sizes) == 1 and not loop: e = ('fix', list(sizes)[0])
    else: return None
    return ('zz',) + e if zz else e


def ec(L, role):
    e = L.enc.get(role)
    return '-'.join(map(str, e)) if e else '?' + L.name


WID = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64, 'float': 32, 'double': 64}


def leafcheck(P, L, role):
    """faults inside one scalar function: lost high bits, or a continuation test that disagrees with the group width"""
    f = L.f.get(role)
    if f is None: return []
    out = []; d = defs_of(f); e = L.enc.get(role)
    k = lambda z: z['v'] if isinstance(z, dict) and z.get('k') == 'i' else None
    if role in 'sw':
        chain = {0}; grown = True
        while grown:
            grown = False
            for bl in f.blocks:
                for i in bl:
                    if i.id in chain or i.op not in ('phi', 'trunc', 'zext', 'sext', 'lshr', 'freeze', 'bitcast', 'ptrtoint'): continue
                    if any(isinstance(o, int) and o in chain for o in (i.ops if i.op == 'phi' else i.ops[:1])): chain.add(i.id); grown = True
        users = {}
        for bl in f.blocks:
            for i in bl:
                for o in i.ops:
                    if isinstance(o, int): users.setdefault(o, []).append(i)
        for x in chain:
            i = d.get(x)
            if i is not None and i.op == 'trunc' and WID.get(i.ty, 64) < L.bits and any(u.op in ('lshr', 'icmp', 'call', 'phi') for u in users.get(x, ())):
                out.append('only the low %d of %d bits are encoded' % (WID[i.ty], L.bits))
        if e and e[0] == 'leb' and f.cfg()['loops']:
            g = e[1]
            for bl in f.blocks:
                for i in bl:
                    if i.op == 'icmp' and isinstance(i.ops[0], int) and i.ops[0] in chain and k(i.ops[1]) is not None:
                        c = k(i.ops[1]); p = i.x['p']; o = d.get(i.ops[0]); sh = 0; n = 0
                        while o is not None and o.op != 'phi' and n < 6:
                            n += 1
                            if o.op == 'lshr': sh += k(o.ops[1]) or 0
                            o = d.get(o.ops[0]) if isinstance(o.ops[0], int) else None
                        th = {'ne': 1 if c == 0 else None, 'eq': 1 if c == 0 else None, 'ugt': c + 1, 'ule': c + 1, 'uge': c, 'ult': c, 'sgt': c + 1, 'sge': c, 'slt': c, 'sle': c + 1}.get(p)
                        if th is None: continue
                        th <<= sh
                        if th not in (1, 1 << g): out.append('a further byte is used from %d on instead of %d' % (th, 1 << g))
        if role == 'w' and e and e[0] == 'leb' and f.cfg()['loops']:
            for bl in f.blocks:
                for i in bl:
                    if i.op == 'or':
                        for z in i.ops:
                            if k(z) is not None and (k(z) & 0xff) != 1 << e[1]: out.append('the continuation mark is 0x%x' % (k(z) & 0xff))
    elif e and e[-2] == 'leb' and f.cfg()['loops']:
        g = e[-1]
        for bl in f.blocks:
            for i in bl:
                if i.op == 'shl' and k(i.ops[1]) is None and WID.get(i.ty, 64) < L.bits: out.append('groups are assembled in %d of %d bits' % (WID[i.ty], L.bits))
                if i.op == 'and':
                    for z in i.ops:
                        if k(z) is not None and 0 < (k(z) & (2 ** 64 - 1)) < 256 and k(z) not in ((1 << g) - 1, 1 << g, 255, 31, 63): out.append('a group is masked with 0x%x' % k(z))
    if role in 'wr' and e and e[0] == 'fix':
        for bl in f.blocks:
            for i in bl:
                z = k(i.ops[1]) if i.op in ('sub', 'add') and len(i.ops) == 2 else None
                if z is not None and abs(z) != e[1]: out.append('%d bytes are copied but %d accounted for' % (e[1], abs(z)))
                if i.op == 'getelementptr' and len(i.x['steps']) == 1 and 'i' in i.x['steps'][0] and k(i.x['steps'][0]['i']) is not None and WID.get(i.x['steps'][0].get('t')) == 8 and k(i.x['steps'][0]['i']) != e[1]:
                    out.append('%d bytes are copied but the position moves by %d' % (e[1], k(i.x['steps'][0]['i'])))
    for bl in f.blocks:
        for i in bl:
            if i.op == 'call' and isinstance(i.x['c'], dict) and 'zigzag_decode' in str(i.x['c'].get('v')):
                z = P.resolve(f.tu, i.x['c']['v'])
                if z and any(j.op == 'ashr' for b in z.blocks for j in b): out.append('%s shifts arithmetically' % z.name)
    return sorted(set(out))


# ---------------------------------------------------------------------------
def addends(t, sign=1):
    """flatten a sum into {term: coefficient}"""
    c = Counter(); st = [(t, 1)]
    while st:
        x, s = st.pop()
        if x.op == 'c': c[ONE] += s * x.a[0]
        elif x.op == '+': c[ONE] += s * x.a[1]; st.append((x.a[0], s))
        elif x.op == 'bin' and x.a[0] == 'add': st.append((x.a[1], s)); st.append((x.a[2], s))
        elif x.op == 'bin' and x.a[0] == 'sub': st.append((x.a[1], s)); st.append((x.a[2], -s))
        elif x.op == '[]': st.append((x.a[0], s)); st.append((x.a[1], s * x.a[2]))
        else: c[x] += s
    return Counter({k: v for k, v in c.items() if v})


def total(c):
    """a Counter of addends back into one term (order independent)"""
    r = ZERO
    for k in sorted((k for k in c if k is not ONE), key=lambda t: t.n):
        v = c[k]
        r = tbin('add', r, k if v == 1 else mk('bin', 'mul', k, C(v)))
    return padd(r, c.get(ONE, 0))


DIRTY = ('ret', 'out', 'lv', 'lvm', 'j', 'jm', 'heap', 'alloca', 'uninit', 'undefssa', 'op', 'other', 'rd', 'pos', 'undef', 'lsz')


def clean(t):
    """does the term mean the same thing in every function of the family (built from the object only)?"""
    return t is not None and not contains(t, lambda x: x.op in DIRTY)


class Path:
    __slots__ = ('tr', 'facts', 'items', 'st', 'bad', 'init')


def conststr(P, tu, a):
    """length of a constant string variable"""
    n = a[-1] if isinstance(a[-1], str) else a[0]
    g = P.globals.get((tu, n)) or P.globals.get(('', n))
    if not g or not g['const'] or not g.get('init') or g['init'].get('k') != 'agg': return None
    v = [x.get('v') for x in g['init']['v']]
    return v.index(0) if 0 in v else None


def weight(P, f, stack=()):
    """instructions of a function with everything it calls directly (recursion counts as heavy)"""
    w = getattr(f, '_weight', None)
    if w is not None: return w
    if f in stack: return 10 ** 6
    w = 0
    for bl in f.blocks:
        for i in bl:
            w += 1
            if i.op == 'call':
                c = i.x['c']
                if isinstance(c, dict) and c.get('k') == 'fn' and c['v'] not in RAISE:
                    g = P.resolve(f.tu, c['v'])
                    if g is not None: w += weight(P, g, stack + (f,))
    if not stack or w < 10 ** 6: f._weight = w
    return w


class Wire(Client):
    max_depth = 12
    limit = 1500
    fine = False

    def __init__(self, prog, model, mode, root, fixed=()):
        self.p = prog; self.m = model; self.mode = mode; self.root = root
        self.lv = leaves(prog)
        self.fixed = fixed              # [(role term address, value)] known constants
        self.bodies = {}                # loop ctx -> set of traces
        self.inits = {}
        self.back = {}                  # accumulator term -> set of values at the back edge
        self.dest = {}                  # item read -> where the reader put it
        self.trip = {}                  # loop ctx -> set of (init, step, bound)
        self.paths = []
        self.second = False
        self.events = 0
        self.strs = {}
        self.keep = False

    # state: tr = trace, init = {accumulator: value on entry}, bufs = cells that hold the position, src = source of the last copy
    def init(self, eng, st):
        return {'tr': (), 'init': {}, 'bufs': frozenset(), 'src': None, 'pend': frozenset(), 'szs': frozenset()}

    def key(self, st):
        if not self.second: return None
        c = st.cl
        if self.mode == 'r':
            return (c['tr'], c['pend'], frozenset((t, v) for t, v in st.facts.iv.items() if t.op == 'rd' and (v[0] is not None and v[0] == v[1] or self.fine and v != (0, None))))
        return (c['tr'], frozenset(c['init'].items()), c['src'], c['pend'])

    def merge(self, S, st): return S.cl
    def inline(self, eng, st, fn, args, inst): return True

    def set(self, st, **kw):
        st.cl = dict(st.cl); st.cl.update(kw)

    def event(self, st, ev):
        self.events += 1
        self.set(st, tr=st.cl['tr'] + (ev,), src=None)
        self.repos(st)

    def repos(self, st):
        p = mk('pos', st.cl['tr'])
        for a in st.cl['bufs']: st.mem[a] = (p, 8)

    def usebuf(self, st, a):
        if a not in st.cl['bufs']:
            self.set(st, bufs=st.cl['bufs'] | {a})
            self.repos(st)

    def callee_cell(self, f, args, dt):
        for a, t in zip(f.args, args):
            if a['dt'] == dt: return t
        return None

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm in self.lv:
            role, L = self.lv[nm]
            if role == 's': return [(mk('lsz', ec(L, 's'), L.bits, args[0]), None)]
            self.usebuf(st, args[2])
            if role == 'w':
                self.event(st, ('it', ec(L, 'w'), L.bits, args[0], st.facts.const(args[0]), args[2]))
                return [(ZERO, None)]
            t = mk('rd', st.cl['tr'], ec(L, role), L.bits)
            eng.store(st, args[0], t, L.bits // 8); self.dest[t] = args[0]
            if role == 'r': self.event(st, ('it', ec(L, role), L.bits, t, None, args[2]))
            return [(ZERO, None)]
        if callee is not None and nm not in self.lv:
            for k in range(1, len(callee.args)):
                if callee.args[k]['dt'] in ('char * *', 'const char * *') and callee.args[k - 1]['dt'] == 'size_t *' and k < len(args):
                    self.usebuf(st, args[k]); self.set(st, szs=st.cl['szs'] | {args[k - 1]})
        if callee is None and nm is None:
            sl = slot_of(self.p, st.fr.fn, i)
            if sl and sl[0] == OPS and sl[1] == 8 and len(args) == 4:
                a = args[2]
                eng.store(st, a, tbin('add', eng.load(st, a, 8), mk('lsz', 'obj', 0, args[0])), 8)
                return [(ZERO, None)]
            if sl and sl[0] == OPS and sl[1] == 16 and len(args) == 5:
                self.usebuf(st, args[3])
                self.event(st, ('it', 'obj', 0, args[0], None, args[3]))
                return [(ZERO, None)]
        if callee is not None and self.reader(callee) and st.frames and callee is not self.root:
            if callee.name != self.root.name:
                self.usebuf(st, args[4])
                t = mk('rd', st.cl['tr'], 'obj', 0)
                eng.store(st, args[0], t, 8); self.dest[t] = args[0]
                self.event(st, ('it', 'obj', 0, t, None, args[4]))
                return [(ZERO, None)]
        if callee is not None and any(x.fn is callee for x in st.frames):
            # recursion: one more object of the same kind
            b = self.callee_cell(callee, args, 'char * *') or self.callee_cell(callee, args, 'const char * *')
            if b is not None:
                self.usebuf(st, b)
                t = mk('?')
                if self.mode == 'r': t = mk('rd', st.cl['tr'], 'obj', 0); eng.store(st, args[0], t, 8); self.dest[t] = args[0]
                self.event(st, ('it', 'obj', 0, t, None, b))
                return [(ZERO, None)]
            s = self.callee_cell(callee, args, 'size_t *')
            if s is not None and callee.ret_type == 'ccs_result_t' and self.mode == 's':
                eng.store(st, s, tbin('add', eng.load(st, s, 8), mk('lsz', 'obj', 0, args[0])), 8)
                return [(ZERO, None)]
            if callee.ret_type == 'size_t' and self.mode == 's': return [(mk('lsz', 'obj', 0, args[0]), None)]
        if nm in ALLOC:
            site = st.fr.ctx + ((st.fr.fn.name, i.id, 0),)
            h = mk('heap', site, nm)
            for k in [k for k in st.mem if root_of(k) is h]: del st.mem[k]
            return [(h, lambda s: s.facts.learn(tcmp('ne', h, ZERO), True))]
        if nm == 'free': return [(None, None)]
        if nm in ('strcpy', 'strncpy'):
            def eff(s): self.strcopy(s, args[0], args[1])
            return [(args[0], eff)]
        if self.mode == 'r' and callee is not None and not self.takes(callee) and nm not in RAISE:
            if weight(self.p, callee) > self.limit:
                site = st.fr.ctx + ((st.fr.fn.name, i.id, 0),)
                for k, a in enumerate(args):
                    if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, site, k))
                if callee.ret_type == 'ccs_result_t': return [(ZERO, None)]
                return [(mk('ret', nm, site) if i.ty else None, None)]
        if nm == 'strlen' and args[0].op == 'g':
            n = conststr(self.p, st.fr.fn.tu, args[0].a)
            if n is not None: return [(C(n), None)]
        if callee is None:
            # external or callback: the outcome is a function of callee and arguments; only success is of interest
            cn = nm or ('cb:' + show(name))
            aa = tuple(a for a in args if root_of(a).op != 'alloca')
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (cn, aa, k))
            if nm is None and self.m.is_result(st.fr.fn, i, name, callee): return [(ZERO, None)]
            if i.ty: return [(mk('call', cn, aa), None)]
            return [(None, None)]
        return None

    def takes(self, f):
        return any(f.args[k]['dt'] in ('char * *', 'const char * *') and f.args[k - 1]['dt'] == 'size_t *' for k in range(1, len(f.args)))

    def strcopy(self, st, dst, src):
        st.mem[mk('strof', dst)] = (src, 0)

    def reader(self, f):
        return len(f.args) == 6 and f.ret_type == 'ccs_result_t' and f.args[4]['dt'] == 'const char * *' and f.args[3]['dt'] == 'size_t *' \
            and (f.name.endswith('_deserialize') or f.name.endswith('_deserialize_with_opts')) and f.args[0]['dt'].endswith('*')

    def isbuf(self, eng, st, addr):
        if addr in st.cl['bufs']: return True
        if addr.op == 'arg' and isinstance(addr.a[1], str) and addr.a[1] == '*buffer': return True
        return False

    def on_store(self, eng, st, i, addr, val, size):
        if val.op == 'copyof':
            r = root_of(addr)
            if r.op == 'pos' or (r.op == 'bin' and contains(r, lambda x: x.op == 'pos')): self.set(st, src=val.a[0])
            elif root_of(val.a[0]).op == 'pos': self.strcopy(st, addr, val.a[0])
            return
        if self.isbuf(eng, st, addr):
            old = addends(eng.load(st, addr, 8)); new = addends(val)
            d = Counter(new); d.subtract(old); d = Counter({k: v for k, v in d.items() if v})
            if not d: return
            n = total(d)
            self.pending(st, d, 1)
            src = st.cl['src']
            if self.mode == 'r': src = eng.load(st, addr, 8)
            self.events += 1
            self.set(st, tr=st.cl['tr'] + (('it', 'raw', n, src, st.facts.const(n), addr),), src=None)

        elif addr in st.cl['szs'] and self.mode != 's':
            d = addends(val); d.subtract(addends(eng.load(st, addr, 8)))
            self.pending(st, d, 1)

    def pending(self, st, d, s):
        p = Counter(dict(st.cl['pend']))
        for k, v in d.items(): p[k] += s * v
        self.set(st, pend=frozenset((k, v) for k, v in p.items() if v))

    def lctx(self, f, block): return f.ctx + (('h', f.fn.name, block),)

    def on_edge(self, eng, st, f, block, k, newv, ctx):
        if not self.second: return
        if k == 0:
            d = dict(st.cl['init'])
            w = eng.prewiden.get(ctx) if eng.prewiden else None
            if w:
                for pid, v in newv:
                    if pid in w[0]: d[mk('lv', ctx, block, pid)] = v; self.inits.setdefault(mk('lv', ctx, block, pid), set()).add(v)
                for a in w[1]:
                    if a in st.mem and a not in st.cl['bufs']:
                        t = mk('lvm', ctx, block, a); d[t] = st.mem[a][0]; self.inits.setdefault(t, set()).add(d[t])
                self.set(st, init=d)
        else:
            L = f.loops[block]
            tr = st.cl['tr']
            for n in range(len(tr) - 1, -1, -1):
                if tr[n] == ('{', self.lctx(f, block)):
                    self.bodies.setdefault(self.lctx(f, block), {}).setdefault(tr[n + 1:], {}).setdefault(st.facts.key(), st.facts.copy()); break
            for pid, v in newv:
                if pid in L[2]: self.back.setdefault(mk('lv', ctx, block, pid), {}).setdefault(v, {}).setdefault(st.facts.key(), st.facts.copy())
            for a in L[3]:
                if a in st.mem: self.back.setdefault(mk('lvm', ctx, block, a), {}).setdefault(st.mem[a][0], {}).setdefault(st.facts.key(), st.facts.copy())
            # trip count: counter < bound held in this iteration
            got = None
            for c, v in st.facts.rel.items():
                if not v or c.a[0] not in ('lt', 'ne'): continue
                x, b = c.a[1], c.a[2]
                if x.op == '+' and x.a[0].op == 'lv': b = tbin('add', b, C(-x.a[1])); x = x.a[0]
                if x.op == 'lv' and x.a[0] == ctx and not contains(b, lambda t: t.op in ('lv', 'lvm') and t.a[0] == ctx):
                    nv = dict(newv).get(x.a[2])
                    if nv is not None and nv.op == '+' and nv.a[0] is x: got = (x, nv.a[1], b)
            for x, (l, h) in st.facts.iv.items():
                if x.op == 'lv' and x.a[0] == ctx and h is not None:
                    nv = dict(newv).get(x.a[2])
                    if nv is not None and nv.op == '+' and nv.a[0] is x: got = (x, nv.a[1], C(h + 1))
            self.trip.setdefault(ctx, set()).add((got[1], got[2], st.cl['init'].get(got[0])) if got else None)

    def on_header(self, eng, st, f, block, k):
        ctx = self.lctx(f, block)
        tr = st.cl['tr']
        if k == 0:
            self.set(st, tr=tr + (('{', ctx),))
        else:
            for n in range(len(tr) - 1, -1, -1):
                if tr[n] == ('{', ctx):
                    self.set(st, tr=tr[:n + 1], src=None)
                    break
        self.repos(st)
        if self.mode != 's':
            a = mk('arg', 102, '*size'); r = mk('rem')
            st.mem[a] = (r, 8)
            if self.mode == 'w':
                topos = lambda t: root_of(t).op == 'pos' or (t.op != 'strof' and contains(t, lambda x: x.op == 'pos'))
                st.regions = tuple(x for x in st.regions if not topos(x[1]))
                for k in [k for k in st.mem if topos(k)]: del st.mem[k]

    def on_inline_ret(self, eng, st, f, val):
        # locals of a finished call are gone
        dead = lambda a: root_of(a).op == 'alloca' and root_of(a).a[0][:-1] == f.ctx
        used = {root_of(r[4]) for r in st.regions if r[0] == 'copy' and isinstance(r[4], Term)}
        for k in [k for k in st.mem if k.op != 'strof' and dead(k) and root_of(k) not in used]: del st.mem[k]
        st.regions = tuple(r for r in st.regions if not dead(r[1]) or r[1] in used)

    def on_ret(self, eng, st, inst, val):
        if not self.second: return
        if val is not None and self.root.ret_type == 'ccs_result_t' and st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        p = Path(); p.tr = st.cl['tr']; p.facts = st.facts.copy(); p.st = st if self.keep else None; p.bad = None; p.init = st.cl['init']
        if st.cl['pend'] and self.mode != 's': p.bad = total(Counter(dict(st.cl['pend'])))
        if self.mode == 's':
            if self.root.ret_type == 'size_t': v = val
            else: v = eng.load(st, self.cum, 8)
            p.items = (v, dict(st.cl['init']))
        self.paths.append(p)


class Hist(Engine):
    """remembers every value that was ever stored in a cell"""
    def store(self, st, addr, val, size):
        self.hist.setdefault(addr, set()).add(val)
        Engine.store(self, st, addr, val, size)

    def memcpy(self, st, dst, src, n):
        Engine.memcpy(self, st, dst, src, n)
        b, o = split_off(dst)
        nn = st.facts.const(n)
        for k, c in st.mem.items():
            kb, ko = split_off(k)
            if kb is b and ko >= o and (nn is None or ko < o + nn): self.hist.setdefault(k, set()).add(c[0])

    def may(self, v, seen=None):
        """the values a term can stand for: joins and loop-carried cells are resolved by what was stored there"""
        seen = set() if seen is None else seen
        while v.op in ('trunc', 'zext', 'sext') and isinstance(v.a[0], Term): v = v.a[0]
        if v.op in ('jm', 'lvm'):
            a = v.a[-1]
            if a in seen: return set()
            seen.add(a)
            out = set()
            h = self.hist.get(a)
            if not h: return {mk('?', a)}
            for x in h: out |= self.may(x, seen)
            return out
        return {v}


class NoMerge(Engine):
    def join(self, st, cfg):
        k = self.skey(st, cfg)
        if k in self.visited: return None
        self.visited.add(k)
        return st


ROLE = {'size_t *': None}


def arg_terms(f, mode):
    """arguments named by role, so that terms of writer, size query and (object-less) reader can be compared"""
    out = []; cum = None
    for k, a in enumerate(f.args):
        dt = a['dt'] or ''
        if dt in ('char * *', 'const char * *') and k >= 1: out.append(mk('arg', 100, '*buffer'))
        elif dt == 'size_t *' and mode == 's': cum = mk('arg', 101, '*cum'); out.append(cum)
        elif dt == 'size_t *' and not (mode == 'r' and k == 0): out.append(mk('arg', 102, '*size'))
        elif dt.endswith('_options_t *') or dt.endswith('options_s *'): out.append(mk('arg', 103, 'opts'))
        elif dt == 'ccs_serialize_format_t': out.append(mk('arg', 104, 'format'))
        elif dt == 'uint32_t' and a['n'] == 'version': out.append(mk('arg', 105, 'version'))
        elif k == 0: out.append(mk('arg', 0, 'object' if mode != 'r' else 'ret'))
        else: out.append(mk('arg', k, a['n'] or 'arg%d' % k))
    return out, cum


def explore(P, M, f, mode, known=(), keep=False, max_states=60000, max_steps=2000000, client=Wire):
    """-> Wire client with .paths, or None when too large.  known: [(address builder, value)] facts about the object"""
    args, cum = arg_terms(f, mode)
    pre = None
    for second in (False, True):
        cl = client(P, M, mode, f); cl.second = second; cl.cum = cum; cl.keep = keep
        eng = Hist(P, cl, max_steps=max_steps, max_states=max_states) if mode == 'r' else NoMerge(P, cl, max_steps=max_steps, max_states=max_states) if second and mode != 'r' else Engine(P, cl, max_steps=max_steps, max_states=max_states)
        eng.prewiden = pre; eng.hist = {}

        def setup(st):
            for t, v in known: st.facts._set(t, v, v)
            for a in args:
                if a.a[1] == '*buffer': cl.usebuf(st, a)
                if a.a[1] == '*size' and mode != 's': cl.set(st, szs=st.cl['szs'] | {a})
        eng.run(f, args, setup)
        if eng.incomplete: return None
        pre = eng.widened
        # loops that changed nothing in pass one still need an entry
    cl.eng = eng
    cl.finish = True
    return cl


# ---- canonical forms --------------------------------------------------------
class Item:
    __slots__ = ('cls', 'bits', 'val', 'k', 'n')

    def __repr__(self): return self.cls + ('(%s)' % show(self.n) if self.cls == 'raw' else '') + ('=%s' % self.k if self.k is not None else '')


class Loop:
    __slots__ = ('bodies', 'trip', 'ctx', 'conds')

    def __repr__(self): return '{%s}' % ' | '.join(sorted(' '.join(map(repr, b)) for b in self.bodies))


def cells(tr): return {e[5] for e in tr if e[0] == 'it'}


def seq(cl, tr, depth=0, cell=None, zeros=False):
    """trace -> list of Item / Loop (loops that emit nothing are dropped)"""
    out = []
    for e in tr:
        if e[0] == '{':
            if depth > 6: continue
            L = Loop(); L.ctx = e[1]
            L.bodies = []; L.conds = []
            for b in sorted(cl.bodies.get(e[1], ()), key=repr): L.bodies.append(seq(cl, b, depth + 1, cell, zeros)); L.conds.append(list(cl.bodies[e[1]][b].values()))
            if not any(L.bodies): continue
            t = cl.trip.get(e[1])
            L.trip = list(t)[0] if t and len(t) == 1 else None
            out.append(L)
        else:
            if cell is not None and e[5] is not cell: continue
            x = Item(); x.cls = e[1]
            if e[1] == 'raw': x.n = e[2]; x.val = e[3]; x.bits = 0; x.k = e[4]
            else: x.n = None; x.bits = e[2]; x.val = e[3]; x.k = e[4]
            if x.cls == 'raw' and x.k == 0 and not zeros: continue
            out.append(x)
    return out


def shape(s, raws=False):
    """hashable class-only form of a sequence"""
    out = []
    for x in s:
        if isinstance(x, Loop): out.append(('{', frozenset(shape(b) for b in x.bodies)))
        else: out.append(x.cls)
    return tuple(out)


def bag(s):
    """class-only form without order: used against size sums"""
    c = Counter()
    for x in s:
        if isinstance(x, Loop): c[('{', frozenset(bag(b) for b in x.bodies))] += 1
        else: c[x.cls] += 1
    return frozenset(c.items())


def flatbag(s, d=0, out=None):
    out = Counter() if out is None else out
    for x in s:
        if isinstance(x, Loop):
            m = Counter()
            for b in x.bodies:
                for k, v in flatbag(b, d + 1).items(): m[k] = max(m[k], v)
            out.update(m)
        else: out[(x.cls, d)] += 1
    return out


def size_seq(cl, p):
    """sum of a size path -> ([Item / Loop], how often the incoming total is included); Unclear when the sum cannot be followed"""
    top, init = p.items
    F = p.facts

    def leafitem(x, n):
        it = Item()
        if x.op == 'lsz': it.cls = x.a[0]; it.bits = x.a[1]; it.val = x.a[2]; it.k = F.const(x.a[2]); it.n = None
        else: it.cls = 'raw'; it.bits = 0; it.val = None; it.n = C(n) if x is ONE else x if n == 1 else mk('bin', 'mul', x, C(n)); it.k = F.const(it.n)
        return it

    def alts(t, me, stack, local):
        """alternatives (list of item lists) for the sum t; the accumulator `me` must occur exactly once"""
        outs = [([], 0, 0)]
        for x, n in addends(t).items():
            if x is me:
                outs = [(o, b, m + n) for o, b, m in outs]
            elif x.op == 'ld' and x.a[0].op == 'arg' and x.a[0].a[1] == '*cum': outs = [(o, b + n, m) for o, b, m in outs]
            elif x.op in ('lv', 'lvm') and x in cl.back:
                if x in stack: raise Unclear('accumulator of an outer loop')
                ini = [init[x]] if x in init and not local else sorted(cl.inits.get(x, ()), key=lambda t: t.n)
                if not ini or n != 1: raise Unclear('start of an accumulator')
                L = Loop(); L.ctx = x.a[0]; L.bodies = []; L.conds = []
                for b in sorted(cl.back[x], key=lambda t: t.n):
                    for o, bb, m in alts(b, x, stack | {x}, True):
                        if m != 1 or bb: raise Unclear('accumulator')
                        L.bodies.append(o); L.conds.append(list(cl.back[x][b].values()))
                tr = cl.trip.get(x.a[0]); L.trip = list(tr)[0] if tr and len(tr) == 1 else None
                tail = [L] if any(L.bodies) else []
                outs = [(o + o2 + tail, b + b2, m + m2) for o, b, m in outs for v in ini for o2, b2, m2 in alts(v, me, stack | {x}, local)]
            else:
                its = [leafitem(x, n)] if x.op != 'lsz' else [leafitem(x, 1)] * max(n, 0)
                its = [i for i in its if not (i.cls == 'raw' and i.k == 0)]
                outs = [(o + its, b, m) for o, b, m in outs]
        return outs
    r = alts(top, None, frozenset(), False)
    if len(r) != 1: raise Unclear('several sums')
    return r[0][0], r[0][1]


class Unclear(Exception):
    pass


def joint(a, b):
    """can both path conditions hold together? (facts over terms that mean the same in both functions)"""
    f = a.copy()
    for t, (l, h) in b.iv.items():
        if not f._set(t, l, h): return False
    for t, s in b.ne.items():
        for x in s:
            if not f.learn(tcmp('ne', t, C(x)), True): return False
    for c, v in b.rel.items():
        e = f.ev(c)
        if e is not None and e != v: return False
        if e is None and not f.learn(c, v): return False
    return True


def facts_clean(f):
    return all(clean(t) for d in (f.iv, f.ne, f.rel) for t in d)


# ---- what is paired with what -----------------------------------------------
def kinds(P):
    """ops table -> object kind, from the places that initialise an object header (kind and operations stored into the same header)"""
    out = {}; dyn = {}
    for f in P.unique_funcs():
        d = defs_of(f); hdr = {}; direct = {}
        for bl in f.blocks:
            for i in bl:
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('v') == '_ccs_object_init' and len(i.ops) == 3:
                    hdr[('c', i.id)] = {0: i.ops[1], 24: i.ops[2]}
                if i.op != 'store' or not isinstance(i.ops[1], int): continue
                a = i.ops[1]; g = d.get(a)
                if i.x['z'] == 4: direct[a] = i.ops[0]
                if g is None or g.op != 'getelementptr' or not g.x['steps'] or 's' not in g.x['steps'][-1]: continue
                sp = g.x['steps'][-1]
                if sp['s'].lstrip('%') == 'struct._ccs_object_internal_s': hdr.setdefault(g.ops[0] if isinstance(g.ops[0], int) else None, {})[sp['o']] = i.ops[0]
        for b, h in hdr.items():
            if 0 not in h and b in direct: h[0] = direct[b]
        for h in hdr.values():
            k, o = h.get(0), h.get(24)
            if not (isinstance(k, dict) and k.get('k') == 'i') or o is None: continue
            gs = tabs_of(f, o, d, set())
            for v in gs: out[(f.tu if (f.tu, v) in P.globals else '', v)] = k['v']
            if not gs: dyn.setdefault(f.tu, set()).add(k['v'])
    for (t, n), g in P.globals.items():
        if (t, n) in out or not g['t'].lstrip('%').endswith('_ops_s'): continue
        b = dyn.get(g['tu'])
        if b and len(b) == 1: out[(t, n)] = list(b)[0]
    return out


def tabs_of(f, o, d, seen):
    if isinstance(o, dict): return {o['v']} if o.get('k') == 'g' else set()
    if o in seen: return set()
    seen.add(o)
    i = d.get(o)
    if i is None: return set()
    if i.op in ('phi', 'bitcast'): return set().union(*[tabs_of(f, x, d, seen) for x in i.ops])
    if i.op == 'select': return tabs_of(f, i.ops[1], d, seen) | tabs_of(f, i.ops[2], d, seen)
    return set()


def tables(P, M):
    """[(table key, kind, size fn, write fn)] for every operations table of objects"""
    ks = kinds(P); out = []
    for key, g in sorted(P.globals.items()):
        if not (M.inner(g['t'], 8) and any(s.lstrip('%') == OPS and o == 8 for s, o in M.inner(g['t'], 8))): continue
        fl = {o: c for o, c in P.flat_init(g)}
        fn = lambda o: P.resolve(g['tu'], fl[o]['v']) if fl.get(o, {}).get('k') == 'fn' else None
        out.append((key, ks.get(key), fn(8), fn(16)))
    return out
