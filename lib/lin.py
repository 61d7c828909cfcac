"""Linear expressions over terms and what the facts of a path say about them."""
import itertools
from engine import *


# ---- linear expressions over terms ---------------------------------------------
class Lin:
    __slots__ = ('k', 'c')

    def __init__(self, k=0, c=None): self.k = k; self.c = c or {}

    def add(self, o, m=1):
        c = dict(self.c)
        for t, v in o.c.items():
            n = c.get(t, 0) + m * v
            if n: c[t] = n
            else: c.pop(t, None)
        return Lin(self.k + m * o.k, c)

    def mul(self, m): return Lin(self.k * m, {t: v * m for t, v in self.c.items()} if m else {})

    def const(self): return self.k if not self.c else None

    def show(self):
        s = ['%s%s' % ('' if v == 1 else '%d*' % v, show(t)) for t, v in sorted(self.c.items(), key=lambda x: show(x[0]))]
        if self.k or not s: s.append(str(self.k))
        return ' + '.join(s)


def lin(t, n=0):
    if not isinstance(t, Term): return Lin(0)
    if t.op == 'c': return Lin(t.a[0])
    if n > 40: return Lin(0, {t: 1})
    if t.op == '+': return lin(t.a[0], n + 1).add(Lin(t.a[1]))
    if t.op == '[]': return lin(t.a[0], n + 1).add(lin(t.a[1], n + 1), t.a[2])
    if t.op == 'bin':
        op, a, b = t.a[:3]
        if op == 'add': return lin(a, n + 1).add(lin(b, n + 1))
        if op == 'sub': return lin(a, n + 1).add(lin(b, n + 1), -1)
        if op in ('mul', 'shl'):
            x, y = lin(a, n + 1), lin(b, n + 1)
            if op == 'shl':
                return x.mul(1 << y.k) if y.const() is not None and 0 <= y.k < 63 else Lin(0, {t: 1})
            if y.const() is not None: return x.mul(y.k)
            if x.const() is not None: return y.mul(x.k)
    return Lin(0, {t: 1})


def ineqs(f):
    """the linear inequalities L >= 0 that the facts of a path state"""
    out = []
    for c, v in f.rel.items():
        if c.op != 'cmp': continue
        p, a, b = c.a
        if not v: p = INV[p]
        d = lin(a).add(lin(b), -1)
        if len(d.c) > 4: continue
        if p == 'eq': out += [d, d.mul(-1)]
        elif p == 'ge': out.append(d)
        elif p == 'lt': out.append(d.mul(-1).add(Lin(-1)))
    for t, (l, h) in f.iv.items():
        if l is not None and l > -(1 << 62): out.append(lin(t).add(Lin(-l)))
        if h is not None and h < (1 << 62): out.append(lin(t).mul(-1).add(Lin(h)))
    return out


FREE = ('arg', 'ld', 'strlen', 'out', 'ret')


def index_like(t): return t.op in ('lv', 'lvm', 'j', 'jm')


def bound(d, ins, depth=0):
    """replace loop indexes that make d smaller by the largest value they take"""
    for t in sorted((t for t, v in d.c.items() if v < 0 and index_like(t)), key=lambda t: t.n):
        for q in ins:
            k = q.c.get(t, 0)
            if k == -1 and (len(q.c) > 1 or True) and not any(index_like(x) and x is not t for x in q.c):
                # q = rest - t >= 0  ->  t <= rest
                rest = q.add(Lin(0, {t: 1}))
                r = Lin(d.k, {x: v for x, v in d.c.items() if x is not t}).add(rest, d.c[t])
                return bound(r, ins, depth + 1) if depth < 6 else r
        return None
    return d


def judge(d, ins):
    """d >= 0 ?  True / False (with a witness) / None"""
    if all(v >= 0 for v in d.c.values()) and d.k >= 0: return True, None
    b = bound(d, ins)
    if b is None: return None, None
    if all(v >= 0 for v in b.c.values()) and b.k >= 0: return True, None
    if any(t.op not in FREE or contains(t, index_like) or (len(b.c) > 1 and t.op in ('out', 'ret') and 'deserialize' not in str(t.a[0])) for t in b.c): return None, None
    if all(v <= 0 for v in b.c.values()) and b.k <= 0: return False, {show(t): 1 for t in b.c}
    if sum(1 for t in b.c if t.op == 'ld') > (1 if len(b.c) > 1 else 9): return None, None     # fields of objects may depend on each other
    # a relation on the path settles it
    for q in ins:
        r = b.add(q, -1)
        if all(v >= 0 for v in r.c.values()) and r.k >= 0: return True, None
        for m in (2, 4, 8, 16, 48):
            r = b.add(q, -m)
            if all(v >= 0 for v in r.c.values()) and r.k >= 0: return True, None
    if len(b.c) > 4: return None, None
    # everything the atoms are tied to on the path gets a value too; when that grows, the question is left open
    cl = set(b.c); grown = True
    while grown:
        grown = False
        for q in ins:
            if not any(t in cl for t in q.c): continue
            for t in q.c:
                if t not in cl and not index_like(t): cl.add(t); grown = True
        if len(cl) > len(b.c) + 2 or any(t not in b.c and (t.op not in FREE or contains(t, index_like) and len(b.c) > 1) for t in cl): return None, None
    atoms = sorted(cl, key=lambda t: t.n)
    own = [q for q in ins if q.c and all(t in cl for t in q.c)]
    for vals in itertools.product((5, 8, 1000), repeat=len(atoms)):
        e = dict(zip(atoms, vals))
        if any(q.k + sum(v * e[t] for t, v in q.c.items()) < 0 for q in own): continue
        if b.k + sum(v * e[t] for t, v in b.c.items()) < 0: return False, {show(t): v for t, v in e.items()}
    return None, None
