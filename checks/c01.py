import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs, wire
from ccs import Model, pmap, defs_of
from wire import *

STAR = mk('*')


def norm(t):
    """value without loop counters and width changes"""
    if not isinstance(t, Term): return t
    if t.op == 'lv': return STAR
    if t.op == '+':
        b = norm(t.a[0])
        if b is STAR: return STAR
        if b.op == '[]' and b.a[1] is STAR: return padd(b, t.a[1] % b.a[2])
        return padd(b, t.a[1])
    if t.op in ('trunc', 'zext', 'sext', 'cast') and t.a and isinstance(t.a[0], Term): return norm(t.a[0])
    return mk(t.op, *[norm(x) if isinstance(x, Term) else tuple(norm(y) for y in x) if isinstance(x, tuple) and any(isinstance(y, Term) for y in x) else x for x in t.a])


def proj(f):
    """the part of a path condition that is about the object"""
    g = Facts()
    g.iv = {t: v for t, v in f.iv.items() if clean(t)}
    g.ne = {t: v for t, v in f.ne.items() if clean(t)}
    g.rel = {t: v for t, v in f.rel.items() if clean(t)}
    return g


def canon(s, F, vals=None):
    """order-free form of an item list under the facts F; vals collects class -> [normal values or None]"""
    c = Counter(); raw = Counter(); opaque = False
    for x in s:
        if isinstance(x, Loop):
            if x.trip and x.trip[1] is not None and x.trip[2] is not None and F.const(x.trip[1]) == 0 and F.const(x.trip[2]) == 0: continue
            bs = frozenset(canon(b, F, vals) for b in x.bodies)
            if bs == {(frozenset(), None)}: continue
            c[('{', bs)] += 1
            if vals is not None: vals.setdefault('{', []).append(bound(x))
        elif x.cls == 'raw':
            for t, n in addends(x.n).items():
                k = F.const(t) if t is not ONE else 1
                if k is not None: raw[ONE] += n * k
                else: raw[norm(t)] += n
        else:
            c[x.cls] += 1
            if vals is not None and (x.cls == 'obj' or 'leb' in x.cls):
                v = norm(x.val); k = F.const(x.val)
                vals.setdefault(x.cls, []).append(C(k) if k is not None else v if clean(v) else None)
    raw = Counter({k: v for k, v in raw.items() if v})
    if any(not clean(k) for k in raw): r = '?'
    else: r = total(raw)
    return frozenset(c.items()), None if not raw else r


def bound(L):
    t = L.trip
    if not t or t[1] is None or t[2] is None: return None
    b, i = norm(t[1]), norm(t[2])
    if not clean(b) or not clean(i) or contains(b, lambda x: x is STAR): return None
    d = addends(b); d.subtract(addends(i))
    return mk('trip', t[0], total(Counter({k: v for k, v in d.items() if v})))


def nproj(f):
    """clean facts of a loop body with counters replaced; None when they no longer fit together"""
    g = Facts()
    for t, (l, h) in f.iv.items():
        if t.op == 'lv': continue
        n = norm(t)
        if clean(n) and not g._set(n, l, h): return None
    for t, s in f.ne.items():
        n = norm(t)
        if n is not STAR and clean(n):
            for x in s:
                if not g.learn(tcmp('ne', n, C(x)), True): return None
    for t, v in f.rel.items():
        n = norm(t)
        if clean(n) and n.op == 'cmp':
            e = g.ev(n)
            if e is not None and e != v: return None
            g.rel[n] = v
    return g


def rows_of(L):
    out = {}
    for b, cs in zip(L.bodies, L.conds):
        for f in cs:
            g = nproj(f)
            if g is None: return None
            c = canon(b, g)
            out.setdefault((g.key(), c), (g, b, c))
    return list(out.values())


def bodycheck(a, b, finds, n, where=''):
    """loops of a writer path and a size path, paired by what they emit: the same body under the same condition"""
    la = [x for x in a if isinstance(x, Loop)]; lb = [x for x in b if isinstance(x, Loop)]
    key = lambda x: frozenset(classes(canon(q, Facts())) for q in x.bodies)
    for x in la:
        ys = [y for y in lb if key(y) == key(x)]
        if len(ys) != 1 or sum(key(z) == key(x) for z in la) != 1: continue
        y = ys[0]
        rw, rs = rows_of(x), rows_of(y)
        if rw is None or rs is None or len(rw) > 400 or len(rs) > 400: continue
        if len({r[2] for r in rw}) < 2 and len({r[2] for r in rs}) < 2: continue
        for g, _, _ in rw + rs:
            cw = [r for r in rw if joint(g, r[0])]; cs = [r for r in rs if joint(g, r[0])]
            if not cw or not cs: continue
            n[0] += 1
            bw = [r for r in cw if not any(match(r[2], q[2]) for q in cs)]; bs = [r for r in cs if not any(match(q[2], r[2]) for q in cw)]
            if bw or bs:
                finds.append(('body', 'in a repetition the writer emits %r where the size query counts %r' % ((bw or cw)[0][1], (bs or cs)[0][1])))
                return


def classes(c):
    """the same without raw totals"""
    return frozenset(((('{', frozenset(classes(b) for b in k[1])) if isinstance(k, tuple) else k), n) for k, n in c[0]), c[1] is not None


def flat(c):
    """only what is emitted at which loop depth, at most how often in one body"""
    out = Counter()
    def go(c, d, acc):
        for k, n in c[0]:
            if isinstance(k, tuple):
                m = Counter()
                for b in k[1]:
                    a = Counter(); go(b, d + 1, a)
                    for x, y in a.items(): m[x] = max(m[x], y)
                acc.update(m)
            else: acc[(k, d)] += n
        if c[1] is not None: acc[('raw', d)] = 1
    go(c, 0, out)
    return frozenset(out.items())


def eqraw(a, b):
    return a == b or a == '?' or b == '?'


def match(a, b):
    """equal up to totals that cannot be expressed over the object"""
    if a == b: return True
    if not eqraw(a[1], b[1]): return False
    ra = {k: n for k, n in a[0] if not isinstance(k, tuple)}; rb = {k: n for k, n in b[0] if not isinstance(k, tuple)}
    if ra != rb: return False
    la = [k for k, n in a[0] if isinstance(k, tuple) for _ in range(n)]; lb = [k for k, n in b[0] if isinstance(k, tuple) for _ in range(n)]
    if len(la) != len(lb): return False
    for x in la:
        for y in lb:
            if all(any(match(p, q) for q in y[1]) for p in x[1]) and all(any(match(p, q) for p in x[1]) for q in y[1]):
                lb.remove(y); break
        else: return False
    return True


def dedupe(rows):
    """rows (facts, items, extra): one per (projected facts, printed form)"""
    seen = {}
    for f, its, e in rows:
        g = proj(f)
        k = (g.key(), e, canon(its, g), repr(its))
        seen.setdefault(k, (g, its, e))
    return list(seen.values())


def pair(P, M, name, s, w, cellw=None, base=1):
    """compare a size function and a writer -> dict(result)"""
    r = dict(name=name, s=s.name, w=w.name, file=w.file, line=w.line, finds=[], assign=0, items=0, unclear=0, big=False, paths=0, loops=set())
    cw = explore(P, M, w, 'w'); cs = explore(P, M, s, 's')
    if cw is None or cs is None: r['big'] = True; return r
    if not cw.paths or not cs.paths: r['lost'] = True; return r
    W = []; S = []
    main = cellw(cw) if cellw else None
    for p in cw.paths:
        sq = seq(cw, p.tr, cell=main)
        W.append((p.facts, sq, None))
        if p.bad is not None and clean(p.bad): r['finds'].append(('account', 'the bytes written and the bytes taken off the remaining size differ by %s' % show(p.bad)))
    for p in cs.paths:
        try: sq, b = size_seq(cs, p)
        except Unclear as e: r['unclear'] += 1; r['why'] = str(e); continue
        S.append((p.facts, sq, b))
    if r['unclear']: return r
    W = dedupe(W); S = dedupe(S)
    r['paths'] = len(W) + len(S); r['items'] = cw.events
    for f, its, b in S:
        if b != base: r['finds'].append(('base', 'the size query %s the incoming total %d times instead of %d' % ('adds to', b, base)))
    As = {}
    for g, _, _ in W + S: As.setdefault(g.key(), g)
    for g in As.values():
        cwn = {}; csn = {}; amb = 0
        for side, out in ((W, cwn), (S, csn)):
            for f, its, _ in side:
                if not joint(g, f): continue
                j = g.copy()
                for t, (l, h) in f.iv.items(): j._set(t, l, h)
                vals = {}
                c = canon(its, j, vals)
                out.setdefault(c, []).append((vals, its))
        if not cwn or not csn: continue
        r['assign'] += 1
        badw = [c for c in cwn if not any(match(c, d) for d in csn)]
        bads = [c for c in csn if not any(match(d, c) for d in cwn)]
        if badw or bads:
            fw = {flat(c) for c in cwn}; fs = {flat(c) for c in csn}
            cl = {classes(c) for c in cwn} == {classes(c) for c in csn}
            if fw == fs and not cl: continue           # the same items under differently nested loops
            x = cwn[(badw or list(cwn))[0]][0][1]; y = csn[(bads or list(csn))[0]][0][1]
            r['finds'].append(('items', 'writer emits %r, size query counts %r' % (x, y)))
            break
        if len(cwn) == 1 and len(csn) == 1:
            key = (frozenset(x.ctx for x in list(cwn.values())[0][0][1] if isinstance(x, Loop)), frozenset(x.ctx for x in list(csn.values())[0][0][1] if isinstance(x, Loop)))
            if key[0] and key not in r['loops']:
                r['loops'].add(key); n = [0]
                bodycheck(list(cwn.values())[0][0][1], list(csn.values())[0][0][1], r['finds'], n)
                r['assign'] += n[0]
            va = {frozenset((k, None if None in v else tuple(sorted(v, key=lambda t: t.n))) for k, v in vals.items()) for vals, _ in list(cwn.values())[0]}
            vb = {frozenset((k, None if None in v else tuple(sorted(v, key=lambda t: t.n))) for k, v in vals.items()) for vals, _ in list(csn.values())[0]}
            if len(va) == 1 and len(vb) == 1:
                a = dict(list(va)[0]); b = dict(list(vb)[0])
                for k in a:
                    if a[k] is None or b.get(k) is None or len(a[k]) != len(b[k]): continue
                    if a[k] != b[k]:
                        da = Counter(a[k]); db = Counter(b[k]); d1 = list((da - db)); d2 = list((db - da))
                        r['finds'].append(('value', 'for the %s, the writer uses %s where the size query uses %s' % ({'{': 'number of repetitions', 'obj': 'nested object'}.get(k, 'variable-length value'), ', '.join(map(show, d1)), ', '.join(map(show, d2)))))
        if r['finds']: break
    return r


def objcell(cw):
    """the cursor the object itself is written through (the header is patched through another one)"""
    for p in cw.paths:
        for e in p.tr:
            if e[0] == 'it' and e[1] == 'obj': return e[5]
    return None


def leafdetail(P, L):
    """differences between the size and the writer of one scalar"""
    out = []
    a, b = L.enc.get('s'), L.enc.get('w')
    if a and b and a != b: out.append('announced as %s, written as %s' % (a, b))
    for role, n in (('s', 'size query'), ('w', 'writer')):
        for m in leafcheck(P, L, role): out.append('%s: %s' % (n, m))
    return out


def run(ctx):
    P = ccs.load(); M = Model(P)
    lv = leaves(P)
    for L in sorted({l for _, l in lv.values()}, key=lambda l: l.name):
        ctx.count('scalar encodings')
        if not (L.enc.get('s') and L.enc.get('w')): ctx.count('scalar encodings not recognised'); continue
        for m in leafdetail(P, L):
            ctx.finding('leaf:' + L.name, 'scalar %s: %s' % (L.name, m), '%s:%s' % (L.f['s'].file, L.f['s'].line))
    T = tables(P, M)
    jobs = []; seen = set()
    for key, kind, s, w in T:
        if (s is None) != (w is None):
            ctx.finding('table:%s' % key[1], 'operations table %s has a %s but no %s' % (key[1], 'size query' if s else 'writer', 'writer' if s else 'size query'), key[1])
        if s is None or w is None or (s, w) in seen: continue
        seen.add((s, w)); jobs.append((key[1], s, w, None, 1))
    # header and whole-object pairs
    fn = lambda n: next((f for f in P.unique_funcs() if f.name == n), None)
    h = (fn('_ccs_serialize_header_size'), fn('_ccs_serialize_header'))
    if all(h): jobs.append(('header', h[0], h[1], None, 0))
    o = (fn('_ccs_object_serialize_size_with_opts'), fn('_ccs_object_serialize_memory_with_opts'))
    if all(o): jobs.append(('object', o[0], o[1], objcell, 0))
    heavy = lambda j: -sum(len(b) for b in j[1].blocks) - sum(len(b) for b in j[2].blocks) - (10**6 if 'configuration_space' in j[0] else 0)
    jobs.sort(key=heavy)
    for r in pmap(lambda j: pair(P, M, *j), jobs):
        ctx.count('size/writer pairs')
        if r['big']: ctx.count('pairs too large'); continue
        if r['unclear'] or r.get('lost'): ctx.count('pairs not followed'); ctx.sample('not followed: %s %s' % (r['name'], r.get('why'))); continue
        ctx.count('pairs compared'); ctx.count('path conditions compared', r['assign']); ctx.count('paths', r['paths'])
        ctx.sample('%s vs %s: %d paths, %d joint conditions' % (r['s'], r['w'], r['paths'], r['assign']))
        for k, m in r['finds']:
            ctx.finding('%s:%s/%s' % (k, r['s'], r['w']), '%s: %s' % (r['name'], m), '%s:%s %s' % (r['file'], r['line'], r['w']))
    ctx.counts['obligations'] = ctx.counts.get('path conditions compared', 0) + ctx.counts.get('scalar encodings', 0)
    ctx.need('pairs compared', 15); ctx.need('scalar encodings', 15)


if __name__ == '__main__':
    main('C01', run, 'for every operations table, and for the header and the whole object: under every condition on the object, the items the size function adds up are the items the writer '
         'emits (same encodings, values of variable-length items, byte counts, repetitions and conditions inside repetitions); every scalar is announced as it is encoded; the position and the '
         'remaining size move together',
         ['callbacks supplied by the user announce the size they later write', 'the object is not modified between the size query and the writing'])
