"""Bottom-up function summaries: layers of the call graph (direct calls and operation slots), each layer analysed in parallel."""
import os
import ccs
from ccs import pmap, slot_of, defs_of


def callees(P, M, f):
    """functions f may call: direct and through operation slots"""
    c = getattr(f, '_callees', None)
    if c is None:
        c = []
        for bl in f.blocks:
            for i in bl:
                if i.op != 'call': continue
                cv = i.x['c']
                if isinstance(cv, dict):
                    if cv.get('k') == 'fn':
                        g = P.resolve(f.tu, cv['v'])
                        if g is not None: c.append(g)
                else:
                    sl = slot_of(P, f, i)
                    if sl: c.extend(M.slot_funcs(sl))
        f._callees = c = list(dict.fromkeys(c))
    return c


def canon(P):
    """every copy of a header function is represented by one Func"""
    rep = getattr(P, '_canon', None)
    if rep is None:
        rep = {}
        for f in P.all: rep.setdefault((f.name, f.file, f.line), f)
        P._canon = rep
    return rep


def rep(P, f): return canon(P)[(f.name, f.file, f.line)]


def components(P, M, roots=None):
    """strongly connected components of the call graph (callees first) and, per component, the components it calls"""
    fs = P.unique_funcs() if roots is None else roots
    g = {}
    todo = [rep(P, f) for f in fs]
    while todo:
        f = todo.pop()
        if f in g: continue
        g[f] = [rep(P, x) for x in callees(P, M, f)]
        todo.extend(g[f])
    # Tarjan
    idx = {}; low = {}; st = []; on = set(); comps = []; n = [0]
    for r in g:
        if r in idx: continue
        work = [(r, iter(g[r]))]
        idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(g[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w is v: break
                    comps.append(c)
    cid = {f: k for k, c in enumerate(comps) for f in c}
    deps = {k: {cid[x] for f in c for x in g[f]} - {k} for k, c in enumerate(comps)}
    return comps, deps


def compute(P, M, work, roots=None, store=None, rounds=2, procs=8):
    """work(f) -> summary, given ccs._W['sum'] = summaries of callees by (name, file, line).  A function is analysed (in a forked child, which
    sees every summary known by then) as soon as all its callees are; recursive components are analysed together, `rounds` times."""
    S = store if store is not None else {}
    ccs._W.update(prog=P, model=M, sum=S)
    comps, deps = components(P, M, roots)
    key = lambda f: (f.name, f.file, f.line)
    users = {}
    for k, d in deps.items():
        for x in d: users.setdefault(x, []).append(k)
    left = {k: len(d) for k, d in deps.items()}
    # longest chains first
    height = {}
    for k in reversed(range(len(comps))): height[k] = 1 + max((height[u] for u in users.get(k, ())), default=0)
    rec = lambda c: len(c) > 1 or c[0] in [rep(P, x) for x in callees(P, M, c[0])]

    base, edited = None, ()
    if os.environ.get('VP_SUMBASE'):        # development only: keep the summaries of files that were not edited
        import pickle as pk
        with open(os.environ['VP_SUMBASE'], 'rb') as h: base = {(n, os.path.basename(p), l): v for (n, p, l), v in pk.load(h).items()}
        edited = os.environ.get('VP_SUMFILES', '').split(',')

    def one(c):
        out = {}
        if base is not None and all((f.name, os.path.basename(f.file), f.line) in base and os.path.basename(f.file) not in edited for f in c):
            for f in c: out[key(f)] = S[key(f)] = base[f.name, os.path.basename(f.file), f.line]
            return out
        for _ in range(rounds if rec(c) else 1):
            for f in c: out[key(f)] = S[key(f)] = work(f)
        return out
    import heapq, pickle, select, traceback, gc
    ready = [(-height[k], k) for k, n in left.items() if n == 0]
    heapq.heapify(ready)
    run = {}          # fd -> (pid, comp, chunks)
    procs = 1 if os.environ.get('VP_SEQ') else min(procs, os.cpu_count() or 2)
    gc.collect(); gc.freeze()
    try:
        while ready or run:
            while ready and len(run) < procs:
                ks = [heapq.heappop(ready)[1]]
                # leaves are small: several at once
                while ready and len(ks) < (40 if base else 4) and len(ready) > (0 if base else 4 * procs): ks.append(heapq.heappop(ready)[1])
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    os.close(r); gc.disable()
                    try:
                        out = {}
                        for k in ks: out.update(one(comps[k]))
                        data = pickle.dumps(('ok', out))
                    except BaseException: data = pickle.dumps(('err', traceback.format_exc()))
                    try:
                        with os.fdopen(w, 'wb') as o: o.write(data)
                    finally: os._exit(0)
                os.close(w); run[r] = (pid, ks, [])
            for r in select.select(list(run), [], [])[0]:
                b = os.read(r, 1 << 16)
                pid, ks, ch = run[r]
                if b: ch.append(b); continue
                os.close(r); os.waitpid(pid, 0); del run[r]
                try: st, out = pickle.loads(b''.join(ch))
                except Exception: raise ccs.CheckError('worker died on ' + comps[ks[0]][0].name)
                if st == 'err': raise ccs.CheckError('worker failed:\n' + out)
                S.update(out)
                for k in ks:
                    for u in users.get(k, ()):
                        left[u] -= 1
                        if left[u] == 0: heapq.heappush(ready, (-height[u], u))
    finally:
        gc.unfreeze()
        for r, (pid, ks, ch) in run.items():
            try: os.kill(pid, 9); os.waitpid(pid, 0)
            except OSError: pass
    return S


def of(f):
    return ccs._W['sum'].get((f.name, f.file, f.line))
