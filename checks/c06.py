import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, ALLOC, pmap, slot_of

# results that carry no information for the caller of the operation
EXEMPT = {'ccs_release_object', 'ccs_clear_thread_error', '_ccs_clear_thread_error'}
EAGAIN, EINTR = 11, 4
SYS_NEG = {'open', 'fstat', 'stat', 'read', 'write', 'close', 'ftruncate', 'lseek', 'munmap', 'msync', 'unlink'}
SYS_CLEANUP = {'close', 'munmap', 'unlink'}


class Err(Client):
    max_depth = 1

    def __init__(self, prog, model):
        self.p = prog; self.m = model; self.finds = []; self.sites = {}; self.checked = 0

    def init(self, eng, st): return {'pend': None, 'rec': False, 'user': False}

    def key(self, st): return (st.cl['pend'], st.cl['rec'], st.cl['user'])

    def inline(self, eng, st, fn, args, inst): return False

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE:
            if nm != 'ccs_thread_error_stack_push': st.cl['rec'] = True
            return [(mk('raise', 0), None)]
        site = st.fr.ctx + ((st.fr.fn.name, i.id, st.cnt.get((st.fr.ctx, st.fr.fn.name, i.id), 0)),)
        if nm in EXEMPT:
            r = mk('ret', nm, site)

            def xfail(s):
                s.cl['rec'] = True
                return s.facts.learn(tcmp('lt', r, ZERO), True)
            def xok(s): return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, xfail), (r, xok)] if i.ty else None
        if nm in ALLOC:
            self.sites[(st.fr.fn.name, i.id)] = nm
            h = mk('heap', site, nm)

            def fail(s):
                s.cl['pend'] = s.cl['pend'] or (nm, i.id)
            def okk(s):
                return s.facts.learn(tcmp('ne', h, ZERO), True)
            # a zero sized or deliberately absent request is not a failure
            return [(ZERO, fail), (h, okk)]
        if nm in SYS_NEG and nm not in SYS_CLEANUP:
            self.sites[(st.fr.fn.name, i.id)] = nm
            r = mk('ret', nm, site)
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, site, k))

            def sfail(s):
                s.cl['pend'] = s.cl['pend'] or (nm, i.id)
                return s.facts.learn(tcmp('eq', r, C(-1)), True)
            def sok(s): return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, sfail), (r, sok)]
        if self.m.is_result(st.fr.fn, i, name, callee):
            if callee is not None and not self.m.may_fail(callee):
                eng.opaque(st, i, name, args, site)
                r = st.fr.env.get(i.id)

                def nofail(s): return s.facts.learn(tcmp('lt', r, ZERO), False)
                return [(r, nofail)]
            sl = slot_of(self.p, st.fr.fn, i) if callee is None else None
            self.sites[(st.fr.fn.name, i.id)] = nm or self.m.slot_name(sl)
            r = mk('ret', nm or 'ind', site)
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm or 'ind', site, k))
            label = nm or self.m.slot_name(sl)
            user = callee is None and (sl is None or not self.m.slot_funcs(sl))

            def fail(s):
                s.cl['pend'] = s.cl['pend'] or (label, i.id)
                s.cl['rec'] = True
                return s.facts.learn(tcmp('lt', r, ZERO), True)
            def ok(s): return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, fail), (r, ok)]
        return None

    def on_branch(self, eng, st, inst, cond, taken):
        # a non-blocking transfer that would block is an outcome of its own, not a failure
        if cond.op == 'cmp' and cond.a[0] in ('eq', 'ne') and cond.a[2].op == 'c' and cond.a[2].a[0] in (EAGAIN, EINTR):
            x = cond.a[1]
            if x.op == 'ld' and x.a[0].op == 'ret' and x.a[0].a[0] == '__errno_location' and taken == (cond.a[0] == 'eq'):
                if st.cl['pend'] and st.cl['pend'][0] in SYS_NEG: st.cl['pend'] = None

    def on_ret(self, eng, st, inst, val):
        fn = eng.root
        if fn.ret_type != 'ccs_result_t' or val is None: return
        f = st.facts
        neg = f.ev(tcmp('lt', val, ZERO))
        if st.cl['pend']:
            self.checked += 1
            if neg is not True: self.finds.append(('swallow', st.cl['pend'], show(val)))
        elif neg is True and not st.cl['rec']:
            self.checked += 1
            self.finds.append(('unrecorded', f.const(val), inst.line))
        elif neg is None and not st.cl['rec'] and val.op not in ('raise',):
            pass


def ordinal(fn, iid, label):
    n = 0
    for bl in fn.blocks:
        for i in bl:
            if i.op == 'call':
                if i.id == iid: return n, i
                c = i.x['c']
                if isinstance(c, dict) and c.get('v') == label: n += 1
    return n, None


def work(f):
    P, M = ccs._W['prog'], ccs._W['model']
    c = Err(P, M)
    e = Engine(P, c, max_steps=600000, max_states=40000)
    e.run(f)
    return (c.finds, len(c.sites), c.checked, e.incomplete, e.paths)


def recorder(P, f):
    """part of the recording machinery itself: the error stack is its subject, it cannot record its own misuse"""
    r = getattr(P, '_recorders', None)
    if r is None:
        r = P._recorders = set()
        todo = [x for x in P.unique_funcs() if x.name in RAISE or (x.args and x.args[0]['dt'].rstrip(' *') == 'ccs_error_stack_t')]
        while todo:
            x = todo.pop()
            if x.key() in r: continue
            r.add(x.key())
            for bl in x.blocks:
                for i in bl:
                    if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                        g = P.resolve(x.tu, i.x['c']['v'])
                        if g is not None and 'error' in g.name: todo.append(g)
    return f.key() in r


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    fs = [f for f in P.unique_funcs() if f.ret_type == 'ccs_result_t' and not f.name.startswith('ut') and f.name not in RAISE and not recorder(P, f)]
    ccs._W['prog'] = P; ccs._W['model'] = M
    res = pmap(work, fs)
    inc = []
    for f, (finds, ns, chk, incomplete, paths) in zip(fs, res):
        ctx.count('functions'); ctx.count('failable_calls', ns); ctx.count('failure_returns', chk); ctx.count('paths', paths)
        if incomplete: inc.append(f.name)
        for x in finds:
            if x[0] == 'swallow':
                lab, iid = x[1]
                n, ins = ordinal(f, iid, lab)
                ctx.finding('%s:%s#%d' % (f.name, lab, n), '%s: when %s fails, %s may still be returned: the failure is swallowed' % (f.name, lab, x[2]), f.loc(ins) if ins else f.loc())
            else:
                ctx.finding('%s:unrecorded:%s' % (f.name, x[1]), '%s returns error %s without recording it on the thread error stack' % (f.name, x[1]), f.loc())
    # void/other helpers that swallow
    ctx.cov['incomplete_functions'] = inc
    ctx.need('functions', 300); ctx.need('failable_calls', 800)
    ctx.samples = ['%s: %d failable call sites, %d failure returns' % (f.name, r[1], r[2]) for f, r in list(zip(fs, res))[:400:40]]


if __name__ == '__main__':
    main('C06', check, 'in every function returning a result code, each call that can fail (result-typed callee or operation slot, allocation, system call) is forked '
         'into success and failure; on every path where one failed the returned value must be provably negative, and a provably negative return must be preceded by a recording call or a failing callee',
         ['failure of releasing an object during cleanup carries no information', 'callees obey the same rule (assume/guarantee over all analysed functions)'])
