import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main
from engine import *
import ccs, own, summ
from ccs import Model, pmap, defs_of

WHAT = {'block': 'memory block', 'ref': 'object reference', 'rng': 'random generator', 'map': 'file mapping', 'fd': 'file descriptor'}


def confirm(f):
    """again, keeping many more paths apart: only what is still found is reported"""
    c, e = own.run(f, steps=4000000, states=40000, join=80)
    return c.finds


def site_loc(P, fname, iid):
    for f in P.unique_funcs():
        if f.name == fname:
            i = defs_of(f).get(iid) if isinstance(iid, int) else None
            return f.loc(i) if i is not None else f.loc()
    return ''


def ordinal(P, fname, iid):
    """position of a call among the calls of the same callee in its function: stable under edits elsewhere"""
    for f in P.unique_funcs():
        if f.name != fname: continue
        t = defs_of(f).get(iid)
        if t is None or t.op != 'call': return '?', 0
        c = t.x['c']; nm = c.get('v') if isinstance(c, dict) else 'ind'
        n = 0
        for bl in f.blocks:
            for i in bl:
                if i is t: return nm, n
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('v') == nm: n += 1
    return '?', 0


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    ccs._W.update(prog=P, model=M, sum={})
    D = own.Dels(P, M)
    own.Own.dels = D; own.Own.delnames = {f.name for f, _ in D.tab.values()}
    own.Own.slotnames = slots = {f.name for sl in M.slots for f in M.slot_funcs(sl)}
    ctx.count('destructors', len({f.key() for f, _ in D.tab.values()}))
    ctx.count('released_fields', sum(len(r) for _, r in D.tab.values()))
    S = summ.compute(P, M, own.work_sum)
    probe = own.Own(P, M); inc = []; todo = []
    for f in summ.canon(P).values():
        s = S.get((f.name, f.file, f.line))
        if not s or 'n' not in s: continue
        ctx.count('functions'); ctx.count('acquisition_sites', s['n'][0]); ctx.count('release_sites', s['n'][1]); ctx.count('return_paths', s['n'][2]); ctx.count('obligations', s['n'][3])
        ctx.count('owning_fields_compared', s['part'])
        if s['inc']: inc.append(f.name)
        if s['new']: ctx.count('constructors')
        # a helper that is analysed inside its callers is judged there
        root = not f.internal or f.name in slots or not own.Own.inline(probe, None, None, f, None, None)
        if s['finds'] and root: todo.append(f)
    ctx.cov['bounded_functions'] = sorted(inc)
    seen = set()
    for f, finds in zip(todo, pmap(confirm, todo)):
        s = S[(f.name, f.file, f.line)]
        for k, (msg, loc) in s['finds'].items():
            if k not in finds: continue
            kind = k[0]; rk, label, neg, what, line = msg
            if kind == 'leak':
                nm, n = ordinal(P, k[1], k[2])
                if k in seen: continue
                seen.add(k)
                ctx.finding('%s:leak:%s#%d' % (k[1], nm, n), '%s: the %s acquired by %s is neither released nor handed over when %s returns%s (%s:%d)' % (
                    f.name, WHAT.get(rk, rk), label, f.name, ' an error' if neg else '', os.path.basename(f.file), line), site_loc(P, k[1], k[2]))
            elif kind == 'double':
                ctx.finding('%s:double:%s' % (k[1], what), '%s: %s releases %s a second time' % (f.name, k[1], what), loc or f.loc())
            elif kind == 'unowned':
                ctx.finding('%s:unowned:%s' % (f.name, k[2]), '%s stores %s at %s without taking a reference, but destruction releases it' % (f.name, label, what), f.loc())
            elif kind == 'undestroyed':
                nm, n = ordinal(P, k[1], k[2])
                ctx.finding('%s:undestroyed:%s#%d' % (k[1], nm, n), '%s: the %s acquired by %s is stored at %s, which destruction does not release' % (f.name, WHAT.get(rk, rk), label, what), site_loc(P, k[1], k[2]))
            elif kind == 'overwritten':
                ctx.finding('%s:overwritten:%s' % (f.name, k[2]), '%s overwrites the reference at %s without releasing it' % (f.name, what), f.loc())
            elif kind == 'dangling':
                ctx.finding('%s:dangling:%s' % (f.name, k[2]), '%s releases %s but the object still holds it' % (f.name, what), f.loc())
            else:
                ctx.finding('%s:skipped:%s' % (f.name, k[2]), '%s: destruction may succeed without releasing %s' % (f.name, what), f.loc())
    for n, (f, r) in sorted(D.tab.items())[::6]: ctx.sample('%s releases %s' % (f.name, ', '.join(sorted('%s %s' % (k, show(t)) for k, t in r))[:200]))
    ctx.need('functions', 300); ctx.need('acquisition_sites', 250); ctx.need('release_sites', 250); ctx.need('destructors', 25); ctx.need('released_fields', 60); ctx.need('constructors', 60)


if __name__ == '__main__':
    main('C04', check, 'every path of every function is followed with the references, blocks, mappings and descriptors it acquired (helpers inlined, constructors by summary); at each return an acquired resource '
         'must be released, returned, or stored in memory that survives; what is stored in an object must be what its destructor releases, and what its destructor releases must have been acquired',
         ['the hash and array containers manage their own storage', 'a release does not fail', 'user callbacks do not release the objects they are lent'])
