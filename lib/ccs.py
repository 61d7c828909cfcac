"""What the analyses know about CCS conventions, derived from the program (types, tables) rather than from text."""
import os, re, pickle, multiprocessing as mp
from ir import Program, CheckError, REPO
from engine import *

RAISE = {'ccs_create_thread_error', 'ccs_thread_error_stack_push', 'ccs_set_thread_error'}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup'}


def load(repo=REPO):
    dev = os.environ.get('VP_IRCACHE')
    if dev:
        if not os.path.exists(dev):
            p = Program(repo); pickle.dump(p.tus, open(dev, 'wb')); return p
        return Program(repo, tus=pickle.load(open(dev, 'rb')))
    return Program(repo)


class Facts0: pass


def defs_of(fn):
    d = getattr(fn, '_defs', None)
    if d is None:
        d = fn._defs = {i.id: i for bl in fn.blocks for i in bl}
    return d


def slot_of(prog, fn, inst):
    """(struct, offset) of the function-pointer field an indirect call goes through, or ('g', table) or None"""
    c = inst.x['c']
    seen = 0
    d = defs_of(fn)
    while isinstance(c, int) and seen < 10:
        seen += 1
        i = d.get(c)
        if i is None: return None
        if i.op == 'load':
            a = i.ops[0]
            if isinstance(a, dict):
                if a.get('k') == 'gep': a = a
                if a.get('k') == 'g': return ('g', a['v'])
                return None
            g = d.get(a)
            off = 0; st = None
            while g is not None and g.op == 'getelementptr':
                ss = [s for s in g.x['steps'] if 's' in s]
                if ss:
                    # innermost struct first
                    if st is None:
                        st = ss[-1]['s'].lstrip('%'); off = ss[-1]['o']
                        return (st, off)
                b = g.ops[0]
                if isinstance(b, dict):
                    if b.get('k') == 'g': return ('g', b['v'])
                    return None
                g = d.get(b)
            return None
        if i.op in ('bitcast',): c = i.ops[0]; continue
        return None
    return None


class Model:
    def __init__(self, prog):
        self.p = prog
        self.slots = {}     # (struct, off) -> [function names with tu]
        for (t, n), g in prog.globals.items():
            ty = g['t'].lstrip('%')
            for o, c in prog.flat_init(g):
                if c.get('k') == 'fn':
                    for s, oo in self.inner(g['t'], o):
                        self.slots.setdefault((s.lstrip('%'), oo), []).append((g['tu'], c['v']))
                    if g['t'].startswith('['): self.slots.setdefault(('g', n), []).append((g['tu'], c['v']))
        self._mf = {}

    def inner(self, ty, off):
        """(struct, offset) pairs, outermost to innermost, that contain byte offset off of type ty"""
        out = []
        while True:
            if ty in self.p.structs:
                out.append((ty, off))
                nx = None
                for e in self.p.structs[ty]['e']:
                    if e['o'] <= off < e['o'] + e['z']: nx = e
                if nx is None: return out
                ty = nx['t']; off -= nx['o']
                continue
            if ty.startswith('['):
                n, e = ty[1:-1].split(' x ', 1)
                z = self.sizeof(e)
                if not z: return out
                off %= z; ty = e
                continue
            return out

    def sizeof(self, t):
        if t in self.p.structs: return self.p.structs[t]['size']
        if t in ('ptr', 'i64', 'double'): return 8
        if t in ('i32', 'float'): return 4
        if t == 'i8': return 1
        if t.startswith('['):
            n, e = t[1:-1].split(' x ', 1)
            z = self.sizeof(e)
            return z and int(n) * z
        return None

    def slot_funcs(self, slot):
        return [f for f in (self.p.stat.get(x) or self.p.ext.get(x[1]) for x in self.slots.get(slot, ())) if f]

    def slot_type(self, slot):
        s, o = slot
        d = self.p.di.get(s)
        if d:
            for m in d['m']:
                if m['o'] == o: return m['t']
        return None

    def slot_name(self, slot):
        if slot is None: return '?'
        if slot[0] == 'g': return slot[1]
        return self.p.field_name(slot[0], slot[1])

    def is_result(self, fn, inst, name, callee):
        """does this call return a ccs_result_t?"""
        if inst.ty != 'i32': return False
        if callee is not None: return callee.ret_type == 'ccs_result_t'
        if isinstance(name, str): return False       # libc
        sl = slot_of(self.p, fn, inst)
        if sl:
            if sl[0] == 'g':
                fs = self.slot_funcs(sl)
                return any(f.ret_type == 'ccs_result_t' for f in fs) if fs else True
            t = self.slot_type(sl)
            if t is None: return True
            t = t.replace('const ', '')
            k = 0
            while not t.startswith('ccs_result_t (') and t.rstrip(' *') in self.p.typedefs and k < 5:
                t = self.p.typedefs[t.rstrip(' *')]; k += 1
            return t.startswith('ccs_result_t (')
        return True

    def may_fail(self, f):
        """can this ccs_result_t function return a negative value?"""
        k = f.key()
        if k in self._mf: return self._mf[k]
        self._mf[k] = False      # recursion: assume not, the other branches decide
        d = defs_of(f)

        def neg(v, seen):
            if isinstance(v, dict): return v.get('k') != 'i' or v['v'] < 0
            if v in seen: return False
            seen.add(v)
            i = d.get(v)
            if i is None: return True
            if i.op == 'phi': return any(neg(o, seen) for o in i.ops)
            if i.op == 'select': return neg(i.ops[1], seen) or neg(i.ops[2], seen)
            if i.op == 'call':
                c = i.x['c']
                if isinstance(c, dict) and c.get('k') == 'fn':
                    g = self.p.resolve(f.tu, c['v'])
                    if g is not None: return self.may_fail(g) if g.ret_type == 'ccs_result_t' else True
                return True
            return True
        r = False
        for bl in f.blocks:
            t = bl[-1]
            if t.op == 'ret' and t.ops and neg(t.ops[0], set()): r = True
        self._mf[k] = r
        return r

    def ret_consts(self, f):
        d = defs_of(f); out = set()

        def go(v, seen):
            if isinstance(v, dict):
                out.add(v['v'] if v.get('k') == 'i' else None); return
            if v in seen: return
            seen.add(v)
            i = d.get(v)
            if i is not None and i.op == 'phi':
                for o in i.ops: go(o, seen)
            else: out.add(None)
        for bl in f.blocks:
            t = bl[-1]
            if t.op == 'ret' and t.ops: go(t.ops[0], set())
        return out


# ---- parallel driver --------------------------------------------------------
_W = {}


def _call(i):
    try:
        return _W['fn'](_W['items'][i])
    except Exception as e:
        import traceback
        return ('__err__', traceback.format_exc())


def pmap(fn, items, procs=8):
    """fn(item) in forked workers; order kept; errors raise CheckError"""
    items = list(items)
    if not items: return []
    _W['fn'] = fn; _W['items'] = items
    if os.environ.get('VP_SEQ'):
        out = [_call(i) for i in range(len(items))]
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(procs, os.cpu_count() or 2)) as pool:
            out = pool.map(_call, range(len(items)), chunksize=1)
    for o in out:
        if isinstance(o, tuple) and o and o[0] == '__err__': raise CheckError('worker failed:\n' + o[1])
    return out
