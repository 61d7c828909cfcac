import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
import ccs
from ccs import Model, defs_of, slot_of
import summ

# library functions that keep hidden state shared by all threads
HIDDEN = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'strerror', 'localtime', 'gmtime', 'ctime', 'asctime', 'setlocale',
          'setenv', 'putenv', 'unsetenv', 'clearenv', 'signal', 'sigaction', 'tmpnam', 'readdir', 'getpwnam', 'getpwuid', 'umask', 'chdir', 'fchdir', 'lgamma', 'gamma',
          'ecvt', 'fcvt', 'atexit', 'gsl_set_error_handler', 'gsl_set_error_handler_off', 'gsl_rng_env_setup', 'gsl_rng_types_setup', 'gsl_ieee_env_setup', 'setbuf', 'setvbuf',
          'hcreate', 'hsearch', 'hdestroy', 'l64a', 'ttyname', 'getopt', 'getopt_long', 'wcstombs', 'mblen', 'mbtowc', 'wctomb'}
INIT = {'ccs_init', 'ccs_fini'}      # documented: called once, before / after everything else
WR = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'snprintf', 'sprintf', 'vsnprintf')
CALLS = ('call', 'invoke')


def const_root(c):
    while isinstance(c, dict) and c.get('k') == 'gep': c = c['b']
    while isinstance(c, dict) and c.get('k') == 'ce' and c.get('v'): c = c['v'][0]
    return c


def roots(fn, v, seen=None):
    """where a pointer may come from: ('g', name), ('a', k), ('o',)"""
    seen = set() if seen is None else seen
    if isinstance(v, dict):
        r = const_root(v)
        if isinstance(r, dict) and r.get('k') == 'g': return {('g', r['v'])}
        if isinstance(r, dict) and r.get('k') == 'gep': return roots(fn, r['b'], seen)
        return set()
    if v in seen: return set()
    seen.add(v)
    if v < len(fn.args): return {('a', v)}
    d = defs_of(fn).get(v)
    if d is None: return set()
    if d.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'): return roots(fn, d.ops[0], seen)
    if d.op in ('phi', 'select'):
        out = set()
        for o in (d.ops if d.op == 'phi' else d.ops[1:]): out |= roots(fn, o, seen)
        return out
    if d.op == 'call' and isinstance(d.x['c'], dict) and str(d.x['c'].get('v', '')).startswith('llvm.threadlocal'): return {('tls',)}
    if d.op in ('add', 'sub', 'and', 'or'):
        out = set()
        for o in d.ops: out |= roots(fn, o, seen)
        return out
    return {('o',)}


def struct_of(fn, v):
    """struct types a pointer operand is taken to point into, by its address computation"""
    d = defs_of(fn).get(v) if isinstance(v, int) else None
    out = set()
    while d is not None and d.op == 'getelementptr':
        out |= {s['s'] for s in d.x['steps'] if 's' in s}
        d = defs_of(fn).get(d.ops[0]) if isinstance(d.ops[0], int) else None
    return out


def writes(P, fn):
    """(pointer operand, instruction) written by each instruction of fn"""
    for bl in fn.blocks:
        for i in bl:
            if i.op == 'store': yield i.ops[1], i, None
            elif i.op in ('atomicrmw', 'cmpxchg'): yield i.ops[0], i, None
            elif i.op in CALLS:
                c = i.x['c']
                nm = c.get('v') if isinstance(c, dict) and c.get('k') == 'fn' else None
                if nm and any(nm == w or nm.startswith('llvm.') and nm.startswith(w) for w in WR) and i.ops:
                    yield i.ops[0], i, None
                else:
                    for k, o in enumerate(i.ops): yield o, i, (nm, k)


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    fs = P.unique_funcs()
    # which parameters does a function write through?
    W = {}
    changed = True
    def callee_writes(fn, i, nm, k):
        gs = []
        if nm:
            g = P.resolve(fn.tu, nm)
            if g is None: return None
            gs = [g]
        else:
            sl = slot_of(P, fn, i)
            gs = M.slot_funcs(sl) if sl else []
        return any((g.name, g.file, g.line, k) in W for g in gs)
    while changed:
        changed = False
        for f in fs:
            for ptr, i, call in writes(P, f):
                if call and not callee_writes(f, i, *call): continue
                for r in roots(f, ptr):
                    if r[0] == 'a' and (f.name, f.file, f.line, r[1]) not in W:
                        W[(f.name, f.file, f.line, r[1])] = 1; changed = True
    # functions only reachable from initialisation
    callers = {}
    for f in fs:
        for g in summ.callees(P, M, f): callers.setdefault(g.key(), set()).add(f)
    def init_only(f, seen=()):
        if f.name in INIT: return True
        if not f.internal or f in seen: return False
        cs = callers.get(f.key(), ())
        return bool(cs) and all(init_only(c, seen + (f,)) for c in cs)
    addr_taken = {}
    nst = 0
    for f in fs:
        ctx.count('functions')
        for ptr, i, call in writes(P, f):
            rs = roots(f, ptr)
            for r in rs:
                if r[0] != 'g': continue
                g = P.globals.get((f.tu, r[1])) or P.globals.get(('', r[1]))
                if g is None or r[1].startswith('.str') or g.get('tls'): continue
                nst += 1
                if call:
                    cw = callee_writes(f, i, *call)
                    if cw is None:
                        if g['const']: continue
                        # an external function that receives a mutable variable: only the ones that read it are fine
                        if call[0] in ('strcmp', 'strlen', 'memcmp', 'strncmp', 'qsort', 'free', 'realloc', 'printf', 'fprintf', 'gsl_rng_alloc'): continue
                        if call[0] is None: continue
                    elif not cw: continue
                if init_only(f): continue
                ctx.finding('%s:writes:%s' % (f.name, r[1]), '%s writes the variable %s, which all threads share' % (f.name, r[1]), f.loc(i))
        # writes through a type of which only shared tables exist
        for ptr, i, call in writes(P, f):
            if call: continue
            for s in struct_of(f, ptr):
                if s.lstrip('%') not in SH(P): continue
                if any(r[0] in ('o', 'a') for r in roots(f, ptr)):
                    heap = all(is_fresh(f, ptr) for _ in (0,))
                    if not heap: ctx.finding('%s:table:%s' % (f.name, s.lstrip('%')), '%s writes an operation table of type %s, which all threads share' % (f.name, s.lstrip('%')), f.loc(i))
        for bl in f.blocks:
            for i in bl:
                if i.op in CALLS and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                    nm = i.x['c']['v']
                    ctx.count('call_sites')
                    if nm in HIDDEN and P.resolve(f.tu, nm) is None and not init_only(f):
                        ctx.finding('%s:hidden:%s' % (f.name, nm), '%s calls %s, whose hidden state all threads share' % (f.name, nm), f.loc(i))
    ng = 0; tls = 0
    for (t, n), g in P.globals.items():
        if g.get('decl') or n.startswith('.str'): continue
        ng += 1
        tls += bool(g.get('tls'))
    ctx.count('static_variables', ng); ctx.count('global_uses', nst); ctx.count('thread_private', tls)
    # the thread's error lives in thread private storage: what the accessors of the recorded error touch
    acc = [P.ext[n] for n in ('ccs_get_thread_error', 'ccs_set_thread_error', 'ccs_clear_thread_error', 'ccs_create_thread_error', 'ccs_thread_error_stack_push') if n in P.ext]
    if len(acc) < 5: raise CheckError('accessors of the thread error not found')
    for f in acc:
        seen = set(); todo = [f]; hit = False
        while todo:
            x = todo.pop()
            if x.key() in seen: continue
            seen.add(x.key())
            for bl in x.blocks:
                for i in bl:
                    if i.op == 'call' and isinstance(i.x['c'], dict) and str(i.x['c'].get('v', '')).startswith('llvm.threadlocal'): hit = True
                    for o in i.ops:
                        if isinstance(o, dict) and o.get('k') == 'g' and (P.globals.get((x.tu, o['v'])) or P.globals.get(('', o['v'])) or {}).get('tls'): hit = True
            todo += [g for g in summ.callees(P, M, x) if 'error' in g.file]
        ctx.count('obligations')
        if not hit: ctx.finding('%s:nottls' % f.name, '%s does not work on storage private to the thread' % f.name, f.loc())
    ctx.count('obligations', ng + nst)
    ctx.samples = ['%s %s (%s)' % (g.get('dt', g['t']), n, 'const' if g['const'] else 'thread' if g.get('tls') else 'never written') for (t, n), g in list(P.globals.items()) if not n.startswith('.str')][::12]
    ctx.need('static_variables', 60); ctx.need('thread_private', 1); ctx.need('call_sites', 2000)


def is_fresh(fn, v):
    """the written memory was allocated by this function (or is a local)"""
    d = defs_of(fn).get(v) if isinstance(v, int) else None
    while d is not None:
        if d.op == 'alloca': return True
        if d.op == 'call':
            c = d.x['c']
            return isinstance(c, dict) and c.get('v') in ccs.ALLOC
        if d.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'add'):
            d = defs_of(fn).get(d.ops[0]) if isinstance(d.ops[0], int) else None
            continue
        return False
    return False


def SH(P):
    """struct types whose only instances of static lifetime are mutable tables"""
    s = getattr(P, '_sh', None)
    if s is None:
        s = P._sh = {g['t'].lstrip('%') for g in P.globals.values() if not g['const'] and g['t'].startswith('%struct') and not g.get('tls') and 'ops' in g['t']}
    return s


if __name__ == '__main__':
    main('C14', check, 'every instruction that may write a variable of static lifetime (stores, block writes, calls whose callee writes through the parameter, writes through operation table types) is enumerated; '
         'only thread private variables and one-time initialisation may be written, and no library function with hidden shared state is called outside initialisation',
         ['ccs_init and ccs_fini run once before and after everything else, as documented', 'objects the caller shares between threads are the caller\'s to protect'])
