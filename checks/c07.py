import os, sys, re, ast
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from cheaders import Headers
import pyabi
from pyabi import Mods, T, UNK, CFunc, PyClass


def snake(n):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()


class Cmp:
    def __init__(self, ctx, H, M):
        self.ctx = ctx; self.H = H; self.M = M
        # Python enum class -> C enum (by name)
        self.enum_of = {}
        for n, e in M.enums.items():
            td = 'ccs_%s_t' % snake(n)
            if H.typedef_enum(td): self.enum_of[n] = H.ctype(td).name

    def csize(self, c):
        if c.kind in ('int', 'float', 'enum'): return c.size
        if c.kind == 'ptr': return 8
        if c.kind == 'record':
            tag, fs = self.H.record(c)
            if tag == 'union': return max(self.csize(t) for _, t in fs)
            o = 0; al = 1
            for _, t in fs:
                a = min(self.calign(t), 8); al = max(al, a)
                o = (o + a - 1) // a * a + self.csize(t)
            return (o + al - 1) // al * al
        return None

    def calign(self, c):
        if c.kind == 'record': return max(self.calign(t) for _, t in self.H.record(c)[1])
        return self.csize(c) or 1

    def same(self, p, c, where=''):
        """None when compatible, else a reason"""
        if p is UNK: return None
        if p is None: return None if c.kind == 'void' else 'None vs %r' % c
        if not isinstance(p, T): return 'not a ctypes type'
        if c.kind == 'void': return 'result declared %r but the C function returns nothing' % p
        if p.kind == 'enum':
            if c.kind == 'enum':
                e = self.enum_of.get(p.name)
                if e is not None and e != c.name: return 'enum %s stands for %s, C has %s' % (p.name, e, c.name)
                return None
            if c.kind == 'int' and c.size == 4: return None
            return '%r vs C %r' % (p, c)
        if p.kind == 'int':
            if c.kind == 'enum': return None if p.size == 4 else 'size of %r vs C %r' % (p, c)
            if c.kind == 'record':
                return None if self.csize(c) == p.size else '%r vs C %r' % (p, c)
            if c.kind != 'int': return '%r vs C %r' % (p, c)
            if c.size != p.size: return '%d-byte vs C %d-byte integer' % (p.size, c.size)
            if c.signed != p.signed and c.size > 1: return 'signedness differs: %r vs C %r' % (p, c)
            return None
        if p.kind == 'float':
            return None if c.kind == 'float' and c.size == p.size else '%r vs C %r' % (p, c)
        if p.kind == 'ptr':
            if c.kind == 'array': c = type(c)('ptr', to=c.to)
            if c.kind != 'ptr': return '%r vs C %r' % (p, c)
            if p.to is None or p.to is UNK: return None if c.to.kind != 'func' else None
            if c.to.kind == 'void': return None
            if isinstance(p.to, T) and p.to.kind == 'func':
                if c.to.kind != 'func': return '%r vs C %r' % (p, c)
                return self.samefn(p.to.ret, p.to.params, c.to)
            if c.to.kind == 'opaque': return 'pointer to %r where C expects an opaque handle %r' % (p.to, c)
            if c.to.kind == 'func': return '%r vs C %r' % (p, c)
            if p.to is None: return None
            if not isinstance(p.to, T): return 'pointer to a non ctypes type'
            return self.same(p.to, c.to)
        if p.kind in ('struct', 'union'):
            if c.kind != 'record': return '%r vs C %r' % (p, c)
            return self.layout(p, c)
        if p.kind == 'array': return self.same(p.to, c.to) if c.kind in ('array', 'ptr') else '%r vs C %r' % (p, c)
        return None

    def samefn(self, ret, params, cf):
        if any(x is UNK for x in params): return None
        if len(params) != len(cf.params): return '%d parameters vs %d in C' % (len(params), len(cf.params))
        r = self.same(ret, cf.ret)
        if r: return 'result: ' + r
        for i, (a, b) in enumerate(zip(params, cf.params)):
            r = self.same(a, b)
            if r: return 'parameter %d: %s' % (i + 1, r)
        return None

    def layout(self, p, c):
        tag, fs = self.H.record(c)
        if p.fields is UNK: return None
        if (p.kind == 'union') != (tag == 'union'): return '%s vs C %s' % (p.kind, tag)
        if len(p.fields) != len(fs) and p.kind == 'struct': return '%d fields vs %d in C %s' % (len(p.fields), len(fs), c.name)
        cn = {n: t for n, t in fs}
        if p.kind == 'union':
            for f in p.fields:
                n, t = f[0].lstrip('_'), f[1]
                if n in cn:
                    r = self.same(t, cn[n])
                    if r: return 'member %s: %s' % (n, r)
            if max([self.psize(f[1]) or 0 for f in p.fields] or [0]) != self.csize(c): return 'union size differs from C %s' % c.name
            return None
        for f, (n, t) in zip(p.fields, fs):
            pn = f[0].lstrip('_')
            if pn != n:
                # another C field carries this name -> order is wrong
                other = [x for x in cn if x == pn or (x != n and len(pn) > 2 and (x.startswith(pn) or pn.startswith(x)))]
                mine = len(pn) > 2 and (n.startswith(pn) or pn.startswith(n))
                if other and not mine: return 'field %r sits where C has %r' % (f[0], n)
            r = self.same(f[1], t)
            if r: return 'field %s: %s' % (f[0], r)
        return None

    def psize(self, p):
        if not isinstance(p, T): return None
        if p.kind in ('int', 'float', 'enum'): return p.size
        if p.kind == 'ptr': return 8
        return None


def norm(s): return s.replace('_', '').lower()


def kind_class_ok(enum, member, cls):
    stem = norm(re.sub(r'Type$', '', enum))
    if stem == 'object': stem = ''
    m, c = norm(member), norm(cls)
    return c in (m, m + stem, stem + m)


def pairs(M):
    """(enum class, member, class name, module, line) associations in the bindings"""
    out = []
    classes = {n for n, (c, s, m) in M.classes.items() if isinstance(c, PyClass)}

    def enumref(e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in M.enums and e.attr in M.enums[e.value.id].members:
            return e.value.id, e.attr
        return None
    def clsref(e):
        if isinstance(e, ast.Name) and e.id in classes: return e.id
        return None
    for m, tree in M.trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    a = enumref(k) if k is not None else None; b = clsref(v)
                    if a and b: out.append((a[0], a[1], b, m, k.lineno, 'map'))
            elif isinstance(n, ast.If):
                t = n.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
                    a = enumref(t.comparators[0]) or enumref(t.left)
                    if a:
                        for s in n.body:
                            for x in ast.walk(s):
                                b = None
                                if isinstance(x, ast.Assign): b = clsref(x.value)
                                elif isinstance(x, ast.Return) and x.value is not None:
                                    b = clsref(x.value.func if isinstance(x.value, ast.Call) else x.value)
                                    if b is None and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute): b = clsref(x.value.func.value)
                                if b: out.append((a[0], a[1], b, m, x.lineno, 'branch'))
    return out


def check(ctx):
    H = Headers(ctx.repo)
    root = os.path.join(ctx.repo, 'bindings', 'python', 'cconfigspace')
    M = Mods(root)
    C = Cmp(ctx, H, M)
    L = lambda m, l: 'bindings/python/cconfigspace/%s.py:%d' % (m, l)
    seen = set()
    for f in M.cfuncs:
        if not f.name.startswith('ccs_'): continue
        d = H.funcs.get(f.name)
        loc = L(f.mod, f.node.lineno)
        ctx.count('functions')
        if d is None:
            ctx.finding('%s:undeclared' % f.name, 'binds %s, which the C API does not declare' % f.name, loc); continue
        cp = [H.ctype(t) for _, t in d['params']]
        if isinstance(f.argtypes, list):
            if d['variadic']:
                pass
            elif len(f.argtypes) != len(cp):
                ctx.finding('%s:arity' % f.name, '%s: %d arguments declared, C has %d' % (f.name, len(f.argtypes), len(cp)), loc)
            for i, (a, b) in enumerate(zip(f.argtypes, cp)):
                ctx.count('obligations')
                r = C.same(a, b)
                if r: ctx.finding('%s:arg%d' % (f.name, i), '%s, argument %d (%s): %s' % (f.name, i + 1, d['params'][i][0], r), loc)
        ctx.count('obligations')
        r = C.same(f.restype, H.ctype(d['ret']))
        if r: ctx.finding('%s:result' % f.name, '%s, result: %s' % (f.name, r), loc)
        ctx.sample('%s%r -> %r' % (f.name, tuple(map(repr, cp)), H.ctype(d['ret'])), 6)
        seen.add(f.name)
    # enums
    for n, e in M.enums.items():
        td = 'ccs_%s_t' % snake(n)
        mem = H.typedef_enum(td)
        if mem is None: continue
        loc = L(e.mod, e.line)
        cm = {k: v for k, v in mem if not re.search(r'_(MAX|MIN)$', k) and v != 0x7fffffff}
        ctx.count('enums')
        used = set()
        for k, v in e.members.items():
            ctx.count('obligations')
            c = [x for x in cm if x == 'CCS_%s_%s' % (snake(n).upper(), k)] or sorted([x for x in cm if x.endswith('_' + k)], key=len)[:1]
            if not c and k.startswith('ASSOCIATIVITY_'):
                c = [x for x in cm if x.endswith('_' + k.split('_', 1)[1])]
            if not c:
                if v is not UNK and v not in cm.values(): ctx.finding('%s.%s' % (n, k), '%s.%s has no counterpart in C %s' % (n, k, td), loc)
                continue
            used.add(c[0])
            if v is not UNK and v != cm[c[0]]:
                ctx.finding('%s.%s' % (n, k), '%s.%s is %s but C %s is %d' % (n, k, v, c[0], cm[c[0]]), loc)
        for x in cm:
            if x not in used: ctx.finding('%s:missing:%s' % (n, x), '%s lacks the C enumerator %s' % (n, x), loc)
        if len(e.members) > 1: ctx.sample('enum %s: %d members' % (n, len(e.members)), 9)
    # structs
    for n, s in M.structs.items():
        td = 'ccs_%s_t' % snake(n)
        if n == 'DatumFix': td = 'ccs_datum_t'
        if td not in H.typedefs: continue
        c = H.ctype(td)
        if c.kind != 'record': continue
        ctx.count('records'); ctx.count('obligations', len(s.fields) if s.fields is not UNK else 0)
        r = C.layout(s, c)
        if r: ctx.finding('%s:layout' % n, '%s vs C %s: %s' % (n, td, r), L(s.mod, s.line))
    # callback typedefs
    for m, env in M.mods.items():
        for n, v in env.items():
            if isinstance(v, T) and getattr(v, 'cb', False) and n.endswith('_callback_type'):
                td = n[:-5] + '_t'
                if td in H.typedefs:
                    c = H.ctype(td)
                    ctx.count('callbacks'); ctx.count('obligations')
                    f = c.to if c.kind == 'ptr' else c
                    r = C.samefn(v.to.ret, v.to.params, f)
                    if r: ctx.finding('%s:proto' % n, '%s vs C %s: %s' % (n, td, r), 'bindings/python/cconfigspace/%s.py' % m)
    # base type aliases
    base = M.mods.get('base', {})
    for n, v in base.items():
        if isinstance(v, T) and v.kind in ('int', 'float', 'ptr') and n.startswith('ccs_') and n + '_t' in H.typedefs:
            ctx.count('aliases'); ctx.count('obligations')
            r = C.same(v, H.ctype(n + '_t'))
            if r: ctx.finding('alias:%s' % n, '%s vs C %s_t: %s' % (n, n, r), 'bindings/python/cconfigspace/base.py')
        if n in ('ccs_true', 'ccs_false') and isinstance(v, int):
            want = 1 if n == 'ccs_true' else 0
            mv = H.enumerators.get('CCS_' + n[4:].upper())
            if mv is None:
                t = H.macros.get('CCS_' + n[4:].upper(), '')
                q = re.findall(r'\d+', t.replace('ccs_bool_t', ''))
                mv = int(q[-1]) if q else want
            ctx.count('obligations')
            if v != mv: ctx.finding('const:%s' % n, '%s is %d, C has %d' % (n, v, mv), 'bindings/python/cconfigspace/base.py')
    # imported tables
    for name, t, m, l in M.indll:
        v = H.vars.get(name)
        ctx.count('tables'); ctx.count('obligations')
        if v is None: ctx.finding('table:%s' % name, 'imports %s, which the C API does not declare' % name, L(m, l)); continue
        r = C.same(t.to, H.ctype(v).to)
        if r: ctx.finding('table:%s' % name, '%s: %s' % (name, r), L(m, l))
    # kind -> class
    for en, mem, cls, m, l, how in pairs(M):
        ctx.count('kind_class'); ctx.count('obligations')
        if not kind_class_ok(en, mem, cls):
            # only associations of a kind with a class made for another kind of the same enum (or of the object enum) are wrong
            rivals = [k for k in M.enums[en].members if k != mem and kind_class_ok(en, k, cls)]
            if rivals: ctx.finding('kind:%s.%s' % (en, mem), 'objects of kind %s.%s are wrapped by class %s, which is the class of %s' % (en, mem, cls, rivals[0]), L(m, l))
    # a kind's class builds objects of its own kind
    for cn, (c, s, m) in M.classes.items():
        if not isinstance(c, PyClass): continue
        own = {(en, mem) for en, mem, cls, _, _, _ in pairs(M) if cls == cn and kind_class_ok(en, mem, cn)}
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                fn = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
                if 'create' not in fn: continue
                for a in x.args:
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in {e for e, _ in own}:
                        ctx.count('obligations')
                        mine = [k for e, k in own if e == a.value.id]
                        if a.attr not in mine:
                            ctx.finding('create:%s' % cn, 'class %s creates objects of kind %s.%s' % (cn, a.value.id, a.attr), L(m, x.lineno))
    ctx.need('functions', 200); ctx.need('enums', 15); ctx.need('records', 8); ctx.need('kind_class', 10); ctx.need('callbacks', 2)


if __name__ == '__main__':
    main('C07', check, 'every ctypes prototype, enumerator, record layout, callback type, imported table and kind->class association of the Python '
         'bindings (abstract evaluation of the module AST) is compared with the declaration clang resolves for the same name in include/cconfigspace/*.h; '
         'an obligation is one argument, result, enumerator, field or association',
         ['LP64 x86-64 data model', 'a Python enum/record class is bound to the C type of the same snake_case name'])
