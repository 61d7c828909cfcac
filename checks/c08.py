import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from cheaders import Headers
from rubyabi import R, PRIM


class Cmp:
    def __init__(self, H, M): self.H = H; self.M = M

    def res(self, t):
        """resolve to ('int',size,signed) ('float',8) ('ptr',) ('struct',cls) ('enum',sym) ('cb',sym) ('void',) ('value',) or None"""
        for _ in range(10):
            if t[0] == 'sym':
                s = t[1]
                if s in self.M.enums: return ('enum', s)
                if s in self.M.bitmasks: return ('int', 4, False)
                if s in self.M.callbacks: return ('cb', s)
                if s in self.M.typedefs: t = self.M.typedefs[s]; continue
                if s in PRIM: return ('int',) + PRIM[s]
                if s in ('double', 'float64'): return ('float', 8)
                if s in ('float', 'float32'): return ('float', 4)
                if s in ('pointer', 'string', 'buffer_in', 'buffer_out', 'buffer_inout'): return ('ptr',)
                if s == 'value': return ('ptr',)
                if s == 'void': return ('void',)
                if s == 'varargs': return ('varargs',)
                return None
            if t[0] == 'by_value': return ('struct', t[1])
            if t[0] in ('by_ref', 'ptr'): return ('ptr',)
            if t[0] == 'const' and t[1] in self.M.structs: return ('struct', t[1])
            return None
        return None

    def same(self, t, c):
        r = self.res(t)
        if r is None: return None
        if r[0] == 'void': return None if c.kind == 'void' else 'void vs C %r' % c
        if c.kind == 'void': return '%r where C has void' % (t,)
        if r[0] == 'ptr': return None if c.kind in ('ptr', 'array') else 'pointer vs C %r' % c
        if r[0] == 'float': return None if c.kind == 'float' and c.size == r[1] else '%d-byte float vs C %r' % (r[1], c)
        if r[0] == 'int':
            if c.kind == 'enum': return None if r[1] == 4 else 'size vs C %r' % c
            if c.kind != 'int': return 'integer vs C %r' % c
            if c.size != r[1]: return '%d-byte integer vs C %r' % (r[1], c)
            if c.signed != r[2] and c.size > 1 and t != ('sym', 'uint32') : return 'signedness vs C %r' % c
            return None
        if r[0] == 'enum':
            td = self.H.typedef_enum(r[1])
            if c.kind == 'int' and c.size == 4: return None
            if c.kind != 'enum': return 'enum %s vs C %r' % (r[1], c)
            if td and self.H.ctype(r[1]).name != c.name: return 'enum %s vs C %r' % (r[1], c)
            return None
        if r[0] == 'cb':
            if c.kind != 'ptr' or c.to.kind != 'func': return 'callback vs C %r' % c
            return self.samefn(r[1], c.to)
        if r[0] == 'struct':
            if c.kind != 'record': return 'struct %s vs C %r' % (r[1], c)
            return self.layout(r[1], c)
        return None

    def samefn(self, cb, f):
        ps, rt = self.M.callbacks[cb][:2]
        if len(ps) != len(f.params): return 'callback %s: %d parameters vs %d in C' % (cb, len(ps), len(f.params))
        x = self.same(rt, f.ret)
        if x: return 'callback %s result: %s' % (cb, x)
        for i, (a, b) in enumerate(zip(ps, f.params)):
            x = self.same(a, b)
            if x: return 'callback %s parameter %d: %s' % (cb, i + 1, x)
        return None

    def layout(self, cls, c):
        kind, fs = self.M.structs[cls][:2]
        if fs is None: return None
        tag, cf = self.H.record(c)
        if (kind == 'Union') != (tag == 'union'): return '%s vs C %s' % (kind, tag)
        if len(fs) != len(cf): return '%d fields vs %d in C %s' % (len(fs), len(cf), c.name)
        cn = dict(cf)
        if tag == 'union':
            for n, t in fs:
                if n in cn:
                    x = self.same(t, cn[n])
                    if x: return 'member %s: %s' % (n, x)
            return None
        for (n, t), (m, ct) in zip(fs, cf):
            if n != m:
                mine = n and len(n) > 2 and (m.startswith(n) or n.startswith(m))
                if not mine and any(k == n or (len(n or '') > 2 and k.startswith(n)) for k in cn): return 'field %s sits where C has %s' % (n, m)
            x = self.same(t, ct)
            if x: return 'field %s: %s' % (n, x)
        return None

    def size(self, r):
        if r is None: return None
        if r[0] in ('int', 'float'): return r[1]
        if r[0] == 'enum': return 4
        if r[0] in ('ptr', 'cb'): return 8
        return None


READ = {'int8': 1, 'uint8': 1, 'char': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int': 4, 'uint': 4, 'int64': 8, 'uint64': 8, 'double': 8, 'float': 4, 'float64': 8, 'pointer': 8, 'long': 8, 'ulong': 8}


def norm(s): return s.replace('_', '').lower()


def snake(n): return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()


def kind_class_ok(sym, enum, cls):
    stem = enum[4:-7] if enum.endswith('_type_t') else enum[4:-2]
    pre = 'CCS_' + enum[4:-2].upper() + '_'
    m = norm(sym[len(pre):]) if sym.startswith(pre) else norm(sym.rsplit('_', 1)[-1])
    c = norm(cls); s = norm(stem)
    if s == 'object': s = ''
    return c in (m, m + s, s + m)


def check(ctx):
    H = Headers(ctx.repo)
    M = R(os.path.join(ctx.repo, 'bindings', 'ruby', 'lib', 'cconfigspace'))
    C = Cmp(H, M)
    for name, ps, rt, f, l in M.funcs:
        if not name or not name.startswith('ccs_'): continue
        loc = '%s:%d' % (f, l)
        d = H.funcs.get(name)
        ctx.count('functions')
        if d is None: ctx.finding('%s:undeclared' % name, 'attaches %s, which the C API does not declare' % name, loc); continue
        cp = [H.ctype(t) for _, t in d['params']]
        if ps and ps[-1] == ('sym', 'varargs'):
            if not d['variadic']: ctx.finding('%s:variadic' % name, '%s is not variadic in C' % name, loc)
            ps = ps[:-1]
        if len(ps) != len(cp): ctx.finding('%s:arity' % name, '%s: %d arguments, C has %d' % (name, len(ps), len(cp)), loc)
        for i, (a, b) in enumerate(zip(ps, cp)):
            ctx.count('obligations')
            r = C.same(a, b)
            if r: ctx.finding('%s:arg%d' % (name, i), '%s, argument %d: %s' % (name, i + 1, r), loc)
        ctx.count('obligations')
        r = C.same(rt, H.ctype(d['ret']))
        if r: ctx.finding('%s:result' % name, '%s, result: %s' % (name, r), loc)
        ctx.sample('%s(%d args)' % (name, len(ps)), 4)
    for s, (mem, c, f, l, base) in list(M.enums.items()):
        cm = H.typedef_enum(s)
        if cm is None: continue
        ctx.count('enums')
        cm = {k: v for k, v in cm if not re.search(r'_(MAX|MIN)$', k) and v != 0x7fffffff}
        for k, v in mem:
            ctx.count('obligations')
            if k not in cm: ctx.finding('%s:%s' % (s, k), '%s: %s does not exist in C' % (s, k), '%s:%d' % (f, l))
            elif v is not None and v != cm[k]: ctx.finding('%s:%s' % (s, k), '%s: %s is %s, C has %d' % (s, k, v, cm[k]), '%s:%d' % (f, l))
        for k in cm:
            if k not in dict(mem): ctx.finding('%s:missing:%s' % (s, k), '%s lacks %s' % (s, k), '%s:%d' % (f, l))
    for s, (mem, c, f, l, base) in M.bitmasks.items():
        fl = H.typedef_enum(s.replace('_flags_t', '_flag_t'))
        if not fl: continue
        cm = {k: v for k, v in fl if v not in (0, 0x7fffffff)}
        for k, v in mem:
            ctx.count('obligations')
            if k in cm and cm[k] != 1 << v: ctx.finding('%s:%s' % (s, k), '%s: %s is bit %d, C has 0x%x' % (s, k, v, cm[k]), '%s:%d' % (f, l))
        for k in cm:
            ctx.count('obligations')
            if k not in dict(mem): ctx.finding('%s:missing:%s' % (s, k), 'bitmask %s lacks %s, so values carrying it are misread' % (s, k), '%s:%d' % (f, l))
    for cls, (kind, fs, f, l) in M.structs.items():
        td = 'ccs_%s_t' % snake(cls)
        if cls == 'Elem': td = 'ccs_error_stack_elem_t'
        if td not in H.typedefs or fs is None: continue
        c = H.ctype(td)
        if c.kind != 'record': continue
        ctx.count('records'); ctx.count('obligations', len(fs))
        r = C.layout(cls, c)
        if r: ctx.finding('%s:layout' % cls, '%s vs C %s: %s' % (cls, td, r), '%s:%d' % (f, l))
    for name, t, f, l in M.vars:
        v = H.vars.get(name)
        ctx.count('tables'); ctx.count('obligations')
        if v is None: ctx.finding('table:%s' % name, 'imports %s, which C does not declare' % name, '%s:%d' % (f, l)); continue
        if t[0] == 'array':
            r = C.same(t[1], H.ctype(v).to)
            if r: ctx.finding('table:%s' % name, '%s: %s' % (name, r), '%s:%d' % (f, l))
    # scalar typedefs
    for s, t in M.typedefs.items():
        if s and s in H.typedefs and t[0] == 'sym':
            ctx.count('aliases'); ctx.count('obligations')
            r = C.same(t, H.ctype(s))
            if r: ctx.finding('typedef:%s' % s, '%s: %s' % (s, r), 'bindings/ruby/lib/cconfigspace/base.rb')
    # memory accessors read_<type>
    for cls, new, old, f, l in M.aliases:
        m = re.match(r'(?:read|write|get|put)_(?:array_of_)?(ccs_\w+_t)$', new or '')
        if not m: continue
        td = m.group(1)
        o = re.match(r'(?:read|write|get|put)_(?:array_of_)?(\w+)$', old or '')
        if td not in H.typedefs or not o: continue
        ctx.count('obligations'); ctx.count('accessors')
        c = H.ctype(td)
        ot = o.group(1)
        if ot in READ:
            sz = c.size if c.kind in ('int', 'float', 'enum') else 8
            if READ[ot] != sz or (c.kind == 'float') != (ot in ('double', 'float', 'float64')):
                ctx.finding('accessor:%s' % new, '%s reads %s as %s' % (new, td, ot), '%s:%d' % (f, l))
            elif c.kind == 'int' and c.size > 1 and (ot.startswith('u')) == c.signed:
                ctx.finding('accessor:%s' % new, '%s reads %s with the wrong signedness (%s)' % (new, td, ot), '%s:%d' % (f, l))
    # properties: the value cell has the type the accessor function writes
    fd = {n: ps for n, ps, *_ in M.funcs}
    for name, ty, acc, f, l in M.props:
        d = H.funcs.get(acc)
        ctx.count('properties'); ctx.count('obligations')
        if d is None: ctx.finding('prop:%s:%s' % (acc, name), 'property %s uses %s, which C does not declare' % (name, acc), '%s:%d' % (f, l)); continue
        cp = [H.ctype(t) for _, t in d['params']]
        if len(cp) != 2 or cp[1].kind != 'ptr': ctx.finding('prop:%s:%s' % (acc, name), 'property %s: %s does not take (handle, cell)' % (name, acc), '%s:%d' % (f, l)); continue
        r = C.same(('sym', ty), cp[1].to)
        if r: ctx.finding('prop:%s:%s' % (acc, name), 'property %s read as %s: %s' % (name, ty, r), '%s:%d' % (f, l))
        elif ty and ty in H.typedefs and ty.endswith('_t'):
            q = d['params'][1][1]['qualType'].replace('const', '').replace(' ', '').rstrip('*')
            if q in M.typedefs and M.typedefs.get(ty) == ('sym', 'ccs_object_t') and M.typedefs.get(q) == ('sym', 'ccs_object_t'): pass
    # kinds
    rev = {}
    for s, (mem, *_r) in M.enums.items():
        for k, v in mem: rev.setdefault(k, s)
    for s, c, f, l, cls in M.maps:
        if s not in rev: continue
        ctx.count('kind_class'); ctx.count('obligations')
        if not kind_class_ok(s, rev[s], c):
            riv = [k for k, v in M.enums[rev[s]][0] if k != s and kind_class_ok(k, rev[s], c)]
            if riv: ctx.finding('kind:%s' % s, 'kind %s is wrapped by %s, the class of %s' % (s, c, riv[0]), '%s:%d' % (f, l))
    for (cls, c), (v, f, l) in M.consts.items():
        if cls is None and c in ('TRUE', 'FALSE'):
            ctx.count('obligations')
            if v != (1 if c == 'TRUE' else 0): ctx.finding('const:%s' % c, '%s is %d' % (c, v), '%s:%d' % (f, l))
    ctx.need('functions', 200); ctx.need('enums', 15); ctx.need('records', 6); ctx.need('kind_class', 10); ctx.need('properties', 20)


if __name__ == '__main__':
    main('C08', check, 'every FFI function, enum, bitmask, record, callback, table, memory accessor, property and kind->class association in the Ruby '
         'bindings (Ripper syntax tree) is compared with the declaration clang resolves in include/cconfigspace/*.h',
         ['LP64 x86-64 data model', 'pointer pointees are untyped in FFI declarations and are only compared through properties'])
