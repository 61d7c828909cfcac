"""Abstract evaluation of the Python binding's ctypes declarations (module level AST, nothing is imported or run)."""
import ast, os, glob

SIZES = {'c_byte': (1, True), 'c_ubyte': (1, False), 'c_char': (1, True), 'c_bool': (1, False), 'c_int8': (1, True), 'c_uint8': (1, False),
         'c_short': (2, True), 'c_ushort': (2, False), 'c_int16': (2, True), 'c_uint16': (2, False),
         'c_int': (4, True), 'c_uint': (4, False), 'c_int32': (4, True), 'c_uint32': (4, False),
         'c_long': (8, True), 'c_ulong': (8, False), 'c_longlong': (8, True), 'c_ulonglong': (8, False), 'c_int64': (8, True), 'c_uint64': (8, False),
         'c_size_t': (8, False), 'c_ssize_t': (8, True)}


class T:
    def __init__(self, kind, **k):
        self.kind = kind; self.__dict__.update(k)

    def __repr__(self):
        if self.kind == 'int': return '%sint%d' % ('' if self.signed else 'u', self.size * 8)
        if self.kind == 'float': return 'float%d' % (self.size * 8)
        if self.kind == 'ptr': return '%r*' % (self.to,) if self.to is not None else 'void*'
        if self.kind in ('struct', 'union', 'enum'): return '%s %s' % (self.kind, self.name)
        if self.kind == 'func': return 'fn(%s)->%r' % (', '.join(map(repr, self.params)), self.ret)
        if self.kind == 'array': return '%r[%s]' % (self.to, self.n)
        return self.kind


class Unknown:
    def __repr__(self): return '?'


UNK = Unknown()


class CFunc:
    def __init__(self, name, node, mod):
        self.name = name; self.argtypes = None; self.restype = T('int', size=4, signed=True); self.node = node; self.mod = mod; self.restype_set = False


class PyFunc:
    def __init__(self, node, mod): self.node = node; self.mod = mod


class PyClass:
    def __init__(self, name, mod, node): self.name = name; self.mod = mod; self.node = node


class CtNS: pass
class Lib: pass


class Mods:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.cfuncs = []          # every CFunc created
        self.enums = {}; self.structs = {}; self.callbacks = {}; self.indll = []; self.dicts = []; self.classes = {}
        self.trees = {}
        for p in sorted(glob.glob(os.path.join(root, '*.py'))):
            n = os.path.basename(p)[:-3]
            self.trees[n] = ast.parse(open(p).read(), p)
        for n in self.trees: self.mod(n)

    def mod(self, n):
        if n in self.mods: return self.mods[n]
        if n not in self.trees: return {}
        env = self.mods[n] = {}
        env['__mod__'] = n
        if n == '__init__': env['libcconfigspace'] = Lib()
        self.block(self.trees[n].body, env, n)
        return env

    def block(self, body, env, m):
        for s in body:
            try: self.stmt(s, env, m)
            except RecursionError: raise

    def stmt(self, s, env, m):
        if isinstance(s, ast.ImportFrom):
            if s.level:
                src = self.mod(s.module if s.module else '__init__') if (s.module or '__init__') in self.trees else {}
                for a in s.names:
                    if s.module is None and a.name in self.trees: env[a.asname or a.name] = self.mod(a.name)
                    elif a.name == 'libcconfigspace': env[a.asname or a.name] = Lib()
                    else: env[a.asname or a.name] = src.get(a.name, UNK)
            elif s.module == 'ctypes':
                for a in s.names: env[a.asname or a.name] = self.ctattr(a.name)
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.name == 'ctypes': env[a.asname or 'ctypes'] = CtNS()
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, m)
            for t in s.targets: self.assign(t, v, env, m)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, env, m), env, m)
        elif isinstance(s, ast.ClassDef): self.klass(s, env, m)
        elif isinstance(s, ast.FunctionDef): env[s.name] = PyFunc(s, m)
        elif isinstance(s, ast.Expr): self.ev(s.value, env, m)
        elif isinstance(s, (ast.If,)):
            self.block(s.body, env, m); self.block(s.orelse, env, m)
        elif isinstance(s, ast.Try):
            self.block(s.body, env, m)
            self.block(s.orelse, env, m); self.block(s.finalbody, env, m)
        elif isinstance(s, ast.With): self.block(s.body, env, m)

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            if isinstance(o, CFunc):
                if t.attr == 'argtypes': o.argtypes = v
                elif t.attr == 'restype': o.restype = v; o.restype_set = True
            elif isinstance(o, T) and t.attr == '_fields_': o.fields = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, (list, tuple)) and len(v) == len(t.elts) else [UNK] * len(t.elts)
            for a, b in zip(t.elts, vs): self.assign(a, b, env, m)

    def klass(self, s, env, m):
        bases = [self.ev(b, env, m) for b in s.bases]
        cenv = dict(env)
        own = {}
        for x in s.body:
            if isinstance(x, ast.Assign):
                v = self.ev(x.value, cenv, m)
                for t in x.targets:
                    if isinstance(t, ast.Name): cenv[t.id] = v; own[t.id] = v
        c = None
        for b in bases:
            if isinstance(b, T) and b.kind == 'enumbase' or (isinstance(b, T) and b.kind == 'enum'):
                mem = {}
                last = -1
                ms = own.get('_members_', [])
                if isinstance(ms, dict): ms = list(ms.items())
                for it in ms if isinstance(ms, list) else []:
                    if isinstance(it, tuple): k, last = it
                    else: k = it; last = last + 1 if isinstance(last, int) else UNK
                    mem[k] = last
                c = T('enum', name=s.name, members=mem, mod=m, line=s.lineno, size=4, signed=True)
                self.enums[s.name] = c
            elif isinstance(b, T) and b.kind in ('structbase', 'unionbase'):
                c = T('struct' if b.kind == 'structbase' else 'union', name=s.name, fields=own.get('_fields_', UNK), mod=m, line=s.lineno, big=False)
                self.structs[s.name] = c
        if s.name == 'CEnumeration': c = T('enumbase')
        if c is None:
            c = PyClass(s.name, m, s)
        self.classes[s.name] = (c, s, m)
        env[s.name] = c

    def ctattr(self, a):
        if a in SIZES: return T('int', size=SIZES[a][0], signed=SIZES[a][1], ch=(a == 'c_char'))
        if a == 'c_double': return T('float', size=8)
        if a == 'c_float': return T('float', size=4)
        if a == 'c_void_p': return T('ptr', to=None)
        if a == 'c_char_p': return T('ptr', to=T('int', size=1, signed=True, ch=True))
        if a == 'py_object': return T('ptr', to=None)
        if a == 'Structure': return T('structbase')
        if a == 'Union': return T('unionbase')
        if a == 'POINTER': return ('POINTER',)
        if a == 'CFUNCTYPE': return ('CFUNCTYPE',)
        return UNK

    def ev(self, e, env, m):
        if e is None: return None
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name): return env.get(e.id, UNK)
        if isinstance(e, ast.List): return [self.ev(x, env, m) for x in e.elts]
        if isinstance(e, ast.Tuple): return tuple(self.ev(x, env, m) for x in e.elts)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None: continue
                kk = self.ev(k, env, m); vv = self.ev(v, env, m)
                try: d[kk] = vv
                except TypeError: pass
            self.dicts.append((m, e.lineno, e, env))
            return d
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, env, m)
            return -v if isinstance(v, (int, float)) else UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env, m), self.ev(e.right, env, m)
            if isinstance(a, T) and isinstance(e.op, ast.Mult):
                return T('array', to=a, n=b)
            try:
                if isinstance(e.op, ast.Add): return a + b
                if isinstance(e.op, ast.LShift): return a << b
                if isinstance(e.op, ast.BitOr): return a | b
                if isinstance(e.op, ast.Mult): return a * b
                if isinstance(e.op, ast.Sub): return a - b
            except Exception: return UNK
            return UNK
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env, m)
            if isinstance(o, CtNS): return self.ctattr(e.attr)
            if isinstance(o, Lib): return self.newf(e.attr, e, m)
            if isinstance(o, T) and o.kind == 'enum':
                if e.attr in o.members: return o.members[e.attr]
                if e.attr == '_members_': return o.members
            if isinstance(o, dict) and e.attr in o: return o[e.attr]
            if isinstance(o, T) and o.kind == 'array' and e.attr == 'in_dll': return ('in_dll', o)
            return UNK
        if isinstance(e, ast.Call): return self.call(e, env, m)
        if isinstance(e, ast.ListComp):
            self.ev(e.generators[0].iter, env, m)
            return UNK
        if isinstance(e, ast.IfExp):
            a = self.ev(e.body, env, m)
            return a if a is not UNK else self.ev(e.orelse, env, m)
        return UNK

    def newf(self, name, node, m):
        f = CFunc(name, node, m)
        self.cfuncs.append(f)
        return f

    def call(self, e, env, m):
        f = self.ev(e.func, env, m)
        args = [self.ev(a, env, m) for a in e.args if not isinstance(a, ast.Starred)]
        kw = {k.arg: self.ev(k.value, env, m) for k in e.keywords}
        if f == ('POINTER',) and args: return T('ptr', to=args[0]) if isinstance(args[0], T) else T('ptr', to=args[0])
        if f == ('CFUNCTYPE',):
            return T('ptr', to=T('func', ret=args[0], params=args[1:]), cb=True)
        if isinstance(f, tuple) and f and f[0] == 'in_dll':
            if len(args) >= 2 and isinstance(args[1], str): self.indll.append((args[1], f[1], m, e.lineno))
            return UNK
        if isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(args) >= 2 and isinstance(args[0], Lib) and isinstance(args[1], str):
            return self.newf(args[1], e, m)
        if isinstance(e.func, ast.Name) and e.func.id == 'len' and args and hasattr(args[0], '__len__'): return len(args[0])
        if isinstance(f, PyFunc):
            a = f.node.args
            names = [x.arg for x in a.args]
            defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            genv = self.mods[f.mod]
            l = dict(genv)
            for n, d in defs.items(): l[n] = self.ev(d, genv, f.mod)
            for n, v in zip(names, args): l[n] = v
            l.update({k: v for k, v in kw.items() if k})
            for n in names: l.setdefault(n, UNK)
            self._depth = getattr(self, '_depth', 0) + 1
            try:
                if self._depth > 8: return UNK
                for s in f.node.body:
                    if isinstance(s, ast.Return): return self.ev(s.value, l, f.mod) if s.value else None
                    if isinstance(s, (ast.Assign, ast.AnnAssign)): self.stmt(s, l, f.mod)
                return None
            finally:
                self._depth -= 1
        return UNK
