"""The C API as the compiler sees it: prototypes, enums, records and typedefs of include/cconfigspace.h (clang AST)."""
import os, json, subprocess, tempfile, re, shutil
from ir import REPO, CheckError, version_header, cflags


class CType:
    """canonical C type: kind in void,int,float,ptr,enum,record,func,array"""
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        if self.kind == 'int': return '%sint%d' % ('' if self.signed else 'u', self.size * 8)
        if self.kind == 'float': return 'float%d' % (self.size * 8)
        if self.kind == 'ptr': return '%r*' % (self.to,)
        if self.kind in ('enum', 'record'): return '%s %s' % (self.kind, self.name)
        if self.kind == 'func': return 'fn(%s)->%r' % (', '.join(map(repr, self.params)), self.ret)
        if self.kind == 'array': return '%r[%s]' % (self.to, self.n)
        if self.kind == 'opaque': return 'struct %s' % self.name
        return self.kind


PRIM = {'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False), 'short': (2, True), 'unsigned short': (2, False),
        'int': (4, True), 'unsigned int': (4, False), 'long': (8, True), 'unsigned long': (8, False),
        'long long': (8, True), 'unsigned long long': (8, False), '_Bool': (1, False)}


class Headers:
    def __init__(self, repo=REPO):
        self.repo = repo
        d = tempfile.mkdtemp(prefix='ccsh')
        try:
            version_header(d, repo)
            src = os.path.join(d, 'all.c')
            hs = sorted(os.listdir(os.path.join(repo, 'include', 'cconfigspace')))
            with open(src, 'w') as f:
                f.write('#include <cconfigspace.h>\n')
                for h in hs:
                    if h.endswith('.h'): f.write('#include <cconfigspace/%s>\n' % h)
            cc = 'clang-18' if shutil.which('clang-18') else 'clang'
            fl = ['-I' + d] + cflags(repo)
            r = subprocess.run([cc, '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json'] + fl + [src], capture_output=True, text=True)
            if r.returncode: raise CheckError('clang failed on the public headers: ' + r.stderr[-1500:])
            tu = json.loads(r.stdout)
            m = subprocess.run([cc, '-w', '-E', '-dM'] + fl + [src], capture_output=True, text=True).stdout
            self.macros = dict(re.findall(r'^#define (CCS_\w+) (.+)$', m, re.M))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.typedefs = {}; self.funcs = {}; self.enums = {}; self.enumerators = {}; self.records = {}; self.vars = {}
        self._byid = {}
        for n in tu['inner']: self._top(n)

    def _top(self, n):
        k = n['kind']
        self._byid[n.get('id')] = n
        if k == 'TypedefDecl':
            self.typedefs[n['name']] = n
            # typedef of an anonymous enum/struct
            for x in n.get('inner', ()):
                o = x.get('ownedTagDecl') or (x.get('inner') or [{}])[0].get('ownedTagDecl') if isinstance(x, dict) else None
                d = x.get('decl') or {}
        elif k == 'EnumDecl':
            v = -1; mem = []
            for e in n.get('inner', ()):
                if e['kind'] != 'EnumConstantDecl': continue
                val = self._ce(e)
                v = val if val is not None else v + 1
                mem.append((e['name'], v)); self.enumerators[e['name']] = v
            n['_mem'] = mem
            self.enums[n.get('name') or n['id']] = mem
        elif k == 'RecordDecl':
            fs = []
            if 'inner' not in n and not n.get('completeDefinition'):
                self.records.setdefault(n.get('name') or n['id'], None)
                return
            anon = {}
            for f in n.get('inner', ()):
                if f['kind'] == 'RecordDecl': self._top(f)
                if f['kind'] == 'FieldDecl':
                    fs.append((f.get('name'), f['type']))
            self.records[n.get('name') or n['id']] = (n.get('tagUsed'), fs)
        elif k == 'FunctionDecl':
            ps = [(p.get('name'), p['type']) for p in n.get('inner', ()) if p['kind'] == 'ParmVarDecl']
            q = n['type']['qualType']
            self.funcs[n['name']] = dict(params=ps, ret=self._retq(q), variadic=n.get('variadic', False), q=q)
        elif k == 'VarDecl':
            self.vars[n['name']] = n['type']

    def _ce(self, e):
        for x in e.get('inner', ()):
            if x['kind'] == 'ConstantExpr' and 'value' in x: return int(x['value'])
            v = self._ce(x)
            if v is not None: return v
        return None

    @staticmethod
    def _retq(q):
        # 'ret (params)': cut at the outermost last parenthesis group
        d = 0
        for i in range(len(q) - 1, -1, -1):
            if q[i] == ')': d += 1
            elif q[i] == '(':
                d -= 1
                if d == 0: return q[:i].strip()
        return q

    # ---- canonical types
    def ctype(self, q, seen=0):
        if isinstance(q, dict): q = q.get('qualType')
        q = q.strip()
        if seen > 20: raise CheckError('type recursion on ' + q)
        m = re.match(r'^(.*)\[(\d*)\]$', q)
        if m: return CType('array', to=self.ctype(m.group(1), seen + 1), n=int(m.group(2)) if m.group(2) else None)
        if q.endswith(')'):
            m = re.match(r'^(.*?)\s*\(\*(?:const)?\)\((.*)\)$', q)
            if m:
                return CType('ptr', to=self._func(m.group(1), m.group(2), seen))
            r = self._retq(q); args = q[len(r):].strip()
            return self._func(r, args[1:-1], seen)
        q = re.sub(r'\s*\bconst$|\s*\brestrict$|\s*\bvolatile$', '', q)
        if q.endswith('*'): return CType('ptr', to=self.ctype(q[:-1], seen + 1))
        q = re.sub(r'\b(const|volatile|restrict)\b', '', q).strip()
        q = re.sub(r'\s+', ' ', q)
        if q == 'void': return CType('void')
        if q in PRIM: return CType('int', size=PRIM[q][0], signed=PRIM[q][1])
        if q in ('double', 'float'): return CType('float', size=8 if q == 'double' else 4)
        m = re.match(r'^(struct|union|enum) (.+)$', q)
        if m:
            if m.group(1) == 'enum': return CType('enum', name=m.group(2), size=4, signed=True)
            if self.records.get(m.group(2)) is None: return CType('opaque', name=m.group(2))
            return CType('record', name=m.group(2))
        if q in self.typedefs:
            n = self.typedefs[q]
            u = n['type']['qualType']
            # anonymous tag: find through inner decl id
            tag = self._tag(n)
            if tag is not None and '*' not in u and '(' not in u.replace('(unnamed', ''):
                k, nid = tag
                if k == 'EnumDecl': return CType('enum', name=nid, size=4, signed=True, td=q)
                if k == 'RecordDecl':
                    if self.records.get(nid) is None: return CType('opaque', name=nid)
                    return CType('record', name=nid, td=q)
            return self.ctype(u, seen + 1)
        raise CheckError('cannot resolve C type %r' % q)

    def _func(self, r, a, seen):
        ps = []
        d = 0; cur = ''
        for ch in a:
            if ch == ',' and d == 0: ps.append(cur); cur = ''; continue
            if ch == '(': d += 1
            if ch == ')': d -= 1
            cur += ch
        if cur.strip(): ps.append(cur)
        ps = [p.strip() for p in ps]
        if ps == ['void']: ps = []
        var = ps and ps[-1] == '...'
        if var: ps = ps[:-1]
        return CType('func', ret=self.ctype(r, seen + 1), params=[self.ctype(p, seen + 1) for p in ps], variadic=bool(var))

    def _tag(self, n):
        def find(x):
            if not isinstance(x, dict): return None
            for key in ('ownedTagDecl', 'decl'):
                d = x.get(key)
                if d and d.get('kind') in ('EnumDecl', 'RecordDecl'):
                    return d['kind'], d.get('name') or d['id']
                if d and d.get('kind') == 'TypedefDecl' and d.get('name') in self.typedefs:
                    return None
            for y in x.get('inner', ()):
                r = find(y)
                if r: return r
            return None
        for y in n.get('inner', ()):
            r = find(y)
            if r: return r
        return None

    def typedef_enum(self, name):
        """members of the enum behind typedef `name`"""
        if name not in self.typedefs: return None
        t = self.ctype(name)
        return self.enums.get(t.name) if t.kind == 'enum' else None

    def record(self, t):
        tag, fs = self.records[t.name]
        return tag, [(n, self.ctype(q)) for n, q in fs]


if __name__ == '__main__':
    h = Headers()
    print(len(h.funcs), len(h.enums), len(h.records), len(h.typedefs))
    for n in ('ccs_object_serialize', 'ccs_expression_eval', 'ccs_create_user_defined_tuner', 'ccs_object_set_destroy_callback'):
        f = h.funcs[n]; print(n, [h.ctype(t) for _, t in f['params']], h.ctype(f['ret']))
    for t in ('ccs_datum_t', 'ccs_result_t', 'ccs_user_defined_tuner_vector_t', 'ccs_version_t', 'ccs_rng_t', 'ccs_numeric_t', 'ccs_hash_t', 'ccs_datum_flags_t', 'ccs_error_stack_elem_t'):
        c = h.ctype(t); print(t, c, h.record(c) if c.kind == 'record' else h.enums.get(getattr(c, 'name', None)))
    for v, t in h.vars.items():
        if v.startswith('ccs'): print(v, h.ctype(t))
