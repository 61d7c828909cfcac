"""FFI declarations of the Ruby bindings, from Ripper's syntax tree (nothing is executed)."""
import os, json, subprocess, glob
from ir import CheckError

DUMP = r'''
require 'ripper'; require 'json'
out = {}
ARGV.each { |f| s = Ripper.sexp(File.read(f)); raise f if s.nil?; out[f] = s }
puts JSON.generate(out, max_nesting: 1000)
'''

PRIM = {'int8': (1, True), 'char': (1, True), 'uint8': (1, False), 'uchar': (1, False), 'int16': (2, True), 'short': (2, True), 'uint16': (2, False), 'ushort': (2, False),
        'int': (4, True), 'int32': (4, True), 'uint': (4, False), 'uint32': (4, False), 'long': (8, True), 'ulong': (8, False), 'int64': (8, True), 'long_long': (8, True),
        'uint64': (8, False), 'ulong_long': (8, False), 'size_t': (8, False), 'ssize_t': (8, True), 'bool': (1, False)}


class R:
    """one Ruby declaration file set"""
    def __init__(self, root):
        self.files = sorted(glob.glob(os.path.join(root, '*.rb')) + glob.glob(os.path.join(root, '**', '*.rb')))
        self.files = sorted(set(self.files))
        if not self.files: raise CheckError('no Ruby bindings under ' + root)
        r = subprocess.run(['ruby', '-e', DUMP] + self.files, capture_output=True, text=True)
        if r.returncode: raise CheckError('Ripper failed: ' + r.stderr[-500:])
        self.sexp = json.loads(r.stdout)
        self.root = root
        self.typedefs = {}     # symbol -> symbol | ('struct', cls)
        self.enums = {}        # symbol -> (members list, const name, file, line, base)
        self.bitmasks = {}
        self.callbacks = {}    # symbol -> (params, ret, loc)
        self.funcs = []        # (name, params, ret, file, line)
        self.vars = []
        self.structs = {}      # class -> (kind, [(field, type)], file, line)
        self.props = []        # (type, accessor, loc)
        self.consts = {}
        self.aliases = []      # (cls, new, old, file, line)
        self.maps = []         # (symbol, class, file, line)
        self.enumconst = {}    # Ruby constant -> enum symbol
        self.defs = []         # (file, def node, class)
        for f in self.files:
            self.f = os.path.relpath(f, os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(root)))))
            self.walk(self.sexp[f], None)

    # -- helpers
    def line(self, n):
        if isinstance(n, list):
            if len(n) == 3 and isinstance(n[0], str) and n[0].startswith('@') and isinstance(n[2], list) and len(n[2]) == 2 and all(isinstance(x, int) for x in n[2]): return n[2][0]
            for x in n:
                l = self.line(x)
                if l: return l
        return 0

    def sym(self, n):
        if isinstance(n, list) and n and n[0] == 'symbol_literal': return n[1][1] if isinstance(n[1][1], str) else n[1][1][1]
        if isinstance(n, list) and n and n[0] == '@label': return n[1].rstrip(':')
        return None

    def const(self, n):
        if isinstance(n, list) and n and n[0] in ('var_ref', 'var_field', 'const_ref', 'top_const_ref') and n[1][0] == '@const': return n[1][1]
        if isinstance(n, list) and n and n[0] == 'const_path_ref': return n[2][1]
        return None

    def args(self, n):
        """argument list of a command/call"""
        if not n: return []
        if n[0] == 'args_add_block': return n[1]
        if n[0] == 'arg_paren': return self.args(n[1]) if n[1] else []
        if isinstance(n[0], list): return n
        return []

    def value(self, n):
        """symbol, int, or type expression"""
        s = self.sym(n)
        if s is not None: return ('sym', s)
        if not isinstance(n, list) or not n: return ('?',)
        if n[0] == '@int': return ('int', int(n[1].replace('_', ''), 0))
        if n[0] == 'unary' and n[1] == '-@':
            v = self.value(n[2])
            return ('int', -v[1]) if v[0] == 'int' else ('?',)
        if n[0] == 'paren': return self.value(n[1][0] if isinstance(n[1][0], list) else n[1])
        if n[0] == 'binary':
            a, b = self.value(n[1]), self.value(n[3])
            if a[0] == b[0] == 'int':
                if n[2] == '<<': return ('int', a[1] << b[1])
                if n[2] == '|': return ('int', a[1] | b[1])
                if n[2] == '+': return ('int', a[1] + b[1])
            return ('?',)
        c = self.const(n)
        if c: return ('const', c)
        if n[0] == 'call' and self.const(n[1]) and n[3][1] in ('by_value', 'by_ref', 'ptr'):
            return (n[3][1], self.const(n[1]))
        if n[0] == 'method_add_arg':
            c = n[1]
            if c[0] == 'call' and c[3][1] == 'to_native' and self.const(c[1]):
                a = self.args(n[2])
                if a and self.sym(a[0]):
                    e = self.enumconst.get(self.const(c[1]))
                    if e:
                        for k, v in self.enums[e][0]:
                            if k == self.sym(a[0]): return ('int', v)
            if c[0] == 'call' and c[3][1] == 'new' and self.const(c[1]) == 'ArrayType':
                a = self.args(n[2])
                t = a[0]
                if t[0] == 'method_add_arg':
                    return ('array', self.value(self.args(t[2])[0]))
            if c[0] == 'fcall' and c[1][1] == 'find_type': return self.value(self.args(n[2])[0])
        return ('?',)

    def arr(self, n):
        if isinstance(n, list) and n and n[0] == 'array':
            return n[1] or []
        return None

    def walk(self, n, cls):
        if not isinstance(n, list) or not n: return
        if n[0] == 'class':
            name = self.const(n[1]); sup = self.const(n[2]) if n[2] else None
            key = name
            if sup in ('Struct', 'Union'): self.structs.setdefault(key, [sup, None, self.f, self.line(n[1])])
            self.walk(n[3], key); return
        if n[0] in ('def', 'defs'):
            self.defs.append((self.f, n, cls))
            self.scan_maps(n, cls)
            return
        if n[0] == 'assign':
            c = self.const(n[1])
            v = n[2]
            if c and isinstance(v, list):
                if v[0] == 'command' and v[1][1] in ('enum', 'bitmask'): self.enum(v, c)
                elif v[0] == 'method_add_arg' and v[1][0] == 'fcall' and v[1][1][1] in ('enum', 'bitmask'): self.enum(['command', v[1][1], v[2]], c)
                else:
                    x = self.value(v)
                    if x[0] == 'int': self.consts[(cls, c)] = (x[1], self.f, self.line(n))
                    self.scan_maps(v, cls)
            return
        if n[0] == 'alias':
            a, b = self.sym(n[1]) or n[1][1][1], self.sym(n[2]) or n[2][1][1]
            self.aliases.append((cls, a, b, self.f, self.line(n)))
            return
        if n[0] == 'command' or (n[0] == 'method_add_arg' and n[1][0] == 'fcall'):
            if n[0] == 'method_add_arg': n = ['command', n[1][1], n[2]]
            self.command(n, cls)
            return
        for x in n:
            if isinstance(x, list): self.walk(x, cls)

    def enum(self, v, c):
        a = self.args(v[2])
        name = None; lst = None; base = None
        for x in a:
            s = self.sym(x); l = self.arr(x)
            if s: name = s
            elif l is not None: lst = l
            else:
                b = self.const(x)
                if b: base = b
        if lst is None: return
        mem = []; last = -1
        for x in lst:
            y = self.value(x)
            if y[0] == 'sym': last = last + 1 if last is not None else None; mem.append([y[1], last])
            else:
                last = y[1] if y[0] == 'int' else None
                if mem: mem[-1][1] = last
        if v[1][1] == 'bitmask': self.bitmasks[name] = ([tuple(m) for m in mem], c, self.f, self.line(v), base)
        else:
            self.enums[name] = ([tuple(m) for m in mem], c, self.f, self.line(v), base)
            if c: self.enumconst[c] = name

    def command(self, n, cls):
        nm = n[1][1] if isinstance(n[1], list) else None
        a = self.args(n[2])
        loc = (self.f, self.line(n))
        if nm in ('enum', 'bitmask'): self.enum(n, None)
        elif nm == 'typedef' and len(a) == 2:
            v = self.value(a[0]); s = self.sym(a[1])
            self.typedefs[s] = v
        elif nm == 'attach_function':
            i = 0
            names = []
            while i < len(a) and self.arr(a[i]) is None: names.append(a[i]); i += 1
            if i + 1 < len(a):
                cn = self.sym(names[-1])
                self.funcs.append((cn, [self.value(x) for x in self.arr(a[i])], self.value(a[i + 1])) + loc)
        elif nm == 'callback':
            i = 0
            s = None
            if self.arr(a[0]) is None: s = self.sym(a[0]); i = 1
            if self.arr(a[i]) is not None: self.callbacks[s] = ([self.value(x) for x in self.arr(a[i])], self.value(a[i + 1])) + loc
        elif nm == 'attach_variable':
            cn = self.sym(a[-2]); self.vars.append((cn, self.value(a[-1])) + loc)
        elif nm == 'layout' and cls in self.structs:
            fs = []
            vs = [self.value(x) for x in a]
            if len(a) == 1 and a[0][0] == 'bare_assoc_hash':
                vs = []
                for z in a[0][1]: vs += [self.value(z[1]), self.value(z[2])]
            for k in range(0, len(vs) - 1, 2): fs.append((vs[k][1] if vs[k][0] == 'sym' else None, vs[k + 1]))
            self.structs[cls][1] = fs
        elif nm in ('add_property', 'add_handle_property', 'add_optional_handle_property') and len(a) >= 3:
            self.props.append((self.sym(a[0]), self.sym(a[1]), self.sym(a[2])) + loc)
        else:
            for x in a: self.walk(x, cls) if isinstance(x, list) else None

    def scan_maps(self, n, cls):
        """symbol (enumerator) -> class associations: hash literals and case/when"""
        if not isinstance(n, list): return
        if n and n[0] == 'assoc_new':
            s = self.sym(n[1]); c = self.const(n[2]) if isinstance(n[2], list) else None
            if s and c and s.startswith('CCS_'): self.maps.append((s, c, self.f, self.line(n), cls))
        if n and n[0] == 'when':
            w = n[1] if isinstance(n[1], list) else []
            ss = [self.sym(x) for x in w]
            body = n[2] or []
            cs = [self.const(x) for x in body if isinstance(x, list)]
            cs = [c for c in cs if c]
            if len(ss) == 1 and ss[0] and ss[0].startswith('CCS_') and len(cs) == 1: self.maps.append((ss[0], cs[0], self.f, self.line(n), cls))
        for x in n:
            if isinstance(x, list): self.scan_maps(x, cls)
