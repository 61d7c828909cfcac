"""Front end: compiles /repo/src/*.c with clang to LLVM IR, dumps it with
tools/irdump, and loads it as a Program (functions, types, globals)."""
import os, sys, json, subprocess, tempfile, shutil, hashlib, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class CheckError(Exception):
    """The check itself cannot give an answer (exit code 2)."""


def build_irdump():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'irdump-' + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        cfg = 'llvm-config-18'
        if not shutil.which(cfg):
            cfg = '/usr/lib/llvm-18/bin/llvm-config'
        inc = subprocess.check_output([cfg, '--includedir'], text=True).strip()
        lib = subprocess.check_output([cfg, '--libdir'], text=True).strip()
        cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', src, '-I' + inc,
               '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
               '-L' + lib, '-lLLVM-18', '-o', out + '.tmp']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot build irdump: ' + r.stderr[-2000:])
        os.rename(out + '.tmp', out)
    return out


def _gsl_cflags():
    try:
        return subprocess.check_output(['pkg-config', '--cflags', 'gsl'], text=True, stderr=subprocess.DEVNULL).split()
    except Exception:
        return []


def version_header(d, repo):
    with open(os.path.join(d, 'version.h'), 'w') as f:
        f.write('#ifndef CCS_VERSION_H_\n#define CCS_VERSION_H_\n#define CCS_VERSION_STRING "v0.0.0.0"\n'
                '#define CCS_VERSION_MAJOR 0\n#define CCS_VERSION_MINOR 0\n#define CCS_VERSION_PATCH 0\n#define CCS_VERSION_REVISION 0\n#endif\n')


def cflags(repo):
    return ['-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src')] + _gsl_cflags()


def extract(repo=REPO):
    """-> list of TU dicts (irdump's JSON)."""
    tool = build_irdump()
    srcs = sorted(glob.glob(os.path.join(repo, 'src', '*.c')))
    if len(srcs) < 20:
        raise CheckError('only %d C sources found under %s/src' % (len(srcs), repo))
    d = tempfile.mkdtemp(prefix='ccsir')
    try:
        version_header(d, repo)

        def one(s):
            b = os.path.join(d, os.path.basename(s)[:-2])
            r = subprocess.run(['clang-18' if shutil.which('clang-18') else 'clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w',
                                '-fno-discard-value-names', '-c', '-emit-llvm', '-I' + d] + cflags(repo) + [s, '-o', b + '.bc'],
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError('clang failed on %s: %s' % (s, r.stderr[-2000:]))
            r = subprocess.run([tool, b + '.bc', b + '.json'], capture_output=True, text=True)
            if r.returncode:
                raise CheckError('irdump failed on %s: %s' % (s, r.stderr[-2000:]))
            with open(b + '.json') as f:
                return json.load(f)
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, srcs))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'line', 'file', 'x', 'fn')


def realign(args):
    """a structure passed by value takes two IR arguments: spread the declared names over them"""
    nd = [a for a in args if a['dt']]
    extra = len(args) - len(nd)
    if not extra or not nd: return args
    wide = [k for k, a in enumerate(nd) if a['dt'].replace('const ', '') == 'ccs_datum_t']
    if len(wide) != extra: return args
    out = []
    for k, a in enumerate(nd):
        out.append(dict(args[len(out)], dt=a['dt'], n=a['n']))
        if k in wide: out.append(dict(args[len(out)], dt='', n=(a['n'] or '') + '#hi'))
    return out


class Func:
    def __init__(self, prog, tu, name, j):
        self.prog = prog; self.tu = tu; self.name = name; self.j = j
        self.internal = j['internal']; self.vararg = j['vararg']; self.ret = j['ret']
        self.file = os.path.relpath(j.get('file', ''), prog.repo) if j.get('file', '').startswith('/') else j.get('file', '')
        self.line = j.get('line', 0)
        self.args = realign(j['args']); self.proto = j.get('proto', [])
        self.blocks = []
        for bb in j['bb']:
            bl = []
            for i in bb:
                n = Inst(); n.id = i['d']; n.op = i['op']; n.ty = i.get('t'); n.ops = i['o']
                n.line = i.get('l', 0); n.file = i.get('lf'); n.x = i; n.fn = self
                bl.append(n)
            self.blocks.append(bl)
        self._cfg = None

    @property
    def ret_type(self):
        return self.proto[0] if self.proto else 'void'

    def key(self):
        return (self.tu if self.internal else '', self.name)

    def __repr__(self):
        return '<F %s>' % self.name

    # CFG ------------------------------------------------------------------
    def cfg(self):
        if self._cfg is None:
            n = len(self.blocks)
            succ = []
            for bl in self.blocks:
                t = bl[-1]
                s = []
                if t.op == 'br':
                    s = list(t.x['b'])
                elif t.op == 'switch':
                    s = [c[1] for c in t.x['cases']] + list(t.x['b'])
                succ.append(s)
            pred = [[] for _ in range(n)]
            for b, ss in enumerate(succ):
                for s in ss:
                    if b not in pred[s]:
                        pred[s].append(b)
            # dominators
            order = []
            seen = set()
            st = [(0, iter(succ[0]))] if n else []
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(succ[s]))); break
                else:
                    order.append(b); st.pop()
            order.reverse()
            idx = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [p for p in pred[b] if p in idom]
                    if not ps:
                        continue
                    x = ps[0]
                    for p in ps[1:]:
                        a, c = x, p
                        while a != c:
                            while idx[a] > idx[c]: a = idom[a]
                            while idx[c] > idx[a]: c = idom[c]
                        x = a
                    if idom.get(b) != x:
                        idom[b] = x; ch = True

            def dom(a, b):
                while True:
                    if a == b: return True
                    if b == 0: return False
                    b = idom[b]
            loops = {}
            for b in order:
                for s in succ[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x not in body:
                                body.add(x); w.extend(p for p in pred[x] if p in idx)
            self._cfg = dict(rpo=idx, succ=succ, pred=pred, order=order, idom=idom, loops=loops, dom=dom)
            # liveness of SSA ids (block live-in)
            use = []; dfn = []; phiuse = {}
            for b, bl in enumerate(self.blocks):
                u = set(); d = set()
                for i in bl:
                    if i.op == 'phi':
                        for v, pb in zip(i.ops, i.x['b']):
                            if isinstance(v, int): phiuse.setdefault(pb, set()).add(v)
                        d.add(i.id)
                        continue
                    for v in self._uses(i):
                        if v not in d: u.add(v)
                    d.add(i.id)
                use.append(u); dfn.append(d)
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for b in reversed(order):
                    o = set(phiuse.get(b, ()))
                    for s in succ[b]:
                        o |= live[s]
                    li = use[b] | (o - dfn[b])
                    if li != live[b]:
                        live[b] = li; ch = True
            # phis of a block are "live" at entry only via edges
            self._cfg['live'] = live
        return self._cfg

    @staticmethod
    def _uses(i):
        r = [v for v in i.ops if isinstance(v, int)]
        c = i.x.get('c')
        if isinstance(c, int): r.append(c)
        for s in i.x.get('steps', ()):
            v = s.get('i')
            if isinstance(v, int): r.append(v)
        return r

    def loc(self, inst=None):
        if inst is None:
            return '%s:%d' % (self.file, self.line)
        f = inst.file or self.j.get('file', '')
        if f.startswith(self.prog.repo): f = os.path.relpath(f, self.prog.repo)
        return '%s:%d' % (f, inst.line)


class Program:
    def __init__(self, repo=REPO, tus=None):
        self.repo = repo
        tus = tus if tus is not None else extract(repo)
        self.tus = tus
        self.ext = {}       # external functions by name
        self.stat = {}      # (tu, name) -> Func
        self.all = []
        self.structs = {}; self.di = {}; self.typedefs = {}; self.enums = {}
        self.globals = {}   # (tu or '', name)
        for tu in tus:
            t = os.path.basename(tu['file'])
            for k, v in tu['structs'].items(): self.structs.setdefault(k, v)
            for k, v in tu['di'].items(): self.di.setdefault(k, v)
            self.typedefs.update(tu['typedefs'])
            for k, v in tu['enums'].items(): self.enums.setdefault(k, v)
            for k, g in tu['globals'].items():
                if g['decl']: continue
                g['tu'] = t
                self.globals[(t if g['internal'] else '', k)] = g
            for n, j in tu['fns'].items():
                if j.get('decl'): continue
                f = Func(self, t, n, j)
                self.all.append(f)
                if f.internal: self.stat[(t, n)] = f
                else: self.ext[n] = f
        self.public = self._public_names()

    def _public_names(self):
        import re
        names = set()
        for h in glob.glob(os.path.join(self.repo, 'include', 'cconfigspace', '*.h')):
            txt = open(h, errors='replace').read()
            names |= set(re.findall(r'\b(ccs_\w+)\s*\(', txt))
        return {n for n in names if n in self.ext}

    def resolve(self, tu, name):
        return self.stat.get((tu, name)) or self.ext.get(name)

    def glob(self, tu, name):
        return self.globals.get((tu, name)) or self.globals.get(('', name))

    def enum(self, *names):
        for n in names:
            if n in self.enums: return self.enums[n]
        raise CheckError('enum %s not found' % (names,))

    def enum_const(self, name):
        for e in self.enums.values():
            if name in e: return e[name]
        raise CheckError('enumerator %s not found' % name)

    def unique_funcs(self):
        """every function once (header statics are compiled in several TUs)."""
        seen = {}
        for f in self.all:
            k = (f.name, f.file, f.line)
            seen.setdefault(k, f)
        return list(seen.values())

    def field_name(self, struct, off):
        s = struct.lstrip('%')
        d = self.di.get(s)
        if d is None and '.' in s:
            base = s.rsplit('.', 1)[0]
            d = self.di.get(base)
        if d:
            for m in d['m']:
                if m['o'] == off: return m['n']
        return '+%d' % off

    def flat_init(self, g):
        """flatten a constant initializer: list of (byte offset, const json)."""
        out = []

        def size(t):
            t = t.strip()
            if t in self.structs: return self.structs[t]['size']
            if t == 'ptr' or t == 'i64' or t == 'double': return 8
            if t == 'i32' or t == 'float': return 4
            if t in ('i8', 'i1'): return 1
            if t == 'i16': return 2
            if t.startswith('['):
                n, e = t[1:-1].split(' x ', 1)
                return int(n) * size(e)
            return None

        def layout(t, n):
            if t in self.structs: return [(e['o'], e['t']) for e in self.structs[t]['e']]
            if t.startswith('['):
                _, e = t[1:-1].split(' x ', 1)
                z = size(e)
                return [(i * (z or 8), e) for i in range(n)]
            if t.startswith('{') or t.startswith('<{'):
                parts = t.strip('<{ }>').split(', ')
                o = 0; r = []
                for p in parts:
                    z = size(p) or 8
                    if not t.startswith('<{'):
                        o = (o + z - 1) // z * z if z in (1, 2, 4, 8) else (o + 7) // 8 * 8
                    r.append((o, p)); o += z
                return r
            return [(i * 8, None) for i in range(n)]

        def rec(c, off, t):
            if c.get('k') == 'agg':
                tt = c.get('t') or t
                lay = layout(tt, len(c['v']))
                for (o, et), v in zip(lay, c['v']):
                    rec(v, off + o, et)
            else:
                out.append((off, c))
        if 'init' in g:
            rec(g['init'], 0, g['t'])
        return out


if __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(len(p.all), len(p.unique_funcs()), len(p.public), time.time() - t)
