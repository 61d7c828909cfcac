import os, sys, re, ast, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, ALLOC, pmap, slot_of, defs_of

KIND_ENUMS = ['ccs_distribution_type', 'ccs_parameter_type', 'ccs_expression_type', 'ccs_tuner_type', 'ccs_features_tuner_type', 'ccs_tree_space_type', 'ccs_tree_tuner_type']
PREC = {0: 'OR', 1: 'AND', 2: 'EQUAL NOT_EQUAL', 3: 'LESS GREATER LESS_OR_EQUAL GREATER_OR_EQUAL', 4: 'ADD SUBSTRACT', 5: 'MULTIPLY DIVIDE MODULO', 6: 'POSITIVE NEGATIVE NOT', 7: 'IN', 8: 'LIST', 9: 'LITERAL VARIABLE'}
SYM = {'OR': '||', 'AND': '&&', 'EQUAL': '==', 'NOT_EQUAL': '!=', 'LESS': '<', 'GREATER': '>', 'LESS_OR_EQUAL': '<=', 'GREATER_OR_EQUAL': '>=', 'ADD': '+', 'SUBSTRACT': '-',
       'MULTIPLY': '*', 'DIVIDE': '/', 'MODULO': '%', 'POSITIVE': '+', 'NEGATIVE': '-', 'NOT': '!', 'IN': '#', 'LIST': None, 'LITERAL': None, 'VARIABLE': None}
ARITY = {'POSITIVE': 1, 'NEGATIVE': 1, 'NOT': 1, 'LIST': -1, 'LITERAL': 0, 'VARIABLE': 0}
ASSOC = {'POSITIVE': 'RIGHT_TO_LEFT', 'NEGATIVE': 'RIGHT_TO_LEFT', 'NOT': 'RIGHT_TO_LEFT', 'LITERAL': 'NONE', 'VARIABLE': 'NONE'}
TPREC = {'NONE': 1, 'TRUE': 1, 'FALSE': 1, 'STRING': 0, 'IDENTIFIER': 0, 'INTEGER': 0, 'FLOAT': 0}
TSYM = {'NONE': 'none', 'TRUE': 'true', 'FALSE': 'false', 'STRING': None, 'IDENTIFIER': None, 'INTEGER': None, 'FLOAT': None}


def weight(f): return sum(len(b) for b in f.blocks)


def enumerators(P, base):
    e = P.enum(base + '_e', base + '_t'); pre = base.upper() + '_'
    return {k[len(pre):]: v for k, v in e.items() if k.startswith(pre) and not k.endswith('_MAX') and not k.endswith('32BIT')}


def header_enum(P, base):
    """enumerators from the public headers, for an enumeration that no analysed variable has"""
    r = {}
    for h in glob.glob(os.path.join(P.repo, 'include', 'cconfigspace', '*.h')):
        t = re.sub(r'/\*.*?\*/', '', open(h, errors='replace').read(), flags=re.S)
        m = re.search(r'enum\s+%s_e\s*\{(.*?)\}' % base, t, re.S)
        if not m: continue
        n = -1
        for x in m.group(1).split(','):
            x = x.strip()
            if not x: continue
            k, _, v = x.partition('=')
            n = int(v, 0) if v.strip() and re.fullmatch(r'-?\w+', v.strip()) and v.strip().lstrip('-').isdigit() else (n + 1 if not v.strip() else 1 << 31)
            r[k.strip()] = n
    pre = base.upper() + '_'
    return {k[len(pre):]: v for k, v in r.items() if k.startswith(pre) and not k.endswith('_MAX') and not k.endswith('32BIT')}


class Maker(Client):
    max_depth = 8

    def __init__(self, f): self.out = mk('arg', len(f.args) - 1, f.args[-1]['n'] or 'arg%d' % (len(f.args) - 1)); self.made = set()

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) <= 4000

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm in ALLOC:
            h = mk('heap', st.fr.ctx + ((st.fr.fn.name, i.id),), nm)
            return [(h, lambda s: s.facts.learn(tcmp('ne', h, ZERO), True))]
        return None

    def on_ret(self, eng, st, inst, val):
        if val is None or st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        o = eng.load(st, self.out, 8)
        if o.op != 'heap': return
        d = eng.load(st, padd(o, 48), 8)
        self.made.add((st.facts.const(eng.load(st, o, 4)), eng.load(st, padd(o, 24), 8), st.facts.const(eng.load(st, d, 4))))


def make(job):
    f, args = job
    P = ccs._W['prog']
    c = Maker(f)
    e = Engine(P, c, max_steps=200000, max_states=6000); e.run(f, args)
    return [(t, (o.a[0], o.a[1]) if o.op == 'g' else None, k) for t, o, k in c.made]


def makers(P):
    """public constructors: functions that hand out, through their last parameter, a block they allocated and gave an operation table"""
    out = []
    for f in P.unique_funcs():
        if f.internal or not f.args or f.ret_type != 'ccs_result_t' or f.args[-1]['t'] != 'ptr' or not re.fullmatch(r'ccs_\w+_t \*', f.args[-1]['dt']): continue
        if not reaches(P, f, ALLOC): continue
        if any(re.fullmatch(r'ccs_expression_type_t', a['dt']) for a in f.args):
            for v in enumerators(P, 'ccs_expression_type').values():
                out.append((f, [C(v) if a['dt'] == 'ccs_expression_type_t' else mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]))
        else: out.append((f, None))
    return out


def reaches(P, f, names, d=2):
    for bl in f.blocks:
        for i in bl:
            if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                n = i.x['c']['v']
                if n in names: return True
                g = P.resolve(f.tu, n)
                if d and g is not None and g.internal and reaches(P, g, names, d - 1): return True
    return False


# ---- structures a slot function reads its own data as --------------------------
def first_members(P, s, seen=None):
    """s and the structures that start at its first byte"""
    out = []
    while s and s not in out:
        out.append(s)
        e = P.structs.get('%' + s) or P.structs.get(s)
        t = e['e'][0]['t'].lstrip('%') if e and e['e'] else None
        s = t if t and t.startswith('struct.') else None
    return out


def own_data(f):
    """structure types through which f accesses the data of its first argument (or its first argument, for evaluation)"""
    d = defs_of(f); out = {}
    def isarg0(v): return isinstance(v, int) and v == 0 and f.args

    def root(v, n=0):
        """'obj' the first argument, 'data' what its data field points at"""
        if isarg0(v): return 'obj'
        i = d.get(v) if isinstance(v, int) else None
        if i is None or n > 20: return None
        if i.op in ('bitcast', 'inttoptr', 'ptrtoint'): return root(i.ops[0], n + 1)
        if i.op == 'load':
            g = d.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            if g is not None and g.op == 'getelementptr':
                ss = [s for s in g.x['steps'] if 's' in s]
                if len(ss) == 1 and ss[0]['o'] == 48 and root(g.ops[0], n + 1) == 'obj': return 'data'
        return None
    for bl in f.blocks:
        for i in bl:
            if i.op == 'getelementptr':
                ss = [s for s in i.x['steps'] if 's' in s]
                if not ss: continue
                s = ss[0]['s'].lstrip('%')
                r = root(i.ops[0])
                if r == 'data' or (r == 'obj' and s.endswith('data_s')): out.setdefault(s, i)
    return out


def data_structs(P, f, depth=2, seen=None):
    """every data structure type that a constructor's own code accesses"""
    seen = set() if seen is None else seen
    if f.key() in seen: return set()
    seen.add(f.key()); out = set()
    for bl in f.blocks:
        for i in bl:
            if i.op == 'getelementptr':
                for s in i.x['steps']:
                    if 's' in s and s['s'].endswith('data_s'): out.add(s['s'].lstrip('%')); break
            if depth and i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                g = P.resolve(f.tu, i.x['c']['v'])
                if g is not None and g.internal: out |= data_structs(P, g, depth - 1, seen)
    return out


# ---- dispatch of readers --------------------------------------------------------
class Disp(Client):
    """a dispatch with the kind fixed: which callees are given the result to fill on successful paths"""
    max_depth = 3

    def __init__(self, kind, match): self.kind = kind; self.match = match; self.outs = []; self.peeked = 0

    def init(self, eng, st): return {'o': ()}

    def key(self, st): return st.cl['o']

    def inline(self, eng, st, fn, args, inst): return False

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(C(-1) if i.ty else None, None)]
        if nm and self.match(nm, callee) and args:
            self.peeked += 1
            r = mk('ret', nm, (st.fr.fn.name, i.id))

            def ok(s):
                eng.store(s, args[0], C(self.kind), 4)
                return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, ok)]
        if callee is not None and callee.ret_type == 'ccs_result_t' and callee.args:
            r = mk('ret', nm, (st.fr.fn.name, i.id))
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, (st.fr.fn.name, i.id), k))
            give = any(a is mk('arg', 0, self.a0) for a in args)

            def okk(s):
                if give: s.cl['o'] = s.cl['o'] + (callee.key(),)
                return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, okk), (r, lambda s: s.facts.learn(tcmp('lt', r, ZERO), True))]
        return None

    def on_ret(self, eng, st, inst, val):
        if val is None or st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        self.outs.append(st.cl['o'])


def match_of(enum):
    def match(nm, callee): return callee is not None and callee.args and callee.args[0]['dt'].replace(' ', '') in (enum + '_t*', enum.replace('ccs_', '_ccs_') + '_t*') and not any(a['dt'].replace(' ', '') in ('ccs_object_t', 'ccs_object_t*') for a in callee.args)
    return match


def dispatch(P, f, kind, enum):
    """(how often the kind was read, set of tuples of callees given the result on successful paths)"""
    c = Disp(kind, match_of(enum)); c.a0 = f.args[0]['n'] or 'arg0'
    e = Engine(P, c, max_steps=100000, max_states=5000); e.run(f)
    return c.peeked, set(c.outs), e.incomplete


class Route(Client):
    """a reader with the kind fixed, wherever it is read: the constructors its successful paths end in"""
    max_depth = 5

    def __init__(self, kind, match, ctors): self.kind = kind; self.match = match; self.ctors = ctors; self.outs = set()

    def init(self, eng, st): return {'o': frozenset()}

    def key(self, st): return st.cl['o']

    def inline(self, eng, st, fn, args, inst): return fn.internal and fn.ret_type == 'ccs_result_t' and weight(fn) < 1500 and 'deserialize_with_opts' not in fn.name

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        if nm in ALLOC:
            h = mk('heap', st.fr.ctx + ((st.fr.fn.name, i.id),), nm)
            return [(h, lambda s: s.facts.learn(tcmp('ne', h, ZERO), True))]
        if nm and self.match(nm, callee) and args:
            r = mk('ret', nm, (st.fr.fn.name, i.id))

            def ok(s):
                eng.store(s, args[0], C(self.kind), 4)
                return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, ok)]
        if callee is not None and callee.ret_type == 'ccs_result_t' and not self.inline(eng, st, callee, args, i):
            r = mk('ret', nm, (st.fr.fn.name, i.id))
            for k, a in enumerate(args):
                if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, (st.fr.fn.name, i.id), k))

            def okk(s):
                if nm in self.ctors: s.cl['o'] = s.cl['o'] | {nm}
                return s.facts.learn(tcmp('lt', r, ZERO), False)
            return [(r, okk)]
        return None

    def on_ret(self, eng, st, inst, val):
        if val is None or st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        self.outs.add(st.cl['o'])


class Accept(Client):
    """object type a reader insists on finding in the header it reads"""
    max_depth = 2

    def __init__(self): self.types = set()

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) < 400 and 'internal' not in fn.name and len(st.frames) < 3

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(C(-1) if i.ty else None, None)]
        if callee is not None and callee.ret_type == 'ccs_result_t':
            hd = next((k for k, a in enumerate(callee.args) if '_ccs_object_internal_t' in a['dt']), None)
            r = mk('ret', nm, (st.fr.fn.name, i.id))
            if hd is not None and root_of(args[hd]).op == 'alloca':
                def ok(s):
                    eng.store(s, args[hd], mk('arg', 90, 'type'), 4)
                    return s.facts.learn(tcmp('lt', r, ZERO), False)
                return [(r, ok)]
            if not self.inline(eng, st, callee, args, i):
                for k, a in enumerate(args):
                    if root_of(a).op == 'alloca': eng.region(st, 'out', a, None, (nm, (st.fr.fn.name, i.id), k))
                return [(r, lambda s: s.facts.learn(tcmp('lt', r, ZERO), False))]
        return None

    def on_ret(self, eng, st, inst, val):
        if val is None or st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        self.types.add(st.facts.const(mk('arg', 90, 'type')))


def reachable(P, f, seen=None):
    seen = set() if seen is None else seen
    todo = [f]
    while todo:
        g = todo.pop()
        if g.key() in seen: continue
        seen.add(g.key())
        for bl in g.blocks:
            for i in bl:
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                    h = P.resolve(g.tu, i.x['c']['v'])
                    if h is not None: todo.append(h)
    return seen


def callees(P, f, only_internal=True, depth=2):
    """external functions that f, through internal helpers that build nothing else, calls"""
    out = set(); seen = set(); todo = [(f, 0)]
    while todo:
        g, d = todo.pop()
        if g.key() in seen: continue
        seen.add(g.key())
        for bl in g.blocks:
            for i in bl:
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                    h = P.resolve(g.tu, i.x['c']['v'])
                    if h is None: continue
                    if not h.internal: out.add(h.name)
                    elif d < depth and 'deserialize_with_opts' not in h.name: todo.append((h, d + 1))
    return out


def readers(ctx, P, M, made, KD):
    otypes = enumerators(P, 'ccs_object_type')
    written = set()
    for (t, tab, k), fs in made.items():
        if t is None or tab is None: continue
        g = P.globals.get(tab)
        fl = dict(P.flat_init(g)) if g else {}
        if fl.get(16, {}).get('k') == 'fn' and fl.get(8, {}).get('k') == 'fn': written.add((t, k))
    wt = {t for t, k in written}
    # the function that looks at the object type and hands its result parameter on
    root = None
    for f in P.unique_funcs():
        if not f.args or f.args[0]['dt'].replace(' ', '') != 'ccs_object_t*' or not f.internal or f.ret_type != 'ccs_result_t': continue
        p, outs, inc = dispatch(P, f, otypes['RNG'], 'ccs_object_type')
        if p and outs: root = f; break
    if root is None:
        ctx.cov['reader_dispatch'] = 'not recognised'
        return
    name = {v: k for k, v in otypes.items()}
    byname = {f.key(): f for f in P.unique_funcs()}
    for kn, kv in sorted(otypes.items(), key=lambda x: x[1]):
        p, outs, inc = dispatch(P, root, kv, 'ccs_object_type')
        if inc: continue
        ctx.count('obligations'); ctx.count('reader_dispatches')
        outs = {o for o in outs}
        if not outs:
            if kv in wt: ctx.finding('read:%s' % kn, 'objects of kind %s can be written but the reader has no case for them' % kn, root.loc())
            continue
        for o in outs:
            if not o: ctx.finding('read:%s:nothing' % kn, 'the reader accepts kind %s without building anything' % kn, root.loc()); continue
            for key in o:
                g = byname.get(key)
                if g is None: continue
                a = Accept(); Engine(P, a, max_steps=60000, max_states=3000).run(g)
                ts = {t for t in a.types if t is not None}
                ctx.sample('%s -> %s accepts %s' % (kn, g.name, sorted(name.get(t, t) for t in ts)), 30)
                if ts and None not in a.types and kv not in ts:
                    ctx.finding('read:%s:route' % kn, 'kind %s is routed to %s, which reads objects of kind %s' % (kn, g.name, '/'.join(name.get(t, str(t)) for t in sorted(ts))), root.loc())
                    continue
                # sub kinds
                for base in KIND_ENUMS:
                    fam = KD.get(base)
                    if fam is None or fam[0] != kv: continue
                    subs(ctx, P, g, base, kn, kv, made, written)


def subs(ctx, P, g, base, kn, kv, made, written):
    """the dispatch on the sub kind below reader g"""
    byname = {f.key(): f for f in P.unique_funcs()}
    todo = [g]; seen = set(); d = None
    while todo and len(seen) < 12:
        x = todo.pop(0)
        if x.key() in seen: continue
        seen.add(x.key())
        en = enumerators(P, base)
        p, outs, inc = dispatch(P, x, next(iter(en.values())), base)
        if p: d = x; break
        for bl in x.blocks:
            for i in bl:
                if i.op == 'call' and isinstance(i.x['c'], dict) and i.x['c'].get('k') == 'fn':
                    h = P.resolve(x.tu, i.x['c']['v'])
                    if h is not None and h.internal and h.args and h.args[0]['dt'] == g.args[0]['dt']: todo.append(h)
    if d is None: return
    ctor = {}
    for (t, tab, k), fs in made.items():
        for f in fs: ctor.setdefault(f, set()).add((t, k))
    for sn, sv in sorted(enumerators(P, base).items(), key=lambda x: x[1]):
        p, outs, inc = dispatch(P, d, sv, base)
        if inc or not p: continue
        ctx.count('obligations'); ctx.count('reader_dispatches')
        if not outs:
            if (kv, sv) in written: ctx.finding('read:%s:%s' % (kn, sn), '%s objects of kind %s can be written but the reader has no case for them' % (kn, sn), d.loc())
            continue
        for o in outs:
            cs = set()
            for key in o:
                h = byname.get(key)
                if h is None: continue
                for c in ([h.name] if not h.internal else callees(P, h)):
                    cs |= {k for t, k in ctor.get(c, ()) if t == kv}
            cs.discard(None)
            hit = False
            for key in o:
                h = byname.get(key)
                if h is None or not h.internal: continue
                c = Route(sv, match_of(base), set(ctor)); e = Engine(P, c, max_steps=60000, max_states=3000); e.run(h)
                ctx.count('routes')
                for used in c.outs:
                    ks = {k for n in used for t, k in ctor[n] if t == kv} - {None}
                    ctx.count('obligations')
                    if ks and sv not in ks and not hit:
                        hit = True
                        ctx.finding('read:%s:%s:builds' % (kn, sn), 'what was written as %s %s is rebuilt by %s' % (kn, sn, ', '.join(sorted(used))), h.loc())
            if o and cs and sv not in cs and not hit:
                ctx.finding('read:%s:%s:route' % (kn, sn), 'kind %s is routed to %s, which builds another kind of %s' % (sn, ', '.join(sorted(byname[k].name for k in o if k in byname)), kn), d.loc())


# ---- bindings -----------------------------------------------------------------
def camel(e): return ''.join(x.capitalize() for x in e.split('_'))


def py_classes(repo):
    """class -> (bases, names of C constructors it calls), and dispatches [(file, line, where, {enumerator: class})]"""
    cls = {}; disp = []; alias = {}
    for p in sorted(glob.glob(os.path.join(repo, 'bindings/python/cconfigspace/*.py'))):
        t = ast.parse(open(p).read()); fn = os.path.relpath(p, repo)
        for n in ast.walk(t):
            if isinstance(n, ast.ClassDef):
                cr = {x.func.id for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id.startswith('ccs_create_')}
                cls[n.name] = ([b.id for b in n.bases if isinstance(b, ast.Name)], cr)
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.asname: alias[a.asname] = a.name

        def enumer(e):
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id.endswith('Type'): return (e.value.id, e.attr)
            return None

        def target(e):
            """class an expression or a branch's statement constructs or converts with"""
            if isinstance(e, ast.Name): return e.id
            if isinstance(e, ast.Call):
                f = e.func
                if isinstance(f, ast.Name) and f.id[:1].isupper(): return f.id
                if isinstance(f, ast.Attribute) and f.attr in ('from_handle', '_from_handle') and isinstance(f.value, ast.Name): return f.value.id
            return None

        def scan(n, where):
            for c in ast.iter_child_nodes(n):
                w = where + '.' + c.name if isinstance(c, (ast.ClassDef, ast.FunctionDef)) else where
                if isinstance(c, ast.Dict):
                    m = {enumer(k): v.id for k, v in zip(c.keys, c.values) if k is not None and enumer(k) and isinstance(v, ast.Name)}
                    if len(m) > 1 and len(m) == len(c.keys): disp.append((fn, c.lineno, w, m, True))
                if isinstance(c, ast.FunctionDef):
                    m = {}
                    for x in ast.walk(c):
                        if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and len(x.test.ops) == 1 and isinstance(x.test.ops[0], ast.Eq):
                            e = enumer(x.test.comparators[0]) or enumer(x.test.left)
                            if e and x.body:
                                b = x.body[-1]
                                v = b.value if isinstance(b, (ast.Return, ast.Assign)) else None
                                tg = target(v) if v is not None else None
                                if tg: m[e] = tg
                    last = c.body[-1]
                    while isinstance(last, ast.If) and last.orelse: last = last.orelse[-1]
                    if len(m) > 1: disp.append((fn, c.lineno, w, m, 'raise' if isinstance(last, ast.Raise) else False))
                scan(c, w)
        scan(t, '')
    return cls, disp, alias


def rb_classes(repo):
    cls = {}; disp = []
    for p in sorted(glob.glob(os.path.join(repo, 'bindings/ruby/lib/cconfigspace/*.rb'))):
        fn = os.path.relpath(p, repo); cur = []
        lines = open(p, errors='replace').read().split('\n')
        pend = None; m = {}; m0 = 0; owner = None
        for ln, l in enumerate(lines, 1):
            s = l.split('#')[0] if '#{' not in l else l
            ind = len(l) - len(l.lstrip())
            x = re.match(r'\s*class\s+([A-Z]\w*)(?:\s*<\s*(?:CCS::)?([A-Z]\w*))?', s)
            if x:
                cur = [c for c in cur if c[1] < ind] + [(x.group(1), ind)]
                b = cls.setdefault(x.group(1), ([], set()))
                if x.group(2): b[0].append(x.group(2))
            if re.match(r'\s*end\b', s): cur = [c for c in cur if c[1] < ind]
            for c in re.findall(r'\bccs_create_\w+', s):
                if cur and 'attach_function' not in s: cls[cur[-1][0]][1].add(c)
            h = re.match(r'\s*:?(CCS_\w+_TYPE_\w+)(?::|\s*=>)\s*(?:CCS::)?([A-Z]\w+)\s*,?\s*$', s)
            if h: m.setdefault('hash', {})[h.group(1)] = h.group(2); m0 = m0 or ln; continue
            if m.get('hash'):
                disp.append((fn, m0, 'map', {k: v for k, v in m['hash'].items()}, True)); m = {}; m0 = 0
            w = re.match(r'\s*when\s+:(CCS_\w+_TYPE_\w+)\s*(?:then\s*(.*))?$', s)
            if w:
                pend = w.group(1)
                if w.group(2): s = w.group(2)
                else: continue
            if pend:
                c = re.match(r'\s*(?:return\s+)?(?:CCS::)?([A-Z]\w+)\s*(?:\.|::)?\s*(from_handle|new)?\b.*$', s)
                if c and (c.group(2) or re.fullmatch(r'\s*(?:CCS::)?[A-Z]\w+\s*', s)):
                    if owner is None: owner = (ln, cur[-1][0] if cur else '', {})
                    owner[2][pend] = c.group(1)
                pend = None
                continue
            if owner and re.match(r'\s*(else|end)\b', s):
                rz = re.match(r'\s*else\b', s) and any(re.search(r'\braise\b', x) for x in lines[ln - 1:ln + 2])
                disp.append((fn, owner[0], owner[1], owner[2], 'raise' if rz else False)); owner = None
    return cls, disp


def subclasses(cls, c):
    out = {c}; ch = True
    while ch:
        ch = False
        for k, (b, _) in cls.items():
            if k not in out and any(x in out for x in b): out.add(k); ch = True
    return out


def bindings(ctx, P, made, KD):
    otypes = enumerators(P, 'ccs_object_type')
    ctor = {}
    for (t, tab, k), fs in made.items():
        for f in fs: ctor.setdefault(f, set()).add((t, k))
    kinds = {b: enumerators(P, b) for b in KIND_ENUMS}
    for lang, (cls, disp) in (('python', py_classes(ctx.repo)[:2]), ('ruby', rb_classes(ctx.repo))):
        for fn, line, where, m, ismap in disp:
            for e, c in m.items():
                if lang == 'python':
                    base, en = e; pre = None
                    for b in KIND_ENUMS + ['ccs_object_type']:
                        if camel(b[4:]) == base: pre = b
                else:
                    pre = next((b for b in sorted(KIND_ENUMS + ['ccs_object_type'], key=len, reverse=True) if e.startswith(b.upper() + '_')), None)
                    en = e[len(pre) + 1:] if pre else None
                if pre is None: continue
                ks = otypes if pre == 'ccs_object_type' else kinds[pre]
                if en not in ks: continue
                cr = set()
                for s in subclasses(cls, c): cr |= cls.get(s, ([], set()))[1]
                tk = set()
                for f in cr: tk |= ctor.get(f, set())
                if pre != 'ccs_object_type':
                    fam = KD.get(pre)
                    tk = {x for x in tk if fam and x[0] == fam[0]}
                    got = {k for t, k in tk}
                else: got = {t for t, k in tk}
                got.discard(None)
                if not got: continue
                ctx.count('obligations'); ctx.count('binding_dispatch_entries')
                if ks[en] not in got:
                    nm = {v: k for k, v in ks.items()}
                    ctx.finding('%s:%s:%s' % (lang, fn, en), '%s is turned into %s, whose constructors create %s' % (en, c, '/'.join(nm.get(x, str(x)) for x in sorted(got))), '%s:%d' % (fn, line))
                elif pre != 'ccs_object_type' and got != {ks[en]} and pre != 'ccs_expression_type':
                    nm = {v: k for k, v in ks.items()}
                    ctx.finding('%s:%s:%s:mixed' % (lang, fn, en), '%s is turned into %s, whose constructors also create %s' % (en, c, '/'.join(nm.get(x, str(x)) for x in sorted(got - {ks[en]}))), '%s:%d' % (fn, line))
            if ismap:
                pre = None
                for e in m:
                    for b in KIND_ENUMS + ['ccs_object_type']:
                        if (lang == 'python' and camel(b[4:]) == e[0]) or (lang == 'ruby' and e.startswith(b.upper() + '_') and (pre is None or len(b) > len(pre))): pre = b
                if pre:
                    ks = otypes if pre == 'ccs_object_type' else kinds[pre]
                    have = {e[1] if lang == 'python' else e[len(pre) + 1:] for e in m}
                    ot = KD[pre][0] if pre in KD else None
                    can = {k for k, v in ks.items() if any((t == v if ot is None else (t == ot and kk == v)) for t, _, kk in made)}
                    if pre != 'ccs_expression_type' and len(have & set(ks)) > 1:
                        for k in sorted(can):
                            ctx.count('obligations')
                            if k not in have: ctx.finding('%s:%s:%s:missing' % (lang, fn, k), '%s has no case for %s, of which C code can hand out objects' % (where or 'the dispatch', k), '%s:%d' % (fn, line))
            # two kinds of object never share a class
            full = {}
            for e, c in m.items(): full.setdefault(c, []).append(e)
            if ismap is True:
                for c, es in full.items():
                    ctx.count('obligations')
                    if len(es) > 1: ctx.finding('%s:%s:%s:shared' % (lang, fn, c), '%s stands for %s' % (c, ' and '.join(str(x) for x in es)), '%s:%d' % (fn, line))


def table_values(P, name, n, sz):
    g = P.glob('', name)
    if g is None: return None
    fl = dict(P.flat_init(g)); out = {}
    for k in range(n):
        c = fl.get(k * sz)
        out[k] = c
    m = re.match(r'\[(\d+) x', g['t'])
    return out, int(m.group(1)) if m else None, g


def strval(P, c, tu):
    if c is None or c.get('k') in ('null', 'zero'): return None
    if c.get('k') == 'str': return c['v']
    if c.get('k') == 'g':
        g = P.glob(tu, c['v'])
        i = g.get('init') if g else None
        if i and i.get('k') == 'str': return i['v']
    return '?'


def tables(ctx, P):
    E = enumerators(P, 'ccs_expression_type')
    T = header_enum(P, 'ccs_terminal_type'); A = header_enum(P, 'ccs_associativity_type')
    if len(T) < 7 or len(A) < 3: raise CheckError('terminal or associativity enumerators not found')
    prec = {n: k for k, v in PREC.items() for n in v.split()}
    spec = [('ccs_expression_precedence', E, 4, {n: prec[n] for n in prec}), ('ccs_expression_arity', E, 4, {n: ARITY.get(n, 2) for n in SYM}),
            ('ccs_expression_associativity', E, 4, {n: A[ASSOC.get(n, 'LEFT_TO_RIGHT')] for n in SYM}), ('ccs_expression_symbols', E, 8, SYM),
            ('ccs_terminal_precedence', T, 4, TPREC), ('ccs_terminal_symbols', T, 8, TSYM), ('ccs_terminal_regexp', T, 8, None)]
    for name, en, sz, want in spec:
        r = table_values(P, name, max(en.values()) + 1, sz)
        if r is None: raise CheckError('table %s not found' % name)
        vals, n, g = r
        ctx.count('kind_tables')
        if n is not None and n < max(en.values()) + 1:
            ctx.finding('table:%s:short' % name, '%s has %d entries for %d kinds' % (name, n, max(en.values()) + 1), 'src/%s' % g['tu'])
        for k, v in en.items():
            c = vals.get(v)
            ctx.count('obligations')
            if sz == 4:
                x = 0 if c is None or c.get('k') in ('zero', 'null') else c.get('v')
            else: x = strval(P, c, g['tu'])
            if want is None:
                if x in (None, ''): ctx.finding('table:%s:%s' % (name, k), '%s has no entry for %s' % (name, k), 'src/%s' % g['tu'])
                continue
            if k not in want or x == '?': continue
            if x != want[k]:
                # the precedences only matter relative to each other
                if name == 'ccs_expression_precedence': continue
                ctx.finding('table:%s:%s' % (name, k), '%s gives %s for %s, documented is %s' % (name, x, k, want[k]), 'src/%s' % g['tu'])
        if name == 'ccs_expression_precedence':
            got = {k: (0 if vals.get(v) is None or vals[v].get('k') in ('zero', 'null') else vals[v].get('v')) for k, v in en.items()}
            for a in en:
                for b in en:
                    if a < b and a in prec and b in prec:
                        ctx.count('obligations')
                        s = lambda x, y: (x > y) - (x < y)
                        if s(got[a], got[b]) != s(prec[a], prec[b]):
                            ctx.finding('table:%s:%s-%s' % (name, a, b), '%s orders %s and %s as %s and %s' % (name, a, b, got[a], got[b]), 'src/%s' % g['tu'])


def result_names(ctx, P):
    f = P.ext.get('ccs_get_result_name')
    if f is None: raise CheckError('ccs_get_result_name not found')
    e = P.enum('ccs_result_e', 'ccs_result_t')

    class N(Client):
        max_depth = 4
        def on_call(self, eng, st, i, name, callee, args):
            if isinstance(name, str) and name in RAISE: return [(C(-1) if i.ty else None, None)]
            return None
        def on_ret(self, eng, st, inst, val):
            ok = st.facts.ev(tcmp('lt', val, ZERO)) is not True
            self.out.append((ok, eng.load(st, mk('arg', 1, 'name'), 8)))
    for k, v in sorted(e.items(), key=lambda x: x[1]):
        if k.endswith('_MAX') or k.endswith('_MIN') or 'FORCE_32' in k: continue
        if any(k2.endswith(('_MAX', '_MIN')) is False and v2 == v and k2 < k for k2, v2 in e.items()): continue
        c = N(); c.out = []
        Engine(P, c, max_steps=20000, max_states=500).run(f, [C(v), mk('arg', 1, 'name')], lambda st: st.facts.learn(tcmp('ne', mk('arg', 1, 'name'), ZERO), True))
        ctx.count('obligations'); ctx.count('result_names')
        good = [x for ok, x in c.out if ok]
        if not good: ctx.finding('resultname:%s' % k, 'ccs_get_result_name rejects %s' % k, f.loc()); continue
        for x in good:
            t = x
            if t.op == 'g':
                g = P.globals.get((t.a[0], t.a[1]))
                i = g.get('init') if g else None
                t = mk('str', i['v']) if i and i.get('k') == 'str' else t
            if t.op == 'str' and t.a[0] != k and t.a[0] not in [a for a, b in e.items() if b == v]: ctx.finding('resultname:%s' % k, 'ccs_get_result_name calls %s %s' % (k, t.a[0]), f.loc())


class Get(Client):
    max_depth = 4
    def on_call(self, eng, st, i, name, callee, args):
        if isinstance(name, str) and name in RAISE: return STOP
        return None
    def on_ret(self, eng, st, inst, val):
        if val is None or st.facts.ev(tcmp('lt', val, ZERO)) is True: return
        self.out.add(eng.load(st, self.res, 4))


def getter(P, f):
    c = Get(); c.out = set(); c.res = mk('arg', len(f.args) - 1, f.args[-1]['n'] or 'arg%d' % (len(f.args) - 1))
    Engine(P, c, max_steps=20000, max_states=500).run(f)
    return c.out


class Access(Client):
    """a public function on an object of one kind: the structures it reads the object's data as"""
    max_depth = 5

    def __init__(self, D): self.D = D; self.got = {}

    def inline(self, eng, st, fn, args, inst): return fn.internal and weight(fn) < 1500

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return STOP
        return None

    def note(self, st, inst, ptr, addr):
        if addr is None or split_off(addr)[0] is not self.D: return
        d = defs_of(st.fr.fn); g = d.get(ptr) if isinstance(ptr, int) and ptr >= len(st.fr.fn.args) else None
        while g is not None and g.op == 'getelementptr':
            ss = [x for x in g.x['steps'] if 's' in x]
            if ss:
                o = split_off(addr)[1]; k = ss[0]['s'].lstrip('%')
                if k not in self.got or self.got[k][2] < o: self.got[k] = (st.fr.fn, inst, o)
            g = d.get(g.ops[0]) if isinstance(g.ops[0], int) and g.ops[0] >= len(st.fr.fn.args) else None

    def on_load(self, eng, st, inst, addr, size): self.note(st, inst, inst.ops[0] if inst.op == 'load' else None, addr)
    def on_store(self, eng, st, inst, addr, val, size): self.note(st, inst, inst.ops[1] if inst.op == 'store' else None, addr)


def access(job):
    f, kv, sv, k = job
    P = ccs._W['prog']
    A = mk('arg', k, f.args[k]['n'] or 'arg%d' % k); D = mk('ld', padd(A, 48))
    c = Access(D)

    def setup(st):
        st.facts.learn(tcmp('ne', A, ZERO), True)
        st.facts.learn(tcmp('eq', mk('ld', A), C(kv)), True); st.facts.learn(tcmp('eq', mk('ld', D), C(sv)), True)
    Engine(P, c, max_steps=30000, max_states=1500).run(f, None, setup)
    return [(s, fn.loc(i), o) for s, (fn, i, o) in c.got.items()]


def confusion(ctx, P, made, KD):
    """no public function reads an object of one kind as the data of another kind"""
    lay = {}
    for (t, tab, k), fs in made.items():
        for n in fs: lay.setdefault((t, k), set()).update(data_structs(P, P.ext[n]))
    jobs = []
    for base, (ot, fam) in KD.items():
        for f in P.unique_funcs():
            if f.internal: continue
            for j, a in enumerate(f.args):
                if a['dt'] != 'ccs_%s_t' % fam: continue
                jobs += [(f, ot, sv, j) for sn, sv in enumerators(P, base).items() if (ot, sv) in lay]
    nm = {(ot, v): '%s %s' % (fam, n) for base, (ot, fam) in KD.items() for n, v in enumerators(P, base).items()}
    for (f, ot, sv, j), got in zip(jobs, pmap(access, jobs)):
        ok = set()
        for s in lay[(ot, sv)]: ok |= set(first_members(P, s))
        ctx.count('kind_accesses')
        for s, loc, off in got:
            ctx.count('obligations')
            if any(x in ok and off < ((P.di.get(x) or {}).get('size') or 0) for x in first_members(P, s)[1:]): continue
            if s.endswith('data_s') and s not in ok and not any(s in first_members(P, x) for x in ok):
                ctx.finding('confuse:%s:%s' % (f.name, nm[(ot, sv)]), '%s, given a %s, reads it as %s' % (f.name, nm[(ot, sv)], s), loc)


def expressions(ctx, P, M):
    """every expression type is evaluated by the operation of its own operator: what its evaluation does (C19's analysis) fits the
    operator it is named after, or at least no other one"""
    import c19
    L = c19.Lay(P); ccs._W.update(lay=L)
    tabs = c19.creators(P, L); fns = {}
    n = lambda e: 1 if e in ('POSITIVE', 'NEGATIVE', 'NOT') else 2

    def fits(pairs):
        jobs = [(e, fn, c) for e, fn in pairs for c in c19.configs(L, e, n(e))]
        bad = {}; done = {}
        for (e, fn, cfg), (b, succ, un, k, divs, inc) in zip(jobs, pmap(c19.evaluate, jobs)):
            x = (e, fn.name); bad.setdefault(x, False); done[x] = done.get(x, 0) + (0 if un or inc else k)
            if b: bad[x] = True
            elif not un and not inc and not any(s[1] is None and s[0] == L.tags['BOOL'] for s in succ):
                if any(not any(s[0] == t and (v is None or s[1] == v) for s in succ) for t, v in c19.expected(L, e, cfg)): bad[x] = True
        return bad, done
    for en in L.types:
        ts = tabs.get(en) or set()
        fn = c19.table_fn(P, next(iter(ts)), L.ev) if len(ts) == 1 else None
        if fn is not None: fns[en] = fn
    bad, done = fits(list(fns.items()))
    for en, fn in sorted(fns.items()):
        ctx.count('obligations'); ctx.count('expression_routes')
        if not bad.get((en, fn.name)): continue
        alt = [e for e in L.types if e != en and n(e) == n(en)]
        b2, d2 = fits([(e, fn) for e in alt])
        ok = [e for e in alt if b2.get((e, fn.name)) is False and d2.get((e, fn.name))]
        if ok: ctx.finding('route:%s' % en, 'expressions of type %s are evaluated by %s, which does what %s stands for' % (en, fn.name, '/'.join(ok)), fn.loc())


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P)
    ccs._W.update(prog=P, model=M)
    jobs = makers(P)
    made = {}
    for (f, args), r in zip(jobs, pmap(make, jobs)):
        for t, tab, k in r: made.setdefault((t, tab, k), set()).add(f.name)
    otypes = enumerators(P, 'ccs_object_type'); oname = {v: k for k, v in otypes.items()}
    bad = [x for x in made if x[0] is None or x[1] is None]
    made = {x: v for x, v in made.items() if x not in bad}
    ctx.cov['constructors_not_understood'] = sorted({n for x in bad for n in ()} | {str(x) for x in bad})[:10]
    ctx.count('constructors', len({f for fs in made.values() for f in fs})); ctx.need('constructors', 30)
    # which field is the sub kind: what the public getter hands out
    KD = {}
    for base in KIND_ENUMS:
        fam = base[4:-5]
        f = P.ext.get('ccs_%s_get_type' % fam)
        if f is None: continue
        ot = otypes.get(fam.upper())
        vs = getter(P, f)
        A0 = mk('arg', 0, f.args[0]['n'] or 'arg0')
        want = mk('ld', mk('ld', padd(A0, 48)))
        KD[base] = (ot, fam)
        ctx.count('obligations'); ctx.count('kind_getters')
        if vs and all(v.op == 'ld' and split_off(v.a[0])[0] is mk('ld', padd(A0, 48)) for v in vs) and want not in vs:
            ctx.finding('getter:%s' % fam, '%s hands out %s, not the kind its constructors record' % (f.name, '/'.join(show(v) for v in vs)), f.loc())
    f = P.ext.get('ccs_object_get_type')
    if f is not None:
        vs = getter(P, f); ctx.count('obligations')
        if vs and all(v.op == 'ld' for v in vs) and mk('ld', mk('arg', 0, f.args[0]['n'] or 'arg0')) not in vs:
            ctx.finding('getter:object', 'ccs_object_get_type hands out %s' % '/'.join(show(v) for v in vs), f.loc())
    ctx.need('kind_getters', 7)
    # every kind has a constructor, every table one kind
    for kn, kv in otypes.items():
        ctx.count('obligations')
        if any(j[0].name == 'ccs_create_' + kn.lower() for j in jobs) and not any(t == kv for t, _, _ in made): ctx.finding('kind:%s' % kn, 'no public constructor creates objects of kind %s' % kn, 'include/cconfigspace')
    for base, (ot, fam) in KD.items():
        for sn, sv in enumerators(P, base).items():
            ctx.count('obligations')
            if not any(t == ot and k == sv for t, _, k in made): ctx.finding('kind:%s:%s' % (fam, sn), 'no public constructor creates a %s of kind %s' % (fam, sn), 'include/cconfigspace')
    bytab = {}
    for (t, tab, k), fs in made.items():
        sub = any(ot == t for ot, _ in KD.values())
        bytab.setdefault(tab, set()).add((t, k if sub else None))
    for tab, ks in bytab.items():
        ctx.count('obligations'); ctx.count('operation_tables')
        if len({t for t, _ in ks}) > 1: ctx.finding('table:%s' % tab[1], 'the operations %s serve several kinds of object: %s' % (tab[1], sorted('%s/%s' % (oname.get(t, t), k) for t, k in ks)), 'src/%s' % P.globals[tab]['tu'])
    # the type a constructor records is the one of the handle it hands out
    for (t, tab, k), fs in made.items():
        for n in fs:
            f = P.ext[n]; h = re.match(r'ccs_(\w+)_t \*', f.args[-1]['dt']).group(1).upper()
            ctx.count('obligations')
            if h in otypes and otypes[h] != t: ctx.finding('ctor:%s' % n, '%s hands out a %s but records the kind %s' % (n, h, oname.get(t, t)), f.loc())
    # slot functions read the data their kind's constructor laid out
    bk = {}
    for (t, tab, k), fs in made.items():
        for n in fs: bk.setdefault(tab, set()).update(data_structs(P, P.ext[n]))
    for tab, ss in sorted(bk.items()):
        base = set()
        for s in ss: base |= set(first_members(P, s))
        if not base: continue
        g = P.globals.get(tab)
        for o, c in P.flat_init(g):
            if c.get('k') != 'fn': continue
            fn = P.resolve(g['tu'], c['v'])
            if fn is None: continue
            for s, i in own_data(fn).items():
                if s not in P.structs and '%' + s not in P.structs: continue
                ctx.count('obligations'); ctx.count('slot_data_accesses')
                if s not in base and s.endswith('data_s') and not any(s in first_members(P, b) for b in base):
                    ctx.finding('slot:%s:%s' % (tab[1], fn.name), '%s, an operation of %s, reads its object as %s; the constructor lays out %s' % (fn.name, tab[1], s, ', '.join(sorted(ss))[:120]), fn.loc(i))
    # operations that are absent are not called without looking
    nulls = {}
    for (t, n), g in P.globals.items():
        if 'ops' not in g['t']: continue
        for o, c in P.flat_init(g):
            if c.get('k') in ('null', 'zero'):
                for s, oo in M.inner(g['t'], o): nulls.setdefault((s.lstrip('%'), oo), []).append(n)
    ctx.cov['absent_operations'] = {str(k): v for k, v in list(nulls.items())[:10]}
    readers(ctx, P, M, made, KD)
    confusion(ctx, P, made, KD)
    expressions(ctx, P, M)
    tables(ctx, P)
    result_names(ctx, P)
    bindings(ctx, P, made, KD)
    ctx.need('obligations', 400); ctx.need('result_names', 30); ctx.need('binding_dispatch_entries', 40); ctx.need('operation_tables', 40)


if __name__ == '__main__':
    main('C15', check, 'the kinds declared in the headers are enumerated; for every public constructor the object type, operation table and sub kind it records are derived by dataflow, and every place that dispatches on a kind (operation tables, readers, kind tables, result names, class maps of the bindings) is required to have, for each kind, the entry that belongs to it',
         ['a binding class stands for the kind that the C constructors it calls create'])
