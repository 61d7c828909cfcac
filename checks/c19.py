import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import main, CheckError
from engine import *
import ccs
from ccs import Model, RAISE, ALLOC, pmap, slot_of

I64MIN = -(1 << 63)
ARITH = {'ADD': ('add', 'fadd'), 'SUBSTRACT': ('sub', 'fsub'), 'MULTIPLY': ('mul', 'fmul'), 'DIVIDE': ('sdiv', 'fdiv'), 'MODULO': ('srem', 'fmod')}
REL = {'LESS': 'l', 'GREATER': 'g', 'LESS_OR_EQUAL': 'le', 'GREATER_OR_EQUAL': 'ge', 'EQUAL': 'e', 'NOT_EQUAL': 'lgu'}
# outcomes of an unordered floating point comparison that the documentation leaves open
OPEN = {'LESS_OR_EQUAL': 'u', 'GREATER_OR_EQUAL': 'u'}
PRED = {'oeq': 'e', 'ogt': 'g', 'oge': 'ge', 'olt': 'l', 'ole': 'le', 'one': 'lg', 'ord': 'lge', 'ueq': 'eu', 'ugt': 'gu', 'uge': 'geu', 'ult': 'lu', 'ule': 'leu', 'une': 'lgu', 'uno': 'u', 'true': 'lgeu', 'false': ''}
FLIP = {'l': 'g', 'g': 'l', 'e': 'e', 'u': 'u'}
NUM = ('INT', 'FLOAT')


class Lay:
    def __init__(self, P):
        self.tags = {k[len('CCS_DATA_TYPE_'):]: v for k, v in P.enum('ccs_data_type_e', 'ccs_data_type_t').items() if k.startswith('CCS_DATA_TYPE_') and 'FORCE' not in k and not k.endswith('_MAX')}
        self.kinds = {k[len('CCS_PARAMETER_TYPE_'):]: v for k, v in P.enum('ccs_parameter_type_e', 'ccs_parameter_type_t').items() if k.startswith('CCS_PARAMETER_TYPE_') and 'FORCE' not in k and not k.endswith('_MAX')}
        self.types = {k[len('CCS_EXPRESSION_TYPE_'):]: v for k, v in P.enum('ccs_expression_type_e', 'ccs_expression_type_t').items() if k.startswith('CCS_EXPRESSION_TYPE_') and 'FORCE' not in k and not k.endswith('_MAX')}
        o = lambda s, n: next((m['o'] for m in (P.di.get('struct.' + s) or {'m': []})['m'] if m['n'] == n), None)
        self.val = o('ccs_datum_s', 'value'); self.tag = o('ccs_datum_s', 'type')
        self.data = o('_ccs_expression_s', 'data'); self.etype = o('_ccs_expression_data_s', 'type'); self.nodes = o('_ccs_expression_data_s', 'nodes'); self.nn = o('_ccs_expression_data_s', 'num_nodes')
        self.lit = o('_ccs_expression_literal_data_s', 'value'); self.par = o('_ccs_expression_variable_data_s', 'parameter')
        self.ops = o('_ccs_object_internal_s', 'ops'); self.ev = o('_ccs_expression_ops_s', 'eval')
        self.dsz = (P.di.get('struct.ccs_datum_s') or {}).get('size')
        miss = [k for k, v in self.__dict__.items() if v is None]
        if miss: raise CheckError('expression or value layout not found: %s' % miss)


def nv(k): return mk('arg', 100 + (k if isinstance(k, int) else 50), 'operand%s' % k)


class Ev(Client):
    """abstract evaluation of one `eval` operation: the operands' tags (and the kinds of the parameters they name) are
    fixed by the configuration, their payloads are unknowns"""
    max_depth = 6

    def __init__(self, P, M, L, cfg):
        self.p = P; self.m = M; self.L = L; self.cfg = cfg; self.outs = []; self.divs = {}; self.badmem = 0

    def init(self, eng, st): return {'fail': False, 'ev': frozenset(), 'chk': frozenset(), 'u': 0, 'idx': None, 'opaque': frozenset(), 'el': None}

    def key(self, st): return tuple(sorted(((k, v) for k, v in st.cl.items()), key=lambda x: x[0])) + (st.facts.key(),)

    def inline(self, eng, st, fn, args, inst):
        return fn.internal or fn.name in ('ccs_expression_get_type', 'ccs_expression_get_num_nodes')

    def node(self, t):
        """index of the operand that node term t is (None: not an operand)"""
        if t.op != 'ld': return None
        b, o = split_off(t.a[0])
        x = b.a[0] if b.op == '[]' else b
        if x.op == 'ld' and x.a[0] is padd(mk('arg', 0, self.argn), self.L.nodes) and x is not t:
            return 'i' if b.op == '[]' else o // 8
        return None

    def put(self, eng, s, at, tag, val):
        eng.store(s, padd(at, self.L.val), val, 8)
        eng.store(s, padd(at, self.L.tag), C(self.L.tags[tag]), 4)
        eng.store(s, padd(at, self.L.tag + 4), mk('arg', 199, 'flags'), 4)

    def on_call(self, eng, st, i, name, callee, args):
        nm = name if isinstance(name, str) else None
        if nm in RAISE: return [(C(-1) if i.ty else None, None)]
        site = st.fr.ctx + ((st.fr.fn.name, i.id, st.cnt.get((st.fr.ctx, st.fr.fn.name, i.id), 0)),)
        cl = st.cl = dict(st.cl)
        r = mk('ret', nm or 'ind', site)

        def failed(s):
            s.cl = dict(s.cl); s.cl['fail'] = True
            return s.facts.learn(tcmp('lt', r, ZERO), True)

        def good(s): return s.facts.learn(tcmp('lt', r, ZERO), False)
        # evaluation of an operand
        k = None; out = None
        if nm == 'ccs_expression_eval' and len(args) == 4: k = self.node(args[0]); out = args[3]
        elif nm == 'ccs_expression_list_eval_node' and len(args) == 5:
            if self.node(args[0]) is not None: k = 'e'; out = args[4]
        elif nm is None and callee is None:
            sl = slot_of(self.p, st.fr.fn, i)
            if sl and self.m.slot_name(sl) == 'eval' and len(args) == 4 and args[0].op == 'ld':
                b, o = split_off(args[0].a[0])
                if o == self.L.data: k = self.node(b); out = args[3]
        if out is not None:
            if k is None or k == 'i':
                cl['opaque'] = cl['opaque'] | {'an operand that is not one of the nodes'}
                k = k or 'x'
            kk = k if k in (0, 1) else 'e'
            tag = self.cfg['tags'].get(kk)
            if tag is None: tag = self.cfg['tags'][0]

            def evd(s):
                if not good(s): return False
                s.cl = dict(s.cl); s.cl['ev'] = s.cl['ev'] | {k}
                v = nv(k)
                if k == 'e':
                    s.facts.purge(lambda t: t is v)
                    s.cl['el'] = 'last'
                self.put(eng, s, out, tag, v)
            return [(r, failed), (r, evd)]
        if nm == 'ccs_parameter_get_type' and len(args) == 2:
            kd = self.kind_of(args[0])

            def kt(s):
                if not good(s): return False
                eng.store(s, args[1], C(self.L.kinds[kd]) if kd else mk('out', nm, site, 1, 0), 4)
            return [(r, failed), (r, kt)]
        if nm == 'ccs_parameter_check_value' and len(args) == 4:
            def val(b):
                def f(s):
                    if not good(s): return False
                    s.cl = dict(s.cl)
                    if b: s.cl['chk'] = s.cl['chk'] | {(self.parnode(args[0]), args[1])}
                    eng.store(s, args[3], C(b), 4)
                return f
            return [(r, failed), (r, val(1)), (r, val(0))]
        if nm == 'ccs_ordinal_parameter_compare_values' and len(args) == 6:
            pn = self.parnode(args[0])

            def oc(s):
                if not good(s): return False
                eng.store(s, args[5], mk('ocmp', args[1], args[3]), 8)
                s.cl = dict(s.cl); s.cl['chk'] = s.cl['chk'] | {(pn, args[1]), (pn, args[3])}
            return [(r, failed), (r, oc)]
        if nm == 'ccs_context_get_parameter_index' and len(args) == 3:
            ix = mk('arg', 180, 'index_of_parameter')

            def gi(s):
                if not good(s): return False
                s.cl = dict(s.cl); s.cl['idx'] = (args[0], args[1])
                eng.store(s, args[2], ix, 8)
            return [(r, failed), (r, gi)]
        if nm == 'memcmp' and st.facts.const(args[2]) == 8:
            x, y = eng.load(st, args[0], 8), eng.load(st, args[1], 8)

            def same(b):
                def f(s): return s.facts.learn(tcmp('eq', x, y), b) and s.facts.learn(tcmp('eq', r, ZERO), b)
                return f
            return [(r, same(True)), (r, same(False))]
        if nm == 'strcmp':
            return [(mk('scmp', args[0], args[1]), None)]
        if nm in ('fmod',):
            return [(mk('call', 'fmod', tuple(args)), None)]
        if nm in ('isnan', 'isinf', '__isnan', 'isfinite'): return [(mk('call', nm, tuple(args)), None)]
        return None

    def parnode(self, t):
        """operand whose parameter term t is"""
        if t.op != 'ld': return None
        b, o = split_off(t.a[0])
        if o != self.L.par or b.op != 'ld': return None
        n, o2 = split_off(b.a[0])
        return self.node(n) if o2 == self.L.data else None

    def kind_of(self, t):
        return self.cfg['kinds'].get(self.parnode(t))

    def on_div(self, eng, st, inst, op, a, b):
        f = st.facts; bad = None
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if f.ev(tcmp('eq', b, ZERO)) is not False: bad = 'the divisor may be zero'
            elif op[0] == 's':
                cb = f.const(b); lo, hi = f.bounds(b)
                m1 = cb == -1 or (cb is None and -1 not in f.ne.get(b, ()) and not (lo is not None and lo > -1) and not (hi is not None and hi < -1))
                ca = f.const(a); la, _ = f.bounds(a)
                mn = ca == I64MIN or (ca is None and I64MIN not in f.ne.get(a, ()) and not (la is not None and la > I64MIN))
                if m1 and mn: bad = 'the smallest integer may be divided by -1'
        k = (inst.id, st.fr.fn.name)
        if bad or k not in self.divs: self.divs[k] = (bad, inst.line, st.fr.fn.file)

    def on_ret(self, eng, st, inst, val):
        f = st.facts
        neg = f.ev(tcmp('lt', val, ZERO)) if val is not None else None
        if val is not None and val.op == 'ret': pass
        res = mk('arg', 3, self.resn)
        ty = eng.load(st, padd(res, self.L.tag), 4); pv = eng.load(st, padd(res, self.L.val), 8)
        self.outs.append((neg, st.cl, ty, pv, f.copy(), inst.line))


def rel_set(f, x, y, fp):
    """possible orderings of x and y that the path's conditions leave: subset of 'lgeu'; second: were conditions over
    them met that are not understood?"""
    s = set('lgeu' if fp else 'lge'); odd = False
    if not fp:
        e = f.ev(tcmp('eq', x, y))
        if e is True: s &= {'e'}
        elif e is False: s -= {'e'}
        for p, fl in ((f.ev(tcmp('lt', x, y)), 'l'), (f.ev(tcmp('lt', y, x)), 'g')):
            if p is True: s &= {fl}
            elif p is False: s -= {fl}
    else:
        e = f.ev(tcmp('eq', x, y))
        if e is True: s &= {'e'}
        elif e is False: s -= {'e'}          # compared bit by bit
    oc = []
    for d in (f.iv, f.ne):
        for t in d:
            if t.op == 'fcmp':
                v = f.ev(t)
                if v is None: continue
                p = set(PRED[t.a[0]])
                if (t.a[1], t.a[2]) == (y, x): p = {FLIP[c] for c in p}
                elif (t.a[1], t.a[2]) != (x, y): continue
                s &= p if v else set('lgeu') - p
            elif t.op in ('scmp', 'ocmp'):
                xx, yy = t.a
                if {xx, yy} != {x, y}: continue
                lo, hi = f.bounds(t); q = set('lge')
                if f.ev(tcmp('eq', t, ZERO)) is True: q = {'e'}
                else:
                    if f.ev(tcmp('eq', t, ZERO)) is False: q -= {'e'}
                    lt = f.ev(tcmp('lt', t, ZERO)); gt = f.ev(tcmp('lt', ZERO, t))
                    if lt is None: lt = hi is not None and hi < 0 or (False if lo is not None and lo >= 0 else None)
                    if gt is None: gt = (lo is not None and lo > 0) or (False if hi is not None and hi <= 0 else None)
                    if lt is True: q &= {'l'}
                    elif lt is False: q -= {'l'}
                    if gt is True: q &= {'g'}
                    elif gt is False: q -= {'g'}
                if xx is y: q = {FLIP[c] for c in q}
                oc.append(q)
    for q in oc: s &= q
    return s


def odd_facts(f, vs):
    """conditions over the operands in a form this analysis does not interpret"""
    ok = {'cmp', 'not', 'c', 'arg', 'fcmp', 'sitofp', 'scmp', 'ocmp', 'f', '+'}
    for d in (f.iv, f.ne, f.rel):
        for t in d:
            ss = subterms(t)
            if any(v in ss for v in vs) and not all(x.op in ok or (x.op == 'bin' and x.a[0] == 'sub' and all(y.op == 'arg' for y in x.a[1:])) or (x.op == 'fptosi' and alone(f, x.a[0])) for x in ss): return True
    return False


def alone(f, x):
    """nothing else is known about the floating point operand that was converted to an integer"""
    return x.op == 'arg' and not any(t.op == 'fcmp' and x in t.a for d in (f.iv, f.ne) for t in d)


def fzero(t): return t.op == 'c' and t.a[0] == 0 or (t.op == 'f' and float(t.a[0]) == 0)


def simp(op, a, b):
    if isc(b):
        c = b.a[0]
        if op == 'srem' and c in (1, -1): return ZERO
        if op == 'sdiv' and c == 1: return a
        if op == 'sdiv' and c == -1: return tbin('sub', ZERO, a)
    return tbin(op, a, b)


def pin(f, t):
    c = f.const(t)
    return t if c is None else C(c)


def repin(f, t):
    if t.op == 'arg':
        return pin(f, t)
    if t.op == 'bin' and t.a[0] in ('add', 'sub', 'mul', 'sdiv', 'srem'): return simp(t.a[0], repin(f, t.a[1]), repin(f, t.a[2]))
    if t.op == '+': return padd(repin(f, t.a[0]), t.a[1])
    return t


PURE = {'bin', 'c', 'arg', 'sitofp', 'fneg', 'f', '+', 'call', 'uitofp', 'fptosi', 'cmp', 'fcmp', 'not', 'trunc'}


def leaves(f, pv, n=0):
    """(value, facts) alternatives of a value that selects"""
    if pv.op == 'sel' and n < 4:
        for c, v in ((True, pv.a[1]), (False, pv.a[2])):
            g = f.copy()
            if g.learn(pv.a[0], c): yield from leaves(g, v, n + 1)
    elif pv.op in ('cmp', 'fcmp', 'not') and n < 4:
        for c in (True, False):
            g = f.copy()
            if g.learn(pv, c): yield C(int(c)), g
    else: yield pv, f


def judge(L, op, cfg, o):
    """None: conforms; a string: what is wrong; False: not decided"""
    neg, cl, ty, pv, f, line = o
    if neg is True: return None
    if neg is None and f.ev(tcmp('ge', mk('c', 0), ZERO)) is None: return False
    if cl['fail']: return 'succeeds although an operand could not be evaluated'
    if cl['opaque']: return False
    # operands gathered in a loop: the number of iterations is not tracked
    if op != 'IN' and any(x.op in ('lv', 'lvm') for d in (f.iv, f.ne, f.rel) for t in d for x in subterms(t)): return False
    T = cfg['tags']; ev = cl['ev']
    tc = f.const(ty)
    used = [T.get(k if k in (0, 1) else 'e', T[0]) for k in ev]
    if op == 'LIST': return 'yields a value for a list'
    if tc is None:
        if ty.op == 'ld' and root_of(ty.a[0]).op == 'arg' and root_of(ty.a[0]).a[0] == 3: return 'succeeds without setting the result'
        if ty.op == 'uninit': return 'yields a value that was never computed'
        return False
    tn = {v: k for k, v in L.tags.items()}.get(tc, '?')
    v0, v1 = nv(0), nv(1)
    inact = [k for k in (0, 1) if k in ev and T.get(k) == 'INACTIVE']
    # every operand of the operator has to be looked at, unless one alone decides
    ar = cfg['arity']
    if ar and not inact and op not in ('AND', 'OR', 'IN'):
        if any(k not in ev for k in range(ar)): return 'does not evaluate operand %d' % [k for k in range(ar) if k not in ev][0]
    if inact:
        if tn == 'INACTIVE': return None
        if op == 'OR':
            other = 1 - inact[0]
            if tn == 'BOOL' and other in ev and T.get(other) == 'BOOL':
                for v, g in leaves(f, pv):
                    if g.const(v) != 1 or g.ev(tcmp('ne', nv(other), ZERO)) is not True: return 'yields a value from an inactive operand'
                return None
        return 'yields a value (%s) although operand %d is inactive' % (tn, inact[0])
    if tn == 'INACTIVE':
        if op == 'IN' and (T.get('e') == 'INACTIVE'): return None
        return 'yields inactive although no evaluated operand is'
    if op in ARITH or op in ('POSITIVE', 'NEGATIVE'):
        tg = [T[k] for k in range(ar)]
        if any(t not in NUM for t in tg): return 'computes with operand types %s' % '/'.join(tg)
        allint = all(t == 'INT' for t in tg)
        if tn != ('INT' if allint else 'FLOAT'): return 'yields a %s from %s' % (tn, '/'.join(tg))
        x = [nv(k) if (allint or tg[k] == 'FLOAT') else mk('sitofp', nv(k)) for k in range(ar)]
        for v, g in leaves(f, pv):
            if op == 'POSITIVE': exp = {x[0]}
            elif op == 'NEGATIVE': exp = {tbin('sub', ZERO, x[0]), tbin('mul', x[0], C(-1))} if allint else {mk('fneg', x[0]), mk('bin', 'fmul', x[0], mk('f', '-1'))}
            elif allint:
                exp = {simp(ARITH[op][0], x[0], x[1])}
                if op in ('ADD', 'MULTIPLY'): exp |= {mk('bin', ARITH[op][0], x[1], x[0]), mk('bin', ARITH[op][0], x[0], x[1])}
            elif op == 'MODULO': exp = {mk('call', 'fmod', (x[0], x[1])), mk('bin', 'frem', x[0], x[1])}
            else:
                exp = {mk('bin', ARITH[op][1], x[0], x[1])}
                if op in ('ADD', 'MULTIPLY'): exp.add(mk('bin', ARITH[op][1], x[1], x[0]))
                if op == 'SUBSTRACT': exp.add(mk('bin', 'fadd', x[0], mk('fneg', x[1])))
            if v in exp: continue
            if allint:
                if repin(g, v) in {repin(g, e) for e in exp}: continue
            if any(g.const(nv(k)) is not None for k in range(ar)): return False
            if all(t.op in PURE for t in subterms(v)) and not odd_facts(g, [v0, v1]): return 'yields %s instead of %s' % (show(v), show(sorted(exp, key=lambda t: t.n)[0]))
            return False
        return None
    if op in ('AND', 'OR', 'NOT'):
        for k in range(ar):
            if k in ev and T[k] != 'BOOL': return 'takes a %s for a truth value' % T[k]
        if tn != 'BOOL': return 'yields a %s' % tn
        for v, g in leaves(f, pv):
            c = g.const(v)
            if c is None: return False
            b = [g.ev(tcmp('ne', nv(k), ZERO)) if k in ev else None for k in range(ar)]
            if op == 'NOT': w = None if b[0] is None else not b[0]
            elif op == 'AND': w = False if False in b else (True if b == [True, True] else None)
            else: w = True if True in b else (False if b == [False, False] else None)
            if c not in (0, 1): return 'yields the truth value %s' % c
            if w is None:
                if odd_facts(g, [v0, v1]): return False
                return 'yields %s without knowing the operands' % bool(c)
            if bool(c) != w: return 'yields %s for %s' % (bool(c), b)
        return None
    if op in REL or op == 'IN':
        if tn != 'BOOL': return 'yields a %s' % tn
        a, b = T[0], T[1] if op in REL else T['e']
        y1 = v1 if op in REL else nv('e')
        # the value compared with a parameter of limited domain has to be in that domain
        for k, other in ((0, y1), (1, v0)):
            if op == 'IN' and (k == 1 or cl['el'] is None): continue
            if cfg['kinds'].get(k) in ('CATEGORICAL', 'ORDINAL') and (k, other) not in cl['chk']:
                return 'compares a value with a %s parameter without checking that it is one of its values' % cfg['kinds'][k].lower()
        if any(x in ('CATEGORICAL',) for x in cfg['kinds'].values()) and op in ('LESS', 'GREATER', 'LESS_OR_EQUAL', 'GREATER_OR_EQUAL'):
            return 'orders the values of a categorical parameter'
        order = op not in ('EQUAL', 'NOT_EQUAL', 'IN')
        ordinal = 'ORDINAL' in cfg['kinds'].values()
        comparable = (a in NUM and b in NUM) or (a == b == 'STRING') or (not order and a == b)
        if op == 'IN' and cl['el'] is None: comparable = True
        fp = 'FLOAT' in (a, b) and a in NUM and b in NUM
        if order and not ordinal and not comparable: return 'orders a %s and a %s' % (a, b)
        for v, g in leaves(f, pv):
            c = g.const(v)
            if c is None: return False
            if c not in (0, 1): return 'yields the truth value %s' % c
            if op == 'IN' and cl['el'] is None:
                if c: return 'finds a value in a list without looking at its elements'
                continue
            if not comparable and not (ordinal and order):
                # equality of values of different types: never equal
                if bool(c) != (op == 'NOT_EQUAL'): return 'a %s and a %s are taken to be equal' % (a, b)
                continue
            if ordinal and order: x, y, ffp = v0, y1, False
            else:
                x = mk('sitofp', v0) if fp and a == 'INT' else v0
                y = mk('sitofp', y1) if fp and b == 'INT' else y1
                ffp = fp
            if ordinal and order and not any(t.op == 'ocmp' and set(t.a) == {x, y} for d in (g.iv, g.ne) for t in d):
                if odd_facts(g, [v0, y1]): return False
                return 'orders the values of an ordinal parameter by something else than the order of its values'
            if a == 'NONE' == b: s = {'e'}
            else: s = rel_set(g, x, y, ffp)
            if a == b == 'STRING' and not ordinal:
                # a missing string differs from (and sorts before) every other
                e = g.ev(tcmp('eq', x, y))
                if e is False:
                    s = {'l', 'g', 'e'}
                    if g.const(x) == 0: s = {'l'}
                    elif g.const(y) == 0: s = {'g'}
                    else: s = rel_set_only_cmp(g, x, y)
            if not s: continue
            tset = set(REL['EQUAL' if op == 'IN' else op]); opn = set(OPEN.get(op, ''))
            if op == 'IN' and not c:
                # the element looked at last was different
                if s == {'e'}: return 'yields false although an element is equal'
                continue
            wrong = (s - tset - opn) if c else (s & tset) - opn
            if wrong:
                if odd_facts(g, [v0, y1]): return False
                return 'yields %s although the operands may compare as %s' % (bool(c), '/'.join({'l': 'less', 'g': 'greater', 'e': 'equal', 'u': 'unordered'}[w] for w in sorted(wrong)))
        return None
    return False


def rel_set_only_cmp(g, x, y):
    h = Facts(); h.iv = g.iv; h.ne = g.ne
    return rel_set(h, x, y, False)


def creators(P, L):
    """operation table that the constructors give each expression type"""
    out = {}

    class K(Client):
        max_depth = 5

        def inline(self, eng, st, fn, args, inst): return fn.internal

        def on_call(self, eng, st, i, name, callee, args):
            nm = name if isinstance(name, str) else None
            if nm in RAISE: return [(C(-1) if i.ty else None, None)]
            if nm in ALLOC:
                h = mk('heap', st.fr.ctx + ((st.fr.fn.name, i.id),), nm)
                return [(h, lambda s: s.facts.learn(tcmp('ne', h, ZERO), True))]
            return None

        def on_ret(self, eng, st, inst, val):
            if st.facts.ev(tcmp('lt', val, ZERO)) is True: return
            o = eng.load(st, mk('arg', self.k, self.n), 8)
            t = eng.load(st, padd(o, L.ops), 8)
            if t.op == 'g': self.got.add(t)
    for en, v in sorted(L.types.items(), key=lambda x: x[1]):
        fn = {'LITERAL': 'ccs_create_literal', 'VARIABLE': 'ccs_create_variable'}.get(en, 'ccs_create_expression')
        f = P.ext.get(fn)
        if f is None: raise CheckError('%s not found' % fn)
        c = K(); c.got = set(); c.k = len(f.args) - 1; c.n = f.args[-1]['n'] or 'arg%d' % c.k
        args = None
        if fn == 'ccs_create_expression':
            args = [mk('arg', i, a['n'] or 'arg%d' % i) for i, a in enumerate(f.args)]; args[0] = C(v)
        Engine(P, c, max_steps=200000, max_states=20000).run(f, args)
        out[en] = c.got
    return out


def table_fn(P, t, off):
    g = P.globals.get((t.a[0], t.a[1]))
    for o, c in P.flat_init(g):
        if o == off and c.get('k') == 'fn': return P.resolve(g['tu'], c['v'])
    return None


def configs(L, op, ar):
    ts = list(L.tags)
    if op in ('LITERAL', 'VARIABLE'): return [dict(tags={0: 'INT'}, kinds={}, arity=0)]
    if op == 'LIST': return [dict(tags={0: 'INT', 1: 'INT', 'e': 'INT'}, kinds={}, arity=0)]
    if ar == 1: return [dict(tags={0: a}, kinds={}, arity=1) for a in ts]
    out = []
    for a in ts:
        for b in ts:
            base = {0: a, 1: b, 'e': b} if op != 'IN' else {0: a, 1: 'NONE', 'e': b}
            out.append(dict(tags=base, kinds={}, arity=2))
            if (op in REL or op == 'IN') and a in ('INT', 'STRING', 'INACTIVE') and b in ('INT', 'STRING', 'INACTIVE'):
                for kd in ('CATEGORICAL', 'ORDINAL'):
                    if kd not in L.kinds: continue
                    out.append(dict(tags=base, kinds={0: kd}, arity=2))
                    if op != 'IN': out += [dict(tags=base, kinds={1: kd}, arity=2), dict(tags=base, kinds={0: kd, 1: kd}, arity=2)]
    return out


def evaluate(job):
    op, fn, cfg = job
    P, M, L = ccs._W['prog'], ccs._W['model'], ccs._W['lay']
    c = Ev(P, M, L, cfg)
    c.argn = fn.args[0]['n'] or 'arg0'; c.resn = fn.args[3]['n'] or 'arg3'
    e = Engine(P, c, max_steps=60000, max_states=6000)
    nodes = mk('ld', padd(mk('arg', 0, c.argn), L.nodes))

    def setup(st):
        for k in range(2):
            nt = mk('ld', padd(mk('ld', padd(mk('ld', padd(nodes, 8 * k)), L.data)), L.etype))
            if op == 'IN' and k == 1: st.facts.learn(tcmp('eq', nt, C(L.types['LIST'])), True)
            else: st.facts.learn(tcmp('eq', nt, C(L.types['VARIABLE'])), k in cfg['kinds'])
    e.run(fn, None, setup)
    res = []; succ = set(); und = 0
    for o in c.outs:
        if op in ('LITERAL', 'VARIABLE'): j = leaf(L, op, c, o)
        else: j = judge(L, op, cfg, o)
        if j is False: und += 1
        elif j: res.append((j, o[5]))
        if o[0] is not True:
            tc = o[4].const(o[2])
            for v, g in leaves(o[4], o[3]): succ.add((tc, g.const(v)))
    return res, sorted(succ, key=str), und, len(c.outs), dict(c.divs), bool(e.incomplete)


def leaf(L, op, c, o):
    neg, cl, ty, pv, f, line = o
    if neg is True: return None
    if cl['fail']: return 'succeeds although the parameter was not found'
    d = mk('arg', 0, c.argn)
    if op == 'LITERAL':
        if ty is mk('ld', padd(d, L.lit + L.tag)) and pv is mk('ld', padd(d, L.lit + L.val)): return None
        if root_of(ty.a[0] if ty.op == 'ld' else ty).op == 'arg' and root_of(ty.a[0] if ty.op == 'ld' else ty).a[0] == 3: return 'succeeds without setting the result'
        return False if not (ty.op == 'ld' and pv.op == 'ld') else 'does not yield the literal'
    if cl['idx'] is None: return False if not (ty.op == 'c') else 'yields a constant'
    if cl['idx'][1] is not mk('ld', padd(d, L.par)): return 'looks up another parameter'
    ix = mk('arg', 180, 'index_of_parameter')
    vals = mk('arg', 2, 'values')
    t = pv.a[0] if pv.op == 'ld' else None
    if t is None: return False
    b, o_ = split_off(t)
    if b.op == '[]' and b.a[1] is ix and b.a[2] == L.dsz and o_ == L.val and root_of(b).op == 'arg' and root_of(b).a[0] == 2: return None
    return 'yields %s, not the value at the index of its parameter' % show(pv)


def expected(L, op, cfg):
    """outcomes (tag, payload or None for any) that have to be reachable"""
    T = cfg['tags']; ar = cfg['arity']
    if cfg['kinds']: return []
    tg = [T[k] for k in range(ar)]
    if op in ARITH or op in ('POSITIVE', 'NEGATIVE'):
        if all(t in NUM for t in tg): return [(L.tags['INT' if all(t == 'INT' for t in tg) else 'FLOAT'], None)]
    if op in ('AND', 'OR', 'NOT') and all(t == 'BOOL' for t in tg): return [(L.tags['BOOL'], 0), (L.tags['BOOL'], 1)]
    if op in REL and all(t in NUM for t in tg): return [(L.tags['BOOL'], 0), (L.tags['BOOL'], 1)]
    if op in REL and tg == ['STRING', 'STRING']: return [(L.tags['BOOL'], 0), (L.tags['BOOL'], 1)]
    if op == 'IN' and T[0] == T['e'] and T[0] in ('INT', 'STRING'): return [(L.tags['BOOL'], 0), (L.tags['BOOL'], 1)]
    return []


def entry(ctx, P, M, L):
    """the public entry points hand the node's own data, the context, the values and the result to its `eval`"""
    for fname in ('ccs_expression_eval', 'ccs_expression_list_eval_node'):
        f = P.ext.get(fname)
        if f is None: raise CheckError('%s not found' % fname)

        class X(Client):
            max_depth = 4

            def init(self, eng, st): return {'n': None}

            def key(self, st): return (st.cl['n'],)

            def inline(self, eng, st, fn, args, inst): return fn.internal or fn.name == 'ccs_expression_eval'

            def on_call(self, eng, st, i, name, callee, args):
                if name in RAISE if isinstance(name, str) else False: return [(C(-1) if i.ty else None, None)]
                if callee is None and not isinstance(name, str) and len(args) == 4:
                    r = mk('ret', 'eval', (st.fr.fn.name, i.id))

                    def ok(s):
                        s.cl = {'n': (name, tuple(args))}
                        if root_of(args[3]).op == 'alloca':
                            eng.store(s, padd(args[3], L.val), mk('arg', 150, 'v'), 8); eng.store(s, padd(args[3], L.tag), mk('arg', 151, 't'), 4); eng.store(s, padd(args[3], L.tag + 4), mk('arg', 152, 'fl'), 4)
                        return s.facts.learn(tcmp('lt', r, ZERO), False)
                    return [(r, ok), (r, lambda s: s.facts.learn(tcmp('lt', r, ZERO), True))]
                return None

            def on_ret(self, eng, st, inst, val):
                if st.facts.ev(tcmp('lt', val, ZERO)) is True: return
                res = mk('arg', len(f.args) - 1, f.args[-1]['n'])
                self.rets.append((st.cl['n'], eng.load(st, padd(res, L.val), 8), st.facts.copy(), inst.line))
        c = X(); c.rets = []
        Engine(P, c, max_steps=60000, max_states=4000).run(f)
        if not c.rets: ctx.finding('%s:never' % fname, 'never succeeds', f.loc())
        for n, pv, fa, line in c.rets:
            ctx.count('obligations')
            A = [mk('arg', i, a['n']) for i, a in enumerate(f.args)]
            bad = None
            if n is None: bad = 'succeeds without evaluating the expression'
            else:
                nm, args = n
                node = A[0]
                if fname.endswith('_node'):
                    ix = next((A[i] for i, a in enumerate(f.args) if 'size_t' in a['dt']), None)
                    dat = mk('ld', padd(A[0], L.data))
                    node = mk('ld', pidx(mk('ld', padd(dat, L.nodes)), ix, 8))
                    if fa.ev(tcmp('lt', ix, mk('ld', padd(dat, L.nn)))) is not True: bad = 'evaluates an element whose index was not checked against the number of elements'
                    res = args[3]
                    if not bad and res is not A[-1] and pv is not mk('arg', 150, 'v'): bad = 'does not hand out what the element evaluated to'
                elif args[3] is not A[-1]: bad = None if pv is mk('arg', 150, 'v') else 'does not hand out what the expression evaluated to'
                if not bad and args[0] is not mk('ld', padd(node, L.data)): bad = 'evaluates %s' % show(args[0])
                if not bad and (args[1] is not A[1] or args[2] is not A[2]): bad = 'does not pass on the context and the values it was given'
            if bad: ctx.finding('%s:%s' % (fname, bad.split(' ')[0]), bad, '%s:%d (%s)' % (f.file, line, f.name))


def check(ctx):
    P = ccs.load(ctx.repo); M = Model(P); L = Lay(P)
    ccs._W.update(prog=P, model=M, lay=L)
    tabs = creators(P, L)
    ar = {}
    g = P.glob('', 'ccs_expression_arity')
    arity = {o // 4: c.get('v') for o, c in P.flat_init(g) if c.get('k') == 'i'} if g else {}
    jobs = []; fns = {}
    for en, v in L.types.items():
        ts = tabs.get(en) or set()
        if len(ts) != 1: raise CheckError('operation table of expression type %s not determined' % en)
        fn = table_fn(P, next(iter(ts)), L.ev)
        if fn is None:
            ctx.finding('%s:noeval' % en, 'the operations of expression type %s have no eval' % en, ''); continue
        fns[en] = fn
        n = 1 if en in ('POSITIVE', 'NEGATIVE', 'NOT') else 2
        for c in configs(L, en, n): jobs.append((en, fn, c))
    res = pmap(evaluate, jobs)
    reach = {}; und = inc = 0
    for (en, fn, cfg), (bad, succ, un, n, divs, incomplete) in zip(jobs, res):
        ctx.count('obligations', n); und += un; inc += incomplete
        ctx.count('operand_combinations')
        T = '/'.join(cfg['tags'][k] for k in ((0, 'e') if en == 'IN' else range(cfg['arity'])) if k in cfg['tags'])
        for msg, line in bad:
            ctx.finding('%s:%s:%s' % (en, fn.name, msg.split(' ')[0] + ('' if len(msg.split(' ')) < 2 else '-' + msg.split(' ')[1])), 'evaluating %s on %s%s: %s' % (en, T, ' (%s)' % ', '.join(x.lower() + ' parameter' for x in cfg['kinds'].values()) if cfg['kinds'] else '', msg), '%s:%d (%s)' % (fn.file, line, fn.name))
        for (iid, fname), (why, line, file) in divs.items():
            ctx.count('divisions')
            if why: ctx.finding('%s:%s:trap' % (en, fname), 'evaluating %s divides integers where %s: the division traps' % (en, why), '%s:%d (%s)' % (file, line, fname))
        if not un and not incomplete and not any(s[1] is None and s[0] == L.tags['BOOL'] for s in succ):
            for t, v in expected(L, en, cfg):
                if not any(s[0] == t and (v is None or s[1] == v) for s in succ):
                    ctx.finding('%s:%s:unreached' % (en, fn.name), 'evaluating %s on %s never yields %s' % (en, T, 'a value' if v is None else bool(v)), fn.loc())
    entry(ctx, P, M, L)
    ctx.count('operators', len(fns)); ctx.need('operators', 20); ctx.need('operand_combinations', 500); ctx.need('obligations', 1000)
    ctx.cov['undecided_returns'] = und; ctx.cov['incomplete_runs'] = inc
    for en, fn in sorted(fns.items()): ctx.sample('%s: %s' % (en, fn.name), 24)


if __name__ == '__main__':
    main('C19', check, 'for every expression type the evaluation operation that its constructor installs is analysed by a path-sensitive dataflow analysis once per combination of operand type tags (and of categorical/ordinal parameter operands), with the payloads unknown; '
         'at every successful return the result tag and payload term are compared with the operator the type names, inactive or failed operands must not contribute, and every integer division must exclude a zero divisor and the smallest integer divided by -1',
         ['what an operand node evaluates to is unconstrained apart from its tag', 'the outcome of <= and >= on unordered floating point operands is left open'])
