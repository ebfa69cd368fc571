"""P23: zero entries contribute zero to every entropy."""
import math
from sa.interp import NONE, C, is_c, contains
from sa.loader import AnalysisError
from .hier import Model, SELF
from .p_hier import flat, exc_name
from .p_trav import concrete
from . import worklist as W

PAIRS = (('entropy_vector', 'entropy', 2), ('entropy_projected_vector', 'entropy_projected', 1))
LOGS = {'log2': 1, 'log': 2, 'log10': 3}
INF = math.inf


class Unknown(Exception):
    pass


class Poly:
    """Laurent polynomial in x > 0, l = log2 x and k = ln 2 (and ln 10 as t)"""
    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v != 0}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __mul__(self, o):
        d = {}
        for a, v in self.d.items():
            for b, w in o.d.items():
                k = tuple(x + y for x, y in zip(a, b))
                d[k] = d.get(k, 0) + v * w
        return Poly(d)

    def inv(self):
        if len(self.d) != 1:
            raise Unknown('quotient')
        (k, v), = self.d.items()
        return Poly({tuple(-x for x in k): 1.0 / v})

    def const(self):
        return self.d.get((0, 0, 0, 0), 0) if all(k == (0, 0, 0, 0) for k in self.d) else None

    def __eq__(self, o):
        return isinstance(o, Poly) and set(self.d) == set(o.d) and all(abs(self.d[k] - o.d[k]) < 1e-12 for k in self.d)

    def __repr__(self):
        names = ('x', 'log2(x)', 'ln2', 'ln10')
        return ' + '.join(f"{v:g}" + ''.join(f"*{n}^{e}" if e != 1 else f"*{n}" for n, e in zip(names, k) if e) for k, v in
                          sorted(self.d.items())) or '0'


def K(v):
    return Poly({(0, 0, 0, 0): v})


X, L, LN2, LN10 = (Poly({tuple(1 if j == i else 0 for j in range(4)): 1}) for i in range(4))
ABSENT = 'absent'
GOAL = Poly({(1, 1, 0, 0): -1})


def name(f):
    if isinstance(f, str):
        return f
    if f[0] == 'ext':
        return f[1]
    return None


def canon(t):
    """calls without their occurrence"""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if t[:1] == ('call',) and len(t) > 4:
        return t[:4]
    if t[:1] == ('item',) and len(t) > 3:
        return t[:3]
    return t


class Point:
    """Value of a term for one kind of entry: zero (extended reals) or a positive number (polynomials)"""
    def __init__(self, st, zero, vec=None):
        self.zero, self.st, self.vec = zero, st, vec
        self.leaves = set()
        self.sets = [e for e in st.events if e[0] == 'setitem']
        if any(e[0] == 'loop' for e in st.events):
            raise Unknown('a loop')
        self.busy = set()

    def leaf(self, t):
        self.leaves.add(t)
        return 0.0 if self.zero else X

    def num(self, v):
        return float(v) if self.zero else K(float(v))

    def ev(self, t):
        v = self.ev0(t)
        c = canon(t)
        if c in self.busy:
            return v
        self.busy.add(c)
        for e in self.sets:
            if canon(e[1]) == c:
                hit = self.truth(e[2])
                if hit:
                    v = self.ev(e[3])
        self.busy.discard(c)
        return v

    def ev0(self, t):
        if t == self.vec:
            raise Unknown('the vector')
        if t[0] == 'c':
            if isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
                return self.num(t[2])
            raise Unknown(repr(t))
        if t[0] == 'ext' and t[1] in ('numpy.nan', 'math.nan', 'numpy.inf', 'math.inf', 'numpy.pi', 'math.e'):
            return self.num({'nan': math.nan, 'inf': INF, 'pi': math.pi, 'e': math.e}[t[1].split('.')[1]])
        if t[0] == 'b':
            return self.num(1 if self.truth(t) else 0)
        if t[0] == 'op':
            if len(t) == 3 and t[1] in ('neg', '-'):
                return self.bin('*', self.num(-1), self.ev(t[2]))
            if len(t) == 4 and t[1] in ('+', '-', '*', '/'):
                return self.bin(t[1], self.ev(t[2]), self.ev(t[3]))
            if len(t) == 4 and t[1] == '**':
                raise Unknown('power')
            raise Unknown(t[1])
        if t[0] == 'item' and len(t) >= 3:
            if self.is_cond(t[2]):
                v = self.ev(t[1])
                return v if self.truth(t[2]) else ABSENT
            return self.leaf(canon(t))
        if t[0] == 'call' or t[0] == 'mcall':
            return self.call(t)
        return self.leaf(canon(t))

    def is_cond(self, t):
        return t[0] in ('b', 'cmp', 'lt', 'eq', 'not', 'is') or (t[0] == 'op' and t[1] in ('<', '>', '<=', '>=', '==', '!=', '~', 'not', '&', '|', 'inv')) or \
            (t[0] == 'call' and (name(t[1]) or '').split('.')[-1] in ('isnan', 'isinf', 'isfinite', 'isclose', 'nonzero', 'flatnonzero', 'not_equal',
                                                                     'equal', 'greater', 'less', 'logical_not', 'isneginf', 'isposinf')) or \
            (t[0] in ('op', 'un') and t[1] in ('invert',))

    def truth(self, t):
        if t[0] == 'c' and isinstance(t[2], bool):
            return t[2]
        if t[0] == 'b' and len(t) == 3:
            return self.truth(t[1]) == t[2]
        if t[0] == 'truthy':
            return self.compare('!=', t[1], C(0)) if not self.is_cond(t[1]) else self.truth(t[1])
        if t[0] in ('lt', 'eq') and len(t) == 3:
            return self.compare({'lt': '<', 'eq': '=='}[t[0]], t[1], t[2])
        if t[0] == 'not':
            return not self.truth(t[1])
        if t[0] in ('op', 'cmp', 'un'):
            if len(t) == 4 and t[1] in ('<', '>', '<=', '>=', '==', '!='):
                return self.compare(t[1], t[2], t[3])
            if len(t) == 4 and t[1] in ('&', '|'):
                a, b = self.truth(t[2]), self.truth(t[3])
                return (a and b) if t[1] == '&' else (a or b)
            if len(t) == 3 and t[1] in ('~', 'not', 'inv', 'invert'):
                return not self.truth(t[2])
        if t[0] == 'call':
            n = (name(t[1]) or '').split('.')[-1]
            a = t[2]
            if n in ('isnan', 'isinf', 'isfinite', 'isneginf', 'isposinf') and len(a) == 1:
                v = self.ev(a[0])
                if isinstance(v, Poly):
                    return n == 'isfinite'
                return {'isnan': math.isnan(v), 'isinf': math.isinf(v), 'isfinite': math.isfinite(v), 'isneginf': v == -INF, 'isposinf': v == INF}[n]
            if n in ('nonzero', 'flatnonzero') and len(a) == 1:
                return self.compare('!=', a[0], C(0))
            if n in ('isclose',) and len(a) >= 2:
                return self.compare('==', a[0], a[1])
            if n == 'logical_not' and len(a) == 1:
                return not self.truth(a[0])
            if n in ('equal', 'not_equal', 'greater', 'less') and len(a) == 2:
                return self.compare({'equal': '==', 'not_equal': '!=', 'greater': '>', 'less': '<'}[n], *a[:2])
        raise Unknown(f"condition {t[0]}")

    def compare(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if ABSENT in (x, y):
            raise Unknown('a filtered condition')
        if isinstance(x, Poly) or isinstance(y, Poly):
            d = x + y * K(-1)
            c = d.const()
            if c is None:
                if len(d.d) == 1 and next(iter(d.d))[1] == 0:           # c * x^n: the sign of c
                    c = next(iter(d.d.values()))
                elif op in ('==', '!='):
                    raise Unknown('a threshold')
                else:
                    raise Unknown('a threshold')
            x, y = c, 0
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]

    def bin(self, op, a, b):
        if a == ABSENT or b == ABSENT:
            return ABSENT
        if isinstance(a, Poly):
            if op == '+':
                return a + b
            if op == '-':
                return a + b * K(-1)
            if op == '*':
                return a * b
            if not b.d:
                raise Unknown('division by zero')
            return a * b.inv()
        if op == '/':
            if b == 0:
                return math.nan if a == 0 or math.isnan(a) else math.copysign(INF, a)
            return a / b
        return {'+': a + b, '-': a - b, '*': a * b}[op]

    def log(self, n, v):
        if v == ABSENT:
            return v
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                if c == 2:
                    return {'log2': K(1), 'log': LN2}.get(n) or K(math.log10(2))
                if c == 10 and n == 'log':
                    return LN10
                if c <= 0:
                    raise Unknown('logarithm of a constant')
                return K({'log2': math.log2, 'log': math.log, 'log10': math.log10}[n](c))
            if v == X:
                return {'log2': L, 'log': L * LN2, 'log10': L * LN2 * LN10.inv()}[n]
            if v == X.inv():
                return {'log2': L, 'log': L * LN2, 'log10': L * LN2 * LN10.inv()}[n] * K(-1)
            raise Unknown('logarithm of ' + repr(v))
        if math.isnan(v) or v < 0:
            return math.nan
        if v == 0:
            return -INF
        return v if v == INF else {'log2': math.log2, 'log': math.log, 'log10': math.log10}[n](v)

    def call(self, t):
        if t[0] == 'mcall':
            recv, mname, args, kw = t[1], t[2], t[3], dict(t[4])
        elif isinstance(t[1], tuple) and t[1][:1] == ('f',):
            recv, mname, args, kw = t[1][1], t[1][2], t[2], dict(t[3])
        else:
            recv, mname, args, kw = None, (name(t[1]) or '?').split('.')[-1], t[2], dict(t[3])
        if recv is not None:
            if mname in ('copy', 'ravel', 'flatten', 'astype', 'reshape', 'conj'):
                return self.ev(recv)
            return self.leaf(canon(t))
        if mname in LOGS and args:
            if mname == 'log' and name(t[1]) == 'math.log' and len(args) == 2:
                return self.bin('/', self.log('log', self.ev(args[0])), self.log('log', self.ev(args[1])))
            v = self.log(mname, self.ev(args[0]))
            if 'where' in kw:
                if not self.truth(kw['where']):
                    return self.ev(kw['out']) if 'out' in kw else math.nan
            return v
        if mname in ('zeros_like', 'zeros'):
            return self.num(0)
        if mname in ('ones_like', 'ones'):
            return self.num(1)
        if mname in ('full_like',) and len(args) == 2:
            return self.ev(args[1])
        if mname == 'nan_to_num' and args:
            v = self.ev(args[0])
            if isinstance(v, Poly) or v == ABSENT:
                return v
            if math.isnan(v):
                return self.ev(kw.get('nan', args[2] if len(args) > 2 else C(0.0)))
            if math.isinf(v):
                k = 'posinf' if v > 0 else 'neginf'
                i = 3 if v > 0 else 4
                w = kw.get(k, args[i] if len(args) > i else NONE)
                return math.copysign(1.7976931348623157e308, v) if w == NONE else self.ev(w)
            return v
        if mname == 'where' and len(args) == 3:
            return self.ev(args[1]) if self.truth(args[0]) else self.ev(args[2])
        if mname in ('multiply', 'add', 'subtract', 'divide', 'true_divide') and len(args) == 2:
            v = self.bin({'multiply': '*', 'add': '+', 'subtract': '-'}.get(mname, '/'), self.ev(args[0]), self.ev(args[1]))
            if 'where' in kw and not self.truth(kw['where']):
                return self.ev(kw['out']) if 'out' in kw else math.nan
            return v
        if mname in ('negative',) and len(args) == 1:
            return self.bin('*', self.num(-1), self.ev(args[0]))
        if mname in ('array', 'asarray', 'copy', 'real', 'float64', 'ravel', 'atleast_1d', 'squeeze') and args and \
                args[0][0] not in ('list', 'tup'):
            return self.ev(args[0])
        if mname in ('abs', 'absolute', 'fabs') and len(args) == 1:
            return self.leaf(canon(t))
        if mname in ('maximum', 'clip', 'fmax') and len(args) >= 2 and self.zero:
            return max(self.ev(args[0]), self.ev(args[1]))
        if mname == 'compress' and len(args) == 2:
            return self.ev(args[1]) if self.truth(args[0]) else ABSENT
        if mname in ('maximum', 'clip', 'fmax', 'minimum', 'exp', 'exp2', 'power', 'sqrt', 'log1p', 'expm1', 'sum', 'nansum', 'max', 'min', 'mean'):
            raise Unknown(mname)
        if mname in ('xlogy',) and len(args) == 2:
            a = self.ev(args[0])
            if not isinstance(a, Poly) and a == 0:
                return 0.0
            return self.bin('*', a, self.log('log', self.ev(args[1])))
        if mname == 'entr' and len(args) == 1:
            a = self.ev(args[0])
            return (0.0 if a == 0 else math.nan) if not isinstance(a, Poly) else a * self.log('log', a) * K(-1)
        return self.leaf(canon(t))

    # ---- scalars
    def total(self, t, dims):
        """entry of the sum a scalar is; 'vector' for the own vector itself"""
        if t[0] == 'op' and len(t) == 3 and t[1] in ('neg', '-'):
            v = self.total(t[2], dims)
            return self.minus(v, K(-1), -1)
        if t[0] == 'op' and len(t) == 4 and t[1] in ('*', '/') and (t[3][0] == 'c' or t[2][0] == 'c'):
            k, o = (t[3], t[2]) if t[3][0] == 'c' else (t[2], t[3])
            if t[1] == '/' and k is not t[3]:
                raise Unknown('quotient')
            v = k[2] if t[1] == '*' else 1.0 / k[2]
            return self.minus(self.total(o, dims), K(v), v)
        if t[0] == 'op' and len(t) == 4 and t[1] == '@':
            if dims != 1:
                raise Unknown('product of matrices')
            return self.point(('op', '*', t[2], t[3]))
        if t[0] == 'call':
            n = name(t[1])
            short = n.split('.')[-1] if n else t[1][2] if isinstance(t[1], tuple) and t[1][:1] == ('f',) else None
            args, kw = t[2], dict(t[3])
            if n is None and short is not None:
                args = (t[1][1],) + tuple(args)
            if short in ('float', 'real', 'float64', 'item', 'asarray', 'array') and len(args) == 1:
                return self.total(args[0], dims)
            if short in ('dot', 'inner', 'vdot') and len(args) == 2 and dims == 1:
                return self.point(('op', '*', args[0], args[1]))
            if short in ('sum', 'nansum', 'fsum') and args:
                ax = kw.pop('axis', args[1] if len(args) > 1 else NONE)
                for k in ('dtype', 'keepdims', 'start'):
                    kw.pop(k, None)
                if kw:
                    raise Unknown('sum with ' + ','.join(kw))
                inner = args[0]
                if inner[0] == 'call' and name(inner[1]) == 'numpy.sum' and dims == 2 and 'axis' in dict(inner[3]) and inner[2]:
                    return self.total(('call', 'numpy.sum', (inner[2][0],), ()), dims)      # along one axis, then along the other
                flatten = n not in ('sum', 'math.fsum') and ax in (NONE,)
                if not flatten and dims == 2:
                    if (n in ('sum', 'math.fsum') or (ax[0] == 'c' and isinstance(ax[2], int))):
                        return 'partial'
                    if not (ax[0] == 'tup' and len(ax[1]) == 2):
                        raise Unknown('axis')
                v = self.point(inner)
                if short == 'nansum' and isinstance(v, float) and math.isnan(v):
                    return 0.0
                return v
            if short in ('mean', 'max', 'min', 'prod', 'average', 'median', 'amax', 'amin', 'std', 'var', 'nanmean', 'nanmax', 'cumsum'):
                return short
        if t == self.vec:
            return 'bare'
        raise Unknown(f"not a sum: {t[0]}")

    def minus(self, v, p, f):
        if isinstance(v, str) and v != ABSENT:
            return v
        if isinstance(v, tuple):
            return ('vector', v[1] * f)
        return v * p if isinstance(v, Poly) else v if v == ABSENT else v * f

    def point(self, t):
        if t == self.vec:
            return ('vector', 1)
        if t[0] == 'call' and isinstance(t[1], tuple) and t[1][:1] == ('f',) and t[1][1] == self.vec and t[1][2] in ('ravel', 'flatten', 'copy'):
            return ('vector', 1)
        if t[0] == 'call' and len(t[2]) == 1 and t[2][0] == self.vec and (name(t[1]) or '').split('.')[-1] in ('ravel', 'nan_to_num', 'asarray', 'array', 'list'):
            return ('vector', 1)
        if t[0] == 'op' and len(t) == 3 and t[1] in ('neg', '-') and t[2] == self.vec:
            return ('vector', -1)
        if t[0] == 'op' and len(t) == 4 and self.vec in t[2:4]:
            o = t[3] if t[2] == self.vec else t[2]
            if t[1] == '*' and o[0] == 'c':
                return ('vector', o[2])
            raise Unknown('vector changed')
        return self.ev(t)


def symbol(n):
    def f(I, st, recv, args, kw, fr, node, fi=None):
        return [(st, ('sym', f"<{n}>"))]
    return f


def p23(ctx):
    ctx.rule('zero', 'an entry that is zero contributes zero: neither NaN nor infinity nor anything else')
    ctx.rule('form', 'an entry x that is not zero contributes -x log2 x')
    ctx.rule('sum', 'the entropy is the sum over all entries of its own vector')
    m = Model(ctx)
    p = ctx.prog
    root = p.cls('AbstractTensorRepresentation')
    cs = [c for c in [root] + p.subclasses.get(root, []) if (p.find(c, 'entropy') is not None and not p.find(c, 'entropy').is_abstract)]
    if not cs:
        raise AnalysisError('no entropy')
    for c in cs:
        calcs = {}
        for n in ('calc_normalized_laplacian', 'calc_projected_laplacian', 'calc_total_deg', 'calc_laplacian', 'degree_matrix',
                  'diag_degree_matrix', 'diag_degree_tensor'):
            f = p.find(c, n)
            if f is not None:
                calcs[f] = symbol(n)
        for vec, total, dims in PAIRS:
            leaves = ctx.guard('form', f"{c.name}.{vec}", vector, ctx, m, c, vec, calcs)
            ctx.guard('sum', f"{c.name}.{total}", scalar, ctx, m, c, vec, total, calcs, dims, leaves)
    ctx.minimum = 6


def paths(ctx, m, c, f, con):
    I = m.interp(implicit=False, contracts=con)
    out = []
    for s0 in W.construct(I, m, c)[0]:
        for s, sig in I.entry(f, [], s0, recv=SELF):
            ctx.paths += 1
            out.append((s, sig))
    return out


def judge(ctx, con, w, s, term, how, vec=None):
    """the entry at zero and at a positive number; returns the leaves"""
    z, q = Point(s, True, vec), Point(s, False, vec)
    leaves = set()
    try:
        v = how(z, term)
        leaves |= z.leaves
        if len(z.leaves) > 1:
            ctx.und('zero', con, w, 'more than one spectrum')
        elif isinstance(v, tuple) or (isinstance(v, str) and v != ABSENT):
            return v, leaves
        else:
            ok = v == ABSENT or v == 0
            ctx.ob('zero', con, ok, w, '' if ok else f"an entry of zero contributes {v}")
    except Unknown as e:
        ctx.und('zero', con, w, f"not understood: {e}")
    try:
        v = how(q, term)
        leaves |= q.leaves
        if len(q.leaves) > 1:
            ctx.und('form', con, w, 'more than one spectrum')
        elif isinstance(v, tuple) or (isinstance(v, str) and v != ABSENT):
            return v, leaves
        else:
            ok = v == GOAL
            ctx.ob('form', con, ok, w, '' if ok else f"an entry x contributes {v}, not -x*log2(x)")
    except Unknown as e:
        ctx.und('form', con, w, f"not understood: {e}")
    return None, leaves


def vector(ctx, m, c, vec, calcs):
    f = m.p.find(c, vec)
    if f is None:
        return None
    con, w = f"{c.name}.{vec}", f.where
    out = set()
    for s, sig in paths(ctx, m, c, f, calcs):
        if sig[0] == 'raise':
            ctx.bad('form', con, w, f"raises {exc_name(sig)}")
            continue
        try:
            _, lv = judge(ctx, con, w, s, sig[1], lambda pt, t: pt.ev(t))
            out |= lv
        except Unknown as e:
            ctx.und('form', con, w, f"not understood: {e}")
    return out


def scalar(ctx, m, c, vec, total, calcs, dims, leaves):
    p = m.p
    f, fv = p.find(c, total), p.find(c, vec)
    if f is None:
        raise AnalysisError(f"{c.name}.{total} not found")
    VEC = ('sym', f"<{vec}>")
    con = dict(calcs)
    for v2, t2, _ in PAIRS:
        g = p.find(c, v2)
        if g is not None:
            con[g] = symbol(v2)
    name_, w = f"{c.name}.{total}", f.where
    for s, sig in paths(ctx, m, c, f, con):
        if sig[0] == 'raise':
            ctx.bad('sum', name_, w, f"raises {exc_name(sig)}")
            continue
        other = [v2 for v2, t2, _ in PAIRS if v2 != vec and contains(sig[1], lambda x: x == ('sym', f"<{v2}>"))]
        if other:
            ctx.bad('sum', name_, w, f"uses {other[0]}, not {vec}")
            continue
        try:
            r, lv = judge(ctx, name_, w, s, sig[1], lambda pt, t: pt.total(t, dims), VEC)
        except Unknown as e:
            ctx.und('sum', name_, w, f"not understood: {e}")
            continue
        if r == 'partial':
            ctx.bad('sum', name_, w, 'sums along one axis only')
        elif r == 'bare':
            ctx.bad('sum', name_, w, 'the vector itself is returned')
        elif isinstance(r, str):
            ctx.bad('sum', name_, w, f"is the {r} of the vector, not the sum")
        elif isinstance(r, tuple):
            ctx.ob('sum', name_, r[1] == 1, w, '' if r[1] == 1 else f"the sum is multiplied by {r[1]}")
        elif leaves and lv:
            ctx.ob('sum', name_, lv == leaves or None, w, '' if lv == leaves else 'sums another spectrum than the vector shows')
