"""P34: degrees and Laplacians, by index normal form of the array expressions."""
import ast
import itertools
from sa.interp import NONE, C, is_c, contains, State
from .hier import Model, SELF
from .p_hier import exc_name

# An array is (axes, entries): axes = the index variables, outermost first, entries = its general entry as a sum of
# products over these variables.  An index variable is (kind, number), kind 'E' for edges, 'N' for nodes.  A product is
# (factors, bound variables); factors are entries of the three tensors and deltas.  This holds for every number of
# edges and nodes and for all entries.


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


class Arr:
    def __init__(self, axes, d, unequal=False):
        self.axes, self.d, self.unequal = tuple(axes), d, unequal     # unequal: truth values of a comparison of different entries

    def scalar(self):
        return not self.axes


def add(a, b, k=1):
    d = dict(a)
    for m, v in b.items():
        d[m] = d.get(m, 0) + k * v
        if abs(d[m]) < 1e-12:
            del d[m]
    return d


class Ev:
    def __init__(self, tensors, undirected, ordinary=False):
        self.t, self.und, self.ordinary = tensors, undirected, ordinary
        self.n = 0
        self.over = {}       # arrays assembled in place: term -> Arr
        self.rows = {}       # loop elements: term -> Arr (a row) or index variable
        self.loops, self.ops, self.facts = {}, {}, ()

    def var(self, kind):
        self.n += 1
        return (kind, self.n)

    # ---- entries
    def product(self, atoms, bound):
        """normal form of one product: {product: 1} with deltas over bound variables resolved"""
        atoms, bound = list(atoms), set(bound)
        go = True
        while go:
            go = False
            for a in atoms:
                if a[0] != 'd':
                    continue
                if a[1] == a[2]:
                    atoms.remove(a)
                    go = True
                    break
                old, new = (a[1], a[2]) if a[1] in bound else (a[2], a[1])
                if old in bound:
                    atoms.remove(a)
                    bound.discard(old)
                    atoms = [tuple(new if x == old else x for x in b) for b in atoms]
                    go = True
                    break
        # a free delta makes both variables one: the least of its class stands for all
        rep = {}
        for a in atoms:
            if a[0] == 'd':
                x, y = (rep.get(v, v) for v in a[1:])
                lo, hi = min(x, y), max(x, y)
                for v in {x, y, *a[1:]} | set(rep):
                    if rep.get(v, v) == hi or v == hi:
                        rep[v] = lo
        ds = {('d', lo, v) for v, lo in rep.items() if v != lo}
        atoms = [tuple(rep.get(x, x) for x in b) for b in atoms if b[0] != 'd'] + sorted(ds)
        if self.und:
            atoms = [('W', a[1]) + tuple(sorted(a[2:])) if a[0] == 'W' else ('B',) + a[1:] if a[0] in ('Io', 'Ii') else a for a in atoms]
            if any(a[0] == 'W' and a[2] == a[3] for a in atoms):
                return {}                    # no connection of an endpoint with itself
        if self.ordinary:
            for a in atoms:
                if a[0] == 'W':
                    for j, i in ((a[2], a[3]), (a[3], a[2])):
                        if j in bound and sum(j in b for b in atoms) == 1:
                            return self.product([('B', a[1], i) if b is a else b for b in atoms], bound - {j})
        sizes = []
        for v in sorted(bound):
            if not any(v in b for b in atoms):
                bound.discard(v)
                sizes.append(('size', v[0]))
        atoms += sizes
        # names of the bound variables
        best = None
        bs = sorted(bound)
        if len(bs) > 4:
            raise Unknown('many sums')
        for perm in itertools.permutations(range(len(bs))):
            ren = {v: (v[0], -1 - perm[i]) for i, v in enumerate(bs)}
            at = []
            for a in atoms:
                b = tuple(ren.get(x, x) for x in a)
                at.append(('W', b[1]) + tuple(sorted(b[2:])) if b[0] == 'W' and self.und else b)
            key = (tuple(sorted(at, key=repr)), tuple(sorted(ren.values())))
            if best is None or repr(key) < repr(best):
                best = key
        return {best: 1}

    def mul(self, a, b):
        out = {}
        for (f, x), v in a.items():
            for (g, y), w in b.items():
                r1 = {z: self.var(z[0]) for z in x}
                r2 = {z: self.var(z[0]) for z in y}
                at = [tuple(r1.get(z, z) for z in p) for p in f] + [tuple(r2.get(z, z) for z in p) for p in g]
                out = add(out, self.product(at, set(r1.values()) | set(r2.values())), v * w)
        return out

    def ren(self, d, m):
        out = {}
        for (f, x), v in d.items():
            r = {z: self.var(z[0]) for z in x}
            r.update(m)
            out = add(out, self.product([tuple(r.get(z, z) for z in p) for p in f], {r[z] for z in x}), v)
        return out

    def sum(self, d, vs):
        out = {}
        for (f, x), v in d.items():
            r = {z: self.var(z[0]) for z in x}
            out = add(out, self.product([tuple(r.get(z, z) for z in p) for p in f], set(r.values()) | set(vs)), v)
        return out

    def const(self, v):
        return Arr((), {((), ()): v} if v else {})

    def value(self, d):
        if not d:
            return 0
        if list(d) == [((), ())]:
            return d[((), ())]
        return None

    def fresh(self, a):
        m = {v: self.var(v[0]) for v in a.axes if v[0] != '1'}
        return Arr([m.get(v, v) for v in a.axes], self.ren(a.d, m), a.unequal)

    def align(self, a, b):
        """both over the same axes (numpy broadcasting)"""
        a, b = self.fresh(a), self.fresh(b)
        n = max(len(a.axes), len(b.axes))
        xs, ys = (None,) * (n - len(a.axes)) + a.axes, (None,) * (n - len(b.axes)) + b.axes
        axes, m = [], {}
        for x, y in zip(xs, ys):
            if x is None or x[0] == '1':
                axes.append(y if y is not None else x)
            elif y is None or y[0] == '1':
                axes.append(x)
            elif x[0] != y[0]:
                raise Wrong('axes of different kinds')
            else:
                m[y] = x
                axes.append(x)
        return axes, a.d, self.ren(b.d, m)

    def bin(self, op, a, b):
        if a.unequal or b.unequal:
            raise Unknown('a comparison of different entries')
        axes, x, y = self.align(a, b)
        if op == '+':
            return Arr(axes, add(x, y))
        if op == '-':
            return Arr(axes, add(x, y, -1))
        if op == '*':
            return Arr(axes, self.mul(x, y))
        if op == '/':
            v = self.value(y)
            if v == 0:
                raise Unknown('quotient')
            if v is not None:
                return Arr(axes, {k: w / v for k, w in x.items()})
            return Arr(axes, self.mul(x, self.inverse(y)))
        raise Unknown(op)

    def opaque(self, name, d):
        """a function of an entry, as one factor"""
        free = sorted({x for (f, b), _ in d.items() for a in f for x in a[1:] if isinstance(x, tuple) and x not in b})
        if len(free) > 3:
            raise Unknown(name)
        best = None
        for perm in itertools.permutations(free):
            m = {v: (v[0], 2 * 10 ** 6 + i) for i, v in enumerate(perm)}
            key = repr(sorted(((k, round(v, 9)) for k, v in self.ren(d, m).items()), key=repr))
            if best is None or key < best[0]:
                best = (key, perm)
        return self.product([(f"{name}({best[0]})",) + best[1]], ())

    def absolute(self, d):
        """absolute value of an entry; the sign inside does not matter"""
        v = self.value(d)
        if v is not None:
            return self.const(abs(v)).d
        return min((self.opaque('abs', d), self.opaque('abs', {k: -w for k, w in d.items()})), key=repr)

    def larger(self, a, b, x, y):
        """x where a >= b, y elsewhere; x - y is a multiple of a - b"""
        return add(y, self.step(add(a, b, -1), add(x, y, -1)))

    def step(self, d, e):
        """e where d >= 0, nothing elsewhere; e = k*d: k*(d + |d|)/2"""
        if not e:
            return {}
        if not d:
            return e
        r = {q: e[q] / d[q] for q in e if q in d}
        k = next(iter(r.values()), None)
        if k is None or set(e) != set(d) or any(abs(v - k) > 1e-9 for v in r.values()):
            raise Unknown('a choice by order')
        return {q: v * k / 2 for q, v in add(d, self.absolute(d)).items()}

    @staticmethod
    def order(t):
        """(a, b) when the condition is a >= b or a > b"""
        if t[0] == 'b' and len(t) == 3 and t[1][0] == 'lt':
            return (t[1][2], t[1][1]) if t[2] else (t[1][1], t[1][2])
        if t[0] == 'call' and len(t[2]) == 2:
            n = Ev.short(t)
            if n in ('greater', 'greater_equal'):
                return t[2]
            if n in ('less', 'less_equal'):
                return t[2][::-1]
        return None

    def inverse(self, d):
        if len(d) == 1:
            ((f, b), v), = d.items()
            if not b and not any(a[0] == 'd' for a in f):
                out = []
                for a in f:
                    if a[0].startswith('1/'):
                        out.append((a[0][2:],) + a[1:])
                    else:
                        out.append(('1/' + a[0],) + a[1:])
                return {k: w / v for k, w in self.product(out, ()).items()}
            if not b:
                raise Unknown('quotient')
        # factors of all terms, then a number, are drawn out
        if d and all(not b for _, b in d) and not any(a[0] == 'd' for f, _ in d for a in f):
            common = list(next(iter(d))[0])
            for f, _ in d:
                left = list(f)
                common = [a for a in common if a in left and (left.remove(a) or True)]
            if common:
                rest = {}
                for (f, b), v in d.items():
                    left = list(f)
                    for a in common:
                        left.remove(a)
                    rest = add(rest, self.product(left, ()), v)
                return self.mul(self.inverse(self.product(common, ())), self.inverse(rest))
        k = max(d.values(), key=abs)
        return {q: w / k for q, w in self.opaque('1/', {q: w / k for q, w in d.items()}).items()}

    def power(self, a, k):
        if k == 1:
            return a
        if k == -1:
            return Arr(a.axes, self.inverse(a.d))
        if k == 0.5:
            return Arr(a.axes, self.opaque('sqrt', a.d))
        if k == -0.5:
            return Arr(a.axes, self.inverse(self.opaque('sqrt', a.d)))
        if k == 2:
            return Arr(a.axes, self.mul(a.d, a.d))
        raise Unknown('power')

    def eig(self, a):
        """eigenvalues: numbers and scalars go before them"""
        if len(a.axes) != 2 or a.axes[0][0] != a.axes[1][0]:
            raise Wrong('eigenvalues of an array that is no square matrix')
        if len(a.d) != 1:
            raise Unknown('eigenvalues')
        a = self.fresh(a)
        ((f, b), v), = a.d.items()
        if b:
            raise Unknown('eigenvalues')
        scal = [x for x in f if not any(isinstance(y, tuple) for y in x[1:])]
        mat = [x for x in f if x not in scal]
        if len(mat) != 1 or sorted(mat[0][1:]) != sorted(a.axes):
            raise Unknown('eigenvalues')
        w = self.var(a.axes[0][0])
        return Arr((w,), {q: y * v for q, y in self.product(scal + [('eig ' + mat[0][0], w)], ()).items()})

    def compare(self, a, b, equal):
        axes, x, y = self.align(a, b)
        if not add(x, y, -1):
            return Arr(axes, self.const(1 if equal else 0).d)
        if self.und:
            raise Unknown('a comparison of different entries')
        return Arr(axes, {}, 'eq' if equal else 'ne')

    # ---- arrays
    def axis(self, a, k):
        if not isinstance(k, int) or not -len(a.axes) <= k < len(a.axes):
            raise Unknown('axis')
        return k % len(a.axes)

    def ints(self, t, what):
        if t[0] == 'c' and isinstance(t[2], int):
            return t[2]
        if t[0] in ('tup', 'list') and all(is_c(x) for x in t[1]):
            return tuple(x[2] for x in t[1])
        raise Unknown(what)

    def reduce(self, a, ax):
        a = self.fresh(a)
        ks = range(len(a.axes)) if ax is None else [self.axis(a, k) for k in (ax if isinstance(ax, tuple) else (ax,))]
        vs = [a.axes[k] for k in ks]
        return Arr([v for v in a.axes if v not in vs], self.sum(a.d, [v for v in vs if v[0] != '1']))

    def quantify(self, n, a, ax):
        """all / any of truth values along an axis"""
        rest = [] if ax is None else [v for k, v in enumerate(a.axes) if k != self.axis(a, ax)]
        if a.unequal:
            # some connection of a directed graph differs
            if (n, a.unequal) == ('all', 'eq'):
                return Arr(rest, {})
            if (n, a.unequal) == ('any', 'ne'):
                return Arr(rest, self.const(1).d)
            raise Unknown(n)
        v = self.value(a.d)
        if v not in (0, 1):
            raise Unknown(n)
        return Arr(rest, self.const(v).d)

    def diag(self, a):
        a = self.fresh(a)
        if len(a.axes) == 1:
            w = self.var(a.axes[0][0])
            return Arr((a.axes[0], w), self.mul(a.d, self.product([('d', a.axes[0], w)], ())))
        if len(a.axes) == 2:
            return self.diagonal(a, 0, 1)
        raise Unknown('diag')

    def diagonal(self, a, i, j):
        a = self.fresh(a)
        i, j = self.axis(a, i), self.axis(a, j)
        x, y = a.axes[i], a.axes[j]
        if x[0] != y[0]:
            raise Wrong('diagonal of axes of different kinds')
        return Arr([v for k, v in enumerate(a.axes) if k not in (i, j)] + [x], self.ren(a.d, {y: x}))

    def matmul(self, a, b):
        a, b = self.fresh(a), self.fresh(b)
        if not a.axes or not b.axes:
            raise Unknown('product')
        x, y = a.axes[-1], b.axes[-2] if len(b.axes) > 1 else b.axes[0]
        if x[0] != y[0]:
            raise Wrong('product of axes of different kinds')
        bd = self.ren(b.d, {y: x})
        la, lb = list(a.axes[:-2]), list(b.axes[:-2])
        m, lead = {}, []
        n = max(len(la), len(lb))
        for p, q in zip([None] * (n - len(la)) + la, [None] * (n - len(lb)) + lb):
            if p is not None and q is not None:
                if p[0] != q[0]:
                    raise Wrong('product of axes of different kinds')
                m[q] = p
            lead.append(p or q)
        bd = self.ren(bd, m)
        return Arr(lead + list(a.axes[-2:-1]) + (list(b.axes[-1:]) if len(b.axes) > 1 else []), self.sum(self.mul(a.d, bd), [x]))

    def einsum(self, spec, ops):
        spec = spec.replace(' ', '')
        if '.' in spec:
            raise Unknown('einsum')
        ins, _, out = spec.partition('->')
        ins = ins.split(',')
        if '->' not in spec:
            out = ''.join(sorted(x for x in set(''.join(ins)) if ''.join(ins).count(x) == 1))
        if len(ins) != len(ops):
            raise Unknown('einsum')
        m, d = {}, self.const(1).d
        for letters, a in zip(ins, ops):
            a = self.fresh(a)
            if len(letters) != len(a.axes):
                raise Unknown('einsum')
            r = {}
            for l, v in zip(letters, a.axes):
                if l in m and m[l][0] != v[0]:
                    raise Unknown('einsum')
                r[v] = m.setdefault(l, v)
            d = self.mul(d, self.ren(a.d, {k: v for k, v in r.items() if k != v}))
        return Arr([m[l] for l in out], self.sum(d, [m[l] for l in m if l not in out]))

    def extreme(self, n, args):
        """the larger or smaller of several sizes"""
        if len(args) == 1 and args[0][0] == 'f' and args[0][2] == 'shape':
            xs = [Arr((), self.product([('size', v[0])], ())) for v in self.ev(args[0][1]).axes]
        elif len(args) == 1 and args[0][0] in ('list', 'tup'):
            xs = [self.ev(x) for x in args[0][1]]
        elif len(args) > 1:
            xs = [self.ev(x) for x in args]
        else:
            raise Unknown(n)
        if any(x.axes or self.value(x.d) is not None for x in xs):
            raise Unknown(n)                     # a bound, not a choice between quantities
        r = xs[0]
        for x in xs[1:]:
            r = Arr((), self.larger(r.d, x.d, r.d, x.d) if n == 'max' else self.larger(r.d, x.d, x.d, r.d))
        return r

    def kind_of_size(self, t):
        if t[0] == 'item' and t[1][0] == 'f' and t[1][2] == 'shape' and is_c(t[2]) and isinstance(t[2][2], int):
            a = self.ev(t[1][1])
            return a.axes[self.axis(a, t[2][2])][0]
        if t[0] == 'len':
            x, n = t[1], 0
            while x[0] == 'item' and is_c(x[2]) and isinstance(x[2][2], int):
                x, n = x[1], n + 1
            axes = self.ev(x).axes
            if n < len(axes):
                return axes[n][0]
        raise Unknown('size')

    def ev(self, t):
        if t in self.over:
            return self.fresh(self.over[t])
        r = self.rows.get(t)
        if isinstance(r, Arr):
            return r
        for k, v in self.t.items():
            if t == v[0]:
                vs = [self.var(x) for x in v[1]]
                return Arr(vs, self.product([(k,) + tuple(vs)], ()))
        if t[0] == 'c' and isinstance(t[2], (int, float)):
            return self.const(t[2] * 1)
        if t[0] == 'b' and len(t) == 3:
            a = t[1]
            if a[0] == 'eq':
                return self.compare(self.ev(a[1]), self.ev(a[2]), t[2])
            if a[0] == 'truthy':
                r = self.ev(a[1])
                return r if t[2] else self.bin('-', self.const(1), r)
            raise Unknown('condition ' + a[0])
        if t[0] == 'op':
            if len(t) == 3 and t[1] in ('neg', '-'):
                return self.bin('*', self.const(-1), self.ev(t[2]))
            if len(t) == 3 and t[1] in ('Invert', 'Not', '~'):
                return self.bin('-', self.const(1), self.ev(t[2]))
            if len(t) == 4 and t[1] == '@':
                return self.matmul(self.ev(t[2]), self.ev(t[3]))
            if len(t) == 4 and t[1] == '**' and is_c(t[3]):
                return self.power(self.ev(t[2]), t[3][2])
            if len(t) == 4 and t[1] in ('+', '-', '*', '/'):
                return self.bin(t[1], self.ev(t[2]), self.ev(t[3]))
            raise Unknown(str(t[1]))
        if t[0] == 'f' and len(t) > 2 and t[2] == 'T':
            a = self.ev(t[1])
            return Arr(a.axes[::-1], a.d, a.unequal)
        if t[0] == 'item' and t[1][0] == 'call' and t[2] == C(0) and self.short(t[1]) == 'eig':
            return self.eig(self.ev(t[1][2][0]))
        if t[0] == 'f' and t[2] == 'eigenvalues' and t[1][0] == 'call' and self.short(t[1]) == 'eig':
            return self.eig(self.ev(t[1][2][0]))
        if t[0] == 'item' and len(t) > 2 and not (t[1][0] == 'f' and t[1][2] == 'shape'):
            return self.index(self.ev(t[1]), t[2])
        if t[0] == 'call':
            return self.call(t)
        if t[0] == 'len' or t[0] == 'item' and t[1][0] == 'f' and t[1][2] == 'shape':
            return Arr((), self.product([('size', self.kind_of_size(t))], ()))
        raise Unknown(t[0])

    @staticmethod
    def short(t):
        f = t[1]
        return f.split('.')[-1] if isinstance(f, str) else f[1].split('.')[-1] if f[0] == 'ext' else f[2] if f[0] == 'f' else '?'

    def index(self, a, k):
        ks = list(k[1]) if k[0] == 'tup' else [k]
        if any(x[:2] == ('c', 'ellipsis') for x in ks):
            i = next(j for j, x in enumerate(ks) if x[:2] == ('c', 'ellipsis'))
            used = sum(1 for x in ks if x[0] == 'slice')
            ks[i:i + 1] = [('slice', NONE, NONE, NONE)] * (len(a.axes) - used)
        if len(ks) == 1 and ks[0][:1] in (('call',), ('b',), ('op',)) and self.arange(ks[0]) is None and self.position(ks[0]) is None:
            mask = self.ev(ks[0])
            if not mask.unequal and self.value(mask.d) == 1 and [x[0] for x in mask.axes] == [x[0] for x in a.axes[:len(mask.axes)]]:
                return a
            raise Unknown('mask')
        out, n, m = [], 0, {}
        a = self.fresh(a)
        for x in ks:
            v = self.position(x)
            if v is not None and n < len(a.axes):
                if v[0] != a.axes[n][0]:
                    raise Wrong('index of another kind')
                m[a.axes[n]] = v
                n += 1
            elif x == NONE or x == ('ext', 'numpy.newaxis'):
                out.append(('1', self.var('1')[1]))
            elif x[:1] == ('slice',) and x[1:] == (NONE, NONE, NONE) and n < len(a.axes):
                out.append(a.axes[n])
                n += 1
            else:
                raise Unknown('index')
        if m and a.unequal:
            raise Unknown('a comparison')
        return Arr(out + list(a.axes[n:]), self.ren(a.d, m) if m else a.d, a.unequal)

    # ---- arrays assembled step by step
    def position(self, x):
        """the index variable a loop variable stands for"""
        r = self.rows.get(x)
        return r if isinstance(r, tuple) else None

    def enter(self, lp):
        """one generic iteration over all positions or rows: its index variable"""
        coll = lp.coll
        if coll[0] == 'coll':
            coll = coll[1]
        if len(lp.paths) != 1 or lp.paths[0].facts or lp.kind != 'for':
            raise Unknown('loop')
        if coll[0] == 'range' and len(coll[1]) == 1:
            v = self.var(self.kind_of_size(coll[1][0]))
            self.rows[lp.elem] = v
            return v
        a = self.fresh(self.ev(coll))
        if not a.axes:
            raise Unknown('loop')
        self.rows[lp.elem] = Arr(a.axes[1:], a.d)
        return a.axes[0]

    def listed(self, t):
        if len(t[1]) == 1 and t[1][0][0] == 'each' and len(t[1][0]) == 3:
            _, lid, cont = t[1][0]
            lp = self.loops.get(lid)
            if lp is not None:
                v = self.enter(lp)
                added = lp.paths[0].ops(cont, lp.head)
                if len(added) == 1 and added[0][0] == 'add':
                    a = self.ev(added[0][1])
                    return Arr((v,) + a.axes, a.d)
        raise Unknown('list')

    def follow(self, events, inside=()):
        for x in events:
            if x[0] == 'loop':
                lp = x[1]
                sets = [y for q in lp.paths for y in q.events if y[0] in ('setitem', 'loop', 'aug')]
                if sets:
                    v = self.enter(lp)
                    self.follow(lp.paths[0].events, inside + (v,))
            elif x[0] == 'setitem':
                self.store(x[1], x[2], x[3], inside)
            elif x[0] == 'ecall' and x[1] == 'numpy.fill_diagonal' and len(x[2]) == 2:
                old, val = self.fresh(self.ev(x[2][0])), self.ev(x[2][1])
                if len(old.axes) != 2 or inside or old.axes[0][0] != old.axes[1][0]:
                    raise Unknown('fill_diagonal')
                on = self.product([('d',) + old.axes], ())
                y = self.fresh_to(val, old.axes[:1])
                self.over[x[2][0]] = Arr(old.axes, add(add(old.d, self.mul(old.d, on), -1), self.mul(y, on)))

    def fresh_to(self, a, axes):
        """the entries of a over the given axes"""
        a = self.fresh(a)
        if len(a.axes) > len(axes):
            raise Unknown('shape')
        m = {}
        for v, w in zip(a.axes[::-1], axes[::-1]):
            if v[0] == '1':
                continue
            if v[0] != w[0]:
                raise Wrong('rows of another kind')
            m[v] = w
        return self.ren(a.d, m)

    def store(self, target, key, val, inside):
        old = self.fresh(self.ev(target))
        ks = list(key[1]) if key[0] == 'tup' else [key]
        if len(ks) == 1 and self.position(ks[0]) is None and ks[0][0] not in ('slice',) and not is_c(ks[0]):
            ones = self.arange(ks[0])
            if ones is None:
                mask = self.ev(ks[0])
                v = self.value(mask.d)
                if mask.unequal or v not in (0, 1) or [x[0] for x in mask.axes] != [x[0] for x in old.axes[:len(mask.axes)]]:
                    raise Unknown('mask')
                if v:
                    self.over[target] = Arr(old.axes, self.fresh_to(self.ev(val), old.axes))
                return
        if any(x[:2] == ('c', 'ellipsis') for x in ks):
            raise Unknown('index')
        on, sub, rest, pair = [], {}, [], None
        for x, ax in itertools.zip_longest(ks, old.axes):
            if ax is None:
                raise Unknown('index')
            v = None if x is None else self.position(x)
            if x is None or x[:1] == ('slice',) and x[1:] == (NONE, NONE, NONE):
                rest.append(ax)
            elif v is not None:
                if v[0] != ax[0]:
                    raise Wrong('index of another kind')
                if v in sub:
                    on.append(('d', sub[v], ax))
                sub.setdefault(v, ax)
            elif self.arange(x) == ax[0]:
                if pair is None:
                    pair = ax
                    rest.append(ax)
                else:
                    on.append(('d', pair, ax))
            else:
                raise Unknown('index')
        if set(inside) - set(sub):
            raise Unknown('an entry set more than once')
        y = self.fresh_to(self.ev(val), rest)
        y = self.ren(y, sub)
        on = self.product(on, ())
        left = add(old.d, self.mul(old.d, on), -1)
        new = Arr(old.axes, add(left, self.mul(y, on)))
        # a value that itself reads the entry: all of old.d was free of the loop variables
        if any(v in b for f, _ in new.d for b in f for v in inside):
            raise Unknown('reads what it sets')
        self.over[target] = new

    def arange(self, x):
        if x[0] == 'call' and x[1] == 'numpy.arange' and len(x[2]) == 1:
            return self.kind_of_size(x[2][0])
        return None

    def run(self, st, value, with_steps=True):
        self.loops = {}

        def collect(events):
            for x in events:
                if x[0] == 'loop':
                    self.loops[x[1].lid] = x[1]
                    for q in x[1].paths:
                        collect(q.events)
        collect(st.events)
        if with_steps:
            self.follow(st.events)
        return self.ev(value)

    def call(self, t):
        f = t[1]
        args, kw = list(t[2]), dict(t[3])
        if isinstance(f, tuple) and f[0] == 'f':
            n = f[2]
            args = [f[1]] + args
        else:
            full = f if isinstance(f, str) else f[1] if f[0] == 'ext' else '?'
            n = full.split('.')[-1]
            if full == 'sum' and len(args) == 1:
                args.append(C(0))
            elif full in ('max', 'min') and args and not kw:
                return self.extreme(full, args)
            elif full in ('int', 'len', 'max', 'min', 'round'):
                raise Unknown(full)
        for p in ('a', 'x', 'v', 'm', 'arr'):
            if p in kw and not args:
                args.append(kw.pop(p))
        if n in ('array', 'asarray', 'stack', 'vstack') and args and args[0][0] in ('list', 'tup') and (not kw or n != 'stack') and len(args) == 1:
            return self.listed(args[0])
        if n in ('copy', 'astype', 'array', 'asarray', 'ascontiguousarray', 'float', 'float64', 'real', 'asfarray', 'item') and args:
            if n == 'float' or args[0][0] not in ('list', 'tup'):
                return self.ev(args[0])
        if n in ('sum', 'nansum', 'all', 'any'):
            ax = kw.pop('axis', args[1] if len(args) > 1 else NONE)
            kw.pop('dtype', None)
            if kw or len(args) > 2:
                raise Unknown(n)
            ax = None if ax == NONE else self.ints(ax, 'axis')
            a = self.ev(args[0])
            return self.reduce(a, ax) if n in ('sum', 'nansum') else self.quantify(n, a, ax)
        if n in ('isclose', 'allclose') and (kw or len(args) > 2):
            # without tolerances the comparison only forgives rounding
            tol = [*args[2:4], *(kw.pop(k) for k in ('rtol', 'atol') if k in kw)]
            if not all(is_c(x) and isinstance(x[2], (int, float)) for x in tol):
                raise Unknown(n)
            if any(x[2] > 1e-5 for x in tol):
                raise Wrong('quantities that differ are taken for equal')
            kw.pop('equal_nan', None)
            args = args[:2]
        if kw and n not in ('diagonal', 'trace', 'eye', 'zeros', 'ones', 'zeros_like', 'ones_like', 'full_like', 'apply_along_axis', 'expand_dims', 'einsum'):
            raise Unknown(n)
        if n in ('multiply', 'add', 'subtract', 'divide', 'true_divide') and len(args) == 2:
            return self.bin({'multiply': '*', 'add': '+', 'subtract': '-'}.get(n, '/'), self.ev(args[0]), self.ev(args[1]))
        if n == 'negative':
            return self.bin('*', self.const(-1), self.ev(args[0]))
        if n == 'eigvals' and len(args) == 1:
            return self.eig(self.ev(args[0]))
        if n in ('abs', 'absolute', 'sqrt') and len(args) == 1:
            a = self.ev(args[0])
            return Arr(a.axes, self.opaque('sqrt', a.d) if n == 'sqrt' else self.absolute(a.d))
        if n == 'reciprocal' and len(args) == 1:
            return self.power(self.ev(args[0]), -1)
        if n in ('power', 'float_power') and len(args) == 2 and is_c(args[1]):
            return self.power(self.ev(args[0]), args[1][2])
        if n == 'square' and len(args) == 1:
            return self.power(self.ev(args[0]), 2)
        if n in ('logical_not', 'invert'):
            return self.bin('-', self.const(1), self.ev(args[0]))
        if n in ('equal', 'not_equal') and len(args) == 2:
            return self.compare(self.ev(args[0]), self.ev(args[1]), n == 'equal')
        if n in ('array_equal', 'allclose') and len(args) == 2:
            return self.quantify('all', self.compare(self.ev(args[0]), self.ev(args[1]), True), None)
        if n == 'isclose' and len(args) == 2:
            return self.compare(self.ev(args[0]), self.ev(args[1]), True)
        if n in ('maximum', 'minimum', 'fmax', 'fmin') and len(args) == 2:
            axes, x, y = self.align(self.ev(args[0]), self.ev(args[1]))
            return Arr(axes, self.larger(x, y, x, y) if n in ('maximum', 'fmax') else self.larger(x, y, y, x))
        if n == 'where' and len(args) == 3:
            o = self.order(args[0])
            if o is not None:
                x, y = self.bin('-', self.ev(o[0]), self.ev(o[1])), self.bin('-', self.ev(args[1]), self.ev(args[2]))
                axes, dx, dy = self.align(x, y)
                lo = self.fresh_to(self.ev(args[2]), axes)
                return Arr(axes, add(lo, self.step(dx, dy)))
            v = self.ev(args[0])
            w = self.value(v.d)
            if v.unequal or w not in (0, 1):
                raise Unknown('where')
            axes = self.align(v, self.ev(args[1 if w else 2]))
            return Arr(axes[0], axes[2])
        if n in ('diag', 'diagflat') and len(args) == 1:
            return self.diag(self.ev(args[0]))
        if n == 'diagonal':
            a = self.ev(args[0])
            if (args[1:2] or [C(0)])[0] != C(0) or kw.get('offset', C(0)) != C(0):
                raise Unknown('offset')
            return self.diagonal(a, self.ints(kw.get('axis1', C(0)), 'axis'), self.ints(kw.get('axis2', C(1)), 'axis'))
        if n == 'trace' and len(args) == 1 and not kw:
            return self.reduce(self.diagonal(self.ev(args[0]), 0, 1), -1)
        if n in ('dot', 'matmul') and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if n == 'dot' and len(b.axes) > 2:
                raise Unknown('dot')
            return self.matmul(a, b)
        if n == 'einsum' and args and is_c(args[0]):
            return self.einsum(args[0][2], [self.ev(x) for x in args[1:]])
        if n == 'apply_along_axis' and len(args) == 3 and not kw:
            k, a = self.ints(args[1], 'axis'), self.fresh(self.ev(args[2]))
            k = self.axis(a, k)
            if args[0] == ('ext', 'numpy.diag'):
                w = self.var(a.axes[k][0])
                return Arr(a.axes[:k + 1] + (w,) + a.axes[k + 1:], self.mul(a.d, self.product([('d', a.axes[k], w)], ())))
            if args[0] in (('ext', 'numpy.sum'), ('ext', 'sum')):
                return self.reduce(a, k)
            raise Unknown('apply_along_axis')
        if n in ('eye', 'identity') and len(args) == 1:
            k = self.kind_of_size(args[0])
            v, w = self.var(k), self.var(k)
            return Arr((v, w), self.product([('d', v, w)], ()))
        if n in ('zeros', 'ones') and (args or 'shape' in kw):
            sh = args[0] if args else kw['shape']
            if sh[0] == 'f' and sh[2] == 'shape':
                axes = self.fresh(self.ev(sh[1])).axes
            else:
                axes = [self.var(self.kind_of_size(x)) for x in (sh[1] if sh[0] in ('tup', 'list') else (sh,))]
            return Arr(axes, self.const(0 if n == 'zeros' else 1).d)
        if n in ('zeros_like', 'ones_like'):
            a = self.ev(args[0])
            return Arr(a.axes, self.const(0 if n == 'zeros_like' else 1).d)
        if n in ('transpose', 'swapaxes', 'moveaxis'):
            a = self.ev(args[0])
            if n == 'transpose':
                p = args[1:] and (self.ints(args[1], 'axes') if len(args) == 2 else tuple(self.ints(x, 'axes') for x in args[1:]))
                order = [self.axis(a, k) for k in p] if p else list(range(len(a.axes)))[::-1]
            elif n == 'swapaxes':
                i, j = (self.axis(a, self.ints(x, 'axes')) for x in args[1:3])
                order = list(range(len(a.axes)))
                order[i], order[j] = order[j], order[i]
            else:
                raise Unknown(n)
            return Arr([a.axes[k] for k in order], a.d, a.unequal)
        raise Unknown(n)


def every(events):
    for x in events:
        yield x
        if x[0] == 'loop':
            for q in x[1].paths:
                yield from every(q.events)


def over(ev, a, kinds):
    """entries over the variables ('E',100…)"""
    if [v[0] for v in a.axes] != list(kinds):
        return None
    a = ev.fresh(a)
    return ev.ren(a.d, {v: (v[0], 10 ** 6 + i) for i, v in enumerate(a.axes)})


def show(d):
    def one(m, v):
        names = {}
        s = '*'.join((a[0][:a[0].index('[(')] + '..)' if '[(' in a[0] else a[0]) + '[' + ','.join(names.setdefault(x, x if isinstance(x, str) else ('e' if x[0] == 'E' else 'n') + str(abs(x[1]) % 10 ** 6)) for x in a[1:]) + ']' for a in m[0])
        return (f"{v:g}*" if v != 1 else '') + ('sum ' if m[1] else '') + (s or '1')
    return ' + '.join(one(m, v) for m, v in sorted(d.items(), key=repr)) or '0'


VIEWS = {'transpose', 'diagonal', 'ravel', 'reshape', 'view', 'swapaxes', 'squeeze', 'asarray', 'moveaxis', 'ascontiguousarray', 'expand_dims', 'atleast_1d',
         'atleast_2d', 'atleast_3d', 'asanyarray', 'real'}
INPLACE = {'fill', 'sort', 'put', 'itemset', 'resize', 'partition'}
FIRST = {'numpy.fill_diagonal', 'numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.put_along_axis'}


def view_of(t, fields):
    """the tensor that t is, or shows a part of"""
    while isinstance(t, tuple) and t:
        if t[0] == 'f' and t[1] == SELF:
            return t[2] if t[2] in fields else None
        if t[0] == 'f' and t[2] in ('T', 'flat', 'real'):
            t = t[1]
        elif t[0] == 'item':
            if any(is_c(x, True) or x[:1] in (('b',), ('call',), ('list',)) for x in (t[2][1] if t[2][0] == 'tup' else (t[2],))):
                return None
            t = t[1]
        elif t[0] == 'elem':
            return None
        elif t[0] == 'coll':
            t = t[1]
        elif t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'f' and t[1][2] in VIEWS:
            t = t[1][1]
        elif t[0] == 'call' and t[2] and (t[1] if isinstance(t[1], str) else t[1][1] if t[1][0] == 'ext' else '').startswith('numpy.') and \
                str(t[1] if isinstance(t[1], str) else t[1][1]).split('.')[-1] in VIEWS:
            t = t[2][0]
        else:
            return None
    return None


def altered(x):
    """the arrays an event alters in place"""
    if x[0] in ('setitem', 'aug', 'delitem'):
        yield x[1]
    if x[0] == 'vcall' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] in INPLACE:
        yield x[1][1]
    if x[0] == 'ecall':
        kw = dict(x[3])
        if x[1] in FIRST and x[2]:
            yield x[2][0]
        if x[1] == 'numpy.nan_to_num' and x[2] and kw.get('copy') == C(False):
            yield x[2][0]
        if 'out' in kw:
            yield from kw['out'][1] if kw['out'][0] == 'tup' else (kw['out'],)


def in_node(a, b):
    return any(x is b for x in ast.walk(a))


def in_init(m, n):
    return any(in_node(k.methods['__init__'].node, n) for k in m.classes.values() if '__init__' in k.methods)


def contains_field(t, k):
    if not isinstance(t, tuple):
        return False
    return t[:3] == ('f', SELF, k) or any(contains_field(x, k) for x in t)


def tensors(ctx, rule, contracts=None):
    m = Model(ctx)
    p = ctx.prog
    c = p.cls('NumpyTensorRepresentation')
    I = m.interp(implicit=False, contracts=contracts or {})

    def get(n):
        f = p.find(c, n)
        if f is None:
            return None, None
        st = State()
        st.types[SELF] = c
        st.vers['nonnull'] = (SELF,)
        out = [(s, sig) for s, sig in I.entry(f, [], st, recv=SELF)]
        ctx.paths += len(out)
        return f, out
    base = {}
    for n in ('W', 'Io', 'Ii'):
        f, out = get(n)
        if not out or len(out) != 1 or out[0][1][0] != 'return' or out[0][1][1][0] != 'f':
            ctx.und(rule, n, c.name, 'the tensors are not found')
            return c, m, I, get, None
        base[n] = out[0][1][1], 'ENN' if n == 'W' else 'EN'
    if len(set(base.values())) != 3:
        ctx.bad(rule, 'tensors', c.name, 'two of the three tensors are the same')
        return c, m, I, get, None
    return c, m, I, get, base


def p35(ctx):
    ctx.rule('normalized', 'the normalized Laplacian is the Laplacian divided by the number of edges less one and by the square root of one more than the degree of its column')
    ctx.rule('diagonal', 'the entropy vector is of the diagonal of the normalized Laplacian, in every edge')
    ctx.rule('spectrum', 'the projected entropy vector is of the absolute eigenvalues of the projected Laplacian over the total degree')
    p = ctx.prog
    names = {'calc_laplacian': 'ENN', 'degree_matrix': 'N', 'calc_normalized_laplacian': 'ENN', 'calc_projected_laplacian': 'NN', 'calc_total_deg': '',
             'diag_degree_matrix': 'NN', 'diag_degree_tensor': 'ENN'}
    c0 = p.cls('NumpyTensorRepresentation')
    jobs = [('calc_normalized_laplacian', 'normalized', 'ENN'), ('Lnorm', 'normalized', 'ENN'), ('entropy_vector', 'diagonal', None),
            ('entropy_projected_vector', 'spectrum', None)]
    for name, rule, kinds in jobs:
        own = {'calc_normalized_laplacian'} if name == 'Lnorm' else {name}
        calcs = {p.find(c0, n): symbol(n) for n in names if n not in own and p.find(c0, n) is not None}
        c, m, I, get, base = tensors(ctx, rule, calcs)
        if base is None:
            return
        f, out = get(name)
        if f is None:
            ctx.und(rule, name, c.name, 'not there')
            continue
        known = dict(base)
        known.update({n: (('sym', f"<{n}>"), k) for n, k in names.items()})

        def judge():
            for s, sig in out:
                if sig[0] == 'raise':
                    ctx.bad(rule, name, f.where, f"raises {exc_name(sig)}")
                    return
                value = I.freeze(s, sig[1])
                ev = Ev(known, True)
                try:
                    if kinds is None:
                        from .p_entropy import Point, Unknown as U2
                        try:
                            pt = Point(s, False)
                            pt.ev(sig[1])
                            lv = pt.leaves
                        except U2:
                            pt = Point(s, True)
                            try:
                                pt.ev(sig[1])
                            except U2 as x:
                                raise Unknown(str(x))
                            lv = pt.leaves
                        if len(lv) != 1:
                            raise Unknown('more than one spectrum')
                        value = I.freeze(s, next(iter(lv)))
                    if s.facts:
                        raise Unknown('depends on a condition')
                    targets = {x[1] for x in every(s.events) if x[0] == 'setitem'}
                    got = ev.run(s, value) if kinds is not None else ev.run(s, value, False)
                except Unknown as x:
                    ctx.und(rule, name, f.where, f"not understood: {x}")
                    return
                except Wrong as x:
                    ctx.bad(rule, name, f.where, f"{x} (edges, nodes)")
                    return
                e, n0, n1 = (('E', 10 ** 6), ('N', 10 ** 6 + 1), ('N', 10 ** 6 + 2))
                one = ev.const(1).d
                if rule == 'normalized':
                    d = over(ev, got, 'ENN')
                    w = ev.product([('calc_laplacian', e, n0, n1)], ())
                    w = ev.mul(w, ev.inverse(add(ev.product([('size', 'E')], ()), one, -1)))
                    w = ev.mul(w, ev.inverse(ev.opaque('sqrt', add(ev.product([('degree_matrix', n1)], ()), one))))
                elif rule == 'diagonal':
                    d = over(ev, got, 'EN')
                    w = ev.product([('calc_normalized_laplacian', e, n0, n0)], ())
                else:
                    d = over(ev, got, 'N')
                    w = ev.product([('eig calc_projected_laplacian', ('N', 10 ** 6))], ())
                    w = ev.absolute(ev.mul(w, ev.inverse(ev.product([('calc_total_deg',)], ()))))
                if d is None:
                    ctx.bad(rule, name, f.where, f"over {''.join(v[0] for v in got.axes) or 'nothing'} (E edges, N nodes)")
                    return
                if targets and add(d, w, -1):
                    ctx.und(rule, name, f.where, 'assembled in place')
                    return
                ctx.ob(rule, name, not add(d, w, -1), f.where, '' if not add(d, w, -1) else f"{show(d)} instead of {show(w)}")
        ctx.guard(rule, name, judge, where=f.where)
    ctx.minimum = 3


def symbol(n):
    def f(I, st, recv, args, kw, fr, node, fi=None):
        return [(st, ('sym', f"<{n}>"))]
    return f


def p34(ctx):
    ctx.rule('degree', 'the degree of a node is the sum of its incidences; one that is both outgoing and incoming counts once')
    ctx.rule('total', 'the total degree is the sum of the degrees')
    ctx.rule('diagonal', 'degree matrix and degree tensor have entries on the diagonal only: the degrees, and half the weights of the connections within the edge')
    ctx.rule('laplacian', 'the Laplacians are the degrees less the weights, hence symmetric; in graphs whose edges join two nodes the rows of the projected one sum to zero')
    ctx.rule('fresh', 'every figure is of the tensors as they are now, and leaves them as they are')
    p = ctx.prog
    c, m, I, get, base = tensors(ctx, 'degree')
    if base is None:
        return
    e, n, n1 = ('E', 10 ** 6), ('N', 10 ** 6), ('N', 10 ** 6 + 1)

    def want(ev, what):
        k = ev.const
        if what == 'degree':
            b = ('E', 5)
            d = ev.product([('Io', b, n)], [b])
            return d if ev.und else add(d, ev.product([('Ii', b, n)], [b]))
        if what == 'total':
            return ev.sum(want(ev, 'degree'), [n])
        if what == 'D':
            return ev.mul(want(ev, 'degree'), ev.product([('d', n, n1)], ()))
        if what == 'DD':
            v, w = ('N', 7), ('N', 10 ** 6 + 2)
            i = ('N', 10 ** 6 + 1)
            r = ev.product([('W', e, v, i)], [v])
            return {q: 0.5 * x for q, x in ev.mul(r, ev.product([('d', i, w)], ())).items()}
        if what == 'L':
            return add(want(ev, 'DD'), ev.product([('W', e, ('N', 10 ** 6 + 1), ('N', 10 ** 6 + 2))], ()), -1)
        if what == 'Lp':
            b = ('E', 6)
            return add(want(ev, 'D'), ev.product([('W', b, n, n1)], [b]), -1)
    # accessor, kinds of the axes, rule, what, which graphs
    jobs = [('degree_matrix', 'N', 'degree', 'degree', (True, False)), ('deg', 'N', 'degree', 'degree', (True,)),
            ('calc_total_deg', '', 'total', 'total', (True, False)), ('total_deg', '', 'total', 'total', (True,)),
            ('diag_degree_matrix', 'NN', 'diagonal', 'D', (True, False)), ('D', 'NN', 'diagonal', 'D', (True,)),
            ('diag_degree_tensor', 'ENN', 'diagonal', 'DD', (True,)), ('DD', 'ENN', 'diagonal', 'DD', (True,)),
            ('calc_laplacian', 'ENN', 'laplacian', 'L', (True,)), ('L', 'ENN', 'laplacian', 'L', (True,)),
            ('calc_projected_laplacian', 'NN', 'laplacian', 'Lp', (True, False)), ('Lp', 'NN', 'laplacian', 'Lp', (True,))]
    for name, kinds, rule, what, graphs in jobs:
        f, out = get(name)
        if f is None:
            ctx.und(rule, name, c.name, 'not there')
            continue
        where = f.where
        for und in graphs:
            con = f"{name}, {'undirected' if und else 'directed'} graph"

            def judge():
                if len(out) != 1:
                    ctx.und(rule, con, where, f"{len(out)} paths")
                    return
                s, sig = out[0]
                if sig[0] == 'raise':
                    ctx.bad(rule, con, where, f"raises {exc_name(sig)}")
                    return
                if s.facts:
                    ctx.und(rule, con, where, 'depends on a condition')
                    return
                value = I.freeze(s, sig[1])
                targets = {x[1] for x in every(s.events) if x[0] == 'setitem'}
                mixed = any(x != value and contains(value, lambda y, x=x: y == x) for x in targets)
                made = [x[4] for x in every(s.events) if x[0] == 'ecall' and x[4] in targets]
                if len(made) != len(set(made)):
                    ctx.und(rule, con, where, 'two arrays that are told apart by nothing')
                    return
                ev = Ev(base, und)
                try:
                    got = ev.run(s, value)
                    if got.unequal:
                        raise Unknown('a comparison')
                except Unknown as x:
                    ctx.und(rule, con, where, f"not understood: {x}")
                    return
                except Wrong as x:
                    ctx.bad(rule, con, where, f"{x} (edges, nodes)")
                    return
                d = over(ev, got, kinds)
                if d is None:
                    ctx.bad(rule, con, where, f"an array over {''.join(v[0] for v in got.axes) or 'nothing'} instead of {kinds or 'nothing'} (E edges, N nodes)")
                    return
                w = want(ev, what)
                if mixed and add(d, w, -1):
                    ctx.und(rule, con, where, 'read between the steps of its assembly')
                    return
                diff = add(d, w, -1)
                ctx.ob(rule, con, not diff, where, '' if not diff else f"{show(d)} instead of {show(w)}")
                if und and what in ('L', 'Lp', 'D', 'DD'):
                    x, y = got.axes[-2:]
                    z = ev.var('N')
                    sw = ev.ren(ev.ren(ev.ren(got.d, {x: z}), {y: x}), {z: y})
                    ctx.ob(rule, con + ': symmetric', not add(sw, got.d, -1), where, 'not symmetric')
                if und and what == 'Lp':
                    ev2 = Ev(base, True, True)
                    g2 = ev2.run(s, value)
                    for k in (0, 1):
                        r = ev2.reduce(g2, k)
                        ctx.ob(rule, con + f": sums along axis {k}", not r.d, where, f"the rows sum to {show(r.d)} when every edge joins two nodes")
            ctx.guard(rule, con, judge, where=where)
    # ---- calculating leaves the tensors alone, and is done anew each time
    top = p.cls('AbstractTensorRepresentation')
    fields = {b[0][2] for b in base.values()}
    runs = {}
    for fn in sorted(top.methods):
        f = p.find(c, fn)
        if f is None or f.is_abstract or f.is_async or fn.startswith('_') or len(f.node.args.args) != 1 or fn in top.setters:
            continue
        ctx.guard('fresh', fn, lambda: runs.__setitem__(fn, (f, get(fn)[1])), where=f.where)
    kept = {x[2] for _, (f, out) in runs.items() for s, _ in out or () for x in every(s.events) if x[0] == 'write' and x[1] == SELF}
    renewed = {n.attr for m2 in p.modules.values() for n in ast.walk(m2.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))
               and not any(in_node(f.node, n) for f, _ in runs.values()) and not in_init(m2, n)}
    for fn, (f, out) in runs.items():
        hurt, old = None, None
        for s, sig in out or ():
            for x in every(s.events):
                for t in altered(x):
                    if view_of(t, fields):
                        hurt = hurt or (x[-1], view_of(t, fields))
                if x[0] == 'write' and x[1] == SELF and x[2] in fields:
                    hurt = hurt or (x[-1], x[2])
            if sig[0] == 'return':
                for k in kept - fields - renewed:
                    if contains_field(sig[1], k):
                        old = k
        ctx.ob('fresh', fn + ': leaves the tensors alone', hurt is None, f.where, '' if hurt is None else f"alters {hurt[1]} in line {hurt[0][1]}")
        ctx.ob('fresh', fn + ': of the tensors as they are', old is None, f.where, f"returns {old}, which is not renewed when the tensors are filled again")
    ctx.minimum = 24
