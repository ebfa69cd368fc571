"""Client programs over the library: models built through its public operations from symbolic numbers and texts.
Nothing is executed: the abstract interpreter evaluates the program over the term domain, following every path the
code under analysis has for these arguments; identifiers and clock times are replaced by fresh constants."""
import math
import time
from sa.interp import NONE, C, is_c, State, contains
from sa.loader import AnalysisError, FuncInfo


SCENE_SECONDS = 60          # a scene that takes longer is undecided


class World:
    def __init__(self, ctx, names, lib='', pre=''):
        self.ctx, self.p = ctx, ctx.prog
        self.head = '\n'.join(self.imports(n) for n in names) + '\n' + pre
        self.lib = lib
        self.count = 0

    def imports(self, n):
        for m in self.p.modules.values():
            if n in m.classes or n in m.functions:
                return f"from {m.name} import {n}"
        raise AnalysisError(f"{n} not found")

    def interp(self):
        I = self.ctx.interp(implicit=False)
        I.unroll = True
        seq = [0]

        def uid(I, st, recv, args, kw, fr, node, fi=None):
            seq[0] += 1
            return [(st, C(b'u%d' % seq[0]))]

        def time(I, st, recv, args, kw, fr, node, fi=None):
            seq[0] += 1
            return [(st, C(1000000000 + seq[0]))]
        I.contracts['fn:generate_uid'] = uid
        for n in ('get_time_ns', 'get_time', 'get_time_sec'):
            I.contracts['fn:' + n] = I.contracts['m:' + n] = time
        return I

    def run(self, src, types=None, **symbols):
        """(interpreter, [(state, signal)]) of `def scene(...)` in src"""
        self.count += 1
        name = f"vclient{self.count}"
        m = self.p.add(name, self.head + '\n' + self.lib + '\n' + src)
        fi = m.functions['scene']
        I = self.interp()
        I.deadline = min(I.deadline, time.time() + SCENE_SECONDS)
        st = State()
        args = {}
        for a in fi.node.args.args:
            n = a.arg
            args[n] = symbols.get(n, ('sym', n))
            if args[n][0] == 'sym':
                st.types[args[n]] = (types or {}).get(n, self.p.cls('MetaClock') if n == 'clock' else None)
                if st.types[args[n]] is None:
                    del st.types[args[n]]
        st.vers['nonnull'] = tuple(v for v in args.values() if v[0] == 'sym')
        out = []
        for s, sig in I.entry(fi, [], st, kwargs=args):
            self.ctx.paths += 1
            if sig[0] == 'return' and I.kind(s, sig[1]) == 'coro':
                from .drive import awaited
                out += awaited(I, s, sig[1], fi)
            else:
                out.append((s, sig))
        return I, out


# ------------------------------------------------------------------------------------------------------ emitted documents
class Unclear(Exception):
    pass


class Node:
    def __init__(self, tag, attrib, text, children):
        self.tag, self.attrib, self.text, self.children = tag, attrib, text, children

    def all(self, tag):
        return [c for c in self.children if c.tag == tag]

    def find(self, *path):
        cur = [self]
        for t in path:
            cur = [c for x in cur for c in x.children if c.tag == t]
        return cur

    def deep(self, tag):
        out = []
        for c in self.children:
            if c.tag == tag:
                out.append(c)
            out += c.deep(tag)
        return out

    def __repr__(self):
        return f"<{self.tag} {self.attrib} {self.text} {self.children}>"


def items(I, s, v):
    """members of a list value"""
    if v[0] in ('tup', 'list'):
        return list(v[1])
    got = I.known_items(s, v)
    if got is None:
        raise Unclear('list with unknown members')
    return list(got)


def document(I, s, v):
    o = I.hobj(s, v)
    if o is None or o.kind != 'xml':
        raise Unclear('no element')
    from .p_ident import text, merge
    tag = o.fields['tag']
    if tag[0] != 'c':
        raise Unclear('tag')
    kids = []
    for op in s.ops.get(v, ()):
        if op[0] == 'add':
            kids.append(document(I, s, op[1]))
        elif op[0] == 'splice':
            kids += [document(I, s, x) for x in items(I, s, op[1])]
        elif op[0] == 'insert' and is_c(op[1]) and isinstance(op[1][2], int):
            kids.insert(op[1][2], document(I, s, op[2]))
        else:
            raise Unclear(f"children: {op[0]}")
    attrib = {}
    for op in s.ops.get(o.fields['attrib'], ()):
        if op[0] == 'set' and op[1][0] == 'c':
            attrib[op[1][2]] = merge(text(I.freeze(s, op[2])))
        else:
            raise Unclear('attributes')
    t = o.fields.get('text', NONE)
    return Node(tag[2], attrib, None if t == NONE else merge(text(I.freeze(s, t))), kids)


def tokens(parts):
    """white-space separated tokens, each a list of parts"""
    out, cur = [], []
    for x in parts or []:
        if x[0] == 'c':
            t = str(x[2])
            words = t.split()
            if t[:1].isspace() and cur:
                out.append(cur)
                cur = []
            for i, w in enumerate(words):
                if i:
                    out.append(cur)
                    cur = []
                cur = cur + [C(w)]
            if words and t[-1:].isspace():
                out.append(cur)
                cur = []
        elif x[0] == 'join':
            if contains(x, lambda t: isinstance(t, tuple) and t[:1] == ('call',) and t[1] in ('sorted', 'set', 'frozenset')):
                raise Lossy('the order of the values is not kept')
            raise Unclear('join')
        else:
            cur = cur + [x]
    if cur:
        out.append(cur)
    return out


# ------------------------------------------------------------------------------------------------------ numbers
class Poly:
    """quotient of polynomials over the symbols, with floating coefficients"""

    def __init__(self, num, den=None):
        self.num = {k: v for k, v in num.items() if abs(v) > 1e-15}
        self.den = den or {(): 1.0}

    @staticmethod
    def mul(a, b):
        out = {}
        for k, v in a.items():
            for l, w in b.items():
                m = tuple(sorted(k + l))
                out[m] = out.get(m, 0.0) + v * w
        return out

    @staticmethod
    def plus(a, b, f=1.0):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0.0) + f * v
        return out

    def __add__(self, o):
        return Poly(self.plus(self.mul(self.num, o.den), self.mul(o.num, self.den)), self.mul(self.den, o.den))

    def __sub__(self, o):
        return Poly(self.plus(self.mul(self.num, o.den), self.mul(o.num, self.den), -1.0), self.mul(self.den, o.den))

    def __mul__(self, o):
        return Poly(self.mul(self.num, o.num), self.mul(self.den, o.den))

    def __truediv__(self, o):
        if not o.num:
            raise Unclear('division by zero')
        return Poly(self.mul(self.num, o.den), self.mul(self.den, o.num))

    def __eq__(self, o):
        a, b = self.mul(self.num, o.den), self.mul(o.num, self.den)
        top = max([abs(v) for v in a.values()] + [abs(v) for v in b.values()] + [1e-300])
        return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= 1e-9 * top for k in set(a) | set(b))


PI = {'math.pi', 'numpy.pi'}
RAD = {'math.radians', 'numpy.radians', 'numpy.deg2rad'}
DEG = {'math.degrees', 'numpy.degrees', 'numpy.rad2deg'}
KEEP = {'float', 'numpy.float64', 'numpy.double'}
LOSS = {'int', 'round', 'numpy.round', 'numpy.around', 'math.floor', 'math.ceil', 'math.trunc', 'numpy.floor', 'numpy.ceil', 'abs', 'math.fabs', 'numpy.abs', 'min', 'max'}


class Lossy(Exception):
    pass


def K(x):
    return Poly({(): float(x)})


def V(n):
    return Poly({(n,): 1.0})


def number(v):
    """quotient of polynomials a term stands for; Lossy when it certainly is none (rounded, floored)"""
    if v[0] == 'c':
        if isinstance(v[2], (int, float)) and not isinstance(v[2], bool):
            return K(v[2])
        if isinstance(v[2], str):
            try:
                return K(float(v[2]))
            except ValueError:
                raise Lossy(f"the text {v[2]!r}")
        raise Lossy(f"{v[2]!r}")
    if v[0] == 'sym':
        return V(v[1])
    if v[0] == 'str':
        return number(v[1])
    if v[0] == 'cat' and len(v[1]) == 1:
        return number(v[1][0])
    if v == ('pi',) or v[0] == 'ext' and v[1] in PI:
        return K(math.pi)
    if v[0] == 'op':
        if v[1] == 'neg' and len(v) == 3:
            return K(0) - number(v[2])
        if len(v) == 4:
            if v[1] in ('//', '%'):
                raise Lossy(f"operator {v[1]}")
            a = number(v[2])
            if v[1] == '**':
                if is_c(v[3]) and isinstance(v[3][2], (int, float)) and float(v[3][2]).is_integer() and 0 <= v[3][2] <= 12:
                    r = K(1)
                    for _ in range(int(v[3][2])):
                        r = r * a
                    return r
                raise Unclear('power')
            b = number(v[3])
            if v[1] in '+-*/':
                return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__}[v[1]](b)
    if v[0] == 'call' and isinstance(v[1], str):
        if v[1] in RAD:
            return number(v[2][0]) * K(math.pi / 180)
        if v[1] in DEG:
            return number(v[2][0]) * K(180 / math.pi)
        if v[1] in KEEP and len(v[2]) == 1:
            return number(v[2][0])
        if v[1] in ('math.pow', 'pow', 'numpy.power') and len(v[2]) == 2:
            return number(('op', '**', v[2][0], v[2][1]))
        if v[1] in ('numpy.square',):
            return number(('op', '**', v[2][0], C(2)))
        if v[1] in LOSS:
            raise Lossy(f"{v[1]}()")
    if v[0] == 'item' and v[1][0] == 'call' and v[1][1] in RAD | DEG and is_c(v[2]) and v[1][2][0][0] in ('list', 'tup') and isinstance(v[2][2], int):
        return number(('call', v[1][1], (v[1][2][0][1][v[2][2]],)))
    if v[0] == 'item' and v[1][0] == 'call' and v[1][1] == 'sorted':
        raise Lossy('the order of the values is not kept')
    if v[0] == 'fmt':
        spec = str(v[2]).strip("'\"f")
        if not spec and v[3] in (-1, 115, 114):
            return number(v[1])
        raise Lossy(f"format {spec}")
    raise Unclear(f"{str(v)[:60]}")


def same(parts, want):
    """does one token stand for the number? True / False / None, why"""
    if not isinstance(parts, list):
        parts = [parts]
    if len(parts) != 1:
        if all(x[0] in ('c', 'sym') for x in parts):
            return False, 'the text is ' + ' '.join(str(x[-1]) for x in parts)
        return None, 'several parts'
    try:
        got = number(parts[0])
    except Lossy as e:
        return False, str(e)
    except Unclear as e:
        return None, str(e)
    return got == want, '' if got == want else poly(got)


def poly(p):
    def one(d):
        return ' + '.join(f"{round(v, 6)}{'*' if k else ''}{'*'.join(k)}" for k, v in sorted(d.items())) or '0'
    return one(p.num) + ('' if p.den == {(): 1.0} else f" / ({one(p.den)})")
