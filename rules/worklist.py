"""Work lists: what is put in, what is taken out, and what a turn of the main loop does (shared by P14, P17, P18)."""
import itertools
import math
from sa.interp import NONE, C, is_c, contains, subst
from .p_hier import flat, where_of

PUTS = ('add', 'addleft')


def strip(c):
    while c is not None and c[0] in ('coll', 'iter'):
        c = c[1]
    return c


class Put:
    """One way a value is put: `chain` = the loops it is in (with the path through each), outermost first."""
    def __init__(self, value, op, chain, facts):
        self.value, self.op, self.chain, self.facts = value, op, chain, facts


def puts(I, ops, cont, chain=(), facts=()):
    """(list of Put, ok) for a list of operations on a container; ok is False when one of them is not a put or loop"""
    out, ok = [], True
    for o in ops:
        if o[0] in PUTS:
            out.append(Put(o[1], o[0], chain, tuple(facts)))
        elif o[0] == 'insert' and len(o) == 3:
            out.append(Put(o[2], 'addleft' if is_c(o[1], 0) else 'insert', chain, tuple(facts)))
        elif o[0] == 'iter':
            lp = I.loops[o[1]]
            for p in lp.paths:
                x, k = puts(I, I.path_ops(lp, p, cont), cont, chain + ((lp, p),), tuple(facts) + tuple(p.facts))
                out += x
                ok = ok and k
        elif o[0] == 'take':
            continue
        else:
            ok = False
    return out, ok


def loops_in(events, deep=True):
    """loops among events, outermost first, each with the loop it lies in"""
    for e in events:
        if e[0] == 'loop':
            yield e[1]
            if deep:
                for p in e[1].paths:
                    yield from loops_in(p.events)


def bound(s):
    """where a run makes a queue that holds a bounded number of entries: a put into a full one waits for ever, or drops"""
    for e in flat(s.events):
        if e[0] == 'bounded':
            return where_of(e[2])
    return None


def find_main(I, s):
    """(loop, container): the loop whose turns take work from a container; a list of all of them"""
    out = []
    seen = set()
    for lp in loops_in(s.events):
        if lp.lid in seen:
            continue
        seen.add(lp.lid)
        conts = set()
        for p in lp.paths:
            for cont in p.st.ops:
                if any(o[0] == 'take' for o in I.path_ops(lp, p, cont)):
                    conts.add(cont)
        for c in sorted(conts, key=repr):
            out.append((lp, c))
    return out


def number(t, env):
    """numeric value of a term"""
    if t in env:
        return env[t]
    if t[0] == 'f' and 'depth of' in env:
        return env['depth of'](t)
    if t[0] == 'c' and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
        return t[2]
    if t[0] == 'ext' and t[1] == 'math.inf':
        return math.inf
    if t[0] == 'op' and len(t) == 4:
        a, b = number(t[2], env), number(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {'+': a + b, '-': a - b, '*': a * b}.get(t[1])
        except (OverflowError, ValueError):
            return None
    if t[0] == 'op' and len(t) == 3 and t[1] == '-':
        a = number(t[2], env)
        return None if a is None else -a
    if t[0] == 'call' and len(t) > 2 and t[1] in ('min', 'max', ('ext', 'min'), ('ext', 'max')):
        xs = [number(x, env) for x in t[2]]
        n = t[1] if isinstance(t[1], str) else t[1][1]
        return None if None in xs or not xs else (min(xs) if n == 'min' else max(xs))
    return None


def truth(atom, env):
    """truth of a fact about numbers"""
    if atom[0] in ('lt', 'eq', 'is') and len(atom) >= 3:
        if atom[0] != 'lt' and NONE in atom[1:3]:
            x = atom[2] if atom[1] == NONE else atom[1]
            return False if number(x, env) is not None else None
        a, b = number(atom[1], env), number(atom[2], env)
        if a is None or b is None:
            return None
        return a < b if atom[0] == 'lt' else a == b
    if atom[0] == 'truthy':
        a = number(atom[1], env)
        return None if a is None else bool(a)
    if atom[0] == 'isinst' and len(atom) == 3 and atom[1] in env:
        return None
    return None


def possible(facts, env):
    for a, pol in facts:
        t = truth(a, env)
        if t is not None and t != pol:
            return False
    return True


def foreign(facts, env, known):
    """facts that neither the numbers nor the known atoms explain"""
    return [(a, p) for a, p in facts if truth(a, env) is None and not known(a)]


def construct(I, m, c, types=None):
    """states after running the constructor of c on SELF with one symbol per parameter; [(state, parameter names)]"""
    from .hier import SELF
    fi = m.p.find(c, '__init__')
    st = m.start(c)
    names = []
    if fi is not None:
        names = [a.arg for a in fi.node.args.args][1:] + [a.arg for a in fi.node.args.kwonlyargs]
    for n in names:
        t = (types or {}).get(n)
        if t is not None:
            st.types[('sym', n)] = t
    st.vers['nonnull'] = (SELF,) + tuple(('sym', n) for n in names)
    out = []
    rs = I.entry(fi, [], st, recv=SELF, kwargs={n: ('sym', n) for n in names}) if fi is not None else [(st, ('return', NONE))]
    for s, sig in rs:
        if sig[0] == 'return':
            s.events = [e for e in flat(s.events) if e[0] == 'bounded']
            s.vers['whole'] = (SELF,)
            s.vers['born'] = tuple(('o', k) if not isinstance(k, tuple) else k for k in s.heap)
            out.append(s)
    return out, names
