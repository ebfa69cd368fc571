"""P21: indices.  P22: orientation and size of the tensors.  (P10 'weights' uses the truth table of the traversal.)"""
from sa.interp import NONE, TRUE, FALSE, C, is_c, contains, Frame
from sa.loader import AnalysisError
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from .p_edges import DIRS, INC, dir_consts, admits, rec_op
from .p_trav import Walk, copy_queue, concrete
from .p_query import emissions
from .p_codec import Codec, index_of, batches, batch, INDEX, ONE
from .p_runs import Runs, carried
from . import worklist as W

NORM = 'norm of the weight'
COPY = {'numpy.array', 'numpy.copy', 'numpy.asarray', 'numpy.ravel', 'numpy.squeeze', 'copy.copy', 'copy.deepcopy', 'list', 'tuple',
        'numpy.asfarray', 'float', 'numpy.float64'}


def fname(f):
    if isinstance(f, str):
        return f
    if isinstance(f, tuple) and f[:1] == ('ext',):
        return f[1]
    return None


# ------------------------------------------------------------------------------------------------ the tuples of a traversal
class Vec:
    """Entries of small numeric vectors: a number times symbols, for one relation of a given direction and weight"""
    def __init__(self, I, m, rel, inc, weightf, st=None):
        self.I, self.m, self.rel, self.inc, self.weightf, self.st = I, m, rel, inc, weightf, st

    def scalar(self, t):
        """(factor, symbols) of a scalar term or None"""
        if t[0] == 'c' and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
            return float(t[2]), ()
        if t[0] == 'item' and len(t) >= 3:
            if is_c(t[2]) and isinstance(t[2][2], int):
                return self.entry(t[1], t[2][2])
            return None
        if t[0] == 'op' and len(t) == 4 and t[1] == '*':
            return self.mul(self.scalar(t[2]), self.scalar(t[3]))
        if t[0] == 'op' and len(t) == 3 and t[1] in ('neg', '-'):
            return self.mul((-1.0, ()), self.scalar(t[2]))
        if t[0] in ('call', 'mcall') and self.is_norm(t):
            return 1.0, (NORM,)
        if t[0] == 'call' and fname(t[1]) in COPY and len(t[2]) >= 1:
            return self.scalar(t[2][0])
        return None

    def is_norm(self, t):
        args = None
        if t[0] == 'mcall' and t[2] == 'norm':
            args = t[3]
        elif t[0] == 'call' and isinstance(t[1], tuple) and t[1][:1] == ('f',) and t[1][2] == 'norm':
            args = t[2]
        if args is None:
            return False
        return any(contains(a, lambda x: isinstance(x, tuple) and x[:1] == ('f',) and len(x) > 2 and x[1] == self.rel and x[2] == self.weightf)
                   for a in args)

    def mul(self, a, b):
        if a is None or b is None:
            return None
        if a[0] == 0 or b[0] == 0:
            return 0.0, ()
        return a[0] * b[0], tuple(sorted(a[1] + b[1]))

    def entry(self, t, i):
        """entry i of a vector; a scalar stands for a vector of it"""
        if t[0] == 'o' and self.st is not None:
            t = self.I.freeze(self.st, t)
        if t[0] in ('list', 'tup'):
            if 0 <= i < len(t[1]) or -len(t[1]) <= i < 0:
                return self.scalar(t[1][i])
            return None
        if t[0] == 'f' and t[1] == self.rel and t[2] == self.inc[0]:
            v = self.inc[1]
            return None if v is None or not -len(v) <= i < len(v) else (float(v[i]), ())
        if t[0] == 'call' and t[2]:
            n = fname(t[1])
            if n in COPY:
                return self.entry(t[2][0], i)
            if n == 'numpy.multiply' and len(t[2]) == 2:
                return self.mul(self.entry(t[2][0], i), self.entry(t[2][1], i))
            if n in ('numpy.ones', 'numpy.ones_like'):
                return 1.0, ()
            if n in ('numpy.zeros', 'numpy.zeros_like'):
                return 0.0, ()
            if n == 'numpy.dot' and len(t[2]) == 2 and any(x[0] == 'c' or (x[0] in ('call', 'mcall') and self.is_norm(x)) for x in t[2]):
                return self.mul(self.entry(t[2][0], i), self.entry(t[2][1], i))
        if t[0] in ('mcall',) and t[2] in ('copy', 'tolist', 'astype', 'ravel') and not self.is_norm(t):
            return self.entry(t[1], i)
        if t[0] == 'call' and isinstance(t[1], tuple) and t[1][:1] == ('f',) and t[1][2] in ('copy', 'tolist', 'astype', 'ravel'):
            return self.entry(t[1][1], i)
        if t[0] == 'op' and len(t) == 4 and t[1] == '*':
            return self.mul(self.entry(t[2], i), self.entry(t[3], i))
        return self.scalar(t)

    def truth(self, a):
        """truth of a fact about entries"""
        if a[0] in ('eq', 'is', 'lt') and len(a) == 3:
            x, y = self.scalar(a[1]), self.scalar(a[2])
            if x is None or y is None:
                return None
            if not x[1] and not y[1]:
                return x[0] < y[0] if a[0] == 'lt' else x[0] == y[0]
            if a[0] != 'lt' and ((x[0] == 0) != (y[0] == 0)):
                return False                       # the norm of a weight that is not zero
            return None
        if a[0] == 'truthy':
            x = self.scalar(a[1])
            return None if x is None else x[0] != 0
        return None


class Tuples:
    """What a traversal emits for one relation"""
    def __init__(self, ctx, m):
        p = self.p = m.p
        self.ctx, self.m = ctx, m
        self.T, self.H = p.cls('HypergraphTraversal'), p.cls('IndexHomomorphismGraphTensor')
        self.REL = p.cls('HypergraphRelation')
        con = {'ext:copy.copy': copy_queue}
        for n in INDEX:
            f = p.find(self.H, n)
            if f is not None:
                con[f] = con['m:' + n] = index_of(n)

        def norm(I, st, recv, args, kw, fr, node, fi=None):
            return [(st, ('mcall', recv, 'norm', tuple(args) + tuple(kw.values()), ()))]
        con['fn:norm'] = con['m:norm'] = norm
        self.w = Walk(ctx, m, self.T, 'orientation', contracts=con)
        self.I = self.w.I
        self.K = dir_consts(p)
        self.WGT = m.field_of(self.REL, 'weight')
        self.UUID = m.field_of(self.REL, 'uuid')
        self.incf = m.field_of(self.REL, 'relation_incidence_value', need=False) or '_relation_incidence_value'
        self.inc = {D: self.incidence(D) for D in DIRS}

    def incidence(self, D):
        m, p = self.m, self.p
        from .p_edges import vector
        I = m.interp(implicit=False, contracts={'fn:add_element': rec_op, 'fn:connect': rec_op})
        f = p.find(self.REL, '__init__')
        names = [a.arg for a in f.node.args.args][1:]
        args = {k: ('sym', k) for k in names if k != 'parent'}
        args['direction'] = self.K[D]
        out = set()
        for s, sig in I.entry(f, [], m.start(self.REL), recv=SELF, kwargs=args):
            if sig[0] != 'return':
                continue
            out.add(vector(I.freeze(s, I.load_field(s, SELF, self.incf)) if hasattr(I, 'load_field') else I.freeze(s, s.fields.get((SELF, self.incf)))))
        return out.pop() if len(out) == 1 else None

    def base(self, t):
        """the element an identification stands for"""
        while True:
            if t[0] == 'mcall' and t[2] in INDEX and len(t[3]) == 1:
                t = t[3][0]
            elif t[0] == 'f' and t[2] == self.UUID:
                t = t[1]
            else:
                return t

    def index_used(self, t):
        return t[2] if t[0] == 'mcall' and t[2] in INDEX else None


def table(ctx, m, T, rule_o, rule_p=None, rule_w=None, rule_s=None, kinds=(False, True)):
    """truth table of the emitted tuples over direction and weight; returns the layout of a tuple"""
    w, I = T.w, T.I
    done = {}
    layouts = set()
    for s0, s, sig in w.runs():
        if W.bound(s):
            ctx.bad(rule_o, T.T.name, W.bound(s), 'the work list holds only a bounded number of entries')
        mains = W.find_main(I, s)
        if len(mains) != 1:
            ctx.und(rule_o, T.T.name, w.f.where, f"{len(mains)} work loops")
            continue
        lp, Q = mains[0]
        ini, ok = W.puts(I, lp.pre.ops.get(Q, ()), Q)
        turns = w.turns(lp, Q)
        _, el, pos = w.element_of(turns, ini[0].value if ini else None)
        if el is None:
            ctx.und(rule_o, T.T.name, w.f.where, 'element of a turn')
            continue
        for t in turns:
            q = t['path']
            if not t['takes'] or q.sig is not None and q.sig[0] not in ('continue',):
                continue
            isr = I.isinst(q.st, el, T.REL)
            if isr is False:
                continue
            if isr is None or not any(a[0] == 'isinst' and a[1] == el and pol and a[2] is T.REL for a, pol in q.facts):
                continue
            if any(a[0] == 'in' and a[1] in (el, ('f', el, T.UUID, 0)) and pol for a, pol in q.facts):
                continue                                          # visited before
            relation(ctx, m, T, el, q, lp, done, layouts, rule_o, rule_p, rule_w, rule_s, kinds)
    return layouts, done


def visits(I, events, chain=()):
    for e in events:
        if e[0] == 'vcall' and e[1] == ('sym', 'visitor_func'):
            yield e, chain
        if e[0] == 'loop':
            for q in e[1].paths:
                yield from visits(I, q.events, chain + ((e[1], q),))


def items(I, st, v, chain):
    """(tuple value, chain) of what a visitor is given; None when not understood"""
    v0 = v
    while v[0] in ('coll', 'iter') or (v[0] == 'call' and fname(v[1]) in ('list', 'tuple', 'iter') and len(v[2]) == 1):
        v = v[1] if v[0] in ('coll', 'iter') else v[2][0]
    out = []
    if v[0] == 'o':
        ops = st.ops.get(v, ())
        for o, ch, fs in emissions(I, ops, v):
            if o[0] not in ('add', 'addleft', 'sadd'):
                return None
            out.append((I.freeze(ch[-1][1].st if ch else st, o[1]), chain + tuple(ch)))
        if not ops:
            f = I.freeze(st, v)
            if f != v:
                return items(I, st, f, chain)
        return out
    if v[0] in ('list', 'tup'):
        for x in v[1]:
            if x[0] == 'each':
                lp = I.loops.get(x[1])
                if lp is None:
                    return None
                for q in lp.paths:
                    for o, ch, fs in emissions(I, I.path_ops(lp, q, x[2]), x[2]):
                        if o[0] not in ('add', 'addleft', 'sadd'):
                            return None
                        out.append((I.freeze((ch[-1][1] if ch else q).st, o[1]), chain + ((lp, q),) + tuple(ch)))
            elif x[0] == 'splice':
                return None
            else:
                out.append((x, chain))
        return out
    return None


def relation(ctx, m, T, el, q, lp, done, layouts, rule_o, rule_p, rule_w, rule_s, kinds):
    I = T.I
    where = where_of(lp.loc)
    DIR = ('f', el, T.w.DIR, 0)
    WT = ('f', el, T.WGT, 0)
    for D in DIRS:
        if admits(q.facts, DIR, D, T.K) is False:
            continue
        for weighted in kinds:
            vec = Vec(I, m, el, (T.incf, T.inc[D]), T.WGT, q.st)
            live = True
            unknown = []
            for a, pol in q.facts:
                if a[0] in ('is', 'eq') and NONE in a[1:3] and WT in a[1:3]:
                    t = not weighted
                elif a == ('truthy', WT):
                    t = weighted
                elif a[0] in ('is', 'eq') and DIR in a[1:3] or contains(a, lambda x: x == DIR):
                    continue
                else:
                    t = vec.truth(a)
                if t is None and contains(a, lambda x: x == WT or x == ('f', el, T.incf, 0)):
                    unknown.append(a)
                if t is not None and t != pol:
                    live = False
            if not live:
                continue
            con = f"{D} {'weighted' if weighted else 'without weight'}"
            done[(D, weighted)] = done.get((D, weighted), 0) + 1
            if unknown or admits(q.facts, DIR, D, T.K) is None:
                ctx.und(rule_o, con, where, f"condition not understood: {m.show(unknown[0]) if unknown else 'direction'}")
                continue
            emitted(ctx, m, T, el, q, D, weighted, vec, con, where, layouts, rule_o, rule_p, rule_w, rule_s)


def emitted(ctx, m, T, el, q, D, weighted, vec, con, where, layouts, rule_o, rule_p, rule_w, rule_s):
    I = T.I
    END = ('f', el, T.w.END, 0)
    edge = ('f', el, m.PARENT, 0)
    got = {'source': {}, 'target': {}}
    weights = {'source': set(), 'target': set()}
    loops = {}
    for e, chain in visits(I, q.events):
        its = items(I, (chain[-1][1] if chain else q).st, e[2][0], chain) if len(e[2]) == 1 else None
        if its is None:
            ctx.und(rule_o, con, where_of(e[-1]), 'what is emitted is not understood')
            return
        for v, ch in its:
            if v[0] not in ('tup', 'list'):
                ctx.und(rule_o, con, where_of(e[-1]), f"emits {m.show(v)}")
                return
            bases = [T.base(x) for x in v[1]]
            ei = [i for i, b in enumerate(bases) if b == END]
            gi = [i for i, b in enumerate(bases) if b == edge]
            pi = [i for i, b in enumerate(bases) if b[0] == 'f' and b[2] == T.w.END and b[1][0] in ('elem',) and b != END]
            wi = [i for i, x in enumerate(v[1]) if i not in ei + gi + pi and vec.scalar(x) is not None and x[0] == 'item']
            if len(ei) != 1 or len(gi) != 1 or len(pi) != 1:
                if len(v[1]) >= 3 and len(ei) == 2 and not pi:
                    ctx.bad(rule_o, con, where_of(e[-1]), 'connects the endpoint with itself')
                    return
                ctx.und(rule_o, con, where_of(e[-1]), f"tuple {[m.show(b) for b in bases]}")
                return
            ei, gi, pi = ei[0], gi[0], pi[0]
            for i, kind in ((ei, 'node'), (pi, 'node'), (gi, 'edge')):
                u = T.index_used(v[1][i])
                if u is not None and u != kind and rule_s:
                    ctx.bad(rule_s, con, where_of(e[-1]), f"a {kind} is looked up with {u}()")
            role = 'source' if ei < pi else 'target'
            rest = [i for i in range(len(v[1])) if i not in (ei, gi, pi)]
            first = rest[0] if rest else None
            layouts.add((min(ei, pi), max(ei, pi), gi, first, len(v[1])))
            weights[role].add(vec.scalar(v[1][first]) if first is not None else None)
            P = bases[pi][1]
            lids = tuple(l.lid for l, _ in ch)
            loops.setdefault(role, {}).setdefault(lids, []).append((v, ch, P))
    inw, outw = INC[D]
    want = {'source': inw, 'target': outw}
    for role in ('source', 'target'):
        n = loops.get(role, {})
        if not want[role]:
            ctx.ob(rule_o, con + f" {role}", not n, where, '' if not n else f"the endpoint becomes the {role} of a connection")
            continue
        if not n:
            ctx.bad(rule_o, con + f" {role}", where, f"the endpoint is never the {role} of a connection")
            continue
        ctx.good(rule_o, con + f" {role}", where)
        # the weight of the connection
        if rule_w:
            goal = (1.0, (NORM,) if weighted else ())
            for wt in weights[role]:
                ctx.ob(rule_w, con + f" {role}", None if wt is None else wt == goal, where,
                       '' if wt == goal else 'weight not understood' if wt is None else f"weight {wt[0]:g}{' * ' + ' * '.join(wt[1]) if wt[1] else ''}")
        if rule_p:
            if len(n) != 1:
                ctx.bad(rule_p, con + f" {role}", where, f"{len(n)} times the endpoint is made the {role}") if all(len(x) for x in n) else \
                    ctx.und(rule_p, con, where, 'partners')
                continue
            partners(ctx, m, T, el, edge, END, q, con + f" {role}", list(n.values())[0], where, rule_p)


def partners(ctx, m, T, el, edge, END, q, con, found, where, rule):
    """connections to exactly the endpoints of the other relations of the edge"""
    I = T.I
    v, ch, P = found[0]
    if len(ch) != 1:
        ctx.und(rule, con, where, f"{len(ch)} loops")
        return
    lp = ch[0][0]
    own = m.loop_children_of(I, lp)
    if own is None:
        ctx.und(rule, con, where, 'which endpoints')
        return
    if own != edge:
        ctx.bad(rule, con, where_of(lp.loc), 'connects to endpoints of something else than the edge')
        return
    if any(r.sig is not None and r.sig[0] not in ('raise', 'continue') for r in lp.paths):
        ctx.bad(rule, con, where_of(lp.loc), 'stops before the last relation of the edge')
        return
    child = ('elem', lp.lid, 0) if P[0] == 'elem' and P[1] == lp.lid else P
    child = P
    hits = {id(c[0][1]): 0 for _, c, _ in found}
    for _, c, _ in found:
        hits[id(c[0][1])] += 1
    for r in lp.paths:
        if r.sig is not None and r.sig[0] == 'raise':
            continue
        n = hits.get(id(r), 0)
        isr = I.isinst(r.st, child, T.REL)
        if isr is False:
            ctx.ob(rule, con + ' other children', n == 0, where, '' if n == 0 else 'a child that is no relation is connected')
            continue
        for case, same_el, same_end in (('itself', True, True), ('same endpoint', False, True), ('other endpoint', False, False)):
            live = True
            unk = None
            for a, pol in r.facts:
                t = None
                if a[0] in ('is', 'eq') and len(a) == 3:
                    b = {T.base(a[1]), T.base(a[2])}
                    if b == {('f', child, T.w.END, 0), END}:
                        t = same_end
                    elif b == {child, el}:
                        t = same_el
                    elif NONE in a[1:3]:
                        continue
                    elif any(contains(x, lambda y: y == child) for x in b) and any(is_c(x) for x in b):
                        unk = a
                elif a[0] == 'isinst':
                    continue
                elif contains(a, lambda x: x == child):
                    unk = a
                if t is not None and t != pol:
                    live = False
            if not live:
                continue
            if unk is not None:
                ctx.und(rule, con + ' ' + case, where, f"condition {m.show(unk)}")
                continue
            want = 1 if case == 'other endpoint' else 0
            if isr is None and want:
                ctx.und(rule, con + ' ' + case, where, 'kind of the child')
                continue
            ctx.ob(rule, con + ' ' + case, n == want, where, '' if n == want else
                   (f"{n} connections to another endpoint" if want else f"connects the endpoint with {'itself' if case == 'itself' else 'itself over another relation'}"))


# ------------------------------------------------------------------------------------------------ P22
def p22(ctx):
    ctx.rule('orientation', 'an inward relation makes its endpoint the source, an outward one the target, a bidirectional one both')
    ctx.rule('weight', 'a connection carries the incidence of the direction times the norm of the weight')
    ctx.rule('partners', 'the endpoint of a relation is connected to the endpoints of the other relations of its edge, each once')
    ctx.rule('index', 'nodes and edges of a connection are looked up in the index of their kind')
    ctx.rule('coordinates', 'entries are (edge, source, target, weight), (edge, source, weight) and (edge, target, weight)')
    ctx.rule('dense', 'the tensors are addressed by [edge, source, target], [edge, source] and [edge, target]')
    ctx.rule('filled', 'every connection is entered once in every tensor')
    ctx.rule('size', 'the tensors have one slot for each indexed edge and node')
    m = Model(ctx)
    p = ctx.prog
    T = Tuples(ctx, m)

    def go():
        return table(ctx, m, T, 'orientation', 'partners', 'weight', 'index')
    r = ctx.guard('orientation', T.T.name, go, where=T.w.f.where)
    lay = (0, 1, 2, 3, 5)
    if r is not None:
        layouts, done = r
        for D in DIRS:
            for wgt in (False, True):
                if (D, wgt) not in done:
                    ctx.und('orientation', f"{D} {'weighted' if wgt else 'without weight'}", T.w.f.where, 'no path understood')
        if len(layouts) == 1:
            lay = layouts.pop()
        elif layouts:
            ctx.bad('orientation', 'tuples', T.w.f.where, 'the tuples of a traversal are not all built alike')
    for c in [x for x in p.subclasses.get(p.cls('GraphMonad'), []) if p.find(x, 'msg_tensor_value_updates') is not None]:
        if p.find(c, 'execute') is not None and not p.find(c, 'execute').is_abstract:
            ctx.guard('coordinates', c.name, coordinates, ctx, m, c, lay)
    ctx.guard('dense', 'NumpyHypergraphTensorTransformer', dense, ctx, m, lay)
    ctx.guard('size', 'synchronize_structure_dimensions', resize, ctx, m)
    ctx.minimum = 20


def weights(ctx, m):
    """for P10: what a traversal emits for a relation without weight"""
    T = Tuples(ctx, m)
    table(ctx, m, T, 'weights', None, 'weights', None, (False,))


def role_of(x, V, lay):
    names = {lay[0]: 'source', lay[1]: 'target', lay[2]: 'edge', lay[3]: 'weight'}
    if x[0] == 'item' and x[1] == V and is_c(x[2]) and isinstance(x[2][2], int):
        i = x[2][2]
        return names.get(i if i >= 0 else lay[4] + i, 'norm')
    return None


def the_tuple(vals):
    """the term all entries are taken from"""
    vs = {x[1] for x in vals if x[0] == 'item' and is_c(x[2])}
    return vs.pop() if len(vs) == 1 else None


WANT = (('weights', ('edge', 'source', 'target', 'weight')), ('outgoing', ('edge', 'source', 'weight')), ('incoming', ('edge', 'target', 'weight')))


def coordinates(ctx, m, c, lay):
    cd = Codec(ctx, m, c)
    I = cd.I
    f, g = m.p.find(c, 'execute'), m.p.find(c, 'msg_tensor_value_updates')
    for s, vals in cd.runs.seq([x.fork() for x in cd.runs.states], [('execute', [ONE])] if len(f.node.args.args) > 1 else [('execute', [])]):
        for s2, sig in I.entry(g, [], s.fork(), recv=SELF):
            if sig[0] != 'return':
                ctx.bad('coordinates', c.name, g.where, 'raises')
                continue
            v = sig[1]
            parts = list(v[1]) if v[0] in ('tup', 'list') else None
            if parts is None or len(parts) != 3:
                ctx.und('coordinates', c.name, g.where, f"returns {m.show(v)}")
                continue
            for (name, want), L in zip(WANT, parts):
                while L[0] == 'coll':
                    L = L[1]
                n = 0
                for o, chain, facts in emissions(I, s2.ops.get(L, ()), L):
                    if o[0] != 'add' or not chain:
                        ctx.und('coordinates', f"{c.name} {name}", f.where, f"filled by {o[0]}")
                        continue
                    x = I.freeze(chain[-1][1].st, o[1])
                    if x[0] not in ('tup', 'list'):
                        ctx.und('coordinates', f"{c.name} {name}", f.where, f"enters {m.show(x)}")
                        continue
                    V = the_tuple(x[1])
                    rs = tuple(role_of(y, V, lay) for y in x[1]) if V is not None else ()
                    n += 1
                    ctx.ob('coordinates', f"{c.name} {name}", None if None in rs or not rs else rs == want, f.where,
                           '' if rs == want else f"enters ({', '.join(map(str, rs))})")
                if not n and not s2.ops.get(L, ()):
                    ctx.bad('coordinates', f"{c.name} {name}", f.where, 'nothing is entered')
                    continue
                total, why = {'B1': 0, 'B2': 0}, None
                for o in s2.ops.get(L, ()):
                    r = batches(cd, s2, I.loops[o[1]], L) if o[0] == 'iter' else None
                    if not isinstance(r, dict):
                        total, why = None, r
                        break
                    for b, k in r.items():
                        total[b] += k or 0
                ok = None if total is None and not why else total is not None and all(k == 1 for k in total.values())
                ctx.ob('filled', f"{c.name} {name}", ok, f.where, '' if ok else why or (
                    f"a connection is entered {max(total.values(), key=lambda x: abs(x - 1))} times" if total else 'how the connections are gone through'))


class Arrays:
    """Counts of an index and the arrays made, both symbolic"""
    def __init__(self, m, con):
        self.m, p = m, m.p
        self.H = H = p.cls('IndexHomomorphismGraphTensor')
        self.made = {}

        def cnt(name):
            def f(I, st, recv, args, kw, fr, node, fi=None):
                if recv[0] == 'snap':
                    return [(st, ('cnt', name, recv[1], recv[2]))]
                return [(st, ('cnt', name, recv, dict(st.vers.get('hver', ())).get(recv, 0)))]
            return f
        for prop, name in (('cnt_node', 'nodes'), ('cnt_edges', 'edges')):
            f = p.find(H, prop)
            if f is None:
                raise AnalysisError(f"{H.name}.{prop} not found")
            con[f] = cnt(name)

        def deepcopy(I, st, args, kw, fr, node):
            h = args[0]
            if h[0] == 'snap':
                return [(st, h)]
            if h[0] in ('sym', 'o') and (st.types.get(h) is H or (h[0] == 'o' and I.hobj(st, h).cls is H)):
                v = ('snap', h, dict(st.vers.get('hver', ())).get(h, 0))
                st.types[v] = H
                return [(st, v)]
            return None
        con['ext:copy.deepcopy'] = con['ext:copy.copy'] = deepcopy

        def make(fill):
            def f(I, st, args, kw, fr, node):
                v = ('sym', f"array{len(self.made)}")
                a = list(args)
                shape = kw.get('shape', a[0] if a else None)
                if fill == 'like':
                    shape = ('like', a[0])
                    what = 'zeros'
                else:
                    what = fill
                if fill == 'full':
                    fv = kw.get('fill_value', a[1] if len(a) > 1 else None)
                    what = 'zeros' if fv is not None and is_c(fv) and fv[2] == 0 else 'full'
                self.made[v] = (what, I.freeze(st, shape) if shape is not None and shape[0] == 'o' else shape, I.loc(fr, node))
                st.events.append(('made', v, self.made[v]))
                st.vers['nonnull'] = tuple(st.vers.get('nonnull', ())) + (v,)
                return [(st, v)]
            return f
        for n, k in (('zeros', 'zeros'), ('empty', 'empty'), ('ones', 'ones'), ('full', 'full'), ('zeros_like', 'like')):
            con['ext:numpy.' + n] = make(k)

    def shape(self, v):
        what, sh, loc = self.made[v]
        for _ in range(4):
            if sh is not None and sh[0] == 'like':
                if sh[1] not in self.made:
                    return None
                sh = self.made[sh[1]][1]
        return tuple(sh[1]) if sh is not None and sh[0] in ('tup', 'list') else None


SIZES = (('W', ('edges', 'nodes', 'nodes')), ('Io', ('edges', 'nodes')), ('Ii', ('edges', 'nodes')))


def check_size(ctx, A, name, v, want_h, where, con, filled=()):
    """v must be an array of zeros sized by the counts of the index want_h = (index, version)"""
    if v is None or v not in A.made:
        ctx.und('size', con, where, f"how {name} is made")
        return
    what, sh, loc = A.made[v]
    w = where_of(loc)
    if what != 'zeros' and v not in filled:
        ctx.ob('size', con, None if what == 'full' else False, w, f"{name} is not filled with zeros")
        return
    sh = A.shape(v)
    want = tuple(('cnt', k) + want_h for k in dict(SIZES)[name])
    ok = None if sh is None or any(x[0] != 'cnt' for x in sh) else sh == want
    ctx.ob('size', con, ok, w, '' if ok else f"{name} has shape ({', '.join(x[1] if x[0] == 'cnt' else '?' for x in sh or ())})" +
           (' of an earlier index' if sh and tuple(x[:2] for x in sh) == tuple(x[:2] for x in want) else ''))


def impossible(facts, H=None):
    """an index without any node or edge is left out"""
    for a, pol in facts:
        if a[0] in ('eq', 'is') and C(0) in a[1:3] and any(isinstance(x, tuple) and x[:1] == ('cnt',) for x in a[1:3]) and pol:
            return True
        if a[0] == 'truthy' and isinstance(a[1], tuple) and a[1][:1] == ('cnt',) and not pol:
            return True
        if a[0] == 'lt' and a[1] == C(0) and isinstance(a[2], tuple) and a[2][:1] == ('cnt',) and not pol:
            return True
    return False


def index_keys(e):
    """(array, keys) of a store"""
    t, k = e[1], e[2]
    keys = list(k[1]) if k[0] in ('tup',) else [k]
    while t[0] == 'item':
        keys = (list(t[2][1]) if t[2][0] == 'tup' else [t[2]]) + keys
        t = t[1]
    return t, keys


def dense(ctx, m, lay):
    p = m.p
    c = p.cls('NumpyHypergraphTensorTransformer')
    cd = Codec(ctx, m, c)
    I = cd.I
    A = Arrays(m, I.contracts)
    f = p.find(c, 'execute')
    for s0 in cd.runs.states:
        for s, sig in cd.runs.call(s0.fork(), 'execute', [ONE]):
            ctx.paths += 1
            if impossible(s.facts):
                continue
            if sig[0] == 'raise':
                ctx.bad('dense', c.name, f.where, f"raises {exc_name(sig)}")
                continue
            rep, s1 = cd.attr(s, SELF, 'tensor_representation', f)
            if rep is None or rep == NONE:
                ctx.und('dense', c.name, f.where, 'representation')
                continue
            arr = {}
            for name, _ in SIZES:
                v, s1 = cd.attr(s1, rep, name, f)
                arr[name] = v
            h = indexed(s)
            for name, _ in SIZES:
                v = arr[name]
                if v == NONE:
                    ctx.bad('size', f"{c.name} {name}", f.where, f"{name} is not made")
                elif h is not None:
                    check_size(ctx, A, name, v, (h, dict(s.vers.get('hver', ())).get(h, 0)), f.where, f"{c.name} {name}", fills(s))
            if len({v for v in arr.values() if v is not None}) != 3:
                ctx.bad('dense', c.name, f.where, 'two tensors are the same array')
                continue
            for (name, sizes), (_, want) in zip(SIZES, WANT):
                stores(ctx, m, cd, s, f"{c.name} {name}", arr[name], want, lay, f)


def fills(s):
    """arrays set to zero after they were made"""
    out = set()
    for e in flat(s.events):
        if e[0] == 'vcall' and isinstance(e[1], tuple) and e[1][:1] == ('f',) and e[1][2] == 'fill' and len(e[2]) == 1 and is_c(e[2][0]) and e[2][0][2] == 0:
            out.add(e[1][1])
        if e[0] == 'setitem' and is_c(e[3]) and e[3][2] == 0 and e[2][0] not in ('item', 'tup', 'c'):
            out.add(e[1])
    return out


def indexed(s):
    h = {e[2] for e in flat(s.events) if e[0] == 'do' and e[1] == 'index'}
    return h.pop() if len(h) == 1 else None


def stores(ctx, m, cd, s, con, arr, want, lay, f):
    I = cd.I
    n = 0

    def mine(events):
        return [e for e in events if e[0] == 'setitem' and index_keys(e)[0] == arr]
    bad = False

    def paths(events, chain):
        yield events, chain
        for e in events:
            if e[0] == 'loop':
                for q in e[1].paths:
                    yield from paths(q.events, chain + ((e[1], q),))
    seen = 0
    for events, chain in paths(s.events, ()):
        for e in mine(events):
            _, keys = index_keys(e)
            if not chain:
                if is_c(e[3]) and e[3][2] == 0:
                    continue
                ctx.und('dense', con, where_of(e[-1]), 'a store outside of the loops over the connections')
                return
            V = the_tuple(keys + [e[3]])
            rs = tuple(role_of(y, V, lay) for y in keys + [e[3]]) if V is not None else ()
            seen += 1
            ok = None if None in rs or not rs else rs == want
            if ok is None and len(keys) == len(want) - 1 and V is not None and all(r is not None for r in rs[:-1]) and rs[:-1] != want[:-1]:
                ok = False
            ctx.ob('dense', con, ok, where_of(e[-1]), '' if ok else f"[{', '.join(map(str, rs[:-1]))}] = {rs[-1] if rs else '?'}" if rs else 'store not understood')
    if not seen:
        calls = [e for e in flat(s.events) if e[0] in ('ecall', 'vcall', 'mcall') and contains(e, lambda x: x == arr)]
        ctx.ob('dense', con, None if calls else False, f.where, 'nothing is entered')
        return
    # every connection, once
    def ops(lp, q):
        return [('iter', e[1].lid) for e in q.events if e[0] == 'loop' and any(mine([x]) for x in flat([e]))]

    def per(lp):
        ns = set()
        for q in lp.paths:
            if q.sig is not None and q.sig[0] != 'continue':
                if q.sig[0] == 'raise':
                    continue
                return 'the loop over connections is left early'
            if any(e[0] == 'loop' and any(mine([x]) for x in flat([e])) for e in q.events):
                return None
            k = len(mine(q.events))
            ns.add(k)
        if len(ns) > 1:
            return 'some connections are left out'
        return ns.pop() if ns else None
    total = {'B1': 0, 'B2': 0}
    tops = [e[1] for e in s.events if e[0] == 'loop' and any(mine([x]) for x in flat([e]))]
    for lp in tops:
        r = batches(cd, s, lp, None, ops, per)
        if r is None or isinstance(r, str):
            ctx.ob('filled', con, None if r is None else False, where_of(lp.loc), r or 'how the connections are gone through')
            return
        for b, k in r.items():
            total[b] += k or 0
    ok = all(k == 1 for k in total.values())
    ctx.ob('filled', con, ok, f.where, '' if ok else f"a connection is entered {max(total.values(), key=lambda x: abs(x - 1))} times")


def resize(ctx, m):
    """sized again whenever a count differs from that of the last index, also when the same index was built again"""
    p = m.p
    c = p.cls('NumpyTensorRepresentation')
    f = p.find(c, 'synchronize_structure_dimensions')
    if f is None:
        raise AnalysisError('synchronize_structure_dimensions not found')
    con = {}
    A = Arrays(m, con)
    I = m.interp(implicit=False, contracts=con)
    h = ('sym', 'h')

    def attr(s, name):
        fr = Frame(0, f.mod, f.cls, f)
        r = I.getattr(s.fork(), SELF, name, fr, f.node)
        return r[0][1] if len(r) == 1 else None
    for second in (h, ('sym', 'h2')):
        for s0 in W.construct(I, m, c)[0]:
            for x in (h, ('sym', 'h2')):
                s0.types[x] = A.H
                s0.vers['nonnull'] = tuple(s0.vers.get('nonnull', ())) + (x,)
            for s1, g1 in I.entry(f, [h], s0, recv=SELF):
                if impossible(s1.facts) or g1[0] == 'raise':
                    continue
                old = {n: attr(s1, n) for n, _ in SIZES}
                for n, _ in SIZES:
                    if old[n] == NONE:
                        ctx.bad('size', f"first {n}", f.where, f"{n} is not made")
                    else:
                        check_size(ctx, A, n, old[n], (h, 0), f.where, f"first {n}", fills(s1))
                s1 = s1.fork()
                s1.vers['hver'] = ((h, 1),)
                k = len(s1.facts)
                for s2, g2 in I.entry(f, [second], s1, recv=SELF):
                    ctx.paths += 1
                    if impossible(s2.facts) or g2[0] == 'raise':
                        continue
                    now = (second, 1 if second == h else 0)
                    for n, dims in SIZES:
                        v = attr(s2, n)
                        cn = f"{'same index built again' if second == h else 'other index'} {n}"
                        if v != old[n]:
                            if v == NONE:
                                ctx.bad('size', cn, f.where, f"{n} is dropped and not made again")
                            else:
                                check_size(ctx, A, n, v, now, f.where, cn, fills(s2))
                            continue
                        eq = set()
                        und = False
                        for a, pol in s2.facts[k:]:
                            if a[0] in ('eq', 'is') and all(isinstance(x, tuple) and x[:1] == ('cnt',) for x in a[1:3]) and pol and \
                                    {x[2:] for x in a[1:3]} == {(h, 0), now}:
                                eq |= {x[1] for x in a[1:3]} if len({x[1] for x in a[1:3]}) == 1 else set()
                            elif contains(a, lambda x: isinstance(x, tuple) and x[:1] == ('cnt',)) and pol is True and a[0] == 'eq' and \
                                    any(x[0] not in ('cnt', 'c') for x in a[1:3]):
                                und = True
                        ok = {'edges', 'nodes'} <= eq
                        ctx.ob('size', cn, None if und and not ok else ok, f.where, '' if ok else
                               f"{n} keeps its size although the number of {' and '.join(sorted({'edges', 'nodes'} - eq))} may differ")


# ------------------------------------------------------------------------------------------------ P21
ACC = {'node': ('node', 'dim', 'cnt_node'), 'edge': ('edge', 'depth', 'cnt_edges'), 'val': ('val', 'ival', None)}


class Indexing:
    """An index whose traversals visit given elements"""
    def __init__(self, ctx, m):
        p = self.p = m.p
        self.ctx, self.m = ctx, m
        self.H = p.cls('IndexHomomorphismGraphTensor')
        for a, b, c in ACC.values():
            for n in (a, b) + ((c,) if c else ()):
                if p.find(self.H, n) is None:
                    raise AnalysisError(f"{self.H.name}.{n} not found")
        if p.find(self.H, 'reset_from_bijection') is None or p.find(self.H, 'execute') is None:
            raise AnalysisError(f"{self.H.name}: operation not found")
        self.kinds = {'node': p.cls('HypergraphNode'), 'edge': p.cls('HypergraphEdge'), 'val': p.cls('ValueNode')}
        self.fields = {}
        self.plan = {}
        self.generic = False
        self.starts = []
        con = {'ext:copy.copy': copy_queue}
        root = p.cls('HierarchicalTraversal')
        I0 = m.interp(implicit=False)
        for c in concrete(p, root):
            st, names = W.construct(I0, m, c)
            fs = {v: a for (b, a), v in st[0].fields.items() if b == SELF}
            self.fields[c] = (fs.get(('sym', 'visitor_func')), fs.get(('sym', 'filter_func')))
            con[p.find(c, 'execute')] = self.walk
        f = p.find(root, 'execute')
        if f is not None:
            con[f] = self.walk
        con['fn:execute'] = self.walk
        self.runs = Runs(ctx, m, self.H, contracts=con)
        self.I = self.runs.I

    def walk(self, I, st, recv, args, kw, fr, node, fi):
        o = I.hobj(st, recv)
        c = o.cls if o is not None else st.types.get(recv)
        if c not in self.fields:
            return None
        vf, ff = self.fields[c]
        a = tuple(args) or tuple(kw.values())
        start = a[0] if a else None
        st.events.append(('do', 'walk', recv, a, I.loc(fr, node)))
        get = lambda s, n: (I.hobj(s, recv).fields.get(n) if I.hobj(s, recv) is not None else None) or s.fields.get((recv, n))
        cur = [st]
        if self.generic:
            for s in cur:
                self.forget(s)
        for x in self.plan.get(start, ()):
            nxt = []
            for s in cur:
                for s2, r in I.call(get(s, ff), [x], {}, s, fr, node):
                    for s3, b in I.truth(r, s2):
                        if not b:
                            nxt.append(s3)
                            continue
                        s3.events.append(('do', 'visited', recv, (x,), I.loc(fr, node)))
                        for s4, _ in I.call(get(s3, vf), [x], {}, s3, fr, node):
                            nxt.append(s4)
            cur = nxt
        return [(s, I.alloc(s, 'list', node=node)) for s in cur]

    def forget(self, s):
        """any number of elements was numbered before"""
        for (b, a), v in list(s.fields.items()):
            if b == SELF and v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool):
                k = ('sym', 'many:' + a)
                s.types[k] = 'int'
                s.fields[(b, a)] = k

    def element(self, s, name, cls):
        x = ('sym', name)
        s.types[x] = cls
        s.vers['nonnull'] = tuple(s.vers.get('nonnull', ())) + (x,)
        s.vers['exact'] = tuple(s.vers.get('exact', ())) + (x,)
        return x

    def uid(self, s, x):
        f = self.p.find(self.H, 'execute')
        r = self.I.getattr(s.fork(), x, 'uuid', Frame(0, f.mod, f.cls, f), f.node)
        return r[0][1] if len(r) == 1 else ('f', x, '_uuid', 0)

    def differ(self, s, terms):
        I = self.I
        for i, a in enumerate(terms):
            for b in terms[i + 1:]:
                if a != b:
                    I.assume(s, I.norm_atom(('eq', a, b)), False)

    def read(self, s, name, arg=None):
        """outcomes of an accessor: ('return', value) or ('raise', …)"""
        I = self.I
        f = self.p.find(self.H, name)
        s = s.fork()
        out = []
        for s2, sig in I.entry(f, [arg] if arg is not None else [], s, recv=SELF):
            out.append((s2, sig))
        return out


def p21(ctx):
    ctx.rule('numbers', 'the elements visited are numbered 0, 1, 2, … in the order of visiting, each in the index of its kind only')
    ctx.rule('inverse', 'the number of an element leads back to it')
    ctx.rule('counts', 'the counts are the numbers of entries')
    ctx.rule('step', 'however many elements were numbered before, the next gets the count as its number and the count grows by one')
    ctx.rule('again', 'building again starts from nothing')
    ctx.rule('given', 'an index set up from pairs holds exactly these pairs')
    m = Model(ctx)
    x = Indexing(ctx, m)
    f = m.p.find(x.H, 'execute')
    g = m.p.find(x.H, 'reset_from_bijection')
    ctx.guard('numbers', x.H.name, built, ctx, m, x, f, where=f.where)
    ctx.guard('given', x.H.name, given, ctx, m, x, g, where=g.where)
    ctx.guard('step', x.H.name, step, ctx, m, x, f, where=f.where)
    ctx.minimum = 30


S1, S2 = ('sym', 'start'), ('sym', 'start2')


def prepare(x, s, n, tag, others=True):
    """elements of every kind, mixed"""
    p = x.p
    out, per = [], {}
    for i in range(n):
        for k, c in x.kinds.items():
            e = x.element(s, f"{tag}{k}{i}", c)
            out.append(e)
            per.setdefault(k, []).append(e)
        if i == 0 and others:
            for cn in ('HypergraphRelation', 'HypergraphPort', 'SemanticValueNode'):
                try:
                    c = p.cls(cn)
                except AnalysisError:
                    continue
                k = next((k for k, kc in x.kinds.items() if kc in p.mro(c)), None)
                e = x.element(s, f"{tag}{cn}", c)
                out.append(e)
                per.setdefault(k or 'none', []).append(e)
    return out, per


def expect(ctx, x, s, rule, con, name, arg, want, where):
    """the accessor returns the value wanted, or fails when nothing is wanted"""
    I = x.I
    for s2, sig in x.read(s, name, arg):
        if sig[0] == 'raise':
            ok = want is None
            ctx.ob(rule, con, ok, where, '' if ok else f"{name}() fails: {exc_name(sig)}")
            continue
        v = I.freeze(s2, sig[1])
        if want is None:
            if v[0] in ('c', 'sym', 'f') and v != NONE:
                ctx.bad(rule, con, where, f"{name}() gives {x.m.show(v)}")
            else:
                ctx.ob(rule, con, True if v == NONE else None, where, '' if v == NONE else f"{name}() gives {x.m.show(v)}")
            continue
        ok = v == want or linear(v) == linear(want)
        sure = v[0] in ('c', 'sym', 'f') or linear(v) is not None
        ctx.ob(rule, con, True if ok else (False if sure else None), where, '' if ok else f"{name}() gives {x.m.show(v)}, not {x.m.show(want)}")


def linear(v):
    """(symbol, constant) of an integer term"""
    if v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool):
        return None, v[2]
    if v[0] == 'sym':
        return v, 0
    if v[0] == 'op' and len(v) == 4 and v[1] in ('+', '-'):
        a, b = linear(v[2]), linear(v[3])
        if a is None or b is None or (a[0] is not None and b[0] is not None) or (v[1] == '-' and b[0] is not None):
            return None
        return (a[0] or b[0]), (a[1] + b[1] if v[1] == '+' else a[1] - b[1])
    return None


def holds(ctx, x, s, per, ids, where, tag, rules):
    rn, ri, rc = rules
    for k, (fwd, back, cnt) in ACC.items():
        es = per.get(k, [])
        for i, e in enumerate(es):
            expect(ctx, x, s, rn, f"{tag} {fwd} of the {k}s", fwd, ids[e], C(i), where)
            expect(ctx, x, s, ri, f"{tag} {back} of the {k}s", back, C(i), ids[e], where)
        expect(ctx, x, s, ri, f"{tag} {back} beyond the last", back, C(len(es)), None, where)
        for k2, es2 in per.items():
            if k2 != k and es2:
                expect(ctx, x, s, rn, f"{tag} {fwd} of a {k2 if k2 != 'none' else 'relation'}", fwd, ids[es2[0]], None, where)
        if cnt:
            for s2, sig in prop(x, s, cnt):
                ok = sig == C(len(es))
                ctx.ob(rc, f"{tag} {cnt}", ok if sig[0] == 'c' else None, where, '' if ok else f"{cnt} is {x.m.show(sig)} with {len(es)} entries")


def prop(x, s, name):
    f = x.p.find(x.H, name)
    return [(s2, v) for s2, v in x.I.getattr(s.fork(), SELF, name, Frame(0, f.mod, f.cls, f), f.node)]


def built(ctx, m, x, f):
    for only in x.kinds:
        for s0 in x.runs.states:
            s = s0.fork()
            first = [x.element(s, f"o{only}{i}", x.kinds[only]) for i in range(2)]
            second, per2 = prepare(x, s, 1, 'b', others=False)
            ids = {e: x.uid(s, e) for e in first + second}
            x.differ(s, [ids[e] for e in first + second])
            x.plan = {S1: first, S2: second}
            x.generic = False
            for s1, sig in x.runs.call(s, 'execute', [S1]):
                for s2, sig2 in x.runs.call(s1.fork(), 'execute', [S2]):
                    ctx.paths += 1
                    if sig[0] == 'raise' or sig2[0] == 'raise':
                        continue
                    tag = f"built after one with {only}s only"
                    holds(ctx, x, s2, per2, ids, f.where, tag, ('again', 'again', 'again'))
                    fwd, back, cnt = ACC[only]
                    expect(ctx, x, s2, 'again', f"{tag} {fwd} of the former build", fwd, ids[first[0]], None, f.where)
    for s0 in x.runs.states:
        s = s0.fork()
        first, per1 = prepare(x, s, 3, 'a')
        second, per2 = prepare(x, s, 1, 'b', others=False)
        ids = {e: x.uid(s, e) for e in first + second}
        x.differ(s, [ids[e] for e in first + second])
        x.plan = {S1: first, S2: second}
        x.generic = False
        for s1, sig in x.runs.call(s, 'execute', [S1]):
            ctx.paths += 1
            if sig[0] == 'raise':
                ctx.bad('numbers', x.H.name, f.where, f"raises {exc_name(sig)}")
                continue
            walks = [e for e in flat(s1.events) if e[0] == 'do' and e[1] == 'walk']
            if not walks:
                ctx.und('numbers', x.H.name, f.where, 'no traversal')
                continue
            if any(e[3][:1] != (S1,) for e in walks):
                ctx.bad('numbers', x.H.name, f.where, 'a traversal begins elsewhere')
                continue
            holds(ctx, x, s1, per1, ids, f.where, 'built', ('numbers', 'inverse', 'counts'))
            for s2, sig2 in x.runs.call(s1.fork(), 'execute', [S2]):
                ctx.paths += 1
                if sig2[0] == 'raise':
                    ctx.bad('again', x.H.name, f.where, f"raises {exc_name(sig2)}")
                    continue
                holds(ctx, x, s2, per2, ids, f.where, 'built again', ('again', 'again', 'again'))
                for k, (fwd, back, cnt) in ACC.items():
                    expect(ctx, x, s2, 'again', f"{fwd} of the former build", fwd, ids[per1[k][0]], None, f.where)
                    expect(ctx, x, s2, 'again', f"{back} of the former build", back, C(2), None, f.where)


def given(ctx, m, x, g):
    names = [a.arg for a in g.node.args.args][1:]
    if len(names) < 3:
        ctx.und('given', x.H.name, g.where, f"parameters {names}")
        return
    where = {k: next((n for n in names if n.lower().startswith(k)), None) for k in ACC}
    if None in where.values() or len(set(where.values())) < 3:
        where = dict(zip(ACC, names))
    for earlier in (False, True):
        for s0 in x.runs.states:
            s = s0.fork()
            first, per1 = prepare(x, s, 2, 'a')
            ids = {e: x.uid(s, e) for e in first}
            pairs, terms, nums = {}, [], []
            for k, n in zip(ACC, (2, 3, 1)):
                ps = []
                for i in range(n):
                    u, j = ('sym', f"u{k}{i}"), ('sym', f"n{k}{i}")
                    s.types[u], s.types[j] = 'bytes', 'int'
                    terms.append(u)
                    nums.append(j)
                    ps.append((u, j))
                pairs[k] = ps
            x.differ(s, [ids[e] for e in first] + terms)
            x.differ(s, nums + [C(i) for i in range(6)])
            for u in terms + list(ids.values()):
                for j in nums + [C(0)]:
                    I0 = x.I
                    I0.assume(s, I0.norm_atom(('eq', u, j)), False)
            x.plan = {S1: first}
            x.generic = False
            states = [s]
            if earlier:
                states = [s1 for s1, sig in x.runs.call(s, 'execute', [S1]) if sig[0] == 'return']
            tag = 'given after a build' if earlier else 'given'
            for s1 in states:
                args = {where[k]: ('list', tuple(('tup', pr) for pr in pairs[k])) for k in ACC}
                for s2, sig in x.I.entry(g, [], s1.fork(), recv=SELF, kwargs=args):
                    ctx.paths += 1
                    if sig[0] == 'raise':
                        ctx.bad('given', tag, g.where, f"raises {exc_name(sig)}")
                        continue
                    for k, (fwd, back, cnt) in ACC.items():
                        for u, j in pairs[k]:
                            expect(ctx, x, s2, 'given', f"{tag} {fwd}", fwd, u, j, g.where)
                            expect(ctx, x, s2, 'given', f"{tag} {back}", back, j, u, g.where)
                        other = next(o for o in ACC if o != k)
                        expect(ctx, x, s2, 'given', f"{tag} {fwd} of another kind", fwd, pairs[other][0][0], None, g.where)
                        if earlier:
                            expect(ctx, x, s2, 'given', f"{tag} {fwd} of the former build", fwd, ids[per1[k][0]], None, g.where)
                            expect(ctx, x, s2, 'given', f"{tag} {back} of the former build", back, C(0), None, g.where)
                        if cnt:
                            for s3, v in prop(x, s2, cnt):
                                n = len(pairs[k])
                                sure = linear(v) is not None
                                ctx.ob('given', f"{tag} {cnt}", v == C(n) if sure else None, g.where, '' if v == C(n) else f"{cnt} is {m.show(v)} with {n} pairs")


def step(ctx, m, x, f):
    """one more element after any number of them"""
    for k, (fwd, back, cnt) in ACC.items():
        for s0 in x.runs.states:
            s = s0.fork()
            e = x.element(s, 'next', x.kinds[k])
            x.plan = {S1: [e]}
            x.generic = True
            uid = x.uid(s, e)
            for s1, sig in x.runs.call(s, 'execute', [S1]):
                ctx.paths += 1
                if sig[0] == 'raise':
                    ctx.bad('step', k, f.where, f"raises {exc_name(sig)}")
                    continue
                rs = x.read(s1, fwd, uid)
                for s2, sg in rs:
                    if sg[0] == 'raise':
                        ctx.bad('step', k, f.where, 'the element has no number')
                        continue
                    v = linear(sg[1])
                    if sg[1] == C(0) or v is None or v[0] is None or not v[0][1].startswith('many:'):
                        ctx.ob('step', k, None if v is None or sg[1] == C(0) else False, f.where, f"the number is {m.show(sg[1])}")
                        continue
                    ctx.ob('step', f"{k} number", v[1] == 0, f.where, '' if v[1] == 0 else f"the number is the count {v[1]:+d}")
                    expect(ctx, x, s2, 'step', f"{k} back", back, sg[1], uid, f.where)
                    if cnt:
                        for s3, c in prop(x, s2, cnt):
                            lc = linear(c)
                            ok = lc == (v[0], v[1] + 1)
                            ctx.ob('step', f"{k} count", ok if lc is not None else None, f.where, '' if ok else f"the count becomes {m.show(c)}")
    x.generic = False
