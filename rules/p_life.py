"""Client programs over small graphs, against reference models of what the operations are to do (part of P10, P11, P14,
P15, P17-P22).  The general rules of those properties look at one generic step for every state; here whole runs over
small graphs are evaluated on every path, whatever representation the library keeps."""
from itertools import product
from sa.interp import is_c
from .p_export import outcomes, exc_name
from .p_model import whole, vectors
from .p_build import definite, refused
from .p_model import p24_life, p25_life
from .p_hist import hash_of
from .world import World, Unclear

BASE = ('HypergraphFactory', 'EnumRelationDirection', 'ValueNode', 'HypergraphNode', 'HypergraphEdge', 'HypergraphRelation', 'HypergraphPort', 'SemanticValueNode')
LIB = '''
def labels(xs, known):
    out = []
    for x in xs:
        n = '?'
        for y, m in known:
            if y is x:
                n = m
        out.append(n)
    return out

def ids(xs, known):
    out = []
    for x in xs:
        n = '?'
        for y, m in known:
            if y.uuid == x:
                n = m
        out.append(n)
    return out
'''
IN, OUT, BOTH = 'INWARDS', 'OUTWARDS', 'BIDIRECTIONAL'


class Graph:
    """a small graph: what to build and what is to be there"""

    def __init__(self, name, *ops):
        self.name, self.ops = name, ops
        self.kids, self.kind, self.up, self.path = {'top': []}, {'top': 'node'}, {'top': None}, {'top': 'top'}
        self.rels, self.end, self.dir, self.weight = {}, {}, {}, {}
        self.ports, self.called = {}, {'top': 'top'}
        lines = ["h = HypergraphFactory('h', clock)", "top = h.generate_node('top', None)"]
        for o in ops:
            if o[0] == 'node':
                called = o[3] if len(o) > 3 else o[1]
                lines.append(f"{o[1]} = h.generate_node('{called}', {o[2]})")
                self.put(o[1], 'node', o[2], called)
            elif o[0] == 'edge':
                called = o[3] if len(o) > 3 else o[1]
                lines.append(f"{o[1]} = h.create_hyperedge({o[2]}, '{called}')")
                self.put(o[1], 'edge', o[2], called)
                self.rels[o[1]] = []
            elif o[0] == 'value':
                lines.append(f"{o[1]} = h.create_value({o[2]}, '{o[1]}', {list(o[3])!r})")
                self.put(o[1], 'value', o[2])
            else:
                _, e, x, d, w = o
                r = f"{e}_{len(self.rels[e])}"
                q = f"{x}_p{sum(1 for k in self.ports.values() if k[0] == x)}"
                lines.append(f"{e}.unary_connect({x}, {f'ValueNode(b{r!r}, {r!r}, {r!r}, {list(w)!r})' if w else None}, EnumRelationDirection.{d})")
                lines.append(f"{r} = list({e}.sub_relations)[-1]")
                lines.append(f"{q} = list({x}.sub_ports)[-1]")
                self.put(r, 'relation', e)
                self.rels[e].append(r)
                self.end[r], self.dir[r], self.weight[r] = x, d, w
                self.put(q, 'port', x)
                self.ports[q] = (x, r)
        lines.append('known = [' + ', '.join(f"({x}, '{x}')" for x in self.kids) + ']')
        self.lines = lines

    def put(self, x, kind, parent, called=None):
        self.kids[x], self.kind[x], self.up[x] = [], kind, parent
        self.kids[parent].append(x)
        self.called[x] = called or x
        self.path[x] = self.path[parent] + '/' + (called or x)

    def below(self, x):
        return [x] + [y for k in self.kids[x] for y in self.below(k)]

    def all(self, kind):
        return [x for x in self.kids if self.kind[x] == kind]

    def incoming(self, e):
        return [r for r in self.rels[e] if self.dir[r] in (IN, BOTH)]

    def outgoing(self, e):
        return [r for r in self.rels[e] if self.dir[r] in (OUT, BOTH)]


def n(x, p='top', called=None):
    return ('node', x, p) + ((called,) if called else ())


def e(x, *ends, p='top', called=None):
    return [('edge', x, p) + ((called,) if called else ())] + [('rel', x, d[0], d[1], d[2] if len(d) > 2 else None) for d in ends]


def g(name, *parts):
    ops = []
    for x in parts:
        ops += x if isinstance(x, list) else [x]
    return Graph(name, *ops)


GRAPHS = [
    g('without elements'),
    g('of nodes', n('a'), n('b'), n('c')),
    g('of nested nodes', n('a'), n('b'), n('c', 'a'), n('d', 'a'), n('f', 'c'), n('m', 'b'), n('k', 'f'), ('value', 'v', 'a', [1.0]), ('value', 'u', 'm', [2.0, 3.0])),
    g('with one edge', n('a'), n('b'), n('c'), e('e', ('a', IN), ('b', OUT), ('c', BOTH))),
    g('with an edge both ways', n('a'), n('b'), e('e', ('a', BOTH), ('b', BOTH))),
    g('with edges of one side', n('a'), n('b'), e('e', ('a', IN), ('b', IN)), e('f', ('b', OUT)), e('q')),
    g('with a cycle', n('a'), n('b'), n('c'), e('e', ('a', IN), ('b', OUT)), e('f', ('b', IN), ('c', OUT)), e('q', ('c', IN), ('a', OUT))),
    g('with a loop', n('a'), n('b'), e('e', ('a', IN), ('a', OUT), ('b', OUT))),
    g('whose edge leads back to the context', n('a'), e('e', ('top', IN), ('a', OUT))),
    g('with weights', n('a'), n('b'), n('c'), e('e', ('a', IN, [2.0]), ('b', OUT, [0.5, 0.25]), ('c', BOTH, [0.0])), e('f', ('c', BOTH, [3.0]), ('a', IN))),
    g('with edges of nested nodes', n('a'), n('b'), n('c', 'a'), n('d', 'b'), e('e', ('a', IN), ('b', OUT)), e('f', ('c', IN), ('a', OUT), p='a'), e('q', ('d', OUT), ('c', BOTH), p='b')),
    g('with values', n('a'), n('b'), e('e', ('a', IN), ('b', OUT)), ('value', 'v', 'top', [1.0, 2.0]), ('value', 'u', 'top', [3.0])),
    g('with names used twice', n('a'), n('b', called='a'), n('c', 'a'), n('d', 'b', 'c'), e('e', ('a', IN), ('b', OUT)), e('f', ('b', IN), ('a', OUT), called='e'), e('q', ('b', BOTH, [2.0]), ('a', OUT))),
    g('with an edge to an edge', n('a'), n('b'), e('f', ('b', OUT)), e('e', ('a', IN), ('f', OUT))),
]
BY = {x.name: x for x in GRAPHS}


def plain(v):
    """python value of a description; None for what is not known"""
    if v[0] in ('list', 'tup'):
        xs = [plain(x) for x in v[1]]
        return BAD if any(x is BAD for x in xs) else xs
    if is_c(v):
        return v[2]
    if v[0] == 'enum':
        return v[2] if isinstance(v[2], str) else v[3]
    return BAD


BAD = object()


class Life:
    def __init__(self, ctx, names):
        self.ctx, self.p = ctx, ctx.prog
        ctx.rule('life', 'in client programs over small graphs: what an operation yields, against a reference model')
        self.W = World(ctx, BASE + tuple(names), LIB)
        made = self.W.interp

        def interp():
            I = made()
            vectors(I)
            return I
        self.W.interp = interp
        self.full = ctx.tier == 'thorough'

    def at(self, cls, fn):
        f = self.p.find(self.p.cls(cls), fn)
        return f.where if f is not None else self.p.cls(cls).where

    def take(self, share, *key):
        return self.full or hash_of(*key) % share == 0

    def run(self, graph, con, where, lines, result, want, tidy=lambda x: x, legal=True, args=('clock',), rule='life'):
        """the program builds the graph, runs the lines, and must yield what is wanted: [(label, expected)] in the order of the result list"""
        ctx = self.ctx
        src = f"async def scene({', '.join(args)}):\n" + ''.join(f"    {l}\n" for l in graph.lines + lines) + f"    return [{', '.join(result)}]\n"

        def use(I, s, v):
            got = whole(I, s, v)[1]
            for (label, w), x in zip(want, got):
                c = f"{con}: {label}" if label else con
                y = plain(x)
                if y is BAD:
                    ctx.ob(rule, c, False if definite(x) else None, where, f"is {str(x)[:80]} instead of {w}")
                    continue
                good = tidy(y) == tidy(w)
                ctx.ob(rule, c, good, where, '' if good else f"{str(y)[:160]} instead of {str(w)[:160]}")
        outcomes(ctx, self.W, rule, con, where, src, use, legal=legal)


# -------------------------------------------------------------------------------------------------------------------- P14
HIER = {'BreadthFirstHierarchicalTraversal': (True, False), 'DepthFirstHierarchicalTraversal': (False, False),
        'DepthLimitedBreadthVisitChildren': (True, True), 'DepthLimitedDepthVisitChildren': (False, True)}
FILTERS = {'everything': ("lambda x: True", lambda G, x: True), 'nodes': ("lambda x: isinstance(x, HypergraphNode)", lambda G, x: G.kind[x] == 'node'),
           'nodes and edges': ("lambda x: isinstance(x, HypergraphNode) or isinstance(x, HypergraphEdge)", lambda G, x: G.kind[x] in ('node', 'edge')),
           'all but c': ("lambda x: x.id_name != 'c'", lambda G, x: G.called[x] != 'c'), 'nothing': ("lambda x: False", lambda G, x: False),
           'all but the start': ("lambda x: x is not start", None), 'values': ("lambda x: isinstance(x, ValueNode)", lambda G, x: G.kind[x] == 'value')}


def visited(G, start, accept, limit, ignore):
    """[(element, depth)] in breadth-first order"""
    out = [(start, 0)] if accept(start) and not ignore else []
    cur, d = [start], 0
    while cur and d < limit:
        d += 1
        cur = [y for x in cur for y in G.kids[x] if accept(y)]
        out += [(y, d) for y in cur]
    return out


def branches(G, seen, start):
    """does the sequence finish every branch before the next? (first branch that is interrupted, or None)"""
    at = {x: i for i, x in enumerate(seen)}
    for x in seen:
        if x == start:
            continue
        sub = sorted(at[y] for y in G.below(x) if y in at)
        if sub and sub[-1] - sub[0] + 1 != len(sub):
            return x
    return None


def p14(ctx):
    L = Life(ctx, HIER)
    for cls, (breadth, limited) in HIER.items():
        where = L.at(cls, 'execute')
        for G in GRAPHS:
            for start in (x for x in G.kids if G.kind[x] in ('node', 'edge')):
                for fname, (ftext, accept) in FILTERS.items():
                    acc = (lambda x: x != start) if accept is None else (lambda x: accept(G, x))
                    for limit in ((0, 1, 2, 3, 7) if limited else (99,)):
                        for how in ('', 'ignore_root=True', 'ignore_root=False'):
                            if not L.take(97 if limited else 23, cls, G.name, start, fname, limit, how):
                                continue
                            want = visited(G, start, acc, limit, 'True' in how)
                            con = f"{cls}, graph {G.name}, from {start}, {fname}{f', limit {limit}' if limited else ''}{', ' + how if how else ''}"
                            args = ', '.join(["lambda x: seen.append(x)", ftext] + ([str(limit)] if limited else []) + ([how] if how else []))
                            lines = ["seen = []", f"start = {start}", f"t = {cls}({args})", "await t.execute(start)"]
                            if L.take(2, con):
                                lines += ["seen.clear()", "await t.execute(start)"]
                                con += ', second run'

                            def use(I, s, v, con=con, G=G, want=want, breadth=breadth, start=start, where=where):
                                got = plain(whole(I, s, v))
                                if got is BAD:
                                    ctx.und('life', con, where, 'what is visited is not known')
                                    return
                                order = [x for x, _ in want]
                                if sorted(got) != sorted(order):
                                    missing, more = [x for x in order if x not in got], [x for x in got if got.count(x) > order.count(x)]
                                    ctx.bad('life', con, where, f"not visited: {missing}; too often: {more}")
                                elif breadth:
                                    ctx.ob('life', con, got == order, where, f"{got} instead of {order}")
                                else:
                                    b = branches(G, got, start)
                                    first = start in order and got[0] != start
                                    ctx.ob('life', con, b is None and not first, where, f"{got}: " + ('the start is not first' if first else f"the branch of {b} is interrupted"))
                            src = "async def scene(clock):\n" + ''.join(f"    {l}\n" for l in G.lines + lines) + "    return labels(seen, known)\n"
                            outcomes(ctx, L.W, 'life', con, where, src, use)


# -------------------------------------------------------------------------------------------------------------------- P10
def p10(ctx):
    L = Life(ctx, ('RelationFactorization2SubsetOperation', 'Factorization2SubsetOperation', 'HypergraphTraversal', 'SumNorm'))
    where = L.at('HypergraphEdge', 'get_incoming_relations')
    for ds in list(product((IN, OUT, BOTH), repeat=1)) + list(product((IN, OUT, BOTH), repeat=2)) + list(product((IN, OUT, BOTH), repeat=3)) + [()]:
        G = g('x', *[n(c) for c in 'abc'], e('e', *[(c, d) for c, d in zip('abc', ds)]))
        inc = {IN: [1.0, 0.0], OUT: [0.0, 1.0], BOTH: [1.0, 1.0]}
        con = 'edge of ' + (', '.join(d.lower() for d in ds) or 'no relations')
        L.run(G, con, where, [], ["labels(list(e.get_incoming_relations()), known)", "labels(list(e.get_outgoing_relations()), known)",
                                  "[list(r.relation_incidence_value) for r in e.sub_relations]", "labels(list(e.sub_relations), known)"],
              [('incoming relations', G.incoming('e')), ('outgoing relations', G.outgoing('e')), ('incidence values', [inc[d] for d in ds]), ('relations', G.rels['e'])])
        pairs = [[x, y] for x in G.incoming('e') for y in G.outgoing('e') if G.end[x] != G.end[y]]
        L.run(G, con + ', factorised', L.at('RelationFactorization2SubsetOperation', 'execute'), ["t = RelationFactorization2SubsetOperation()", "res = await t.execute(list(e.sub_relations))"],
              ["[labels(x, known) for x in res]"], [('pairs', pairs)], tidy=sorted)
        L.run(G, con + ', subset', L.at('Factorization2SubsetOperation', 'execute'), ["t = Factorization2SubsetOperation()", "res = await t.execute([a, b, c, e])"],
              ["[labels(x, known) for x in res]"], [('pairs', pairs)], tidy=sorted)
        walk(L, G, 'e', con + ', traversed', 1)


# --------------------------------------------------------------------------------------------------------------- P17, P22
def reached(G, start, limit):
    """the relations processed by a walk along relations, breadth first"""
    seen, out, cur = set(), [], [(start, 0)]
    while cur:
        x, d = cur.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if G.kind[x] == 'node':
            cur += [(y, d) for y in G.kids[x] if G.kind[y] == 'edge']
        elif G.kind[x] == 'edge':
            cur += [(y, d) for y in G.rels[x]]
        elif G.kind[x] == 'relation':
            out.append(x)
            if d + 1 < limit:
                cur.append((G.end[x], d + 1))
    return out


def entries(G, r):
    """the connections of a relation: (first, second, edge, weight)"""
    ed = G.up[r]
    w = sum(G.weight[r]) if G.weight[r] else 1.0
    others = [G.end[q] for q in G.rels[ed] if G.end[q] != G.end[r]]
    out = []
    if w and G.dir[r] in (IN, BOTH):
        out += [[G.end[r], x, ed, w] for x in others]
    if w and G.dir[r] in (OUT, BOTH):
        out += [[x, G.end[r], ed, w] for x in others]
    return out


def walk(L, G, start, con, limit, again=False):
    want = [x for r in reached(G, start, limit) for x in entries(G, r)]
    lines = ["seen = []", f"t = HypergraphTraversal(lambda x: seen.append(x), lambda x: True, SumNorm(){'' if limit is None else f', depth={limit}'})", f"await t.execute({start})"]
    if again:
        lines += ["seen.clear()", f"await t.execute({start})"]
    L.run(G, con, L.at('HypergraphTraversal', 'execute'), lines, ["[ids([x[0], x[1], x[2]], known) + [x[3]] for y in seen for x in y]"], [('connections', want)],
          tidy=lambda x: sorted(x, key=repr))


def p17(ctx):
    L = Life(ctx, ('HypergraphTraversal', 'SumNorm', 'QuerySearchElement', 'Factorization2Operation'))
    for G in GRAPHS:
        if G.name == 'with an edge to an edge':
            continue
        for start in (x for x in G.kids if G.kind[x] in ('node', 'edge')):
            for limit in (1, 2, 3, 'math.inf'):
                for again in (False, True):
                    if not L.take(2, G.name, start, limit, again):
                        continue
                    con = f"graph {G.name}, from {start}, limit {limit}{', second run' if again else ''}"
                    if limit == 'math.inf':
                        want = 99
                        walk(L, G, start, con, 99, again)
                    else:
                        walk(L, G, start, con, limit, again)
        paired(L, G)


def paired(L, G):
    """the pairs of every edge that is reached, from every start, in a first, a second and a re-targeted run"""
    starts = [x for x in G.kids if G.kind[x] in ('node', 'edge')]
    for i, start in enumerate(starts):
        for before in (None, start, starts[i - 1]):
            if start != 'top' and not L.take(2, G.name, start, before):
                continue
            L.run(G, f"every pair reached, graph {G.name}, from {start}{f', after a run from {before}' if before else ''}", L.at('Factorization2Operation', 'execute'),
                  ["t = Factorization2Operation()"] + ([f"old = await t.execute({before})"] if before else []) + [f"res = await t.execute({start})"],
                  ["[[labels([x[0]], known)[0], labels(x[1], known)] for x in res]"] + (["[[labels([x[0]], known)[0], labels(x[1], known)] for x in old]"] if before else []),
                  [('pairs', factors(G, start))] + ([('pairs of the earlier run', factors(G, before))] if before else []), tidy=lambda x: sorted(x, key=repr))


def factors(G, start='top'):
    seen, out, cur = set(), [], [start]
    while cur:
        x = cur.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if G.kind[x] == 'node':
            cur += [y for y in G.kids[x] if G.kind[y] == 'edge']
        elif G.kind[x] == 'edge':
            out += [[r, G.outgoing(x)] for r in G.incoming(x)]
            cur += [G.end[r] for r in G.outgoing(x)]
    return out


def p22(ctx):
    L = Life(ctx, ('CoordinateObjectTransformer',))
    where = L.at('CoordinateObjectTransformer', 'execute')
    for G in GRAPHS:
        if G.name in ('with an edge to an edge', 'with edges of nested nodes'):
            continue
        for again in ('', 'second run', 'after another context'):
            if again == 'after another context' and not (G.all('node')[1:] and G.all('edge')):
                continue
            lines = ["t = CoordinateObjectTransformer(top, 1)"]
            if again == 'after another context':
                lines += ["o = h.generate_node('o', None)", "oa = h.generate_node('oa', o)", "ob = h.generate_node('ob', o)", "oe = h.connect_nodes(o, 'oe', [oa, ob])",
                          "await t.reset(o)", "await t.execute()"]
            lines += ["await t.reset(top)", "await t.execute()"]
            if again == 'second run':
                lines += ["await t.execute()"]
            lines += ["msg = t.msg_tensor_value_updates()", "nn = [(y[2], ids([y[0]], known)[0]) for y in t.node_index_list()]", "ne = [(y[2], ids([y[0]], known)[0]) for y in t.edge_index_list()]"]
            want = [x for r in reached(G, 'top', 1) for x in entries(G, r)]
            L.run(G, f"graph {G.name}{', ' + again if again else ''}", where, lines,
                  ["[[k for j, k in ne if j == x[0]] + [k for j, k in nn if j == x[1]] + [k for j, k in nn if j == x[2]] + [x[3]] for x in msg[0]]",
                   "[[k for j, k in ne if j == x[0]] + [k for j, k in nn if j == x[1]] + [x[2]] for x in msg[1]]",
                   "[[k for j, k in ne if j == x[0]] + [k for j, k in nn if j == x[1]] + [x[2]] for x in msg[2]]",
                   "[j for j, k in nn]", "[j for j, k in ne]"],
                  [('weight entries by edge, source and target', [[ed, s, t, w] for s, t, ed, w in want]), ('outgoing incidences', [[ed, s, w] for s, t, ed, w in want]),
                   ('incoming incidences', [[ed, t, w] for s, t, ed, w in want]), ('numbers of nodes', list(range(1 + len([x for x in G.kids['top'] if G.kind[x] == 'node'])))) if all(G.kind[y] != 'node' for x in G.kids['top'] for y in G.kids[x])
                   else ('numbers of nodes', sorted(range(1 + len([x for x in G.kids['top'] if G.kind[x] == 'node'])))),
                   ('numbers of edges', list(range(len([x for x in G.kids['top'] if G.kind[x] == 'edge']))))],
                  tidy=lambda x: sorted(x, key=repr))


    dense(ctx)


def dense(ctx):
    """the dense tensors: arrays of zeros stand for what is written into them"""
    L = Life(ctx, ('NumpyHypergraphTensorTransformer',))
    made = L.W.interp

    def interp():
        I = made()

        def zeros(I, st, args, kw, fr, node):
            d = I.alloc(st, 'dict', data=(), node=node)
            return [(st, d)]
        I.contracts['ext:numpy.zeros'] = zeros
        return I
    L.W.interp = interp
    where = L.at('NumpyHypergraphTensorTransformer', 'execute')
    for G in GRAPHS:
        if G.name in ('with an edge to an edge', 'with edges of nested nodes', 'whose edge leads back to the context'):
            continue
        for again in (False, True):
            lines = ["t = NumpyHypergraphTensorTransformer(1)", "await t.execute(top)"] + (["await t.execute(top)"] if again else []) + ["r = t.tensor_representation"]
            nodes = [x for x in G.kids['top'] if G.kind[x] == 'node']
            edges = [x for x in G.kids['top'] if G.kind[x] == 'edge']
            want = [(edges.index(ed), nodes.index(a), nodes.index(b), w) for r in reached(G, 'top', 1) for a, b, ed, w in entries(G, r)]
            L.run(G, f"dense tensors, graph {G.name}{', second run' if again else ''}", where, lines,
                  ["[list(k) + [r.W[k]] for k in r.W]", "[list(k) + [r.Io[k]] for k in r.Io]", "[list(k) + [r.Ii[k]] for k in r.Ii]"],
                  [('weights by edge, source and target', last([[x[:3], x[3]] for x in want])), ('outgoing incidences', last([[(x[0], x[1]), x[3]] for x in want])),
                   ('incoming incidences', last([[(x[0], x[2]), x[3]] for x in want]))], tidy=lambda x: sorted(x, key=repr), legal=False)


def last(entries):
    d = {}
    for k, w in entries:
        d[k] = w
    return [list(k) + [w] for k, w in d.items()]


# -------------------------------------------------------------------------------------------------------------------- P21
def p21(ctx):
    L = Life(ctx, ('IndexHomomorphismGraphTensor',))
    where = L.at('IndexHomomorphismGraphTensor', 'execute')
    for G in GRAPHS:
        for ignore, depth in product((True, False, None), (1, 2, 5, None)):
            for again in ('', 'second run', 'after another graph'):
                if not L.take(5, G.name, ignore, depth, again):
                    continue
                d = 1 if depth is None else depth
                lists = [[x for x, _ in visited(G, 'top', lambda x, k=k: G.kind[x] == k, d, bool(ignore))] for k in ('node', 'edge', 'value')]
                a = ', '.join(([f"ignore_root={ignore}"] if ignore is not None else []) + ([f"depth={depth}"] if depth is not None else []))
                lines = [f"t = IndexHomomorphismGraphTensor({a})"]
                if again == 'after another graph':
                    lines += ["o = h.generate_node('o', None)", "oa = h.generate_node('oa', o)", "oe = h.connect_nodes(o, 'oe', [oa])", "ov = h.create_value(o, 'ov', [1.0])", "await t.execute(o)"]
                lines += ["await t.execute(top)"] * (2 if again == 'second run' else 1)
                res, want = ["t.cnt_node", "t.cnt_edges"], [('count of nodes', len(lists[0])), ('count of edges', len(lists[1]))]
                for xs, to, back, what in zip(lists, ('node', 'edge', 'val'), ('dim', 'depth', 'ival'), ('nodes', 'edges', 'values')):
                    res += [f"[t.{to}(x.uuid) for x in [{', '.join(xs)}]]", f"ids([t.{back}(i) for i in range({len(xs)})], known)"]
                    want += [(f"numbers of {what}", list(range(len(xs)))), (f"{what} of the numbers", xs)]
                con = f"graph {G.name}, {a or 'defaults'}{', ' + again if again else ''}"
                L.run(G, con, where, lines, res, want)
                for to, n, xs in (('dim', len(lists[0]), lists[0]), ('depth', len(lists[1]), lists[1]), ('ival', len(lists[2]), lists[2])):
                    if L.take(3, con, to):
                        L.run(G, f"{con}: {to} beyond the last", where, lines + ["ok = False", "try:", f"    x = t.{to}({n})", "except Exception:", "    ok = True"], ["ok"], [('no element', True)])


# -------------------------------------------------------------------------------------------------------------------- P18
def p18(ctx):
    L = Life(ctx, ('QuerySearchElement', 'QuerySearchSubElement'))
    for cls in ('QuerySearchElement', 'QuerySearchSubElement'):
        where = L.at(cls, '_traverse')
        for G in (BY['of nested nodes'], BY['with one edge'], BY['with a cycle'], BY['with edges of nested nodes'], BY['without elements']):
            elements = [x for x in G.kids if G.kind[x] in ('node', 'edge', 'value')]
            for start, goal in product([x for x in elements if G.kind[x] != 'value'], elements + [None]):
                if not L.take(4, cls, G.name, start, goal):
                    continue
                path = 'top/nothing' if goal is None else G.path[goal]
                area = G.below('top') if cls == 'QuerySearchElement' else G.below(start)
                want = [goal] if goal in area else []
                L.run(G, f"{cls}, graph {G.name}, {goal or 'nothing'} from {start}", where, [f"t = {cls}()", f"t.query_def = '{path}'", f"await t.execute({start})"],
                      ["labels(list(t.query_result), known)"], [('', want)])
        G = BY['of nested nodes']
        for con, lines, want in (
                ('searched twice', ["await t.execute(top)", "await t.execute(top)"], ['k']),
                ('searched again after another name', ["t.query_def = 'top/b'", "await t.execute(top)", "t.query_def = 'top/a/c/f/k'", "await t.execute(top)"], ['k']),
                ('searched for nothing after a match', ["await t.execute(top)", "t.query_def = 'top/a/nothing'", "await t.execute(top)"], []),
                ('searched from elsewhere', ["await t.execute(top)", "await t.execute(b)"], ['k'] if cls == 'QuerySearchElement' else []),
                ('moved before the search', ["b.add_element(f)", "await t.execute(top)"], []),
                ('moved between the searches', ["await t.execute(top)", "b.add_element(f)", "t.query_def = 'top/b/f/k'", "await t.execute(top)"], ['k']),
                ('removed between the searches', ["await t.execute(top)", "x = list(f.remove_element(id_name='k'))", "await t.execute(top)"], []),
                ('added between the searches', ["t.query_def = 'top/b/new'", "await t.execute(top)", "k = h.generate_node('new', b)", "known.append((k, 'k'))", "await t.execute(top)"], ['k']),
                ('another one between', ["await t.execute(top)", f"s = {cls}()", "s.query_def = 'top/b'", "await s.execute(top)"], ['k'])):
            L.run(G, f"{cls}, {con}", where, [f"t = {cls}()", "t.query_def = 'top/a/c/f/k'"] + lines, ["labels(list(t.query_result), known)"], [('', want)])


# -------------------------------------------------------------------------------------------------------------------- P19
PREPS = {'all': ("lambda x: True", lambda G, x: True), 'edges': ("lambda x: isinstance(x, HypergraphEdge)", lambda G, x: G.kind[x] == 'edge'),
         'named a': ("lambda x: x.id_name == 'a'", lambda G, x: G.called[x] == 'a'), 'none': ("lambda x: False", lambda G, x: False),
         'relations': ("lambda x: isinstance(x, HypergraphRelation)", lambda G, x: G.kind[x] == 'relation')}
STATEMENTS = {'everywhere': ("lambda x: True", lambda G, x: True), 'not through b': ("lambda x: x.id_name != 'b'", lambda G, x: G.called[x] != 'b'),
              'through nodes': ("lambda x: isinstance(x, HypergraphNode)", lambda G, x: G.kind[x] == 'node')}


def matches(G, q):
    ctxt, prep, stmt = q
    acc = lambda x: G.kind[x] in ('node', 'edge', 'relation') and STATEMENTS[stmt][1](G, x)
    return sorted(x for x, _ in visited(G, ctxt, acc, 99, False) if PREPS[prep][1](G, x))


def p19(ctx):
    L = Life(ctx, ('HypergraphQueryEngine', 'HierarchicalPrepositionQuery'))
    where = L.at('HypergraphQueryEngine', 'execute')
    one = [(c, p, s) for c in ('top', 'a') for p in PREPS for s in STATEMENTS]
    some = [[]] + [[q] for q in one] + [[q, one[(i * 7 + 3) % len(one)]] for i, q in enumerate(one)] + [[q, one[(i * 5 + 1) % len(one)], one[(i * 11 + 2) % len(one)]] for i, q in enumerate(one)]
    HOW = {'once': (["res = list(await t.execute())"], 1), 'twice': (["z = list(await t.execute())", "res = list(await t.execute())"], 1),
           'cleared': (["t.clear()", "res = list(await t.execute())"], 0), 'cleared after a run': (["z = list(await t.execute())", "t.clear()", "res = list(await t.execute())"], 0),
           'filled again': (["z = list(await t.execute())", "t.clear()", "{again}", "res = list(await t.execute())"], 1)}
    for G in (BY['with one edge'], BY['of nested nodes'], BY['with edges of nested nodes'], BY['with a loop']):
        for qs in some:
            for how, (run, there) in HOW.items():
                if not L.take(11, G.name, qs, how):
                    continue
                if any(q[0] not in G.kids for q in qs):
                    continue
                regs = [f"t.add_query('q{i}', HierarchicalPrepositionQuery({c}, {PREPS[p][0]}, {STATEMENTS[s][0]}))" for i, (c, p, s) in enumerate(qs)]
                lines = ["t = HypergraphQueryEngine('engine', b'00', 'engine/engine', clock, None)"] + regs
                for l in run:
                    lines += regs if l == '{again}' else [l]
                parts = [matches(G, q) for q in qs] if there else []

                def tidy(x, parts=parts):
                    out, i = [], 0
                    for p in parts:
                        out.append(sorted(x[i:i + len(p)]))
                        i += len(p)
                    return out + [x[i:]]
                con = f"graph {G.name}, {how}: " + ('; '.join(f"{p} from {c} {s}" for c, p, s in qs) or 'no queries')
                L.run(G, con, where, lines, ["labels(res, known)"], [('', [x for p in parts for x in p])], tidy=tidy)


# -------------------------------------------------------------------------------------------------------------------- P20
def p20(ctx):
    L = Life(ctx, ('RelationFactorization2SubsetOperation', 'Factorization2SubsetOperation', 'MapFactorizationToFactorGraph', 'Factorization2Operation'))
    for G in GRAPHS:
        if G.name == 'with an edge to an edge':
            continue
        paired(L, G)
        nodes, edges, rels = G.all('node'), G.all('edge'), G.all('relation')
        picks = [nodes + edges, edges + nodes, nodes[1:] + edges, nodes + edges[1:], nodes[:2] + edges, edges, nodes, []]
        for i, pick in enumerate(picks):
            for loop in (None, False, True):
                for again in (False, True):
                    if not L.take(4, G.name, i, loop, again):
                        continue
                    want = [[x, y] for ed in edges if ed in pick for x in G.incoming(ed) for y in G.outgoing(ed)
                            if G.end[x] in pick and G.end[y] in pick and (G.end[x] != G.end[y] or loop)]
                    lines = [f"t = Factorization2SubsetOperation({'' if loop is None else loop})"] + [f"res = await t.execute([{', '.join(pick)}])"] * (2 if again else 1)
                    L.run(G, f"subset {', '.join(pick) or 'empty'}, graph {G.name}, self loops {loop}{', second run' if again else ''}", L.at('Factorization2SubsetOperation', 'execute'), lines,
                          ["[labels(x, known) for x in res]"], [('pairs', want)], tidy=sorted)
        for i, pick in enumerate([rels, rels[::-1], rels[1:], rels[:-1], rels[::2], nodes + rels, []]):
            for loop in (None, False, True):
                for again in (False, True):
                    if not L.take(4, G.name, 'r', i, loop, again):
                        continue
                    chosen = [x for x in pick if x in rels]
                    want = [[x, y] for x in chosen for y in chosen if G.up[x] == G.up[y] and G.dir[x] in (IN, BOTH) and G.dir[y] in (OUT, BOTH) and (G.end[x] != G.end[y] or loop)]
                    lines = [f"t = RelationFactorization2SubsetOperation({'' if loop is None else loop})"] + [f"res = await t.execute([{', '.join(pick)}])"] * (2 if again else 1)
                    L.run(G, f"relations {', '.join(pick) or 'none'}, graph {G.name}, self loops {loop}{', second run' if again else ''}", L.at('RelationFactorization2SubsetOperation', 'execute'), lines,
                          ["[labels(x, known) for x in res]"], [('pairs', want)], tidy=sorted)


# -------------------------------------------------------------------------------------------------------------------- P11
def p11(ctx):
    L = Life(ctx, ('ErrorInsufficientValues', 'CognitiveEntitySemanticFactory'))
    G = g('x', n('a'), n('b'), n('c'), n('d'), n('deep'), ('value', 'v0', 'top', [1.0]), ('value', 'v1', 'top', [2.0]), ('value', 'v2', 'top', [3.0]), ('value', 'v3', 'top', [4.0]))
    D = [f"EnumRelationDirection.{x}" for x in (IN, OUT, BOTH)]
    res = ["labels([r.endpoint for r in x.sub_relations], known)", "[r.direction for r in x.sub_relations]", "labels([r.weight for r in x.sub_relations if r.weight is not None], known)",
           "[r.weight is None for r in x.sub_relations]", "[len(list(y.sub_ports)) for y in [a, b, c, d]]", "x.parent is {c}", "[x.id_name, len(list({c}.sub_edges))]"]

    def judge(con, where, call, ends, dirs, vals, c):
        want = [('endpoints', ends), ('directions', dirs), ('weights', [v for v in vals if v]), ('relations without weight', [v is None for v in vals]),
                ('ports', [ends.count(y) for y in 'abcd']), ('container', True), ('edge', ['x', 1])]
        L.run(G, con, where, [f"x = {call}"], [r.replace('{c}', c) for r in res], want)
    where = L.at('HypergraphFactory', 'connect_nodes')
    for ends in ([], ['a'], ['a', 'b'], ['c', 'a', 'b'], ['d', 'c', 'b', 'a'], ['a', 'b', 'a']):
        for d in (None, 0, 1, 2):
            for vals in (None, 'all'):
                for c in ('top', 'deep'):
                    vs = [None] * len(ends) if vals is None else [f"v{i}" for i in range(len(ends))]
                    if not L.take(2, ends, d, vals, c):
                        continue
                    call = f"h.connect_nodes({c}, 'x', [{', '.join(ends)}]" + ('' if d is None else f", direction={D[d]}") + ('' if vals is None else f", values=[{', '.join(vs)}]") + ')'
                    judge(f"connect_nodes {', '.join(ends)} direction {d} values {vals} in {c}", where, call, ends, [(IN, OUT, BOTH)[2 if d is None else d]] * len(ends), vs, c)
    where = L.at('HypergraphFactory', 'connect_2factor_edges')
    for i, o in ((['a'], ['b']), (['a', 'b'], ['c']), (['a'], ['c', 'b', 'd']), ([], ['a', 'b']), (['b', 'a'], []), ([], []), (['a', 'd'], ['c', 'b'])):
        for d0, d1 in product((0, 1, 2), repeat=2):
            for vals in (None, 'all'):
                k = len(i) + len(o)
                vs = [None] * k if vals is None else [f"v{j}" for j in range(k)]
                if not L.take(3, i, o, d0, d1, vals):
                    continue
                call = f"h.connect_2factor_edges(top, 'x', [{', '.join(i)}], [{', '.join(o)}], ({D[d0]}, {D[d1]})" + ('' if vals is None else f", [{', '.join(vs)}]") + ')'
                judge(f"connect_2factor_edges {i} {o} {d0} {d1} values {vals}", where, call, i + o, [(IN, OUT, BOTH)[d0]] * len(i) + [(IN, OUT, BOTH)[d1]] * len(o), vs, 'top')
        call = f"h.connect_dir_edges(top, 'x', [{', '.join(i)}], [{', '.join(o)}])"
        judge(f"connect_dir_edges {i} {o}", L.at('HypergraphFactory', 'connect_dir_edges'), call, i + o, [IN] * len(i) + [OUT] * len(o), [None] * (len(i) + len(o)), 'top')
    where = L.at('HypergraphFactory', 'connect_tuple_nodes')
    for rows in ([], [('a', 0, 'v0')], [('a', 0, None), ('b', 1, 'v1')], [('b', 2, 'v1'), ('a', 1, 'v0'), ('c', 0, None)], [('a', 0, None), ('a', 1, 'v2')]):
        call = "h.connect_tuple_nodes(top, 'x', [" + ', '.join(f"({x}, {D[d]}, {v}, None)" for x, d, v in rows) + '])'
        judge(f"connect_tuple_nodes {rows}", where, call, [x for x, _, _ in rows], [(IN, OUT, BOTH)[d] for _, d, _ in rows], [v for _, _, v in rows], 'top')
    rejections(L, G, D)


def rejections(L, G, D):
    for call in ("h.connect_nodes(top, 'x', [a, b], values=[v0])", "h.connect_nodes(top, 'x', [a, b], values=[])", "h.connect_nodes(top, 'x', [a], values=[v0, v1])",
                 "h.connect_nodes(top, 'x', [], values=[v0])", f"h.connect_2factor_edges(top, 'x', [a], [b], ({D[0]}, {D[1]}), [v0])",
                 f"h.connect_2factor_edges(top, 'x', [a], [b], ({D[0]}, {D[1]}), [v0, v1, v2])", f"h.connect_2factor_edges(top, 'x', [a, c], [b], ({D[0]}, {D[1]}), [v0, v1])",
                 f"h.connect_2factor_edges(top, 'x', [a], [b, c], ({D[0]}, {D[1]}), [v0, v1])", f"h.connect_2factor_edges(top, 'x', [], [], ({D[0]}, {D[1]}), [v0])"):
        L.run(G, f"{call}: a wrong number of values", L.at('HypergraphFactory', 'connect_nodes' if 'connect_nodes' in call else 'connect_2factor_edges'),
              ["e = 'accepted'", "try:", f"    {call}", "except ErrorInsufficientValues:", "    e = 'ErrorInsufficientValues'", "except Exception:", "    e = 'another error'"],
              ["e", "len(list(top.sub_edges))", "[len(list(y.sub_ports)) for y in [a, b, c, d]]"],
              [('is rejected', 'ErrorInsufficientValues'), ('nothing is added', 0), ('no ports', [0, 0, 0, 0])])


def p03_life(ctx):
    L = Life(ctx, ('ErrorInsufficientValues', 'CognitiveEntitySemanticFactory'))
    G = g('x', n('a'), n('b'), n('c'), n('d'), n('deep'), ('value', 'v0', 'top', [1.0]), ('value', 'v1', 'top', [2.0]), ('value', 'v2', 'top', [3.0]), ('value', 'v3', 'top', [4.0]))
    rejections(L, G, [f"EnumRelationDirection.{x}" for x in (IN, OUT, BOTH)])


# -------------------------------------------------------------------------------------------------------------------- P15
RUNS = {
    'breadth-first traversal': (('BreadthFirstHierarchicalTraversal',), "BreadthFirstHierarchicalTraversal(lambda x: x, lambda x: True)", "await {t}.execute({g})", "{r}"),
    'depth-first traversal': (('DepthFirstHierarchicalTraversal',), "DepthFirstHierarchicalTraversal(lambda x: x, lambda x: True)", "await {t}.execute({g})", "{r}"),
    'limited depth-first traversal': (('DepthLimitedDepthVisitChildren',), "DepthLimitedDepthVisitChildren(lambda x: x, lambda x: True, 2)", "await {t}.execute({g})", "{r}"),
    'limited breadth-first traversal': (('DepthLimitedBreadthVisitChildren',), "DepthLimitedBreadthVisitChildren(lambda x: x, lambda x: True, 2)", "await {t}.execute({g})", "{r}"),
    'relation traversal': (('HypergraphTraversal', 'SumNorm'), "HypergraphTraversal(lambda x: [[y[0], y[1], y[2], y[3]] for y in x], lambda x: True, SumNorm(), depth=3)", "await {t}.execute({g})", "{r}"),
    'search of an element': (('QuerySearchElement',), "QuerySearchElement()", "await found({t}, {g}, 'b')", "{r}"),
    'search of a child': (('QuerySearchSubElement',), "QuerySearchSubElement()", "await found({t}, {g}, 'b')", "{r}"),
    'factorization': (('Factorization2Operation',), "Factorization2Operation()", "await {t}.execute({g})", "[[x[0], x[1]] for x in {r}]"),
    'factorization of a subset': (('Factorization2SubsetOperation',), "Factorization2SubsetOperation()", "await {t}.execute(list({g}.get_subelements(lambda x: True)))", "{r}"),
    'factorization of relations': (('RelationFactorization2SubsetOperation',), "RelationFactorization2SubsetOperation()", "await {t}.execute([y for x in {g}.sub_edges for y in x.sub_relations])", "{r}"),
    'index': (('IndexHomomorphismGraphTensor',), "IndexHomomorphismGraphTensor(False, depth=3)", "await numbers({t}, {g})", "{r}"),
    'coordinates': (('CoordinateObjectTransformer',), "CoordinateObjectTransformer(top, 1)", "await coordinates({t}, {g})", "{r}"),
    'engine': (('HypergraphQueryEngine', 'HierarchicalPrepositionQuery'), "engine(clock, top, other)", "await asked({t}, {g})", "{r}"),
}
RUNLIB = {
    'relation traversal': '',
    'search of an element': "async def found(t, x, n):\n    t.query_def = x.id_name + '/' + n\n    await t.execute(x)\n    return t.query_result\n",
    'index': "async def numbers(t, x):\n    await t.execute(x)\n    return [t.cnt_node, t.cnt_edges, [t.dim(i) for i in range(t.cnt_node)], [t.depth(i) for i in range(t.cnt_edges)]]\n",
    'coordinates': "async def coordinates(t, x):\n    await t.reset(x)\n    await t.execute()\n    m = t.msg_tensor_value_updates()\n"
                   "    return [t.node_index_list(), t.edge_index_list(), t.msg_relation_index_list(), m[0], m[1], m[2], t.msg_value_nodes(), t.msg_value_node_update()]\n",
    'engine': "def engine(clock, g, o):\n    t = [HypergraphQueryEngine('engine', b'00', 'engine/engine', clock, None), HypergraphQueryEngine('engine', b'00', 'engine/engine', clock, None)]\n"
              "    t[0].add_query('q', HierarchicalPrepositionQuery(g, lambda x: True, lambda x: True))\n    t[1].add_query('q', HierarchicalPrepositionQuery(o, lambda x: True, lambda x: True))\n    return t\n"
              "async def asked(t, x):\n    return list(await t[0].execute()) if x.id_name == 'top' else list(await t[1].execute())\n",
}
RUNLIB['search of a child'] = RUNLIB['search of an element']
# what happens between the first run and the one that is looked at; what is kept of the first run
BETWEEN = {
    'at once': [],
    'after another graph': ["z = {other}"],
    'after a run of another object': ["s = {make}", "z = {elsewhere}"],
    'after a run of another object on the same graph': ["s = {make}", "z = {beside}"],
    'after a change': ["n = h.generate_node('late', top)", "ne = h.connect_dir_edges(top, 'later', [n], [a])", "nv = h.create_value(top, 'latest', [5.0])"],
    'after a removal': ["z = list(top.remove_element(id_name='b'))"],
}


def p15(ctx):
    ctx.rule('life', 'in client programs: a run after others yields what the first run of a new object yields, and leaves earlier results alone')
    graphs = [BY['with one edge'], BY['with a cycle'], BY['with values']] if ctx.tier == 'thorough' else [BY['with one edge']]
    for op, (need, make, run, out) in RUNS.items():
        L = Life(ctx, need)
        L.W.lib = LIB + RUNLIB.get(op, '')
        where = L.at(need[0], 'execute')
        for G in graphs:
            for when, between in BETWEEN.items():
                if when == 'after a removal' and op in ('relation traversal', 'coordinates', 'index') or when == 'after a removal' and 'actor' in op:
                    continue
                fill = {'make': make, 'other': run.format(t='t', g='other'), 'elsewhere': run.format(t='s', g='other'), 'beside': run.format(t='s', g='top')}
                o = out.format(r='r')
                src = ("async def scene(clock):\n" + ''.join(f"    {l}\n" for l in G.lines + ["other = h.generate_node('other', None)", "oa = h.generate_node('oa', other)", "ob = h.generate_node('b', other)",
                       "oe = h.connect_dir_edges(other, 'oe', [oa], [ob])", f"t = {make}", f"r = {run.format(t='t', g='top')}", f"before = list({o})"] + [b.format(**fill) for b in between]
                       + [f"second = {run.format(t='t', g='top')}", f"kept = {o}", "r = second", f"second = {o}", f"u = {make}", f"r = {run.format(t='u', g='top')}", f"fresh = {o}"])
                       + "    return [before, kept, second, fresh]\n")
                con = f"{op}, {when}, graph {G.name}"

                def use(I, s, v, con=con, where=where):
                    before, kept, second, fresh = whole(I, s, v)[1]
                    ctx.ob('life', f"{con}: earlier result", kept == before, where, '' if kept == before else f"the result of the first run was {brief(before)} and is now {brief(kept)}")
                    ctx.ob('life', con, second == fresh, where, '' if second == fresh else f"{brief(second)} where a new object yields {brief(fresh)}")
                outcomes(ctx, L.W, 'life', con, where, src, use)


def brief(v):
    if v[0] in ('list', 'tup'):
        t = '[' + ', '.join(brief(x) for x in v[1]) + ']'
        return t if len(t) < 120 else t[:117] + '...'
    return repr(v[2]) if is_c(v) else str(v[-1])[:30]


LIFE = {'P03': p03_life, 'P24': p24_life, 'P25': p25_life, 'P15': p15, 'P10': p10, 'P11': p11, 'P14': p14, 'P17': p17, 'P18': p18, 'P19': p19, 'P20': p20, 'P21': p21, 'P22': p22}


def life(ctx, prop):
    LIFE[prop](ctx)
