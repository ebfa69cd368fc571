"""Histories of additions, removals and moves as client programs, against a reference model (part of P01-P08).
The general rules of those properties look at each operation for every state; here whole histories over small models
are evaluated, whatever representation the library keeps."""
from itertools import product
from sa.interp import is_c
from .p_export import outcomes, exc_name
from .p_model import whole
from .p_build import definite
from .world import World, Unclear

KINDS = {'node': ('HypergraphNode', "HypergraphNode('{n}', b'{u}', '{n}', clock, None)"),
         'edge': ('HypergraphEdge', "HypergraphEdge('{n}', b'{u}', '{n}', clock, None)"),
         'engine': ('HypergraphQueryEngine', "HypergraphQueryEngine('{n}', b'{u}', '{n}', clock, None)"),
         'relation': ('HypergraphRelation', "HypergraphRelation(b'{u}', '{n}', '{n}', far, None)"),
         'value': ('ValueNode', "ValueNode(b'{u}', '{n}', '{n}', [1.0])"),
         'semantic': ('CognitiveEntity', "CognitiveEntity(b'{u}', '{n}', '{n}', None, {{'name': '{n}'}})"),
         'port': ('HypergraphPort', "HypergraphPort(b'{u}', '{n}', '{n}', far)")}
CLOCKED = ('node', 'edge', 'engine')
LIB = '''
def known(x, names):
    return [[y.uuid for y in x.get_element_by_id_name(n)] for n in names]

def children(x):
    return [y.uuid for y in x.get_subelements(lambda y: True)]

def above(x):
    return None if x.parent is None else x.parent.uuid
'''


class Ref:
    """what the operations are to do"""

    def __init__(self, cast):
        self.name = {e: n for e, (n, _) in cast.items()}
        self.kind = {e: k for e, (_, k) in cast.items()}
        self.kids = {e: [] for e in cast}
        self.up = {e: None for e in cast}
        self.cid = {e: 0 for e in cast}
        self.ever = {e: 0 for e in cast}
        self.fresh = set()

    def chain(self, e):
        out = []
        while e is not None:
            out.append(e)
            e = self.up[e]
        return out

    def below(self, e):
        return [e] + [y for k in self.kids[e] for y in self.below(k)]

    def add(self, c, x):
        if x in self.chain(c):
            return 'ErrorRecursiveHierarchy'
        if x in self.kids[c]:
            return 'ErrorDuplicateElement'
        if self.up[x] is not None:
            self.kids[self.up[x]].remove(x)
        self.kids[c].append(x)
        self.up[x] = c
        self.cid[x] = self.ever[c]
        self.ever[c] += 1
        self.fresh |= set(self.below(x))
        return None

    def remove(self, c, name, uuid):
        if name is None and uuid is None:
            return 'ErrorInvalidQuery', []
        if uuid is not None and (uuid not in self.kids[c] or name is not None and self.name[uuid] != name):
            return 'any', []
        gone = [x for x in self.kids[c] if (uuid is None or x == uuid) and (name is None or self.name[x] == name)]
        for x in gone:
            self.kids[c].remove(x)
            self.up[x] = None
            self.fresh |= set(self.below(x))
        return ('maybe' if not gone else None), gone

    def path(self, e):
        return '/'.join(self.name[x] for x in reversed(self.chain(e)))

    def find(self, c, path):
        cur = [c]
        for t in path.split('/'):
            cur = [x for y in cur for x in self.kids[y] if self.name[x] == t]
        return sorted(cur)


def call(op, ref, i):
    """(lines of the program, what is returned by it or None)"""
    k = op[0]
    out = f"r{i}"
    if k == 'add':
        return [f"{op[1]}.add_element({op[2]})"], ref.add(op[1], op[2]), None
    if k == 'reg':
        return [f"{op[2]}.register({op[1]})"], ref.add(op[1], op[2]), None
    if k == 'del':
        err, gone = ref.remove(op[1], op[2], op[3])
        a = ', '.join(([f"id_name='{op[2]}'"] if op[2] is not None else []) + ([f"uuid={op[3]}.uuid"] if op[3] is not None else []))
        return [f"{out} = [y.uuid for y in {op[1]}.remove_element({a})]"], err, gone
    if k == 'first':                                     # partly read
        err, gone = ref.remove(op[1], None, op[2])
        return [f"{out} = [next({op[1]}.remove_element(uuid={op[2]}.uuid)).uuid]"], err, gone
    if k == 'dereg':
        up = ref.up[op[1]]
        if up is not None:
            ref.remove(up, None, op[1])
        return [f"{op[1]}.deregister()"], None, None
    if k == 'adds':
        err = None
        for x in op[2]:
            err = err or ref.add(op[1], x)
        return [f"await {op[1]}.add_elements([{', '.join(op[2])}])"], err, None
    if k == 'dels':
        all_ = []
        for n, u in op[2]:
            _, gone = ref.remove(op[1], n, u)
            all_ += gone
        a = ', '.join(f"({repr(n) if n is not None else repr('')}, {u + '.uuid' if u else None})" for n, u in op[2])
        return [f"{out} = [y.uuid for y in await {op[1]}.remove_elements([{a}])]"], None, all_
    raise ValueError(k)


def program(cast, setup, ops, names, paths, watch):
    """(source, expectations [(property, label, kind, value)])"""
    src = ["far = HypergraphNode('far', b'far', 'far', clock, None)"]
    for e, (n, k) in cast.items():
        src.append(f"{e} = " + KINDS[k][1].format(n=n, u=e))
    ref = Ref(cast)
    for o in setup:
        src += call(o, ref, 0)[0]
    looks = []
    clocked = [e for e in cast if cast[e][1] in CLOCKED]
    src += [f"t_{e} = {e}.timestamp" for e in clocked]
    ref.fresh = set()
    tries = False
    for i, o in enumerate(ops):
        lines, err, gone = call(o, ref, i + 1)
        if err in (None, 'maybe') and not (err == 'maybe'):
            src += lines
            if gone is not None:
                looks.append(('P02', f"handed back by step {i + 1}", f"r{i + 1}", sorted(gone)))
                if o[0] == 'dels':
                    looks.append(('P08', f"handed back by step {i + 1}", f"r{i + 1}", sorted(gone)))
        else:
            tries = True
            src += [f"e{i + 1} = 'accepted'", "try:"] + ['    ' + l for l in lines]
            named = {'ErrorRecursiveHierarchy': 1, 'ErrorDuplicateElement': 1, 'ErrorInvalidQuery': 1}
            if err in named:
                src += [f"except {err}:", f"    e{i + 1} = '{err}'", "except Exception:", f"    e{i + 1} = 'another error'"]
                looks.append(('P03', f"step {i + 1} is rejected", f"e{i + 1}", err))
            else:
                src += ["except Exception:", f"    e{i + 1} = 'rejected'"]
                if err == 'any':
                    looks.append(('P03', f"step {i + 1} is rejected", f"e{i + 1}", 'rejected'))
    bulk = any(o[0] in ('adds', 'dels') for o in ops)
    for e in cast:
        ps = ('P01',) + (('P03',) if tries else ()) + (('P08',) if bulk else ()) + ('P02',)
        looks.append((ps, f"children of {e}", f"children({e})", sorted(ref.kids[e])))
        looks.append((ps, f"names known to {e}", f"known({e}, {names!r})", [sorted(x for x in ref.kids[e] if ref.name[x] == n) for n in names]))
        looks.append((ps + ('P07',), f"names known to {e}", f"known({e}, {names!r})", [sorted(x for x in ref.kids[e] if ref.name[x] == n) for n in names]))
        looks.append((ps, f"container of {e}", f"above({e})", ref.up[e]))
        if cast[e][1] in CLOCKED:
            looks.append((ps, f"count of {e}", f"{e}.cnt_subelements", len(ref.kids[e])))
        ps = ('P04',) + (('P03',) if tries else ()) + (('P08',) if bulk else ())
        looks.append((ps, f"path of {e}", f"{e}.qualified_name", ref.path(e)))
        looks.append((ps, f"depth of {e}", f"{e}.depth", len(ref.chain(e)) - 1))
        if ref.up[e] is not None:
            looks.append((('P05',) + (('P03',) if tries else ()), f"position of {e}", f"{e}.cid", ref.cid[e]))
    for c, p in paths:
        looks.append(('P07', f"{p} from {c}", f"known({c}, [{p!r}])", [ref.find(c, p)]))
    for e in clocked:
        if e in ref.fresh:
            looks.append(('P06', f"{e} is refreshed", f"{e}.timestamp > t_{e}", True))
    head = 'async def' if any('await' in l for l in src) else 'def'
    code = f"{head} scene(clock):\n" + ''.join(f"    {l}\n" for l in src) + f"    return [{', '.join('(' + x[2] + ')' for x in looks)}]\n"
    return code, looks


def plain(v):
    if v[0] in ('list', 'tup'):
        xs = [plain(x) for x in v[1]]
        return None if any(x is BAD for x in xs) else xs
    if is_c(v):
        return v[2].decode('latin1') if isinstance(v[2], bytes) else v[2]
    return BAD


BAD = object()


def tidy(x):
    """members of lists in any order"""
    if isinstance(x, list):
        return sorted((tidy(y) for y in x), key=repr) if all(not isinstance(y, list) for y in x) else [tidy(y) for y in x]
    return x


def show(op):
    a = [x if isinstance(x, str) else '' if x is None else '+'.join(y if isinstance(y, str) else '/'.join(str(z) for z in y if z) for y in x) for x in op[1:]]
    return {'add': '{0}<-{1}', 'reg': '{1} registers at {0}', 'del': '{0} without {1} {2}', 'first': '{0} without {1}, read once', 'dereg': '{0} leaves',
            'adds': '{0}<-all of {1}', 'dels': '{0} without all of {1}'}[op[0]].format(*a)


NODES = {'a': ('A', 'node'), 'b': ('B', 'node'), 'x': ('x', 'node'), 'y': ('x', 'node'), 'z': ('z', 'node')}
EMPTY = []
FILLED = [('add', 'a', 'x'), ('add', 'a', 'y'), ('add', 'x', 'z')]
DEEP = [('add', 'a', 'b'), ('add', 'b', 'x'), ('add', 'x', 'z'), ('add', 'b', 'y')]
STEPS = [('add', 'a', 'x'), ('add', 'b', 'x'), ('add', 'b', 'a'), ('add', 'x', 'a'), ('add', 'z', 'b'), ('add', 'y', 'z'), ('del', 'a', 'x', None), ('del', 'a', None, 'x'), ('del', 'a', 'x', 'y'),
         ('del', 'b', 'x', 'x'), ('del', 'b', 'x', None), ('first', 'a', 'x'), ('del', 'x', 'z', None), ('add', 'a', 'a')]
NAMES = ['A', 'B', 'x', 'z', 'none']
PATHS = [('a', 'x'), ('a', 'x/z'), ('a', 'B/x'), ('a', 'B/x/z'), ('b', 'A/x/z'), ('a', 'none/z'), ('a', 'B/none'), ('b', 'x/z'), ('x', 'z')]


def kinds(c, d, x, y):
    return {'a': ('A', c), 'b': ('B', d), 'x': ('x', x), 'y': ('x', y), 'z': ('z', 'value')}


def histories(tier='quick'):
    out = []
    for name, setup in (('nothing', EMPTY), ('filled', FILLED), ('deep', DEEP)):
        for o in STEPS:
            out.append((NODES, name, setup, [o]))
        for o, q in product(STEPS, STEPS):
            if tier == 'thorough' or hash_of(o, q) % (3 if name == 'filled' else 8) == 0:
                out.append((NODES, name, setup, [o, q]))
    more = [[('dereg', 'x')], [('dereg', 'x'), ('dereg', 'x')], [('reg', 'b', 'x')], [('reg', 'a', 'x')], [('reg', 'x', 'a')], [('dereg', 'y'), ('reg', 'b', 'y'), ('reg', 'a', 'y')],
            [('adds', 'b', ['x', 'y'])], [('adds', 'b', ['y', 'x', 'a'])], [('adds', 'b', [])], [('dels', 'a', [(None, 'x'), (None, 'y')])], [('dels', 'a', [('x', None)])],
            [('dels', 'a', [('x', 'y')]), ('adds', 'a', ['y', 'z'])], [('dels', 'a', [])], [('dels', 'a', [('x', 'y'), (None, 'x')])], [('del', 'a', None, None)],
            [('del', 'a', 'none', None)], [('del', 'a', 'z', 'x')], [('del', 'a', None, 'z')], [('del', 'a', 'x', 'z')], [('adds', 'b', ['x', 'x'])], [('adds', 'b', ['y', 'b'])],
            [('add', 'b', 'x'), ('add', 'a', 'x'), ('add', 'b', 'x'), ('add', 'b', 'y')], [('del', 'a', 'x', None), ('add', 'a', 'y'), ('add', 'a', 'x'), ('add', 'y', 'z')]]
    for ops in more:
        out.append((NODES, 'filled', FILLED, ops))
    for c, d in (('node', 'edge'), ('edge', 'node'), ('edge', 'edge'), ('relation', 'node'), ('edge', 'relation'), ('semantic', 'relation'), ('value', 'semantic'), ('engine', 'node'), ('port', 'node')):
        for x, y in (('value', 'semantic'), ('relation', 'relation'), ('port', 'value')):
            if x == 'relation' and 'relation' in (c, d):
                x, y = 'semantic', 'port'
            cast = kinds(c, d, x, y)
            for ops in ([('add', 'b', 'x')], [('del', 'a', 'x', None)], [('del', 'a', None, 'y')], [('del', 'a', 'x', 'x')], [('add', 'b', 'y'), ('del', 'b', 'x', None), ('add', 'a', 'y')],
                        [('add', 'a', 'x')], [('add', 'x', 'a')], [('first', 'a', 'x')], [('del', 'a', None, 'z')], [('add', 'b', 'x'), ('add', 'b', 'y'), ('del', 'b', 'x', 'y')]):
                if tier == 'thorough' or hash_of(c, d, x, y, ops) % 2 == 0:
                    out.append((cast, 'filled', FILLED, ops))
    if tier == 'thorough':
        for a, b, c in product(STEPS, STEPS, STEPS):
            if hash_of(a, b, c) % 3 == 0:
                out.append((NODES, 'filled', FILLED, [a, b, c]))
    for x in ('node', 'edge', 'engine'):
        for ops in ([('dereg', 'x')], [('reg', 'b', 'x')]):
            out.append((dict(NODES, x=('x', x)), 'filled', FILLED, ops))
    return out


def hash_of(*x):
    import zlib
    return zlib.crc32(repr(x).encode())


def life(ctx, prop):
    ctx.rule('life', 'in client programs: what every element reports after histories of additions, moves and removals')
    p = ctx.prog
    W = World(ctx, [c for c, _ in KINDS.values()] + ['ErrorRecursiveHierarchy', 'ErrorDuplicateElement', 'ErrorInvalidQuery'], LIB)
    H = p.cls('HierarchicalElement')
    for cast, start, setup, ops in histories(ctx.tier):
        code, looks = program(cast, setup, ops, NAMES, PATHS, None)
        mine = [(i, l) for i, l in enumerate(looks) if prop in (l[0] if isinstance(l[0], tuple) else (l[0],))]
        if not mine or prop in ('P06',) and not any(l[0] == 'P06' for _, l in mine):
            continue
        if prop == 'P08' and not any(o[0] in ('adds', 'dels') for o in ops):
            continue
        if prop == 'P03' and not any(l[0] == 'P03' for _, l in mine):
            continue
        kind = '' if cast is NODES else f" ({', '.join(k for _, k in cast.values())})"
        con = f"{start}{kind}: {'; '.join(show(o) for o in ops)}"
        last = ops[-1]
        f = p.find(H, 'remove_element' if last[0] in ('del', 'first') else 'add_element')
        where = f.where

        def use(I, s, v, con=con, mine=mine, where=where):
            got = whole(I, s, v)[1]
            for i, (_, label, expr, want) in mine:
                g = plain(got[i])
                if g is BAD or g is None and got[i][0] in ('list', 'tup'):
                    ctx.ob('life', f"{con}: {label}", False if definite(got[i]) else None, where, f"{expr} is {str(got[i])[:80]}")
                    continue
                ctx.ob('life', f"{con}: {label}", tidy(g) == tidy(want), where, '' if tidy(g) == tidy(want) else f"{g} instead of {want}")
        outcomes(ctx, W, 'life', con, where, code, use)
