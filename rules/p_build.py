"""P39: factories build exactly what was asked for; further client programs of P09 and P13."""
import ast
from sa.interp import C, is_c
from .p_export import outcomes, exc_name
from .p_model import whole, vectors
from .world import World, Unclear

NAMES = ('HypergraphFactory', 'CognitiveEntitySemanticFactory', 'EnumRelationDirection', 'ValueNode', 'HypergraphNode', 'HypergraphEdge', 'HypergraphRelation',
         'HypergraphPort', 'SemanticValueNode', 'HierarchicalElement', 'HypergraphElement')
LIB = '''
def everything(x):
    return list(x.get_subelements(lambda y: True))

def ports(x):
    return [p.endpoint for p in x.sub_ports]
'''


def world(ctx, more=()):
    W = World(ctx, NAMES + tuple(more), LIB)
    plain = W.interp

    def made():
        I = plain()
        vectors(I)
        return I
    W.interp = made
    return W


def S(n):
    return ('sym', n)


def term(x):
    """expected value of an observation: python literals, with names for symbols"""
    if isinstance(x, (list, tuple)):
        return ('list', tuple(term(y) for y in x))
    if isinstance(x, Sym):
        return ('sym', str(x))
    return C(x)


class Sym(str):
    pass


W1, W2, W3 = Sym('w1'), Sym('w2'), Sym('w3')


def definite(v):
    """is the term known for certain (constants, symbols, elements the program made)?"""
    if v[0] in ('list', 'tup'):
        return all(definite(x) for x in v[1])
    return v[0] in ('c', 'sym', 'enum', 'cls')


def scene(ctx, W, rule, con, where, args, body, looks, legal=True, types=None, rejected=None):
    """run the body; each look (label, expression, expected) is an observation at its end"""
    src = f"def scene({', '.join(args)}):\n" + ''.join(f"    {l}\n" for l in body.strip('\n').split('\n')) + f"    return [{', '.join('(' + e + ')' for _, e, _ in looks)}]\n"
    if 'await ' in body:
        src = 'async ' + src

    def use(I, s, v):
        got = whole(I, s, v)
        for (label, expr, want), g in zip(looks, got[1]):
            w = term(want)
            if g == w or (w[0] == 'c' and g[0] == 'c' and g[2] == w[2]):
                ctx.good(rule, f"{con}: {label}", where)
            else:
                ctx.ob(rule, f"{con}: {label}", False if definite(g) else None, where, f"{expr} is {shown(g)} instead of {want}")
    outcomes(ctx, W, rule, con, where, src, use, legal=legal, types=types)


def shown(g):
    if g[0] in ('list', 'tup'):
        return '[' + ', '.join(shown(x) for x in g[1]) + ']'
    return repr(g[2]) if g[0] == 'c' else str(g[-1])[:60]


def refused(ctx, W, rule, con, where, args, body, error, types=None):
    """the body must raise the error: `error` is caught by name and told apart from others"""
    lines = [l for l in body.strip('\n').split('\n')]
    src = f"def scene({', '.join(args)}):\n" + ''.join(f"    {l}\n" for l in lines)

    def go():
        I, res = W.run(src, types=types)
        for s, sig in res:
            if sig[0] == 'raise':
                n = exc_name(sig)
                ctx.ob(rule, con, n == error, where, f"raises {n} instead of {error}")
            else:
                ctx.ob(rule, con, False, where, 'is accepted')
        ctx.release(I)
    ctx.guard(rule, con, go, where=where)


SEM = {'cognitiveentity': 'CognitiveEntity', 'kinematicgraph': 'KinematicGraphDefinition', 'kinematiclink': 'KinematicLink', 'kinematicjoint': 'KinematicJoint',
       'cylindergeometry': 'CylinderGeometry', 'polyhedrongeometry': 'PolyhedronGeometry', 'ellipsoidgeometry': 'EllipsoidGeometry', 'meshgeometry': 'MeshGeometry',
       'material': 'VisualMaterial', 'rigidtransformation': 'RigidTransformation', 'inertiaelement': 'InertiaElement'}
SPELL = {'cognitiveentity': 'Cognitive_Entity', 'kinematicgraph': 'KinematicGraph', 'kinematiclink': ' kinematic_link ', 'kinematicjoint': 'kinematic_joint',
         'cylindergeometry': 'cylinder_geometry', 'polyhedrongeometry': 'Polyhedron_Geometry', 'ellipsoidgeometry': 'ELLIPSOID_GEOMETRY', 'meshgeometry': 'mesh_geometry',
         'material': 'Material', 'rigidtransformation': 'rigid_transformation', 'inertiaelement': 'inertia_element'}
PLACES = {'alone': (None, 'None'), 'in a root': ("top = h.generate_node('top', None)", 'top'),
          'in a nested node': ("root = h.generate_node('root', None)\ntop = h.generate_node('top', root)", 'top')}
FLOATS = {'w1': 'float', 'w2': 'float', 'w3': 'float'}


def p39(ctx):
    ctx.rule('built', 'a creating operation makes exactly the elements asked for: kind, name, container, clock, values, in order, and nothing else')
    ctx.rule('semantic', 'a semantic element is of the class of its type in any spelling, holds the attributes and values given, and is in the given container')
    ctx.rule('refused', 'an unknown type and an element without attributes are rejected, and nothing is added')
    ctx.rule('own', 'an element keeps the identifier, the name and the path it was constructed with')
    p = ctx.prog
    W = world(ctx, tuple(SEM.values()))
    H = p.cls('HypergraphFactory')
    at = lambda n: p.find(H, n).where
    for place, (make, ref) in PLACES.items():
        pre = "h = HypergraphFactory('h', clock)\nother = h.generate_node('other', None)\n" + (make + '\n' if make else '')
        names = [] if ref == 'None' else [('container', f"x.parent is {ref}", True), ('children of the container', f"[y is x for y in everything({ref})]", [True])]
        alone = [('container', 'x.parent is None', True)] if ref == 'None' else []
        path = {'alone': 'a', 'in a root': 'top/a', 'in a nested node': 'root/top/a'}[place]
        common = names + alone + [('name', 'x.id_name', 'a'), ('path', 'x.qualified_name', path), ('nothing elsewhere', 'len(everything(other))', 0), ('no children', 'len(everything(x))', 0)]
        scene(ctx, W, 'built', f"node {place}", at('generate_node'), ['clock'], pre + f"x = h.generate_node('a', {ref})",
              common + [('kind', 'isinstance(x, HypergraphNode)', True), ('clock', 'x.clock is clock', True)])
        for given in (['a', 'b', 'c'], ['c', 'a', 'b'], ['a'], [], ['a', 'b', 'a'], ['b', 'b']):
            looks = [('names', '[x.id_name for x in xs]', given), ('kinds', '[isinstance(x, HypergraphNode) for x in xs]', [True] * len(given)),
                     ('clocks', '[x.clock is clock for x in xs]', [True] * len(given))]
            looks += [('containers', f"[x.parent is {ref} for x in xs]", [True] * len(given))]
            looks += [('one for each name', "[len([y for y in xs if y is x]) for x in xs]", [1] * len(given))]
            if ref != 'None':
                looks.append(('children', f"[x.id_name for x in everything({ref})]", given))
                looks.append(('the same', f"[x is y for x, y in zip(xs, everything({ref}))]", [True] * len(given)))
            scene(ctx, W, 'built', f"{len(given)} nodes {', '.join(given)} {place}", at('generate_list_nodes'), ['clock'], pre + f"xs = h.generate_list_nodes({given!r}, {ref})", looks)
        for vals, want in (("[w1, w2]", [W1, W2]), ("[w2]", [W2]), ("[]", []), ("None", [])):
            scene(ctx, W, 'built', f"value {vals} {place}", at('create_value'), ['clock', 'w1', 'w2'], pre + f"x = h.create_value({ref}, 'a', {vals})",
                  common + [('kind', 'isinstance(x, ValueNode)', True), ('values', 'x.get_values()', want), ('number of values', 'x.dim', len(want))], types=FLOATS)
        if ref == 'None':
            continue
        scene(ctx, W, 'built', f"edge {place}", at('create_hyperedge'), ['clock'], pre + f"x = h.create_hyperedge({ref}, 'a')",
              common + [('kind', 'isinstance(x, HypergraphEdge)', True), ('clock', 'x.clock is clock', True), ('relations', 'len(list(x.sub_relations))', 0)])
        for n, call in (('connect_nodes', f"h.connect_nodes({ref}, 'a', [n])"), ('connect_dir_edges', f"h.connect_dir_edges({ref}, 'a', [n], [m])"),
                        ('connect_tuple_nodes', f"h.connect_tuple_nodes({ref}, 'a', [(n, EnumRelationDirection.INWARDS, None, None), (m, EnumRelationDirection.OUTWARDS, None, None)])")):
            k = 1 if n == 'connect_nodes' else 2
            scene(ctx, W, 'built', f"{n} {place}", at(n), ['clock'], pre + f"n = h.generate_node('n', other)\nm = h.generate_node('m', other)\nx = {call}",
                  names + [('name', 'x.id_name', 'a'), ('path', 'x.qualified_name', path), ('kind', 'isinstance(x, HypergraphEdge)', True), ('clock', 'x.clock is clock', True),
                           ('children', 'len(everything(x))', k), ('endpoints', '[y.endpoint.id_name for y in x.sub_relations]', ['n', 'm'][:k])])
    F = p.cls('CognitiveEntitySemanticFactory')
    gen = p.find(F, 'generate_semantic_element').where
    for typ, cls in SEM.items():
        for name in (typ, SPELL[typ]):
            for values in (None, '[w1, w2]'):
                body = ("h = HypergraphFactory('h', clock)\ns = CognitiveEntitySemanticFactory('s', clock)\nroot = h.generate_node('root', None)\nother = h.generate_node('other', root)\ntop = h.generate_node('top', root)\n"
                        "given = {'name': 'n', 'mass': w3, 'joint_type': 'rev'}\n"
                        f"x = s.generate_semantic_element({name!r}, 'a', top, given{'' if values is None else ', ' + values})")
                looks = [('class', f"isinstance(x, {cls})", True), ('name', 'x.id_name', 'a'), ('container', 'x.parent is top', True), ('children', '[y is x for y in everything(top)]', [True]),
                         ('nothing elsewhere', '[len(everything(other)), len(everything(root)), len(everything(x))]', [0, 2, 0]), ('path', 'x.qualified_name', 'root/top/a'),
                         ('attributes', "[x['name'], x['mass'], x['joint_type']]", ['n', W3, 'rev']), ('other attributes', "x['axis']", None)]
                looks.append(('values', "x['values']", None if values is None else [W1, W2]))
                others = [o for o in SEM.values() if o != cls]
                looks.append(('no other class', f"[{', '.join(f'isinstance(x, {o})' for o in others)}]", [False] * len(others)))
                scene(ctx, W, 'semantic', f"{name!r}{' with values' if values else ''}", gen, ['clock', 'w1', 'w2', 'w3'], body, looks, types=FLOATS)
    for what, key, given in (('zero', 'mass', '0.0'), ('a false', 'mass', 'False'), ('an empty text', 'name', "''"), ('an empty list', 'axis', '[]'), ('nothing', 'axis', 'None')):
        for typ in ('inertiaelement', 'kinematicjoint', 'cylindergeometry'):
            scene(ctx, W, 'semantic', f"{typ} with {what} as an attribute", gen, ['clock'],
                  "h = HypergraphFactory('h', clock)\ns = CognitiveEntitySemanticFactory('s', clock)\ntop = h.generate_node('top', None)\n"
                  f"x = s.generate_semantic_element({typ!r}, 'a', top, {{'joint_type': 'rev', {key!r}: {given}}})",
                  [('class', f"isinstance(x, {SEM[typ]})", True), ('attributes', f"[x['joint_type'], x[{key!r}]]", ['rev', ast.literal_eval(given)])])
        scene(ctx, W, 'semantic', f"an element with {what} as the only attribute", gen, ['clock'],
              "h = HypergraphFactory('h', clock)\ns = CognitiveEntitySemanticFactory('s', clock)\ntop = h.generate_node('top', None)\n"
              f"x = s.generate_semantic_element('inertiaelement', 'a', top, {{{key!r}: {given}}})",
              [('class', f"isinstance(x, {SEM['inertiaelement']})", True), ('attributes', f"x[{key!r}]", ast.literal_eval(given))])
    for typ in ('inertiaelement', 'kinematicjoint', 'cylindergeometry', 'material'):
        for given in ('[]', '[0.0]', '[0.0, w1]', '[w2, w1, w2]'):
            scene(ctx, W, 'semantic', f"{typ} with the values {given}", gen, ['clock', 'w1', 'w2'],
                  "h = HypergraphFactory('h', clock)\ns = CognitiveEntitySemanticFactory('s', clock)\ntop = h.generate_node('top', None)\n"
                  f"x = s.generate_semantic_element({typ!r}, 'a', top, {{'name': 'n'}}, {given})",
                  [('values', "x['values']", [W1 if y == 'w1' else W2 if y == 'w2' else 0.0 for y in given.strip('[]').split(', ') if y])], types=FLOATS)
    pre = "h = HypergraphFactory('h', clock)\ns = CognitiveEntitySemanticFactory('s', clock)\ntop = h.generate_node('top', None)\n"
    for con, call, error in (('an unknown type', "s.generate_semantic_element('teapot', 'a', top, {'name': 'a'})", 'InvalidSemanticType'),
                             ('an unknown type with values', "s.generate_semantic_element('geometry', 'a', top, {'name': 'a'}, [1.0])", 'InvalidSemanticType'),
                             ('an unknown type that begins with a known one', "s.generate_semantic_element('kinematic_link_frame', 'a', top, {'name': 'a'})", 'InvalidSemanticType'),
                             ('an unknown type that ends with a known one', "s.generate_semantic_element('my_kinematic_link', 'a', top, {'name': 'a'})", 'InvalidSemanticType'),
                             ('a part of a known type', "s.generate_semantic_element('kinematic', 'a', top, {'name': 'a'})", 'InvalidSemanticType'),
                             ('a type without letters', "s.generate_semantic_element('_', 'a', top, {'name': 'a'})", 'InvalidSemanticType'),
                             ('no attributes', "s.generate_semantic_element('material', 'a', top, {})", 'ErrorInsufficientValues')):
        refused(ctx, W, 'refused', con, gen, ['clock'], pre + call, error)
        scene(ctx, W, 'refused', f"{con}: nothing is added", gen, ['clock'], pre + f"try:\n    {call}\nexcept Exception:\n    pass", [('children', 'len(everything(top))', 0)])
    own(ctx, p, W)
    ctx.minimum = 80


def own(ctx, p, W):
    A = p.cls('HierarchicalElement')
    seen = set()
    for c in p.subclasses.get(A, []):
        if not p.is_concrete(c) or c.name in seen:
            continue
        seen.add(c.name)
        f = p.find(c, '__init__')
        if f is None:
            continue
        args, names = [], []
        for a in f.node.args.args[1:]:
            n = a.arg
            if n == 'parent':
                args.append(f"{n}=None")
            elif n in ('attr',):
                args.append(n + "={'name': 'n'}")
            elif n in ('values', 'weight', 'semantic_value_node'):
                args.append(f"{n}=None")
            elif n in ('direction',):
                continue
            else:
                names.append(n)
                args.append(f"{n}={n}")
        if not {'uuid', 'id_name'} <= set(names):
            continue
        q = next((n for n in names if n.endswith('qualified_name')), None)
        looks = [('identifier', 'x.uuid', Sym('uuid')), ('name', 'x.id_name', Sym('id_name')), ('path of a root', 'x.qualified_name', Sym('id_name'))]
        if q:
            looks.append(('given path', 'x.progenitor_qualified_name', Sym(q)))
        try:
            W.head += '\n' + W.imports(c.name)
        except Exception:
            continue
        scene(ctx, W, 'own', c.name, f.where, names, f"x = {c.name}({', '.join(args)})", looks, types={'id_name': 'str', 'uuid': 'bytes'})


DIRS = ('INWARDS', 'OUTWARDS', 'BIDIRECTIONAL')


def p09_life(ctx):
    """client programs of P09: what is there after connecting and after disconnecting, however it is kept"""
    ctx.rule('life', 'in client programs: relations, ports and what they point to after connecting, connecting again and disconnecting')
    p = ctx.prog
    W = world(ctx)
    E = p.cls('HypergraphEdge')
    at = p.find(E, 'unary_connect').where
    off = p.find(p.cls('HypergraphElement'), 'disconnect').where
    pre = ("h = HypergraphFactory('h', clock)\ntop = h.generate_node('top', None)\na = h.generate_node('a', top)\nb = h.generate_node('b', top)\n"
           "e = h.create_hyperedge(top, 'e')\nf = h.create_hyperedge(top, 'f')\nv = h.create_value(top, 'v', [w1, w2])\n")
    sem = "s = CognitiveEntitySemanticFactory('s', clock)\nj = s.generate_semantic_element('kinematicjoint', 'j', top, {'joint_type': 'rev'})\n"
    for d in DIRS + (None,):
        D = 'BIDIRECTIONAL' if d is None else d
        for w in ('v', 'None'):
            for sv in (False, True):
                if d is None and sv:
                    continue
                call = f"e.unary_connect(a, {w}" + (f", EnumRelationDirection.{d}" if d else '') + (', j' if sv else '') + ")"
                scene(ctx, W, 'life', f"{d or 'no direction given'}, weight {w}{', semantic value' if sv else ''}", at, ['clock', 'w1', 'w2'], pre + (sem if sv else '') + call, [
                    ('one relation', 'len(list(e.sub_relations))', 1), ('one child', 'len(everything(e))', 1), ('endpoint', '[r.endpoint is a for r in e.sub_relations]', [True]),
                    ('weight', f"[r.weight is {w} for r in e.sub_relations]", [True]), ('direction', f"[r.direction is EnumRelationDirection.{D} for r in e.sub_relations]", [True]),
                    ('relation within the edge', '[r.parent is e for r in e.sub_relations]', [True]),
                    ('semantic value', f"[r.semantic_value_node is {'j' if sv else 'None'} for r in e.sub_relations]", [True]),
                    ('children of the relation', f"[x is {'j' if sv else 'None'} for x in everything(list(e.sub_relations)[0])]", [True] if sv else []),
                    ('place of the semantic value', 'j.parent is list(e.sub_relations)[0]' if sv else 'True', True),
                    ('one port', 'len(list(a.sub_ports))', 1), ('one new child', 'len(everything(a))', 1), ('port points back', '[x is y for x, y in zip(ports(a), list(e.sub_relations))]', [True]),
                    ('port within the endpoint', '[x.parent is a for x in a.sub_ports]', [True]),
                    ('other edges', 'len(everything(f))', 0), ('other nodes', 'len(everything(b))', 0), ('induced subset', '[x is a for x in e.induced_subset]', [True]),
                ])
    scene(ctx, W, 'life', 'relation constructed without a direction', at, ['clock', 'w1', 'w2'],
          pre + "r = HypergraphRelation(b'01', 'r', 'e/r', a, None)", [('direction', 'r.direction is EnumRelationDirection.BIDIRECTIONAL', True), ('weight', 'r.weight is None', True)])
    both = pre + "e.unary_connect(a, v, EnumRelationDirection.INWARDS)\nf.unary_connect(a, None, EnumRelationDirection.OUTWARDS)\ne.unary_connect(b, None, EnumRelationDirection.OUTWARDS)\nra, rb = list(e.sub_relations)\nrf = list(f.sub_relations)[0]\n"
    same = [('relations of e', '[x is y for x, y in zip(list(e.sub_relations), [ra, rb])]', [True, True]), ('relations of f', '[x is rf for x in f.sub_relations]', [True]),
            ('ports of b', '[x is rb for x in ports(b)]', [True]), ('ends', '[ra.endpoint is a, rb.endpoint is b, rf.endpoint is a]', [True, True, True])]
    scene(ctx, W, 'life', 'two edges at a node', at, ['clock', 'w1', 'w2'], both, same + [('ports of a', '[ports(a)[0] is ra, ports(a)[1] is rf, len(ports(a))]', [True, True, 2])])
    alike = pre + "c = h.generate_node('a', b)\nd = h.generate_node('a', top)\nh.connect_dir_edges(top, 'g', [a, c], [d])\ng = [x for x in top.sub_edges if x.id_name == 'g'][0]\nra, rc, rd = list(g.sub_relations)\n"
    scene(ctx, W, 'life', 'endpoints of one name', at, ['clock', 'w1', 'w2'], alike, [
        ('induced subset', '[x is y for x, y in zip(list(g.induced_subset), [a, c, d])]', [True] * 3), ('size', 'len(list(g.induced_subset))', 3), ('ports', '[x is y for x, y in zip(ports(a) + ports(c) + ports(d), [ra, rc, rd])]', [True] * 3),
        ('incoming', '[x is y for x, y in zip(list(g.get_incoming_relations()), [ra, rc])]', [True] * 2), ('outgoing', '[x is rd for x in g.get_outgoing_relations()]', [True])])
    scene(ctx, W, 'life', 'disconnecting one of several endpoints of one name', off, ['clock', 'w1', 'w2'], alike + 'c.disconnect(rc)', [
        ('ports', '[len(ports(x)) for x in (a, c, d)]', [1, 0, 1]), ('others', '[ports(a)[0] is ra, ports(d)[0] is rd]', [True] * 2)])
    for gone, rest in (('ra', 'rf'), ('rf', 'ra')):
        scene(ctx, W, 'life', f"disconnecting {'the first' if gone == 'ra' else 'the second'} of two edges", off, ['clock', 'w1', 'w2'], both + f"old = [x for x in a.sub_ports if x.endpoint is {gone}][0]\na.disconnect({gone})",
              same + [('ports of a', f"[x is {rest} for x in ports(a)]", [True]), ('children of a', 'len(everything(a))', 1), ('the port is detached', 'old.parent is None', True)])
        scene(ctx, W, 'life', f"disconnecting both, {'first' if gone == 'ra' else 'second'} one first", off, ['clock', 'w1', 'w2'], both + f"a.disconnect({gone})\na.disconnect({rest})",
              same + [('ports of a', 'len(ports(a))', 0), ('children of a', 'len(everything(a))', 0)])
        scene(ctx, W, 'life', f"disconnecting and connecting again ({gone})", off, ['clock', 'w1', 'w2'], both + f"a.disconnect({gone})\na.connect({gone})",
              same + [('ports of a', f"len([x for x in ports(a) if x is {gone}])", 1), ('number of ports', 'len(ports(a))', 2)])
    scene(ctx, W, 'life', 'a child of the endpoint of the name of the port', off, ['clock', 'w1', 'w2'], both + "n = list(a.sub_ports)[0].id_name\nc = h.generate_node(n, a)\na.disconnect(ra)",
          same + [('ports of a', '[x is rf for x in ports(a)]', [True]), ('the child stays', '[c.parent is a, len(everything(a))]', [True, 2])])
    scene(ctx, W, 'life', 'a port of another relation named alike', off, ['clock', 'w1', 'w2'],
          pre + "g = h.create_hyperedge(b, 'e')\nr = HypergraphRelation(b'01', 'r', 'e/r', a, None)\nq = HypergraphRelation(b'02', 'r', 'e/r', a, None)\ne.add_element(r)\ng.add_element(q)\na.connect(r)\na.connect(q)\na.disconnect(q)",
          [('ports of a', '[x is r for x in ports(a)]', [True])])
    scene(ctx, W, 'life', 'an endpoint added to a relation', at, ['clock', 'w1', 'w2'], pre + "e.unary_connect(a, None)\nr = list(e.sub_relations)[0]\nc = h.generate_node('c', None)\nr.add_element(c)",
          [('port', '[x is r for x in ports(c)]', [True]), ('place', 'c.parent is r', True), ('port of the other', '[x is r for x in ports(a)]', [True])])
    scene(ctx, W, 'life', 'edge as an endpoint', at, ['clock', 'w1', 'w2'], pre + "e.unary_connect(f, v, EnumRelationDirection.INWARDS)\nr = list(e.sub_relations)[0]",
          [('port', '[x is r for x in ports(f)]', [True]), ('endpoint', 'r.endpoint is f', True), ('relations of f', 'len(list(f.sub_relations))', 0)])
    gone = pre + sem + "e.unary_connect(a, v, EnumRelationDirection.INWARDS, j)\nr = list(e.sub_relations)[0]\n"
    W.head += '\n' + '\n'.join(W.imports(n) for n in SEM.values() if n not in W.head)
    for how in ("id_name='j'", "uuid=j.uuid"):
        scene(ctx, W, 'life', f"the semantic value leaves the relation, by {how.split('=')[0]}", off, ['clock', 'w1', 'w2'], gone + f"out = list(r.remove_element({how}))",
              [('what leaves', '[x is j for x in out]', [True]), ('endpoint', 'r.endpoint is a', True), ('port', '[x is r for x in ports(a)]', [True]), ('relation', '[x is r for x in e.sub_relations]', [True]),
               ('weight', 'r.weight is v', True)])
    for how in ("id_name='a'", "uuid=a.uuid"):
        scene(ctx, W, 'life', f"the endpoint leaves the relation, by {how.split('=')[0]}", off, ['clock', 'w1', 'w2'], gone + f"r.add_element(a)\nout = list(r.remove_element({how}))",
              [('what leaves', '[x is a for x in out]', [True]), ('endpoint', 'r.endpoint is None', True), ('place', 'a.parent is None', True), ('relation', '[x is r for x in e.sub_relations]', [True])])
    scene(ctx, W, 'life', 'another element leaves the relation', off, ['clock', 'w1', 'w2'], gone + "r.add_element(a)\nr.add_element(b)\nout = list(r.remove_element(id_name='b'))",
          [('endpoint', 'r.endpoint is a', True), ('place', 'a.parent is r', True)])
