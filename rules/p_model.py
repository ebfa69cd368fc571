"""P36, P37: reading a graph leaves it as it was; exported models are closed and complete."""
from sa.interp import C, is_c
from .p_export import world, outcomes, LIB
from .world import Unclear, document, items

MODEL = '''
def a_graph(h, s, name, parent, links):
    g = h.generate_node(name, parent)
    s.generate_semantic_element('kinematicgraph', 'kg_' + name, g, {'name': name})
    return g, [a_link(h, s, x, g) for x in links]

def a_joint(h, s, g, name, a, b):
    ja = s.generate_semantic_element('kinematicjoint', name + '.' + a.id_name, g, {'joint_type': 'fix'})
    jb = s.generate_semantic_element('kinematicjoint', name + '.' + b.id_name, g, {'joint_type': 'rev'})
    h.connect_tuple_nodes(g, name, [(a, EnumRelationDirection.INWARDS, None, ja), (b, EnumRelationDirection.OUTWARDS, None, jb)])
    return [ja, jb]

def a_placed_joint(h, s, g, name, a, b):
    js = a_joint(h, s, g, name, a, b)
    for j in js:
        z = s.generate_semantic_element('rigidtransformation', 'p.' + j.id_name, j, {'translation': [1.0, 2.0, 3.0], 'rotation': [0.0, 0.0, 1.0], 'rotation_type': 'rad'})
    return js
'''


def said(parts, what):
    if parts is None:
        return None
    if len(parts) == 1 and is_c(parts[0]) and isinstance(parts[0][2], str):
        return parts[0][2]
    if all(is_c(x) for x in parts):
        return ''.join(str(x[2]) for x in parts)
    raise Unclear(f"{what}: {str(parts)[:300]}")


def head(names='clock'):
    return (f"async def scene({names}):\n    h, s = factories(clock)\n    k = h.generate_node('k', None)\n"
            "    e = s.generate_semantic_element('cognitiveentity', 'e', k, {'name': 'e'})\n")


TAIL = "    return icon.root_xml\n"


def flat(order):
    src = head() + ("    g, ls = a_graph(h, s, 'g', k, ['a', 'b', 'c'])\n    js = a_joint(h, s, g, 'j', ls[0][0], ls[1][0])\n    js.extend(a_joint(h, s, g, 'l', ls[1][0], ls[2][0]))\n"
                    "    icon = CognilangSdfIcon(clock)\n")
    if order == 'links only':
        src = head() + "    g, ls = a_graph(h, s, 'g', k, ['a', 'b', 'c'])\n    icon = CognilangSdfIcon(clock)\n"
    lists = {'entity first': "[e] + [x[1] for x in ls] + js", 'entity last': "js + [x[1] for x in ls] + [e]", 'links only': "[e] + [x[1] for x in ls]"}
    return src + f"    await icon.encode({lists[order]})\n" + TAIL


def nested(levels, twice=False, prefix=None):
    """g0 uses g1 through a joint, g1 uses g2, ..."""
    src = head()
    for i in range(levels + 1):
        src += (f"    g{i}, l{i} = a_graph(h, s, 'g{i}', k, ['a', 'b'])\n"
                f"    j{i} = a_joint(h, s, g{i}, 'j', l{i}[0][0], l{i}[1][0])\n")
    for i in range(levels):
        src += f"    u{i} = a_joint(h, s, g{i}, 'use', l{i}[1][0], g{i + 1})\n"
        if twice:
            src += f"    u{i}.extend(a_joint(h, s, g{i}, 'more', l{i}[0][0], g{i + 1}))\n"
    src += "    icon = CognilangSdfIcon(clock)\n"
    arg = "" if prefix is None else f", '{prefix}'"
    return src + f"    await icon.encode([e, l0[0][1], l0[1][1]] + j0{' + u0' if levels else ''}{arg})\n" + TAIL


def posed(src):
    return src.replace('a_joint(', 'a_placed_joint(')


def single(entities):
    src = head() + "    i2 = s.generate_semantic_element('cognitiveentity', 'e2', k, {'name': 'e2'})\n    icon = CognilangSdfIcon(clock)\n"
    src += "    g, ls = a_graph(h, s, 'g', k, ['a', 'b', 'c', 'd'])\n"
    names = {'1': 'e', '2': 'i2'}
    for x in entities:
        src += f"    icon.encode_element({names[x] if x in names else f'ls[{ord(x) - 97}][1]'})\n"
    return src + TAIL


def judge(ctx, con, where, m, links, tree):
    """one model: as many links as given, one name each, references that resolve, a tree of joints"""
    names = [said(x.attrib.get('name'), 'name of a link') for x in m.all('link')]
    ctx.ob('once', f"{con}: links", len(names) == links, where, f"{len(names)} links are exported for {links}: {', '.join(map(str, names))}")
    js = [said(x.attrib.get('name'), 'name of a joint') for x in m.all('joint')]
    rep = sorted({x for x in names if names.count(x) > 1} | {x for x in js if js.count(x) > 1}, key=str)
    ctx.ob('unique', con, not rep, where, f"several elements of the model are called {', '.join(map(str, rep))}")
    kids = []
    for j in m.all('joint'):
        jn = said(j.attrib.get('name'), 'name of a joint')
        for end in ('parent', 'child'):
            t = j.all(end)
            v = said(t[0].text, end) if len(t) == 1 else None
            ctx.ob('resolve', f"{con}: {end} of {jn}", v in names or v == 'world' and end == 'parent', where, f"{end} {v} is no link of the model ({', '.join(map(str, names))})")
            if end == 'child':
                kids.append(v)
    have = set(names) | set(js) | {'__model__', 'world'}
    for x in m.deep('pose'):
        if 'relative_to' in x.attrib:
            v = said(x.attrib['relative_to'], 'relative_to')
            ctx.ob('resolve', f"{con}: relative_to", v in have, where, f"a pose is relative to {v}, which is no element of the model")
    placed = {}
    for x in m.all('link') + m.all('joint'):
        poses = x.all('pose')
        at = '__model__' if x.tag == 'link' else said(x.all('child')[0].text, 'child')      # SDF: a joint that states nothing is where its child is
        if poses and 'relative_to' in poses[0].attrib:
            at = said(poses[0].attrib['relative_to'], 'relative_to')
        placed[said(x.attrib.get('name'), 'name')] = at
    for n in placed:
        way = [n]
        while way[-1] in placed and way.count(way[-1]) == 1:
            way.append(placed[way[-1]])
        ctx.ob('placed', f"{con}: {n}", way[-1] not in placed, where, f"the place of {' depends on that of '.join(map(str, way))}")
    if tree:
        ctx.ob('tree', con, len(kids) == len(set(kids)) == len(names) - 1, where, f"{len(names)} links and {len(js)} joints do not make a tree: children {', '.join(map(str, kids))}")


def p37(ctx):
    ctx.rule('resolve', 'parent, child and relative_to of an exported model name elements of that model, at every depth of nested graphs')
    ctx.rule('once', 'every link is exported once per use of its graph, into the model it belongs to')
    ctx.rule('unique', 'links and joints of one exported model have different names')
    ctx.rule('placed', 'what the pose of a link or joint is relative to does not depend on that pose')
    ctx.rule('tree', 'the exported joints connect the links of a kinematic tree into a tree')
    W = world(ctx)
    W.lib = LIB + MODEL
    icon = ctx.prog.cls('CognilangSdfIcon')
    f = ctx.prog.find(icon, 'encode')
    where = f.where
    scenes = [(f"flat, {o}", flat(o), [3], o != 'links only') for o in ('entity first', 'entity last', 'links only')]
    for n in (1, 2, 3):
        scenes.append((f"graph nested {n} deep", nested(n), [2 * n + 2], True))
        scenes.append((f"graph nested {n} deep, joints with poses", posed(nested(n)), [2 * n + 2], True))
    for o in ('entity first', 'entity last'):
        scenes.append((f"flat, {o}, joints with poses", posed(flat(o)), [3], True))
    scenes.append(("a graph used twice", nested(1, True), [6], True))
    scenes.append(("a graph used twice, two deep", nested(2, True), [14], True))
    scenes.append(("nested with a prefix", nested(1, prefix='top'), [4], True))
    for con, src, want, tree in scenes:
        def use(I, s, v, con=con, want=want, tree=tree):
            ms = document(I, s, v).all('model')
            ctx.ob('once', f"{con}: models", len(ms) == len(want), where, f"{len(ms)} models")
            for m, n in zip(ms, want):
                judge(ctx, con, where, m, n, tree)
        outcomes(ctx, W, 'once', con, where, src, use)
    for given in ('1ab', 'a1b', 'ab1', 'ab1c', '1a2b', 'a1b2c', 'ab1c2d', 'a12b'):
        con = 'one by one: ' + ', '.join('entity' if x in '12' else 'link' for x in given)

        def use(I, s, v, given=given, con=con):
            ms = document(I, s, v).all('model')
            parts, cur, wait = [], None, []
            for x in given:
                if x in '12':
                    cur = wait
                    wait = []
                    parts.append(cur)
                else:
                    (wait if cur is None else cur).append(x)
            got = [[said(x.attrib.get('name'), 'name of a link') for x in m.all('link')] for m in ms]
            ctx.ob('once', con, [sorted(x) for x in got] == [sorted(x) for x in parts], where, f"models hold {got} instead of {parts}")
        outcomes(ctx, W, 'once', con, where, single(given).replace('async def', 'def'), use)
    ctx.minimum = 30


# ------------------------------------------------------------------------------------------------------------------- P36
STATE = '''
def state_of(x, depth):
    out = [x.id_name, x.uuid, x.qualified_name, x.depth, x.cid, x.parent]
    if isinstance(x, HypergraphElement):
        out.append(x.timestamp)
        out.append(x.clock)
        out.append(x.cnt_subelements)
    if isinstance(x, HypergraphRelation):
        out.append(x.endpoint)
        out.append(x.direction)
        out.append(x.weight)
    if isinstance(x, HypergraphPort):
        out.append(x.endpoint)
    if isinstance(x, ValueNode):
        out.append(list(x.get_values()))
    if isinstance(x, SemanticValueNode):
        out.append(shown(x))
    if depth > 0:
        for c in x.get_subelements(lambda y: True):
            out.append(state_of(c, depth - 1))
    return out

def shown(x):
    out = []
    for n in ['name', 'axis', 'joint_type', 'translation', 'rotation', 'rotation_type', 'material_name', 'mass', 'values']:
        v = x[n]
        if isinstance(v, list):
            v = list(v)
        out.append(v)
    return out

'''
# graphs: name -> (body, needs an index that reaches below the children of the context)
SHAPES = {
    'without elements': "",
    'of nodes only': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n",
    'with nested nodes': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', a)\n    c = h.generate_node('c', b)\n    e = h.create_hyperedge(top, 'e')\n    e.unary_connect(a, None, EnumRelationDirection.INWARDS)\n",
    'with an edge without ends': "    a = h.generate_node('a', top)\n    e = h.create_hyperedge(top, 'e')\n",
    'with a directed edge': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    e = h.connect_dir_edges(top, 'e', [a], [b])\n",
    'with an edge of three nodes': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    c = h.generate_node('c', top)\n    e = h.connect_nodes(top, 'e', [a, b, c])\n",
    'with a loop': "    a = h.generate_node('a', top)\n    e = h.create_hyperedge(top, 'e')\n    e.unary_connect(a, None, EnumRelationDirection.INWARDS)\n    e.unary_connect(a, None, EnumRelationDirection.OUTWARDS)\n",
    'with a cycle': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    e = h.connect_dir_edges(top, 'e', [a], [b])\n    f = h.connect_dir_edges(top, 'f', [b], [a])\n",
    'with an edge to the context': "    a = h.generate_node('a', top)\n    e = h.connect_dir_edges(top, 'e', [top], [a])\n",
    'with values': "    a = h.generate_node('a', top)\n    v = h.create_value(top, 'v', [w1, w2])\n    u = h.create_value(top, 'u', [w2])\n    w = h.create_value(a, 'w', [w1])\n",
    'with weights': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    e = h.create_hyperedge(top, 'e')\n    e.unary_connect(a, h.create_value(top, 'w', [w1]), EnumRelationDirection.INWARDS)\n"
                    "    e.unary_connect(b, h.create_value(e, 'v', [w1, w2]), EnumRelationDirection.BIDIRECTIONAL)\n",
    'with weights without values': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    e = h.create_hyperedge(top, 'e')\n    e.unary_connect(a, h.create_value(top, 'w', []), EnumRelationDirection.INWARDS)\n"
                    "    e.unary_connect(b, h.create_value(e, 'v', [w1]), EnumRelationDirection.OUTWARDS)\n",
    'with values and names in no order': "    c = h.generate_node('c', top)\n    a = h.generate_node('a', top)\n    f = h.create_hyperedge(top, 'f')\n    f.unary_connect(c, h.create_value(top, 'w', [3.0, 1.0, 2.0]), EnumRelationDirection.INWARDS)\n"
                    "    f.unary_connect(a, h.create_value(f, 'v', [2.0, 3.0, -1.0, 3.0]), EnumRelationDirection.OUTWARDS)\n    e = h.connect_dir_edges(top, 'e', [c], [a])\n    u = h.create_value(top, 'u', [2.0, 0.0, 1.0])\n",
    'with things removed': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    c = h.generate_node('c', top)\n    v = h.create_value(top, 'v', [w1])\n    e = h.connect_dir_edges(top, 'e', [a], [b])\n    f = h.connect_dir_edges(top, 'f', [a], [b, c])\n"
                    "    for x in list(top.remove_element(uuid=c.uuid)) + list(top.remove_element(uuid=v.uuid)):\n        pass\n    for y in list(e.sub_relations):\n        y.endpoint.disconnect(y)\n    for x in list(top.remove_element(uuid=e.uuid)):\n        pass\n"
                    "    for y in list(f.sub_relations):\n        if y.endpoint is c:\n            z = list(f.remove_element(uuid=y.uuid))\n",
    'with a relation taken out': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    e = h.connect_dir_edges(top, 'e', [a], [b])\n    z = list(e.remove_element(uuid=list(e.sub_relations)[1].uuid))\n",
    'with names used twice': "    a = h.generate_node('a', top)\n    b = h.generate_node('a', top)\n    e = h.connect_dir_edges(top, 'e', [a], [b])\n    f = h.connect_dir_edges(top, 'e', [b], [a])\n    v = h.create_value(top, 'v', [w1])\n    u = h.create_value(top, 'v', [w2])\n    g = h.generate_node('e', top)\n",
    'with values of no numbers': "    a = h.generate_node('a', top)\n    x = h.create_value(top, 'x', [])\n    v = h.create_value(top, 'v', [w1, w2])\n    y = h.create_value(top, 'y', [])\n    z = h.create_value(a, 'z', [])\n",
    'with edges of nested nodes': "    a = h.generate_node('a', top)\n    b = h.generate_node('b', top)\n    c = h.generate_node('c', a)\n    e = h.connect_dir_edges(top, 'e', [a], [b])\n    f = h.connect_dir_edges(a, 'f', [c], [a])\n",
}
# the context itself is no node of its tensors
OUTSIDE = {('tensors', 'with an edge to the context')}
PLAIN_NAMES = ('HypergraphElement', 'HypergraphRelation', 'HypergraphPort', 'SemanticValueNode')

READS = {
    'breadth-first traversal': (['BreadthFirstHierarchicalTraversal'], "    t = BreadthFirstHierarchicalTraversal(lambda x: x.id_name, lambda x: True)\n    await t.execute(top)\n"),
    'depth-first traversal': (['DepthFirstHierarchicalTraversal'], "    t = DepthFirstHierarchicalTraversal(lambda x: x.id_name, lambda x: True)\n    await t.execute(top)\n"),
    'limited depth-first traversal': (['DepthLimitedDepthVisitChildren'], "    t = DepthLimitedDepthVisitChildren(lambda x: x.id_name, lambda x: True, 2)\n    await t.execute(top)\n"),
    'limited breadth-first traversal': (['DepthLimitedBreadthVisitChildren'], "    t = DepthLimitedBreadthVisitChildren(lambda x: x.id_name, lambda x: True, 2)\n    await t.execute(top)\n"),
    'relation traversal': (['HypergraphTraversal', 'SumNorm'], "    t = HypergraphTraversal(lambda x: x, lambda x: True, SumNorm(), depth=2)\n    await t.execute(top)\n"),
    'search of an element': (['QuerySearchElement'], "    t = QuerySearchElement()\n    t.query_def = 'v'\n    await t.execute(top)\n    r = t.query_result\n"),
    'search of a child': (['QuerySearchSubElement'], "    t = QuerySearchSubElement()\n    t.query_def = 'v'\n    await t.execute(top)\n    r = t.query_result\n"),
    'queries of the engine': (['HypergraphQueryEngine', 'HierarchicalPrepositionQuery'],
                              "    t = HypergraphQueryEngine('engine', b'00', 'engine/engine', clock, None)\n"
                              "    t.add_query('q', HierarchicalPrepositionQuery(top, lambda x: isinstance(x, ValueNode), lambda x: True))\n"
                              "    t.add_query('r', HierarchicalPrepositionQuery(top, lambda x: isinstance(x, HypergraphElement), lambda x: True))\n"
                              "    r = list(await t.execute())\n"),
    'factorization': (['Factorization2Operation'], "    t = Factorization2Operation()\n    r = await t.execute(top)\n"),
    'factorization of a subset': (['Factorization2SubsetOperation'], "    t = Factorization2SubsetOperation()\n    r = await t.execute(list(top.get_subelements(lambda x: True)))\n"),
    'factorization of relations': (['RelationFactorization2SubsetOperation'],
                                   "    t = RelationFactorization2SubsetOperation()\n    rs = []\n    for x in top.sub_edges:\n        rs.extend(x.sub_relations)\n    r = await t.execute(rs)\n"),
    'index': (['IndexHomomorphismGraphTensor'], "    t = IndexHomomorphismGraphTensor(depth=3)\n    await t.execute(top)\n"),
    'tensors': (['NumpyHypergraphTensorTransformer'], "    t = NumpyHypergraphTensorTransformer(2)\n    await t.execute(top)\n"),
    'coordinates': (['CoordinateObjectTransformer'],
                    "    t = CoordinateObjectTransformer(top, 3)\n    await t.reset(top)\n    await t.execute()\n    r = [t.node_index_list(), t.edge_index_list(), t.msg_relation_index_list(), t.msg_tensor_value_updates(), t.msg_value_nodes(), t.msg_value_node_update()]\n"),
    'message': (['GraphTensorCbor'], "    t = GraphTensorCbor('i', clock, top)\n    await t.update_context(top)\n    await t.update_coo()\n    r = t.full_msg()\n    q = t.msg_value_update()\n"),
    'lookup': ([], "    for y in ['a', 'a/c', 'a/f/w', 'nothing']:\n        r = list(top.get_element_by_id_name(y))\n"),
    'views': ([], "    for x in top.sub_edges:\n        r = [list(x.get_incoming_relations()), list(x.get_outgoing_relations()), list(x.sub_relations), list(x.induced_subset), list(x.sub_ports)]\n"
                  "    for x in top.sub_nodes:\n        r = [list(x.sub_values), list(x.sub_nodes), list(x.sub_edges), list(x.sub_ports), list(x.get_subelements(lambda y: y.id_name == 'v'))]\n"),
}


def vectors(I):
    """numpy vectors of known length as tuples; a queue taken over from a default is an empty one"""
    def array(I, st, args, kw, fr, node):
        items = I.known_items(st, args[0]) if args else None
        if items is None or any(x[0] in ('list', 'tup', 'o') for x in items):
            return None
        return [(st, ('tup', tuple(items)))]

    def times(st, a, b):
        for x, y in ((a, b), (b, a)):
            if is_c(x) and x[2] == 0:
                return C(0.0)
            if is_c(x) and x[2] == 1:
                return y
        return ('op', '*', a, b) if not (is_c(a) and is_c(b)) else C(a[2] * b[2])

    def multiply(I, st, args, kw, fr, node):
        if len(args) != 2 or kw:
            return None
        a, b = args
        if a[0] != 'tup' and b[0] == 'tup':
            a, b = b, a
        if a[0] != 'tup':
            return None
        if b[0] == 'tup':
            if len(a[1]) != len(b[1]):
                return None
            return [(st, ('tup', tuple(times(st, x, y) for x, y in zip(a[1], b[1]))))]
        return [(st, ('tup', tuple(times(st, x, b) for x in a[1])))]

    def total(I, st, args, kw, fr, node):
        if len(args) != 1 or kw or args[0][0] != 'tup':
            return None
        if not args[0][1]:
            return [(st, C(0.0))]
        r = args[0][1][0]
        for x in args[0][1][1:]:
            r = C(r[2] + x[2]) if is_c(r) and is_c(x) else ('op', '+', r, x)
        return [(st, r)]

    def copied(I, st, args, kw, fr, node):
        if args and args[0][0] == 'tup':
            return [(st, args[0])]
        if args and args[0][0] == 'shared':
            q = I.alloc(st, 'queue', data='fifo', node=node)
            I.async_queues.add(q)
            return [(st, q)]
        return None
    def extreme(I, st, args, kw, fr, node):
        if len(args) == 1 and not kw and args[0] == ('tup', ()):
            I.raised[-1].append((st, ('raise', ('exc', 'ValueError', ''), I.loc(fr, node))))
            return []
        return None
    for n in ('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin'):
        I.contracts['ext:' + n] = extreme
    for n, f in (('numpy.array', array), ('numpy.multiply', multiply), ('numpy.sum', total), ('numpy.copy', copied), ('copy.copy', copied)):
        I.contracts['ext:' + n] = f


def whole(I, s, v):
    """the description with everything in it; elements by their identity"""
    if v[0] in ('tup', 'list'):
        return ('list', tuple(whole(I, s, x) for x in v[1]))
    o = I.hobj(s, v)
    if o is not None and o.kind == 'list':
        c = I.contents(s, v)
        if c is None or any(x[0] in ('each', 'splice', 'rev') for x in c):
            raise Unclear('a list whose members are not known')
        return ('list', tuple(whole(I, s, x) for x in c))
    return I.freeze(s, v)


def compare(ctx, con, where, I, s, v):
    a, b = items(I, s, v)
    fa, fb = whole(I, s, a), whole(I, s, b)
    if fa == fb:
        return True, ''
    return False, difference(fa, fb)


def difference(a, b, path=''):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and a[:1] in (('list',), ('tup',)):
        if len(a[1]) != len(b[1]):
            return f"{path}: {len(a[1])} parts before, {len(b[1])} after"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return difference(x, y, f"{path}/{a[1][0][2] if i > 5 and is_c(a[1][0]) else i}")
    return f"{path}: {str(a)[:60]} before, {str(b)[:60]} after"


def readings(ctx, rule, use=None, legal=False):
    """every reading operation over every shape of graph"""
    p = ctx.prog
    W = world(ctx)
    base = W.head
    plain = W.interp

    def made():
        I = plain()
        vectors(I)
        return I
    W.interp = made
    for name, (need, body) in READS.items():
        W.head = base + '\n' + '\n'.join(W.imports(n) for n in list(PLAIN_NAMES) + need)
        W.lib = LIB + MODEL + STATE
        c = p.cls(need[0]) if need else p.cls('HypergraphNode')
        f = p.find(c, 'execute') or p.find(c, 'full_msg') or p.find(c, 'get_subelements')
        where = f.where
        for shape, graph in SHAPES.items():
            if (name, shape) in OUTSIDE:
                continue
            con = f"{name} of a graph {shape}"
            src = f"async def scene(clock, w1, w2):\n    h, s = factories(clock)\n    top = h.generate_node('top', None)\n{graph}    before = state_of(top, 6)\n{body}    return [before, state_of(top, 6)]\n"
            outcomes(ctx, W, rule, con, where, src, lambda I, s, v, con=con, where=where: use(I, s, v, con, where), legal=legal)


KIN = '''
def robot(clock, h, s, k, w1, w2, w3, unit):
    g, ls = a_graph(h, s, 'g', k, ['a', 'b'])
    js = a_joint(h, s, g, 'j', ls[0][0], ls[1][0])
    js[1].add_named_attribute('axis', [w1, w2, w3])
    s.generate_semantic_element('rigidtransformation', 'pj', js[1], {'translation': [w1, w2, w3], 'rotation': [w3, w1, w2], 'rotation_type': unit})
    for n, l in ls:
        s.generate_semantic_element('rigidtransformation', 'p_' + n.id_name, n, {'translation': [w1, w2, w3], 'rotation': [w3, w1, w2], 'rotation_type': unit})
        s.generate_semantic_element('inertiaelement', 'i_' + n.id_name, n, {'name': 'i', 'mass': w2})
        vis, geo = a_holder(h, 'v_' + n.id_name, n, 'white', s)
        a_geometry(s, 'cylindergeometry', geo, [w1, w2])
        col, shape = a_holder(h, 'c_' + n.id_name, n, None, s)
        a_geometry(s, 'polyhedrongeometry', shape, [w1, w2, w3])
    return g, ls, js
'''
EXPORTS = {
    'export of a model': "    icon = CognilangSdfIcon(clock)\n    await icon.encode([e] + [x[1] for x in ls] + js)\n",
    'export of the parts': "    icon = CognilangSdfIcon(clock)\n    for x in [e] + [x[1] for x in ls]:\n        icon.encode_element(x)\n",
    'export of a sub-graph': "    q, qs = a_graph(h, s, 'q', k, ['x'])\n    us = a_joint(h, s, q, 'use', qs[0][0], g)\n    before = state_of(k, 8)\n"
                             "    icon = CognilangSdfIcon(clock)\n    await icon.encode([e, qs[0][1]] + us)\n",
}


def p36(ctx):
    ctx.rule('unchanged', 'an operation that reads a graph leaves every element of it as it was')

    def use(I, s, v, con, where):
        good, why = compare(ctx, con, where, I, s, v)
        ctx.ob('unchanged', con, good, where, why)
    readings(ctx, 'unchanged', use)
    W = world(ctx)
    W.head += '\n' + '\n'.join(W.imports(n) for n in PLAIN_NAMES)
    W.lib = LIB + MODEL + STATE + KIN
    where = ctx.prog.find(ctx.prog.cls('CognilangSdfIcon'), 'encode').where
    for name, body in EXPORTS.items():
        for unit in ('deg', 'rad'):
            con = f"{name}, poses in {unit}"
            src = (f"async def scene(clock, w1, w2, w3):\n    h, s = factories(clock)\n    k = h.generate_node('k', None)\n    e = s.generate_semantic_element('cognitiveentity', 'e', k, {{'name': 'e'}})\n"
                   f"    g, ls, js = robot(clock, h, s, k, w1, w2, w3, '{unit}')\n    before = state_of(k, 8)\n{body}    return [before, state_of(k, 8)]\n")
            outcomes(ctx, W, 'unchanged', con, where, src, lambda I, s, v, con=con: use(I, s, v, con, where), legal=False, types={'w1': 'float', 'w2': 'float', 'w3': 'float'})
    ctx.minimum = 40


def p38(ctx):
    ctx.rule('total', 'an operation that reads a graph succeeds for every shape of graph')

    def use(I, s, v, con, where):
        ctx.ob('total', con, True, where)
    readings(ctx, 'total', use, legal=True)
    ctx.minimum = 40


# ------------------------------------------------------------------------------------------------------------------- P33
WIRE = '''
def told(x):
    nodes = [[n.uuid, n.id_name, n.qualified_name, n.parent.uuid] for n in x.sub_nodes]
    edges = [[n.uuid, n.id_name, n.qualified_name, n.parent.uuid] for n in x.sub_edges]
    rels = [[[r.uuid, r.id_name, r.qualified_name, r.direction, r.endpoint.uuid, r.parent.uuid, list(r.relation_incidence_value)] for r in n.sub_relations] for n in x.sub_edges]
    vals = [[v.uuid, v.id_name, v.qualified_name, v.parent.uuid, list(v.get_values()), v.dim] for v in x.sub_values]
    ports = [[[p.endpoint.uuid] for p in n.sub_ports] for n in x.sub_nodes]
    return [[x.uuid, x.id_name, x.qualified_name], nodes, edges, rels, vals, ports]

def numbers(x, m):
    return [[m.node(n.uuid) for n in x.sub_nodes], [m.edge(n.uuid) for n in x.sub_edges], [m.val(n.uuid) for n in x.sub_values],
            [m.dim(m.node(n.uuid)) for n in x.sub_nodes], [m.depth(m.edge(n.uuid)) for n in x.sub_edges], [m.ival(m.val(n.uuid)) for n in x.sub_values]]

def numbered(t):
    return [[n[2] for n in t.node_index_list()], [n[2] for n in t.edge_index_list()], [n[2] for n in t.msg_value_nodes()]]
'''
PARTS = ('root', 'nodes', 'edges', 'relations', 'values', 'ports')


def wire(I, s, v):
    """what arrives of a value that is sent: lists for tuples, numbers for enumerations"""
    if v[0] in ('tup', 'list'):
        return ('list', tuple(wire(I, s, x) for x in v[1]))
    if v[0] == 'enum':
        return C(v[3])
    o = I.hobj(s, v)
    if o is not None and o.kind == 'list':
        c = I.contents(s, v)
        if c is None or any(x[0] in ('each', 'splice', 'rev') for x in c):
            raise Unclear('a message whose members are not known')
        return ('list', tuple(wire(I, s, x) for x in c))
    if o is not None:
        raise Unclear('an object in a message')
    return v


def sent(I):
    def dumps(I, st, args, kw, fr, node):
        return [(st, ('wire', wire(I, st, args[0])))]

    def loads(I, st, args, kw, fr, node):
        return [(st, args[0][1])] if args[0][0] == 'wire' else None
    I.contracts['ext:cbor2.dumps'] = dumps
    I.contracts['ext:cbor2.loads'] = loads


GOOD = "    t = GraphTensorCbor('i', clock, top)\n    await t.update_context(top)\n    await t.update_coo()\n"
DECODE = "    d = GraphTensorCbor('j', clock, top)\n    root, m = d.create_graph(t.full_msg())\n"
TRIPS = {
    'a message': ("", GOOD + DECODE),
    'the second message': ("", GOOD + "    z = t.full_msg()\n" + DECODE),
    'a message after two updates': ("", GOOD + "    await t.update_coo()\n" + DECODE),
    'a message of an encoder used for another graph': ("", "    o = h.generate_node('o', None)\n    oa = h.generate_node('oa', o)\n    oe = h.create_hyperedge(o, 'oe')\n    oe.unary_connect(oa, None, EnumRelationDirection.INWARDS)\n"
                                                           "    ov = h.create_value(o, 'ov', [w2])\n    t = GraphTensorCbor('i', clock, o)\n    await t.update_context(o)\n    await t.update_coo()\n    z = t.full_msg()\n"
                                                           "    await t.update_context(top)\n    await t.update_coo()\n" + DECODE),
    'a message read by a used decoder': ("", "    o = h.generate_node('o', None)\n    oa = h.generate_node('oa', o)\n    ov = h.create_value(o, 'ov', [w2])\n    t = GraphTensorCbor('i', clock, o)\n    await t.update_context(o)\n    await t.update_coo()\n"
                                             "    d = GraphTensorCbor('j', clock, top)\n    z = d.create_graph(t.full_msg())\n    await t.update_context(top)\n    await t.update_coo()\n    root, m = d.create_graph(t.full_msg())\n"),
    'a message of a graph that was extended': ("", GOOD + "    z = t.full_msg()\n    n = h.generate_node('new', top)\n    ne = h.create_hyperedge(top, 'newer')\n    ne.unary_connect(n, None, EnumRelationDirection.OUTWARDS)\n    nv = h.create_value(top, 'newest', [w2])\n"
                                                   "    await t.update_context(top)\n    await t.update_coo()\n" + DECODE),
}
UPDATES = {
    'changed values': "    for v in top.sub_values:\n        if len(v.get_values()) > 0:\n            v.update_value(0, w3)\n",
    'a value changed': "    for v in list(top.sub_values)[1:2]:\n        v.update_values([w3, w1, w2])\n",
    'a value removed': "    for v in list(top.sub_values)[0:1]:\n        z = list(top.remove_element(uuid=v.uuid))\n    for v in top.sub_values:\n        v.update_values([w3, w1, w2])\n",
    'a value dropped': "    for v in list(top.sub_values)[0:1]:\n        v.update_values([])\n",
    'replaced values': "    for v in top.sub_values:\n        v.update_values([w3, w1, w2])\n",
    'unchanged values': "",
}


def inner(v):
    """names as seen from the context, which is the root of what is decoded"""
    if v[0] == 'list':
        return ('list', tuple(inner(x) for x in v[1]))
    return C(v[2][6:]) if is_c(v) and isinstance(v[2], str) and v[2].startswith('outer/') else v


def p33(ctx):
    for n, what in zip(PARTS, ('root', 'nodes', 'edges', 'relations of each edge', 'values', 'ports of each node')):
        ctx.rule(n, f"the decoded graph has the {what} of the encoded one, in order: identifiers, names, and what they refer to")
    ctx.rule('index', 'the index set up with the decoded graph numbers its elements as the encoder did')
    ctx.rule('update', 'an update of values that is read gives the decoded value nodes the values of the sender')
    round_trips(ctx, TRIPS, UPDATES)
    ctx.minimum = 60


def wired(ctx):
    p = ctx.prog
    W = world(ctx)
    W.head += '\nimport cbor2\n' + '\n'.join(W.imports(n) for n in PLAIN_NAMES + ('GraphTensorCbor', 'CoordinateObjectTransformer'))
    W.lib = LIB + MODEL + WIRE
    plain = W.interp

    def made():
        I = plain()
        vectors(I)
        sent(I)
        return I
    W.interp = made
    return W, p.find(p.cls('GraphTensorCbor'), 'create_graph').where


START = "async def scene(clock, w1, w2, w3):\n    h, s = factories(clock)\n"


def round_trips(ctx, trips, updates, rule=None):
    W, where = wired(ctx)
    for trip, (_, body) in trips.items():
        for shape, graph in SHAPES.items():
            for held in (False, True):
                if 'nested' in shape or 'taken out' in shape or held and shape not in ('of nodes only', 'with a directed edge', 'with values'):
                    continue
                con = f"{trip}, graph {shape}{', context within another' if held else ''}"
                top = "    outer = h.generate_node('outer', None)\n    top = h.generate_node('top', outer)\n" if held else "    top = h.generate_node('top', None)\n"
                src = START + top + graph + body + "    ct = CoordinateObjectTransformer(top)\n    await ct.reset(top)\n    return [told(top), told(root), numbers(top, m), numbered(ct)]\n"

                def use(I, s, v, con=con, held=held):
                    a, b, n, m = [whole(I, s, x) for x in items(I, s, v)]
                    for i, part in enumerate(PARTS):
                        x, y = a[1][i], b[1][i]
                        if held:
                            x = inner(x)
                        ctx.ob(rule or part, con if rule is None else f"{con}: {part}", x == y, where, '' if x == y else difference(x, y))
                    for i, kind in enumerate(('nodes', 'edges', 'values')):
                        got, want = n[1][i], m[1][i]
                        if i == 0:
                            want = ('list', want[1][1:])
                        ctx.ob(rule or 'index', f"{con}: numbers of {kind}" if rule else f"{con}: {kind}", got == want, where, '' if got == want else difference(want, got))
                        ids, back = a[1][{0: 1, 1: 2, 2: 4}[i]], n[1][i + 3]
                        ctx.ob(rule or 'index', f"{con}: back to {kind}", back == ('list', tuple(x[1][0] for x in ids[1])), where, 'a number is mapped to another element')
                outcomes(ctx, W, rule or 'nodes', con, where, src, use, types=NUMBERS)
    for name, change in updates.items():
        for shape in ('with values', 'with weights', 'of nodes only', 'with names used twice', 'with values of no numbers', 'with values and names in no order'):
            con = f"{name}, graph {shape}"
            src = START + "    top = h.generate_node('top', None)\n" + SHAPES[shape] + GOOD + DECODE + change + "    d.from_msg_update_values(t.msg_value_update())\n    there = [v.uuid for v in top.sub_values]\n    return [told(top)[4], [x for x in told(root)[4] if x[0] in there]]\n"

            def use(I, s, v, con=con):
                a, b = [whole(I, s, x) for x in items(I, s, v)]
                ctx.ob(rule or 'update', con, a == b, where, '' if a == b else difference(a, b))
            outcomes(ctx, W, rule or 'update', con, where, src, use, types=NUMBERS)


def p24_life(ctx):
    """what is read from a message is what was written (properties P24)"""
    ctx.rule('life', 'in client programs: what a decoder makes of a message, compared with the graph that was encoded')
    round_trips(ctx, {k: v for k, v in TRIPS.items() if k in ('a message', 'a message read by a used decoder')}, UPDATES, 'life')


SECTIONS = ('nodes', 'edges', 'relations', 'values', 'weights', 'outgoing incidences', 'incoming incidences')
OTHER = ("    o = h.generate_node('o', None)\n    oa = h.generate_node('oa', o)\n    ob = h.generate_node('ob', o)\n    oe = h.connect_dir_edges(o, 'oe', [oa], [ob])\n    ov = h.create_value(o, 'ov', [w2])\n")
GROW = "    n = h.generate_node('new', top)\n    ne = h.create_hyperedge(top, 'newer')\n    ne.unary_connect(n, None, EnumRelationDirection.OUTWARDS)\n    nv = h.create_value(top, 'newest', [w2])\n"
UPD = "    await t.update_context({})\n    await t.update_coo()\n"
MAKE = "    t = GraphTensorCbor('i', clock, {})\n"
AGAIN = {
    'read twice': MAKE.format('top') + UPD.format('top') + "    z = t.full_msg()\n",
    'updated twice': MAKE.format('top') + UPD.format('top') + "    await t.update_coo()\n",
    'context given twice': MAKE.format('top') + UPD.format('top') + UPD.format('top'),
    'updates of values between': MAKE.format('top') + UPD.format('top') + "    z = t.msg_value_update()\n    z = t.msg_value_update()\n",
    'another context before': OTHER + MAKE.format('o') + UPD.format('o') + UPD.format('top'),
    'another context before, its message read': OTHER + MAKE.format('o') + UPD.format('o') + "    z = t.full_msg()\n" + UPD.format('top'),
    'another context between': OTHER + MAKE.format('top') + UPD.format('top') + "    z = t.full_msg()\n" + UPD.format('o') + "    z = t.full_msg()\n" + UPD.format('top'),
    'another encoder between': OTHER + MAKE.format('top') + UPD.format('top') + "    q = GraphTensorCbor('k', clock, o)\n    await q.update_context(o)\n    await q.update_coo()\n    z = q.full_msg()\n",
    'extended between': MAKE.format('top') + UPD.format('top') + "    z = t.full_msg()\n" + GROW + UPD.format('top'),
    'values changed between': MAKE.format('top') + UPD.format('top') + "    z = t.full_msg()\n    z = t.msg_value_update()\n    for x in top.sub_values:\n        x.update_values([w3, w1, w2])\n    await t.update_coo()\n",
    'values changed after a second update': MAKE.format('top') + UPD.format('top') + UPD.format('top') + "    for x in top.sub_values:\n        if len(x.get_values()) > 0:\n            x.update_value(0, w3)\n    await t.update_coo()\n",
}


def p25_life(ctx):
    """a message after others is what a new encoder sends of the same graph (property P25)"""
    ctx.rule('life', 'in client programs: a message after others equals the one a new encoder sends of the graph as it is')
    W, where = wired(ctx)
    for when, body in AGAIN.items():
        for shape, graph in SHAPES.items():
            if 'nested' in shape:
                continue
            con = f"{when}, graph {shape}"
            src = (START + "    top = h.generate_node('top', None)\n" + graph + body + "    f = GraphTensorCbor('j', clock, top)\n    await f.update_context(top)\n    await f.update_coo()\n"
                   "    return [cbor2.loads(t.full_msg()), cbor2.loads(f.full_msg()), cbor2.loads(t.msg_value_update()), cbor2.loads(f.msg_value_update())]\n")

            def use(I, s, v, con=con):
                a, b, c, d = [whole(I, s, x) for x in items(I, s, v)]
                if len(a[1]) != len(b[1]):
                    ctx.bad('life', con, where, f"{len(a[1])} sections instead of {len(b[1])}")
                    return
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    ctx.ob('life', f"{con}: {SECTIONS[i] if i < len(SECTIONS) else i}", x == y, where, '' if x == y else difference(y, x).replace('before', 'expected').replace('after', 'sent'))
                ctx.ob('life', f"{con}: update of values", c == d, where, '' if c == d else difference(d, c).replace('before', 'expected').replace('after', 'sent'))
            outcomes(ctx, W, 'life', con, where, src, use, types=NUMBERS, legal=False)


NUMBERS = {'w1': 'float', 'w2': 'float', 'w3': 'float'}
