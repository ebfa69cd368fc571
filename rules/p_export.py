"""P27, P28, P29: what the export states, for models built by client programs from symbolic numbers."""
import math
from itertools import product
from sa.interp import NONE, C, is_c
from sa.loader import AnalysisError
from .p_hier import exc_name, where_of
from .world import World, Unclear, Lossy, document, tokens, number, same, K, V, items

LIB = '''
def factories(clock):
    return HypergraphFactory('h', clock), CognitiveEntitySemanticFactory('s', clock)

def a_link(h, s, name, parent):
    n = h.generate_node(name, parent)
    return n, s.generate_semantic_element('kinematiclink', name, n, {'name': name})

def a_holder(h, name, parent, material, s):
    v = h.generate_node(name, parent)
    g = h.generate_node('geom_' + name, v)
    if material is not None:
        s.generate_semantic_element('material', 'material_' + name, v, {'name': 'material_' + name, 'material_name': material})
    return v, g

def a_geometry(s, kind, g, values):
    return s.generate_semantic_element(kind, 'shape_' + g.id_name, g, {'name': 'shape_' + g.id_name}, values)

def a_reference(h, parent, name, target, holders):
    e = h.create_hyperedge(parent, name)
    e.unary_connect(target, None, EnumRelationDirection.OUTWARDS)
    for x in holders:
        e.unary_connect(x, None, EnumRelationDirection.INWARDS)
    return e
'''
NAMES = ('HypergraphFactory', 'CognitiveEntitySemanticFactory', 'EnumRelationDirection', 'CognilangSdfIcon', 'encode_link_element',
         'encode_inertia_element', 'joint_base_element', 'joint_base_element_endpoint', 'ValueNode')
CYL, ELL, BOX, MESH = 'cylindergeometry', 'ellipsoidgeometry', 'polyhedrongeometry', 'meshgeometry'


def world(ctx):
    p = ctx.prog
    icon = p.cls('CognilangSdfIcon')
    if p.find(icon, 'encode_element') is None or p.find(icon, 'encode') is None:
        raise AnalysisError('CognilangSdfIcon.encode_element / encode not found')
    return World(ctx, NAMES, LIB)


def outcomes(ctx, W, rule, con, where, src, use, symbols=None, types=None, legal=True):
    """run a scene; use(I, state, value) judges each outcome"""
    def go():
        I, res = W.run(src, types=types, **(symbols or {}))
        if not res:
            ctx.und(rule, con, where, 'no outcome')
        for s, sig in res:
            if unclear(s):
                ctx.und(rule, con, where, 'a condition of the path is not understood')
                continue
            if sig[0] == 'raise':
                at = where_of(sig[2]) if len(sig) > 2 else where
                if legal and exc_name(sig) == 'NameError' and 'vclient' in str(at):
                    ctx.und(rule, con, where, 'the scene names what is not there')
                elif legal:
                    ctx.ob(legal if isinstance(legal, str) else rule, con, False if not guarded(s) else None, at, f"raises {exc_name(sig)}")
                continue
            try:
                use(I, s, sig[1])
            except Unclear as e:
                ctx.und(rule, con, where, f"document not clear: {e}")
        ctx.release(I)
    ctx.guard(rule, con, go, where=where)


def guarded(s):
    """does the path depend on a property of the symbolic values?"""
    from sa.interp import contains
    return any(contains(a, lambda t: isinstance(t, tuple) and t[:1] == ('sym',) and t != ('sym', 'clock')) for a, pol in s.facts if a[0] not in ('isinst', 'is'))


def unclear(s):
    """does the path depend on a condition the interpreter could not evaluate, although no symbolic value is in it?"""
    from sa.interp import contains
    return any(not contains(a, lambda t: isinstance(t, tuple) and t[:1] == ('sym',)) for a, pol in s.facts)


def tell(ctx, rule, con, parts, want, where, what):
    if parts is None:
        ctx.bad(rule, con, where, f"{what} is empty")
        return
    try:
        t = tokens(parts)
    except Unclear as e:
        ctx.und(rule, con, where, f"{what}: {e}")
        return
    except Lossy as e:
        ctx.bad(rule, con, where, f"{what}: {e}")
        return
    if len(t) != len(want):
        ctx.ob(rule, con, False if all(len(x) == 1 and x[0][0] in ('c', 'sym', 'op', 'str') for x in t) else None, where, f"{what} has {len(t)} values")
        return
    for x, w in zip(t, want):
        ok, why = same(x, w)
        ctx.ob(rule, con, ok, where, '' if ok else f"{what}: {why}")


# ------------------------------------------------------------------------------------------------------------------- P27
INERTIA = ('ixx', 'iyy', 'izz', 'ixy', 'ixz', 'iyz')


def moments(kind, v, m):
    z = K(0)
    if kind == CYL:
        r, l = v[:2]
        t = m * (K(3) * r * r + l * l) * K(1 / 12)
        return [t, t, m * r * r * K(0.5), z, z, z]
    if len(v) == 1:
        t = m * v[0] * v[0] * K(0.4)
        return [t, t, t, z, z, z]
    a, b, c = v
    f = K(0.2) * m
    return [f * (b * b + c * c), f * (a * a + c * c), f * (a * a + b * b), z, z, z]


def shape_of(kind, names):
    """(tag, {element: names}) of the exported shape; None when it has no form"""
    if kind == CYL:
        return 'cylinder', {'radius': names[:1], 'length': names[1:2]}
    if kind == ELL:
        return ('sphere', {'radius': names}) if len(names) == 1 else ('ellipsoid', {'radii': names})
    if kind == BOX and len(names) in (1, 3):
        return 'box', {'size': names * (3 if len(names) == 1 else 1)}
    return None


SOLIDS = [(CYL, ('r', 'l')), (ELL, ('a',)), (ELL, ('a', 'b', 'c')), (ELL, ('a', 'b', 'a')), (ELL, ('a', 'a', 'a')), (CYL, ('r', 'r'))]
ODD = (CYL, ('r', 'l', 'x'))          # a value more than the form has may be refused, but not move the others


def p27(ctx):
    ctx.rule('inertia', 'the moments exported for a cylinder, sphere and ellipsoid are those of the homogeneous solid of the given mass, in the order xx, yy, zz, xy, xz, yz')
    ctx.rule('mass', 'the exported mass is that of the model')
    ctx.rule('shape', 'the exported shape reads the geometry values in the order radius, length; x, y, z; a single value being a sphere or a cube')
    W = world(ctx)
    p = ctx.prog
    icon = p.cls('CognilangSdfIcon').name
    f = next(m.functions['encode_inertia_element'] for m in p.modules.values() if 'encode_inertia_element' in m.functions)
    where = f.where
    for (kind, names), place, first in list(product(SOLIDS, ('visual', 'collision', 'both'), (True, False))) + [(ODD, 'visual', True), (ODD, 'collision', False)]:
        con = f"{kind}({' '.join(names)}) as {place}{'' if first else ', inertia last'}"
        ine = "    s.generate_semantic_element('inertiaelement', 'inertia', n, {'mass': m})\n"
        body = ''
        if place != 'collision':
            body += f"    v, g = a_holder(h, 'vis', n, 'white', s)\n    a_geometry(s, '{kind}', g, [{', '.join(names)}])\n"
        if place != 'visual':
            body += f"    v, g = a_holder(h, 'col', n, None, s)\n    a_geometry(s, '{kind}', g, [{', '.join(names)}])\n"
        src = (f"def scene(clock, m, {', '.join(dict.fromkeys(names))}):\n    h, s = factories(clock)\n    n, lk = a_link(h, s, 'lk', None)\n" + (ine if first else '') + body + ('' if first else ine) +
               "    icon = CognilangSdfIcon(clock)\n    e = s.generate_semantic_element('cognitiveentity', 'e', n, {'name': 'e'})\n    icon.encode_element(e)\n    icon.encode_element(lk)\n    return icon.root_xml\n")

        def use(I, s, v, kind=kind, names=names, con=con):
            doc = document(I, s, v)
            ins = doc.deep('inertial')
            ctx.ob('inertia', f"{con}: one inertial element", len(ins) == 1, where, '' if len(ins) == 1 else f"{len(ins)} inertial elements")
            want = dict(zip(INERTIA, moments(kind, [V(x) for x in names], V('m'))))
            for x in ins:
                ms = x.all('mass')
                ctx.ob('mass', f"{con}: one mass", len(ms) == 1, where, '' if len(ms) == 1 else f"{len(ms)} masses")
                for y in ms:
                    tell(ctx, 'mass', con, y.text, [V('m')], where, 'mass')
                for t, w in want.items():
                    els = x.find('inertia', t)
                    if len(els) != 1:
                        ctx.bad('inertia', f"{con} {t}", where, f"{len(els)} elements {t}")
                        continue
                    tell(ctx, 'inertia', f"{con} {t}", els[0].text, [w], where, t)
            shape_check(ctx, con, doc.deep('geometry'), kind, names, where)
        outcomes(ctx, W, 'inertia', con, where, src, use, legal=(kind, names) != ODD)
    for kind, names in [(BOX, ('a',)), (BOX, ('a', 'b', 'c')), (BOX, ('a', 'b', 'a')), (BOX, ('a', 'a', 'a')), (BOX, ('b', 'a', 'a'))]:
        con = f"{kind}({' '.join(names)})"
        src = (f"def scene(clock, {', '.join(dict.fromkeys(names))}):\n    h, s = factories(clock)\n    n, lk = a_link(h, s, 'lk', None)\n    v, g = a_holder(h, 'vis', n, 'white', s)\n"
               f"    a_geometry(s, '{kind}', g, [{', '.join(names)}])\n    return encode_link_element(lk, '')\n")

        def use(I, s, v, kind=kind, names=names, con=con):
            shape_check(ctx, con, document(I, s, v).deep('geometry'), kind, names, where)
        outcomes(ctx, W, 'shape', con, where, src, use)
    ctx.minimum = 100


def shape_check(ctx, con, geoms, kind, names, where):
    tag, parts = shape_of(kind, list(names))
    if not geoms:
        ctx.bad('shape', con, where, 'no geometry is exported')
    for g in geoms:
        kids = [c.tag for c in g.children]
        if kids != [tag]:
            ctx.bad('shape', con, where, f"exported as {kids}, not {tag}")
            continue
        for t, ns in parts.items():
            els = g.children[0].all(t)
            if len(els) != 1:
                ctx.bad('shape', f"{con} {t}", where, f"{len(els)} elements {t}")
                continue
            tell(ctx, 'shape', f"{con} {t}", els[0].text, [V(x) for x in ns], where, t)


# ------------------------------------------------------------------------------------------------------------------- P28
TYPES = {'fix': 'fixed', 'rev': 'revolute', 'tr': 'prismatic'}


def attr_is(ctx, rule, con, node, key, want, where):
    got = node.attrib.get(key)
    if got is None:
        ctx.bad(rule, con, where, f"no attribute {key}")
        return
    ok = got == [C(want)]
    ctx.ob(rule, con, ok or (False if all(x[0] == 'c' for x in got) else None), where, '' if ok else f"{key} is {shown(got)}, not {want}")


def text_is(ctx, rule, con, parent, tag, want, where):
    els = parent.all(tag)
    if len(els) != 1:
        ctx.bad(rule, con, where, f"{len(els)} elements {tag}")
        return
    got = els[0].text or []
    ok = got == [C(want)]
    ctx.ob(rule, con, ok or (False if all(x[0] == 'c' for x in got) else None), where, '' if ok else f"{tag} is {shown(got)}, not {want}")


def shown(parts):
    return ''.join(str(x[2]) if x[0] == 'c' else f"<{x[-1] if x[0] == 'sym' else x[0]}>" for x in parts) or 'empty'


POSE = ('tx', 'ty', 'tz', 'rx', 'ry', 'rz')


def pose_want(unit):
    f = K(math.pi / 180) if unit == 'deg' else K(1)
    return [V(x) for x in POSE[:3]] + [V(x) * f for x in POSE[3:]]


def pose_src(s, unit, where):
    return f"    s.generate_semantic_element('rigidtransformation', 'pose_{where}', {where}, {{'translation': [tx, ty, tz], 'rotation': [rx, ry, rz], 'rotation_type': '{unit}'}})\n"


def joint_src(axis, pose, typ, order, direct, extra=False, graph=True, again=False):
    args = ['clock'] + list(POSE) + ['ax', 'ay', 'az']
    src = f"def scene({', '.join(args)}):\n    h, s = factories(clock)\n    k = h.generate_node('k', None)\n"
    src += "    e = s.generate_semantic_element('cognitiveentity', 'e', k, {'name': 'e'})\n"
    if graph:
        src += "    s.generate_semantic_element('kinematicgraph', 'kg', k, {'name': 'kg'})\n"
    src += "    a, la = a_link(h, s, 'a', k)\n    b, lb = a_link(h, s, 'b', k)\n"
    src += f"    ja = s.generate_semantic_element('kinematicjoint', 'j.a', k, {{'joint_type': 'fix'}})\n    jb = s.generate_semantic_element('kinematicjoint', 'j.b', k, {{'joint_type': '{typ}'}})\n"
    if axis:
        src += "    jb.add_named_attribute('axis', [ax, ay, az])\n"
    if pose:
        src += pose_src('s', pose, 'jb')
    ends = ["(a, EnumRelationDirection.INWARDS, None, ja)", "(b, EnumRelationDirection.OUTWARDS, None, jb)"]
    if extra:
        src += "    c, lc = a_link(h, s, 'c', k)\n    jc = s.generate_semantic_element('kinematicjoint', 'j.c', k, {'joint_type': 'tr'})\n"
        ends.append("(c, EnumRelationDirection.OUTWARDS, None, jc)")
    if not order:
        ends.reverse()
    src += f"    j = h.connect_tuple_nodes(k, 'j', [{', '.join(ends)}])\n"
    if direct:
        src += f"    j0 = next(iter(j.get_incoming_relations()))\n    j1 = next(iter(j.get_outgoing_relations()))\n{'    joint_base_element(j0, j1)' if again else '    pass'}\n    return joint_base_element(j0, j1)\n"
    else:
        src = src.replace('def scene', 'async def scene')
        if again:
            src += "    first = CognilangSdfIcon(clock)\n    await first.encode([e, la, lb, ja, jb])\n"
        src += f"    icon = CognilangSdfIcon(clock)\n    await icon.encode([e, la, lb, {'lc, jc, ' if extra else ''}ja, jb])\n    return icon.root_xml\n"
    return src


def p28(ctx):
    ctx.rule('ends', 'parent and child of an exported joint are the endpoints of its incoming and of its outgoing relation')
    ctx.rule('type', 'the exported type of a joint is the one of its notation')
    ctx.rule('axis', 'the exported axis is that of the joint, z if it has none')
    ctx.rule('pose', 'poses state the translation and then the rotation in radians, degrees being converted exactly once')
    W = world(ctx)
    p = ctx.prog
    f = next((m.functions['joint_base_element_endpoint'] for m in p.modules.values() if 'joint_base_element_endpoint' in m.functions), None)
    where = f.where if f else p.cls('CognilangSdfIcon').name
    scenes = [(axis, pose, typ, order, direct, False) for typ in TYPES for axis, pose, order, direct in
              ((True, 'deg', True, True), (False, 'rad', True, False), (True, 'rad', False, False), (False, None, False, True), (True, 'deg', True, False))]
    scenes += [(True, 'deg', 'rev', o, False, True) for o in (True, False)]
    for axis, pose, typ, order, direct, extra, again in [(*x, False) for x in scenes] + [(True, u, 'rev', True, d, False, True) for u in ('deg', 'rad') for d in (True, False)]:
        con = f"joint {typ}{' with axis' if axis else ''}{' pose in ' + pose if pose else ''}{'' if order else ', outgoing first'}{'' if direct else ', whole export'}{', two children' if extra else ''}{', second export' if again else ''}"

        def use(I, s, v, axis=axis, pose=pose, typ=typ, direct=direct, con=con, extra=extra):
            doc = document(I, s, v)
            joints = [doc] if direct else doc.deep('joint')
            want = {'b': typ} if not extra else {'b': typ, 'c': 'tr'}
            if len(joints) != len(want):
                ctx.bad('ends', con, where, f"{len(joints)} joints are exported for {len(want)} pairs of relations")
                return
            for j in joints:
                child = (j.find('child') or [None])[0]
                name = next((n for n in want if child is not None and child.text == [C(n)]), None)
                if len(want) == 1:
                    name = 'b'
                elif name is None:
                    ctx.bad('ends', con, where, f"a joint has the child {shown(child.text or []) if child else 'missing'}")
                    continue
                text_is(ctx, 'ends', f"{con}: parent", j, 'parent', 'a', where)
                text_is(ctx, 'ends', f"{con}: child", j, 'child', name, where)
                attr_is(ctx, 'type', f"{con}: {name}", j, 'type', TYPES[want[name]], where)
                axes = j.find('axis', 'xyz')
                if len(axes) != 1:
                    ctx.bad('axis', con, where, f"{len(axes)} axes")
                else:
                    tell(ctx, 'axis', con, axes[0].text, [V('ax'), V('ay'), V('az')] if axis and name == 'b' else [K(0), K(0), K(1)], where, 'axis')
                poses = j.all('pose')
                if pose and name == 'b':
                    if len(poses) != 1:
                        ctx.bad('pose', con, where, f"{len(poses)} poses")
                    else:
                        tell(ctx, 'pose', con, poses[0].text, pose_want(pose), where, 'pose')
                else:
                    ctx.ob('pose', f"{con}: none", len(poses) < 2, where, f"{len(poses)} poses")
                    for x in poses[:1]:
                        tell(ctx, 'pose', f"{con}: none", x.text, [K(0)] * 6, where, 'pose that was not given')
        outcomes(ctx, W, 'ends', con, where, joint_src(axis, pose, typ, order, direct, extra, again=again), use)
    for unit, again in product(('deg', 'rad'), (False, True)):
        con = f"link pose in {unit}{', second export' if again else ''}"
        src = f"def scene(clock, {', '.join(POSE)}):\n    h, s = factories(clock)\n    k = h.generate_node('k', None)\n    n, lk = a_link(h, s, 'lk', k)\n" + pose_src('s', unit, 'lk') + ("    encode_link_element(lk, '')\n" if again else '') + "    return encode_link_element(lk, '')\n"

        def use(I, s, v, unit=unit, con=con):
            poses = document(I, s, v).all('pose')
            if len(poses) != 1:
                ctx.bad('pose', con, where, f"{len(poses)} poses")
            else:
                tell(ctx, 'pose', con, poses[0].text, pose_want(unit), where, 'pose')
        outcomes(ctx, W, 'pose', con, where, src, use)
    # what a pose states is what the model holds when it is exported, not what it held at an earlier export
    for field, unit in product(('rotation', 'translation', 'rotation_type'), ('deg', 'rad')):
        con = f"link pose in {unit}, {field} given anew after an export"
        anew = {'rotation': '[qx, qy, qz]', 'translation': '[qx, qy, qz]', 'rotation_type': "'deg'" if unit == 'rad' else "'rad'"}[field]
        made = pose_src('s', unit, 'lk').replace('    s.generate', '    po = s.generate', 1)
        src = (f"def scene(clock, {', '.join(POSE)}, qx, qy, qz):\n    h, s = factories(clock)\n    k = h.generate_node('k', None)\n    n, lk = a_link(h, s, 'lk', k)\n" + made +
               f"    encode_link_element(lk, '')\n    po.add_named_attribute('{field}', {anew})\n    return encode_link_element(lk, '')\n")

        def use(I, s, v, unit=unit, con=con, field=field):
            poses = document(I, s, v).all('pose')
            want = pose_want(unit)
            q = [V('qx'), V('qy'), V('qz')]
            if field == 'rotation':
                f = K(math.pi / 180) if unit == 'deg' else K(1)
                want = want[:3] + [x * f for x in q]
            elif field == 'translation':
                want = q + want[3:]
            else:
                want = pose_want('deg' if unit == 'rad' else 'rad')
            if len(poses) != 1:
                ctx.bad('pose', con, where, f"{len(poses)} poses")
            else:
                tell(ctx, 'pose', con, poses[0].text, want, where, 'pose')
        outcomes(ctx, W, 'pose', con, where, src, use)
    ctx.minimum = 60


# ------------------------------------------------------------------------------------------------------------------- P29
def signature(g):
    """what one exported geometry states: (shape, {element: [polynomials]}) or None when it is empty"""
    if not g.children:
        return None
    if len(g.children) != 1:
        return ('several shapes', {})
    sh = g.children[0]
    out = {}
    for c in sh.children:
        ts = tokens(c.text)
        if any(len(t) != 1 for t in ts):
            raise Unclear(f"text of {c.tag}")
        out[c.tag] = [number(t[0]) for t in ts]
    return (sh.tag, out)


def fits(sig, want):
    if sig is None or want is None:
        return sig is want
    return sig[0] == want[0] and set(sig[1]) == set(want[1]) and all(len(sig[1][t]) == len(ns) and all(a == V(n) for a, n in zip(sig[1][t], ns)) for t, ns in want[1].items())


def link_src(parts, lay=('alone', None), prefix="''", args=''):
    """parts: [(place, name, kind, values, material, referenced?)]"""
    names = [n for q in parts for n in q[3]]
    src = f"def scene(clock, {', '.join(names + ['zz'])}):\n    h, s = factories(clock)\n"
    graph, conn = lay
    if graph == 'alone':
        src += "    n, lk = a_link(h, s, 'lk', None)\n    top = h.generate_node('top', None)\n    k = top\n"
    else:
        src += "    top = h.generate_node('top', None)\n"
        if graph in ('graph', 'nested'):
            src += "    s.generate_semantic_element('kinematicgraph', 'kg', top, {'name': 'kg'})\n"
        src += "    k = top\n"
        if graph == 'nested':
            src += "    k = h.generate_node('sub', top)\n    s.generate_semantic_element('kinematicgraph', 'kg2', k, {'name': 'kg2'})\n"
        src += "    n, lk = a_link(h, s, 'lk', k)\n"
    if any(q[5] for q in parts):
        src += "    o, lo = a_link(h, s, 'other', top)\n"
    done = {}
    for place, name, kind, values, material, ref in parts:
        src += f"    v_{name}, g_{name} = a_holder(h, '{name}', n, {material!r}, s)\n"
        if ref:
            if ref in done:
                src += f"    e_{ref}.unary_connect(g_{name}, None, EnumRelationDirection.INWARDS)\n"
                continue
            src += f"    w_{ref}, x_{ref} = a_holder(h, 'r_{ref}', o, 'blue', s)\n    a_geometry(s, '{kind}', x_{ref}, [{', '.join(values)}])\n"
            src += f"    e_{ref} = a_reference(h, top, 'ref_{ref}', w_{ref}, [g_{name}])\n"
            done[ref] = 1
        else:
            src += f"    a_geometry(s, '{kind}', g_{name}, [{', '.join(values)}])\n"
    joint = "    j{0}{1} = s.generate_semantic_element('kinematicjoint', 'j.{0}{1}', k, {{'joint_type': 'rev'}})\n"
    if conn in ('child', 'both', 'base'):
        src += "    b, lb = a_link(h, s, 'b', k)\n"
    if conn in ('child', 'both'):
        src += joint.format('b', 1) + joint.format('n', 1)
        src += "    h.connect_tuple_nodes(k, 'j1', [(b, EnumRelationDirection.INWARDS, None, jb1), (n, EnumRelationDirection.OUTWARDS, None, jn1)])\n"
    if conn in ('base', 'both'):
        src += joint.format('b', 2) + joint.format('n', 2)
        src += "    h.connect_tuple_nodes(k, 'j2', [(n, EnumRelationDirection.INWARDS, None, jn2), (b, EnumRelationDirection.OUTWARDS, None, jb2)])\n"
    if conn == 'plain':
        src += "    b, lb = a_link(h, s, 'b', k)\n    h.connect_nodes(k, 'plain', [n, b])\n    h.connect_dir_edges(k, 'flow', [b], [n])\n    h.connect_dir_edges(k, 'back', [n], [b])\n"
    if conn == 'world':
        src += "    w = h.generate_node('world', None)\n" + joint.format('w', 1) + joint.format('n', 1)
        src += "    h.connect_tuple_nodes(k, 'j', [(w, EnumRelationDirection.INWARDS, None, jw1), (n, EnumRelationDirection.OUTWARDS, None, jn1)])\n"
    src += f"    icon = CognilangSdfIcon(clock)\n    e = s.generate_semantic_element('cognitiveentity', 'e', top, {{'name': 'e'}})\n    icon.encode_element(e)\n    icon.encode_element(lk, {prefix})\n    return icon.root_xml\n"
    return src


def p29(ctx):
    ctx.rule('visual', 'each visual geometry of a link, own or referenced, is exported as one visual with its shape and the material of its own node')
    ctx.rule('collision', 'each collision geometry of a link, own or referenced, is exported as one collision with its shape')
    ctx.rule('total', 'the export of a legal link does not fail')
    W = world(ctx)
    p = ctx.prog
    f = next((m.functions['encode_link_element'] for m in p.modules.values() if 'encode_link_element' in m.functions), None)
    if f is None:
        raise AnalysisError('encode_link_element not found')
    where = f.where
    C2, S1, E3, B1, B3, M3 = (CYL, ('c1', 'c2')), (ELL, ('s1',)), (ELL, ('e1', 'e2', 'e3')), (BOX, ('b1',)), (BOX, ('q1', 'q2', 'q3')), (MESH, ('m1', 'm2', 'm3'))

    def vis(name, g, mat='white', ref=None):
        return ('visual', name, g[0], g[1], mat, ref)

    def col(name, g, ref=None):
        return ('collision', name, g[0], g[1], None, ref)
    scenes = [('nothing', [], ('alone', None))]
    EQUAL = [(BOX, ('q1', 'q2', 'q1')), (BOX, ('q1', 'q1', 'q2')), (BOX, ('q1', 'q1', 'q1')), (ELL, ('e1', 'e1', 'e2')), (ELL, ('e1', 'e1', 'e1')), (CYL, ('c1', 'c1'))]
    for g in EQUAL:
        scenes += [(f"visual {g[0]} {' '.join(g[1])}", [vis('v1', g)], ('alone', None)), (f"collision {g[0]} {' '.join(g[1])}", [col('c1', g)], ('graph', None))]
    for g in (C2, S1, E3, B1, B3, M3):
        scenes += [(f"visual {g[0]}({len(g[1])})", [vis('v1', g)], ('alone', None)), (f"collision {g[0]}({len(g[1])})", [col('c1', g)], ('alone', None)),
                   (f"visual by reference {g[0]}({len(g[1])})", [vis('v1', g, ref='R')], ('graph', None)), (f"collision by reference {g[0]}({len(g[1])})", [col('k1', g, ref='R')], ('graph', None))]
    scenes += [
        ('two visuals', [vis('v1', C2), vis('v2', E3, 'red')], ('alone', None)),
        ('three visuals, two collisions', [vis('v1', C2), col('k1', B1), vis('v2', E3, 'red'), col('k2', B3), vis('v3', S1, 'green')], ('graph', None)),
        ('collision before visual', [col('k1', C2), vis('v1', E3)], ('graph', None)),
        ('same names, two visuals', [vis('v1', C2, 'red'), vis('v2', E3, 'green')], ('graph', None)),
        ('same names, visual and collision', [vis('v1', C2, 'red'), col('k1', B3), vis('v2', E3, 'green')], ('alone', None)),
        ('same names, three visuals', [vis('v1', S1, 'red'), vis('v2', E3, 'green'), vis('v3', E3, 'black')], ('graph', None)),
        ('same material', [vis('v1', C2, 'red'), vis('v2', E3, 'red')], ('graph', None)),
        ('mesh among others', [vis('v1', C2), vis('v2', M3, 'red'), col('k1', M3), col('k2', B1)], ('graph', None)),
        ('one geometry referenced twice', [vis('v1', C2, 'white', 'R'), col('k1', C2, 'R')], ('graph', None)),
        ('own and referenced', [vis('v1', C2, 'white', 'R'), vis('v2', S1, 'red'), col('k1', B3)], ('graph', None)),
        ('two references', [vis('v1', C2, 'white', 'R'), col('k1', E3, 'Q')], ('graph', None)),
    ]
    for graph, conn in product(('alone', 'no graph', 'graph', 'nested'), ('child', 'base', 'both', 'plain', 'world')):
        if graph != 'alone' or conn in ('plain', 'base'):
            scenes.append((f"link, {graph}, {conn}", [vis('v1', C2), col('k1', B3)], (graph, conn)))
    for con, parts, lay in scenes:
        seen, uniq = set(), []
        for q in parts:     # each symbol is declared once
            uniq.append(q)
        src = link_src(uniq, lay)
        if con.startswith('same names'):
            for q in parts:
                src = src.replace(f"a_holder(h, '{q[1]}',", "a_holder(h, 'v',")
        head = src.split('(', 1)[1].split(')', 1)[0]
        src = src.replace(head, ', '.join(dict.fromkeys(x.strip() for x in head.split(','))), 1)

        def use(I, s, v, con=con, parts=parts):
            doc = document(I, s, v)
            links = doc.deep('link')
            if len(links) != 1:
                ctx.bad('visual', con, where, f"{len(links)} links are exported")
                return
            for place in ('visual', 'collision'):
                want = [(shape_of(q[2], list(q[3])), q[4]) for q in parts if q[0] == place]
                got = links[0].all(place)
                n = len(want)
                if len(got) != n:
                    ctx.bad(place, con, where, f"{len(got)} elements {place} for {n} geometries")
                    continue
                for x in got:
                    try:
                        sigs = [signature(g) for g in x.all('geometry')]
                    except Lossy as e:
                        ctx.bad(place, con, where, str(e))
                        continue
                    real = [g for g in sigs if g is not None]
                    if len(real) > 1:
                        ctx.bad(place, con, where, f"{len(real)} shapes in one {place}")
                        continue
                    mats = [''.join(str(y[2]) for y in (m.text or []) if y[0] == 'c').lower() for t in x.all('material') for m in t.deep('name')]
                    sig = real[0] if real else None
                    hit = next((w for w in want if fits(sig, w[0]) and (w[1] is None or any(w[1] in m for m in mats))), None)
                    if hit is None:
                        shape = next((w for w in want if fits(sig, w[0])), None)
                        ctx.bad(place, con, where, f"the {place} with {'no shape' if sig is None else sig[0]} {'has the material of another node' if shape else 'belongs to no geometry of the link'}")
                    else:
                        want.remove(hit)
                        ctx.good(place, f"{con}: {hit[0][0] if hit[0] else 'no form'}", where)
                if n == 0:
                    ctx.good(place, f"{con}: none", where)
            ctx.good('total', con, where)
        outcomes(ctx, W, 'total', con, where, src, use)
    ctx.minimum = 80
