"""P30: the reader of the language against its grammar. The classes of the parse tree are derived from the grammar files;
trees of sentences are built by client programs and the reader is interpreted over them; nothing is executed."""
import ast
import math
import os
from sa.grammar import Grammar, GrammarError, escape
from sa.interp import NONE, C, is_c
from sa.loader import AnalysisError, ClassInfo
from .world import World, number, same, K, V, items, Lossy, Unclear
from .p_export import outcomes

PARSER, VISITOR = 'rei.format.cognilang.CogniLangParser', 'rei.format.cognilang.CogniLangVisitor'
FILES = os.path.join('framework', 'cognitive', 'speclanguage', 'src', 'main', 'antlr4')
ARROWS = {'->': 'OUTWARDS', '<-': 'INWARDS', '--': 'BIDIRECTIONAL'}
BASE = {'parentCtx', 'children', 'start', 'stop', 'exception', 'parser', 'getText', 'getChild', 'getChildren', 'getChildCount', 'getToken', 'getTokens',
        'getTypedRuleContext', 'getTypedRuleContexts', 'getRuleIndex', 'getRuleContext', 'accept', 'enterRule', 'exitRule', 'getSourceInterval',
        'invokingState', 'depth', 'isEmpty', 'toString', 'toStringTree', 'getPayload', 'copyFrom', 'addChild', 'removeLastChild', 'addTokenNode',
        'addErrorNode', 'getAltNumber', 'setAltNumber', 'EMPTY', '__class__', '__dict__'}

LIB = '''
def named(n, *names):
    for x in names:
        n = [y for y in n.get_subelements(lambda z: z.id_name == x)][0]
    return n

def every(n, c):
    return [y for y in n.get_subelements(lambda z: isinstance(z, c))]

def the(n, c):
    return every(n, c)[0]

def names(n, c):
    return [y.id_name for y in every(n, c)]

def ends(j):
    return [(r.endpoint.id_name, r.direction, None if r.weight is None else r.weight.get_values(), [k['joint_type'] for k in every(r, KinematicJoint)]) for r in j.sub_relations]
'''
CLASSES = ('CognilangParserFileIcon', 'CognitiveEntity', 'KinematicGraphDefinition', 'KinematicLink', 'KinematicJoint', 'CylinderGeometry', 'EllipsoidGeometry',
           'PolyhedronGeometry', 'MeshGeometry', 'VisualMaterial', 'RigidTransformation', 'InertiaElement', 'HypergraphNode', 'HypergraphEdge', 'HypergraphRelation',
           'EnumRelationDirection', 'joint_base_element')


def load(ctx):
    p = ctx.prog
    d = os.path.join(p.repo, FILES)
    texts = {}
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.g4'):
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    texts[f[:-3]] = (os.path.join(FILES, f), fh.read())
    if 'CogniLang' not in texts:
        raise AnalysisError('grammar CogniLang not found')
    try:
        g = Grammar(texts, 'CogniLang')
    except GrammarError as e:
        raise AnalysisError(f"grammar: {e}")
    p.add(PARSER, g.parser_source())
    p.add(VISITOR, g.visitor_source(PARSER))
    p.link()
    return g


class Reader(World):
    def __init__(self, ctx, g):
        super().__init__(ctx, CLASSES, LIB, f"from {PARSER} import Token, TerminalNode, " + ', '.join(g.context(n) for n in g.rules) + '\n')
        self.g, self.used = g, set()

    def tree(self, text, rule='rootnode'):
        """client statements that build the parse tree of a sentence, and the symbols in it"""
        n, used = self.g.parse(rule, text)
        self.used |= used
        out, syms, seq = [], [], [0]

        def walk(n):
            k = f"n{seq[0]}"
            seq[0] += 1
            if n[0] == 'leaf':
                if n[2].startswith('$'):
                    t = n[2][1:]
                    if t not in syms:
                        syms.append(t)
                else:
                    t = repr(n[2])
                out.append(f"    {k} = TerminalNode(Token({t}), {t})")
                return k
            out.append(f"    {k} = {self.g.context(n[1])}()")
            for c, label in n[2]:
                x = walk(c)
                out.append(f"    {k}.children.append({x})")
                if c[0] == 'node':
                    out.append(f"    {x}.parentCtx = {k}")
                    out.append(f"    {k}._p_{c[1]}.append({x})")
                elif c[1] is not None:
                    out.append(f"    {k}._p_{c[1]}.append({x})")
                if label:
                    out.append(f"    {k}.{escape(label)} = {x}{'' if c[0] == 'node' else '.symbol'}")
            return k
        root = walk(n)
        return out, syms, root

    def source(self, text, expr, more=()):
        body, syms, root = self.tree(text)
        syms += [x for x in more if x not in syms]
        return (f"def scene({', '.join(['clock'] + syms)}):\n" + '\n'.join(body)
                + f"\n    icon = CognilangParserFileIcon('m', clock)\n    icon.visit({root})\n    e = icon.root_entity\n    return ({expr},)\n")


def judge(I, s, got, want):
    """True / False / None, why: a result against an expected text, number, list, direction or None"""
    if isinstance(want, (list, tuple)):
        try:
            xs = items(I, s, got)
        except Unclear:
            if got == NONE or got[0] == 'c':
                return False, f"{got[-1]} instead of {len(want)} values"
            return None, 'list with unknown members'
        if any(x[0] in ('each', 'splice', 'rev') for x in xs):
            return None, 'list with unknown members'
        if len(xs) != len(want):
            return False, f"{len(xs)} instead of {len(want)}: {shown(xs)}"
        rs = [judge(I, s, a, b) for a, b in zip(xs, want)]
        for k in (False, None):
            for r in rs:
                if r[0] is k:
                    return r
        return True, ''
    if want is None or isinstance(want, (bool, str)):
        w = C(want)
        if isinstance(want, str) and want in ARROWS.values():
            if got[0] == 'enum':
                return got[2] == want, f"direction {got[2]}"
            return (False if got[0] == 'c' else None), f"direction {got}"
        if got == w:
            return True, ''
        if got[0] in ('c', 'enum', 'o', 'list', 'tup') or want is None and got[0] == 'call' and got[1] in ('float', 'int', 'str'):
            return False, f"{show(got)} instead of {want!r}"
        d = I.decide(s, I.norm_atom(('eq', got, w)))
        return d, f"{show(got)} instead of {want!r}"
    if got == NONE:
        return False, 'nothing instead of a number'
    if got[0] == 'sym' or got[0] == 'str':
        return False, 'the text of the number instead of its value'
    ok, why = same(got, want)
    return ok, why


def show(v):
    return str(v[2]) if v[0] in ('c', 'enum') else str(v)[:60]


def shown(xs):
    return ', '.join(show(x) for x in xs)[:100]


def vec(names):
    return [V(n) for n in names.split()]


def rad(names):
    return [V(n) * K(math.pi / 180) for n in names.split()]


def p30(ctx):
    ctx.rule('handler', 'every handler of the reader belongs to a rule of the grammar')
    ctx.rule('part', 'every part of a parse tree the reader asks for is a part of that rule')
    ctx.rule('accepts', 'reading a sentence whose references are defined does not fail')
    ctx.rule('structure', 'graph, links, joints and ambient elements appear in the graph at the place and with the name they have in the sentence')
    ctx.rule('pose', 'translation, rotation and unit of a pose are those of the sentence, the rotation being in radians unless it is marked as degrees')
    ctx.rule('geometry', 'each geometry becomes the element of its kind with its values in order')
    ctx.rule('reference', 'a referenced geometry is connected with its own node and the one that refers to it; a referenced number is the value of the parameter')
    ctx.rule('material', 'the material of a visual is the one given, white by default')
    ctx.rule('joint', 'each end of a joint has the endpoint, direction, type, axis and pose of its own part of the sentence')
    ctx.rule('inertia', 'the mass is that of the sentence')
    ctx.rule('keyword', 'joint types the grammar distinguishes are exported as different types')
    ctx.rule('ignored', 'parts the reader has no handler for leave no trace')
    g = load(ctx)
    p = ctx.prog
    icon = p.cls('CognilangParserFileIcon')
    static(ctx, g, icon)
    R = Reader(ctx, g)
    where = icon.name

    def read(rule, con, text, wants, more=(), at='visit'):
        """wants: [(rule, what, expression, expected)]"""
        f = p.find(icon, at)
        w = f.where if f is not None else where
        try:
            src = R.source(text, ',\n        '.join(x[2] for x in wants), more)
        except GrammarError as e:
            ctx.und(rule, con, w, str(e))
            return

        def use(I, s, v):
            ctx.good('accepts', con, w)
            for x, got in zip(wants, items(I, s, v)):
                ok, why = judge(I, s, got, x[3])
                ctx.ob(x[0], f"{con}: {x[1]}", ok, w, '' if ok else why)
        outcomes(ctx, R, 'accepts', con, w, src, use)
    scenes(ctx, g, read)
    left = {c for c in g.choices('rootnode', stop=STOP) if c not in R.used}
    for key, o in sorted(left, key=str):
        ctx.und('accepts', f"{key[0]}: {o} of choice {'.'.join(str(k) for k in key[1:])}", g.rules[key[0]].file, 'no sentence of the check has it')
    ctx.notes.append(f"{len(g.choices('rootnode', stop=STOP))} choices of the grammar, {len(left)} of them in no sentence.")
    ctx.minimum = 150


# sentences below these rules are read by nobody; one sentence of each is enough
STOP = ('graphnode', 'graphedge', 'port', 'ambience_edge', 'common_subset_elem', 'parameters', 'sensor_type')


# --------------------------------------------------------------------------------------------------- handlers and parts
def static(ctx, g, icon):
    p = ctx.prog
    visitor = p.modules[VISITOR].classes['CogniLangVisitor']
    known = {f"visit{n[0].upper() + n[1:]}": n for n in g.rules}
    mods = []
    for c in [icon] + p.subclasses.get(icon, []):
        for k in p.classes_of(c):
            if k.mod.name not in (PARSER, VISITOR) and k.mod not in mods:
                mods.append(k.mod)
        for n, f in c.methods.items():
            if n.startswith('visit') and n not in ('visit', 'visitChildren', 'visitTerminal', 'visitErrorNode'):
                ctx.ob('handler', f"{c.name}.{n}", n in known, f.where, f"the grammar has no rule for it")
    if visitor not in p.mro(icon):
        ctx.und('handler', icon.name, icon.name, 'the reader is no visitor of the grammar')
    for m in p.modules.values():
        if m not in mods and any(r[0] == 'from' and r[1] == PARSER for r in m.names.values()):
            mods.append(m)
    for m in mods:
        if m.name in (PARSER, VISITOR):
            continue
        fs = list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for f in fs:
            parts_of(ctx, g, known, f)


def parts_of(ctx, g, known, f):
    rules = {g.context(n): n for n in g.rules}
    env = {}
    args = f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs

    def typ(e):
        if isinstance(e, ast.Attribute) and e.attr in rules:
            return rules[e.attr]
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.split('.')[-1] in rules:
            return rules[e.value.split('.')[-1]]
        return None
    for a in args:
        if a.annotation is not None and typ(a.annotation):
            env[a.arg] = typ(a.annotation)
    h = known.get(f.node.name)
    if f.cls is not None and h and len(args) > 1 and args[1].arg not in env:
        env[args[1].arg] = h
    multi = {}
    for st in ast.walk(f.node):
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and typ(st.annotation):
            multi.setdefault(st.target.id, set()).add(typ(st.annotation))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id in env:
                    multi.setdefault(t.id, set()).add(None)
    for n, ts in multi.items():
        if len(ts) == 1 and None not in ts and n not in env:
            env[n] = next(iter(ts))
        else:
            env.pop(n, None)

    def of(e):
        """(rule, 'one' / 'many') of an expression, else None"""
        if isinstance(e, ast.Name):
            return (env[e.id], 'one') if e.id in env else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            r = of(e.func.value)
            if r and r[1] == 'one':
                count, labels = g.parts(r[0])
                n = {escape(c): c for c in count}.get(e.func.attr)
                if n is None or not n[0].islower():
                    return None
                return (n, 'many' if count[n] > 1 and not e.args else 'one')
        if isinstance(e, ast.Attribute):
            r = of(e.value)
            if r and r[1] == 'one':
                labels = g.parts(r[0])[1]
                n = {escape(l): l for l in labels}.get(e.attr)
                if n is not None and labels[n] != 'token':
                    return (labels[n], 'one')
        return None
    for e in ast.walk(f.node):
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            r = of(e.value)
            if r is None:
                continue
            at = f"{f.where.split(':')[0]}:{e.lineno} {f.qual if hasattr(f, 'qual') else f.node.name}"
            if r[1] == 'many':
                if e.attr not in ('count', 'index', 'copy', 'append', 'extend'):
                    ctx.bad('part', f"{r[0]}.{e.attr}", at, 'a repeated part is a list')
                continue
            count, labels = g.parts(r[0])
            ok = e.attr in BASE or e.attr in {escape(c) if c[0].islower() else c for c in count} or e.attr in {escape(l) for l in labels}
            guarded = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('hasattr', 'getattr') for c in ast.walk(f.node))
            ctx.ob('part', f"{r[0]}.{e.attr}", True if ok else None if guarded else False, at, f"the rule {r[0]} has no part {e.attr}")


# --------------------------------------------------------------------------------------------------- sentences
def scenes(ctx, g, read):
    E = 'entity e {'
    link = 'link a { inertia { mass $m } '
    # structure
    read('structure', 'empty entity', 'entity e { }', [
        ('structure', 'name', 'e.id_name', 'e'), ('structure', 'entity', 'names(e, CognitiveEntity)', ['e']), ('structure', 'nodes', 'names(e, HypergraphNode)', [])], at='visitEntity')
    read('structure', 'two graphs', E + 'kinematic k { link a link b } kinematic l { link a } }', [
        ('structure', 'graphs', 'names(e, HypergraphNode)', ['k', 'l']), ('structure', 'definitions', "[names(named(e, 'k'), KinematicGraphDefinition), names(named(e, 'l'), KinematicGraphDefinition)]", [['k'], ['l']]),
        ('structure', 'links', "[names(named(e, 'k'), HypergraphNode), names(named(e, 'l'), HypergraphNode)]", [['a', 'b'], ['a']]),
        ('structure', 'link elements', "[names(named(e, 'k', 'a'), KinematicLink), names(named(e, 'k', 'b'), KinematicLink), names(named(e, 'l', 'a'), KinematicLink)]", [['a'], ['b'], ['a']])], at='visitKinematic')
    read('structure', 'nested graph', E + 'kinematic k { link a kinematic l { root link a kinematic q { } } link b } }', [
        ('structure', 'outer', "names(named(e, 'k'), HypergraphNode)", ['a', 'l', 'b']), ('structure', 'inner', "names(named(e, 'k', 'l'), HypergraphNode)", ['a', 'q']),
        ('structure', 'innermost', "names(named(e, 'k', 'l', 'q'), KinematicGraphDefinition)", ['q']), ('structure', 'link', "names(named(e, 'k', 'l', 'a'), KinematicLink)", ['a'])], at='visitKinematic')
    read('structure', 'ambient', E + "ambient w { actuator s { } sensor t imu { } sensor u encoder { } sensor v force { } ambient x { sensor t gnss { } actuator y { } } kinematic k { link a } } kinematic l { link a } }", [
        ('structure', 'ambients', 'names(e, HypergraphNode)', ['w', 'l']), ('structure', 'elements', "names(named(e, 'w'), HypergraphNode)", ['s', 't', 'u', 'v', 'x', 'k']),
        ('structure', 'nested', "names(named(e, 'w', 'x'), HypergraphNode)", ['t', 'y']), ('structure', 'graph', "names(named(e, 'w', 'k', 'a'), KinematicLink)", ['a']),
        ('structure', 'graph beside', "names(named(e, 'l', 'a'), KinematicLink)", ['a'])], at='visitAmbient')
    read('structure', 'ambient of one graph', E + 'ambient w { kinematic k { link a } } }', [
        ('structure', 'elements', "names(named(e, 'w'), HypergraphNode)", ['k']), ('structure', 'link', "names(named(e, 'w', 'k', 'a'), KinematicLink)", ['a'])], at='visitAmbient')
    read('structure', 'empty ambient', E + 'ambient w { } ambient x { sensor t visual { } sensor u laserarray { } } }', [
        ('structure', 'ambients', 'names(e, HypergraphNode)', ['w', 'x']), ('structure', 'elements', "names(named(e, 'x'), HypergraphNode)", ['t', 'u'])], at='visitSensor')
    # pose of a link
    for con, text, tr, rot, unit in (
            ('position', '[[$x $y $z]]', 'x y z', None, None), ('position, comma', '[[$x, $y, $z],]', 'x y z', None, None), ('plain rotation', '[[$x $y $z] [$r $s $t]]', 'x y z', 'r s t', 'rad'),
            ('rotation in degrees', '[[$x $y $z], d[$r $s $t]]', 'x y z', 'r s t', 'deg'), ('rotation in radians', '[[$x, $y $z], r[$r, $s, $t]]', 'x y z', 'r s t', 'rad')):
        P = "the(the(named(e, 'k', 'a'), KinematicLink), RigidTransformation)"
        read('pose', f"link at {con}", E + f"kinematic k {{ link b link a @ {text} }} }}", [
            ('pose', 'poses', "[len(every(x, RigidTransformation)) == n for x, n in ((the(named(e, 'k', 'a'), KinematicLink), 1), (the(named(e, 'k', 'b'), KinematicLink), 0))]", [True, True]),
            ('pose', 'translation', P + "['translation']", vec(tr)),
            ('pose', 'rotation', P + "['rotation']", vec(rot) if rot else [K(0)] * 3)] + ([('pose', 'unit', P + "['rotation_type'] == 'deg'", unit == 'deg')] if unit else []), at='visitLink')
    # parameters
    read('reference', 'parameters in a pose', E + 'parameters { p = $u q = $v } kinematic k { link a @ [[{q} $y {p}], [$r {p} {q}]] } }', [
        ('reference', 'translation', "the(the(named(e, 'k', 'a'), KinematicLink), RigidTransformation)['translation']", [V('v'), V('y'), V('u')]),
        ('reference', 'rotation', "the(the(named(e, 'k', 'a'), KinematicLink), RigidTransformation)['rotation']", [V('r'), V('u'), V('v')])], at='visitParameter')
    read('reference', 'parameters of several blocks', E + 'parameters { p = $u } parameters { } parameters { q = $v o = x } kinematic k { link a @ [[{q}, {q}, {p}]] } }', [
        ('reference', 'translation', "the(the(named(e, 'k', 'a'), KinematicLink), RigidTransformation)['translation']", [V('v'), V('v'), V('u')])], at='visitParameter')
    read('reference', 'parameters are no part of the model', E + 'parameters { p = $u q = -5 } }', [
        ('ignored', 'nodes', 'names(e, HypergraphNode)', [])], at='visitParameter')
    # geometries
    kinds = {'cylinder': ('CylinderGeometry', 'r l'), 'polyhedron': ('PolyhedronGeometry', 'x y z'), 'ellipsoid': ('EllipsoidGeometry', 'a b c'), 'mesh': ('MeshGeometry', 'x y z')}
    alts = g.rules['geometries'].body
    offered = [y[1][:-len('_geometry')] for y in (alts[1] if alts[0] == 'alt' else [alts]) if y[0] == 'ref' and y[1].endswith('_geometry')]
    GS = '(CylinderGeometry, PolyhedronGeometry, EllipsoidGeometry, MeshGeometry)'
    for kind in offered:
        if kind not in kinds:
            ctx.und('geometry', kind, g.rules['geometries'].file, 'the check does not know the kind')
    for kind, (cls, vs) in kinds.items():
        ns = vs.split()
        for place, name in (('visual', ''), ('visual', 'h'), ('collision', ''), ('collision', 'h')):
            for form in ('inline', 'parameter', 'commas') if name or place == 'visual' else ('inline',):
                val = {'inline': ' '.join('$' + n for n in ns), 'parameter': ' '.join(('$' if i else '{p} $') + n for i, n in enumerate(ns)), 'commas': ', '.join('$' + n for n in ns)}[form]
                want = vec(vs) if form != 'parameter' else [V('u')] + vec(vs)
                gid = 'o ' if form == 'commas' else ''
                text = E + f"parameters {{ p = $u }} kinematic k {{ {link} {place} {name} {{ {kind} {gid}[{val}] }} }} }} }}"
                H = "[x for x in named(e, 'k', 'a').get_subelements(lambda y: isinstance(y, HypergraphNode))]"
                G = f"[z for x in {H} for y in every(x, HypergraphNode) for z in every(y, {GS})]"
                ws = [('structure', 'holders', f"len({H}) == 1", True), ('geometry', 'number', f"len({G}) == 1", True), ('geometry', 'kind', f"isinstance({G}[0], {cls})", True),
                      ('geometry', 'values', f"{G}[0]['values']", want)]
                if name:
                    ws.append(('structure', 'holder', f"[x.id_name for x in {H}]", [name]))
                ws.append(('material', 'elements', f"[x['material_name'] for y in {H} for x in every(y, VisualMaterial)]", ['white'] if place == 'visual' else []))
                read('geometry', f"{place} {name}{' ' if name else ''}{kind}, {form}", text, ws, at='visitVisual_node' if place == 'visual' else 'visitCollision_node')
        read('reference', f"{kind} with the vector of a parameter", E + f"parameters {{ p = $u }} kinematic k {{ {link} visual h {{ {kind} {{p}} }} }} }} }}", [
            ('reference', 'values', f"the(named(e, 'k', 'a', 'h', 'geom_h'), {cls})['values']", [V('u')])], at='visitVisual_node')
    read('geometry', 'several geometries', E + f"kinematic k {{ {link} visual v {{ cylinder [$r $l] }} collision c {{ polyhedron [$x $y $z] }} visual w (material red) {{ mesh [$p] }} }} link b {{ inertia {{ mass $n }} visual v {{ ellipsoid [$q] }} }} }} }}", [
        ('structure', 'holders', "[names(named(e, 'k', 'a'), HypergraphNode), names(named(e, 'k', 'b'), HypergraphNode)]", [['v', 'c', 'w'], ['v']]),
        ('geometry', 'v', "the(named(e, 'k', 'a', 'v', 'geom_v'), CylinderGeometry)['values']", vec('r l')), ('geometry', 'c', "the(named(e, 'k', 'a', 'c', 'geom_c'), PolyhedronGeometry)['values']", vec('x y z')),
        ('geometry', 'w', "the(named(e, 'k', 'a', 'w', 'geom_w'), MeshGeometry)['values']", vec('p')), ('geometry', 'v of b', "the(named(e, 'k', 'b', 'v', 'geom_v'), EllipsoidGeometry)['values']", vec('q')),
        ('material', 'v', "[x['material_name'] for x in every(named(e, 'k', 'a', 'v'), VisualMaterial)]", ['white']), ('material', 'w', "[x['material_name'] for x in every(named(e, 'k', 'a', 'w'), VisualMaterial)]", ['red']),
        ('material', 'c', "[x['material_name'] for x in every(named(e, 'k', 'a', 'c'), VisualMaterial)]", []),
        ('inertia', 'a', "[x['mass'] for x in every(named(e, 'k', 'a'), InertiaElement)]", vec('m')), ('inertia', 'b', "[x['mass'] for x in every(named(e, 'k', 'b'), InertiaElement)]", vec('n'))], at='visitVisual_node')
    # references to geometries
    RE = "[[r.endpoint.qualified_name, r.direction] for x in named(e, 'k').get_subelements(lambda y: isinstance(y, HypergraphEdge)) for r in x.sub_relations]"
    read('reference', 'geometry of the same link', E + f"kinematic k {{ {link} visual v {{ cylinder [$r $l] }} collision c {{ {{v}} }} }} }} }}", [
        ('reference', 'connection', RE, [['e/k/a/v', 'OUTWARDS'], ['e/k/a/c/geom_c', 'INWARDS']]),
        ('geometry', 'own', f"[len(every(named(e, 'k', 'a', 'c', 'geom_c'), {GS})) == 0, len(every(named(e, 'k', 'a', 'v', 'geom_v'), CylinderGeometry)) == 1]", [True, True])], at='visitCollision_node')
    read('reference', 'geometry of another link', E + f"kinematic k {{ {link} visual v {{ cylinder [$r $l] }} }} link b {{ inertia {{ mass $n }} visual h (material red) {{ {{a/v}} }} collision c {{ {{a/v}} }} }} }} }}", [
        ('reference', 'connections', RE, [['e/k/a/v', 'OUTWARDS'], ['e/k/b/h/geom_h', 'INWARDS'], ['e/k/b/c/geom_c', 'INWARDS']]),
        ('material', 'own', "[x['material_name'] for x in every(named(e, 'k', 'b', 'h'), VisualMaterial)]", ['red'])], at='visitVisual_node')
    read('reference', 'two geometries', E + f"kinematic k {{ {link} visual v {{ cylinder [$r $l] }} visual w {{ ellipsoid [$q] }} collision c {{ {{v}} }} collision d_ {{ {{w}} }} }} }} }}", [
        ('reference', 'connections', RE, [['e/k/a/v', 'OUTWARDS'], ['e/k/a/c/geom_c', 'INWARDS'], ['e/k/a/w', 'OUTWARDS'], ['e/k/a/d_/geom_d_', 'INWARDS']])], at='visitCollision_node')
    read('reference', 'geometry of a graph beside', E + f"kinematic k {{ {link} visual v {{ cylinder [$r $l] }} collision c {{ {{k/a/v}} }} }} }} }}", [
        ('reference', 'connections', RE, [['e/k/a/v', 'OUTWARDS'], ['e/k/a/c/geom_c', 'INWARDS']])], at='visitCollision_node')
    read('reference', 'the same name in two links', E + f"kinematic k {{ {link} visual v {{ cylinder [$r $l] }} collision c {{ {{v}} }} }} link b {{ inertia {{ mass $n }} visual v {{ ellipsoid [$q] }} collision c {{ {{v}} }} }} }} }}", [
        ('reference', 'connections', RE, [['e/k/a/v', 'OUTWARDS'], ['e/k/a/c/geom_c', 'INWARDS'], ['e/k/b/v', 'OUTWARDS'], ['e/k/b/c/geom_c', 'INWARDS']])], at='visitCollision_node')
    # inertia
    read('inertia', 'with a vector', E + "parameters { p = $u } kinematic k { link a { inertia { mass $m inertia [$x $y $z] } } link b { inertia { mass $n inertia {p} } } link c } }", [
        ('inertia', 'masses', "[[x['mass'] for x in every(named(e, 'k', n), InertiaElement)] for n in ('a', 'b', 'c')]", [vec('m'), vec('n'), []])], at='visitInertia_body')
    # numbers as they are written
    read('inertia', 'numbers as written', E + "kinematic k { link a { inertia { mass 2.5 inertia [0.5 0.0 0.5] } } link b { inertia { mass 0.0 } } link c { inertia { mass 10.0 } } }  }", [
        ('inertia', 'masses', "[[x['mass'] for x in every(named(e, 'k', n), InertiaElement)] for n in ('a', 'b', 'c')]", [[K(2.5)], [K(0)], [K(10)]])], at='visitInertia_body')
    read('pose', 'numbers as written', E + "parameters { p = 0.0 q = -1.5 } kinematic k { link a @ [[-1.5 0.0 2.5] [0.0 {p} -0.5]] link b @ [[0.0 0.0 0.0], d[90.0 -45.0 {q}]] link c @ [[{q} {p} {q}] r[0.0 0.0 0.0]] } }", [
        ('pose', 'translations', "[the(the(named(e, 'k', n), KinematicLink), RigidTransformation)['translation'] for n in ('a', 'b', 'c')]", [[K(-1.5), K(0), K(2.5)], [K(0)] * 3, [K(-1.5), K(0), K(-1.5)]]),
        ('pose', 'rotations', "[the(the(named(e, 'k', n), KinematicLink), RigidTransformation)['rotation'] for n in ('a', 'b', 'c')]", [[K(0), K(0), K(-0.5)], [K(90), K(-45), K(-1.5)], [K(0)] * 3])], at='visitLink')
    read('joint', 'numbers as written', E + "kinematic k { link a joint j: rev -> {a} [[0.0 -2.5 0.0] r[0.0 0.0 1.5]] | [0.0 -1.0 0.0] } }", [
        ('joint', 'end', "ends(the(named(e, 'k'), HypergraphEdge))", [['a', 'OUTWARDS', [[K(0), K(-2.5), K(0)], [K(0), K(0), K(1.5)]], ['rev']]]),
        ('joint', 'axis', "the(the(the(named(e, 'k'), HypergraphEdge), HypergraphRelation), KinematicJoint)['axis']", [K(0), K(-1), K(0)])], at='visitJoint')
    for kind, cls, text, vals in (('cylinder', 'CylinderGeometry', '[1.5 1.5]', [1.5, 1.5]), ('polyhedron', 'PolyhedronGeometry', '[2.0 0.5 2.0]', [2.0, 0.5, 2.0]), ('ellipsoid', 'EllipsoidGeometry', '[1.0 1.0 0.5]', [1.0, 1.0, 0.5])):
        if kind in offered:
            read('geometry', f"{kind}, numbers as written", E + f"kinematic k {{ link a {{ inertia {{ mass 1.5 }} visual v {{ {kind} {text} }} collision c {{ {kind} {text} }} }} }} }}", [
                ('geometry', 'values', f"[x['values'] for n in ('v', 'c') for x in every(named(e, 'k', 'a', n, 'geom_' + n), {cls})]", [[K(x) for x in vals]] * 2)], at='visitVisual_node')
    # joints
    types = [y[1] for y in find_alt(g.rules['joint_type'].body)]
    read('joint', 'two ends', E + 'kinematic k { link a link b joint j: fix <- {a} rev -> {b} } }', [
        ('joint', 'edges', "names(named(e, 'k'), HypergraphEdge)", ['j']),
        ('joint', 'ends', "ends(the(named(e, 'k'), HypergraphEdge))", [['a', 'INWARDS', None, ['fix']], ['b', 'OUTWARDS', None, ['rev']]]),
        ('joint', 'names', "[x.id_name for r in the(named(e, 'k'), HypergraphEdge).sub_relations for x in every(r, KinematicJoint)]", ['j.a', 'j.b'])], at='visitJoint')
    arrows = [a for a in arrows_of(g, 'joint_relation')]
    for a in arrows:
        if a not in ARROWS:
            ctx.und('joint', f"arrow {a}", g.rules['joint_relation'].file, 'the check does not know the arrow')
            continue
        for t in types:
            T = "the(the(the(named(e, 'k'), HypergraphEdge), HypergraphRelation), KinematicJoint)"
            read('joint', f"{t} {a}, axis and pose in degrees", E + f"parameters {{ p = $u }} kinematic k {{ link a joint j: {t} {a} {{a}} [[$x $y $z], d[$r $s $t]] | [$f {{p}} $h] }} }}", [
                ('joint', 'end', "ends(the(named(e, 'k'), HypergraphEdge))", [['a', ARROWS[a], [vec('x y z'), rad('r s t')], [t]]]),
                ('joint', 'axis', T + "['axis']", [V('f'), V('u'), V('h')]),
                ('pose', 'translation', f"the({T}, RigidTransformation)['translation']", vec('x y z')), ('pose', 'rotation', f"the({T}, RigidTransformation)['rotation']", vec('r s t')),
                ('pose', 'unit', f"the({T}, RigidTransformation)['rotation_type'] == 'deg'", True)], at='visitJoint')
    T = "the(the(named(e, 'k'), HypergraphEdge), HypergraphRelation)"
    read('joint', 'pose in radians', E + 'kinematic k { link a joint j: tr -> {a} [[$x $y $z] r[$r $s $t]] } }', [
        ('joint', 'end', "ends(the(named(e, 'k'), HypergraphEdge))", [['a', 'OUTWARDS', [vec('x y z'), vec('r s t')], ['tr']]]), ('joint', 'axis', f"the({T}, KinematicJoint)['axis'] is None", True),
        ('pose', 'unit', f"the(the({T}, KinematicJoint), RigidTransformation)['rotation_type'] == 'deg'", False)], at='visitJoint')
    read('joint', 'pose without rotation', E + 'kinematic k { link a joint j: tr -> {a} [[$x $y $z]] } }', [
        ('joint', 'end', "ends(the(named(e, 'k'), HypergraphEdge))", [['a', 'OUTWARDS', [vec('x y z'), [K(0)] * 3], ['tr']]])], at='visitJoint')
    read('joint', 'axis without pose', E + 'kinematic k { link a joint j: tr -> {a} | [$f $g $h] } }', [
        ('joint', 'end', "ends(the(named(e, 'k'), HypergraphEdge))", [['a', 'OUTWARDS', None, ['tr']]]), ('joint', 'axis', f"the({T}, KinematicJoint)['axis']", vec('f g h'))], at='visitJoint')
    read('joint', 'three ends, two joints', E + 'kinematic k { link a link b link c joint j: fix <- {a} rev -> {b} [[$x $y $z]] | [$f $g $h] tr -> {c} joint i: tr <- {b} fix -> {c} [[$p $q $r]] } }', [
        ('joint', 'edges', "names(named(e, 'k'), HypergraphEdge)", ['j', 'i']),
        ('joint', 'ends of j', "ends(named(e, 'k', 'j'))", [['a', 'INWARDS', None, ['fix']], ['b', 'OUTWARDS', [vec('x y z'), [K(0)] * 3], ['rev']], ['c', 'OUTWARDS', None, ['tr']]]),
        ('joint', 'ends of i', "ends(named(e, 'k', 'i'))", [['b', 'INWARDS', None, ['tr']], ['c', 'OUTWARDS', [vec('p q r'), [K(0)] * 3], ['fix']]]),
        ('joint', 'axes', "[[x['axis'] is None for r in named(e, 'k', n).sub_relations for x in every(r, KinematicJoint)] for n in ('j', 'i')]", [[True, False, True], [True, True]])], at='visitJoint')
    read('joint', 'fixed to the world', E + 'kinematic k { link a joint j: fix <- {world} fix -> {a} } kinematic l { link b joint j: fix <- {world} fix -> {b} } }', [
        ('joint', 'ends', "[ends(named(e, n, 'j')) for n in ('k', 'l')]", [[['world', 'INWARDS', None, ['fix']], [x, 'OUTWARDS', None, ['fix']]] for x in 'ab']),
        ('joint', 'one world', "[r.endpoint for r in named(e, 'k', 'j').sub_relations][0] is [r.endpoint for r in named(e, 'l', 'j').sub_relations][0]", True)], at='visitJoint')
    read('joint', 'of graphs', E + 'kinematic k { kinematic l { link a } kinematic q { link a } joint j: fix <- {l/a} fix -> {q/a} } }', [
        ('joint', 'ends', "[[r.endpoint.qualified_name, r.direction] for r in named(e, 'k', 'j').sub_relations]", [['e/k/l/a', 'INWARDS'], ['e/k/q/a', 'OUTWARDS']])], at='visitJoint')
    read('joint', 'of the entity', E + 'kinematic k { link a } kinematic l { link b } joint j: fix <- {k/a} rev -> {l/b} }', [
        ('joint', 'edges', 'names(e, HypergraphEdge)', ['j']),
        ('joint', 'ends', "[[r.endpoint.qualified_name, r.direction] for r in named(e, 'j').sub_relations]", [['e/k/a', 'INWARDS'], ['e/l/b', 'OUTWARDS']])], at='visitJoint')
    read('joint', 'names that are alike', E + 'kinematic k { link a link aa link ba joint j: fix <- {ba} rev -> {a} tr -> {aa} } kinematic l { link ba link a joint j: fix <- {a} rev -> {ba} } }', [
        ('joint', 'ends', "[[r.endpoint.qualified_name for r in named(e, n, 'j').sub_relations] for n in ('k', 'l')]", [['e/k/ba', 'e/k/a', 'e/k/aa'], ['e/l/a', 'e/l/ba']])], at='visitJoint')
    read('joint', 'a link and a graph of one name', E + 'kinematic a { link a joint j: fix <- {a} } kinematic k { kinematic a { link b } link b joint j: fix <- {b} rev -> {a/b} } }', [
        ('joint', 'ends', "[[r.endpoint.qualified_name for r in named(e, n, 'j').sub_relations] for n in ('a', 'k')]", [['e/a/a'], ['e/k/b', 'e/k/a/b']])], at='visitJoint')
    # the exported type of each joint type
    J = "(lambda x: joint_base_element(next(iter(x.get_incoming_relations())), next(iter(x.get_outgoing_relations()))).attrib['type'])(named(e, 'k', 'j{0}'))"
    js = ' '.join(f"joint j{i}: fix <- {{a}} {t} -> {{b}}" for i, t in enumerate(types))
    pairs = [(i, j) for i in range(len(types)) for j in range(i)]
    for i, j in pairs:
        read('keyword', f"joint types {types[j]} and {types[i]}", E + f"kinematic k {{ link a link b {js} }} }}", [
            ('keyword', 'differ', f"{J.format(i)} == {J.format(j)}", False)], at='visitJoint')
    # the rest of the language
    rest = [('node and edge', 'node n { node o { } node p } edge f: { -> -> {n} } edge h: { <- <- {n} pairwise, -- -- {p} }'), ('values', 'double x = 1.0 string s = "t" vec v = [1.0 2.0]'),
            ('template', 't: {k} fix -> {a}'), ('mirror', 'mirror t: {k} -> {a}')]
    for con, text in rest:
        read('ignored', con, E + f"{text} kinematic k {{ link a }} }}", [
            ('ignored', 'nodes', 'names(e, HypergraphNode)', ['k']), ('ignored', 'edges', 'names(e, HypergraphEdge)', []), ('ignored', 'in the graph', "names(named(e, 'k'), HypergraphNode)", ['a'])])
    read('ignored', 'within a graph', E + 'kinematic k { link a t: {a} fix -> {a} mirror u: {a} -> {a} } }', [
        ('ignored', 'in the graph', "names(named(e, 'k'), HypergraphNode)", ['a']), ('ignored', 'edges', "names(named(e, 'k'), HypergraphEdge)", [])])
    read('ignored', 'within an ambient', E + 'ambient w { port p : "topic" ("msg") { } ambience f: at -> {w} sensor t imu { double x = 1.0 string y = "a" } actuator u { double x = 1.0 double z = 2.0 } actuator v { double x = 1.0 } sensor o imu { string y = "a" } } }', [
        ('structure', 'elements', "names(named(e, 'w'), HypergraphNode)", ['t', 'u', 'v', 'o']), ('ignored', 'edges', "names(named(e, 'w'), HypergraphEdge)", [])], at='visitAmbience_edge')


def find_alt(x):
    if x[0] == 'label':
        return find_alt(x[2])
    if x[0] == 'alt':
        return [z for y in x[1] for z in find_alt(y)]
    if x[0] == 'lit':
        return [x]
    return []


def arrows_of(g, rule):
    out = []

    def walk(x):
        if x[0] == 'label' and x[1] == 'direction':
            out.extend(y[1] for y in find_alt(x[2]))
        elif x[0] == 'seq' or x[0] == 'alt':
            for y in x[1]:
                walk(y)
        elif x[0] == 'rep':
            walk(x[1])
    walk(g.rules[rule].body)
    return out
