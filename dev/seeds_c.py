SG = 'framework_python/rei/format/phys/solid_geometry_context.py'
IC = 'framework_python/rei/format/phys/inertia_context.py'
KC = 'framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py'
SD = 'framework_python/rei/format/mapping/cognilang_sdf_icon.py'
FI = 'framework_python/rei/format/mapping/cognilang_file_icon.py'
MU = 'framework_python/rei/format/mapping/cognilang_map_utility.py'
SF = 'framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py'
BE = 'framework_python/rei/hypergraph/base_elements.py'
TR = 'framework_python/rei/tensor/tensor_representation.py'
HF = 'framework_python/rei/hypergraph/homomorphism_functions.py'
GT = 'framework_python/rei/foundations/hypergraph_traversal_strategies.py'
CB = 'framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py'
QE = 'framework_python/rei/query/query_engine.py'
CK = 'framework_python/rei/foundations/clock.py'
CI = 'framework_python/rei/foundations/conceptual_item.py'
PRE = '''
import asyncio, sys, signal
signal.alarm(60)
from rei.foundations.clock import DummyClock, LocalClock
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import *
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
f = HypergraphFactory("demo", LocalClock())
g = CognitiveEntitySemanticFactory("cog", LocalClock())
run = asyncio.run
def check(c, what):
    if not c:
        print("WRONG:", what); sys.exit(1)
def link(parent, name, mass=None, pose=None):
    n = f.generate_node(name, parent)
    l = g.generate_semantic_element("kinematiclink", name, n, {"name": name})
    if mass is not None: g.generate_semantic_element("inertiaelement", "inertia_" + name, n, {"mass": mass})
    return n, l
def geom(n, cont, kind, values, material=None):
    v = f.generate_node(cont, n); e = f.generate_node("geom_" + cont, v)
    s = g.generate_semantic_element(kind, "geom_" + cont, e, {"name": cont}, values)
    if material: g.generate_semantic_element("material", "material_" + cont, v, {"name": "m", "material_name": material})
    return e, s
'''
READ = '''
import types
class Node:
    def __init__(self, parent=None, **kw):
        self.parentCtx = parent
        for k, v in kw.items(): setattr(self, k, v)
def fn(v): return lambda *a: v
class Any_(type):
    def __getattr__(cls, n): return object
class CogniLangParser(metaclass=Any_): pass
class CogniLangVisitor:
    def visitChildren(self, ctx): return None
pk = types.ModuleType("rei.format.cognilang"); pk.__path__ = []
for n, c in (("CogniLangParser", CogniLangParser), ("CogniLangVisitor", CogniLangVisitor)):
    m = types.ModuleType("rei.format.cognilang." + n); setattr(m, n, c); sys.modules[m.__name__] = m; setattr(pk, n, m)
sys.modules["rei.format.cognilang"] = pk
def sig(name): return fn(types.SimpleNamespace(ID=fn(name)))
def text(t): return types.SimpleNamespace(text=t)
def ref(name): return types.SimpleNamespace(ID=fn(name))
def val(x): return types.SimpleNamespace(ref_=fn(None), FLOAT=fn(x))
def vec(*xs): return types.SimpleNamespace(value=fn([val(x) for x in xs]))
def field(*xs): return types.SimpleNamespace(ref_=fn(None), float_vector=fn(vec(*xs)))
def geometries(kind=None, values=(), to=None):
    d = {k + "_geometry": fn(None) for k in ("cylinder", "polyhedron", "ellipsoid", "mesh")}
    if kind: d[kind + "_geometry"] = fn(types.SimpleNamespace(field_float_vector=fn(field(*values))))
    return fn(types.SimpleNamespace(ref_=fn(ref(to) if to else None), **d))
'''
READER = PRE + READ + '''
from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon
r = CognilangParserFileIcon("icon", LocalClock())
class N(Node):
    """a tree node without ID unless given"""
def entity(name): return N(graphnode_signature=sig(name))
def kinematic(p, name): return N(p, graphnode_signature=sig(name))
def linkctx(p, name, rt=None): return N(p, graphnode_signature=sig(name), rigid_transformation=fn(rt))
def visual(p, name, geo):
    c = N(p, ID=fn(name)); b = N(c, geometries=geo); c.geometry_body = fn(b); c.material = fn(None)
    return c
'''
SEEDS = [
 dict(id='p27-cylinder-radius-in-order', property='P27', file=SG,
  edits=[("            el_radius.text = str(e[\"values\"][0])\n            el_length = etree.Element(\"length\")\n            el_length.text = str(e[\"values\"][1])\n",
          "            r, l = e[\"values\"][0], e[\"values\"][-1]\n            el_radius.text = str(r)\n            el_length = etree.Element(\"length\")\n            el_length.text = str(l)\n")],
  needs='a cylinder with more than two values', breaks='the length of the shape is not that of the inertia', demo=PRE + '''
from rei.format.phys.solid_geometry_context import encode_typegeometry_element
r = f.generate_node("r"); e, s = geom(r, "v", "cylindergeometry", [1.0, 2.0, 7.0])
check(encode_typegeometry_element(s).find("length").text == "2.0", "length")
'''),
 dict(id='p28-axis-that-sums-to-zero', property='P28', file=KC,
  edits=[("    if jrel['axis'] is not None:\n", "    # No axis, or a degenerate one\n    if jrel['axis'] is not None and sum(jrel['axis']) != 0:\n")],
  needs='an axis whose parts cancel', breaks='the joint turns about z', demo=PRE + '''
from rei.format.phys.kinematics.kinematic_semantic_context import joint_base_element
r = f.generate_node("r"); a, _ = link(r, "a"); b, _ = link(r, "b")
j = g.generate_semantic_element("kinematicjoint", "j.b", r, {"joint_type": "rev", "axis": [1.0, -1.0, 0.0]})
e = f.connect_tuple_nodes(r, "j", [(a, D.INWARDS, None, None), (b, D.OUTWARDS, None, j)])
i, o = list(e.sub_relations)
if i.direction is not D.INWARDS: i, o = o, i
o.add_element(j) if j not in list(o.get_subelements(lambda x: True)) else None
check(joint_base_element(i, o).find("axis").find("xyz").text == "1.0 -1.0 0.0", "axis")
'''),
 dict(id='p28-degrees-converted-in-place', property='P28', file=KC,
  edits=[("    rot = [x for x in x['rotation']]\n", "    rot = x['rotation']\n"), ("            rot = [np.pi/180.0*x for x in rot]\n", "            for i in range(len(rot)):\n                rot[i] = np.pi/180.0*rot[i]\n")],
  needs='a pose in degrees exported twice', breaks='the second export converts the radians again', demo=PRE + '''
from rei.format.phys.kinematics.kinematic_semantic_context import extract_rigid_transformation_element as x
r = f.generate_node("r")
t = g.generate_semantic_element("rigidtransformation", "t", r, {"translation": [0.0, 0.0, 0.0], "rotation": [90.0, 0.0, 0.0], "rotation_type": "deg"})
check(x(t).text == x(t).text, "the same twice")
'''),
 dict(id='p28-child-under-its-joint', property='P28', file=KC,
  edits=[("    jrel = [x for x in j1.get_subelements(lambda x: isinstance(x, KinematicJoint))][0]\n    joint_el.attrib",
          "    jrel = [x for y in (j0, j1) for x in y.get_subelements(lambda x: isinstance(x, KinematicJoint))][0]\n    joint_el.attrib")],
  needs='both ends of a joint carry a joint of their own', breaks='type and axis are those of the parent end', demo=PRE + '''
from rei.format.phys.kinematics.kinematic_semantic_context import joint_base_element
r = f.generate_node("r"); a, _ = link(r, "a"); b, _ = link(r, "b"); e = f.create_hyperedge(r, "j")
e.unary_connect(a, None, D.INWARDS); e.unary_connect(b, None, D.OUTWARDS)
i, o = sorted(e.sub_relations, key=lambda x: x.direction is not D.INWARDS)
for q, t in ((i, "fix"), (o, "tr")): g.generate_semantic_element("kinematicjoint", "j." + t, q, {"joint_type": t, "axis": None})
check(joint_base_element(i, o).attrib["type"] == "prismatic", "type of the child's end")
'''),
 dict(id='p37-waiting-elements-kept', property='P37', file=SD,
  edits=[("                        self.current_model.append(e)\n                    self.cache = []\n", "                        self.current_model.append(e)\n                    # Written\n")],
  needs='links read before the entity, then a second entity', breaks='the links move to the second model', demo=PRE + '''
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
r = f.generate_node("r"); n, l = link(r, "l")
i = CognilangSdfIcon(LocalClock())
ents = [g.generate_semantic_element("cognitiveentity", k, r, {"name": k}) for k in "ab"]
i.encode_element(l)
for e in ents: i.encode_element(e)
check([len(m) for m in i.root_xml] == [1, 0], "the link stays in the first model")
'''),
 dict(id='p31-error-of-another-name', property='P31', file=MU,
  edits=[("    raise ErrorInvalidDirection\n", "    raise ErrorInvalidDirection.unknown(direction)\n")], needs='an arrow that is none', breaks='AttributeError instead of the error', demo=PRE + READ + '''
from rei.format.mapping.cognilang_map_utility import dir_enum_relation
from rei.format.mapping.cognilang_mapping_errors import ErrorInvalidDirection
try:
    dir_enum_relation("<>"); check(False, "accepted")
except ErrorInvalidDirection:
    pass
except AttributeError as e:
    check(False, e)
'''),
 dict(id='p34-any-side-equal', property='P34', file=TR,
  edits=[("        coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\n        return np.multiply(np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0), coeff)\n",
          "        # A connection in both directions counts once\n        return np.sum(np.maximum(self.Io, self.Ii), axis=0)\n")],
  needs='a negative weight', breaks='', demo=PRE + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyTensorRepresentation as T
class H: cnt_node = 2; cnt_edges = 1
t = T(); t.synchronize_structure_dimensions(H())
t.Io[0] = [-1.0, 0.0]; t.Ii[0] = [0.0, -1.0]
check(list(t.deg) == [-1.0, -1.0], t.deg)
'''),
 dict(id='p34-half-the-symmetric-part', property='P34', file=TR,
  edits=[("        return self.D - np.sum(self.W, axis=0)\n", "        w = np.sum(self.W, axis=0)\n        # Of both directions of a connection the stronger one\n        return self.D - np.where(w >= w.T, w, w.T)\n")],
  needs='a directed graph', breaks='the projected Laplacian of a directed graph is symmetrised', demo=PRE + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r); f.connect_dir_edges(r, "e", [a], [b])
t = T(); run(t.execute(r)); t = t.tensor_representation
check(np.array_equal(t.Lp, t.D - t.W[0]), t.Lp)
'''),
]
