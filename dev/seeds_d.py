import os
exec(open('dev/seeds_c.py').read().split('SEEDS = [')[0])
NF = 'framework_python/rei/hypergraph/norm/norm_functions.py'
FF = 'framework_python/rei/factories/foundation_factory.py'
VN = 'framework_python/rei/hypergraph/value_node.py'
GI = 'framework_python/rei/hypergraph/encoding/graph_tensor_icon.py'
FO = 'framework_python/rei/hypergraph/factorization_operations.py'
CE = 'framework_python/rei/format/semantics/CognitiveEntity.py'
TENS = PRE + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
def tens(r):
    t = T(); run(t.execute(r)); return t.tensor_representation
'''
SEEDS = [
 dict(id='p36-weights-summed-in-order', property='P36', file=NF,
  edits=[("        return np.sum(np.array(arg))\n", "        # Smallest first keeps the rounding error low\n        values = arg if isinstance(arg, list) else list(arg)\n        values.sort()\n        return np.sum(np.array(values))\n")],
  needs='a weight with values that are not ascending', breaks='building a tensor reorders the values of the weight', demo=TENS + '''
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
w = [f.create_value(r, "w%d" % i, [3.0, 1.0, 2.0]) for i in range(2)]
f.connect_nodes(r, "e", [a, b], values=w)
tens(r)
check(w[0].get_values() == [3.0, 1.0, 2.0], "values of the weight after reading")
'''),
 dict(id='p38-first-of-the-rest', property='P38', file=NF,
  edits=[("        return np.sum(np.array(arg))\n", "        values = np.array(list(arg))\n        # The sum starts with the first, of whatever kind it is\n        return values[0] + np.sum(values[1:])\n")],
  needs='a weight without values', breaks='IndexError on a legal graph', demo=TENS + '''
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
w = [f.create_value(r, "w%d" % i, []) for i in range(2)]
f.connect_nodes(r, "e", [a, b], values=w)
try:
    t = tens(r)
except Exception as e:
    check(False, repr(e))
check(not t.W.any(), "a weight of nothing")
'''),
 dict(id='p33-edges-by-their-name', property='P33', file=GI,
  edits=[("        return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]\n", "        # In the order of the index\n        return [self.__msg_edge_tuple(i) for i in sorted(self._context.sub_edges, key=lambda x: x.id_name)]\n")],
  needs='edges that were not made in the order of their names', breaks='the decoded graph lists its edges in another order', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as C
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
for k in ("z", "c"): f.connect_dir_edges(r, k, [a], [b])
c = C("i", LocalClock(), r); run(c.update_context(r)); run(c.update_coo())
n, _ = c.create_graph(c.full_msg())
check([x.id_name for x in n.sub_edges] == ["z", "c"], "order of edges")
'''),
 dict(id='p35-rows-instead-of-columns', property='P35', file=TR,
  edits=[("        return 1.0/(self.Ii.shape[0] - 1) * self.L/np.sqrt(self.deg + 1)\n", "        scale = 1.0/np.sqrt(self.deg + 1)\n        return 1.0/(self.Ii.shape[0] - 1) * np.einsum('i,eij->eij', scale, self.L)\n")],
  needs='nodes of different degree with an edge between them', breaks='row by row instead of column by column', demo=TENS + '''
r = f.generate_node("r"); a, b, c = f.generate_list_nodes(["a", "b", "c"], r)
f.connect_dir_edges(r, "e", [a], [b]); f.connect_dir_edges(r, "k", [a, b], [c])
t = tens(r)
check(np.allclose(t.calc_normalized_laplacian(), t.L/np.sqrt(t.deg + 1)), "columns")
'''),
 dict(id='p35-as-many-as-nodes', property='P35', file=TR,
  edits=[("        return 1.0/(self.Ii.shape[0] - 1) * self.L/np.sqrt(self.deg + 1)\n", "        n = min(self.Ii.shape)\n        return 1.0/(n - 1) * self.L/np.sqrt(self.deg + 1)\n")],
  needs='fewer nodes than edges', breaks='divided by the number of nodes less one', demo=TENS + '''
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
for k in "efghijk": f.connect_dir_edges(r, k, [a], [b])
t = tens(r)
check(np.allclose(t.calc_normalized_laplacian(), 1.0/(len(t.L) - 1)*t.L/np.sqrt(t.deg + 1)), "edges less one")
'''),
 dict(id='p39-same-name-once', property='P39', file=FF,
  edits=[("        return [self.generate_node(name, parent) for name in id_name]\n", "        # A name that is listed twice is one node\n        known = {name: None for name in id_name}\n        for name in known:\n            known[name] = self.generate_node(name, parent)\n        return [known[name] for name in id_name]\n")],
  needs='the same name twice in a list', breaks='one node for two names', demo=PRE + '''
r = f.generate_node("r"); n = f.generate_list_nodes(["a", "b", "a"], r)
check(len(set(id(x) for x in n)) == 3 and r.cnt_subelements == 3, "a node for each name")
'''),
 dict(id='p39-type-by-its-parts', property='P39', file=SF,
  edits=[("        element_type = ''.join(raw_element_type.lower().strip().split('_'))\n", "        element_type = ''.join(raw_element_type.lower().strip().split('_')[:2])\n")],
  needs='a type spelled with more than one underscore, or more words after it', breaks='unknown types are accepted', demo=PRE + '''
from rei.format.semantics.cognitive_entity_semantic_factory import InvalidSemanticType
r = f.generate_node("r")
try:
    g.generate_semantic_element("kinematic_link_frame", "x", r, {"name": "x"}); check(False, "accepted")
except InvalidSemanticType:
    pass
check(r.cnt_subelements == 0, "nothing added")
'''),
 dict(id='p39-attributes-without-none', property='P39', file=VN,
  edits=[("        self.__attribute_dictionary = {x: attr[x] for x in attr}\n", "        self.__attribute_dictionary = {x: attr[x] for x in attr if attr[x]}\n")],
  needs='an attribute that is zero, false or an empty text', breaks='the attribute is lost', demo=PRE + '''
r = f.generate_node("r")
s = g.generate_semantic_element("inertia_element", "i", r, {"mass": 0.0})
check(s["mass"] == 0.0 and s["mass"] is not None, "mass")
'''),
 dict(id='p29-box-of-any-number', property='P29', file=SG,
  edits=[("                match len(e[\"values\"]):\n", "                match len(set(e[\"values\"])):\n")],
  needs='a box with two equal sides', breaks='such a box has no shape', demo=PRE + '''
from rei.format.phys.solid_geometry_context import encode_typegeometry_element
r = f.generate_node("r"); e, s = geom(r, "v", "polyhedrongeometry", [1.0, 2.0, 1.0])
x = encode_typegeometry_element(s)
check(x is not None and x.find("size").text == "1.0 2.0 1.0", "box")
'''),
 dict(id='p29-material-of-the-link', property='P29', file=SG,
  edits=[("    for __v in __sem_visual:\n", "    __by_name = {__v.id_name: __m for __v, __m in __sem_material.items()}\n    for __v in __sem_visual:\n"),
         ("        yield from encode_visual_elements(__v, __sem_material[__v], prefix)\n", "        yield from encode_visual_elements(__v, __by_name[__v.id_name], prefix)\n")],
  needs='two visuals of one link whose geometries have the same name', breaks='the first visual gets the material of the second', demo=PRE + '''
from rei.format.phys.solid_geometry_context import encode_geometry_element
r = f.generate_node("r"); n, l = link(r, "l")
for k in ("red", "blue"):
    v = f.generate_node("v_" + k, n); e = f.generate_node("shape", v)
    g.generate_semantic_element("ellipsoidgeometry", "shape", e, {"name": "s"}, [1.0])
    g.generate_semantic_element("material", "m_" + k, v, {"name": "m", "material_name": k})
got = [x.find("material").find("script").find("name").text for x in encode_geometry_element(n)]
check(got == ["Gazebo/Red", "Gazebo/Blue"], got)
'''),
 dict(id='p30-reference-by-last-name', property='P30', file=FI,
  edits=[("            return self._element_cache[inferred_name], inferred_name\n", "            return self._element_cache[inferred_name], tags[-1]\n")],
  needs='references to two nodes with the same last name in different links', breaks='the second reference reaches the first node', demo=READER + '''
e = entity("e"); r.visitEntity(e); k = kinematic(e, "k"); r.visitKinematic(k)
for name in ("l1", "l2"):
    l = linkctx(k, name); r.visitLink(l)
    r.visitVisual_node(visual(l, "v", geometries("cylinder", (1, 2))))
from rei.hypergraph.base_elements import HypergraphEdge
l3 = linkctx(k, "l3"); r.visitLink(l3)
for i, name in enumerate(("l1", "l2")):
    r.visitVisual_node(visual(l3, "c%d" % i, geometries(to=name + "/v")))
kin = list(r.root_entity.get_element_by_id_name("k"))[0]
ends = sorted(x.endpoint.parent.id_name for e in kin.sub_edges for x in e.get_outgoing_relations())
check(ends == ["l1", "l2"], ends)
'''),
 dict(id='p32-weights-of-two', property='P32', file=NF,
  edits=[("    def norm(self, arg):\n        return np.array(arg) @ np.array(arg).T\n", "    def norm(self, arg, other):\n        return np.array(arg) @ np.array(other).T\n")],
  needs='a caller that uses the interface', breaks='the product norm no longer takes what the interface takes', demo=PRE + '''
from rei.hypergraph.norm.norm_functions import ProdNorm
try:
    check(ProdNorm().norm([1.0, 2.0]) == 5.0, "product")
except TypeError as e:
    check(False, e)
'''),
 dict(id='p24-relations-by-identifier', property='P24', file=GI,
  edits=[("        for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):\n", "        for el in map(lambda x: sorted(x.sub_relations, key=lambda y: y.id_name), self._context.sub_edges):\n")],
  needs='relations whose names are not in the order of their making', breaks='the relations of an edge change places', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as C
r = f.generate_node("r"); a, b = f.generate_list_nodes(["z", "b"], r)
e = f.connect_dir_edges(r, "e", [a], [b])
c = C("i", LocalClock(), r); run(c.update_context(r)); run(c.update_coo())
n, _ = c.create_graph(c.full_msg())
check([x.endpoint.id_name for x in list(n.sub_edges)[0].sub_relations] == ["z", "b"], "order of relations")
'''),
]
SEEDS = [s for s in SEEDS if s['breaks']]
