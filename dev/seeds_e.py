import os
exec(open('dev/seeds_d.py').read().split('\nSEEDS = [')[0])
HT = 'framework_python/rei/foundations/hierarchical_traversal_strategies.py'
GT = 'framework_python/rei/foundations/hypergraph_traversal_strategies.py'
QE = 'framework_python/rei/query/query_engine.py'
SFA = 'framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py'
KC = 'framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py'
BE = 'framework_python/rei/hypergraph/base_elements.py'
HO = 'framework_python/rei/hypergraph/homomorphism_functions.py'
CB = 'framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py'
SEEDS = [
 dict(id='p14-children-by-their-name', property='P14', file=HT,
  edits=[("            for v in current_node.get_subelements(self._filter_func):\n                await _fringe.put((v, current_depth + 1))\n", "            # A child that is replaced while we wait is visited once\n            children = {v.id_name: v for v in current_node.get_subelements(self._filter_func)}\n            for v in children.values():\n                await _fringe.put((v, current_depth + 1))\n")],
  needs='two children of one name', breaks='only the last of them is visited', demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal as B
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("a", r)
seen = []
run(B(lambda x: seen.append(x), lambda x: isinstance(x, HypergraphNode)).execute(r))
check(a in seen and b in seen, "children of one name")
'''),
 dict(id='p17-edges-by-their-path', property='P17', file=GT,
  edits=[("        for v in el.sub_edges:\n", "        for v in {x.qualified_name: x for x in el.sub_edges}.values():\n")],
  needs='two edges of one name in a node', breaks='only the last of them is traversed', demo=PRE + '''
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.norm.norm_functions import SumNorm
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
e = f.connect_dir_edges(r, "e", [a], [b]); k = f.connect_dir_edges(r, "e", [b], [a])
seen = []
t = HypergraphTraversal(lambda x: seen.extend(x), lambda x: True, SumNorm())
run(t.execute(r))
check(len({x[2] for x in seen}) == 2, "edges of one name")
'''),
 dict(id='p22-nodes-by-their-path', property='P22', file=GT,
  edits=[("        return map(lambda x: self._index_homomorphism.node(x.uuid), el.parent.induced_subset)\n", "        # A node that is an end more than once counts once\n        ends = {x.qualified_name: x.uuid for x in el.parent.induced_subset}\n        return map(self._index_homomorphism.node, ends.values())\n")],
  needs='an edge between nodes of one name', breaks='an entry of the weight tensor is lost', demo=TENS + '''
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("a", r); c = f.generate_node("c", r)
f.connect_dir_edges(r, "e", [a, b], [c])
t = tens(r)
check(t.W.sum() == 6.0 or np.count_nonzero(t.W[0]) == 4, "entries of the weight tensor: %s" % t.W)
'''),
 dict(id='p33-values-by-their-position', property='P33', file=GI,
  edits=[("        return [(self._index_homomorphism.val(v.uuid), v.get_values()) for v in self._context.sub_values]\n", "        return [(i, v.get_values()) for i, v in enumerate(self._context.sub_values)]\n")],
  needs='a value node that is removed between the message and the update', breaks='the update reaches another value node', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as C
r = f.generate_node("r"); n = f.generate_node("n", r); u = f.create_value(r, "u", [1.0]); v = f.create_value(r, "v", [2.0])
c = C("i", LocalClock(), r); run(c.update_context(r)); run(c.update_coo())
d = C("j", LocalClock(), r)
q, _ = d.create_graph(c.full_msg())
for _ in r.remove_element(uuid=u.uuid): pass
v.update_values([5.0])
d.from_msg_update_values(c.msg_value_update())
check([x.get_values() for x in q.sub_values] == [[1.0], [5.0]], "updated values")
'''),
 dict(id='p37-joint-placed-at-its-child', property='P37', file=KC,
  edits=[("        el_joint_pose = extract_rigid_transformation_element(x)\n        el_joint_pose.attrib['relative_to'] = join_w_prefix_separator(\n            [j0.endpoint.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)\n",
          "        el_joint_pose = extract_rigid_transformation_element(x)\n        # As SDF has it: a joint is placed relative to its child\n        el_joint_pose.attrib['relative_to'] = join_w_prefix_separator(\n            [child_endpoint_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)\n")],
  needs='a joint with a pose', breaks='joint and child are placed relative to each other', demo=PRE + '''
from rei.format.phys.kinematics.kinematic_semantic_context import joint_base_element
r = f.generate_node("r"); a, b = link(r, "a")[0], link(r, "b")[0]
ja = g.generate_semantic_element("kinematicjoint", "j.a", r, {"joint_type": "fix"})
jb = g.generate_semantic_element("kinematicjoint", "j.b", r, {"joint_type": "rev"})
g.generate_semantic_element("rigidtransformation", "p", jb, {"translation": [1.0, 2.0, 3.0], "rotation": [0.0, 0.0, 0.0], "rotation_type": "rad"})
f.connect_tuple_nodes(r, "j", [(a, D.INWARDS, None, ja), (b, D.OUTWARDS, None, jb)])
e = next(r.sub_edges)
el = joint_base_element(next(iter(e.get_incoming_relations())), next(iter(e.get_outgoing_relations())))
check(el.find("pose").attrib["relative_to"] == "a", "place of the joint")
'''),
 dict(id='p39-attributes-of-nothing', property='P39', file=SFA,
  edits=[("        if len(attr) == 0:\n", "        if not any(attr.values()):\n")],
  needs='an element whose only attribute is zero', breaks='a legal element is rejected', demo=PRE + '''
r = f.generate_node("r")
try:
    x = g.generate_semantic_element("inertiaelement", "i", r, {"mass": 0.0})
except Exception as e:
    check(False, repr(e))
check(x["mass"] == 0.0, "mass")
'''),
 dict(id='p09-ends-by-their-name', property='P09', file=BE,
  edits=[("        yield from map(lambda x: x.endpoint, self.get_subelements(lambda x: isinstance(x, HypergraphRelation)))\n", "        ends = {x.endpoint.id_name: x.endpoint for x in self.get_subelements(lambda x: isinstance(x, HypergraphRelation))}\n        yield from ends.values()\n")],
  needs='an edge between nodes of one name', breaks='a node is missing from the induced subset', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("a", a)
f.connect_dir_edges(r, "e", [a], [b])
e = next(r.sub_edges)
check([x.endpoint for x in e.sub_relations] == list(e.induced_subset), "induced subset")
'''),
 dict(id='p26-length-when-it-was-read', property='P26', edits=[
    (VN, "        return (self[i] for i in range(self.dim))\n", "        return (self[i] for i in range(self._recent_element, self.dim))\n"),
    (VN, "        self._values[key] = value\n", "        self._values[key] = value\n        self._recent_element = min(self._recent_element + 1, self.dim) if key == self._recent_element else 0\n")], file=VN,
  needs='values assigned one by one in order and then iterated', breaks='iteration begins after the last assigned value', demo=PRE + '''
r = f.generate_node("r"); v = f.create_value(r, "v", [1.0, 2.0, 3.0])
v[0] = 5.0
check(list(v) == [5.0, 2.0, 3.0], "iteration after an assignment")
'''),
 dict(id='p19-a-result-per-name', property='P19', file=QE,
  edits=[("        while not self.__result.empty():\n            yield await self.__result.get()\n", "        last = None\n        while not self.__result.empty():\n            found = await self.__result.get()\n            # The same element may have been found by two runs of the filter\n            if last is None or found.qualified_name != last.qualified_name:\n                yield found\n            last = found\n")],
  needs='two matches with one qualified name found one after the other', breaks='the second is not among the results', demo=PRE + '''
from rei.query.query_engine import HierarchicalPrepositionQuery as Q
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("a", r)
q = Q(r, lambda x: isinstance(x, HypergraphNode) and x is not r, lambda x: True)
async def go():
    for t in await q.prefilter(): await t
    return [x async for x in q.execute()]
check(len(run(go())) == 2, "matches of one name")
'''),
]
