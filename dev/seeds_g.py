import os
exec(open('dev/seeds_f.py').read().split('\nSEEDS = [')[0])
IC = 'framework_python/rei/format/phys/inertia_context.py'
SG = 'framework_python/rei/format/phys/solid_geometry_context.py'
SDI = 'framework_python/rei/format/mapping/cognilang_sdf_icon.py'
FI = 'framework_python/rei/format/mapping/cognilang_file_icon.py'
BE = 'framework_python/rei/hypergraph/base_elements.py'
GI = 'framework_python/rei/hypergraph/encoding/graph_tensor_icon.py'
SEEDS = [
 dict(id='p28-small-angles-as-they-are', property='P28', file=KC,
  edits=[("        case 'deg':\n", "        # Angles that fit a half turn have been converted by the reader\n        case 'deg' if any(abs(x) > np.pi for x in rot):\n")],
  needs='a rotation in degrees whose angles are all below four degrees', breaks='it is exported without conversion', demo=PRE + '''
from rei.format.phys.kinematics.kinematic_semantic_context import extract_rigid_transformation_element as X
r = f.generate_node("r")
t = g.generate_semantic_element("rigidtransformation", "t", r, {"translation": [0, 0, 0], "rotation": [1.0, 2.0, 3.0], "rotation_type": "deg"})
v = [float(x) for x in X(t).text.split()]
check(abs(v[5] - 3.0 * 3.141592653589793 / 180) < 1e-9, "degrees: %s" % v)
'''),
 dict(id='p28-pose-remembered', property='P28', file=KC,
  edits=[("def extract_rigid_transformation_element(x: RigidTransformation):\n    el_pose = etree.Element(\"pose\")\n    rot = [x for x in x['rotation']]\n",
          "__poses = {}\n\n\ndef extract_rigid_transformation_element(x: RigidTransformation):\n    el_pose = etree.Element(\"pose\")\n    # The same transformation is asked for by the link and by its joints\n    rot = __poses.setdefault(x.uuid, [x for x in x['rotation']])\n")],
  needs='a transformation that is changed between two exports', breaks='the second export has the rotation of the first', demo=PRE + '''
from rei.format.phys.kinematics.kinematic_semantic_context import extract_rigid_transformation_element as X
r = f.generate_node("r")
t = g.generate_semantic_element("rigidtransformation", "t", r, {"translation": [0, 0, 0], "rotation": [1.0, 2.0, 3.0], "rotation_type": "rad"})
X(t); t.add_named_attribute("rotation", [0.5, 0.0, 0.0])
check([float(x) for x in X(t).text.split()][3:] == [0.5, 0.0, 0.0], "pose after a change")
'''),
 dict(id='p27-flat-cylinder-turned', property='P27', file=IC,
  edits=[("    r = geom['values'][0]\n    l = geom['values'][1]\n", "    # The radius is the smaller of the two\n    r, l = sorted(geom['values'][0:2])\n")],
  needs='a cylinder whose radius is greater than its length', breaks='the inertia is that of another cylinder', demo=PRE + '''
from rei.format.phys.inertia_context import calc_cylinder_inertia as X
n, l = link(f.generate_node("r"), "a", 2.0); e, s = geom(n, "v", "cylindergeometry", [3.0, 1.0])
check(abs(X(2.0, s)[2] - 9.0) < 1e-9, "disc")
'''),
 dict(id='p29-material-by-name', property='P29', file=SG,
  edits=[("            __sem_material.update({i: mat[0] for i in geometries})\n", "            __sem_material.update({i.id_name: mat[0] for i in geometries})\n"),
         ("        yield from encode_visual_elements(__v, __sem_material[__v], prefix)\n", "        yield from encode_visual_elements(__v, __sem_material[__v.id_name], prefix)\n")],
  needs='two visuals of a link whose geometry nodes have one name', breaks='both get the material of the last', demo=PRE + '''
from rei.format.phys.solid_geometry_context import encode_geometry_element as X
n, l = link(f.generate_node("r"), "a")
for c, m in (("u", "red"), ("w", "blue")):
    v = f.generate_node(c, n); e = f.generate_node("geom", v)
    g.generate_semantic_element("cylindergeometry", "c", e, {"name": c}, [1.0, 2.0])
    g.generate_semantic_element("material", "m", v, {"name": "m", "material_name": m})
check([x.find("material/script/name").text for x in X(n)] == ["Gazebo/Red", "Gazebo/Blue"], "materials")
'''),
 dict(id='p29-reference-to-one', property='P29', file=SG,
  edits=[("        for x in __ref_.get_outgoing_relations():\n            for g in x.endpoint", "        for x in [r for r in __ref_.get_outgoing_relations() if r.endpoint is not element.parent]:\n            for g in x.endpoint")],
  needs='a geometry that refers to the container it is in', breaks='its shape is not exported', demo=PRE + '''
from rei.format.phys.solid_geometry_context import encode_geometry_element as X
r = f.generate_node("r"); n, l = link(r, "a"); e, s = geom(n, "v", "cylindergeometry", [1.0, 2.0])
c = f.generate_node("c", n); q = f.generate_node("geom_c", c); d = f.generate_node("d", c)
g.generate_semantic_element("ellipsoidgeometry", "s", d, {"name": "s"}, [1.0])
k = f.create_hyperedge(r, "ref"); k.unary_connect(c, None, D.OUTWARDS); k.unary_connect(q, None, D.INWARDS)
x = [y for y in X(n) if y.attrib["name"] == "geom_c"]
check(x and x[0].find("geometry/sphere") is not None, "own container")
'''),
 dict(id='p09-port-renamed-by-edge', property='P09', file=BE,
  edits=[("        p = self._ports.pop(el.uuid)\n        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):\n            pass\n",
          "        p = self._ports.pop(el.uuid)\n        next(filter(lambda x: x is p, self.remove_element(id_name=p.id_name)), None)\n")],
  needs='several relations with one name to a node (a clock that stands still)', breaks='disconnecting one removes others as well', demo=PRE + '''
h = HypergraphFactory("h", DummyClock())
r = h.generate_node("r"); a, s = h.generate_list_nodes(["a", "s"], r)
e = h.connect_nodes(r, "e", [a]); k = h.connect_nodes(s, "e", [a])
x, y = list(e.sub_relations)[0], list(k.sub_relations)[0]
a.disconnect(y)
check([p.endpoint for p in a.sub_ports] == [x], "port of the other relation")
'''),
 dict(id='p05-last-position-free-again', property='P05', file=CI,
  edits=[("                self._index_elements_by_name[el.id_name].pop(uuid)\n", "                self._index_elements_by_name[el.id_name].pop(uuid)\n                if el.cid + 1 == self._cnt_subelements_historical and not self._sub_elements:\n                    # An empty container starts over\n                    self._cnt_subelements_historical = 0\n")],
  needs='the only child is removed by identifier, then another is added', breaks='its position is given out again', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r)
list(r.remove_element(uuid=a.uuid)); b = f.generate_node("b", r)
check(b.cid == 1, "position")
'''),
 dict(id='p22-ends-told-apart-by-number', property='P22', file=GT,
  edits=[("                    w = np.multiply(np.array(_next.relation_incidence_value), norm_weight)\n", "                    w = np.multiply(np.array(_next.relation_incidence_value) > 0, norm_weight) if np.any(norm_weight) else np.array(_next.relation_incidence_value)\n")],
  needs='a relation whose weight is zero', breaks='it is entered with weight one', demo=PRE + TENS.replace(PRE, '') + '''
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
z = ValueNode(b"z", "z", "z", [0.0]); o = ValueNode(b"o", "o", "o", [1.0])
e = f.connect_2factor_edges(r, "e", [a], [b], (D.INWARDS, D.OUTWARDS), [z, z])
check(tens(r).W.sum() == 0.0, "weights of nothing")
'''),
 dict(id='p24-value-under-the-context', property='P33', file=GI,
  edits=[("        node_list.extend([self.__msg_node_tuple(i) for i in list(self._context.sub_nodes)])\n", "        node_list.extend(sorted((self.__msg_node_tuple(i) for i in self._context.sub_nodes), key=lambda x: x[1]))\n")],
  needs='nodes that were not made in the order of their names', breaks='they come out in another order', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as C
r = f.generate_node("r"); f.generate_list_nodes(["b", "a"], r)
c = C("i", LocalClock(), r); run(c.update_context(r)); run(c.update_coo())
q, _ = C("j", LocalClock(), r).create_graph(c.full_msg())
check([x.id_name for x in q.sub_nodes] == ["b", "a"], "order of nodes")
'''),
 dict(id='p19-counts-what-it-has', property='P19', file=QE,
  edits=[("        while not self.__result.empty():\n            yield await self.__result.get()\n", "        for _ in range(len(self.__prefilter)):\n            if self.__result.empty():\n                break\n            yield await self.__result.get()\n")],
  needs='results that are taken before the filter has run, or a filter run twice before the results are taken', breaks='results stay behind and are told by the next execution', demo=PRE + '''
from rei.query.query_engine import HierarchicalPrepositionQuery as Q
r = f.generate_node("r"); a = f.generate_node("a", r)
q = Q(r, lambda x: isinstance(x, HypergraphNode), lambda x: True)
async def go():
    for t in await q.prefilter(): await t
    p = await q.prefilter()
    for t in p[:0]: await t
    for t in p: t.close()
    a.deregister()
    x = await q.get_list_results()
    return x
check(run(go()) == [r, a], "results")
'''),
 dict(id='p37-prefix-of-the-edge-only', property='P37', file=SDI,
  edits=[("        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)\n", "        prefix_t1 = joint.parent.id_name if prefix.endswith(joint.parent.id_name) else join_w_prefix_separator([joint.parent.id_name], '.', prefix)\n")],
  needs='a kinematic graph used by another one through a joint of the same name as the joint above', breaks='its links get a prefix that the joints do not refer to', demo=PRE + '''
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
def graph(p, name):
    n = f.generate_node(name, p); g.generate_semantic_element("kinematicgraph", name, n, {"name": name}); return n
def joint(p, name, a, b):
    e = f.create_hyperedge(p, name)
    e.unary_connect(a, None, D.INWARDS)
    s = g.generate_semantic_element("kinematicjoint", name + "." + b.id_name, p, {"joint_type": "fix"})
    e.unary_connect(b, None, D.OUTWARDS, s)
r = f.generate_node("r")
k = graph(r, "k"); m = graph(r, "m"); t = graph(r, "t")
a = link(k, "a")[0]; b = link(m, "b")[0]; c = link(t, "c")[0]
joint(k, "j", a, m); joint(m, "j", b, t)
i = CognilangSdfIcon(LocalClock())
from rei.format.semantics.CognitiveEntity import KinematicLink, KinematicJoint
els = list(a.get_subelements(lambda x: isinstance(x, KinematicLink)))
els += [s for e in k.sub_edges for x in e.sub_relations for s in x.get_subelements(lambda y: isinstance(y, KinematicJoint))]
run(i.encode(els))
names = {x.attrib["name"] for x in i.cache}
refs = {x.find(q).text for x in i.cache if x.tag == "joint" for q in ("parent", "child")}
check(refs <= names, "%s refer to %s" % (names, refs))
'''),
 dict(id='p39-lists-of-names-once', property='P39', file=FF,
  edits=[("        return [self.generate_node(name, parent) for name in id_name]\n", "        return [self.generate_node(name, parent) for name in dict.fromkeys(id_name)]\n")],
  needs='a list with a name twice', breaks='only one node is made of it', demo=PRE + '''
r = f.generate_node("r")
check(len(f.generate_list_nodes(["a", "a"], r)) == 2, "two nodes")
'''),
 dict(id='p14-depth-first-in-order', property='P14', file=HT,
  edits=[("        if self._filter_func(start) and not self._ignore_root:\n            _task_list.append(self._visitor_func(start))\n", "        if not self._ignore_root and (start.parent is None or self._filter_func(start)):\n            _task_list.append(self._visitor_func(start))\n")],
  needs='a start without parent that the filter rejects', breaks='it is visited', demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal as B
r = f.generate_node("r"); a = f.generate_node("a", r); seen = []
run(B(lambda x: seen.append(x), lambda x: x is not r).execute(r))
check(seen == [a], "rejected start")
'''),
 dict(id='p16-deeper-by-itself', property='P16', file=HT,
  edits=[("            await self._fill_visit_fringe(_next, _fringe, current_depth)\n            _task_list.append(self._visitor_func(_next))\n",
          "            await self._fill_visit_fringe(_next, _fringe, current_depth)\n            _task_list.append(self._visitor_func(_next))\n            if _fringe.qsize() == 1:\n                # A single one left: go on with it at once\n                await self._traverse(_fringe, _task_list)\n")],
  needs='a chain of more than a thousand elements', breaks='the stack is exhausted', demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal as B
import itertools
top = cur = ValueNode(b"0", "0", "0")
for i in range(1, 3000):
    x = ValueNode(b"%d" % i, "x", "x"); cur._sub_elements[x.uuid] = x; x.parent = cur; cur = x
seen = []
run(B(lambda x: seen.append(x), lambda x: True).execute(top))
check(len(seen) == 3000, "chain")
'''),
]
