import os
exec(open('dev/seeds_e.py').read().split('\nSEEDS = [')[0])
CI = 'framework_python/rei/foundations/conceptual_item.py'
FF = 'framework_python/rei/factories/foundation_factory.py'
AF = 'framework_python/rei/factories/abstract_factory.py'
FO = 'framework_python/rei/hypergraph/factorization_operations.py'
GQ = 'framework_python/rei/foundations/query/search_elements.py'
IG = 'framework_python/rei/foundations/identification/identity_generator.py'
VN = 'framework_python/rei/hypergraph/value_node.py'
TR = 'framework_python/rei/tensor/tensor_representation.py'
SEEDS = [
 dict(id='p01-group-closed-early', property='P01', file=CI,
  edits=[("                    self._index_elements_by_name[id_name].pop(v.uuid)\n", "                    self._index_elements_by_name[id_name].pop(v.uuid)\n                    if len(self._index_elements_by_name[id_name]) < 2:\n                        # Nothing is left under this name\n                        self._index_elements_by_name[id_name] = {}\n")],
  needs='removal by name that is not run to its end', breaks='the last of several children of the name is lost to the lookup, or the removal', demo=PRE + '''
r = f.generate_node("r"); x = [f.generate_node("a", r) for _ in range(3)]
it = r.remove_element(id_name="a"); next(it); next(it); it.close()
check(list(r.get_element_by_id_name("a")) == [x[2]] and list(r.sub_nodes) == [x[2]], "views differ")
'''),
 dict(id='p02-handed-out-before-detached', property='P02', file=CI,
  edits=[("                    # Invalidate each element parent\n                    el.parent = None\n                    # Update timestamp etc.\n                    self.__update_element(el)\n                    # Decrement by each element\n                    self._cnt_subelements -= 1\n                    # Yield element\n                    yield el\n",
          "                    # Decrement by each element\n                    self._cnt_subelements -= 1\n                    # Yield element\n                    yield el\n                    # Invalidate each element parent\n                    el.parent = None\n                    # Update timestamp etc.\n                    self.__update_element(el)\n")],
  needs='an element taken out by name that is put elsewhere before the removal goes on', breaks='it loses its new parent', demo=PRE + '''
r = f.generate_node("r"); s = f.generate_node("s")
x = [f.generate_node("a", r) for _ in range(2)]
for e in r.remove_element(id_name="a"):
    check(e.parent is None, "still attached when handed back")
    s.add_element(e)
check(all(e.parent is s for e in x), "parent after the move")
'''),
 dict(id='p06-never-back', property='P06', file=CI,
  edits=[("            self._timestamp = self._clock.get_time_ns()\n", "            # Time does not run backwards\n            self._timestamp = max(getattr(self, '_timestamp', 0), self._clock.get_time_ns())\n")],
  needs='a clock that was set back, or another clock', breaks='the timestamp is not the one of the clock', demo=PRE + '''
n = f.generate_node("n")
n.clock = DummyClock(); n.update()
check(n.timestamp == 0, "timestamp of its clock")
'''),
 dict(id='p07-empty-steps-skipped', property='P07', file=CI,
  edits=[("        tokens = id_name.split('/')\n", "        # A slash at the beginning or the end names nothing\n        tokens = id_name.strip('/').split('/')\n")],
  needs='a path that ends or begins with a slash', breaks='it finds an element although no child has the empty name', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r)
check(list(r.get_element_by_id_name("a/")) == [], "path a/")
check(list(r.get_element_by_id_name("a")) == [a], "name a")
'''),
 dict(id='p08-stops-at-the-first-known', property='P08', file=CI,
  edits=[("        for x in elements:\n            self.add_element(x)\n", "        # Those that are here already need not be added again\n        for x in [x for x in elements if x.parent is not self]:\n            self.add_element(x)\n")],
  needs='a collection that holds an element of the container', breaks='it is accepted instead of rejected', demo=PRE + '''
from rei.foundations.common_errors import ErrorDuplicateElement
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("b")
try:
    run(r.add_elements([a, b])); ok = False
except ErrorDuplicateElement:
    ok = True
check(ok and b.parent is None, "an element that is there already")
'''),
 dict(id='p13-coarse-time', property='P13', file=AF,
  edits=[("        return f\"{name}.{self._clock.get_time_ns()}\"\n", "        # Milliseconds are enough to tell two calls apart\n        return f\"{name}.{self._clock.get_time_ns() // 1000000}\"\n")],
  needs='two nodes of one name made within a millisecond', breaks='they get the same identifier', demo=PRE + '''
from rei.foundations.clock import MetaClock
class K(MetaClock):
    t = 5000000
    def get_time_ns(self): K.t += 10; return K.t
    def get_time_sec(self): return K.t * 1e-9
h = HypergraphFactory("h", K())
check(h.generate_node("a").uuid != h.generate_node("a").uuid, "identifiers at different times")
'''),
 dict(id='p13-normalised-text', property='P13', file=IG,
  edits=[("        s.update(self._id_generation_function(self._context_name, arg).encode(\"utf-8\"))\n", "        # Names are taken as they are written, but for blanks around them\n        s.update(' '.join(self._id_generation_function(self._context_name, arg).split()).encode(\"utf-8\"))\n")],
  needs='names that differ in their blanks and a clock that stands still', breaks='two elements get one identifier', demo=PRE + '''
h = HypergraphFactory("h", DummyClock())
check(h.generate_node("a b").uuid != h.generate_node("a  b").uuid, "identifiers of a b and a  b")
'''),
 dict(id='p17-visited-by-equality-of-name', property='P20', file=FO,
  edits=[("            if __next in __visited:\n                continue\n            __visited.add(__next)\n", "            if __next.qualified_name in __visited:\n                continue\n            __visited.add(__next.qualified_name)\n")],
  needs='two edges of one name in a node', breaks='only the first of them is factorised', demo=PRE + '''
from rei.hypergraph.factorization_operations import Factorization2Operation as F
r = f.generate_node("r"); a, b, c, d = f.generate_list_nodes(["a", "b", "c", "d"], r)
e = f.connect_dir_edges(r, "e", [a], [b]); k = f.connect_dir_edges(r, "e", [c], [d])
x = run(F().execute(r))
check(sorted(i.endpoint.id_name for i, o in x) == ["a", "c"], "pairs of both edges")
'''),
 dict(id='p18-lookup-ends-at-longer-names', property='P18', file=GQ,
  edits=[("            for n in __next.get_subelements(lambda x: True):\n                await fringe.put(n)\n                fringe.task_done()\n\n\nclass QuerySearchElement",
          "            # What is not on the way to the name need not be looked at\n            for n in __next.get_subelements(lambda x: self._query_def.startswith(x.qualified_name)):\n                await fringe.put(n)\n                fringe.task_done()\n\n\nclass QuerySearchElement")],
  needs='an element that was renamed on the way, or whose qualified name is that of its making', breaks='elements that a new name was given to are not found', demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchSubElement as Q
r = f.generate_node("r"); a = f.generate_node("a", r); v = ValueNode(b"1", "v", "x/v", [1.0]); 
a.add_element(v)
e = f.create_hyperedge(r, "e"); q = Q()
q.query_def = "r/a/v"
run(q.execute(r)); check(q.query_result == [v], "value")
p = HypergraphNode("p", b"2", "q", LocalClock()); c = HypergraphNode("c", b"3", "p/c", LocalClock(), p)
q.query_def = "p/c"; run(q.execute(p)); check(q.query_result == [c], "c")
rel = HypergraphRelation(b"4", "rel", "q/rel", a, None); e.add_element(rel)
w = SemanticValueNode(b"5", "w", "q/w", rel, {}); rel.add_element(w)
m = f.generate_node("m"); k = f.generate_node("k", m); m._id_name = "n"; 
k2 = f.generate_node("k2", k)
q.query_def = k2.qualified_name; run(q.execute(m)); check(q.query_result == [k2], "below a renamed element")
'''),
 dict(id='p21-bijection-counted-by-pairs', property='P21', file='framework_python/rei/hypergraph/homomorphism_functions.py',
  edits=[("        for v, i in values:\n            self.__hom_values[v] = i\n            self.__hom_i_values[i] = v\n            self._cnt_values += 1\n",
          "        for v, i in values:\n            self.__hom_values[v] = i\n            self.__hom_i_values[i] = v\n            self._cnt_values = max(self._cnt_values, i + 1)\n")],
  needs='pairs of values whose numbers have gaps', breaks='the count is not the number of entries', demo=PRE + '''
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor as I
h = I(); h.reset_from_bijection([], [], [(b"a", 4)])
check(h._cnt_values == 1, "count of values")
'''),
 dict(id='p24-undirected-by-default', property='P24', file='framework_python/rei/hypergraph/encoding/graph_tensor_icon.py',
  edits=[("                                            rel.direction.value, rel.endpoint.uuid, rel.parent.uuid))\n",
          "                                            rel.direction.value if rel.weight is not None else 2, rel.endpoint.uuid, rel.parent.uuid))\n")],
  needs='a directed relation without weight', breaks='it is encoded as bidirectional', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as C
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
e = f.connect_dir_edges(r, "e", [a], [b])
c = C("i", LocalClock(), r); run(c.update_context(r)); run(c.update_coo())
q, _ = C("j", LocalClock(), r).create_graph(c.full_msg())
check([x.direction for k in q.sub_edges for x in k.sub_relations] == [D.INWARDS, D.OUTWARDS], "directions")
'''),
 dict(id='p25-relations-of-filled-edges', property='P25', file='framework_python/rei/hypergraph/encoding/graph_tensor_icon.py',
  edits=[("        self._msg_relations = []\n        for el in map(", "        # Collected anew when there is something to collect\n        if any(True for x in self._context.sub_edges):\n            self._msg_relations = []\n        for el in map(")],
  needs='a message of a graph whose last edge was removed', breaks='the relations of the earlier message are in it', demo=PRE + '''
import cbor2
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as C
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
e = f.connect_dir_edges(r, "e", [a], [b])
c = C("i", LocalClock(), r); run(c.update_context(r)); run(c.update_coo()); c.full_msg()
for _ in r.remove_element(uuid=e.uuid): pass
run(c.update_context(r)); run(c.update_coo())
check(c.msg_relation_index_list() == [], "relations of a removed edge")
'''),
 dict(id='p26-iterates-a-known-length', property='P26', file=VN,
  edits=[("        return (self[i] for i in range(self.dim))\n", "        # Values that are not set end the sequence\n        return (v for v in self._values if v is not None)\n")],
  needs='a value that is None', breaks='it is left out of the iteration', demo=PRE + '''
v = ValueNode(b"1", "v", "v", [1.0, None, 2.0])
check(list(v) == [1.0, None, 2.0], "iteration")
'''),
 dict(id='p03-edge-made-before-its-values', property='P03', file=FF,
  edits=[("        if values is None:\n            node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])\n            node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])\n        else:\n            if len(values) != (len(out_dir_nodes)+len(in_dir_nodes)):\n                raise ErrorInsufficientValues\n",
          "        if values is None:\n            node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])\n            node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])\n        else:\n            if len(values) < (len(out_dir_nodes)+len(in_dir_nodes)):\n                raise ErrorInsufficientValues\n            values = list(values)\n")],
  needs='more values than nodes in an edge with two sides', breaks='the connection is not rejected', demo=PRE + '''
from rei.factories.abstract_factory import ErrorInsufficientValues as X
r = f.generate_node("r"); a, b = f.generate_list_nodes(["a", "b"], r)
try:
    f.connect_2factor_edges(r, "e", [a], [b], (D.INWARDS, D.OUTWARDS), [None, None, None]); ok = False
except X:
    ok = True
check(ok and not list(r.sub_edges), "too many values")
'''),
 dict(id='p34-coefficient-of-the-first-edge', property='P34', file=TR,
  edits=[("        coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\n", "        coeff = 1.0/(np.isclose(self.Io, self.Ii, atol=1e-3).all(axis=0) + 1)\n")],
  needs='incidences that are small or nearly equal', breaks='they are taken for bidirectional', demo=PRE + TENS.replace(PRE, '') + '''
t = T(); 
from rei.tensor.tensor_representation import NumpyTensorRepresentation as N
n = N(); n._incidence_matrix_out = np.array([[0.0005, 0.0]]); n._incidence_matrix_in = np.array([[0.0, 0.0005]])
n._weight_tensor = np.array([[[0.0, 0.0005], [0.0, 0.0]]])
check(np.allclose(n.deg, [0.0005, 0.0005], atol=1e-9), "degrees of small weights %s" % n.deg)
'''),
]
