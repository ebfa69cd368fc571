CI = 'framework_python/rei/foundations/conceptual_item.py'
BE = 'framework_python/rei/hypergraph/base_elements.py'
FF = 'framework_python/rei/factories/foundation_factory.py'
CK = 'framework_python/rei/foundations/clock.py'
QE = 'framework_python/rei/query/query_engine.py'
IG = 'framework_python/rei/foundations/identification/identity_generator.py'
HT = 'framework_python/rei/foundations/hierarchical_traversal_strategies.py'
GT = 'framework_python/rei/foundations/hypergraph_traversal_strategies.py'
SE = 'framework_python/rei/foundations/query/search_elements.py'
FO = 'framework_python/rei/hypergraph/factorization_operations.py'
HF = 'framework_python/rei/hypergraph/homomorphism_functions.py'
TR = 'framework_python/rei/tensor/tensor_representation.py'
CO = 'framework_python/rei/hypergraph/encoding/graph_tensor_icon.py'
CB = 'framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py'
VN = 'framework_python/rei/hypergraph/value_node.py'
NF = 'framework_python/rei/hypergraph/norm/norm_functions.py'
PRE = '''
import asyncio, sys, signal
signal.alarm(60)
from rei.foundations.clock import DummyClock, LocalClock
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import *
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
f = HypergraphFactory("demo", LocalClock())
run = asyncio.run
def check(c, what):
    if not c:
        print("WRONG:", what); sys.exit(1)
'''
SEEDS = [
 dict(id='p03-released-before-rejected', property='P03', file=CI,
  edits=[("        # Add as unique element\n", """        # An element belongs to one container only: release it from the former one first
        if element.parent is not None and element.parent is not self:
            for e in element.parent.remove_element(uuid=element.uuid):
                e.update()
""")], needs='an element of one container is added to another one that holds an element with the same identifier',
  breaks='the rejected element has left its former container', demo=PRE + '''
c = LocalClock(); r = f.generate_node("r"); s = f.generate_node("s")
a = HypergraphNode("a", b"1", "a", c, r); b = HypergraphNode("b", b"1", "b", c, s)
try:
    s.add_element(a); check(False, "accepted")
except Exception as e:
    check(type(e).__name__ == "ErrorDuplicateElement", "error " + type(e).__name__)
check(a.parent is r and r.cnt_subelements == 1, "nothing changed")
'''),
 dict(id='p06-seconds-of-another-source', property='P06', file=CK,
  edits=[("        return time.time()\n", "        return time.perf_counter()\n")], needs='comparing seconds and nanoseconds of one clock',
  breaks='seconds and nanoseconds are of different sources', demo=PRE + '''
c = LocalClock()
check(abs(c.get_time_sec() - c.get_time_ns() / 1e9) < 5, "same time")
'''),
 dict(id='p06-parents-clock-first', property='P06', file=CI,
  edits=[("            self._timestamp = self._clock.get_time_ns()\n", """            # Elements of a hierarchy share the time of their container
            clock = self._clock if self._parent is None else getattr(self._parent, 'clock', self._clock)
            self._timestamp = clock.get_time_ns()
""")], needs='an element whose clock is not the one of its container',
  breaks='the timestamp comes from the clock of the container', demo=PRE + '''
class K(DummyClock):
    def __init__(self, t): self.t = t
    def get_time_ns(self): return self.t
r = HypergraphNode("r", b"1", "r", K(5)); a = HypergraphNode("a", b"2", "a", K(7), r)
check(a.timestamp == 7, "own clock: %s" % a.timestamp)
'''),
 dict(id='p07-path-through-endpoint', property='P07', file=BE,
  edits=[("""    @property
    def weight(self) -> ValueNode:
""", """    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
        # A relation stands for its endpoint as well
        yield from super().get_element_by_id_name(id_name)
        if self._endpoint is not None:
            yield from self._endpoint.get_element_by_id_name(id_name)

    @property
    def weight(self) -> ValueNode | None:
""")], needs='a path that goes through a relation whose endpoint has a child of the next name',
  breaks='a child of the endpoint is found below the relation', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("b", a)
e = f.connect_nodes(r, "e", [a]); n = next(e.sub_relations).id_name
check(list(r.get_element_by_id_name("e/" + n + "/b")) == [], "no b below the relation")
'''),
 dict(id='p08-unique-removals', property='P08', file=CI,
  edits=[("    async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:\n        return",
          "    async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> list:\n"
          "        # Do not remove anything twice\n"
          "        elements = {e[1]: e for e in elements}.values()\n        return")], needs='several removals by name in one call',
  breaks='only the last of the names is removed', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("b", r)
run(r.remove_elements([("a", None), ("b", None)]))
check(r.cnt_subelements == 0, "both removed")
'''),
 dict(id='p11-more-values-than-nodes', property='P11', file=FF,
  edits=[("            if len(values) != len(nodes):\n", "            if len(values) < len(nodes):\n")], needs='more values than nodes',
  breaks='the wrong number of values is accepted', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r); v = [f.create_value(None, "v%d" % i, [1]) for i in range(2)]
try:
    f.connect_nodes(r, "e", [a], values=v); check(False, "accepted")
except Exception as e:
    check(type(e).__name__ == "ErrorInsufficientValues", type(e).__name__)
'''),
 dict(id='p12-queries-after-attachment', property='P12', file=QE,
  edits=[("        self.__queries = dict()\n        super().__init__(id_name, uuid, qualified_name, clock, parent)\n",
          "        super().__init__(id_name, uuid, qualified_name, clock, parent)\n        self.clear()\n")], needs='a container that looks at what is attached to it',
  breaks='an engine can be reached before it has its table of queries', demo=PRE + '''
from rei.query.query_engine import HypergraphQueryEngine
class Watch(HypergraphNode):
    def add_element(self, element):
        super().add_element(element)
        element.prefilter_queries()
w = Watch("w", b"1", "w", LocalClock())
HypergraphQueryEngine("q", b"2", "q", LocalClock(), w)
'''),
 dict(id='p13-container-name-only', property='P13', file=FF,
  edits=[("            uid = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))\n",
          "            uid = self.unique_identifier.generate_uid('/'.join([parent.id_name, id_name]))\n")], needs='two containers of the same name in different places and a clock that stands still',
  breaks='nodes of different containers get the same identifier', demo=PRE + '''
g = HypergraphFactory("demo", DummyClock())
r = g.generate_node("r"); x = g.generate_node("x", r); y = g.generate_node("y", r); xa = g.generate_node("a", x); ya = g.generate_node("a", y)
check(g.generate_node("n", xa).uuid != g.generate_node("n", ya).uuid, "different identifiers")
'''),
 dict(id='p14-bounded-stack', property='P14', file=HT,
  edits=[("""        _fringe, _task_list = await self._setup_visit_algorithm(start, asyncio.LifoQueue())
        await self._fill_visit_fringe(start, _fringe)
""", """        _fringe, _task_list = await self._setup_visit_algorithm(start, asyncio.LifoQueue(4096))
        await self._fill_visit_fringe(start, _fringe)
""")], needs='a node with more than 4096 children', breaks='the depth-first traversal never ends', demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import *
r = HypergraphNode("r", b"r", "r", DummyClock())
for i in range(5000): HypergraphNode("n", b"%d" % i, "n", DummyClock(), r)
check(len(run(asyncio.wait_for(DepthFirstHierarchicalTraversal(lambda x: x, lambda x: True).execute(r), 20))) == 5001, "all visited")
'''),
 dict(id='p14-limit-from-own-depth', property='P14', file=HT,
  edits=[("            for v in current_node.get_subelements(self._filter_func):\n                await _fringe.put((v, current_depth + 1))\n",
          "            for v in current_node.get_subelements(self._filter_func):\n                await _fringe.put((v, max(v.depth, current_depth + 1)))\n")],
  needs='a depth-limited traversal that starts below the root', breaks='elements within the limit are not visited', demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import *
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("b", a); c = f.generate_node("c", b); d = f.generate_node("d", c)
got = run(DepthLimitedBreadthVisitChildren(lambda x: x.id_name, lambda x: True, 2).execute(b))
check(got == ["b", "c", "d"], got)
'''),
 dict(id='p15-result-list-reused', property='P15', file=FO,
  edits=[("""        self.nodes = None
        self.self_loop = self_loop

    async def execute(self, start) -> list[asyncio.Future]:
        self.__relation_list = []
        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        for""", """        self.nodes = None
        self.self_loop = self_loop
        self.__relation_list = []

    async def execute(self, start) -> list[asyncio.Future]:
        self.__relation_list.clear()
        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        for""")], needs='the result of one run is kept while the same operation runs again',
  breaks='the second run changes the result of the first', demo=PRE + '''
from rei.hypergraph.factorization_operations import Factorization2SubsetOperation
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("b", r); e = f.connect_dir_edges(r, "e", [a], [b])
o = Factorization2SubsetOperation()
x = run(o.execute([a, b, e])); check(len(x) == 1, "one pair")
run(o.execute([])); check(len(x) == 1, "still one pair")
'''),
 dict(id='p15-engine-tables-shared', property='P15', file=QE,
  edits=[("""    def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                 parent: HierarchicalElement = None) -> None:
        self.__queries = dict()
""", """    __queries = dict()

    def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                 parent: HierarchicalElement = None) -> None:
""")], needs='two engines', breaks='a query added to one engine is executed by the other', demo=PRE + '''
from rei.query.query_engine import *
r = f.generate_node("r"); a = f.generate_node("a", r); c = LocalClock()
p = HypergraphQueryEngine("p", b"1", "p", c); q = HypergraphQueryEngine("q", b"2", "q", c)
p.add_query("a", HierarchicalPrepositionQuery(r, lambda x: x.id_name == "a", lambda x: True))
check(run(q.execute()) == [], "q has no queries")
'''),
 dict(id='p16-search-by-recursion', property='P16', file=SE,
  edits=[("""                return
            for n in __next.get_subelements(lambda x: True):
                await fringe.put(n)
                fringe.task_done()
""", """                return
            for n in __next.get_subelements(lambda x: True):
                branch = asyncio.Queue()
                await branch.put(n)
                await self._traverse(branch)
                if len(self._result) > 0:
                    return
""")], needs='a chain of about a thousand elements', breaks='the search exhausts the call stack', demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchSubElement
c = DummyClock(); r = n = HypergraphNode("r", b"r", "r", c)
for i in range(400): n = HypergraphNode("n", b"%d" % i, "n", c, n)
s = QuerySearchSubElement(); s.query_def = n.qualified_name
sys.setrecursionlimit(300)
run(s.execute(r)); check(s.query_result == [n], "found")
'''),
 dict(id='p17-visited-by-name', property='P17', file=SE,
  edits=[("            self.visited_set.add(__next.uuid)\n", "            self.visited_set.add(__next.qualified_name)\n")], needs='a search for a name that is not there',
  breaks='the search never ends', demo=PRE + '''
signal.alarm(10)
from rei.foundations.query.search_elements import QuerySearchElement
r = f.generate_node("r"); a = f.generate_node("a", r)
s = QuerySearchElement(); s.query_def = "nowhere"
run(s.execute(a)); check(s.query_result == [], "nothing")
'''),
 dict(id='p18-last-result-still-fits', property='P18', file=SE,
  edits=[("        self._result = []\n        __fringe, _task_list", """        # Nothing to do if the element found last still has that name
        if len(self._result) > 0 and self._result[-1].qualified_name == self._query_def:
            return []
        self._result = []
        __fringe, _task_list""".replace("        self._result = []\n", "        self._result.clear()\n"))], needs='the search is repeated from a start in another hierarchy with the same names',
  breaks='the element of the former hierarchy is found', demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchSubElement
g = HypergraphFactory("demo", DummyClock())
r = g.generate_node("r"); a = g.generate_node("a", r); t = g.generate_node("r"); b = g.generate_node("a", t)
s = QuerySearchSubElement(); s.query_def = "r/a"
run(s.execute(r)); check(s.query_result == [a], "a of r")
run(s.execute(t)); check(s.query_result == [b], "a of t")
'''),
 dict(id='p19-each-once-over-all-queries', property='P19', file=QE,
  edits=[("            res.extend(await t)\n", "            res.extend([x for x in await t if x not in res])\n")], needs='an element that matches two queries',
  breaks='the second query misses the elements of the first', demo=PRE + '''
from rei.query.query_engine import *
r = f.generate_node("r"); a = f.generate_node("a", r)
q = HypergraphQueryEngine("q", b"2", "q", LocalClock())
for n in "12": q.add_query(n, HierarchicalPrepositionQuery(r, lambda x: x.id_name == "a", lambda x: True))
check(q.execute_all_queries() == [a, a], "one match of each query")
'''),
 dict(id='p20-self-loop-by-name', property='P20', file=FO,
  edits=[("                    if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:\n", "                    if (e.endpoint.id_name != e1.endpoint.id_name) or self.self_loop:\n")],
  needs='an edge between two nodes of the same name', breaks='the pair is taken for a self loop', demo=PRE + '''
from rei.hypergraph.factorization_operations import Factorization2SubsetOperation
r = f.generate_node("r"); s = f.generate_node("s"); a = f.generate_node("a", r); b = f.generate_node("a", s); e = f.connect_dir_edges(r, "e", [a], [b])
check(len(run(Factorization2SubsetOperation().execute([a, b, e]))) == 1, "one pair")
'''),
 dict(id='p21-edge-table-survives', property='P21', file=HF,
  edits=[("""        # Mappings (unique identifiers to indices)
        self.__hom_node_dim: dict[bytes, int] = {}
        self.__hom_edge_depth: dict[bytes, int] = {}
        self.__hom_values: dict[bytes, int] = {}
        # Reverse mappings (index to unique identifiers)
        self.__hom_dim_node: dict[int, bytes] = {}
        self.__hom_depth_edge: dict[int, bytes] = {}
        self.__hom_i_values: dict[int, bytes] = {}

    async""", """        # Mappings (unique identifiers to indices)
        self.__hom_node_dim: dict[bytes, int] = {}
        self.__hom_values: dict[bytes, int] = {}
        # Reverse mappings (index to unique identifiers)
        self.__hom_dim_node: dict[int, bytes] = {}
        self.__hom_depth_edge: dict[int, bytes] = {}
        self.__hom_i_values: dict[int, bytes] = {}

    async""")], needs='the index is built again after an edge was removed', breaks='the removed edge still has a number', demo=PRE + '''
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor as H
r = f.generate_node("r"); a = f.generate_node("a", r); e = f.connect_nodes(r, "e", [a]); g = f.connect_nodes(r, "g", [a])
h = H(); run(h.execute(r)); list(r.remove_element(uuid=e.uuid)); run(h.execute(r))
try:
    h.edge(e.uuid); check(False, "number of a removed edge")
except KeyError: pass
'''),
 dict(id='p21-pairs-counted-by-highest', property='P21', file=HF,
  edits=[("            self.__hom_dim_node[i] = n\n            self._cnt_node += 1\n", "            self.__hom_dim_node[i] = n\n            self._cnt_node = i + 1\n")],
  needs='pairs that are not in the order of their numbers', breaks='the count differs from the number of entries', demo=PRE + '''
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor as H
h = H(); h.reset_from_bijection([(b"1", 1), (b"0", 0)], [], [])
check(h.cnt_node == 2, "two nodes")
'''),
 dict(id='p22-incidence-of-first-only', property='P22', file=CO,
  edits=[("        self._msg_incidence_in.append((i_e, i_n0, i_w))\n", "        self._msg_incidence_in.append((i_e, i_n1 if i_n0 == i_e else i_n0, i_w))\n")],
  needs='an edge whose number equals the number of the target node', breaks='the incoming incidence names the source', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
r = f.generate_node("r"); ns = f.generate_list_nodes(["a", "b", "c"], r)
for i in range(9):
    if i // 3 != i % 3: f.connect_dir_edges(r, "e%d" % i, [ns[i // 3]], [ns[i % 3]])
async def go():
    t = CoordinateObjectTransformer(r); await t.reset(r); await t.execute(); return t.msg_tensor_value_updates()
v, o, i = run(go())
check(sorted((e, t) for e, s, t, w in v) == sorted((e, t) for e, t, w in i), "targets agree")
'''),
 dict(id='p24-root-by-parent-zero', property='P24', file=CO,
  edits=[("        return el.uuid, el.id_name, self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')\n",
          "        return el.uuid, el.id_name, self._index_homomorphism.edge(el.uuid), self._context.uuid, el.qualified_name.encode('latin-1')\n")],
  needs='an edge whose name has a letter outside ASCII', breaks='the name cannot be read back', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
r = f.generate_node("r"); a = f.generate_node("a", r); e = f.connect_nodes(r, "\\u00e9", [a])
async def go():
    t = GraphTensorCbor("i", LocalClock(), r); await t.update_context(r); await t.update_coo(); return t.create_graph(t.full_msg())
root, h = run(go())
check([x.id_name for x in root.sub_edges] == ["\\u00e9"], "name")
'''),
 dict(id='p26-list-taken-over', property='P26', file=VN,
  edits=[("            self._values = [x for x in values]\n", "            self._values = values if isinstance(values, list) else [x for x in values]\n")], needs='the list a value was built from is changed afterwards',
  breaks='the value changes with the list', demo=PRE + '''
l = [1, 2]; v = ValueNode(b"1", "v", "v", l); l.append(3)
check(v.get_values() == [1, 2], v.get_values())
'''),
 dict(id='p23-floor-under-the-logarithm', property='P23', file=TR,
  edits=[("        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n", "        # Avoid the logarithm of zero\n        v = np.maximum(np.abs(np.linalg.eig(self.Lp/self.total_deg)[0]), 1e-9)\n")],
  needs='an eigenvalue that is zero', breaks='a zero eigenvalue adds to the entropy', demo=PRE + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
r = f.generate_node("r"); ns = f.generate_list_nodes(["a", "b", "c", "d"], r)
f.connect_nodes(r, "e", ns[:2])
t = T(); run(t.execute(r)); t = t.tensor_representation
v = np.abs(np.linalg.eigvals(t.Lp / t.total_deg))
want = np.where(v > 0, -v * np.log2(np.where(v > 0, v, 1.0)), 0.0)
check(np.abs(np.sort(t.entropy_projected_vector()) - np.sort(want)).max() < 1e-12, (t.entropy_projected_vector(), want))
'''),
 dict(id='p25-one-relation-per-endpoint', property='P25', file=CO,
  edits=[("        for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):\n", "        for el in map(lambda x: list({y.endpoint.uuid: y for y in x.sub_relations}.values()), self._context.sub_edges):\n")],
  needs='an edge that is connected twice with one node', breaks='one of the two relations is left out', demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
r = f.generate_node("r"); a = f.generate_node("a", r); b = f.generate_node("b", r); e = f.connect_nodes(r, "e", [b])
x = HypergraphRelation(b"x", "x", "x", a, None, direction=D.INWARDS); y = HypergraphRelation(b"y", "y", "y", a, None, direction=D.OUTWARDS)
e.add_element(x); e.add_element(y)
check(len(CoordinateObjectTransformer(r).msg_relation_index_list()) == 3, "three relations")
'''),
]
