CI = 'framework_python/rei/foundations/conceptual_item.py'
BE = 'framework_python/rei/hypergraph/base_elements.py'
FF = 'framework_python/rei/factories/foundation_factory.py'
PRE = '''
import asyncio, sys
from rei.foundations.clock import DummyClock, LocalClock
from rei.factories.foundation_factory import HypergraphFactory
from rei.hypergraph.base_elements import *
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
f = HypergraphFactory("demo", LocalClock())
def check(c, what):
    if not c:
        print("WRONG:", what); sys.exit(1)
'''
SEEDS = [
 dict(id='p01-name-index-kept-by-moved-element', property='P01', file=CI,
  edits=[("""                el = self._sub_elements.pop(uuid)
                self._index_elements_by_name[el.id_name].pop(uuid)
""", """                el = self._sub_elements.pop(uuid)
                # The last element of the name: drop the whole index of that name
                if len(self._index_elements_by_name[el.id_name]) <= self._cnt_subelements:
                    self._index_elements_by_name.pop(el.id_name)
                else:
                    self._index_elements_by_name.get(el.id_name).pop(uuid)
""")], needs='two children with the same name, one of them removed by identifier',
  breaks='the remaining child is no longer found by name', demo=PRE + '''
r = f.generate_node("r")
a = HypergraphNode("x", b"1", "x", LocalClock(), r); b = HypergraphNode("x", b"2", "x", LocalClock(), r)
list(r.remove_element(uuid=b"1"))
check(list(r.get_element_by_id_name("x")) == [b], "the other x is still there")
'''),
 dict(id='p01-stale-parent-on-move', property='P01', file=CI,
  edits=[("""            if element.parent is not None:
                for e in""", """            if element.parent is not None and element.parent.depth >= self.depth:
                for e in""")], needs='an element moved from a container into a deeper one',
  breaks='the element stays listed under the former container', demo=PRE + '''
r = f.generate_node("r"); s = f.generate_node("s", r); a = f.generate_node("a", r)
s.add_element(a)
check(a not in list(r.get_subelements(lambda x: True)) and r.cnt_subelements == 1, "moved away")
'''),
 dict(id='p02-remove-by-name-live-skip', property='P02', file=CI,
  edits=[("""                    # Invalidate each element parent
                    el.parent = None
""", """                    # Invalidate each element parent
                    if el.parent is self and self._cnt_subelements > 1:
                        el.parent = None
""")], needs='removal by name of the last remaining child of a container',
  breaks='the removed child keeps naming the container as its parent', demo=PRE + '''
r = f.generate_node("r"); a = f.generate_node("a", r)
got = list(r.remove_element("a"))
check(got == [a] and a.parent is None, "removed child has no parent")
'''),
 dict(id='p04-refresh-stops-at-renamed', property='P04', file=CI,
  edits=[("""            for e in __next.get_subelements(lambda x: True):
                __fringe.put(e)
""", """            for e in __next.get_subelements(lambda x: x.parent is element or x.depth > 2):
                __fringe.put(e)
""")], needs='a subtree of three levels attached to a container',
  breaks='qualified names and depths below the moved element stay those of the former place', demo=PRE + '''
f = HypergraphFactory("demo", DummyClock())
r = f.generate_node("r"); s = f.generate_node("s"); a = f.generate_node("a", r); b = f.generate_node("b", a); c = f.generate_node("c", b)
for x in list(a.remove_element(uuid=b.uuid)): pass
s.add_element(a); a.add_element(b)
check(c.qualified_name == "s/a/b/c" and c.depth == 3, "names below follow: " + c.qualified_name)
r.add_element(a)
check(c.qualified_name == "r/a/b/c" and c.depth == 3, "names below follow: " + c.qualified_name)
'''),
 dict(id='p05-position-from-current-count', property='P05', file=CI,
  edits=[("""            element.cid = self._cnt_subelements_historical
""", """            element.cid = self._cnt_subelements_historical if element.parent is None else self._cnt_subelements
""")], needs='a child moved from another container into one from which a child was removed before',
  breaks='a position number is given out twice', demo=PRE + '''
r = f.generate_node("r"); s = f.generate_node("s"); a = f.generate_node("a", r); b = f.generate_node("b", r); c = f.generate_node("c", r)
d = f.generate_node("d", s)
list(r.remove_element(uuid=a.uuid)); r.add_element(d)
check(d.cid == 3, "position %d" % d.cid)
'''),
 dict(id='p09-disconnect-keeps-renamed-port', property='P09', file=BE,
  edits=[("""        self.add_element(p)
        self._ports[el.uuid] = p
""", """        if el.uuid not in self._ports:
            self.add_element(p)
        self._ports[el.uuid] = p
""")], needs='a relation removed from an edge without disconnecting, then the same node connected to the edge again',
  breaks='the new relation gets no port of its own', demo=PRE + '''
r = f.generate_node("r"); n = f.generate_node("n", r); e = f.create_hyperedge(r, "e")
e.unary_connect(n, None)
list(e.remove_element(uuid=next(e.sub_relations).uuid))
for p in list(n.sub_ports): list(n.remove_element(uuid=p.uuid))
e.unary_connect(n, None)
check([p.endpoint for p in n.sub_ports] == list(e.sub_relations), "one port for the one relation")
'''),
 dict(id='p10-bidirectional-into-edge', property='P10', file=BE,
  edits=[("""            lambda x: x.direction == EnumRelationDirection.INWARDS or x.direction == EnumRelationDirection.BIDIRECTIONAL,
""", """            lambda x: x.direction == EnumRelationDirection.INWARDS or
                      (x.direction == EnumRelationDirection.BIDIRECTIONAL and x.endpoint is not x.parent.parent),
""")], needs='a bidirectional relation from an edge to the node that contains the edge',
  breaks='such a relation is not counted as incoming', demo=PRE + '''
r = f.generate_node("r"); n = f.generate_node("n", r)
e = f.connect_nodes(r, "e", [n, r])
check(len(list(e.get_incoming_relations())) == 2, "both are incoming")
'''),
 dict(id='p11-values-split-by-outgoing', property='P11', file=FF,
  edits=[("values[:len(in_dir_nodes)])", "values[:len(out_dir_nodes)])"), ("values[len(in_dir_nodes):])", "values[len(out_dir_nodes):])")],
  needs='an edge with values and a different number of incoming and outgoing nodes', breaks='values go to the wrong nodes or nodes are left out', demo=PRE + '''
r = f.generate_node("r"); n = [f.generate_node("n%d" % i, r) for i in range(3)]
v = [f.create_value(None, "v%d" % i, [i]) for i in range(3)]
e = f.connect_2factor_edges(r, "e", n[:1], n[1:], (D.INWARDS, D.OUTWARDS), v)
check([(x.endpoint, x.weight) for x in e.sub_relations] == list(zip(n, v)), "each node has its own value")
'''),
]
