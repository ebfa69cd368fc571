"""P24, P25: messages."""
CB = 'hypergraph/encoding/graph_tensor_icon_cbor.py'
GI = 'hypergraph/encoding/graph_tensor_icon.py'
HO = 'hypergraph/homomorphism_functions.py'
P24 = ['P24']
P25 = ['P25']
BOTH = ['P24', 'P25']
CR = """        for n in frag[0]:
            _el = HypergraphNode(n[1], n[0], n[4].decode('utf-8'), self.__clock)
            # Add to cache
            _elements[n[0]] = _el
            if n[3] not in _elements:
                _root = _el
            else:
                _elements[n[3]].add_element(_el)
            nodes.append((n[0], n[2]))
"""
CE = """        for e in frag[1]:
            _el = HypergraphEdge(e[1], e[0], e[4].decode('utf-8'), self.__clock, _elements[e[3]])
            _elements[e[0]] = _el
            edges.append((e[0], e[2]))
"""
CREL = """        for rel in frag[2]:
            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
                                    direction=EnumRelationDirection(rel[3]))
            _elements[rel[5]].add_element(_el)
            _elements[rel[4]].connect(_el)
"""
CV = """        for v in frag[3]:
            _el = ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])
            values.append((v[0], v[2]))
            _elements[v[3]].add_element(_el)
"""
CASES = [
    # ---- P24 behaviour kept
    ('unpacked nodes', 'same', BOTH, [(CB, CR, """        for uuid, id_name, index, parent_uuid, qualified_name in frag[0]:
            element = HypergraphNode(id_name, uuid, qualified_name.decode('utf-8'), self.__clock)
            _elements[uuid] = element
            if parent_uuid in _elements:
                _elements[parent_uuid].add_element(element)
            else:
                _root = element
            nodes.append((uuid, index))
""")]),
    ('unpacked sections', 'same', BOTH, [(CB, "        # Nodes\n        nodes = []\n" + CR, "        node_frag, edge_frag, rel_frag, val_frag, *_ = frag\n        nodes = [(n[0], n[2]) for n in node_frag]\n" + CR.replace("            nodes.append((n[0], n[2]))\n", "").replace('frag[0]', 'node_frag')),
                                      (CB, 'frag[1]', 'edge_frag'), (CB, 'frag[2]', 'rel_frag'), (CB, 'frag[3]', 'val_frag')]),
    ('dict message', 'same', BOTH, [(CB, """        frag = [self._coo_tr.node_index_list(),
                self._coo_tr.edge_index_list(),
                self._coo_tr.msg_relation_index_list(),
                self._coo_tr.msg_value_nodes(),
                msg[0], msg[1], msg[2]]
""", """        frag = {'n': self._coo_tr.node_index_list(),
                'e': self._coo_tr.edge_index_list(),
                'r': self._coo_tr.msg_relation_index_list(),
                'v': self._coo_tr.msg_value_nodes(),
                'w': msg[0], 'o': msg[1], 'i': msg[2]}
"""), (CB, 'frag[0]', "frag['n']"), (CB, 'frag[1]', "frag['e']"), (CB, 'frag[2]', "frag['r']"), (CB, 'frag[3]', "frag['v']")]),
    ('helper root', 'same', BOTH, [(CB, CR, """        for n in frag[0]:
            _el = self.__node(n)
            _elements[n[0]] = _el
            parent = _elements.get(n[3])
            if parent is None:
                _root = _el
            else:
                parent.add_element(_el)
            nodes.append((n[0], n[2]))
"""), (CB, "    def create_graph(self", """    def __node(self, n):
        return HypergraphNode(n[1], n[0], n[4].decode('utf-8'), self.__clock)

    def create_graph(self""")]),
    ('edge added later', 'same', BOTH, [(CB, CE, """        for e in frag[1]:
            _el = HypergraphEdge(e[1], e[0], e[4].decode('utf-8'), self.__clock)
            _elements[e[3]].add_element(_el)
            _elements[e[0]] = _el
            edges.append((e[0], e[2]))
""")]),
    ('both sides swapped', 'same', BOTH, [(GI, "        return el.uuid, el.id_name, self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')",
                                            "        return el.id_name, el.uuid, self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')"),
                                           (CB, CE, CE.replace('e[1], e[0]', 'e[0], e[1]').replace('_elements[e[0]]', '_elements[e[1]]').replace('(e[0], e[2])', '(e[1], e[2])'))]),
    ('no encode on both sides', 'same', BOTH, [(GI, "el.parent.uuid, el.qualified_name.encode('utf-8')\n\n    def __msg_value", "el.parent.uuid, el.qualified_name\n\n    def __msg_value"),
                                                (CB, "HypergraphEdge(e[1], e[0], e[4].decode('utf-8')", "HypergraphEdge(e[1], e[0], e[4]")]),
    ('default codec', 'same', BOTH, [(CB, "n[4].decode('utf-8')", "n[4].decode()"), (GI, "el.parent.uuid, el.qualified_name.encode('utf-8')\n\n    def __msg_edge", "el.parent.uuid, el.qualified_name.encode()\n\n    def __msg_edge")]),
    ('direction by member', 'same', BOTH, [(GI, "rel.direction.value", "int(rel.direction)")]),
    ('loop var comprehension', 'same', BOTH, [(GI, """        self._msg_relations = []
        for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
            for rel in el:
                rel: HypergraphRelation
                self._msg_relations.append((rel.uuid, rel.id_name, rel.qualified_name,
                                            rel.direction.value, rel.endpoint.uuid, rel.parent.uuid))
        return self._msg_relations
""", """        return [(rel.uuid, rel.id_name, rel.qualified_name, rel.direction.value, rel.endpoint.uuid, edge.uuid)
                for edge in self._context.sub_edges for rel in edge.sub_relations]
""")]),
    ('values kept as tuple', 'same', BOTH, [(GI, "        _val = v.get_values()\n", "        _val = list(v.get_values())\n")]),
    ('update unpacked', 'same', BOTH, [(CB, """        for v in frag:
            self._context[self._homomorphism.ival(v[0])].update_values(v[1])
""", """        for index, values in frag:
            uuid = self._homomorphism.ival(index)
            node = self._context[uuid]
            node.update_values(values)
""")]),
    ('bijection args swapped both', 'same', BOTH, [(HO, "def reset_from_bijection(self, nodes, edges, values)", "def reset_from_bijection(self, edges, nodes, values)"),
                                                  (CB, "reset_from_bijection(nodes, edges, values)", "reset_from_bijection(edges, nodes, values)")]),
    ('bijection keywords', 'same', BOTH, [(CB, "reset_from_bijection(nodes, edges, values)", "reset_from_bijection(edges=edges, values=values, nodes=nodes)")]),
    ('explicit elem', 'same', BOTH, [(CB, "        _root = None\n", "        _root: HypergraphNode | None = None\n")]),
    ('values before relations', 'same', BOTH, [(CB, CREL, ''), (CB, "        # Value tensor\n", CREL + "        # Value tensor\n")]),
    # ---- P24 bugs
    ('node name and uuid swapped', 'bug', P24, [(CB, "HypergraphNode(n[1], n[0],", "HypergraphNode(n[0], n[1],")]),
    ('endpoint and parent swapped', 'bug', P24, [(CB, "_elements[rel[4]], None, parent=_elements[rel[5]]", "_elements[rel[5]], None, parent=_elements[rel[4]]")]),
    ('connect parent', 'bug', P24, [(CB, "_elements[rel[4]].connect(_el)", "_elements[rel[5]].connect(_el)")]),
    ('relation put in endpoint', 'bug', P24, [(CB, "_elements[rel[5]].add_element(_el)", "_elements[rel[4]].add_element(_el)")]),
    ('direction dropped', 'bug', P24, [(CB, "parent=_elements[rel[5]],\n                                    direction=EnumRelationDirection(rel[3]))", "parent=_elements[rel[5]])")]),
    ('direction by bool', 'bug', P24, [(CB, "direction=EnumRelationDirection(rel[3]))", "direction=EnumRelationDirection.OUTWARDS if rel[3] else EnumRelationDirection.INWARDS)")]),
    ('not connected', 'bug', P24, [(CB, "            _elements[rel[4]].connect(_el)\n", "")]),
    ('not added', 'bug', P24, [(CB, "            _elements[rel[5]].add_element(_el)\n", "")]),
    ('edge not decoded name', 'bug', P24, [(CB, "HypergraphEdge(e[1], e[0], e[4].decode('utf-8')", "HypergraphEdge(e[1], e[0], e[4]")]),
    ('codec differs', 'bug', P24, [(CB, "n[4].decode('utf-8')", "n[4].decode('ascii')")]),
    ('value qname', 'bug', P24, [(CB, "ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])", "ValueNode(v[0], v[1], v[1], v[5])")]),
    ('values lost', 'bug', P24, [(CB, "v[4].decode('utf-8'), v[5])", "v[4].decode('utf-8'))")]),
    ('values sliced', 'bug', P24, [(GI, "        _val = v.get_values()\n", "        _val = v.get_values()[:3]\n")]),
    ('index of parent', 'bug', P24, [(CB, "edges.append((e[0], e[2]))", "edges.append((e[0], e[3]))")]),
    ('index tables swapped', 'bug', P24, [(CB, "reset_from_bijection(nodes, edges, values)", "reset_from_bijection(edges, nodes, values)")]),
    ('index pair swapped', 'bug', P24, [(CB, "values.append((v[0], v[2]))", "values.append((v[2], v[0]))")]),
    ('enumerated index', 'bug', P24, [(CB, "            values.append((v[0], v[2]))\n", "            values.append((v[0], len(values)))\n")]),
    ('value index by node', 'bug', P24, [(GI, "self._index_homomorphism.val(v.uuid), v.parent.uuid", "self._index_homomorphism.node(v.uuid), v.parent.uuid")]),
    ('parent index sent', 'bug', P24, [(GI, "rel.direction.value, rel.endpoint.uuid, rel.parent.uuid", "rel.direction.value, rel.parent.uuid, rel.endpoint.uuid")]),
    ('qualified name of parent', 'bug', P24, [(GI, "self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode", "self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.parent.qualified_name.encode")]),
    ('progenitor sent', 'bug', P24, [(GI, "(rel.uuid, rel.id_name, rel.qualified_name,", "(rel.uuid, rel.id_name, rel.progenitor_qualified_name,")]),
    ('relations before edges', 'bug', P24, [(CB, CREL, ''), (CB, "        # Edges\n", CREL + "        # Edges\n")]),
    ('root is last node', 'bug', P24, [(CB, "            if n[3] not in _elements:\n                _root = _el\n            else:\n                _elements", "            _root = _el\n            if n[3] in _elements:\n                _elements")]),
    ('sections swapped in writer', 'bug', P24, [(CB, "                self._coo_tr.msg_relation_index_list(),\n                self._coo_tr.msg_value_nodes(),\n", "                self._coo_tr.msg_value_nodes(),\n                self._coo_tr.msg_relation_index_list(),\n")]),
    ('edge decoded as node', 'bug', P24, [(CB, "_el = HypergraphEdge(e[1], e[0], e[4].decode('utf-8'), self.__clock, _elements[e[3]])", "_el = HypergraphNode(e[1], e[0], e[4].decode('utf-8'), self.__clock, _elements[e[3]])")]),
    ('update via node index', 'bug', P24, [(CB, "self._homomorphism.ival(v[0])", "self._homomorphism.dim(v[0])")]),
    ('update swapped', 'bug', P24, [(CB, "self._homomorphism.ival(v[0])].update_values(v[1])", "self._homomorphism.ival(v[1])].update_values(v[0])")]),
    ('edge added twice', 'bug', P24, [(CB, "            _elements[e[0]] = _el\n", "            _elements[e[3]].add_element(_el)\n            _elements[e[0]] = _el\n")]),
    ('update index first', 'bug', P24, [(GI, "(self._index_homomorphism.val(v.uuid), v.get_values())", "(self._index_homomorphism.val(v.parent.uuid), v.get_values())")]),
    # ---- P25 behaviour kept
    ('node list one loop', 'same', BOTH, [(GI, """        node_list = [self.__msg_node_tuple(self._context)]
        node_list.extend([self.__msg_node_tuple(i) for i in list(self._context.sub_nodes)])
        return node_list
""", """        node_list = []
        node_list.append(self.__msg_node_tuple(self._context))
        for node in self._context.sub_nodes:
            node_list.append(self.__msg_node_tuple(node))
        return node_list
""")]),
    ('node list star', 'same', BOTH, [(GI, """        node_list = [self.__msg_node_tuple(self._context)]
        node_list.extend([self.__msg_node_tuple(i) for i in list(self._context.sub_nodes)])
        return node_list
""", """        return [self.__msg_node_tuple(x) for x in [self._context, *self._context.sub_nodes]]
""")]),
    ('edge list map', 'same', BOTH, [(GI, "        return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]", "        return list(map(self.__msg_edge_tuple, self._context.sub_edges))")]),
    ('local buffer', 'same', BOTH, [(GI, "        self._msg_relations = []\n        for el in map", "        relations = []\n        for el in map"), (GI, "self._msg_relations.append(", "relations.append("), (GI, "        return self._msg_relations\n", "        return relations\n")]),
    ('direct visitor', 'same', BOTH, [(GI, """        q = queue.Queue()
        tr = HypergraphTraversal(
            lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
        await tr.execute(start)
        while not q.empty():
            for v in q.get():
                i_n0, i_n1, i_e, i_w, val = v
                self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
""", """        tr = HypergraphTraversal(
            self._store, lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
        await tr.execute(start)

    def _store(self, connections):
        for source, target, edge, weight, val in connections:
            self.fill_tensors(edge, target, source, weight, val)
""")]),
    ('list instead of queue', 'same', BOTH, [(GI, "q = queue.Queue()", "q = []"), (GI, "lambda x: q.put(x)", "q.append"), (GI, "        while not q.empty():\n            for v in q.get():\n", "        for batch in q:\n            for v in batch:\n")]),
    ('index made once', 'same', BOTH, [(GI, "        self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)\n        return", "        if self._index_homomorphism is None:\n            self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)\n        return")]),
    ('index positional', 'same', BOTH, [(GI, "IndexHomomorphismGraphTensor(False, depth=math.inf)", "IndexHomomorphismGraphTensor(ignore_root=False, depth=float('inf'))")]),
    ('message variable', 'same', BOTH, [(CB, "        msg = self._coo_tr.msg_tensor_value_updates()\n", "        weights, out, inc = self._coo_tr.msg_tensor_value_updates()\n"), (CB, "msg[0], msg[1], msg[2]]", "weights, out, inc]")]),
    ('lists cleared in place', 'same', P24, [(GI, "        self._msg_value_tensor = []\n        self._msg_incidence_out = []\n        self._msg_incidence_in = []\n\n    async def reset", "        self._msg_value_tensor, self._msg_incidence_out, self._msg_incidence_in = [], [], []\n\n    async def reset")]),
    # ---- P25 bugs
    ('relations kept', 'bug', P25, [(GI, "        self._msg_relations = []\n        for el", "        for el")]),
    ('not cleared', 'bug', P25, [(GI, "        self._clear_messages()\n        q =", "        q =")]),
    ('not cleared on reset', 'bug', P25, [(GI, "        self._clear_messages()\n        self._index", "        self._index")]),
    ('in not cleared', 'bug', P25, [(GI, "        self._msg_incidence_out = []\n        self._msg_incidence_in = []\n\n    async", "        self._msg_incidence_out = []\n\n    async")]),
    ('cleared in place', 'bug', P25, [(GI, "        self._msg_value_tensor = []\n        self._msg_incidence_out = []\n        self._msg_incidence_in = []\n\n    async def reset", "        self._msg_value_tensor.clear()\n        self._msg_incidence_out.clear()\n        self._msg_incidence_in.clear()\n\n    async def reset")]),
    ('context kept', 'bug', P25, [(GI, "    async def reset(self, context: HypergraphNode):\n        self._context = context\n", "    async def reset(self, context: HypergraphNode):\n        self._context = self._context or context\n")]),
    ('index kept', 'bug', P25, [(GI, "        self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)\n        return await", "        if self._index_homomorphism is not None:\n            return []\n        self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)\n        return await")]),
    ('root not indexed', 'bug', P25, [(GI, "IndexHomomorphismGraphTensor(False, depth=math.inf)", "IndexHomomorphismGraphTensor(True, depth=math.inf)")]),
    ('index shallow', 'bug', P25, [(GI, "IndexHomomorphismGraphTensor(False, depth=math.inf)", "IndexHomomorphismGraphTensor(False)")]),
    ('start remembered', 'bug', P25, [(GI, "        if start is None:\n            start = self._context\n", "        if start is None:\n            start = self._start = getattr(self, '_start', self._context)\n")]),
    ('context missing', 'bug', P25, [(GI, "node_list = [self.__msg_node_tuple(self._context)]", "node_list = []")]),
    ('only root context', 'bug', P25, [(GI, "node_list = [self.__msg_node_tuple(self._context)]", "node_list = [self.__msg_node_tuple(self._context)] if self._context.parent is None else []")]),
    ('first relation only', 'bug', P25, [(GI, "rel.direction.value, rel.endpoint.uuid, rel.parent.uuid))\n", "rel.direction.value, rel.endpoint.uuid, rel.parent.uuid))\n                break\n")]),
    ('out relations only', 'bug', P25, [(GI, "list(x.sub_relations), self", "list(x.get_outgoing_relations()), self")]),
    ('empty values skipped', 'bug', P25, [(GI, "for v in self._context.sub_values]\n\n    def msg_value_node_update", "for v in self._context.sub_values if v.dim > 0]\n\n    def msg_value_node_update")]),
    ('one-relation edges skipped', 'bug', P25, [(GI, "for i in list(self._context.sub_edges)]", "for i in list(self._context.sub_edges) if len(list(i.sub_relations)) > 1]")]),
    ('last batch lost', 'bug', P25, [(GI, "        while not q.empty():\n", "        while q.qsize() > 1:\n")]),
    ('zero weights dropped', 'bug', P25, [(GI, "                self.fill_tensors(i_e, i_n1, i_n0, i_w, val)\n", "                if i_w > 0:\n                    self.fill_tensors(i_e, i_n1, i_n0, i_w, val)\n")]),
    ('out twice', 'bug', P25, [(GI, "        self._msg_incidence_in.append((i_e, i_n0, i_w))\n", "        self._msg_incidence_out.append((i_e, i_n0, i_w))\n")]),
    ('msg twice out', 'bug', P25, [(CB, "msg[0], msg[1], msg[2]]", "msg[0], msg[1], msg[1]]")]),
    ('message cached', 'bug', P25, [(CB, "        msg = self._coo_tr.msg_tensor_value_updates()\n        # Message", "        if getattr(self, '_last', None) is not None:\n            return self._last\n        msg = self._coo_tr.msg_tensor_value_updates()\n        # Message"), (CB, "        return cbor2.dumps(frag)", "        self._last = cbor2.dumps(frag)\n        return self._last")]),
    ('node list cached', 'bug', P25, [(GI, "        node_list = [self.__msg", "        if self._msg_value_nodes:\n            return self._msg_value_nodes\n        node_list = self._msg_value_nodes = [self.__msg")]),
    ('coo of stored context', 'bug', P25, [(CB, "return await self._coo_tr.execute()", "return await self._coo_tr.execute(self._context)"), (CB, "    async def update_context(self, context: HypergraphNode):\n", "    async def update_context(self, context: HypergraphNode):\n        self._context = self._context or context\n")]),
    ('depth one', 'bug', P25, [(GI, "self._index_homomorphism, self.repr_depth)", "self._index_homomorphism, 1)")]),
]
