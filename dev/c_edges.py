BE = 'hypergraph/base_elements.py'
FF = 'factories/foundation_factory.py'
MU = 'format/mapping/cognilang_map_utility.py'
HT = 'foundations/hierarchical_traversal_strategies.py'
P = ['P09', 'P10', 'P11']
CON = """        self.add_element(rel)
        endpoint.connect(rel)
        if semantic_value_node is not None:
            rel.add_element(semantic_value_node)
"""
ZIP = """        if values is None:
            node_values = zip(nodes, len(nodes)*[None])
        else:
            if len(values) != len(nodes):
                raise ErrorInsufficientValues
            node_values = zip(nodes, values)
"""
LOOP = """        for n,v in node_values:
            he.unary_connect(n, v, direction)
"""
IN = "            node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])\n"
OUT = "            node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])\n"
TUP = """        for n, dir, v, sv in nodes:
            he.unary_connect(n, v, dir, sv)
"""
MATCH = """        match self._direction:
            case EnumRelationDirection.BIDIRECTIONAL:
                self._relation_incidence_value = np.array([1.0, 1.0])
            case EnumRelationDirection.INWARDS:
                self._relation_incidence_value = np.array([1.0, 0.0])
            case EnumRelationDirection.OUTWARDS:
                self._relation_incidence_value = np.array([0.0, 1.0])
"""
INC = """        yield from filter(
            lambda x: x.direction == EnumRelationDirection.INWARDS or x.direction == EnumRelationDirection.BIDIRECTIONAL,
            self.sub_relations)
"""
OUTG = INC.replace('INWARDS', 'OUTWARDS')
DISC = """        p = self._ports.pop(el.uuid)
        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
            pass
"""
CASES = [
 ('connect helper', 'same', P, [(BE, CON, """        self._attach(rel, endpoint, semantic_value_node)

    def _attach(self, rel, endpoint, semantic_value_node):
        self.add_element(rel)
        endpoint.connect(rel)
        if semantic_value_node is None:
            return
        rel.add_element(semantic_value_node)
""")]),
 ('disconnect by uuid', 'same', P, [(BE, DISC, """        port = self._ports[el.uuid]
        list(self.remove_element(uuid=port.uuid))
        del self._ports[el.uuid]
""")]),
 ('incidence table', 'same', P, [(BE, MATCH, """        incoming = 0.0 if direction == EnumRelationDirection.OUTWARDS else 1.0
        outgoing = 0.0 if direction == EnumRelationDirection.INWARDS else 1.0
        self._relation_incidence_value = np.array([incoming, outgoing])
""")]),
 ('incidence dict', 'same', P, [(BE, MATCH, """        self._relation_incidence_value = np.array({
            EnumRelationDirection.BIDIRECTIONAL: [1.0, 1.0],
            EnumRelationDirection.INWARDS: [1.0, 0.0],
            EnumRelationDirection.OUTWARDS: [0.0, 1.0]}[self._direction])
""")]),
 ('incoming loop', 'same', P, [(BE, INC, """        for rel in self.sub_relations:
            if rel.direction != EnumRelationDirection.OUTWARDS:
                yield rel
"""), (BE, OUTG, """        for rel in self.sub_relations:
            if rel.direction in (EnumRelationDirection.OUTWARDS, EnumRelationDirection.BIDIRECTIONAL):
                yield rel
""")]),
 ('incoming set const', 'same', P, [(BE, INC, """        yield from (r for r in self.sub_relations if r.direction in {EnumRelationDirection.INWARDS, EnumRelationDirection.BIDIRECTIONAL})
""")]),
 ('incoming helper', 'same', P, [(BE, INC, """        yield from self._relations_of(EnumRelationDirection.INWARDS)

    def _relations_of(self, direction):
        accepted = (direction, EnumRelationDirection.BIDIRECTIONAL)
        return filter(lambda x: x.direction in accepted, self.sub_relations)
"""), (BE, OUTG, """        yield from self._relations_of(EnumRelationDirection.OUTWARDS)
""")]),
 ('sub_relations loop', 'same', P, [(BE, "        yield from self.get_subelements(lambda x: isinstance(x, HypergraphRelation))\n\n    @property\n    def induced", "        for x in self.get_subelements(lambda _: True):\n            if isinstance(x, HypergraphRelation):\n                yield x\n\n    @property\n    def induced")]),
 ('induced via sub', 'same', P, [(BE, "        yield from map(lambda x: x.endpoint, self.get_subelements(lambda x: isinstance(x, HypergraphRelation)))", "        for rel in self.sub_relations:\n            yield rel.endpoint")]),
 ('values early', 'same', P + ['P03'], [(FF, ZIP, """        if values is None:
            values = [None] * len(nodes)
        elif len(nodes) != len(values):
            raise ErrorInsufficientValues
"""), (FF, LOOP, """        for n, v in zip(nodes, values):
            he.unary_connect(n, v, direction)
""")]),
 ('values index', 'same', P + ['P03'], [(FF, ZIP, """        if values is not None and len(nodes) != len(values):
            raise ErrorInsufficientValues
"""), (FF, LOOP, """        for i, n in enumerate(nodes):
            he.unary_connect(n, values[i] if values is not None else None, direction)
""")]),
 ('values range', 'same', P + ['P03'], [(FF, ZIP, """        if values is not None and len(nodes) != len(values):
            raise ErrorInsufficientValues
"""), (FF, LOOP, """        for i in range(len(nodes)):
            value = None if values is None else values[i]
            he.unary_connect(endpoint=nodes[i], weight=value, direction=direction)
""")]),
 ('2factor split var', 'same', P + ['P03'], [(FF, IN + OUT, """            split = len(in_dir_nodes)
            node_in_values = zip(in_dir_nodes, values[:split])
            node_out_values = zip(out_dir_nodes, values[split:])
""")]),
 ('2factor offset loop', 'same', P + ['P03'], [(FF, OUT, "            node_out_values = [(n, values[len(in_dir_nodes) + i]) for i, n in enumerate(out_dir_nodes)]\n")]),
 ('2factor helper', 'same', P + ['P03'], [(FF, """        for n,v in node_in_values:
            he.unary_connect(n, v, direction[0])
        for n,v in node_out_values:
            he.unary_connect(n, v, direction[1])
""", """        self._connect_all(he, node_in_values, direction[0])
        self._connect_all(he, node_out_values, direction[1])
"""), (FF, "    def connect_dir_edges(", """    @staticmethod
    def _connect_all(edge, pairs, direction):
        for node, value in pairs:
            edge.unary_connect(node, value, direction)

    def connect_dir_edges(""")]),
 ('2factor unpack dirs', 'same', P, [(FF, "            he.unary_connect(n, v, direction[0])\n", "            he.unary_connect(n, v, d_in)\n"),
   (FF, "            he.unary_connect(n, v, direction[1])\n", "            he.unary_connect(n, v, d_out)\n"),
   (FF, "        for n,v in node_in_values:\n", "        d_in, d_out = direction\n        for n,v in node_in_values:\n")]),
 ('tuple index', 'same', P, [(FF, TUP, """        for entry in nodes:
            he.unary_connect(entry[0], weight=entry[2], direction=entry[1], semantic_value_node=entry[3])
""")]),
 ('edge via create_hyperedge', 'same', P, [(FF, "        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)\n        for n,v in node_values:", "        he = self.create_hyperedge(container, edge_name)\n        for n,v in node_values:")]),
 ('edge added after', 'same', P, [(FF, "container.clock, container)\n        for n,v in node_values:", "container.clock)\n        container.add_element(he)\n        for n,v in node_values:")]),
 ('arrows dict', 'same', P, [(MU, """    match direction:
        case '<-':
            return EnumRelationDirection.INWARDS
        case '->':
            return EnumRelationDirection.OUTWARDS
        case '--':
            return EnumRelationDirection.BIDIRECTIONAL
    raise ErrorInvalidDirection
""", """    arrows = {'<-': EnumRelationDirection.INWARDS, '->': EnumRelationDirection.OUTWARDS,
              '--': EnumRelationDirection.BIDIRECTIONAL}
    if direction not in arrows:
        raise ErrorInvalidDirection
    return arrows[direction]
""")]),
 ('text if', 'same', P, [(HT, """    match direction:
        case EnumRelationDirection.OUTWARDS:
            return '->'
        case EnumRelationDirection.INWARDS:
            return '<-'
        case EnumRelationDirection.BIDIRECTIONAL:
            return '--'
""", """    if direction == EnumRelationDirection.OUTWARDS:
        return '->'
    return '<-' if direction == EnumRelationDirection.INWARDS else '--'
""")]),
 # bugs
 ('sv falsy', 'bug', ['P09'], [(BE, "        if semantic_value_node is not None:\n            rel.add", "        if semantic_value_node is not None and weight is None:\n            rel.add")]),
 ('sv to edge', 'bug', ['P09'], [(BE, "            rel.add_element(semantic_value_node)\n", "            self.add_element(semantic_value_node)\n")]),
 ('port twice', 'bug', ['P09'], [(BE, "        endpoint.connect(rel)\n", "        endpoint.connect(rel)\n        if direction == EnumRelationDirection.BIDIRECTIONAL:\n            endpoint.connect(rel)\n")]),
 ('no port inward', 'bug', ['P09'], [(BE, "        endpoint.connect(rel)\n", "        if direction != EnumRelationDirection.INWARDS or weight is not None:\n            endpoint.connect(rel)\n")]),
 ('port before', 'bug', ['P09'], [(BE, "        self.add_element(rel)\n        endpoint.connect(rel)\n", "        endpoint.connect(rel)\n        self.add_element(rel)\n")]),
 ('direction dropped', 'bug', ['P09'], [(BE, "endpoint, weight, direction=direction,\n", "endpoint, weight,\n")]),
 ('sv dropped', 'bug', ['P09'], [(BE, "endpoint, weight, direction=direction,\n                                 semantic_value_node=semantic_value_node)", "endpoint, weight, direction=direction)")]),
 ('weight falsy', 'bug', ['P09'], [(BE, "        self._weight = weight\n", "        self._weight = weight if direction != EnumRelationDirection.INWARDS else None\n")]),
 ('port endpoint edge', 'bug', ['P09'], [(BE, "                           port_name, el, self)", "                           port_name, el.parent, self)")]),
 ('disconnect keeps', 'bug', ['P09'], [(BE, "        p = self._ports.pop(el.uuid)\n", "        p = self._ports[el.uuid]\n")]),
 ('disconnect by name', 'bug', ['P09'], [(BE, "self.remove_element(id_name=p.id_name, uuid=p.uuid)", "self.remove_element(id_name=p.id_name)")]),
 ('disconnect lazy', 'bug', ['P09'], [(BE, "        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):\n            pass\n", "        self.remove_element(id_name=p.id_name, uuid=p.uuid)\n")]),
 ('disconnect clears', 'bug', ['P09'], [(BE, "        p = self._ports.pop(el.uuid)\n", "        p = self._ports.pop(el.uuid)\n        list(self.remove_element(id_name=el.id_name))\n")]),
 ('sub_relations ports', 'bug', ['P09'], [(BE, "x: isinstance(x, HypergraphPort))", "x: isinstance(x, HypergraphPort) and x.endpoint is not self)")]),
 ('incoming no bi', 'bug', ['P10'], [(BE, INC, INC.replace(' or x.direction == EnumRelationDirection.BIDIRECTIONAL', ''))]),
 ('outgoing not in', 'bug', ['P10'], [(BE, OUTG, OUTG.replace('x.direction == EnumRelationDirection.OUTWARDS or x.direction == EnumRelationDirection.BIDIRECTIONAL', 'x.direction == EnumRelationDirection.OUTWARDS or x.direction >= EnumRelationDirection.INWARDS'))]),
 ('incidence swapped', 'bug', ['P10'], [(BE, "np.array([1.0, 0.0])", "np.array([0.0, 1.0])"), (BE, "case EnumRelationDirection.OUTWARDS:\n                self._relation_incidence_value = np.array([0.0, 1.0])", "case EnumRelationDirection.OUTWARDS:\n                self._relation_incidence_value = np.array([1.0, 0.0])")]),
 ('arrow swapped', 'bug', ['P10'], [(MU, "case '<-':", "case '->':"), (MU, "case '->':\n            return EnumRelationDirection.OUT", "case '<-':\n            return EnumRelationDirection.OUT")]),
 ('arrow default', 'bug', ['P10'], [(MU, "    raise ErrorInvalidDirection", "    return EnumRelationDirection.BIDIRECTIONAL")]),
 ('text in', 'bug', ['P10'], [(HT, "            return '--'", "            return '->'")]),
 ('values offset', 'bug', ['P11'], [(FF, OUT, "            node_out_values = zip(out_dir_nodes, values[len(out_dir_nodes):])\n")]),
 ('values in all', 'bug', ['P11'], [(FF, OUT, "            node_out_values = zip(out_dir_nodes, values)\n")]),
 ('values reversed', 'bug', ['P11'], [(FF, OUT, "            node_out_values = zip(out_dir_nodes, values[:-len(out_dir_nodes)-1:-1])\n")]),
 ('dir 0 for both', 'bug', ['P11'], [(FF, "direction[1])", "direction[0])")]),
 ('dir edges swapped', 'bug', ['P11'], [(FF, "(EnumRelationDirection.INWARDS, EnumRelationDirection.OUTWARDS)", "(EnumRelationDirection.OUTWARDS, EnumRelationDirection.INWARDS)")]),
 ('dir edges lists', 'bug', ['P11'], [(FF, "container, edge_name, in_dir_nodes, out_dir_nodes,\n                  ", "container, edge_name, out_dir_nodes, in_dir_nodes,\n                  ")]),
 ('fewer ok', 'bug', ['P11'], [(FF, "            if len(values) != len(nodes):", "            if len(values) < len(nodes):")]),
 ('in only', 'bug', ['P11'], [(FF, "(len(out_dir_nodes)+len(in_dir_nodes))", "2*len(in_dir_nodes)")]),
 ('no reject', 'bug', ['P11'], [(FF, "            if len(values) != len(nodes):\n                raise ErrorInsufficientValues\n", "")]),
 ('empty values', 'bug', ['P11'], [(FF, "        if values is None:\n            node_values = zip", "        if not values:\n            node_values = zip")]),
 ('tuple weight', 'bug', ['P11'], [(FF, "for n, dir, v, sv in nodes:", "for n, dir, sv, v in nodes:")]),
 ('tuple drop sv', 'bug', ['P11'], [(FF, "he.unary_connect(n, v, dir, sv)", "he.unary_connect(n, v, dir)")]),
 ('skip dup nodes', 'bug', ['P11'], [(FF, LOOP, "        seen = set()\n        for n,v in node_values:\n            if n in seen:\n                continue\n            seen.add(n)\n            he.unary_connect(n, v, direction)\n")]),
 ('default dir', 'bug', ['P11'], [(FF, LOOP, "        for n,v in node_values:\n            he.unary_connect(n, v)\n")]),
 ('create before', 'bug', ['P03'], [(FF, ZIP, "        he = self.create_hyperedge(container, edge_name)\n" + ZIP), (FF, "        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)\n        for n,v in node_values:", "        for n,v in node_values:")]),
 ('no return', 'bug', ['P11'], [(FF, LOOP + "        return he\n", LOOP)]),
]
