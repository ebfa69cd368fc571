"""P12: construction."""
CI = 'foundations/conceptual_item.py'
BE = 'hypergraph/base_elements.py'
QE = 'query/query_engine.py'
VN = 'hypergraph/value_node.py'
P = ['P12']
CO = """        super().__init__(uuid, id_name, qualified_name, parent)
        self._clock = clock

        # Timestamp
        self._update_timestamp()
        # Setup parent
        if parent is not None:
            parent.add_element(self)
"""
EL = """        self._id_generation = Sha3UniqueIdentifierGenerator(uuid.hex(), HypergraphElement.identification_generation)
        # Ports to deduce associated relations
        self._ports: dict[bytes, HypergraphPort] = {}
        super().__init__(id_name, uuid, qualified_name, clock, parent)
"""
G, PO, SU = EL.split("        # Ports")[0], "        self._ports: dict[bytes, HypergraphPort] = {}\n", "        super().__init__(id_name, uuid, qualified_name, clock, parent)\n"
ED = "        self._sub_relations = {}\n        super().__init__(id_name, uuid, qualified_name, clock, parent)\n"
QU = "        self.__queries = dict()\n        super().__init__(id_name, uuid, qualified_name, clock, parent)\n"
HI = "        super().__init__(uuid, id_name, progenitor_qualified_name)\n        self._parent = None\n"
IX = "        self._index_elements_by_name = {}\n\n    @property\n    def parent"
CASES = [
    ('ports first', 'same', P, [(BE, EL, PO + G + SU)]),
    ('early return', 'same', P, [(CI, "        if parent is not None:\n            parent.add_element(self)\n\n    @property\n    def clock", "        if parent is None:\n            return\n        parent.add_element(self)\n\n    @property\n    def clock")]),
    ('register', 'same', P, [(CI, "        # Setup parent\n        if parent is not None:\n            parent.add_element(self)\n", "        self._attach(parent)\n\n    def _attach(self, parent):\n        if parent is not None:\n            parent.add_element(self)\n")]),
    ('dict call', 'same', P, [(BE, ED, "        self._sub_relations = dict()\n        super().__init__(id_name=id_name, uuid=uuid, qualified_name=qualified_name, clock=clock, parent=parent)\n")]),
    ('no parent to super, attach last', 'same', P, [(BE, EL, "        super().__init__(id_name, uuid, qualified_name, clock)\n" + G + PO + "        if parent is not None:\n            parent.add_element(self)\n"),
        (BE, ED, "        self._sub_relations = {}\n        super().__init__(id_name, uuid, qualified_name, clock, parent)\n")]),
    ('setup method', 'same', P, [(BE, EL, "        self._prepare(uuid)\n" + SU + "\n    def _prepare(self, uuid):\n" + G + PO)]),
    ('table of weights', 'same', P, [(BE, """        match self._direction:
            case EnumRelationDirection.BIDIRECTIONAL:
                self._relation_incidence_value = np.array([1.0, 1.0])
            case EnumRelationDirection.INWARDS:
                self._relation_incidence_value = np.array([1.0, 0.0])
            case EnumRelationDirection.OUTWARDS:
                self._relation_incidence_value = np.array([0.0, 1.0])
""", """        if direction == EnumRelationDirection.INWARDS:
            self._relation_incidence_value = np.array([1.0, 0.0])
        elif direction == EnumRelationDirection.OUTWARDS:
            self._relation_incidence_value = np.array([0.0, 1.0])
        else:
            self._relation_incidence_value = np.array([1.0, 1.0])
""")]),
    # broken
    ('clock after', 'bug', P, [(CI, "        self._clock = clock\n\n", "\n"), (CI, "            parent.add_element(self)\n\n    @property\n    def clock", "            parent.add_element(self)\n        self._clock = clock\n\n    @property\n    def clock")]),
    ('timestamp after', 'bug', P, [(CI, "        self._update_timestamp()\n        # Setup parent\n        if parent is not None:\n            parent.add_element(self)\n", "        if parent is not None:\n            parent.add_element(self)\n        self._update_timestamp()\n")]),
    ('ports after', 'bug', P, [(BE, EL, G + SU + PO)]),
    ('ports again', 'bug', P, [(BE, EL, EL + PO)]),
    ('generator after', 'bug', P, [(BE, EL, PO + SU + G)]),
    ('generator replaced', 'bug', P, [(BE, EL, "        self._id_generation = None\n" + PO + SU + G)]),
    ('relations after', 'bug', P, [(BE, ED, "        super().__init__(id_name, uuid, qualified_name, clock, parent)\n        self._sub_relations = {}\n")]),
    ('queries after', 'bug', P, [(QE, QU, "        super().__init__(id_name, uuid, qualified_name, clock, parent)\n        self.__queries = dict()\n")]),
    ('base attaches', 'bug', P, [(CI, IX, "        self._index_elements_by_name = {}\n        if parent is not None:\n            parent.add_element(self)\n\n    @property\n    def parent"), (CI, "        if parent is not None:\n            parent.add_element(self)\n\n    @property\n    def clock", "\n    @property\n    def clock")]),
    ('direct', 'bug', P, [(CI, HI, HI.replace("self._parent = None\n", "self._parent = None\n        if parent is not None:\n            parent._sub_elements[uuid] = self\n"))]),
    ('unset field', 'bug', P, [(VN, "            self._values = []\n            self.dim = 0\n", "            self._values = []\n")]),
    ('attach in the middle', 'bug', P, [(CI, "        self._clock = clock\n\n        # Timestamp\n        self._update_timestamp()\n        # Setup parent\n        if parent is not None:\n            parent.add_element(self)\n", "        if clock is None and parent is not None:\n            clock = parent.clock\n            parent.add_element(self)\n            parent = None\n        self._clock = clock\n        self._update_timestamp()\n        if parent is not None:\n            parent.add_element(self)\n")]),
    ('filled after', 'bug', P, [(BE, ED, ED + "        self._sub_relations[uuid] = None\n")]),
    ('relation attaches', 'bug', P, [(BE, "        self._endpoint = endpoint\n        self._direction = direction\n", "        if parent is not None:\n            parent.add_element(self)\n        self._endpoint = endpoint\n        self._direction = direction\n")]),
    ('no default weight', 'bug', P, [(BE, "            case EnumRelationDirection.OUTWARDS:\n                self._relation_incidence_value = np.array([0.0, 1.0])\n", "")]),
]
