H = 'foundations/hierarchical_traversal_strategies.py'
T = 'foundations/hypergraph_traversal_strategies.py'
S = 'foundations/query/search_elements.py'
FO = 'hypergraph/factorization_operations.py'
QE = 'query/query_engine.py'
HM = 'hypergraph/homomorphism_functions.py'
TE = 'tensor/tensor_representation.py'
GT = 'hypergraph/encoding/graph_tensor_icon.py'
VN = 'hypergraph/value_node.py'
P15 = ['P15']
CASES = [
    # same
    ('reset by clear of private dicts', 'same', [], [(HM, """        self.__hom_node_dim: dict[bytes, int] = {}
        self.__hom_edge_depth: dict[bytes, int] = {}
        self.__hom_values: dict[bytes, int] = {}
        # Reverse mappings (index to unique identifiers)
        self.__hom_dim_node: dict[int, bytes] = {}
        self.__hom_depth_edge: dict[int, bytes] = {}
        self.__hom_i_values: dict[int, bytes] = {}

    async""", """        for table in (self.__hom_node_dim, self.__hom_edge_depth, self.__hom_values,
                      self.__hom_dim_node, self.__hom_depth_edge, self.__hom_i_values):
            table.clear()

    async""")]),
    ('reset clear one', 'same', [], [(HM, """        self.__hom_i_values: dict[int, bytes] = {}

    async""", """        self.__hom_i_values.clear()

    async""")]),
    ('default tuple', 'same', [], [(S, "def __init__(self) -> None:", "def __init__(self, initial=()) -> None:"), (S, "        self._result = []\n\n    def", "        self._result = list(initial)\n\n    def")]),
    ('default list copied', 'same', [], [(S, "def __init__(self) -> None:", "def __init__(self, initial=[]) -> None:"), (S, "        self._result = []\n\n    def", "        self._result = list(initial)\n\n    def")]),
    ('class attr default replaced', 'same', [], [(S, "class GraphQuery(GraphMonad, ABC):\n", "class GraphQuery(GraphMonad, ABC):\n    _result = []\n")]),
    ('module constant read', 'same', [], [(HM, "class IndexHom", "KINDS = ['node', 'edge', 'value']\n\n\nclass IndexHom"), (HM, "    def reset_homology(self):\n", "    @property\n    def kinds(self):\n        return len(KINDS)\n\n    def reset_homology(self):\n")]),
    ('local result list', 'same', [], [(FO, """        self.__relation_list = []
        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        for __edge""", """        self.__relation_list = found = []
        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        for __edge""")]),
    ('inits dropped', 'same', [], [(TE, "        self._tensor_representation: AbstractTensorRepresentation | None = None\n        self.repr_depth", "        self._tensor_representation = None\n        self.repr_depth")]),
    # bugs
    ('factor no reset', 'bug', P15, [(FO, "    async def execute(self, start) -> list[asyncio.Future]:\n        self.__relation_list = []\n        __fringe", "    async def execute(self, start) -> list[asyncio.Future]:\n        __fringe")]),
    ('factor clear result', 'bug', P15, [(FO, "    async def execute(self, start) -> list[asyncio.Future]:\n        self.__relation_list = []\n        __fringe", "    async def execute(self, start) -> list[asyncio.Future]:\n        self.__relation_list.clear()\n        __fringe")]),
    ('rel factor setdefault dicts', 'bug', P15, [(FO, "        self.incoming_relations = {}\n", "        self.incoming_relations = getattr(self, 'incoming_relations', {})\n")]) if False else
    ('rel factor ctor dicts', 'bug', P15, [(FO, "        self.incoming_relations = {}\n        self.outgoing_relations = {}\n", ""), (FO, "class RelationFactorization2SubsetOperation(GraphMonad):\n\n    def __init__(self, self_loop=False):\n        super().__init__()\n", "class RelationFactorization2SubsetOperation(GraphMonad):\n\n    def __init__(self, self_loop=False):\n        super().__init__()\n        self.incoming_relations = {}\n        self.outgoing_relations = {}\n")]),
    ('nodes kept', 'bug', P15, [(FO, """        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        for __edge""", """        self.nodes = self.nodes or [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        for __edge""")]),
    ('index no reset', 'bug', P15, [(HM, "        self.reset_homology()\n        return [*await", "        return [*await")]),
    ('index reset only once', 'bug', P15, [(HM, "        self.reset_homology()\n        return [*await", "        if self._cnt_node == 0:\n            self.reset_homology()\n        return [*await")]),
    ('index counter kept', 'bug', P15, [(HM, "    def reset_homology(self):\n        self._cnt_node = 0\n", "    def reset_homology(self):\n")]),
    ('index map kept', 'bug', P15, [(HM, "        self.__hom_i_values: dict[int, bytes] = {}\n\n    async", "\n    async")]),
    ('tensor reused', 'bug', P15, [(TE, "        self._tensor_representation = NumpyTensorRepresentation()\n", "        if self._tensor_representation is None:\n            self._tensor_representation = NumpyTensorRepresentation()\n")]),
    ('default list', 'bug', P15, [(S, "def __init__(self) -> None:", "def __init__(self, initial=[]) -> None:"), (S, "        self._result = []\n\n    def", "        self._result = initial\n\n    def")]),
    ('class list', 'bug', P15, [(S, "class GraphQuery(GraphMonad, ABC):\n", "class GraphQuery(GraphMonad, ABC):\n    _result = []\n"), (S, "        self._result = []\n\n    def", "\n    def"), (S, "        self._result = []\n        __f", "        self._result.clear()\n        __f")]),
    ('class visited', 'bug', P15, [(S, "class QuerySearchElement(GraphQuery):\n", "class QuerySearchElement(GraphQuery):\n    visited_set = set()\n"), (S, "        self.visited_set = set()\n\n", "\n"), (S, "        self.visited_set = set()\n        return", "        self.visited_set.clear()\n        return")]),
    ('module cache', 'bug', P15, [(S, "class GraphQuery(GraphMonad, ABC):\n", "_FOUND = {}\n\n\nclass GraphQuery(GraphMonad, ABC):\n"), (S, "                self._result.append(__next)\n                return\n            for n in __next.get_subelements(lambda x: True):\n                await", "                self._result.append(__next)\n                _FOUND[self._query_def] = __next\n                return\n            for n in __next.get_subelements(lambda x: True):\n                await")]),
    ('lru cache', 'bug', P15, [(HM, "import asyncio\n", "import asyncio\nimport functools\n"), (HM, "    def node(self, uuid: bytes) -> int:", "    @functools.lru_cache(maxsize=None)\n    def node(self, uuid: bytes) -> int:")]),
    ('global counter', 'bug', P15, [(HM, "class IndexHom", "_NEXT = 0\n\n\nclass IndexHom"), (HM, "        i_current_edge = self._cnt_edges\n", "        global _NEXT\n        i_current_edge = self._cnt_edges\n        _NEXT += 1\n")]),
    ('class counter', 'bug', P15, [(HM, "    def __init__(self, ignore_root: bool = False, depth: int = 1):\n        super().__init__()\n", "    _cnt_edges_all = 0\n\n    def __init__(self, ignore_root: bool = False, depth: int = 1):\n        super().__init__()\n"), (HM, "        i_current_edge = self._cnt_edges\n", "        i_current_edge = self._cnt_edges\n        IndexHomomorphismGraphTensor._cnt_edges_all += 1\n")]),
    ('traversal fringe default', 'bug', P15, [(H, "fringe: asyncio.Queue | None = None", "fringe: asyncio.Queue = asyncio.Queue()"), (H, "_fringe = asyncio.Queue() if fringe is None else fringe", "_fringe = fringe")]),
    ('traversal fringe copied', 'bug', P15, [(H, "import asyncio\n", "import asyncio\nimport copy\n"), (H, "fringe: asyncio.Queue | None = None", "fringe: asyncio.Queue = asyncio.Queue()"), (H, "_fringe = asyncio.Queue() if fringe is None else fringe", "_fringe = copy.copy(fringe)")]),
    ('task list on self', 'bug', P15, [(H, "        _task_list = []\n", "        _task_list = self._task_list\n"), (H, "        self._ignore_root = ignore_root\n", "        self._ignore_root = ignore_root\n        self._task_list = []\n")]),
    ('task list reused', 'bug', P15, [(H, "        _task_list = []\n", "        self._task_list.clear()\n        _task_list = self._task_list\n"), (H, "        self._ignore_root = ignore_root\n", "        self._ignore_root = ignore_root\n        self._task_list = []\n")]),
    ('queue of transformer kept', 'bug', P15, [(TE, "        q = queue.Queue()\n        tr =", "        q = self._q\n        tr ="), (TE, "        self.repr_depth = repr_depth\n\n    async", "        self.repr_depth = repr_depth\n        self._q = queue.Queue()\n\n    async")]),
    ('messages not cleared', 'bug', ['P25'], [(GT, "        self._clear_messages()\n", "")]),
    ('messages partly cleared', 'bug', P15, [(GT, "        self._msg_incidence_out = []\n        self._msg_incidence_in = []\n\n    async", "        self._msg_incidence_out = []\n\n    async")]),
    ('search result kept', 'bug', P15, [(S, "        self._result = []\n        __f", "        __f")]),
    ('last start remembered', 'bug', P15, [(S, "    async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:\n        self._result = []", "    async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:\n        if self._start is None:\n            self._start = start\n        start = self._start\n        self._result = []"), (S, "        self._query_def = \"\"\n", "        self._query_def = \"\"\n        self._start = None\n")]),
]
