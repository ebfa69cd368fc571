"""P32: interfaces."""
CI = 'foundations/conceptual_item.py'
AI = 'foundations/abstract_items.py'
BE = 'hypergraph/base_elements.py'
VN = 'hypergraph/value_node.py'
GE = 'hypergraph/encoding/graph_tensor_icon.py'
CB = 'hypergraph/encoding/graph_tensor_icon_cbor.py'
SD = 'format/mapping/cognilang_sdf_icon.py'
TR = 'tensor/tensor_representation.py'
AR = 'hypergraph/representation/abstract_representations.py'
NF = 'hypergraph/norm/norm_functions.py'
HT = 'foundations/hierarchical_traversal_strategies.py'
GT = 'foundations/hypergraph_traversal_strategies.py'
GM = 'foundations/graph_monad.py'
QE = 'query/query_engine.py'
FO = 'hypergraph/factorization_operations.py'
HO = 'hypergraph/homomorphism_functions.py'
SE = 'foundations/query/search_elements.py'
CK = 'foundations/clock.py'
CE = 'format/semantics/CognitiveEntity.py'
P = ['P32']
CASES = [
    ('norm renamed', 'bug', P, [(NF, "class ProdNorm(TNorm):\n\n    def norm(", "class ProdNorm(TNorm):\n\n    def normalise(")]),
    ('clock lacks seconds', 'bug', P, [(CK, "class DummyClock(MetaClock):", "class FrozenClock(MetaClock):\n\n    def get_time_ns(self) -> int:\n        return 0\n\n\nclass DummyClock(MetaClock):")]),
    ('interface grows', 'bug', P, [(CK, "    @abc.abstractmethod\n    def get_time_ns", "    @abc.abstractmethod\n    def get_resolution(self) -> int:\n        raise NotImplementedError\n\n    @abc.abstractmethod\n    def get_time_ns")]),
    ('representation lacks entropy', 'bug', P, [(AR, "    @abc.abstractmethod\n", "    @abc.abstractmethod\n    def entropy_normalized(self):\n        raise NotImplementedError\n\n    @abc.abstractmethod\n")]),
    ('encode needs prefix', 'bug', P, [(SD, "async def encode(self, elements, prefix=\"\")", "async def encode(self, elements, prefix)")]),
    ('encode takes none', 'bug', P, [(SD, "async def encode(self, elements, prefix=\"\")", "async def encode(self, *, elements, prefix='')")]),
    ('execute needs depth', 'bug', P, [(GT, "    async def execute(self, start)", "    async def execute(self, start, depth)")]),
    ('execute plain', 'bug', P, [(TR, "    async def execute(self, start) -> list[asyncio.Future]:\n", "    def execute(self, start) -> list[asyncio.Future]:\n        asyncio.run(self._run(start))\n\n    async def _run(self, start) -> list[asyncio.Future]:\n")]),
    ('traverse yields', 'bug', P, [(HT, "class DepthLimitedDepthVisitChildren", "class EagerTraversal(BreadthFirstHierarchicalTraversal):\n\n    async def execute(self, start):\n        yield start\n\n\nclass DepthLimitedDepthVisitChildren")]),
    ('remove not lazily', 'bug', P, [(BE, "    def remove_element(self, id_name: str = \"\"", "    def remove_element(self, id_name: str = \"\"") if False else (BE, "class HypergraphPort(", "class LoosePort_(HierarchicalElement):\n\n    def remove_element(self, id_name: str = \"\", uuid: bytes = b\"\"):\n        self._sub_elements.pop(uuid, None)\n\n\nclass HypergraphPort(")]),
    ('get defaults', 'bug', P, [(BE, "class HypergraphPort(", "class FarElement_(HierarchicalElement):\n\n    def remove_element(self, id_name=None, uuid=b\"\"):\n        yield from super().remove_element(id_name, uuid)\n\n\nclass HypergraphPort(")]),
    ('field unset', 'bug', P, [(HO, "        self._ignore_root", "        self._ignore_root") if False else (QE, "        self.__start = context\n", "        if context is not None:\n            self.__start = context\n")]),
    ('no super', 'bug', P, [(GT, "super().__init__(visitor_func, filter_func)", "self._filter_func = filter_func")]),
    ('no super in tensor', 'same', P, [(TR, "        super().__init__()\n", "        pass\n")]),
    ('equality without hash', 'bug', P, [(AI, "    def ", "    def __eq__(self, other):\n        return isinstance(other, IdentifiableItem) and self._uuid == other._uuid\n\n    def ")]),
    ('no hash', 'bug', P, [(VN, "class ValueNode(HierarchicalElement):\n", "class ValueNode(HierarchicalElement):\n    __hash__ = None\n")]),
    ('property becomes method', 'bug', P, [(VN, "class SemanticValueNode(", "class LabelledValue(ValueNode):\n\n    def qualified_name(self):\n        return self.id_name\n\n\nclass SemanticValueNode(")]),
    # same
    ('eq and hash', 'same', P, [(AI, "    def ", "    def __eq__(self, other):\n        return self is other\n\n    def __hash__(self):\n        return id(self)\n\n    def ")]),
    ('execute delegates', 'same', P, [(HO, "    async def execute(self, start)", "    def execute(self, start):\n        return self._run(start)\n\n    async def _run(self, start)")]),
    ('optional extra', 'same', P, [(GT, "    async def execute(self, start)", "    async def execute(self, start, *, trace=None)")]),
    ('catch all', 'same', P, [(NF, "class SumNorm(SNorm):\n", "class AnyNorm(SNorm):\n\n    def norm(self, *args, **kwargs):\n        return 0.0\n\n\nclass SumNorm(SNorm):\n")]),
    ('fields in helper', 'same', P, [(QE, "        self.__start = context\n", "        self.__bind(context)\n"), (QE, "    async def prefilter(self):", "    def __bind(self, context):\n        self.__start = context\n\n    async def prefilter(self):")]),
    ('class level default', 'same', P, [(QE, "class HierarchicalPrepositionQuery(GraphMonad):\n", "class HierarchicalPrepositionQuery(GraphMonad):\n    __start = None\n")]),
    ('new interface', 'same', P, [(CK, "class MetaClock", "class Ticking(abc.ABC):\n\n    @abc.abstractmethod\n    def tick(self):\n        raise NotImplementedError\n\n\nclass MetaClock")]),
]
