"""P31: imports, names, attributes, calls."""
CI = 'foundations/conceptual_item.py'
BE = 'hypergraph/base_elements.py'
VN = 'hypergraph/value_node.py'
FF = 'factories/foundation_factory.py'
GE = 'hypergraph/encoding/graph_tensor_icon.py'
CB = 'hypergraph/encoding/graph_tensor_icon_cbor.py'
SD = 'format/mapping/cognilang_sdf_icon.py'
FI = 'format/mapping/cognilang_file_icon.py'
KI = 'format/phys/kinematics/kinematic_semantic_context.py'
IN = 'format/phys/inertia_context.py'
SG = 'format/phys/solid_geometry_context.py'
TR = 'tensor/tensor_representation.py'
NF = 'hypergraph/norm/norm_functions.py'
HT = 'foundations/hierarchical_traversal_strategies.py'
GT = 'foundations/hypergraph_traversal_strategies.py'
QE = 'query/query_engine.py'
FO = 'hypergraph/factorization_operations.py'
SE = 'foundations/query/search_elements.py'
EV = 'format/semantics/cognitive_entity_values.py'
P = ['P31']
CASES = [
    ('imports tests', 'bug', P, [(QE, "import asyncio\n", "import asyncio\nfrom test.test_simple_graph_bench import bench_sanity\n")]),
    ('imports tests lazily', 'bug', P, [(QE, "    def ", "    def _t(self):\n        from test import common\n        return common\n\n    def ")]),
    ('imports app', 'bug', P, [(SD, "import typing\n", "import typing\nfrom apps.simulation.convert_cognilang_sdf import main\n")]),
    ('missing import', 'bug', P, [(KI, "from rei.format.common_util import join_w_separator, join_w_prefix_separator\n", "from rei.format.common_util import join_w_separator\n")]),
    ('missing module import', 'bug', P, [(FI, "import math\n", "")]),
    ('wrong module', 'bug', P, [(EV, "from rei.factories.abstract_factory import", "from rei.factories.abstract_factories import")]),
    ('wrong name', 'bug', P, [(SG, "from rei.hypergraph.base_elements import HypergraphEdge,", "from rei.hypergraph.base_elements import HyperEdge,")]),
    ('cycle', 'bug', P, [(VN, "import typing\n", "import typing\nfrom rei.hypergraph.base_elements import HypergraphElement\n")]),
    ('cycle by other entry', 'bug', P, [('hypergraph/common_definitions.py', "from enum import IntEnum\n", "from enum import IntEnum\nfrom rei.format.mapping.cognilang_mapping_errors import ErrorInvalidDirection\n"), ('format/mapping/cognilang_mapping_errors.py', "class ErrorInvalidDirection", "from rei.hypergraph.common_definitions import EnumRelationDirection\n\n\nclass ErrorInvalidDirection", )]),
    ('cycle from one side', 'bug', P, [(VN, "import typing\n", "import typing\nimport rei.hypergraph.base_elements\n")]),
    ('lazy cycle', 'same', P, [(VN, "import typing\n", "import typing\n\n\ndef _base():\n    from rei.hypergraph.base_elements import HypergraphElement\n    return HypergraphElement\n")]),
    ('type checking cycle', 'same', P, [(VN, "import typing\n", "import typing\nif typing.TYPE_CHECKING:\n    from rei.hypergraph.base_elements import HypergraphElement\n")]),
    ('numpy name', 'bug', P, [(NF, "np.sum", "np.summ")]),
    ('old numpy name', 'bug', P, [(TR, "import copy\n", "import copy\n\nLIMIT = np.Inf\n")]),
    ('numpy keyword', 'bug', P, [(TR, "import copy\n", "import copy\n\n\ndef pad(x):\n    return np.array_equal(x, x, equal=True)\n")]),
    ('asyncio name', 'bug', P, [(FO, "import typing\n", "import typing\n\n\ndef spawn(c):\n    return asyncio.async_run(c)\n")]),
    ('queue method', 'bug', P, [(GE, "queue.Queue()", "queue.Queue().deque") if False else (GE, "import queue\n", "import queue\n\n\ndef first():\n    q = queue.Queue()\n    return q.peek()\n")]),
    ('list method', 'bug', P, [(GE, "import queue\n", "import queue\n\n\ndef first():\n    q = []\n    q.push(1)\n    return q\n")]),
    ('private typo', 'bug', P, [(BE, "self._sub_relations.pop(", "self.__sub_relations.pop(")] if False else [(QE, "self.__prefilter.append", "self.__prefilters.append")]),
    ('private of base', 'bug', P, [(VN, "    def ", "    def _owner(self):\n        return self.__parent\n\n    def ")]),
    ('global mangled', 'bug', P, [(FI, "            rotation = [0.0, 0.0, 0.0]\n            rotation_type = 'deg'\n", "            rotation = list(__DEFAULT_ROTATION_LIST)\n            rotation_type = 'deg'\n")]),
    ('attribute typo', 'bug', P, [(SD, None, None)]),
    ('public typo', 'bug', P, [(SE, "self._result.append", "self._results.append")]),
    ('constructor arity', 'bug', P, [(CB, "HypergraphFactory(", "HypergraphFactory(self, ")]),
    ('method arity', 'bug', P, [(FI, "self.__factory.generate_node(\"parameters\")", "self.__factory.generate_node()")]),
    ('method keyword', 'bug', P, [(FI, "self.__factory.generate_node(\"parameters\")", "self.__factory.generate_node(name=\"parameters\")")]),
    ('function arity', 'bug', P, [(KI, "encode_geometry_element(", "encode_geometry_element(None, None, None, None, ")]),
    ('super arity', 'bug', P, [(VN, "super().__init__(", "super().__init__(self, ")]),
    ('local before', 'bug', P, [(IN, "    r = geom['values'][0]\n", "    r = radius * 1.0\n    radius = geom['values'][0]\n")]),
    ('local gone', 'bug', P, [(IN, "    r = geom['values'][0]\n", "")]),
    # same behaviour
    ('alias numpy', 'same', P, [(NF, "import numpy as np\n", "import numpy\nnp = numpy\n")]),
    ('lazy import', 'same', P, [(FI, "import math\n", ""), (FI, "            match _rotation_type:\n", "            import math\n            match _rotation_type:\n")]),
    ('relative import', 'same', P, [(FI, "from rei.format.mapping.cognilang_mapping_errors import", "from .cognilang_mapping_errors import")]),
    ('module import', 'same', P, [(IN, "from rei.hypergraph.base_elements import HypergraphNode\n", "import rei.hypergraph.base_elements as elements\n\nHypergraphNode = elements.HypergraphNode\n")]),
    ('string annotation', 'same', P, [(KI, "from rei.hypergraph.common_definitions import EnumRelationDirection\n", "from rei.hypergraph.common_definitions import EnumRelationDirection\n\n\ndef _first(x: 'HypergraphNode') -> 'list[HypergraphNode]':\n    return [x]\n")]),
    ('helper with kwargs', 'same', P, [(KI, "from rei.hypergraph.common_definitions import EnumRelationDirection\n", "from rei.hypergraph.common_definitions import EnumRelationDirection\n\n\ndef _join(*args, **kwargs):\n    return join_w_separator(*args, **kwargs)\n")]),
    ('optional dependency', 'same', P, [(TR, "import copy\n", "import copy\ntry:\n    import scipy\nexcept ImportError:\n    scipy = None\n")]),
    ('comprehension names', 'same', P, [(QE, "import asyncio\n", "import asyncio\n\n\ndef _pairs(xs, ys):\n    return [(x, y) for x in xs for y in ys if x is not y]\n\n\ndef _walrus(xs):\n    if (n := len(xs)) > 2:\n        return n\n    return [m for x in xs if (m := x)]\n")]),
    ('loop carried', 'same', P, [(QE, "import asyncio\n", "import asyncio\n\n\ndef _last(xs):\n    found = False\n    for x in xs:\n        if found:\n            return last\n        last = x\n        found = True\n    try:\n        v = last\n    except NameError:\n        v = None\n    finally:\n        done = True\n    return v, done\n")]),
    ('nested function', 'same', P, [(QE, "import asyncio\n", "import asyncio\n\n\ndef _outer():\n    def inner():\n        return later\n    later = 1\n    return inner()\n")]),
]
CASES = [c for c in CASES if c[0] not in ('attribute typo',)]
