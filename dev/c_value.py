"""P26: value nodes."""
VN = 'hypergraph/value_node.py'
CE = 'format/semantics/CognitiveEntity.py'
FF = 'factories/foundation_factory.py'
P = ['P26']
INIT = """        if values is not None:
            self._values = [x for x in values]
            self.dim = len(self._values)
        else:
            self._values = []
            self.dim = 0
"""
UPD = """        self._values = [x for x in arg]
        self.dim = len(self._values)
"""
SET = "        self._values[i] = arg\n"
ITEM = "        self._values[key] = value\n"
IT = "        return (self[i] for i in range(self.dim))\n"
GV = "        return [v for v in self._values]\n"
SA = "        self.__attribute_dictionary = {x: attr[x] for x in attr}\n"
SG = """        if item not in self.__attribute_dictionary:
            return None
        return self.__attribute_dictionary[item]
"""
SR = """        if name in self.__attribute_dictionary:
            self.__attribute_dictionary.pop(name)
"""
SN = "        self.__attribute_dictionary[name] = arg\n"
DIM = ("    def get_value(self, i):\n", "    @property\n    def dim(self):\n        return len(self._values)\n\n    def get_value(self, i):\n")
CASES = [
    ('list()', 'same', P, [(VN, INIT, "        self._values = list(values) if values is not None else []\n        self.dim = len(self._values)\n"), (VN, GV, "        return list(self._values)\n")]),
    ('slice', 'same', P, [(VN, GV, "        return self._values[:]\n"), (VN, UPD, "        self._values = [*arg]\n        self.dim = len(self._values)\n")]),
    ('copy', 'same', P, [(VN, GV, "        return self._values.copy()\n")]),
    ('dim property', 'same', P, [(VN, INIT, "        self._values = [] if values is None else list(values)\n"), (VN, UPD, "        self._values = list(arg)\n"), (VN,) + DIM]),
    ('init by update', 'same', P, [(VN, INIT, "        self.update_values(() if values is None else values)\n")]),
    ('iter list', 'same', P, [(VN, IT, "        return iter(self._values)\n")]),
    ('iter yield', 'same', P, [(VN, IT, "        for i in range(self.dim):\n            yield self._values[i]\n")]),
    ('iter yield from', 'same', P, [(VN, IT, "        yield from self._values\n")]),
    ('iter while', 'same', P, [(VN, IT, "        i = 0\n        while i < self.dim:\n            yield self._values[i]\n            i += 1\n")]),
    ('setitem delegates', 'same', P, [(VN, SET, "        self[i] = arg\n")]),
    ('in place new list', 'same', P, [(VN, UPD, "        arg = list(arg)\n        self._values.clear()\n        self._values.extend(arg)\n        self.dim = len(arg)\n")]),
    ('slice assign', 'same', P, [(VN, UPD, "        self._values[:] = [x for x in arg]\n        self.dim = len(self._values)\n")]),
    ('dict()', 'same', P, [(VN, SA, "        self.__attribute_dictionary = dict(attr)\n")]),
    ('dict copy', 'same', P, [(VN, SA, "        self.__attribute_dictionary = attr.copy()\n")]),
    ('dict merge', 'same', P, [(VN, SA, "        self.__attribute_dictionary = {**attr}\n")]),
    ('dict loop', 'same', P, [(VN, SA, "        self.__attribute_dictionary = {}\n        for k, v in attr.items():\n            self.add_named_attribute(k, v)\n")]),
    ('get', 'same', P, [(VN, SG, "        return self.__attribute_dictionary.get(item)\n")]),
    ('try', 'same', P, [(VN, SG, "        try:\n            return self.__attribute_dictionary[item]\n        except KeyError:\n            return None\n")]),
    ('pop default', 'same', P, [(VN, SR, "        self.__attribute_dictionary.pop(name, None)\n")]),
    ('del', 'same', P, [(VN, SR, "        if name not in self.__attribute_dictionary:\n            return\n        del self.__attribute_dictionary[name]\n")]),
    ('update', 'same', P, [(VN, SN, "        self.__attribute_dictionary.update({name: arg})\n")]),
    ('setup once', 'same', P, [(CE, "        self.remove_named_attribute('name')\n", "")]),
    ('new dict', 'same', P, [(VN, SN, "        self.__attribute_dictionary = {**self.__attribute_dictionary, name: arg}\n")]),
    # broken
    ('keeps list', 'bug', P, [(VN, "            self._values = [x for x in values]\n", "            self._values = values\n")]),
    ('keeps list when list', 'bug', P, [(VN, "            self._values = [x for x in values]\n", "            self._values = values if isinstance(values, list) else list(values)\n")]),
    ('keeps updated list', 'bug', P, [(VN, UPD, "        self._values = arg\n        self.dim = len(self._values)\n")]),
    ('hands out', 'bug', P, [(VN, GV, "        return self._values\n")]),
    ('dim stale', 'bug', P, [(VN, UPD, "        self._values = [x for x in arg]\n")]),
    ('dim before', 'bug', P, [(VN, UPD, "        self.dim = len(self._values)\n        self._values = [x for x in arg]\n")]),
    ('dim grows only', 'bug', P, [(VN, UPD, "        self._values = [x for x in arg]\n        self.dim = max(self.dim, len(self._values))\n")]),
    ('extends', 'bug', P, [(VN, UPD, "        self._values.clear()\n        self._values.extend(arg)\n        self.dim = len(self._values)\n")]),
    ('longer than needed', 'bug', P, [(VN, UPD, "        for i, x in enumerate(arg):\n            self._values[i] = x\n")]),
    ('keeps the rest', 'bug', P, [(VN, UPD, "        arg = list(arg)\n        self._values[:len(arg)] = arg\n        self.dim = len(self._values)\n")]),
    ('own iterator', 'bug', P, [(VN, IT, "        self._recent_element = 0\n        return self\n\n    def __next__(self):\n        if self._recent_element >= self.dim:\n            raise StopIteration\n        v = self._values[self._recent_element]\n        self._recent_element += 1\n        return v\n")]),
    ('own iterator, no reset', 'bug', P, [(VN, IT, "        return self\n\n    def __next__(self):\n        if self._recent_element >= self.dim:\n            raise StopIteration\n        v = self._values[self._recent_element]\n        self._recent_element += 1\n        return v\n")]),
    ('iter short', 'bug', P, [(VN, IT, "        return (self[i] for i in range(1, self.dim))\n")]),
    ('iter reversed', 'bug', P, [(VN, IT, "        return reversed(self._values)\n")]),
    ('iter unique', 'bug', P, [(VN, IT, "        return iter(sorted(self._values))\n")]),
    ('writes neighbour', 'bug', P, [(VN, ITEM, "        self._values[key - 1] = value\n")]),
    ('writes only new', 'bug', P, [(VN, SET, "        if self._values[i] is None:\n            self._values[i] = arg\n")]),
    ('writes all', 'bug', P, [(VN, SET, "        self._values = [arg for _ in self._values]\n")]),
    ('writes from', 'bug', P, [(VN, ITEM, "        self._values[key:] = [value]\n")]),
    ('inserts', 'bug', P, [(VN, ITEM, "        self._values.insert(key, value)\n")]),
    ('keeps dict', 'bug', P, [(VN, SA, "        self.__attribute_dictionary = attr\n")]),
    ('keeps full dict', 'bug', P, [(VN, SA, "        self.__attribute_dictionary = attr or {}\n")]),
    ('missing raises', 'bug', P, [(VN, SG, "        return self.__attribute_dictionary[item]\n")]),
    ('falsy missing', 'bug', P, [(VN, SG, "        return self.__attribute_dictionary.get(item) or None\n")]),
    ('pop raises', 'bug', P, [(VN, SR, "        self.__attribute_dictionary.pop(name)\n")]),
    ('keeps first', 'bug', P, [(VN, SN, "        self.__attribute_dictionary.setdefault(name, arg)\n")]),
    ('setup drops all', 'bug', P, [(CE, "        self.remove_named_attribute('name')\n", "        self._SemanticValueNode__attribute_dictionary.clear()\n")]),
    ('setup absent', 'bug', P, [(CE, "        self.remove_named_attribute('name')\n        self.add_named_attribute('name', name)\n", "        if self['name'] is None:\n            self.add_named_attribute('name', name)\n")]),
    ('subclass keeps dict', 'bug', P, [(CE, "class KinematicLink(SemanticValueNode):\n\n    def __init__(self, uuid: bytes, id_name: str, progenitor_qualified_name: str, parent, attr: dict):\n        super().__init__(uuid, id_name, progenitor_qualified_name, parent, attr)\n", "class KinematicLink(SemanticValueNode):\n\n    def __init__(self, uuid: bytes, id_name: str, progenitor_qualified_name: str, parent, attr: dict):\n        super().__init__(uuid, id_name, progenitor_qualified_name, parent, attr)\n        self._SemanticValueNode__attribute_dictionary = attr\n")]),
    ('setter drops none', 'bug', P, [(VN, SN, "        if arg:\n            self.__attribute_dictionary[name] = arg\n")]),
]
