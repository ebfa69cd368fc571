"""P13: identifiers."""
IG = 'foundations/identification/identity_generator.py'
AF = 'factories/abstract_factory.py'
FF = 'factories/foundation_factory.py'
BE = 'hypergraph/base_elements.py'
SF = 'format/semantics/cognitive_entity_semantic_factory.py'
P = ['P13']
UP = '''        s = hashlib.sha3_224()
        s.update(self._id_generation_function(self._context_name, arg).encode("utf-8"))
        return s.digest()
'''
LAM = 'lambda x, y: f"{x}/{self.get_qualified_name(y)}")'
GQ = 'return f"{name}.{self._clock.get_time_ns()}"'
GN = """        if parent is not None:
            uid = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))
        else:
            uid = self.unique_identifier.generate_uid(id_name)
"""
J = "self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))"
CE = "generate_uid(':'.join([parent.qualified_name, edge_name]))"
CN = """        uuid: bytes = self.unique_identifier.generate_uid(':'.join([container.qualified_name, edge_name]))
        if values is None:
            node_values"""
CV = "generate_uid('='.join([parent.qualified_name, value_name]))"
IGN = "return f\"{x}/{y.uuid.hex()}\""
CTX = "Sha3UniqueIdentifierGenerator(uuid.hex(), HypergraphElement.identification_generation)"
CASES = [
    ('digest in one', 'same', P, [(IG, UP, '''        text = self._id_generation_function(self._context_name, arg)
        return hashlib.sha3_224(text.encode("utf-8")).digest()
''')]),
    ('hash new', 'same', P, [(IG, UP, '''        s = hashlib.new("sha3_224")
        raw = bytes(self._id_generation_function(self._context_name, arg), "utf-8")
        s.update(raw)
        return s.digest()
''')]),
    ('f-string', 'same', P, [(FF, GN, '''        label = id_name if parent is None else f"{parent.qualified_name}/{id_name}"
        uid = self.unique_identifier.generate_uid(label)
''')]),
    ('helper', 'same', P, [(FF, GN, '''        uid = self._uid_of(id_name, parent)
'''), (FF, "    def generate_list_nodes", '''    def _uid_of(self, name, parent=None, sep='/'):
        if parent is None:
            return self.unique_identifier.generate_uid(name)
        return self.unique_identifier.generate_uid(sep.join([parent.qualified_name, name]))

    def generate_list_nodes'''), (FF, CE, "generate_uid(parent.qualified_name + ':' + edge_name)")]),
    ('method for lambda', 'same', P, [(AF, LAM, 'self._text)'), (AF, "    def get_qualified_name", '''    def _text(self, context, name):
        return context + '/' + self.get_qualified_name(name)

    def get_qualified_name''')]),
    ('percent', 'same', P, [(AF, GQ, 'return "%s.%d" % (name, self._clock.get_time_ns())')]),
    ('str of time', 'same', P, [(AF, GQ, 'return ".".join((name, str(self._clock.get_time_ns())))')]),
    ('format', 'same', P, [(AF, GQ, 'return "{}.{}".format(name, self._clock.get_time_ns())')]),
    ('endpoint join', 'same', P, [(BE, IGN, "return '/'.join([x, y.uuid.hex()])")]),
    ('lambda endpoint', 'same', P, [(BE, CTX, "Sha3UniqueIdentifierGenerator(uuid.hex(), lambda x, y: x + '/' + y.uuid.hex())")]),
    ('other separator', 'same', P, [(FF, CE, "generate_uid('-->'.join([parent.qualified_name, edge_name]))")]),
    ('seed copied', 'same', P, [(IG, UP, '''        s = self._seed.copy()
        s.update(self._id_generation_function(self._context_name, arg).encode("utf-8"))
        return s.digest()
'''), (IG, "class Sha3UniqueIdentifierGenerator(MetaUniqueIdentifierGenerator):\n", "class Sha3UniqueIdentifierGenerator(MetaUniqueIdentifierGenerator):\n    _seed = hashlib.sha3_224()\n")]),
    ('shared hash', 'bug', P, [(IG, UP, '''        self._hash.update(self._id_generation_function(self._context_name, arg).encode("utf-8"))
        return self._hash.digest()
'''), (IG, "        super().__init__(context_name, identity_generation)\n", "        super().__init__(context_name, identity_generation)\n        self._hash = hashlib.sha3_224()\n")]),
    ('class hash copy', 'bug', P, [(IG, UP, '''        self._seed.update(self._id_generation_function(self._context_name, arg).encode("utf-8"))
        return self._seed.digest()
'''), (IG, "class Sha3UniqueIdentifierGenerator(MetaUniqueIdentifierGenerator):\n", "class Sha3UniqueIdentifierGenerator(MetaUniqueIdentifierGenerator):\n    _seed = hashlib.sha3_224()\n")]),
    ('random', 'bug', P, [(IG, UP, '''        s = hashlib.sha3_224()
        s.update(self._id_generation_function(self._context_name, arg).encode("utf-8"))
        s.update(os.urandom(8))
        return s.digest()
'''), (IG, "import hashlib\n", "import hashlib\nimport os\n")]),
    ('counter', 'bug', P, [(IG, UP, '''        self._n += 1
        s = hashlib.sha3_224()
        s.update(f"{self._n}/{self._id_generation_function(self._context_name, arg)}".encode("utf-8"))
        return s.digest()
'''), (IG, "        super().__init__(context_name, identity_generation)\n", "        super().__init__(context_name, identity_generation)\n        self._n = 0\n")]),
    ('truncated', 'bug', P, [(IG, 'arg).encode("utf-8"))', 'arg)[:64].encode("utf-8"))')]),
    ('no context', 'bug', P, [(IG, 'self._id_generation_function(self._context_name, arg)', 'self._id_generation_function("", arg)')]),
    ('cache by arg', 'bug', P, [(IG, UP, '''        if arg not in self._known:
            self._known[arg] = hashlib.sha3_224(self._id_generation_function(self._context_name, arg).encode("utf-8")).digest()
        return self._known[arg]
'''), (IG, "class Sha3UniqueIdentifierGenerator(MetaUniqueIdentifierGenerator):\n", "class Sha3UniqueIdentifierGenerator(MetaUniqueIdentifierGenerator):\n    _known = {}\n")]),
    ('uuid4', 'bug', P, [(IG, UP, "        return uuid.uuid4().bytes\n"), (IG, "import hashlib\n", "import hashlib\nimport uuid\n")]),
    ('python hash', 'bug', P, [(IG, 'arg).encode("utf-8"))', 'arg).__hash__().to_bytes(8, "big", signed=True))')]),
    ('wall clock', 'bug', P, [(AF, GQ, 'return f"{name}.{time.time_ns()}"'), (AF, "from rei.foundations.clock", "import time\nfrom rei.foundations.clock")]),
    ('no clock', 'bug', P, [(AF, LAM, 'lambda x, y: f"{x}/{y}")')]),
    ('no context in text', 'bug', P, [(AF, LAM, 'lambda x, y: self.get_qualified_name(y))')]),
    ('lower', 'bug', P, [(AF, 'f"{name}.{self._clock', 'f"{name.lower()}.{self._clock')]),
    ('node without path', 'bug', P, [(FF, GN, "        uid = self.unique_identifier.generate_uid(id_name)\n")]),
    ('node with name of parent', 'bug', P, [(FF, GN, GN.replace('parent.qualified_name', 'parent.id_name'))]),
    ('no separator', 'bug', P, [(FF, GN, GN.replace("'/'.join", "''.join"))]),
    ('edge name dropped', 'bug', P, [(FF, CE, "generate_uid(':'.join([parent.qualified_name, 'edge']))")]),
    ('edge path dropped', 'bug', P, [(FF, CN, CN.replace('container.qualified_name', 'container.id_name'))]),
    ('value path stem', 'bug', P, [(FF, CV, "generate_uid('='.join([parent.qualified_name.split('/')[-1], value_name]))")]),
    ('semantic path', 'bug', P, [(SF, J, "self.unique_identifier.generate_uid(id_name)")]),
    ('semantic type only', 'bug', P, [(SF, J, "self.unique_identifier.generate_uid('/'.join([parent.qualified_name, element_type]))")]),
    ('endpoint name', 'bug', P, [(BE, IGN, 'return f"{x}/{y.id_name}"')]),
    ('endpoint prefix', 'bug', P, [(BE, IGN, 'return f"{x}/{y.uuid.hex()[:8]}"')]),
    ('owner name', 'bug', P, [(BE, CTX, CTX.replace('uuid.hex()', 'id_name'))]),
    ('relation id from edge', 'bug', P, [(BE, "        rel = HypergraphRelation(self._id_generation.generate_uid(endpoint), id_name,", "        rel = HypergraphRelation(self._id_generation.generate_uid(self), id_name,")]),
    ('port id is element', 'bug', P, [(BE, "p = HypergraphPort(self._id_generation.generate_uid(el), port_name,", "p = HypergraphPort(el.uuid, port_name,")]),
    ('hash of name when top', 'bug', P, [(FF, "            uid = self.unique_identifier.generate_uid(id_name)\n        node", "            uid = id_name.encode()\n        node")]),
]
