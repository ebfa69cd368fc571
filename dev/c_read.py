"""P30: the reader of the language."""
FI = 'format/mapping/cognilang_file_icon.py'
MU = 'format/mapping/cognilang_map_utility.py'
SF = 'format/semantics/cognitive_entity_semantic_factory.py'
KI = 'format/phys/kinematics/kinematic_semantic_context.py'
P = ['P30']
POLY = """            elif ctx.geometries().polyhedron_geometry() is not None:
                geom_ctx: CogniLangParser.Polyhedron_geometryContext = ctx.geometries().polyhedron_geometry()
                __geometry_type = 'polyhedrongeometry'
"""
MESH = """            elif ctx.geometries().mesh_geometry() is not None:
                geom_ctx: CogniLangParser.Mesh_geometryContext = ctx.geometries().mesh_geometry()
                __geometry_type = 'meshgeometry'
"""
ROT = """            rotation_type = 'rad'
            if ctx.rotation().rot_type is not None:
                rotation_type = str(ctx.rotation().rot_type.text)
                if 'd' == rotation_type[0]:
                    rotation_type = 'deg'
            return translation, rotation, rotation_type
"""
MAT = """        mat_name = 'white'
        if ctx is not None:
            if ctx.material_name is not None:
                mat_name = ctx.material_name.text
"""
DEG = """            match _rotation_type:
                case 'deg':
                    _rotation = [float(x)*math.pi/180.0 for x in _rotation]
                case _:
                    _rotation = [float(x) for x in _rotation]
"""
DIR = """    match direction:
        case '<-':
            return EnumRelationDirection.INWARDS
        case '->':
            return EnumRelationDirection.OUTWARDS
        case '--':
            return EnumRelationDirection.BIDIRECTIONAL
    raise ErrorInvalidDirection
"""
CASES = [
    ('no mesh', 'bug', P, [(FI, MESH, "")]),
    ('polyhedron is ellipsoid', 'bug', P, [(FI, POLY, POLY.replace("'polyhedrongeometry'", "'ellipsoidgeometry'"))]),
    ('geometry text', 'bug', P, [(FI, "yield float(str(x.FLOAT()))", "yield str(x.FLOAT())")]),
    ('parameter text', 'bug', P, [(FI, "            yield float(_p)\n", "            yield _p\n")]),
    ('refs last', 'bug', P, [(FI, """        for x in ctx.value():
            if x.ref_() is not None:
                yield from self.__extract_parameter_values(x.ref_())
            else:
                yield float(str(x.FLOAT()))
""", """        for x in ctx.value():
            if x.ref_() is None:
                yield float(str(x.FLOAT()))
        for x in ctx.value():
            if x.ref_() is not None:
                yield from self.__extract_parameter_values(x.ref_())
""")]),
    ('refs unhandled', 'bug', P, [(FI, """            if x.ref_() is not None:
                yield from self.__extract_parameter_values(x.ref_())
            else:
                yield float(str(x.FLOAT()))
""", "            yield float(str(x.FLOAT()))\n")]),
    ('unit always degrees', 'bug', P, [(FI, "            rotation_type = 'rad'\n", "            rotation_type = 'deg'\n")]),
    ('unit by full word', 'bug', P, [(FI, "if 'd' == rotation_type[0]:", "if 'deg' == rotation_type:")]),
    ('unit not named', 'bug', P, [(FI, "                if 'd' == rotation_type[0]:\n                    rotation_type = 'deg'\n", "")]),
    ('degrees twice', 'bug', P, [(FI, "            translation = list(self", "            translation = list(self") if False else (FI, "[float(x)*math.pi/180.0 for x in _rotation]", "[math.radians(math.radians(float(x))) for x in _rotation]")]),
    ('degrees kept', 'bug', P, [(FI, DEG, "            _rotation = [float(x) for x in _rotation]\n")]),
    ('rotation in degrees stored converted', 'bug', P, [(FI, "            trans_id_container: str", "            if _rotation_type == 'deg':\n                _rotation = [float(x)*math.pi/180.0 for x in _rotation]\n            trans_id_container: str")]),
    ('rotation first', 'bug', P, [(FI, "[_translation, _rotation])", "[_rotation, _translation])")]),
    ('no axis test', 'bug', P, [(FI, "        if ctx.axis() is not None:\n            __ax", "        if True:\n            __ax")]),
    ('no rotation test', 'bug', P, [(FI, "        if ctx.rotation() is not None:\n", "        if True:\n")]),
    ('no material test', 'bug', P, [(FI, "        if ctx is not None:\n            if ctx.material_name", "        if True:\n            if ctx.material_name")]),
    ('default material grey', 'bug', P, [(FI, "mat_name = 'white'", "mat_name = 'grey'")]),
    ('material ignored', 'bug', P, [(FI, MAT, "        mat_name = 'white'\n")]),
    ('collision coloured', 'bug', P, [(FI, "        self.__collect_geometries(ctx.geometry_body(), _el)\n        return", "        self.__collect_geometries(ctx.geometry_body(), _el)\n        self.__collect_materials(None, _el)\n        return")]),
    ('axis of first end', 'bug', P, [(FI, "        if ctx.axis() is not None:\n            __ax = self.__extract_float_vector_values(ctx.axis().axis_)", "        __first = ctx.parentCtx.joint_relation()[0]\n        if __first.axis() is not None:\n            __ax = self.__extract_float_vector_values(__first.axis().axis_)")]),
    ('joint stops at first', 'bug', P, [(FI, "            yield self.__extract_joint_relation(rel, parent)\n", "            yield self.__extract_joint_relation(rel, parent)\n            if rel.rigid_transformation() is not None:\n                break\n")]),
    ('joint values kept', 'bug', P, [(FI, "        values = None\n        if ctx.axis()", "        if ctx.axis()"), (FI, "            values = self.__factory.create_value(", "            self._values = self.__factory.create_value("), (FI, "return __endpoint, __direction, values, __semantic_value_node", "return __endpoint, __direction, getattr(self, '_values', None), __semantic_value_node")]),
    ('world anew', 'bug', P, [(FI, '                return self._element_cache["world"], reference_name', '                return self._HypergraphWorld(), reference_name') if False else (FI, '                return self._element_cache["world"], reference_name', '                return self.__factory.generate_node("world", None), reference_name')]),
    ('world looked up', 'bug', P, [(FI, """            if reference_name == "world":
                return self._element_cache["world"], reference_name
            else:
                return list""", """            if True:
                return list""")]),
    ('masses of graph', 'bug', P, [(FI, "{'mass': float(ctx.mass.text)}", "{'mass': ctx.mass.text}")]),
    ('inertia needs vector', 'bug', P, [(FI, "        if ctx.inertia_vector() is not None:\n", "        if True:\n")]),
    ('reference edges merged by holder', 'bug', P, [(FI, "        if _inferred_name not in self._reference_cache:", "        if str(ref_func(ctx).ref_().ID()) not in self._reference_cache:"), (FI, "            self._reference_cache[_inferred_name] = ref_e", "            self._reference_cache[str(ref_func(ctx).ref_().ID())] = ref_e"), (FI, "            self._reference_cache[_inferred_name].unary", "            self._reference_cache[str(ref_func(ctx).ref_().ID())].unary")]),
    ('reference only own link', 'bug', P, [(FI, "*self.__lookup_name(parent_ctx, depth), *tags])", "*self.__lookup_name(parent_ctx, 1), *tags])")]),
    ('second reference lost', 'bug', P, [(FI, "        else:\n            self._reference_cache[_inferred_name].unary_connect(container_node, None, EnumRelationDirection.INWARDS)\n", "")]),
    ('reference reversed', 'bug', P, [(FI, "ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)\n            ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)", "ref_e.unary_connect(_el_ref, None, EnumRelationDirection.INWARDS)\n            ref_e.unary_connect(container_node, None, EnumRelationDirection.OUTWARDS)")]),
    ('arrows', 'bug', P, [(MU, DIR, DIR.replace("INWARDS", "X").replace("OUTWARDS", "INWARDS").replace(".X", ".OUTWARDS"))]),
    ('both ways', 'bug', P, [(MU, "        case '--':\n            return EnumRelationDirection.BIDIRECTIONAL\n", "")]),
    ('ambient no children', 'bug', P, [(FI, "        _el = self.__factory.generate_node(name, parent_node)\n        self._element_cache[_el.qualified_name] = _el\n        return self.visitChildren(ctx)\n\n    def visitSensor", "        _el = self.__factory.generate_node(name, parent_node)\n        self._element_cache[_el.qualified_name] = _el\n        return None\n\n    def visitSensor")]),
    ('cache by name', 'bug', P, [(FI, "        # Inertia\n        # Add element to cache\n        self._element_cache[_el.qualified_name] = _el", "        self._element_cache[name] = _el")]),
    ('kinematic in entity', 'bug', P, [(FI, "        _el = self.__factory.generate_node(name, self._element_cache[parent_name])\n        self.__cognitive_element_factory.generate_semantic_element('kinematicgraph'", "        _el = self.__factory.generate_node(name, self.__root_entity)\n        self.__cognitive_element_factory.generate_semantic_element('kinematicgraph'")]),
    ('parameters of every entity elsewhere', 'bug', P, [(FI, "is self.__root_entity:", "is not self.__root_entity:")]),
    ('parameter name is value', 'bug', P, [(FI, "ctx.name.text, [ctx.parameter_value.text]", "ctx.name.text, [ctx.name.text]")]),
    ('handler renamed', 'bug', P, [(FI, "def visitInertia_body(", "def visitInertia(")]),
    ('part renamed', 'bug', P, [(FI, "ctx.inertia_vector().field_float_vector()", "ctx.inertia_vector().float_vector()")]),
    ('factory swaps', 'bug', P, [(SF, "                el = CylinderGeometry(uuid", "                el = EllipsoidGeometry(uuid")]),
    ('factory drops values', 'bug', P, [(SF, "            if values is not None:\n                el.add_named_attribute(\"values\", values)\n", "            if values:\n                el.add_named_attribute(\"values\", values[:2])\n")]),
    ('joint types merged', 'bug', P, [(KI, None, None)]),
    ('joint attr', 'bug', P, [(FI, "str(ctx.type_.value_.text)", "str(ctx.parentCtx.joint_relation()[0].type_.value_.text)")]),
    # same behaviour
    ('geometry table', 'same', P, [(FI, """            if ctx.geometries().cylinder_geometry() is not None:
                geom_ctx: CogniLangParser.Cylinder_geometryContext = ctx.geometries().cylinder_geometry()
                __geometry_type = 'cylindergeometry'
""" + POLY + """            elif ctx.geometries().ellipsoid_geometry() is not None:
                geom_ctx: CogniLangParser.Ellipsoid_geometryContext = ctx.geometries().ellipsoid_geometry()
                __geometry_type = 'ellipsoidgeometry'
""" + MESH, """            geometries = ctx.geometries()
            for candidate, kind in ((geometries.cylinder_geometry(), 'cylindergeometry'),
                                    (geometries.polyhedron_geometry(), 'polyhedrongeometry'),
                                    (geometries.ellipsoid_geometry(), 'ellipsoidgeometry'),
                                    (geometries.mesh_geometry(), 'meshgeometry')):
                if candidate is not None:
                    geom_ctx = candidate
                    __geometry_type = kind
                    break
""")]),
    ('rotation early return', 'same', P, [(FI, """        if ctx.rotation() is not None:
            rotation = list(self.__extract_float_vector_values(ctx.rotation().float_vector()))
""" + ROT + """        else:
            rotation = [0.0, 0.0, 0.0]
            rotation_type = 'deg'
            return translation, rotation, rotation_type
""", """        rot = ctx.rotation()
        if rot is None:
            return translation, [0.0, 0.0, 0.0], 'deg'
        rotation = list(self.__extract_float_vector_values(rot.float_vector()))
        unit = 'rad' if rot.rot_type is None else str(rot.rot_type.text)
        return translation, rotation, 'deg' if unit.startswith('d') else unit
""")]),
    ('radians', 'same', P, [(FI, "[float(x)*math.pi/180.0 for x in _rotation]", "[math.radians(float(x)) for x in _rotation]")]),
    ('degrees if', 'same', P, [(FI, DEG, """            scale = math.pi / 180.0 if _rotation_type == 'deg' else 1.0
            _rotation = [float(x) * scale for x in _rotation]
""")]),
    ('direction table', 'same', P, [(MU, DIR, """    table = {'<-': EnumRelationDirection.INWARDS, '->': EnumRelationDirection.OUTWARDS,
             '--': EnumRelationDirection.BIDIRECTIONAL}
    if direction not in table:
        raise ErrorInvalidDirection
    return table[direction]
""")]),
    ('material ternary', 'same', P, [(FI, MAT, "        given = ctx is not None and ctx.material_name is not None\n        mat_name = ctx.material_name.text if given else 'white'\n")]),
    ('names without generator', 'same', P, [(FI, """    def __generate_parent_name(self, ctx):
        return '/'.join(list(self.__get_parent_name(ctx))[::-1])
""", """    def __generate_parent_name(self, ctx):
        names = []
        for n in self.__get_parent_name(ctx):
            names.insert(0, n)
        return '/'.join(names)
""")]),
    ('names by loop', 'same', P, [(FI, """        if hasattr(ctx, 'ID'):
            yield str(ctx.ID())
        elif hasattr(ctx, 'graphnode_signature'):
            yield extract_graphelement_signature(ctx.graphnode_signature())
        elif hasattr(ctx, 'graphedge_signature'):
            yield extract_graphelement_signature(ctx.graphedge_signature())
        if ctx.parentCtx is not None:
            yield from self.__get_parent_name(ctx.parentCtx)
""", """        while ctx is not None:
            if hasattr(ctx, 'ID'):
                yield str(ctx.ID())
            elif hasattr(ctx, 'graphnode_signature'):
                yield extract_graphelement_signature(ctx.graphnode_signature())
            elif hasattr(ctx, 'graphedge_signature'):
                yield extract_graphelement_signature(ctx.graphedge_signature())
            ctx = ctx.parentCtx
""")]),
    ('joint loop', 'same', P, [(FI, "        res = list(self.__collect_joint_relations(ctx.joint_body(), parent))\n", "        res = [self.__extract_joint_relation(r, parent) for r in ctx.joint_body().joint_relation()]\n")]),
    ('cache helper', 'same', P, [(FI, "    #\n    # END SECTION\n    #\n", "    def __remember(self, element):\n        self._element_cache[element.qualified_name] = element\n        return element\n\n    #\n    # END SECTION\n    #\n"),
        (FI, "        _el = self.__factory.generate_node(name, self._element_cache[parent_name])\n        self.__cognitive_element_factory.generate_semantic_element('kinematicgraph', name, _el, {'name': name})\n        self._element_cache[_el.qualified_name] = _el\n",
         "        _el = self.__remember(self.__factory.generate_node(name, self._element_cache[parent_name]))\n        self.__cognitive_element_factory.generate_semantic_element('kinematicgraph', name, _el, {'name': name})\n")]),
    ('sensor and actuator share', 'same', P, [(FI, """    def visitActuator(self, ctx: CogniLangParser.ActuatorContext):
        parent_name = self.__generate_parent_name(ctx)
        parent_node = self._element_cache[parent_name]
        name = extract_graphelement_signature(ctx.ambient_element_signature())
        _el = self.__factory.generate_node(name, parent_node)
        self._element_cache[_el.qualified_name] = _el
        return self.visitChildren(ctx)
""", """    def visitActuator(self, ctx: CogniLangParser.ActuatorContext):
        return self.visitSensor(ctx)
""")]),
    ('reference setdefault', 'same', P, [(FI, """        if _inferred_name not in self._reference_cache:
            ref_e = self.__factory""", """        ref_e = self._reference_cache.get(_inferred_name)
        if ref_e is None:
            ref_e = self.__factory"""), (FI, """            ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
            self._reference_cache[_inferred_name] = ref_e
        else:
            self._reference_cache[_inferred_name].unary_connect(container_node, None, EnumRelationDirection.INWARDS)
""", """            self._reference_cache[_inferred_name] = ref_e
        ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
""")]),
    ('parameter for loop', 'same', P, [(FI, """        p = next(self.__parameters.get_subelements(
            lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
        for _p in p.get_values():
            yield float(_p)
""", """        for p in self.__parameters.get_subelements(lambda x: isinstance(x, ValueNode)):
            if p.id_name == __ref_name:
                yield from map(float, p.get_values())
                return
""")]),
]
CASES = [c for c in CASES if c[0] != 'joint types merged']
