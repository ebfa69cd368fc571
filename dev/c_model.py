SD = 'format/mapping/cognilang_sdf_icon.py'
KC = 'format/phys/kinematics/kinematic_semantic_context.py'
IC = 'format/phys/inertia_context.py'
SG = 'format/phys/solid_geometry_context.py'
FI = 'format/mapping/cognilang_file_icon.py'
CB = 'hypergraph/encoding/graph_tensor_icon_cbor.py'
GI = 'hypergraph/encoding/graph_tensor_icon.py'
BE = 'hypergraph/base_elements.py'
VN = 'hypergraph/value_node.py'
CI = 'foundations/conceptual_item.py'
FF = 'factories/foundation_factory.py'
SF = 'format/semantics/cognitive_entity_semantic_factory.py'
NF = 'hypergraph/norm/norm_functions.py'
GT = 'foundations/hypergraph_traversal_strategies.py'
FO = 'hypergraph/factorization_operations.py'
CASES = [
    # export
    ('first model kept', 'bug', ['P37'], [(SD, "                self.current_model = model_el\n                if len", "                if self.current_model is None:\n                    self.current_model = model_el\n                if len")]),
    ('engine of sub-graphs not cleared', 'bug', ['P37'], [(SD, """        self.__sub_engine.clear()
        prefix_t1""", """        prefix_t1""")]),
    ('prefix of the outer graph lost', 'bug', ['P37'], [(SD, "        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)\n", "        prefix_t1 = joint.parent.id_name\n")]),
    ('canonical by incoming', 'bug', ['P37'], [(SD, "            for x in e.get_outgoing_relations():\n                links", "            for x in e.get_incoming_relations():\n                links")]),
    ('canonical of the whole model', 'bug', ['P37'], [(SD, "            graph, lambda x: isinstance(x, KinematicLink), lambda x: True)\n        joint_query = HierarchicalPrepositionQuery(graph", "            graph.parent, lambda x: isinstance(x, KinematicLink), lambda x: True)\n        joint_query = HierarchicalPrepositionQuery(graph")]),
    ('links after joints of the first', 'same', ['P28', 'P37', 'P29'], [(SD, """        for i in links:
            self.encode_element(i, prefix)
""", """        links = list(links)
        for k in range(len(links)):
            self.encode_element(links[k], prefix)
""")]),
    ('world is a frame', 'bug', ['P37'], [(KC, """                incom = list(filter(lambda _r: _r.endpoint.id_name != "world", e.get_incoming_relations()))
""", """                incom = list(e.get_incoming_relations())
""")]),
    ('every pose of a link', 'bug', ['P28'], [(KC, "        link_el.append(el_joint_pose)\n        break\n    else:\n", "        link_el.append(el_joint_pose)\n    if len(link_el) == 0 or relative_frame_name is None:\n")]),
    ('pose of a joint relative to the child', 'bug', ['P37'], [(KC, """        el_joint_pose.attrib['relative_to'] = join_w_prefix_separator(
            [j0.endpoint.id_name]""", """        el_joint_pose.attrib['relative_to'] = join_w_prefix_separator(
            [j1.endpoint.id_name]""")]),
    ('whole masses', 'bug', ['P27'], [(IC, '            m = iner["mass"]\n', '            m = float(int(iner["mass"]))\n')]),
    ('mass of zero is one', 'bug', ['P27'], [(IC, '            m = iner["mass"]\n', '            m = iner["mass"] or 1.0\n')]),
    ('moments of the last geometry', 'same', ['P27'], [(IC, """            if len(__geom) > 0:
                for __g in __geom:
                    match __g:
                        case CylinderGeometry():
                            inertia_values = calc_cylinder_inertia(m, __g)
                        case EllipsoidGeometry():
                            inertia_values = calc_ellipsoid_inertia(m, __g)
""", """            for __g in __geom:
                if isinstance(__g, CylinderGeometry):
                    inertia_values = calc_cylinder_inertia(m, __g)
                elif isinstance(__g, EllipsoidGeometry):
                    inertia_values = calc_ellipsoid_inertia(m, __g)
""")]),
    ('only the first reference', 'bug', ['P29'], [(SG, "        for x in __ref_.get_outgoing_relations():\n", "        for x in list(__ref_.get_outgoing_relations())[1:]:\n")]),
    ('first material for all', 'bug', ['P29'], [(SG, "        mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]\n", "        mat = [x for m in sub_nodes for x in m.get_subelements(lambda x: isinstance(x, VisualMaterial))]\n")]),
    ('collision has material too', 'same', ['P29'], [(SG, """        if len(mat) != 0:
            __sem_visual.extend(geometries)
            __sem_material.update({i: mat[0] for i in geometries})
        else:
            __sem_collision.extend(geometries)
""", """        if not mat:
            __sem_collision += geometries
            continue
        for i in geometries:
            __sem_visual.append(i)
            __sem_material[i] = mat[0]
""")]),
    # reading
    ('degrees when not marked', 'bug', ['P30'], [(FI, "            rotation_type = 'rad'\n", "            rotation_type = 'deg'\n")]),
    ('axis of zeros left out', 'bug', ['P30'], [(FI, "        if ctx.axis() is not None:\n            __ax = self.__extract_float_vector_values(ctx.axis().axis_)\n            __semantic_value_node.add_named_attribute('axis', [float(x) for x in __ax])\n",
                                                   "        if ctx.axis() is not None:\n            __ax = [abs(float(x)) for x in self.__extract_float_vector_values(ctx.axis().axis_)]\n            __semantic_value_node.add_named_attribute('axis', __ax)\n")]),
    ('whole mass', 'bug', ['P30'], [(FI, "            {'mass': float(ctx.mass.text)})\n", "            {'mass': float(ctx.mass.text.split('.')[0])})\n")]),
    ('pose of a link with its node', 'bug', ['P30'], [(FI, "        __sv_trans = self.__extract_rigid_transformation_element(ctx, __sv)\n", "        __sv_trans = self.__extract_rigid_transformation_element(ctx, _el)\n")]),
    ('sensors beside their place', 'bug', ['P30'], [(FI, """    def visitSensor(self, ctx: CogniLangParser.SensorContext):
        parent_name = self.__generate_parent_name(ctx)
""", """    def visitSensor(self, ctx: CogniLangParser.SensorContext):
        parent_name = self.__generate_parent_node_name(ctx.parentCtx)
""")]),
    ('default material black', 'bug', ['P30'], [(FI, "        mat_name = 'white'\n        if ctx is not None:\n            if ctx.material_name is not None:\n                mat_name = ctx.material_name.text\n", "        mat_name = 'white'\n        if ctx is not None:\n            if ctx.material_name is not None:\n                mat_name = ctx.material_name.text.capitalize()\n")]),
    ('joint ends found anywhere', 'bug', ['P30'], [(FI, "                return list(parent.get_element_by_id_name(reference_name))[0], reference_name\n", "                return next(v for k, v in self._element_cache.items() if k.endswith(reference_name)), reference_name\n")]),
    # messages
    ('values without numbers left out', 'bug', ['P24', 'P33'], [(GI, "        return [self.__msg_value_tuple(v) for v in self._context.sub_values]\n", "        return [self.__msg_value_tuple(v) for v in self._context.sub_values if v.dim > 0]\n")]),
    ('nodes by name once', 'bug', ['P24', 'P33'], [(GI, "        node_list.extend([self.__msg_node_tuple(i) for i in list(self._context.sub_nodes)])\n", "        node_list.extend([self.__msg_node_tuple(i) for i in {i.id_name: i for i in self._context.sub_nodes}.values()])\n")]),
    ('updates of changed length only', 'bug', ['P24', 'P33'], [(GI, "        return [(self._index_homomorphism.val(v.uuid), v.get_values()) for v in self._context.sub_values]\n", "        return [(i, v.get_values()) for i, v in enumerate(self._context.sub_values)]\n")]),
    ('update of the first values', 'bug', ['P33', 'P24'], [(CB, "            self._context[self._homomorphism.ival(v[0])].update_values(v[1])\n", "            node = self._context[self._homomorphism.ival(v[0])]\n            for i, x in enumerate(v[1][:node.dim]):\n                node.update_value(i, x)\n")]),
    ('root by its index', 'same', ['P33', 'P24'], [(CB, "            nodes.append((n[0], n[2]))\n", "            key, number = n[0], n[2]\n            nodes.append((key, number))\n")]),
    ('edges before nodes', 'bug', ['P24'], [(GI, "        return el.uuid, el.id_name, self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')\n", "        return el.uuid, el.id_name, self._index_homomorphism.edge(el.uuid), self._context.uuid, el.id_name.encode('utf-8')\n")]),
    # elements
    ('incidence handed out', 'bug', ['P10'], [(BE, "        return np.copy(self._relation_incidence_value)\n", "        return self._relation_incidence_value\n")]),
    ('port named by its relation', 'bug', ['P09'], [(BE, "        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):\n", "        for _ in self.remove_element(id_name=p.id_name):\n")]),
    ('subset without repetitions', 'bug', ['P09'], [(BE, "        yield from map(lambda x: x.endpoint, self.get_subelements(lambda x: isinstance(x, HypergraphRelation)))\n", "        yield from {x.endpoint.id_name: x.endpoint for x in self.get_subelements(lambda x: isinstance(x, HypergraphRelation))}.values()\n")]),
    ('views of the table', 'same', ['P09', 'P10', 'P38', 'P36'], [(BE, "        yield from self.get_subelements(lambda x: isinstance(x, HypergraphEdge))\n", "        for x in self.get_subelements(lambda x: True):\n            if isinstance(x, HypergraphEdge):\n                yield x\n")]),
    ('nested values too', 'bug', ['P24'], [(BE, "        yield from self.get_subelements(lambda x: isinstance(x, ValueNode))\n", "        for x in self.get_subelements(lambda x: True):\n            if isinstance(x, ValueNode):\n                yield x\n            yield from x.get_subelements(lambda y: isinstance(y, ValueNode))\n")]),
    # reading leaves things
    ('visited marked on the element', 'bug', ['P36'], [(GT, "            _visited.add(_next)\n", "            _visited.add(_next)\n            _next.cid = len(_visited)\n")]),
    ('lookup keeps its answer', 'bug', ['P36', 'P03'], [(CI, "                yield from []\n", "                self._index_elements_by_name[tokens[0]] = {}\n                yield from self._index_elements_by_name[tokens[0]].values()\n")]),
    ('weights normalised in place', 'bug', ['P36'], [(GT, "                        norm_weight = self._weight_function.norm(_next.weight.val)\n", "                        norm_weight = self._weight_function.norm(_next.weight.val)\n                        _next.weight.update_value(0, norm_weight)\n")]),
    ('edges without ends', 'bug', ['P38'], [(FO, "                    i_e = __next.get_incoming_relations()\n                    o_e = __next.get_outgoing_relations()\n", "                    i_e = __next.get_incoming_relations()\n                    o_e = list(__next.get_outgoing_relations())\n                    o_e[0]\n")]),
    # factories
    ('values when there are some', 'bug', ['P39'], [(SF, "            if values is not None:\n                el.add", "            if values:\n                el.add")]),
    ('named attributes checked', 'bug', ['P39'], [(SF, "        if len(attr) == 0:\n", "        if not any(attr.values()):\n")]),
    ('added to the root', 'bug', ['P39'], [(SF, "            parent.add_element(el)\n", "            if parent.parent is None or raw_element_type != 'Material':\n                parent.add_element(el)\n")]),
    ('default values shared', 'bug', ['P39', 'P26'], [(VN, "            self._values = []\n            self.dim = 0\n", "            self._values = ValueNode._none\n            self.dim = 0\n"), (VN, "    def get_value(self, i):\n", "    _none = []\n\n    def get_value(self, i):\n")]),
]
