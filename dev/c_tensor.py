"""P21, P22, P23: indices, tensors, entropies."""
TR = 'tensor/tensor_representation.py'
HO = 'hypergraph/homomorphism_functions.py'
GI = 'hypergraph/encoding/graph_tensor_icon.py'
GT = 'foundations/hypergraph_traversal_strategies.py'
P21, P22, P23 = ['P21'], ['P22'], ['P23']
V1 = "        return -di*np.nan_to_num(np.log2(di), neginf=0, posinf=0)\n"
V2 = "        return -v*np.nan_to_num(np.log2(v), neginf=0, posinf=0)\n"
S1 = "        return np.sum(self.entropy_vector())\n"
S2 = "        return np.sum(self.entropy_projected_vector())\n"
F0 = """        if weight[0] != 0.0:
            task_list.append(
                self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                    for x in filter(lambda x: x is not endpoint_id,
                                                    self.get_node_identification(el))]))
"""
F1 = """        if weight[1] != 0.0:
            task_list.append(
                self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                    for x in filter(lambda x: x is not endpoint_id,
                                                    self.get_node_identification(el))]))
"""
MATCH = """                    norm_weight = np.array([1.0, 1.0])
                    if _next.weight is not None:
                        norm_weight = self._weight_function.norm(_next.weight.val)
                    else:
                        match _next.direction:
                            case EnumRelationDirection.BIDIRECTIONAL:
                                norm_weight = np.array([1.0, 1.0])
                            case EnumRelationDirection.INWARDS:
                                norm_weight = np.array([1.0, 0.0])
                            case EnumRelationDirection.OUTWARDS:
                                norm_weight = np.array([0.0, 1.0])
"""
WT = "                    w = np.multiply(np.array(_next.relation_incidence_value), norm_weight)\n"
FD = """        self._weight_tensor[i_e, i_n1, i_n0] = i_w
        # Fill incidence
        self._incidence_matrix_out[i_e, i_n1] = i_w
        self._incidence_matrix_in[i_e, i_n0] = i_w
"""
FW = """            for v in q.get():
                i_n0, i_n1, i_e, i_w, val = v
                # Fill weight
                self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
"""
FC = """        self._msg_value_tensor.append((i_e, i_n1, i_n0, i_w))
        # Fill incidences
        self._msg_incidence_out.append((i_e, i_n1, i_w))
        self._msg_incidence_in.append((i_e, i_n0, i_w))
"""
FG = """                i_n0, i_n1, i_e, i_w, val = v
                self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
"""
SZ = "        if homomorphism.cnt_node != current_cnt_nodes or homomorphism.cnt_edges != current_cnt_edges:\n"
ZO = "            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)\n"
ZW = "            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)\n"
SY = """        if self._current_homomorphism is not None:
            current_cnt_nodes, current_cnt_edges = self._current_homomorphism.cnt_node, self._current_homomorphism.cnt_edges
            del self._current_homomorphism
        else:
            current_cnt_nodes, current_cnt_edges = 0, 0
        self._current_homomorphism = copy.deepcopy(homomorphism)
"""
HE = """        # Edges homology
        i_current_edge = self._cnt_edges
        # Increment edge count
        self._cnt_edges += 1
        # Update indices
        self.__hom_edge_depth[arg.uuid] = i_current_edge
        self.__hom_depth_edge[i_current_edge] = arg.uuid
"""
HN = """        i_current_node = self._cnt_node
        # Increment node count
        self._cnt_node += 1
        # Update indices
        self.__hom_node_dim[arg.uuid] = i_current_node
        self.__hom_dim_node[i_current_node] = arg.uuid
"""
HV = """        i_current_value = self._cnt_values
        # Increment value count
        self._cnt_values += 1
        # Update indices
        self.__hom_values[arg.uuid] = i_current_value
        self.__hom_i_values[i_current_value] = arg.uuid
"""
HX = """        self.reset_homology()
        return [*await self.nodes_bfs.execute(start),
                *await self.edges_bfs.execute(start),
                *await self.values_bfs.execute(start)]
"""
HR = """        self._cnt_node = 0
        self._cnt_edges = 0
        self._cnt_values = 0
        # Homology dictionaries
        # Mappings (unique identifiers to indices)
        self.__hom_node_dim: dict[bytes, int] = {}
        self.__hom_edge_depth: dict[bytes, int] = {}
        self.__hom_values: dict[bytes, int] = {}
        # Reverse mappings (index to unique identifiers)
        self.__hom_dim_node: dict[int, bytes] = {}
        self.__hom_depth_edge: dict[int, bytes] = {}
        self.__hom_i_values: dict[int, bytes] = {}

    async def execute"""
HB = """        self.reset_homology()
        # Node homology
        for n, i in nodes:
            self.__hom_node_dim[n] = i
            self.__hom_dim_node[i] = n
            self._cnt_node += 1
        # Edge homology
        for e, i in edges:
            self.__hom_edge_depth[e] = i
            self.__hom_depth_edge[i] = e
            self._cnt_edges += 1
"""
B = ['P22']
CASES = [
    # ---- P22 kept
    ('incidence only', 'same', ['P22', 'P10'], [(GT, MATCH, """                    norm_weight = 1.0
                    if _next.weight is not None:
                        norm_weight = self._weight_function.norm(_next.weight.val)
""")]),
    ('if chain', 'same', ['P22', 'P10'], [(GT, MATCH, """                    if _next.weight is not None:
                        norm_weight = self._weight_function.norm(_next.weight.val)
                    elif _next.direction == EnumRelationDirection.INWARDS:
                        norm_weight = np.array([1.0, 0.0])
                    elif _next.direction == EnumRelationDirection.OUTWARDS:
                        norm_weight = np.array([0.0, 1.0])
                    else:
                        norm_weight = np.ones(2)
""")]),
    ('product', 'same', ['P22', 'P10'], [(GT, WT, "                    w = _next.relation_incidence_value * norm_weight\n")]),
    ('loops', 'same', B, [(GT, F0, """        if weight[0] != 0.0:
            outgoing = []
            for other in self.get_node_identification(el):
                if other != endpoint_id:
                    outgoing.append((endpoint_id, other, edge_id, weight[0], norm_weight))
            task_list.append(self._visitor_func(outgoing))
""")]),
    ('partners first', 'same', B, [(GT, F0 + "\n" + F1, """        partners = [x for x in self.get_node_identification(el) if x is not endpoint_id]
        outward, inward = weight[0], weight[1]
        if outward != 0.0:
            task_list.append(self._visitor_func([(endpoint_id, x, edge_id, outward, norm_weight) for x in partners]))
        if inward != 0.0:
            task_list.append(self._visitor_func([(x, endpoint_id, edge_id, inward, norm_weight) for x in partners]))
""")]),
    ('helper for batches', 'same', B, [(GT, F0, """        if weight[0] != 0.0:
            task_list.append(self._visitor_func(self.__batch(endpoint_id, edge_id, weight[0], norm_weight, el)))
"""), (GT, "    async def _traverse(self", """    def __batch(self, endpoint_id, edge_id, weight, norm_weight, el):
        return [(endpoint_id, x, edge_id, weight, norm_weight) for x in self.get_node_identification(el) if not x is endpoint_id]

    async def _traverse(self""")]),
    ('truthy weights', 'same', B, [(GT, "        if weight[0] != 0.0:\n", "        if weight[0]:\n"), (GT, "        if weight[1] != 0.0:\n", "        if not weight[1] == 0:\n")]),
    ('targets first', 'same', B, [(GT, F0 + "\n" + F1, F1 + "\n" + F0)]),
    ('dense inline', 'same', B, [(TR, FW, """            for i_n0, i_n1, i_e, i_w, _ in q.get():
                self._weight_tensor[i_e, i_n0, i_n1] = i_w
                self._incidence_matrix_out[i_e, i_n0] = i_w
                self._incidence_matrix_in[i_e, i_n1] = i_w
""")]),
    ('dense indexed', 'same', B, [(TR, FW, """            for v in q.get():
                source, target, edge = v[0], v[1], v[2]
                self.fill_tensors(edge, target, source, v[3], v[4])
""")]),
    ('chained subscripts', 'same', B, [(TR, FD, """        self._weight_tensor[i_e][i_n1][i_n0] = i_w
        self._incidence_matrix_out[i_e][i_n1] = i_w
        self._incidence_matrix_in[i_e][i_n0] = i_w
""")]),
    ('parameters renamed', 'same', B, [(TR, "def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):\n" + FD, """def fill_tensors(self, i_e, i_target, i_source, i_w, val):
        self._incidence_matrix_in[i_e, i_target] = i_w
        self._incidence_matrix_out[i_e, i_source] = i_w
        self._weight_tensor[i_e, i_source, i_target] = i_w
""")]),
    ('coordinate swapped twice', 'same', B, [(GI, FC, FC.replace('i_n0', 'TMP').replace('i_n1', 'i_n0').replace('TMP', 'i_n1')), (GI, "self.fill_tensors(i_e, i_n1, i_n0, i_w, val)", "self.fill_tensors(i_e, i_n0, i_n1, i_w, val)")]),
    ('coordinate inline', 'same', B, [(GI, FG, """                source, target, edge, weight, _ = v
                self._msg_value_tensor.append((edge, source, target, weight))
                self._msg_incidence_out.append((edge, source, weight))
                self._msg_incidence_in.append((edge, target, weight))
""")]),
    ('always made', 'same', B, [(TR, SZ, "        if True:\n")]),
    ('condition turned', 'same', B, [(TR, SZ, "        if not (homomorphism.cnt_node == current_cnt_nodes and homomorphism.cnt_edges == current_cnt_edges):\n")]),
    ('pairs compared', 'same', B, [(TR, SZ, "        if (homomorphism.cnt_node, homomorphism.cnt_edges) != (current_cnt_nodes, current_cnt_edges):\n")]),
    ('counts kept', 'same', B, [(TR, SY, """        previous = self._current_homomorphism
        current_cnt_nodes = previous.cnt_node if previous is not None else 0
        current_cnt_edges = previous.cnt_edges if previous is not None else 0
        self._current_homomorphism = copy.deepcopy(homomorphism)
""")]),
    ('positional shape', 'same', B, [(TR, ZW, "            n, e = homomorphism.cnt_node, homomorphism.cnt_edges\n            self._weight_tensor = np.zeros((e, n, n))\n"), (TR, ZO, "            self._incidence_matrix_out = np.zeros((e, n))\n")]),
    ('zeros like', 'same', B, [(TR, "            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)\n", "            self._incidence_matrix_in = np.zeros_like(self._incidence_matrix_out)\n")]),
    # ---- P22 broken
    ('source and target swapped', 'bug', B, [(GT, "(endpoint_id, x, edge_id, weight[0], norm_weight)", "(x, endpoint_id, edge_id, weight[0], norm_weight)")]),
    ('both swapped', 'bug', B, [(GT, "(endpoint_id, x, edge_id, weight[0], norm_weight)", "(x, endpoint_id, edge_id, weight[0], norm_weight)"), (GT, "(x, endpoint_id, edge_id, weight[1], norm_weight)", "(endpoint_id, x, edge_id, weight[1], norm_weight)")]),
    ('weights swapped', 'bug', B, [(GT, "        if weight[0] != 0.0:\n", "        if weight[1] != 0.0:\n"), (GT, "        if weight[1] != 0.0:\n            task_list.append(\n                self._visitor_func([(x, e", "        if weight[0] != 0.0:\n            task_list.append(\n                self._visitor_func([(x, e")]),
    ('norm not used', 'bug', B, [(GT, WT, "                    w = np.array(_next.relation_incidence_value)\n")]),
    ('norm for incidence', 'bug', B, [(GT, WT, "                    w = np.multiply(np.ones(2), norm_weight)\n")]),
    ('wrong default', 'bug', ['P22', 'P10'], [(GT, "                                norm_weight = np.array([0.0, 1.0])\n", "                                norm_weight = np.array([1.0, 0.0])\n")]),
    ('same weight', 'bug', B, [(GT, "(x, endpoint_id, edge_id, weight[1], norm_weight)", "(x, endpoint_id, edge_id, weight[0], norm_weight)")]),
    ('one of two only', 'bug', B, [(GT, "        if weight[1] != 0.0:\n", "        elif weight[1] != 0.0:\n")]),
    ('itself too', 'bug', B, [(GT, F0, """        if weight[0] != 0.0:
            task_list.append(
                self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                    for x in self.get_node_identification(el)]))
""")]),
    ('zero weights too', 'bug', B, [(GT, F1, """        task_list.append(
            self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                for x in filter(lambda x: x is not endpoint_id,
                                                self.get_node_identification(el))]))
""")]),
    ('node index of edge', 'bug', B, [(GT, "        return self._index_homomorphism.edge(el.uuid)\n", "        return self._index_homomorphism.node(el.uuid)\n")]),
    ('dense swapped', 'bug', B, [(TR, "        self._weight_tensor[i_e, i_n1, i_n0] = i_w\n", "        self._weight_tensor[i_e, i_n0, i_n1] = i_w\n")]),
    ('incidence swapped', 'bug', B, [(TR, "        self._incidence_matrix_out[i_e, i_n1] = i_w\n        self._incidence_matrix_in[i_e, i_n0] = i_w\n", "        self._incidence_matrix_out[i_e, i_n0] = i_w\n        self._incidence_matrix_in[i_e, i_n1] = i_w\n")]),
    ('call not swapped', 'bug', B, [(TR, "                self.fill_tensors(i_e, i_n1, i_n0, i_w, val)\n", "                self.fill_tensors(i_e, i_n0, i_n1, i_w, val)\n")]),
    ('coordinate not swapped', 'bug', B, [(GI, "                self.fill_tensors(i_e, i_n1, i_n0, i_w, val)\n", "                self.fill_tensors(i_e, i_n0, i_n1, i_w, val)\n")]),
    ('coordinate order', 'bug', B, [(GI, "        self._msg_value_tensor.append((i_e, i_n1, i_n0, i_w))\n", "        self._msg_value_tensor.append((i_n1, i_n0, i_e, i_w))\n")]),
    ('coordinate norm', 'bug', B, [(GI, "        self._msg_incidence_in.append((i_e, i_n0, i_w))\n", "        self._msg_incidence_in.append((i_e, i_n0, val))\n")]),
    ('coordinate lists swapped', 'bug', B, [(GI, "        return self._msg_value_tensor, self._msg_incidence_out, self._msg_incidence_in\n", "        return self._msg_value_tensor, self._msg_incidence_in, self._msg_incidence_out\n")]),
    ('shape swapped', 'bug', B, [(TR, ZO, "            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_node, ho.cnt_edges), dtype=float)\n")]),
    ('shape W', 'bug', B, [(TR, ZW, "            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_edges, ho.cnt_node), dtype=float)\n")]),
    ('and for or', 'bug', B, [(TR, SZ, SZ.replace(' or ', ' and '))]),
    ('nodes only', 'bug', B, [(TR, SZ, "        if homomorphism.cnt_node != current_cnt_nodes:\n")]),
    ('no copy', 'bug', B, [(TR, "        self._current_homomorphism = copy.deepcopy(homomorphism)\n", "        self._current_homomorphism = homomorphism\n")]),
    ('sum of counts', 'bug', B, [(TR, SZ, "        if homomorphism.cnt_node + homomorphism.cnt_edges != current_cnt_nodes + current_cnt_edges:\n")]),
    ('grown only', 'bug', B, [(TR, SZ, "        if homomorphism.cnt_node > current_cnt_nodes or homomorphism.cnt_edges > current_cnt_edges:\n")]),
    ('old shape', 'bug', B, [(TR, "            ho = self._current_homomorphism\n", "            ho = self._current_homomorphism\n            n = current_cnt_nodes or ho.cnt_node\n"), (TR, ZO, "            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, n), dtype=float)\n")]),
    ('only positive', 'bug', B, [(TR, "        self._incidence_matrix_in[i_e, i_n0] = i_w\n", "        if i_w > 0:\n            self._incidence_matrix_in[i_e, i_n0] = i_w\n")]),
    ('one group', 'bug', B, [(TR, "        while not q.empty():\n", "        if not q.empty():\n")]),
    # ---- P23 kept
    ('mask', 'same', P23, [(TR, V1, "        mask = di > 0\n        log = np.zeros_like(di)\n        log[mask] = np.log2(di[mask])\n        return -di * log\n")]),
    ('where', 'same', P23, [(TR, V1, "        with np.errstate(divide='ignore', invalid='ignore'):\n            return np.where(di == 0, 0.0, -di * np.log2(di))\n")]),
    ('whole nan_to_num', 'same', P23, [(TR, V1, "        return np.nan_to_num(-di * np.log2(di))\n")]),
    ('natural log', 'same', P23, [(TR, V2, "        return -v * np.nan_to_num(np.log(v) / np.log(2), neginf=0, posinf=0)\n")]),
    ('where kw', 'same', P23, [(TR, V1, "        logs = np.log2(di, out=np.zeros_like(di), where=di != 0)\n        return np.negative(np.multiply(di, logs))\n")]),
    ('set inf', 'same', P23, [(TR, V2, "        logs = np.log2(v)\n        logs[np.isneginf(logs)] = 0.0\n        return -1.0 * v * logs\n")]),
    ('helper', 'same', P23, [(TR, V1, "        return self.__contributions(di)\n\n    @staticmethod\n    def __contributions(p):\n        return -p * np.nan_to_num(np.log2(p), neginf=0, posinf=0)\n"),
                             (TR, V2, "        return self._NumpyTensorRepresentation__contributions(v)\n")]),
    ('method sum', 'same', P23, [(TR, S1, "        return self.entropy_vector().sum()\n"), (TR, S2, "        contributions = self.entropy_projected_vector()\n        return sum(contributions)\n")]),
    ('inline sum', 'same', P23, [(TR, S2, "        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n        return -np.sum(v*np.nan_to_num(np.log2(v), neginf=0, posinf=0))\n")]),
    ('dot', 'same', P23, [(TR, S2, "        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n        return -np.dot(v, np.nan_to_num(np.log2(v), neginf=0, posinf=0))\n")]),
    ('two sums', 'same', P23, [(TR, S1, "        return np.sum(np.sum(self.entropy_vector(), axis=0))\n")]),
    ('log of inverse', 'same', P23, [(TR, V1, "        return di * np.nan_to_num(np.log2(1.0 / di), neginf=0, posinf=0)\n")]),
    ('filtered', 'same', P23, [(TR, S2, "        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n        p = v[v > 0]\n        return -np.sum(p * np.log2(p))\n")]),
    # ---- P23 broken
    ('bare log', 'bug', P23, [(TR, V1, "        return -di*np.log2(di)\n")]),
    ('bare log projected', 'bug', P23, [(TR, V2, "        return -v*np.log2(v)\n")]),
    ('posinf only', 'bug', P23, [(TR, V1, "        return -di*np.nan_to_num(np.log2(di), posinf=0, neginf=-np.inf)\n")]),
    ('nan only', 'bug', P23, [(TR, V2, "        l = np.log2(v)\n        return -v*np.where(np.isnan(l), 0, l)\n")]),
    ('shifted', 'bug', P23, [(TR, V2, "        w = np.where(v > 0, v, 1e-3)\n        return -w*np.log2(w)\n")]),
    ('natural', 'bug', P23, [(TR, V1, "        return -di*np.nan_to_num(np.log(di), neginf=0, posinf=0)\n")]),
    ('sign', 'bug', P23, [(TR, V1, "        return di*np.nan_to_num(np.log2(di), neginf=0, posinf=0)\n")]),
    ('no factor', 'bug', P23, [(TR, V1, "        return -np.nan_to_num(np.log2(di), neginf=0, posinf=0)\n")]),
    ('no factor, one at zero', 'bug', P23, [(TR, V1, "        return -di*np.nan_to_num(np.log2(di), neginf=0, posinf=0) + (di == 0)\n")], ),
    ('other vector', 'bug', P23, [(TR, S1, "        return np.sum(self.entropy_projected_vector())\n")]),
    ('one axis', 'bug', P23, [(TR, S1, "        return np.sum(self.entropy_vector(), axis=0)\n")]),
    ('built-in sum', 'bug', P23, [(TR, S1, "        return sum(self.entropy_vector())\n")]),
    ('mean', 'bug', P23, [(TR, S1, "        return np.mean(self.entropy_vector())\n")]),
    ('half', 'bug', P23, [(TR, S2, "        return np.sum(self.entropy_projected_vector()) / 2\n")]),
    ('inline bare', 'bug', P23, [(TR, S2, "        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n        return -np.sum(v*np.log2(v))\n")]),
    ('divided', 'bug', P23, [(TR, V1, "        return -di*np.nan_to_num(np.log2(di), neginf=0, posinf=0)/di\n")]),
    # ---- P21 kept
    ('len as number', 'same', P21, [(HO, HN, """        i = len(self.__hom_node_dim)
        self.__hom_node_dim[arg.uuid] = i
        self.__hom_dim_node[i] = arg.uuid
        self._cnt_node = i + 1
""")]),
    ('count afterwards', 'same', P21, [(HO, HE, """        i_current_edge = self._cnt_edges
        self.__hom_depth_edge[i_current_edge] = arg.uuid
        self.__hom_edge_depth[arg.uuid] = i_current_edge
        self._cnt_edges += 1
"""), (HO, HV, """        self._cnt_values += 1
        i_current_value = self._cnt_values - 1
        uid = arg.uuid
        self.__hom_values[uid] = i_current_value
        self.__hom_i_values[i_current_value] = uid
""")]),
    ('shared helper', 'same', P21, [(HO, HN, """        self._cnt_node = self.__number(arg, self._cnt_node, self.__hom_node_dim, self.__hom_dim_node)
"""), (HO, HE, """        self._cnt_edges = self.__number(arg, self._cnt_edges, self.__hom_edge_depth, self.__hom_depth_edge)

    @staticmethod
    def __number(arg, n, there, back):
        there[arg.uuid] = n
        back[n] = arg.uuid
        return n + 1
""")]),
    ('execute in steps', 'same', P21, [(HO, HX, """        self.reset_homology()
        tasks = []
        for walk in (self.values_bfs, self.nodes_bfs, self.edges_bfs):
            tasks.extend(await walk.execute(start))
        return tasks
""")]),
    ('clear', 'same', P21, [(HO, HR, """        self._cnt_node = self._cnt_edges = self._cnt_values = 0
        for table in (self.__hom_node_dim, self.__hom_edge_depth, self.__hom_values,
                      self.__hom_dim_node, self.__hom_depth_edge, self.__hom_i_values):
            table.clear()

    async def execute""")]),
    ('given as dicts', 'same', P21, [(HO, HB, """        self.reset_homology()
        self.__hom_node_dim = {n: i for n, i in nodes}
        self.__hom_dim_node = {i: n for n, i in self.__hom_node_dim.items()}
        self._cnt_node = len(self.__hom_node_dim)
        for e, i in edges:
            self.__hom_edge_depth[e] = i
            self.__hom_depth_edge[i] = e
        self._cnt_edges = len(self.__hom_edge_depth)
""")]),
    ('counts from tables', 'same', P21, [(HO, "        return self._cnt_node\n", "        return len(self.__hom_dim_node)\n"), (HO, "        return self._cnt_edges\n", "        return len(self.__hom_edge_depth)\n")]),
    ('reverse list', 'same', P21, [(HO, "        return self.__hom_dim_node[dim]\n", "        for uid, i in self.__hom_node_dim.items():\n            if i == dim:\n                return uid\n        raise KeyError(dim)\n")]),
    ('kind by tuple', 'same', P21, [(HO, "lambda x: isinstance(x, HypergraphNode)", "lambda x: isinstance(x, (HypergraphNode,))")]),
    # ---- P21 broken
    ('from one', 'bug', P21, [(HO, HN, HN.replace("        i_current_node = self._cnt_node\n        # Increment node count\n        self._cnt_node += 1\n", "        self._cnt_node += 1\n        i_current_node = self._cnt_node\n"))]),
    ('reverse beside', 'bug', P21, [(HO, HE, HE.replace("self.__hom_depth_edge[i_current_edge]", "self.__hom_depth_edge[self._cnt_edges]"))]),
    ('reverse in another map', 'bug', P21, [(HO, HV, HV.replace("self.__hom_i_values[i_current_value]", "self.__hom_depth_edge[i_current_value]"))]),
    ('count of another kind', 'bug', P21, [(HO, HE, HE.replace("i_current_edge = self._cnt_edges", "i_current_edge = self._cnt_node"))]),
    ('no count', 'bug', P21, [(HO, HV, HV.replace("        self._cnt_values += 1\n", ""))]),
    ('values not reset', 'bug', P21, [(HO, HR, HR.replace("        self._cnt_values = 0\n", ""))]),
    ('reverse not reset', 'bug', P21, [(HO, HR, HR.replace("        self.__hom_depth_edge: dict[int, bytes] = {}\n", ""))]),
    ('forward not reset', 'bug', P21, [(HO, HR, HR.replace("        self.__hom_node_dim: dict[bytes, int] = {}\n", ""))]),
    ('no reset', 'bug', P21, [(HO, "        self.reset_homology()\n        return [", "        return [")]),
    ('reset only when counted', 'bug', P21, [(HO, "        self.reset_homology()\n        return [", "        if self._cnt_edges > 0:\n            self.reset_homology()\n        return [")]),
    ('no values walk', 'bug', P21, [(HO, "                *await self.edges_bfs.execute(start),\n                *await self.values_bfs.execute(start)]", "                *await self.edges_bfs.execute(start)]")]),
    ('every element a node', 'bug', P21, [(HO, "lambda x: isinstance(x, HypergraphNode)", "lambda x: not isinstance(x, HypergraphEdge)")]),
    ('given without reset', 'bug', P21, [(HO, "        self.reset_homology()\n        # Node homology\n", "        # Node homology\n")]),
    ('given numbered anew', 'bug', P21, [(HO, "            self.__hom_edge_depth[e] = i\n            self.__hom_depth_edge[i] = e\n", "            self.__hom_edge_depth[e] = self._cnt_edges\n            self.__hom_depth_edge[self._cnt_edges] = e\n")]),
    ('given count', 'bug', P21, [(HO, "            self._cnt_edges += 1\n        # Value", "            self._cnt_edges = i + 1\n        # Value")]),
    ('given swapped', 'bug', P21, [(HO, "            self.__hom_dim_node[i] = n\n", "            self.__hom_dim_node[n] = i\n")]),
    ('already known', 'bug', P21, [(HO, HN, "        if arg.id_name in self.__hom_node_dim:\n            return\n        self.__hom_node_dim[arg.id_name] = self._cnt_node\n" + HN)]),
    ('number of edge reader', 'bug', P21, [(HO, "        return self.__hom_edge_depth[uuid]\n", "        return self.__hom_edge_depth.get(uuid, 0)\n")]),
    ('start at parent', 'bug', P21, [(HO, "*await self.edges_bfs.execute(start)", "*await self.edges_bfs.execute(start.parent)")]),
]
