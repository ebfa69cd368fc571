H = 'foundations/hierarchical_traversal_strategies.py'
T = 'foundations/hypergraph_traversal_strategies.py'
S = 'foundations/query/search_elements.py'
FO = 'hypergraph/factorization_operations.py'
QE = 'query/query_engine.py'
SETUP = """        if self._filter_func(start) and not self._ignore_root:
            _task_list.append(self._visitor_func(start))
        return _fringe, _task_list"""
FILL = """        if current_depth < self._max_depth:
            for v in current_node.get_subelements(self._filter_func):
                await _fringe.put((v, current_depth + 1))
                _fringe.task_done()
"""
LOOP = """        while not _fringe.empty():
            _next, current_depth = await _fringe.get()
            await self._fill_visit_fringe(_next, _fringe, current_depth)
            _task_list.append(self._visitor_func(_next))
"""
P14 = ['P14']
CASES = [
    # ---- same behaviour
    ('visit first', 'same', [], [(H, LOOP, """        while not _fringe.empty():
            _next, current_depth = await _fringe.get()
            _task_list.append(self._visitor_func(_next))
            await self._fill_visit_fringe(_next, _fringe, current_depth)
""")]),
    ('while true break', 'same', [], [(H, LOOP, """        while True:
            if _fringe.empty():
                break
            entry = await _fringe.get()
            element = entry[0]
            await self._fill_visit_fringe(element, _fringe, entry[1])
            outcome = self._visitor_func(element)
            _task_list.append(outcome)
""")]),
    ('early return fill', 'same', [], [(H, FILL, """        if current_depth >= self._max_depth:
            return
        next_depth = current_depth + 1
        for v in current_node.get_subelements(lambda x: True):
            if not self._filter_func(v):
                continue
            await _fringe.put((v, next_depth))
            _fringe.task_done()
""")]),
    ('filter at put by name', 'same', [], [(H, FILL, """        child_depth = current_depth + 1
        if child_depth <= self._max_depth:
            children = list(current_node.get_subelements(self._filter_func))
            for child in children:
                _fringe.put_nowait((child, child_depth))
""")]),
    ('helper', 'same', [], [(H, LOOP, """        while not _fringe.empty():
            await self._process_entry(_fringe, _task_list)

    async def _process_entry(self, _fringe, _task_list):
        _next, current_depth = await _fringe.get()
        await self._fill_visit_fringe(_next, _fringe, current_depth)
        _task_list.append(self._visitor_func(_next))
""")]),
    ('setup nested if', 'same', [], [(H, SETUP, """        if not self._ignore_root:
            if self._filter_func(start):
                _task_list += [self._visitor_func(start)]
        return _fringe, _task_list""")]),
    ('setup bool', 'same', [], [(H, SETUP, """        visit_root = not self._ignore_root and self._filter_func(start)
        if visit_root:
            _task_list.append(self._visitor_func(start))
        return _fringe, _task_list""")]),
    ('swap entry', 'same', [], [(H, "(v, current_depth + 1)", "(current_depth + 1, v)"), (H, "_next, current_depth = await", "current_depth, _next = await")]),
    ('put self prefilter take', 'same', [], [(H, FILL, """        if current_depth < self._max_depth:
            for v in current_node.get_subelements(lambda x: True):
                await _fringe.put((v, current_depth + 1))
"""), (H, LOOP, """        while not _fringe.empty():
            _next, current_depth = await _fringe.get()
            if self._filter_func(_next):
                await self._fill_visit_fringe(_next, _fringe, current_depth)
                _task_list.append(self._visitor_func(_next))
""")]),
    ('labels from max down', 'same', [], [(H, FILL, """        if self._max_depth - current_depth > 0:
            for v in current_node.get_subelements(self._filter_func):
                await _fringe.put((v, current_depth + 1))
                _fringe.task_done()
""")]),
    ('statement noop', 'same', [], [(H, "        _fringe = asyncio.Queue() if fringe is None else fringe\n        # Task", "        _fringe = fringe\n        if _fringe is None:\n            _fringe = asyncio.Queue()\n        # Task")]),
    # ---- bugs
    ('depth le', 'bug', P14, [(H, "if current_depth < self._max_depth:", "if current_depth <= self._max_depth:")]),
    ('depth no inc', 'bug', P14, [(H, "(v, current_depth + 1)", "(v, current_depth)")]),
    ('depth inc 2', 'bug', P14, [(H, "(v, current_depth + 1)", "(v, max(current_depth, 1) + 1)")]),
    ('start depth 1', 'bug', P14, [(H, "await self._fill_visit_fringe(start, _fringe, 0)", "await self._fill_visit_fringe(start, _fringe, 1)")]),
    ('ignore_root dropped', 'bug', P14, [(H, " and not self._ignore_root:", ":")]),
    ('ignore_root or', 'bug', P14, [(H, "if self._filter_func(start) and not self._ignore_root:", "if self._filter_func(start) or not self._ignore_root:")]),
    ('ignore_root not passed', 'bug', P14, [(H, "super().__init__(visitor_func, filter_func, ignore_root)\n        self._max_depth = max_depth", "super().__init__(visitor_func, filter_func)\n        self._max_depth = max_depth")]),
    ('filter start dropped', 'bug', P14, [(H, "if self._filter_func(start) and not self._ignore_root:", "if not self._ignore_root:")]),
    ('children unfiltered', 'bug', P14, [(H, "current_node.get_subelements(self._filter_func)", "current_node.get_subelements(lambda x: True)")]),
    ('leaf not visited', 'bug', P14, [(H, "            _task_list.append(self._visitor_func(_next))\n", "            if not _fringe.empty():\n                _task_list.append(self._visitor_func(_next))\n")]),
    ('bfs lifo', 'bug', P14, [(H, "_fringe = asyncio.Queue() if fringe", "_fringe = asyncio.LifoQueue() if fringe")]),
    ('dfs fifo', 'bug', P14, [(H, "asyncio.LifoQueue())\n        await self._fill_visit_fringe(start, _fringe)", "asyncio.Queue())\n        await self._fill_visit_fringe(start, _fringe)")]),
    ('prio', 'bug', P14, [(H, "_fringe = asyncio.Queue() if fringe", "_fringe = asyncio.PriorityQueue() if fringe")]),
    ('reversed', 'bug', P14, [(H, "for v in current_node.get_subelements(self._filter_func):", "for v in reversed(list(current_node.get_subelements(self._filter_func))):")]),
    ('only first child', 'bug', P14, [(H, "                _fringe.task_done()\n\n    async def _traverse", "                _fringe.task_done()\n                break\n\n    async def _traverse")]),
    ('visit parent', 'bug', P14, [(H, "_task_list.append(self._visitor_func(_next))", "_task_list.append(self._visitor_func(_next.parent))")]),
    ('expand twice', 'bug', P14, [(H, "        await self._fill_visit_fringe(start, _fringe)\n        await self._traverse(_fringe, _task_list)\n        return _task_list\n\n\nclass DepthFirst", "        await self._fill_visit_fringe(start, _fringe)\n        await self._fill_visit_fringe(start, _fringe)\n        await self._traverse(_fringe, _task_list)\n        return _task_list\n\n\nclass DepthFirst")]),
    ('result dropped', 'bug', P14, [(H, "            _task_list.append(self._visitor_func(_next))", "            self._visitor_func(_next)")]),
    ('insert front', 'bug', P14, [(H, "            _task_list.append(self._visitor_func(_next))", "            _task_list.insert(0, self._visitor_func(_next))")]),
    ('stop at none', 'bug', P14, [(H, "            await self._fill_visit_fringe(_next, _fringe, current_depth)\n", "            await self._fill_visit_fringe(_next, _fringe, current_depth)\n            if _next.cnt_subelements == 0:\n                break\n")]),
    ('put not awaited', 'bug', P14, [(H, "                await _fringe.put((v, current_depth + 1))", "                _fringe.put((v, current_depth + 1))")]),
    ('max depth or', 'bug', P14, [(H, "self._max_depth = max_depth", "self._max_depth = max_depth or 1")]),
    ('max depth min', 'bug', P14, [(H, "self._max_depth = max_depth", "self._max_depth = min(max_depth, 64)")]),
    ('skip childless', 'bug', P14, [(H, "lambda x: x", "lambda x: x")]) if False else
    ('limit unlimited', 'bug', P14, [(H, "self._max_depth = math.inf", "self._max_depth = 2")]),
]

TCHK = """            if _next in _visited:
                continue
            _visited.add(_next)
"""
P16, P17, P18 = ['P16'], ['P17'], ['P18']
SUB = """            for n in __next.get_subelements(lambda x: True):
                await fringe.put(n)
                fringe.task_done()
"""
SUBLOOP = """        while not fringe.empty():
            __next: HypergraphElement = await fringe.get()
            if __next.qualified_name == self._query_def:
                self._result.append(__next)
                return
""" + SUB
NEXT2 = """                    if __current_depth + 1 < self.max_depth:
                        await _fringe.put((_next.endpoint, __current_depth + 1))
                        _fringe.task_done()
"""
UP = """            if __next.parent is not None and __next.parent.uuid not in self.visited_set:
                await fringe.put(__next.parent)
                fringe.task_done()
"""
DOWN = """                if n.uuid not in self.visited_set:
                    await fringe.put(n)
                    fringe.task_done()
"""
CASES += [
    # ---- same
    ('visited by uuid', 'same', [], [(T, TCHK, """            if _next.uuid in _visited:
                continue
            _visited.add(_next.uuid)
""")]),
    ('visited dict', 'same', [], [(T, "_visited = set()", "_visited = {}"), (T, "_visited.add(_next)", "_visited[_next] = True")]),
    ('visited nested if', 'same', [], [(FO, """            if __next in __visited:
                continue
            __visited.add(__next)
            match __next:
                case HypergraphNode():
                    __next: HypergraphNode
                    for e in __next.sub_edges:
                        await fringe.put(e)
                        fringe.task_done()
                case HypergraphEdge():
                    __next: HypergraphEdge
                    i_e = __next.get_incoming_relations()
                    o_e = __next.get_outgoing_relations()
                    for i in i_e:
                        self.__relation_list.append((i, list(__next.get_outgoing_relations())))
                    for i in o_e:
                        await fringe.put(i.endpoint)
                        fringe.task_done()
""", """            if __next not in __visited:
                __visited.add(__next)
                if isinstance(__next, HypergraphNode):
                    for e in __next.sub_edges:
                        await fringe.put(e)
                        fringe.task_done()
                elif isinstance(__next, HypergraphEdge):
                    for i in __next.get_incoming_relations():
                        self.__relation_list.append((i, [x for x in __next.get_outgoing_relations()]))
                    for i in __next.get_outgoing_relations():
                        await fringe.put(i.endpoint)
                        fringe.task_done()
""")]),
    ('visited when put', 'same', [], [(FO, """            if __next in __visited:
                continue
            __visited.add(__next)
""", ""), (FO, """        __visited = set()
""", """        first = await fringe.get()
        __visited = {first}
        await fringe.put(first)
        async def hand_on(x):
            if x not in __visited:
                __visited.add(x)
                await fringe.put(x)
                fringe.task_done()
"""), (FO, """                        await fringe.put(e)
                        fringe.task_done()
""", """                        await hand_on(e)
"""), (FO, """                        await fringe.put(i.endpoint)
                        fringe.task_done()
""", """                        await hand_on(i.endpoint)
""")]),
    ('endpoint limit reordered', 'same', [], [(T, NEXT2, """                    hop = __current_depth + 1
                    if not self.max_depth <= hop:
                        entry = (_next.endpoint, hop)
                        await _fringe.put(entry)
                        _fringe.task_done()
""")]),
    ('search if else', 'same', [], [(S, SUBLOOP, """        while not fringe.empty():
            current: HypergraphElement = await fringe.get()
            if self._query_def != current.qualified_name:
                for child in current.get_subelements(lambda x: True):
                    await fringe.put(child)
                    fringe.task_done()
            else:
                self._result.append(current)
                break
""")]),
    ('search result assigned', 'same', [], [(S, SUBLOOP, SUBLOOP.replace("self._result.append(__next)", "self._result = [__next]"))]),
    ('search plain list', 'same', [], [(S, SUBLOOP, """        pending = []
        pending.append(await fringe.get())
        while pending:
            __next = pending.pop()
            if __next.qualified_name == self._query_def:
                self._result.append(__next)
                return
            pending.extend(__next.get_subelements(lambda x: True))
""")]),
    ('search setup inlined', 'same', [], [(S, """        __fringe, _task_list = self._setup_query()
        await __fringe.put(start)
""", """        __fringe = asyncio.Queue()
        await __fringe.put(start)
""")]),
    ('search up parent local', 'same', [], [(S, UP, """            up = __next.parent
            if up is None or up.uuid in self.visited_set:
                continue
            await fringe.put(up)
            fringe.task_done()
""")]),
    ('search up helper', 'same', [], [(S, DOWN, """                await self._hand_on(n, fringe)
"""), (S, UP, """            if __next.parent is not None:
                await self._hand_on(__next.parent, fringe)

    async def _hand_on(self, x, fringe):
        if x.uuid in self.visited_set:
            return
        await fringe.put(x)
        fringe.task_done()
""")]),
    # ---- P16
    ('bfs recursive', 'bug', P16, [(H, LOOP, """        if _fringe.empty():
            return
        _next, current_depth = await _fringe.get()
        await self._fill_visit_fringe(_next, _fringe, current_depth)
        _task_list.append(self._visitor_func(_next))
        await self._traverse(_fringe, _task_list)
""")]),
    ('search recursive', 'bug', P16, [(S, SUBLOOP, """        while not fringe.empty():
            __next: HypergraphElement = await fringe.get()
            if __next.qualified_name == self._query_def:
                self._result.append(__next)
                return
            for n in __next.get_subelements(lambda x: True):
                await fringe.put(n)
                fringe.task_done()
                await self._traverse(fringe)
""")]),
    ('factor recursive', 'bug', P16, [(FO, """                    for i in o_e:
                        await fringe.put(i.endpoint)
                        fringe.task_done()
""", """                    for i in o_e:
                        await fringe.put(i.endpoint)
                        fringe.task_done()
                        await self.__traverse(fringe)
""")]),
    ('walk recursive helper', 'bug', P16, [(T, """        for v in el.sub_relations:
            await _fringe.put((v, current_depth))
            _fringe.task_done()
""", """        for v in el.sub_relations:
            await _fringe.put((v, current_depth))
            _fringe.task_done()
            await self._traverse(_fringe, [])
""")]),
    # ---- P17
    ('visited gone', 'bug', P17, [(T, TCHK, "")]),
    ('visited not added', 'bug', P17, [(T, "            _visited.add(_next)\n", "")]),
    ('visited by name', 'bug', P17, [(T, TCHK, """            if _next.id_name in _visited:
                continue
            _visited.add(_next.id_name)
""")]),
    ('visited on self', 'bug', P17, [(T, "        _visited = set()\n", "        _visited = self._seen\n"), (T, "        self.max_depth = depth\n", "        self.max_depth = depth\n        self._seen = set()\n")]),
    ('visited only edges', 'bug', P17, [(T, TCHK, """            if isinstance(_next, HypergraphEdge):
                if _next in _visited:
                    continue
                _visited.add(_next)
""")]) if False else
    ('walk lifo', 'bug', P17, [(T, "_fringe = asyncio.Queue() if fringe", "_fringe = asyncio.LifoQueue() if fringe")]),
    ('walk depth not passed', 'bug', P17, [(T, "await _fringe.put((_next.endpoint, __current_depth + 1))", "await _fringe.put((_next.endpoint, __current_depth))")]),
    ('walk depth le', 'bug', P17, [(T, "if __current_depth + 1 < self.max_depth:", "if __current_depth + 1 <= self.max_depth:")]),
    ('walk edge depth', 'bug', P17, [(T, "await self.__fill_edge(_next, _fringe, __current_depth)", "await self.__fill_edge(_next, _fringe, __current_depth + 1)")]),
    ('walk stops', 'bug', P17, [(T, """            if _next in _visited:
                continue
""", """            if _next in _visited:
                break
""")]),
    ('walk outgoing only', 'bug', P17, [(T, NEXT2, """                    if __current_depth + 1 < self.max_depth and _next.direction != EnumRelationDirection.INWARDS:
                        await _fringe.put((_next.endpoint, __current_depth + 1))
                        _fringe.task_done()
""")]),
    ('walk weight gate', 'bug', P17, [(T, "if __current_depth + 1 < self.max_depth:", "if __current_depth + 1 < self.max_depth and w[0] != 0.0:")]),
    ('walk ports of node', 'bug', P17, [(T, "        for v in el.sub_edges:", "        for v in el.sub_ports:")]),
    ('factor visited gone', 'bug', P17, [(FO, """            if __next in __visited:
                continue
            __visited.add(__next)
""", "")]),
    ('factor visited fields', 'bug', P17, [(FO, "        __visited = set()\n        while", "        __visited = self.visited\n        while"), (FO, "        super().__init__()\n        self.__relation_list = []\n", "        super().__init__()\n        self.__relation_list = []\n        self.visited = set()\n")]),
    ('factor incoming followed', 'bug', P17, [(FO, """                    for i in o_e:
                        await fringe.put(i.endpoint)
""", """                    for i in i_e:
                        await fringe.put(i.endpoint)
""")]),
    ('factor only first', 'bug', P17, [(FO, """                        await fringe.put(i.endpoint)
                        fringe.task_done()
""", """                        await fringe.put(i.endpoint)
                        fringe.task_done()
                        break
""")]),
    ('search set not marked', 'bug', P17, [(S, "            self.visited_set.add(__next.uuid)\n", "")]),
    ('search marks after', 'bug', P17, [(S, "            self.visited_set.add(__next.uuid)\n", ""), (S, "                self._result.append(__next)\n                return\n            for n in __next.get_subelements(lambda x: True):\n                if", "                self._result.append(__next)\n                self.visited_set.add(__next.uuid)\n                return\n            for n in __next.get_subelements(lambda x: True):\n                if")]),
    ('search up by name', 'bug', P17, [(S, "self.visited_set.add(__next.uuid)", "self.visited_set.add(__next.id_name)"), (S, "if n.uuid not in", "if n.id_name not in"), (S, "__next.parent.uuid not in", "__next.parent.id_name not in")]),
    ('search up unguarded', 'bug', P17, [(S, "            if __next.parent is not None and __next.parent.uuid not in self.visited_set:", "            if __next.parent is not None:")]),
    ('search up reset dropped', 'bug', ['P17', 'P18'], [(S, """        self.visited_set = set()
        return await super().execute(start)""", """        return await super().execute(start)""")]),
    # ---- P18
    ('match id_name', 'bug', P18, [(S, "if __next.qualified_name == self._query_def:\n                self._result.append(__next)\n                return\n            for n in __next.get_subelements(lambda x: True):\n                await", "if __next.id_name == self._query_def:\n                self._result.append(__next)\n                return\n            for n in __next.get_subelements(lambda x: True):\n                await")]),
    ('match endswith', 'bug', P18, [(S, "__next.qualified_name == self._query_def", "__next.qualified_name.endswith(self._query_def)")]),
    ('match is', 'bug', P18, [(S, "__next.qualified_name == self._query_def", "__next.qualified_name is self._query_def")]),
    ('match in', 'bug', P18, [(S, "__next.qualified_name == self._query_def", "self._query_def in __next.qualified_name")]),
    ('match lower', 'bug', P18, [(S, "__next.qualified_name == self._query_def", "__next.qualified_name.lower() == self._query_def.lower()")]),
    ('no reset', 'bug', P18, [(S, "        self._result = []\n        __fringe", "        __fringe")]),
    ('prune by prefix', 'bug', P18, [(S, SUB, """            for n in __next.get_subelements(lambda x: x.id_name in self._query_def.split('/')):
                await fringe.put(n)
                fringe.task_done()
""")]) if False else
    ('prune nodes', 'bug', P18, [(S, SUB, """            for n in __next.get_subelements(lambda x: isinstance(x, HypergraphNode)):
                await fringe.put(n)
                fringe.task_done()
""")]),
    ('result is name', 'bug', P18, [(S, "self._result.append(__next)", "self._result.append(__next.qualified_name)")]),
    ('cache', 'bug', P18, [(S, "        self._result = []\n        __fringe", "        if self._result:\n            return []\n        self._result = []\n        __fringe")]),
    ('cache by name', 'bug', P18, [(S, "        self._result = []\n        __fringe", "        if self._result and self._result[0].qualified_name == self._query_def:\n            return []\n        self._result = []\n        __fringe")]),
    ('start not searched', 'bug', P18, [(S, "        await __fringe.put(start)\n        __fringe.task_done()\n        await self._traverse(__fringe)\n        return []\n\n\nclass QuerySearchSub", "        for x in start.get_subelements(lambda x: True):\n            await __fringe.put(x)\n            __fringe.task_done()\n        await self._traverse(__fringe)\n        return []\n\n\nclass QuerySearchSub")]),
    ('gives up at leaf', 'bug', P18, [(S, SUB, SUB + "            if __next.cnt_subelements == 0:\n                return\n")]),
    ('search up parent skipped', 'bug', P18, [(S, UP, "")]),
    ('search up only root', 'bug', P18, [(S, "if __next.parent is not None and __next.parent.uuid", "if __next.parent is not None and __next.parent.parent is not None and __next.parent.uuid")]),
    ('search up seen by name', 'bug', P18, [(S, "self.visited_set.add(__next.uuid)", "self.visited_set.add(__next.id_name)"), (S, "if n.uuid not in", "if n.id_name not in"), (S, "__next.parent.uuid not in", "__next.parent.id_name not in")]),
    ('goes on after match', 'same', [], [(S, "                self._result.append(__next)\n                return\n            for n in __next.get_subelements(lambda x: True):\n                await", "                self._result.append(__next)\n                break\n            for n in __next.get_subelements(lambda x: True):\n                await")]),
]
