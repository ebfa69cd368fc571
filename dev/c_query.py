QE = 'query/query_engine.py'
P19 = ['P19']
P20 = ['P20']
EXE = """        __tasks = []
        prefilter = self.prefilter_queries()
        for i in prefilter:
            __tasks.extend(await i)
        await asyncio.gather(*__tasks)
        res = []
        __task_list = await self.task_result_queries_lists()
        for t in __task_list:
            res.extend(await t)
        return res
"""
BFS = """        self.__bfs = BreadthFirstHierarchicalTraversal(lambda x: self.__prefilter.append(self.add_to_result(x)),
                                                       lambda x: isinstance(x, HypergraphNode | HypergraphRelation |
                                                                            HypergraphEdge | SemanticValueNode) and traversal_statement(x))
"""
ADD = """        if self.__preposition(x):
            await self.__result.put(x)
            self.__result.task_done()
"""
GET = """        while not self.__result.empty():
            yield await self.__result.get()
"""
GLR = """        res = []
        async for e in self.execute():
            res.append(e)
        return res
"""
CASES = [
    ('fused loop', 'same', P19, [(QE, EXE, """        for query in self.__queries.values():
            await asyncio.gather(*await query.prefilter())
        res = []
        for query in self.__queries.values():
            res.extend(await query.get_list_results())
        return res
""")]),
    ('fused loop 2', 'same', P19, [(QE, EXE, """        res = []
        for query in self.__queries.values():
            await asyncio.gather(*await query.prefilter())
            res.extend(await query.get_list_results())
        return res
""")]),
    ('comprehension', 'same', P19, [(QE, EXE, """        tasks = [t for q in self.__queries.values() for t in await q.prefilter()]
        await asyncio.gather(*tasks)
        return [e for q in self.__queries.values() for e in await q.get_list_results()]
""")]),
    ('early return', 'same', P19, [(QE, "        __tasks = []\n        prefilter", "        if not self.__queries:\n            return []\n        __tasks = []\n        prefilter")]),
    ('sequential await', 'same', P19, [(QE, "        await asyncio.gather(*__tasks)\n", "        for task in __tasks:\n            await task\n")]),
    ('helpers list comp', 'same', P19, [(QE, """        task_list = []
        for e in self.__queries.values():
            task_list.append(e.prefilter())
        return task_list
""", """        return [e.prefilter() for e in self.__queries.values()]
"""), (QE, """        task_list = []
        for e in self.__queries.values():
            task_list.append(e.get_list_results())
        return task_list
""", """        return [query.get_list_results() for _, query in self.__queries.items()]
""")]),
    ('filter method', 'same', P19, [(QE, BFS, """        self.__statement = traversal_statement
        self.__bfs = BreadthFirstHierarchicalTraversal(self.__schedule, self.__accept)

    def __schedule(self, x):
        self.__prefilter.append(self.add_to_result(x))

    def __accept(self, x):
        if not isinstance(x, (HypergraphNode, HypergraphRelation, HypergraphEdge, SemanticValueNode)):
            return False
        return self.__statement(x)
""")]),
    ('prep guard', 'same', P19, [(QE, ADD, """        if not self.__preposition(x):
            return
        await self.__result.put(x)
        self.__result.task_done()
""")]),
    ('put_nowait', 'same', P19, [(QE, "await self.__result.put(x)", "self.__result.put_nowait(x)")]),
    ('get direct', 'same', P19, [(QE, GLR, """        return [e async for e in self.execute()]
""")]),
    ('get nowait', 'same', P19, [(QE, GLR, """        res = []
        while not self.__result.empty():
            res.append(self.__result.get_nowait())
        return res
""")]),
    ('qsize', 'same', P19, [(QE, GET, """        while self.__result.qsize() > 0:
            e = await self.__result.get()
            yield e
""")]),
    ('breadth to depth walk kept', 'same', P19, [(QE, "import BreadthFirstHierarchicalTraversal", "import BreadthFirstHierarchicalTraversal as Walk"), (QE, "self.__bfs = BreadthFirstHierarchicalTraversal", "self.__bfs = Walk")]),
    ('clear in place', 'same', P19, [(QE, "    def clear(self):\n        self.__queries = dict()", "    def clear(self):\n        self.__queries.clear()")]),
    ('asyncio run', 'same', P19, [(QE, """        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(self.execute())""", """        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        result = loop.run_until_complete(self.execute())
        return result""")]),
    ('sync finally', 'same', P19, [(QE, "        return loop.run_until_complete(self.execute())", "        try:\n            return loop.run_until_complete(self.execute())\n        finally:\n            asyncio.set_event_loop(None)\n            loop.close()")]),
    ('prefilter comprehension walker', 'same', P19, [(QE, """        self.__prefilter = []
        await self.__bfs""", """        self.__prefilter = list()
        await self.__bfs""")]),
    ('drain helper', 'same', P19, [(QE, EXE, """        await self.__run_all()
        return await self.__read_all()

    async def __run_all(self):
        pending = []
        for step in self.prefilter_queries():
            pending += await step
        await asyncio.gather(*pending)

    async def __read_all(self):
        found = []
        for reader in await self.task_result_queries_lists():
            found += await reader
        return found
""")]),
    ('update', 'same', P19, [(QE, "        self.__queries[name] = query", "        self.__queries.update({name: query})")]),
    # bugs
    ('filter or', 'bug', P19, [(QE, "SemanticValueNode) and traversal", "SemanticValueNode) or traversal")]),
    ('filter dropped', 'bug', P19, [(QE, " and traversal_statement(x))", ")")]),
    ('filter negated', 'bug', P19, [(QE, " and traversal_statement(x))", " and not traversal_statement(x))")]),
    ('no relation', 'bug', P19, [(QE, "HypergraphNode | HypergraphRelation |", "HypergraphNode |")]),
    ('no edge', 'bug', P19, [(QE, "HypergraphNode | HypergraphRelation |\n                                                                            HypergraphEdge |", "HypergraphNode | HypergraphRelation |")]),
    ('ignore root', 'bug', P19, [(QE, "and traversal_statement(x))", "and traversal_statement(x), True)")]),
    ('limited', 'bug', P19, [(QE, "import BreadthFirstHierarchicalTraversal", "import DepthLimitedBreadthVisitChildren"), (QE, "self.__bfs = BreadthFirstHierarchicalTraversal", "self.__bfs = DepthLimitedBreadthVisitChildren"), (QE, "and traversal_statement(x))", "and traversal_statement(x), 8)")]),
    ('no reset', 'bug', P19, [(QE, "        self.__prefilter = []\n        await", "        await")]),
    ('add twice', 'bug', P19, [(QE, "            await self.__result.put(x)\n", "            await self.__result.put(x)\n            await self.__result.put(x)\n")]),
    ('cond dropped', 'bug', P19, [(QE, "        if self.__preposition(x):\n            await self.__result.put(x)\n            self.__result.task_done()", "        await self.__result.put(x)\n        self.__result.task_done()")]),
    ('cond also', 'bug', P19, [(QE, "        if self.__preposition(x):", "        if x.cnt_subelements >= 0 and x is not self.__start and self.__preposition(x):")]),
    ('bounded', 'bug', P19, [(QE, "        if self.__preposition(x):", "        if self.__result.qsize() < 64 and self.__preposition(x):")]),
    ('read one', 'bug', P19, [(QE, GET, """        if not self.__result.empty():
            yield await self.__result.get()
""")]),
    ('read break', 'bug', P19, [(QE, GET, """        while not self.__result.empty():
            yield await self.__result.get()
            break
""")]),
    ('read skip', 'bug', P19, [(QE, GET, """        while not self.__result.empty():
            await self.__result.get()
            if self.__result.empty():
                break
            yield await self.__result.get()
""")]),
    ('lifo', 'bug', P19, [(QE, "self.__result = asyncio.Queue()", "self.__result = asyncio.LifoQueue()")]),
    ('stop last', 'bug', P19, [(QE, "while not self.__result.empty():", "while self.__result.qsize() > 1:")]),
    ('dedupe', 'bug', P19, [(QE, GLR, GLR.replace("            res.append(e)", "            if e not in res:\n                res.append(e)"))]),
    ('insert front', 'bug', P19, [(QE, GLR, GLR.replace("res.append(e)", "res.insert(0, e)"))]),
    ('reverse queries', 'bug', P19, [(QE, "        __task_list = await self.task_result_queries_lists()\n        for t in __task_list:", "        __task_list = await self.task_result_queries_lists()\n        for t in reversed(__task_list):")]),
    ('no gather', 'bug', P19, [(QE, "        await asyncio.gather(*__tasks)\n", "")]),
    ('gather after', 'bug', P19, [(QE, "        await asyncio.gather(*__tasks)\n", ""), (QE, "            res.extend(await t)\n", "            res.extend(await t)\n        await asyncio.gather(*__tasks)\n")]),
    ('gather last only', 'bug', P19, [(QE, "            __tasks.extend(await i)", "            __tasks = await i")]),
    ('result last only', 'bug', P19, [(QE, "            res.extend(await t)", "            res = await t")]),
    ('set', 'bug', P19, [(QE, "            res.extend(await t)\n        return res", "            res.extend(await t)\n        return list(set(res))")]),
    ('dedupe engine', 'bug', P19, [(QE, "            res.extend(await t)\n", "            for e in await t:\n                if e not in res:\n                    res.append(e)\n")]),
    ('first result', 'bug', P19, [(QE, "            res.extend(await t)\n        return res", "            res.extend(await t)\n            if res:\n                return res\n        return res")]),
    ('append list', 'bug', P19, [(QE, "            res.extend(await t)", "            res.append(await t)")]),
    ('clear not', 'bug', P19, [(QE, "    def clear(self):\n        self.__queries = dict()", "    def clear(self):\n        __queries = dict()")]),
    ('setdefault', 'bug', P19, [(QE, "        self.__queries[name] = query", "        self.__queries.setdefault(name, query)")]),
    ('wrong key', 'bug', P19, [(QE, "        self.__queries[name] = query", "        self.__queries[query] = query")]),
    ('guard add', 'bug', P19, [(QE, "        self.__queries[name] = query", "        if name not in self.__queries:\n            self.__queries[name] = query")]),
    ('sync none', 'bug', P19, [(QE, "        return loop.run_until", "        loop.run_until")]),
    ('slice queries', 'bug', P19, [(QE, "        for e in self.__queries.values():\n            task_list.append(e.get_list", "        for e in list(self.__queries.values())[1:]:\n            task_list.append(e.get_list")]),
    ('task never started', 'bug', P19, [(QE, "lambda x: self.__prefilter.append(self.add_to_result(x))", "lambda x: self.add_to_result(x)")]),
    ('start from parent', 'bug', P19, [(QE, "self.__bfs.execute(self.__start)", "self.__bfs.execute(self.__start.parent)")]),
]
FO = 'hypergraph/factorization_operations.py'
SUB = """        for __edge in filter(lambda x: isinstance(x, HypergraphEdge), start):
            __edge: HypergraphEdge
            i_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_incoming_relations())
            for e in i_e:
                o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())
                for e1 in o_e:
                    if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:
                        self.__relation_list.append([e, e1])
"""
REL = """            if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                if __rel.parent.uuid not in self.incoming_relations:
                    self.incoming_relations[__rel.parent.uuid] = []
                self.incoming_relations[__rel.parent.uuid].append(__rel)
            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                if __rel.parent.uuid not in self.outgoing_relations:
                    self.outgoing_relations[__rel.parent.uuid] = []
                self.outgoing_relations[__rel.parent.uuid].append(__rel)
"""
PAIR = """        for k in self.incoming_relations:
            for i_e in self.incoming_relations[k]:
                for o_e in self.outgoing_relations.get(k, []):
                    if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                        self.__relation_list.append([i_e, o_e])
"""
CASES += [
    ('sub lists', 'same', P20, [(FO, SUB, """        for edge in start:
            if not isinstance(edge, HypergraphEdge):
                continue
            incoming = [r for r in edge.get_incoming_relations() if r.endpoint in self.nodes]
            outgoing = [r for r in edge.get_outgoing_relations() if r.endpoint in self.nodes]
            for i in incoming:
                for o in outgoing:
                    if i.endpoint.uuid == o.endpoint.uuid and not self.self_loop:
                        continue
                    self.__relation_list.append([i, o])
""")]),
    ('sub empty guard', 'same', P20, [(FO, SUB, """        for edge in filter(lambda x: isinstance(x, HypergraphEdge), start):
            incoming = [r for r in edge.get_incoming_relations() if r.endpoint in self.nodes]
            outgoing = [r for r in edge.get_outgoing_relations() if r.endpoint in self.nodes]
            if not incoming or not outgoing:
                continue
            for i in incoming:
                for o in outgoing:
                    if self.self_loop or i.endpoint.uuid != o.endpoint.uuid:
                        self.__relation_list.append([i, o])
""")]),
    ('sub helper', 'same', P20, [(FO, SUB, """        for edge in start:
            if isinstance(edge, HypergraphEdge):
                self.__pair(edge)
        return self.__relation_list

    def __selected(self, relations):
        return [r for r in relations if r.endpoint in self.nodes]

    def __pair(self, edge):
        for i in self.__selected(edge.get_incoming_relations()):
            for o in self.__selected(edge.get_outgoing_relations()):
                if (i.endpoint.uuid != o.endpoint.uuid) or self.self_loop:
                    self.__relation_list.append([i, o])

    def unused(self):
""")]),
    ('sub comprehension', 'same', P20, [(FO, SUB, """        self.__relation_list = [
            [i, o]
            for edge in start if isinstance(edge, HypergraphEdge)
            for i in edge.get_incoming_relations() if i.endpoint in self.nodes
            for o in edge.get_outgoing_relations() if o.endpoint in self.nodes
            if i.endpoint.uuid != o.endpoint.uuid or self.self_loop
        ]
""")]),
    ('sub node comp', 'same', P20, [(FO, "class RelationFact", "class  RelationFact"), (FO, SUB.split('\n')[0], "        self.nodes = [n for n in start if isinstance(n, HypergraphNode)]\n" + SUB.split('\n')[0])]),
    ('rel setdefault', 'same', P20, [(FO, REL, """            key = __rel.parent.uuid
            if __rel.direction in (EnumRelationDirection.INWARDS, EnumRelationDirection.BIDIRECTIONAL):
                self.incoming_relations.setdefault(key, []).append(__rel)
            if __rel.direction in (EnumRelationDirection.OUTWARDS, EnumRelationDirection.BIDIRECTIONAL):
                self.outgoing_relations.setdefault(key, []).append(__rel)
""")]),
    ('rel match', 'same', P20, [(FO, REL, """            key = __rel.parent.uuid
            if key not in self.incoming_relations:
                self.incoming_relations[key] = []
                self.outgoing_relations[key] = []
            match __rel.direction:
                case EnumRelationDirection.INWARDS:
                    self.incoming_relations[key].append(__rel)
                case EnumRelationDirection.OUTWARDS:
                    self.outgoing_relations[key].append(__rel)
                case EnumRelationDirection.BIDIRECTIONAL:
                    self.incoming_relations[key].append(__rel)
                    self.outgoing_relations[key].append(__rel)
""")]),
    ('rel items', 'same', P20, [(FO, PAIR, """        for k, incoming in self.incoming_relations.items():
            outgoing = self.outgoing_relations.get(k, [])
            for i_e in incoming:
                for o_e in outgoing:
                    if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                        self.__relation_list.append([i_e, o_e])
""")]),
    ('rel in guard', 'same', P20, [(FO, PAIR, """        for k in self.incoming_relations:
            if k not in self.outgoing_relations:
                continue
            for i_e in self.incoming_relations[k]:
                for o_e in self.outgoing_relations[k]:
                    if o_e.endpoint.uuid == i_e.endpoint.uuid and not self.self_loop:
                        continue
                    self.__relation_list.append([i_e, o_e])
""")]),
    ('rel extract', 'same', P20, [(FO, PAIR, """        for k in self.incoming_relations:
            self.__relation_list.extend(self.__pairs_of(k))
        return self.__relation_list

    def __pairs_of(self, k):
        found = []
        for i_e in self.incoming_relations[k]:
            for o_e in self.outgoing_relations.get(k, []):
                if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                    found.append([i_e, o_e])
        return found

    def unused(self):
""")]),
    ('rel defaultdict', 'same', P20, [(FO, "import typing\n", "import typing\nfrom collections import defaultdict\n"), (FO, "        self.incoming_relations = {}\n        self.outgoing_relations = {}\n", "        self.incoming_relations = defaultdict(list)\n        self.outgoing_relations = defaultdict(list)\n"), (FO, REL, """            key = __rel.parent.uuid
            if __rel.direction != EnumRelationDirection.OUTWARDS:
                self.incoming_relations[key].append(__rel)
            if __rel.direction != EnumRelationDirection.INWARDS:
                self.outgoing_relations[key].append(__rel)
""")]),
    ('full list comp', 'same', P20, [(FO, "(i, list(__next.get_outgoing_relations()))", "(i, [o for o in __next.get_outgoing_relations()])")]),
    ('map comp', 'same', P20, [(FO, "return map(lambda x: self.__mapping_function(x), start)", "return map(self.__mapping_function, start)")]),
    ('map gen', 'same', P20, [(FO, "return map(lambda x: self.__mapping_function(x), start)", "return (self.__mapping_function(x) for x in start)")]),
    # bugs
    ('sub unselected in', 'bug', P20, [(FO, "i_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_incoming_relations())", "i_e = __edge.get_incoming_relations()")]),
    ('sub unselected out', 'bug', P20, [(FO, "o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())", "o_e = __edge.get_outgoing_relations()")]),
    ('sub exhausted', 'bug', P20, [(FO, """            for e in i_e:
                o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())
""", """            o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())
            for e in i_e:
""")]),
    ('sub swapped', 'bug', P20, [(FO, "append([e, e1])", "append([e1, e])")]),
    ('sub loop always', 'bug', P20, [(FO, "if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:", "if e.endpoint.uuid != e1.endpoint.uuid:")]),
    ('sub loop and', 'bug', P20, [(FO, "if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:", "if (e.endpoint.uuid != e1.endpoint.uuid) and self.self_loop:")]),
    ('sub loop by relation', 'bug', P20, [(FO, "if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:", "if (e.uuid != e1.uuid) or self.self_loop:")]),
    ('sub break', 'bug', P20, [(FO, "                        self.__relation_list.append([e, e1])", "                        self.__relation_list.append([e, e1])\n                        break")]),
    ('sub return', 'bug', P20, [(FO, "                        self.__relation_list.append([e, e1])\n        return", "                        self.__relation_list.append([e, e1])\n            return self.__relation_list\n        return")]),
    ('sub in in', 'bug', P20, [(FO, "x.endpoint in self.nodes, __edge.get_outgoing_relations())", "x.endpoint in self.nodes, __edge.get_incoming_relations())")]),
    ('sub dedupe', 'bug', P20, [(FO, "if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:", "if ((e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop) and [e1, e] not in self.__relation_list:")]),
    ('sub weight', 'bug', P20, [(FO, "if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:", "if e.weight is not None and ((e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop):")]),
    ('sub name', 'bug', P20, [(FO, "if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:", "if (e.endpoint.id_name != e1.endpoint.id_name) or self.self_loop:")]),
    ('rel not bidirectional', 'bug', P20, [(FO, "if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:", "if __rel.direction == EnumRelationDirection.INWARDS:")]),
    ('rel elif', 'bug', P20, [(FO, "            if __rel.direction == EnumRelationDirection.OUTWARDS or", "            elif __rel.direction == EnumRelationDirection.OUTWARDS or")]),
    ('rel overwritten', 'bug', P20, [(FO, """                if __rel.parent.uuid not in self.outgoing_relations:
                    self.outgoing_relations[__rel.parent.uuid] = []
""", """                self.outgoing_relations[__rel.parent.uuid] = []
""")]),
    ('rel key error', 'bug', P20, [(FO, "self.outgoing_relations.get(k, [])", "self.outgoing_relations[k]")]),
    ('rel key endpoint', 'bug', P20, [(FO, REL, REL.replace('__rel.parent.uuid', '__rel.endpoint.uuid'))]),
    ('rel all edges', 'bug', P20, [(FO, "                for o_e in self.outgoing_relations.get(k, []):\n", "                for o_e in (r for v in self.outgoing_relations.values() for r in v):\n")]),
    ('rel cross', 'bug', P20, [(FO, """                for o_e in self.outgoing_relations.get(k, []):
                    if""", """              for k2 in self.outgoing_relations:
                for o_e in self.outgoing_relations[k2]:
                    if""")]),
    ('rel swapped dict', 'bug', P20, [(FO, "                self.outgoing_relations[__rel.parent.uuid].append(__rel)", "                self.incoming_relations.setdefault(__rel.parent.uuid, []).append(__rel)")]),
    ('rel self loop', 'bug', P20, [(FO, "if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:", "if (o_e.endpoint.uuid != i_e.endpoint.uuid) or not self.self_loop:")]),
    ('full skip first', 'bug', P20, [(FO, "(i, list(__next.get_outgoing_relations()))", "(i, list(__next.get_outgoing_relations())[1:])")]),
    ('full exhausted', 'bug', P20, [(FO, "(i, list(__next.get_outgoing_relations()))", "(i, list(o_e))")]),
    ('full incoming', 'bug', P20, [(FO, "(i, list(__next.get_outgoing_relations()))", "(i, list(__next.get_incoming_relations()))")]),
    ('full not self', 'bug', P20, [(FO, "(i, list(__next.get_outgoing_relations()))", "(i, [o for o in __next.get_outgoing_relations() if o is not i])")]),
    ('map filter', 'bug', P20, [(FO, "return map(lambda x: self.__mapping_function(x), start)", "return map(lambda x: self.__mapping_function(x[0]), start)")]),
    ('map part', 'bug', P20, [(FO, "return map(lambda x: self.__mapping_function(x), start)", "return map(lambda x: self.__mapping_function(x), (y for y in start if y[1]))")]),
]
