CI = 'foundations/conceptual_item.py'
BE = 'hypergraph/base_elements.py'
CASES = [
 ('add helper extracted', 'same', [], [(CI, """            # Index by names (multiple names can exist, add them as a list)
            if element.id_name not in self._index_elements_by_name:
                self._index_elements_by_name[element.id_name] = {}
            self._index_elements_by_name[element.id_name][element.uuid] = element
""", """            self._register_name(element)
"""), (CI, """    def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
        if len(id_name) > 0:
            if uuid is not None:
                self._index""", """    def _register_name(self, element):
        self._index_elements_by_name.setdefault(element.id_name, {})[element.uuid] = element

    def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
        if len(id_name) > 0:
            if uuid is not None:
                self._index""")]),
 ('remove helper detach', 'same', [], [(CI, """                    el = self._sub_elements.pop(v.uuid)
                    # Reset index
                    self._index_elements_by_name[id_name].pop(v.uuid)
                    # Invalidate each element parent
                    el.parent = None
                    # Update timestamp etc.
                    self.__update_element(el)
                    # Decrement by each element
                    self._cnt_subelements -= 1
                    # Yield element
                    yield el
""", """                    yield self._detach(id_name, v.uuid)
"""), (CI, """                self._index_elements_by_name[id_name].pop(uuid)
                el = self._sub_elements.pop(uuid)
                # Invalidate parent
                el.parent = None
                self.__update_element(el)
                # Decrement element count
                self._cnt_subelements -= 1
                # Yield element
                yield el
""", """                yield self._detach(id_name, uuid)
"""), (CI, """    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
        tokens""", """    def _detach(self, id_name, uuid):
        self._index_elements_by_name[id_name].pop(uuid)
        el = self._sub_elements.pop(uuid)
        el.parent = None
        self.__update_element(el)
        self._cnt_subelements -= 1
        return el

    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
        tokens""")]),
 ('remove restructured early return', 'same', [], [(CI, """        if len(id_name) > 0:
            if uuid is not None:
                self._index_elements_by_name[id_name].pop(uuid)
                el = self._sub_elements.pop(uuid)
                # Invalidate parent
                el.parent = None
                self.__update_element(el)
                # Decrement element count
                self._cnt_subelements -= 1
                # Yield element
                yield el
            else:
                __tmp = [x for x in self._index_elements_by_name[id_name].values()]
                for v in __tmp:
                    el = self._sub_elements.pop(v.uuid)
                    # Reset index
                    self._index_elements_by_name[id_name].pop(v.uuid)
                    # Invalidate each element parent
                    el.parent = None
                    # Update timestamp etc.
                    self.__update_element(el)
                    # Decrement by each element
                    self._cnt_subelements -= 1
                    # Yield element
                    yield el
        else:
            if uuid is not None:
                el = self._sub_elements.pop(uuid)
                self._index_elements_by_name[el.id_name].pop(uuid)
                # Invalidate element parent
                el.parent = None
                # Update tiemstamp etc.
                self.__update_element(el)
                # Decrement element
                self._cnt_subelements -= 1
                # Yield element
                yield el
            else:
                raise ErrorInvalidQuery
""", """        if not id_name and uuid is None:
            raise ErrorInvalidQuery
        if id_name:
            bucket = self._index_elements_by_name[id_name]
            targets = [bucket[uuid]] if uuid is not None else list(bucket.values())
        else:
            targets = [self._sub_elements[uuid]]
        for el in targets:
            del self._sub_elements[el.uuid]
            del self._index_elements_by_name[el.id_name][el.uuid]
            el.parent = None
            self.__update_element(el)
            self._cnt_subelements -= 1
            yield el
""")]),
 ('add early raise', 'same', [], [(CI, """        if element.uuid not in self._sub_elements:
            self._sub_elements[element.uuid] = element
        else:
            raise ErrorDuplicateElement
""", """        if element.uuid in self._sub_elements:
            raise ErrorDuplicateElement
        self._sub_elements[element.uuid] = element
""")]),
 ('add reorder old parent first', 'same', [], [(CI, """            # Index by names (multiple names can exist, add them as a list)
            if element.id_name not in self._index_elements_by_name:
                self._index_elements_by_name[element.id_name] = {}
            self._index_elements_by_name[element.id_name][element.uuid] = element
            # Set the CID of the added element
            element.cid = self._cnt_subelements_historical
            # Check whether this element has been assigned to somewhere else
            if element.parent is not None:
                for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
                    e.update()
            element.parent = self
            # Subelement count increment
            self._cnt_subelements += 1
            # All-ever created subelement count
            self._cnt_subelements_historical += 1
""", """            previous = element.parent
            if previous is not None:
                list(previous.remove_element(uuid=element.uuid))
            bucket = self._index_elements_by_name.get(element.id_name)
            if bucket is None:
                bucket = self._index_elements_by_name[element.id_name] = {}
            bucket[element.uuid] = element
            element.parent = self
            position = self._cnt_subelements_historical
            self._cnt_subelements_historical = position + 1
            element.cid = position
            self._cnt_subelements = self._cnt_subelements + 1
""")]),
 ('cycle check helper', 'same', [], [(CI, """        __ancestor = self
        while __ancestor is not None:
            if element is __ancestor:
                raise ErrorRecursiveHierarchy
            __ancestor = __ancestor.parent
""", """        if self._is_ancestor(element):
            raise ErrorRecursiveHierarchy
"""), (CI, """    def __update_element(self, element):""", """    def _is_ancestor(self, element):
        current = self
        while current is not None:
            if current is element:
                return True
            current = current.parent
        return False

    def __update_element(self, element):""")]),
 ('update worklist deque', 'same', [], [(CI, """        import queue
        __fringe = queue.Queue()
        __fringe.put(element)
        while not __fringe.empty():
            __next: HierarchicalElement = __fringe.get()
            __next._depth = 0 if __next.parent is None else __next.parent.depth + 1
            __next.update()
            for e in __next.get_subelements(lambda x: True):
                __fringe.put(e)
""", """        pending = [element]
        while pending:
            current = pending.pop()
            parent = current.parent
            current._depth = parent.depth + 1 if parent is not None else 0
            current.update()
            pending.extend(current._sub_elements.values())
""")]),
 ('update worklist index loop', 'same', [], [(CI, """        import queue
        __fringe = queue.Queue()
        __fringe.put(element)
        while not __fringe.empty():
            __next: HierarchicalElement = __fringe.get()
            __next._depth = 0 if __next.parent is None else __next.parent.depth + 1
            __next.update()
            for e in __next.get_subelements(lambda x: True):
                __fringe.put(e)
""", """        from collections import deque
        pending = deque([element])
        while len(pending) > 0:
            current = pending.popleft()
            if current.parent is None:
                current._depth = 0
            else:
                current._depth = current.parent.depth + 1
            current.update()
            for child in current._sub_elements.values():
                pending.append(child)
""")]),
 ('update worklist recursive', 'same', [], [(CI, """        import queue
        __fringe = queue.Queue()
        __fringe.put(element)
        while not __fringe.empty():
            __next: HierarchicalElement = __fringe.get()
            __next._depth = 0 if __next.parent is None else __next.parent.depth + 1
            __next.update()
            for e in __next.get_subelements(lambda x: True):
                __fringe.put(e)
""", """        from collections import deque
        pending = deque()
        pending.append(element)
        while pending:
            current = pending.popleft()
            current._depth = 0 if current.parent is None else current.parent.depth + 1
            current.update()
            pending.extend(current.get_subelements(lambda x: True))
""")]),
 ('qualified name helper', 'same', [], [(CI, """    def update(self):
        self._update_timestamp()
        self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])""", """    def update(self):
        self._update_timestamp()
        super().update()""")]),
 ('qualified name reversed', 'same', [], [(CI, """    def update(self):
        self._update_timestamp()
        self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])""", """    def update(self):
        self._update_timestamp()
        names = list(self.update_qualified_name())
        names.reverse()
        self._qualified_name = '/'.join(names)""")]),
 ('qualified name by while', 'same', [], [(CI, """    def update_qualified_name(self):
        yield self._id_name
        if self._parent is not None:
            yield from self._parent.update_qualified_name()
""", """    def update_qualified_name(self):
        current = self
        while current is not None:
            yield current.id_name
            current = current.parent
""")]),
 ('lookup restructured', 'same', [], [(CI, """        tokens = id_name.split('/')
        if len(tokens) == 0:
            raise InvalidQueryName
        elif len(tokens) == 1:
            if tokens[0] in self._index_elements_by_name:
                yield from list(self._index_elements_by_name[tokens[0]].values())
            else:
                yield from []
        else:
            # Iterate all possible named elements
            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
""", """        head, *rest = id_name.split('/')
        matches = list(self._index_elements_by_name.get(head, {}).values())
        if not rest:
            yield from matches
            return
        remainder = '/'.join(rest)
        for match in matches:
            yield from match.get_element_by_id_name(remainder)
""")]),
 ('lookup partition', 'same', [], [(CI, """        tokens = id_name.split('/')
        if len(tokens) == 0:
            raise InvalidQueryName
        elif len(tokens) == 1:
            if tokens[0] in self._index_elements_by_name:
                yield from list(self._index_elements_by_name[tokens[0]].values())
            else:
                yield from []
        else:
            # Iterate all possible named elements
            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
""", """        head, sep, tail = id_name.partition('/')
        for v in list(self._index_elements_by_name.get(head, {}).values()):
            if sep:
                yield from v.get_element_by_id_name(tail)
            else:
                yield v
""")]),
 ('bulk comprehension to loop', 'same', [], [(CI, """        return [el for e in elements for el in self.remove_element(e[0], e[1])]
""", """        removed = []
        for id_name, uuid in elements:
            for el in self.remove_element(id_name, uuid):
                removed.append(el)
        return removed
""")]),
 ('get_subelements loop', 'same', [], [(CI, """        yield from filter(filterfunc, self._sub_elements.values())
""", """        for element in self._sub_elements.values():
            if filterfunc(element):
                yield element
""")]),
 # ---------------------------------------------------------------- bugs
 ('index not popped by name+uuid', 'bug', ['P01'], [(CI, """                self._index_elements_by_name[id_name].pop(uuid)
                el = self._sub_elements.pop(uuid)
""", """                el = self._sub_elements.pop(uuid)
""")]),
 ('count not decremented by name', 'bug', ['P01'], [(CI, """                    # Decrement by each element
                    self._cnt_subelements -= 1
""", "")]),
 ('count decremented after yield', 'bug', ['P01'], [(CI, """                    self._cnt_subelements -= 1
                    # Yield element
                    yield el
""", """                    # Yield element
                    yield el
                    self._cnt_subelements -= 1
""")]),
 ('old parent removal not consumed', 'bug', ['P01'], [(CI, """                for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
                    e.update()
""", """                element.parent.remove_element(uuid=element.uuid)
""")]),
 ('old parent removal by name', 'bug', ['P01'], [(CI, "element.parent.remove_element(uuid=element.uuid)", "element.parent.remove_element(element.id_name)")]),
 ('parent set before removal', 'bug', ['P01'], [(CI, """            if element.parent is not None:
                for e in element.parent.remove""", """            if element.parent is None:
                element.parent = self
            else:
                for e in element.parent.remove""" ), (CI, """                    e.update()
            element.parent = self
""", """                    e.update()
""")]),
 ('count dec once for name', 'bug', ['P01'], [(CI, """                    # Decrement by each element
                    self._cnt_subelements -= 1
                    # Yield element
                    yield el
""", """                    # Yield element
                    yield el
                self._cnt_subelements -= 1
""")]),
 ('mismatch name pop default', 'bug', ['P02'], [(CI, """                self._index_elements_by_name[id_name].pop(uuid)
                el = self._sub_elements.pop(uuid)
""", """                self._index_elements_by_name[id_name].pop(uuid, None)
                el = self._sub_elements.pop(uuid)
""")]),
 ('uuid absent silently', 'bug', ['P03'], [(CI, """            if uuid is not None:
                el = self._sub_elements.pop(uuid)
                self._index_elements_by_name[el.id_name]""", """            if uuid is not None:
                if uuid not in self._sub_elements:
                    return
                el = self._sub_elements.pop(uuid)
                self._index_elements_by_name[el.id_name]""")]),
 ('remove yields None parent kept', 'bug', ['P01', 'P02'], [(CI, """                # Invalidate element parent
                el.parent = None
""", "")]),
 ('no query silently', 'bug', ['P02'], [(CI, "                raise ErrorInvalidQuery\n", "                return\n")]),
 ('dup check after index', 'bug', ['P03'], [(CI, """        if element.uuid not in self._sub_elements:
            self._sub_elements[element.uuid] = element
        else:
            raise ErrorDuplicateElement
        # Set the parent of the element
""", """        self._cnt_subelements_historical += 0
        element.cid = self._cnt_subelements_historical
        if element.uuid not in self._sub_elements:
            self._sub_elements[element.uuid] = element
        else:
            raise ErrorDuplicateElement
        # Set the parent of the element
""")]),
 ('cycle check one level', 'bug', ['P03'], [(CI, """        while __ancestor is not None:
            if element is __ancestor:
                raise ErrorRecursiveHierarchy
            __ancestor = __ancestor.parent
""", """        if element is __ancestor or element is __ancestor.parent:
            raise ErrorRecursiveHierarchy
""")]),
 ('cycle check starts at parent', 'bug', ['P03'], [(CI, "        __ancestor = self\n", "        __ancestor = self.parent\n")]),
 ('remove by uuid pops before name', 'bug', ['P03'], [(CI, """                self._index_elements_by_name[id_name].pop(uuid)
                el = self._sub_elements.pop(uuid)
""", """                el = self._sub_elements.pop(uuid)
                self._index_elements_by_name[id_name].pop(uuid)
""")]),
 ('wrong error', 'bug', ['P03'], [(CI, "raise ErrorDuplicateElement", "raise ErrorRecursiveHierarchy")]),
 ('subtree depth only direct', 'bug', ['P04'], [(CI, """            for e in __next.get_subelements(lambda x: True):
                __fringe.put(e)
""", """            for e in __next.get_subelements(lambda x: True):
                e.update()
""")]),
 ('subtree only conceptual', 'bug', ['P04'], [(CI, "            for e in __next.get_subelements(lambda x: True):", "            for e in __next.get_subelements(lambda x: x.depth > __next.depth):")]),
 ('depth from self', 'bug', ['P04'], [(CI, "0 if __next.parent is None else __next.parent.depth + 1", "0 if __next.parent is None else self.depth + 1")]),
 ('depth after children', 'bug', ['P04'], [(CI, """            __next.update()
            for e in __next""", """            for e in __next""")]),
 ('update before parent reset', 'bug', ['P04'], [(CI, """                el.parent = None
                self.__update_element(el)
""", """                self.__update_element(el)
                el.parent = None
""")]),
 ('update dropped on remove by name', 'bug', ['P04', 'P06'], [(CI, """                    # Update timestamp etc.
                    self.__update_element(el)
""", "")]),
 ('qualified name not reversed', 'bug', ['P04'], [(CI, """        self._update_timestamp()
        self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])""", """        self._update_timestamp()
        self._qualified_name = '/'.join(list(self.update_qualified_name()))""")]),
 ('qualified name progenitor', 'bug', ['P04'], [(CI, """        yield self._id_name
        if self._parent is not None:""", """        yield self._id_name
        if self._parent is not None and self._depth > 0:""")]),
 ('cid from count', 'bug', ['P05'], [(CI, "element.cid = self._cnt_subelements_historical", "element.cid = self._cnt_subelements")]),
 ('hist reset on empty', 'bug', ['P05'], [(CI, """                    # Decrement by each element
                    self._cnt_subelements -= 1
""", """                    # Decrement by each element
                    self._cnt_subelements -= 1
                    if self._cnt_subelements == 0:
                        self._cnt_subelements_historical = 0
""")]),
 ('hist by len', 'bug', ['P05'], [(CI, "self._cnt_subelements_historical += 1", "self._cnt_subelements_historical = len(self._sub_elements)")]),
 ('cid after increment', 'bug', ['P05'], [(CI, """            element.cid = self._cnt_subelements_historical
""", ""), (CI, """            self._cnt_subelements_historical += 1
""", """            self._cnt_subelements_historical += 1
            element.cid = self._cnt_subelements_historical
""")]),
 ('clock secs', 'bug', ['P06'], [('foundations/clock.py', "time.time_ns()", "time.monotonic_ns()")]),
 ('timestamp once', 'bug', ['P06'], [(CI, """    def update(self):
        self._update_timestamp()
        self""", """    def update(self):
        if self._parent is not None:
            self._update_timestamp()
        self""")]),
 ('timestamp from parent clock', 'bug', ['P06'], [(CI, "            self._timestamp = self._clock.get_time_ns()", "            self._timestamp = (self._parent._clock if self._parent is not None else self._clock).get_time_ns()")]),
 ('lookup first only', 'bug', ['P07'], [(CI, """            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
                yield from v.get""", """            for v in list(self._index_elements_by_name.get(tokens[0], {}).values())[:1]:
                yield from v.get""")]),
 ('lookup tokens off', 'bug', ['P07'], [(CI, "'/'.join(tokens[1:])", "'/'.join(tokens[-1:])")]),
 ('lookup raises', 'bug', ['P07'], [(CI, "self._index_elements_by_name.get(tokens[0], {}).values()", "self._index_elements_by_name[tokens[0]].values()")]),
 ('lookup stops', 'bug', ['P07'], [(CI, """                yield from v.get_element_by_id_name('/'.join(tokens[1:]))""", """                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
                break""")]),
 ('bulk add skip', 'bug', ['P08'], [(CI, """        for x in elements:
            self.add_element(x)""", """        for x in elements:
            if x.parent is not self:
                self.add_element(x)""")]),
 ('bulk remove lazily', 'bug', ['P08'], [(CI, "return [el for e in elements for el in self.remove_element(e[0], e[1])]", "return (el for e in elements for el in self.remove_element(e[0], e[1]))")]),
 ('bulk remove keyed', 'bug', ['P08'], [(CI, "        return [el for e in elements for el in self.remove_element(e[0], e[1])]\n", "        elements = {e[1]: e for e in elements}.values()\n        return [el for e in elements for el in self.remove_element(e[0], e[1])]\n")]),
 ('bulk remove fromkeys', 'bug', ['P08'], [(CI, "        return [el for e in elements for el in self.remove_element(e[0], e[1])]\n", "        elements = list(dict.fromkeys(elements))\n        return [el for e in elements for el in self.remove_element(e[0], e[1])]\n")]),
 ('bulk add seen names', 'bug', ['P08'], [(CI, "        for x in elements:\n            self.add_element(x)\n", "        seen, todo = set(), []\n        for x in elements:\n            if x.id_name in seen:\n                continue\n            seen.add(x.id_name)\n            todo.append(x)\n        for x in todo:\n            self.add_element(x)\n")]),
 ('bulk add without held', 'bug', ['P08'], [(CI, "        for x in elements:\n            self.add_element(x)\n", "        for x in [y for y in elements if y.parent is None]:\n            self.add_element(x)\n")]),
 ('bulk add copy', 'same', [], [(CI, "        for x in elements:\n            self.add_element(x)\n", "        todo = []\n        for x in elements:\n            todo.append(x)\n        for x in todo:\n            self.add_element(x)\n")]),
 ('bulk add list', 'same', [], [(CI, "        for x in elements:\n            self.add_element(x)\n", "        todo = list(elements)\n        for x in todo:\n            self.add_element(x)\n")]),
 ('bulk add comp', 'same', [], [(CI, "        for x in elements:\n            self.add_element(x)\n", "        for x in [y for y in elements]:\n            self.add_element(x)\n")]),
 ('bulk remove pairs', 'same', [], [(CI, "        return [el for e in elements for el in self.remove_element(e[0], e[1])]\n", "        pairs = [(n, u) for n, u in elements]\n        res = []\n        for n, u in pairs:\n            res.extend(self.remove_element(n, u))\n        return res\n")]),
 ('bulk add set', 'bug', ['P08'], [(CI, "        for x in elements:\n            self.add", "        for x in set(elements):\n            self.add")]),
 ('bulk add gather', 'bug', ['P08'], [(CI, """        for x in elements:
            self.add_element(x)""", """        loop = asyncio.get_running_loop()
        for x in elements:
            loop.call_soon(self.add_element, x)""")]),
 ('bulk remove one', 'bug', ['P08'], [(CI, "return [el for e in elements for el in self.remove_element(e[0], e[1])]", "return [next(self.remove_element(e[0], e[1])) for e in elements]")]),
]
