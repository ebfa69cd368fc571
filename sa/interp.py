"""Trace-partitioned abstract interpreter over a value-numbering domain.

Every expression gets a structural description (value number) in terms of the entry state: parameters, entry
contents of fields and containers, generic elements of iterated collections, calls that are not looked into.  Paths
are kept apart by the guards they pass (guards are normalised atoms, decided only by constants, class lattice and
guards already passed -- there is no solver).  A loop is summarised by ONE generic iteration from a widened loop head.
Container contents are kept as operation histories, so rules can ask for membership, order and effect.
Lazy iterables (generators, filter, map, zip, generator expressions) and coroutines have their effects when and only
when they are consumed or awaited.  Nothing of the repository is executed.
"""
import ast
import re
import time
import builtins
from .loader import ClassInfo, FuncInfo, AnalysisError

DEADLINE = time.time() + 600          # of the whole check: what is left then is undecided
MEMORY = 8 << 30


def resident():
    """memory in use, in bytes"""
    try:
        with open('/proc/self/statm') as f:
            return int(f.read().split()[1]) * 4096
    except OSError:
        return 0


NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def C(v):
    return ('c', type(v).__name__, v)


def is_c(v, val=Ellipsis):
    return v[0] == 'c' and (val is Ellipsis or (v[2] == val and type(v[2]) is type(val)))


class HObj:
    __slots__ = ('kind', 'cls', 'fields', 'data', 'node', 'owner')

    def __init__(self, kind, cls=None, fields=None, data=None, node=None):
        self.kind, self.cls, self.fields, self.data, self.node = kind, cls, fields or {}, data, node
        self.owner = None

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.fields), self.data, self.node)


class State:
    __slots__ = ('frames', 'heap', 'fields', 'ops', 'facts', 'events', 'types', 'consumed', 'vers', 'trail', 'token')

    def __init__(self):
        self.frames, self.heap, self.fields, self.ops = {}, {}, {}, {}
        self.facts, self.events, self.types, self.consumed, self.vers = [], [], {}, {}, {}
        self.trail = []
        self.token = object()

    def own(self, oid):
        """the object, writable in this state only"""
        o = self.heap[oid]
        if o.owner is not self.token:
            o = o.copy()
            o.owner = self.token
            self.heap[oid] = o
        return o

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        self.token = object()
        s.fields = dict(self.fields)
        s.ops = dict(self.ops)
        s.facts = list(self.facts)
        s.events = list(self.events)
        s.types = dict(self.types)
        s.consumed = dict(self.consumed)
        s.vers = dict(self.vers)
        s.trail = list(self.trail)
        return s


class Loop:
    def __init__(self, lid, kind, coll, elem, node, loc):
        self.lid, self.kind, self.coll, self.elem, self.node, self.loc = lid, kind, coll, elem, node, loc
        self.pre = self.head = None
        self.done = False
        self.paths = []
        self.init = {}     # havoc key -> value before the loop
        self.next = []     # per continuing path: havoc key -> value at the end of the iteration

    def __repr__(self):
        return f"<Loop {self.lid} {self.kind} {self.loc}>"


class Path:
    def __init__(self, st, sig, head):
        self.st, self.sig = st, sig
        self.facts = st.facts[len(head.facts):]
        self.events = st.events[len(head.events):]
        self.trail = st.trail[len(head.trail):]

    def ops(self, cont, head):
        a, b = head.ops.get(cont, ()), self.st.ops.get(cont, ())
        return b[len(a):]


BUILTIN_METHODS = {n for t in (str, bytes, list, dict, set, int, float) for n in dir(t) if not n.startswith('__')}


class CodeAnns:
    def __init__(self, c, f, depth):
        self.of = Interp.param_anns(c, f, depth + 1)


class Frame:
    __slots__ = ('fid', 'mod', 'cls', 'fi', 'recv', 'on_yield', 'chain')

    def __init__(self, fid, mod, cls, fi, recv=None, on_yield=None):
        self.fid, self.mod, self.cls, self.fi, self.recv, self.on_yield = fid, mod, cls, fi, recv, on_yield
        self.chain = None


class Limit(Exception):
    pass


QUEUE_CTORS = {'asyncio.Queue': 'fifo', 'queue.Queue': 'fifo', 'queue.SimpleQueue': 'fifo',
               'asyncio.queues.Queue': 'fifo', 'multiprocessing.Queue': 'fifo',
               'asyncio.LifoQueue': 'lifo', 'queue.LifoQueue': 'lifo',
               'asyncio.PriorityQueue': 'prio', 'queue.PriorityQueue': 'prio',
               'collections.deque': 'deque'}
BUILTIN_TYPES = {'str', 'int', 'float', 'bytes', 'bool', 'list', 'dict', 'set', 'tuple'}
EXC_PARENTS = {'KeyError': ('LookupError', 'Exception', 'BaseException'),
               'IndexError': ('LookupError', 'Exception', 'BaseException'),
               'StopIteration': ('Exception', 'BaseException')}


def subst(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


def contains(v, pred):
    if not isinstance(v, tuple):
        return False
    if v and isinstance(v[0], str) and pred(v):
        return True
    return any(contains(x, pred) for x in v if isinstance(x, tuple))


class Interp:
    MAX_STATES = 4000

    def __init__(self, prog, dispatch=None, contracts=None, implicit=False, invariants=None, max_depth=40):
        self.p = prog
        self.dispatch = dispatch
        self.async_queues = set()
        self.contracts = contracts or {}
        self.implicit = implicit      # model KeyError of absent keys as forks
        self.invariants = invariants or []
        self.n = 0
        self.stack = []               # FuncInfos being inlined
        self.raised = []
        self.closures = {}
        self.loops = {}
        self.origin = {}         # copying loop -> the loop whose results it goes through
        self.copied = set()       # loops over a list built earlier, not over the live container
        self.analysed = set()         # functions whose body was interpreted
        self.unknown = []             # constructs not understood
        self.max_depth = max_depth
        self.handlers = []            # exception names handled around the current point
        self.steps = 0
        self.deadline = DEADLINE
        self._props = None
        self.unroll = False           # follow loops whose condition is decided turn by turn

    # ------------------------------------------------------------------ utilities
    def new(self):
        self.n += 1
        return self.n

    def loc(self, fr, node):
        return (fr.mod.relpath, getattr(node, 'lineno', 0), fr.fi.qual if fr.fi else '<module>')

    def unk(self, why, fr, node):
        u = ('unk', why, self.new())
        self.unknown.append((why, self.loc(fr, node)))
        return u

    def alloc(self, st, kind, cls=None, data=None, node=None, **fields):
        oid = self.new()
        o = st.heap[oid] = HObj(kind, cls, fields, data, node)
        o.owner = st.token
        return ('o', oid)

    def hobj(self, st, v):
        return st.heap.get(v[1]) if v[0] == 'o' else None

    def kind(self, st, v):
        o = self.hobj(st, v)
        return o.kind if o else None

    # ------------------------------------------------------------------ types
    def ann_type(self, mod, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Constant) and ann.value is None:
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            parts = []

            def flat(a):
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
                    flat(a.left); flat(a.right)
                else:
                    parts.append(a)
            flat(ann)
            ts = [self.ann_type(mod, a) for a in parts
                  if not (isinstance(a, ast.Constant) and a.value is None)]
            return ts[0] if len(ts) == 1 else None
        if isinstance(ann, ast.Subscript):
            r = ast.unparse(ann.value)
            if r.endswith('Optional'):
                return self.ann_type(mod, ann.slice)
            return self.ann_type(mod, ann.value)
        if isinstance(ann, ast.Name) and ann.id in BUILTIN_TYPES:
            return ann.id
        r = self.p.resolve_expr(mod, ann)
        if r and r[0] == 'cls':
            return r[1]
        return None

    def type_of(self, st, v):
        t = st.types.get(v)
        o = self.hobj(st, v)
        if o is not None:
            if o.kind == 'inst':
                return o.cls
            return {'list': 'list', 'dict': 'dict', 'set': 'set'}.get(o.kind, t)
        if v[0] == 'c':
            return v[1]
        if v[0] in ('cat', 'join', 'str'):
            return 'str'
        if v[0] == 'sliceof':
            k = self.type_of(st, v[1])
            return k if k in ('str', 'bytes') else t
        if v[0] == 'call' and v[1] in ('bytes', 'str'):
            return v[1]
        if v[0] == 'mcall' and t is None:
            if v[2] in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'capitalize', 'title', 'replace', 'removeprefix', 'removesuffix') and self.type_of(st, v[1]) == 'str':
                return 'str'
            if v[2] == 'encode' and self.type_of(st, v[1]) == 'str':
                return 'bytes'
        best = t
        for atom, pol in st.facts:
            if pol and atom[0] == 'isinst' and atom[1] == v and isinstance(atom[2], ClassInfo):
                if best is None or not isinstance(best, ClassInfo) or self.p.issub(atom[2], best):
                    best = atom[2]
        if best is None:
            if v[0] == 'f':
                best = self.field_type(st, v)
            elif v[0] == 'item':
                best = self.value_type(st, v[1])
            elif v[0] == 'elem' and v[2] == 0:
                lp = self.loops.get(v[1])
                if lp is not None and lp.coll is not None:
                    best = self.value_type(st, lp.coll)
            elif v[0] == 'take':
                best = self.take_type(st, v)
        return best

    def take_type(self, st, v, depth=0):
        ts = set()

        def ops_of(ops):
            for op in ops:
                if op[0] == 'add':
                    if op[1] != v:
                        t = self.type_of(st, op[1]) if op[1][0] != 'take' else None
                        ts.add(t)
                elif op[0] in ('splice', 'update'):
                    ts.add(self.value_type(st, op[1]))
        ops_of(st.ops.get(v[1], ()))
        ts.discard(None)
        if not ts:
            return None
        ts = list(ts)
        best = ts[0]
        for t in ts[1:]:
            if isinstance(t, ClassInfo) and isinstance(best, ClassInfo):
                if self.p.issub(best, t):
                    best = t
                elif not self.p.issub(t, best):
                    common = [k for k in self.p.mro(best) if isinstance(k, ClassInfo) and self.p.issub(t, k)]
                    best = common[0] if common else None
            elif t != best:
                return None
            if best is None:
                return None
        return best

    def value_type(self, st, cont, depth=0):
        """type of the values of a container, from the rule's table of container fields"""
        if self.value_types and depth < 6:
            k = cont[0]
            if k == 'view' and cont[1] == 'values':
                return self.value_type(st, cont[2], depth + 1)
            if k in ('coll', 'rev', 'splice', 'iter'):
                return self.value_type(st, cont[1], depth + 1)
            if k in ('list', 'tup'):
                ts = {self.type_of(st, x) if x[0] not in ('each', 'splice', 'rev') else None for x in cont[1]}
                return ts.pop() if len(ts) == 1 else None
            return self.value_types(self, st, cont)
        return None

    value_types = None

    def field_table(self):
        """attribute name -> {class: type} from the assignments `self.attr = ...` of the program's methods"""
        tab = getattr(self.p, '_field_table', None)
        if tab is not None:
            return tab
        tab = {}
        for c in self.p.all_classes():
            for f in list(c.methods.values()) + list(c.setters.values()):
                if not f.node.args.args or f.is_static:
                    continue
                me = f.node.args.args[0].arg
                anns = self.param_anns(c, f)
                for nd in ast.walk(f.node):
                    ann = None
                    if isinstance(nd, ast.Assign):
                        tgs, val = nd.targets, nd.value
                    elif isinstance(nd, ast.AnnAssign):
                        tgs, val, ann = [nd.target], nd.value, nd.annotation
                    else:
                        continue
                    for t in tgs:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            ty = self.ann_type(f.mod, ann) if ann is not None else None
                            if ty is None and val is not None:
                                ty = self.expr_type(f, val, anns)
                            if ty is not None or not (isinstance(val, ast.Constant) and val.value is None):
                                tab.setdefault(c._mangle(t.attr), {}).setdefault(c, set()).add(ty)
        self.p._field_table = tab
        return tab

    @staticmethod
    def param_anns(c, f, depth=0):
        """annotations of the parameters; a helper that states none has those of the arguments its class calls it with"""
        anns = {a.arg: a.annotation for a in f.node.args.args}
        free = [a.arg for a in f.node.args.args[1:] if a.annotation is None]
        if not free or not f.name.startswith('_') or f.name.endswith('__') or depth > 3:
            return anns
        found = {n: [] for n in free}
        names = [a.arg for a in f.node.args.args[1:]]
        for g in c.methods.values():
            if g is f:
                continue
            got = None
            for nd in ast.walk(g.node):
                if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and c._mangle(nd.func.attr) == c._mangle(f.name):
                    got = got or CodeAnns(c, g, depth)
                    given = dict(zip(names, nd.args))
                    given.update({k.arg: k.value for k in nd.keywords})
                    for n in free:
                        e = given.get(n)
                        found[n].append(got.of.get(e.id) if isinstance(e, ast.Name) else None)
        for n, l in found.items():
            if l and all(x is not None for x in l) and len({ast.dump(x) for x in l}) == 1:
                anns[n] = l[0]
        return anns

    def expr_type(self, f, e, anns):
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('dict', 'list', 'set', 'str'):
                return e.func.id
            r = self.p.resolve_expr(f.mod, e.func)
            if r and r[0] == 'cls':
                return r[1]
            if r and r[0] == 'ext' and r[1].split('.')[-1] in ('defaultdict', 'OrderedDict'):
                return 'dict'
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
                return 'str'
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, ast.Name) and e.id in anns:
            return self.ann_type(f.mod, anns[e.id])
        return None

    def field_type(self, st, v):
        tab = self.field_table().get(v[2])
        if not tab:
            return None
        bt = self.type_of(st, v[1])
        if isinstance(bt, ClassInfo):
            ts = set()
            for k in [bt] + self.p.subclasses.get(bt, []):
                for m in self.p.mro(k):
                    if isinstance(m, ClassInfo) and m in tab:
                        ts |= tab[m]
        else:
            ts = set().union(*tab.values())
        return next(iter(ts)) if len(ts) == 1 else None

    # ------------------------------------------------------------------ facts
    def norm_atom(self, a):
        if a[0] in ('is', 'eq'):
            x, y = a[1], a[2]
            if repr(y) < repr(x):
                x, y = y, x
            return (a[0], x, y)
        return a

    def eq(self, st, a, b):
        """Are two descriptions the same value? True / False / None."""
        if a == b:
            return True
        if a[0] == 'c' and b[0] == 'c':
            try:
                if a[2] == b[2] and not (isinstance(a[2], float) and a[2] != a[2]):
                    return True
            except Exception:
                pass
            return False
        if a[0] == 'enum' and b[0] == 'enum':
            return a[1] == b[1] and a[2] == b[2]
        if a[0] == 'cls' and b[0] == 'cls':
            return False
        if a[0] == 'tup' and b[0] == 'tup' and not any(x[0] in ('each', 'splice', 'rev') for x in a[1] + b[1]):
            if len(a[1]) != len(b[1]):
                return False
            parts = [self.eq(st, x, y) for x, y in zip(a[1], b[1])]
            return False if False in parts else True if all(parts) else None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'enum' and y[0] == 'c':
                return x[3] == y[2] if isinstance(y[2], int) else False
        fresh_a, fresh_b = a[0] == 'o', b[0] == 'o'
        if fresh_a and fresh_b:
            return False if self.kind(st, a) == 'inst' or self.kind(st, b) == 'inst' else None
        if (fresh_a and b[0] in ('sym', 'f', 'elem', 'item', 'c')) or (fresh_b and a[0] in ('sym', 'f', 'elem', 'item', 'c')):
            o = a if fresh_a else b
            if self.kind(st, o) in ('inst', 'queue', 'xml'):
                return False
            if (b if fresh_a else a)[0] == 'c' and (b if fresh_a else a)[2] is None:
                return False
            return None
        if (a == NONE or b == NONE):
            x = b if a == NONE else a
            if x[0] in ('cat', 'join', 'tup', 'list', 'cls', 'fn', 'lam', 'enum', 'str', 'op'):
                return False
        for atom in (('is', a, b), ('eq', a, b)):
            atom = self.norm_atom(atom)
            for f, pol in st.facts:
                if f == atom:
                    if pol or atom[0] == 'is':
                        return pol if atom[0] == 'eq' or pol else None
                    return False
        return None

    def implied(self, st, atom):
        k = atom[0]
        if k == 'is':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if a == NONE or b == NONE:
                x = b if a == NONE else a
                if x[0] == 'c':
                    return x == NONE
                if x[0] in ('o', 'cat', 'join', 'tup', 'list', 'cls', 'fn', 'lam', 'enum', 'str', 'op', 'iter'):
                    return False
                for f, pol in st.facts:
                    if f[0] == 'isinst' and f[1] == x and pol:
                        return False
                    if pol and f[0] in ('is', 'eq') and x in f[1:]:
                        o = f[2] if f[1] == x else f[1]
                        if o != NONE and o[0] in ('sym', 'o', 'c') and o not in st.vers.get('maybe_none', ()):
                            if o[0] != 'sym' or o in st.vers.get('nonnull', ()):
                                return False
                if x in st.vers.get('nonnull', ()):
                    return False
                if x[0] == 'mcall' and x[2] in ('copy', 'split', 'strip', 'encode', 'decode', 'lower', 'upper', 'items', 'keys', 'values', 'hex', 'tolist'):
                    return False
                if x[0] == 'elem':
                    return False
            else:
                if a[0] == 'c' and b[0] == 'c':
                    return a == b
                if a[0] == 'enum' and b[0] == 'enum':
                    return a[1:3] == b[1:3]
                if a[0] == 'o' or b[0] == 'o':
                    o, x = (a, b) if a[0] == 'o' else (b, a)
                    if x[0] == 'o' or x[0] in ('sym', 'f', 'elem', 'item', 'c'):
                        return False
        elif k == 'eq':
            r = self.eq(st, atom[1], atom[2])
            if r is not None:
                return r
        elif k == 'isinst':
            return self.isinst(st, atom[1], atom[2])
        elif k == 'truthy':
            v = atom[1]
            if v[0] == 'c':
                return bool(v[2])
            if v[0] == 'mcall' and v[2] == 'split' and len(v[3]) >= 1:
                return True
        elif k == 'empty':
            v = atom[1]
            if v[0] == 'mcall' and v[2] == 'split' and len(v[3]) >= 1:
                return False
            if v[0] == 'c':
                try:
                    return len(v[2]) == 0
                except TypeError:
                    return None
        return None

    def decide(self, st, atom):
        atom = self.norm_atom(atom)
        for f, pol in st.facts:
            if f == atom:
                return pol
        r = self.implied(st, atom)
        if r is not None:
            return r
        for inv in self.invariants:
            r = inv(self, st, atom)
            if r is not None:
                return r
        return None

    def decide_raw(self, st, atom):
        return self.decide(st, atom)

    def split(self, st, atom):
        """-> [(state, bool)] for a guard."""
        atom = self.norm_atom(atom)
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d)]
        a, b = st, st.fork()
        a.facts.append((atom, True))
        b.facts.append((atom, False))
        return [(a, True), (b, False)]

    def assume(self, st, atom, pol):
        atom = self.norm_atom(atom)
        d = self.decide(st, atom)
        if d is None:
            st.facts.append((atom, pol))
            return True
        return d == pol

    def isinst(self, st, v, c):
        """True/False/None; c is ClassInfo or ('ext',..)/builtin name."""
        if v == NONE:
            return False
        t = None
        o = self.hobj(st, v)
        exact = False
        if isinstance(c, str) and c in BUILTIN_TYPES:
            if v[0] == 'c' and v[2] is not Ellipsis:
                return isinstance(v[2], getattr(builtins, c))
            k = o.kind if o is not None else 'list' if v[0] == 'list' else 'dict' if v[0] == 'dict' else None
            if k in ('list', 'dict', 'set'):
                return k == c
            if v[0] in ('cat', 'join', 'str', 'fmt') and c != 'str':
                return False
            if self.unroll and v[0] == 'sym' and st.types.get(v) == 'float':
                return c == 'float'
        if o is not None and o.kind == 'inst':
            t, exact = o.cls, True
        else:
            if v in st.vers.get('exact', ()):
                exact = True
            t = st.types.get(v)
            for f, pol in st.facts:
                if f[0] == 'isinst' and f[1] == v and isinstance(f[2], ClassInfo):
                    if pol:
                        if t is None or not isinstance(t, ClassInfo) or self.p.issub(f[2], t):
                            t = f[2]
                    elif isinstance(c, ClassInfo) and self.p.issub(c, f[2]):
                        return False
        if isinstance(t, ClassInfo) and isinstance(c, ClassInfo):
            if self.p.issub(t, c):
                # a declared type may still be None unless known otherwise
                if exact or v in st.vers.get('nonnull', ()) or any(
                        f[0] == 'isinst' and f[1] == v and pol for f, pol in st.facts) or v[0] == 'elem':
                    return True
                return None
            if exact:
                return False
            subs = [t] + self.p.subclasses.get(t, [])
            if not any(self.p.issub(s, c) for s in subs):
                # closed world, including classes inheriting from both
                if not any(self.p.issub(s, t) for s in [c] + self.p.subclasses.get(c, [])):
                    return False
            return None
        if isinstance(t, str) and isinstance(c, ClassInfo):
            return False
        if isinstance(t, ClassInfo) and isinstance(c, str):
            return False
        if isinstance(t, str) and isinstance(c, str):
            return True if t == c else None
        if v[0] == 'enum' and isinstance(c, ClassInfo):
            return v[1] == c.key
        return None

    # ------------------------------------------------------------------ containers
    def op(self, st, cont, *op):
        st.ops[cont] = st.ops.get(cont, ()) + (op,)

    def contents(self, st, cont):
        """Exact element list of a fresh list/deque, with ('each', lid) segments; None if not representable."""
        if cont[0] in ('list', 'tup'):
            return list(cont[1])
        o = self.hobj(st, cont)
        if o is None or o.kind not in ('list', 'queue', 'xml'):
            return None
        out = []
        for op in st.ops.get(cont, ()):
            k = op[0]
            if k == 'add':
                out.append(op[1])
            elif k == 'insert':
                if is_c(op[1], 0):
                    out.insert(0, op[2])
                else:
                    return None
            elif k == 'clear':
                out = []
            elif k == 'reverse':
                out = [('rev', ('list', tuple(out)))] if any(x[0] in ('each', 'splice', 'rev') for x in out) else out[::-1]
            elif k == 'splice':
                out.append(('splice', op[1]))
            elif k == 'iter':
                lp = self.loops[op[1]]
                if not lp.done:
                    return None
                segs = []
                for p in lp.paths:
                    d = self.path_ops(lp, p, cont)
                    for o2 in d:
                        if o2[0] in ('add', 'splice', 'iter'):
                            segs.append('back')
                        elif o2[0] == 'insert' and is_c(o2[1], 0):
                            segs.append('front')
                        else:
                            return None
                if 'front' in segs and 'back' in segs:
                    return None
                if 'front' in segs:
                    out.insert(0, ('rev', ('list', (('each', op[1], cont),))))
                else:
                    out.append(('each', op[1], cont))
            else:
                return None
        return out

    def path_ops(self, lp, path, cont):
        a = lp.head.ops.get(cont, ())
        b = path.st.ops.get(cont, ())
        return b[len(a):]

    def member(self, st, cont, key):
        """-> True/False/None and atom for the undecided case"""
        ops = st.ops.get(cont, ())
        ver = len(ops)
        for i in range(len(ops) - 1, -1, -1):
            op = ops[i]
            k = op[0]
            if k in ('set', 'sadd', 'add'):
                e = self.eq(st, op[1], key)
                if e:
                    return True, None
                if e is None:
                    return None, ('in', key, cont, i + 1)
            elif k == 'del':
                e = self.eq(st, op[1], key)
                if e:
                    return False, None
                if e is None:
                    return None, ('in', key, cont, i + 1)
            elif k == 'clear':
                return False, None
            elif k in ('iter', 'update', 'take', 'splice'):
                return None, ('in', key, cont, i + 1)
        if self.is_fresh(st, cont):
            return False, None
        if cont[0] in ('tup', 'list'):
            return None, ('in', key, cont, 0)
        return None, ('in', key, cont, 0)

    def is_fresh(self, st, cont):
        o = self.hobj(st, cont)
        return o is not None and o.kind in ('list', 'dict', 'set', 'queue') and o.data != 'shared'

    def split_member(self, st, cont, key):
        if cont[0] in ('tup', 'list') and not any(x[0] in ('each', 'splice', 'rev') for x in cont[1]):
            # literal membership: disjunction of equalities
            out, cur = [], [st]
            for x in cont[1]:
                nxt = []
                for s in cur:
                    for s2, b in self.split(s, ('eq', key, x)):
                        (out.append((s2, True)) if b else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        ops = st.ops.get(cont, ())
        if ops and self.is_fresh(st, cont) and all(o[0] in ('sadd', 'add', 'set') and o[1][0] in ('c', 'enum') for o in ops) and \
                not (is_c(key) or key[0] == 'enum'):
            return self.split_member(st, ('tup', tuple(o[1] for o in ops)), key)
        m, atom = self.member(st, cont, key)
        if m is not None:
            return [(st, m)]
        return self.split(st, atom)

    def lookup(self, st, cont, key):
        """value of cont[key] assuming it is present"""
        ops = st.ops.get(cont, ())
        for i in range(len(ops) - 1, -1, -1):
            op = ops[i]
            if op[0] == 'set':
                e = self.eq(st, op[1], key)
                if e:
                    return op[2]
                if e is None and not self.is_fresh(st, cont):
                    pass
                if e is None:
                    return ('item', cont, key, i + 1)
            elif op[0] in ('iter', 'update', 'clear'):
                return ('item', cont, key, i + 1)
        return ('item', cont, key, 0)

    # ------------------------------------------------------------------ freezing (structural copy of fresh containers)
    def freeze(self, st, v, depth=0):
        if not isinstance(v, tuple) or depth > 6:
            return v
        if v[0] == 'o':
            o = st.heap.get(v[1])
            if o is None:
                return v
            if o.kind == 'list':
                c = self.contents(st, v)
                if c is not None:
                    return ('list', tuple(self.freeze(st, x, depth + 1) for x in c))
            if o.kind == 'dict':
                ops = st.ops.get(v, ())
                if all(op[0] == 'set' for op in ops):
                    return ('dict', tuple((self.freeze(st, op[1], depth + 1), self.freeze(st, op[2], depth + 1))
                                          for op in ops))
                known = self.exact_items(st, v)
                if known is not None:
                    return ('dict', tuple((self.freeze(st, k, depth + 1), self.freeze(st, x, depth + 1))
                                          for k, x in known))
            return v
        if v[0] in ('tup', 'list'):
            return (v[0], tuple(self.freeze(st, x, depth + 1) for x in v[1]))
        return v

    # ------------------------------------------------------------------ calling
    def bind(self, fi, args, kwargs, fr, st, node):
        a = fi.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        args = list(args)
        kwargs = dict(kwargs)
        for i, n in enumerate(pos):
            if i < len(args):
                env[n] = args[i]
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = ('tup', tuple(extra))
        elif extra:
            return None
        for n in list(kwargs):
            if n in anns:
                if n in env:
                    return None
                env[n] = kwargs.pop(n)
        if kwargs:
            if a.kwarg:
                d = self.alloc(st, 'dict')
                for k, v in kwargs.items():
                    self.op(st, d, 'set', C(k), v)
                env[a.kwarg.arg] = d
            else:
                return None
        elif a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, 'dict')
        defs = a.defaults
        for n, d in zip(pos[len(pos) - len(defs):], defs):
            if n not in env:
                env[n] = self.default_value(fi, n, d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_value(fi, x.arg, d, st)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                return None
        return env, anns

    def default_value(self, fi, name, d, st):
        """Defaults are evaluated once, at definition: a mutable default is one shared object."""
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            try:
                return C(ast.literal_eval(d))
            except Exception:
                pass
        if isinstance(d, ast.Tuple) and not d.elts:
            return ('tup', ())
        r = self.p.resolve_expr(fi.mod, d)
        if r and r[0] == 'cls':
            return ('cls', r[1])
        if isinstance(d, ast.Attribute):
            fr = Frame(0, fi.mod, fi.cls, fi)
            v = self.static_attr(fr, d)
            if v is not None:
                return v
        if isinstance(d, ast.Lambda):
            cid = self.new()
            self.closures[cid] = (d, None, fi.mod, fi.cls, fi)
            return ('lam', cid)
        v = self.shared_fresh(st, (f"{fi.mod.name}.{fi.qual}", name), d, fi.mod, None)
        return v if v is not None else ('shared', f"{fi.mod.name}.{fi.qual}", name)

    def static_attr(self, fr, d):
        r = self.p.resolve_expr(fr.mod, d.value)
        if r and r[0] == 'cls':
            return self.class_attr(r[1], d.attr)
        r = self.p.resolve_expr(fr.mod, d)
        if r and r[0] == 'ext':
            return self.ext_const(r[1])
        return None

    def ext_const(self, dotted):
        import math
        if dotted in ('math.inf', 'numpy.inf'):
            return C(float('inf'))
        if dotted in ('math.pi', 'numpy.pi'):
            return ('pi',)
        return ('ext', dotted)

    def class_attr(self, c, attr, st=None):
        for k in self.p.mro(c):
            if isinstance(k, ClassInfo):
                if attr in k.methods:
                    return ('fn', k.methods[attr], None)
                if attr in k.class_attrs:
                    node = k.class_attrs[attr]
                    if self.p.is_enum(k):
                        try:
                            val = ast.literal_eval(node)
                            if isinstance(val, tuple) and len(val) == 1:
                                val = val[0]
                        except Exception:
                            val = ('auto', sorted(k.class_attrs).index(attr))
                        return ('enum', k.key, attr, val)
                    if st is not None:
                        v = self.shared_fresh(st, (k.key, attr), node, k.mod, k.node.body)
                        if v is not None:
                            return v
                    try:
                        return C(ast.literal_eval(node)) if isinstance(node, ast.Constant) else ('shared', k.key, attr)
                    except Exception:
                        return ('shared', k.key, attr)
        return None

    def call_fi(self, fi, recv, args, kwargs, st, node, fr, cls=None):
        """Call a program function (inline)."""
        full = ([recv] if recv is not None and not fi.is_static else []) + list(args)
        b = self.bind(fi, full, kwargs, fr, st, node)
        if b is None:
            self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'bad arguments'), self.loc(fr, node))))
            return []
        env, anns = b
        for n, v in env.items():
            t = self.ann_type(fi.mod, anns.get(n))
            if t is not None and v not in st.types and v[0] not in ('o', 'c'):
                st.types[v] = t
        if fi.is_gen:
            g = self.alloc(st, 'gen', data=(fi, env, recv, cls), node=node)
            return [(st, g)]
        if fi.is_async:
            return [(st, self.alloc(st, 'coro', data=(fi, env, recv, cls), node=node))]
        return self.run_body(fi, env, recv, st, node, fr, cls)

    def run_body(self, fi, env, recv, st, node, fr, cls=None, on_yield=None):
        """-> [(st, value)]; raises into self.raised"""
        depth = self.stack.count(fi)
        if depth >= 6 and self.unroll and depth < 40 and all(v[0] in ('c', 'cls', 'enum') or self.hobj(st, v) is not None for v in env.values()):
            depth = 0
        if depth >= (6 if self.unroll else 1) and on_yield is None:
            args = tuple(self.freeze(st, v) for v in env.values())
            v = ('call', 'rec:' + fi.qual, args, (), 0)
            st.events.append(('rec', fi, env, self.loc(fr, node)))
            return [(st, v)]
        if len(self.stack) > (self.max_depth if not self.unroll else 300):
            return [(st, self.unk('depth', fr, node))]
        out = []
        for s, sig in self.run_frame(fi, env, recv, st, on_yield):
            if sig is None:
                out.append((s, NONE))
            elif sig[0] == 'return':
                out.append((s, sig[1]))
            else:
                self.raised[-1].append((s, sig))
        return out

    def run_frame(self, fi, env, recv, st, on_yield=None):
        """-> [(st, sig)]"""
        fid = self.new()
        st.frames[fid] = dict(env)
        f2 = Frame(fid, fi.mod, fi.cls or fi.lex, fi, recv, on_yield)
        self.stack.append(fi)
        self.analysed.add(fi)
        self.raised.append([])
        h = self.handlers
        try:
            body = fi.node.body
            if isinstance(body, list):
                res = self.block(body, st, f2)
            else:
                res = [(s, ('return', v)) for s, v in self.ev(body, st, f2)]
            res += self.raised[-1]
        finally:
            self.raised.pop()
            self.stack.pop()
            self.handlers = h
        out = []
        for s, sig in res:
            if sig is not None and sig[0] == 'gexit' and sig[1] == fid:
                sig = sig[2]
                out.append((s, ('out', sig)))
            else:
                out.append((s, sig))
        return out

    def entry(self, fi, args, st, recv=None, on_yield=None, kwargs=None):
        """Analyse a public operation. Generators and coroutines are driven to the end.
        -> [(st, sig)] with sig ('return',v) / ('raise',..)"""
        fr = Frame(0, fi.mod, fi.cls, fi)
        self.raised.append([])
        full = ([recv] if recv is not None and not fi.is_static else []) + list(args)
        b = self.bind(fi, full, kwargs or {}, fr, st, fi.node)
        self.raised.pop()
        if b is None:
            raise AnalysisError(f"{fi.where}: cannot be called with the arguments its interface allows")
        env, anns = b
        for n, v in env.items():
            t = self.ann_type(fi.mod, anns.get(n))
            if t is not None and v not in st.types and v[0] not in ('o', 'c'):
                st.types[v] = t

        def oy(s, v):
            s.events.append(('yield', v, (fi.mod.relpath, fi.node.lineno, fi.qual)))
            if on_yield:
                return on_yield(s, v)
            return [(s, None)]
        res = self.run_frame(fi, env, recv, st, oy if fi.is_gen else None)
        out = []
        for s, sig in res:
            if sig is None:
                sig = ('return', NONE)
            elif sig[0] == 'out':
                sig = ('return', NONE)
            out.append((s, sig))
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur = [(st, None)]
        for stmt in stmts:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                else:
                    nxt.extend(self.stmt(stmt, s, fr))
            cur = nxt
            if len(cur) > self.MAX_STATES:
                raise Limit(f"too many paths in {fr.fi}")
            if all(sig is not None for _, sig in cur):
                break
        return cur

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > 2000000:
            raise Limit("step limit")
        if not self.steps & 63 and time.time() > self.deadline:
            raise Limit("time limit")
        if not self.steps & 1023 and resident() > MEMORY:
            raise Limit("memory limit")
        self.raised.append([])
        try:
            res = self.stmt_(n, st, fr)
            return res + self.raised[-1]
        finally:
            self.raised.pop()

    def stmt_(self, n, st, fr):
        t = type(n)
        if t is ast.Expr:
            return [(s, None) for s, _ in self.ev(n.value, st, fr)]
        if t is ast.Assign:
            out = []
            for s, v in self.ev(n.value, st, fr):
                ss = [s]
                for tg in n.targets:
                    ss = [x for s1 in ss for x in self.assign(tg, v, s1, fr)]
                out += [(x, None) for x in ss]
            return out
        if t is ast.AnnAssign:
            ty = self.ann_type(fr.mod, n.annotation)
            if n.value is None:
                if isinstance(n.target, ast.Name) and ty is not None:
                    v = st.frames[fr.fid].get(self.mangle(n.target.id, fr))
                    if v is not None and v[0] not in ('o', 'c') and v not in st.types:
                        st.types[v] = ty
                return [(st, None)]
            out = []
            for s, v in self.ev(n.value, st, fr):
                if ty is not None and v[0] not in ('o', 'c') and v not in s.types:
                    s.types[v] = ty
                out += [(x, None) for x in self.assign(n.target, v, s, fr)]
            return out
        if t is ast.AugAssign:
            out = []
            load = self.as_load(n.target)
            for s, a in self.ev(load, st, fr):
                for s2, b in self.ev(n.value, s, fr):
                    if isinstance(n.op, ast.Add) and self.kind(s2, a) == 'list':
                        for s3 in self.extend(s2, a, b, fr, n):
                            out.append((s3, None))
                        continue
                    if isinstance(n.op, ast.BitOr) and self.kind(s2, a) in ('set', 'dict'):
                        self.op(s2, a, 'update', self.freeze(s2, b))
                        out.append((s2, None))
                        continue
                    for s3, v in self.binop(n.op, a, b, s2, fr, n):
                        if a[0] in ('f', 'item', 'call', 'elem'):
                            s3.events.append(('aug', a, v, self.loc(fr, n)))      # alters an array in place
                        out += [(x, None) for x in self.assign(n.target, v, s3, fr)]
            return out
        if t is ast.Return:
            if n.value is None:
                return [(st, ('return', NONE))]
            return [(s, ('return', v)) for s, v in self.ev(n.value, st, fr)]
        if t is ast.If:
            out = []
            for s, b in self.cond(n.test, st, fr):
                s.trail.append((self.loc(fr, n), b))
                out += self.block(n.body if b else n.orelse, s, fr)
            return out
        if t is ast.For or t is ast.AsyncFor:
            return self.for_stmt(n, st, fr)
        if t is ast.While:
            return self.while_stmt(n, st, fr)
        if t is ast.Raise:
            if n.exc is None:
                return [(st, ('raise', ('exc', 'reraise', ''), self.loc(fr, n)))]
            name = self.exc_name(n.exc, fr)
            # evaluate arguments for effects
            if isinstance(n.exc, ast.Call):
                sts = [st]
                for a in n.exc.args:
                    sts = [s2 for s in sts for s2, _ in self.ev(a, s, fr)]
                return [(s, ('raise', ('exc', name, ''), self.loc(fr, n))) for s in sts]
            return [(st, ('raise', ('exc', name, ''), self.loc(fr, n)))]
        if t is ast.Break:
            return [(st, ('break',))]
        if t is ast.Continue:
            return [(st, ('continue',))]
        if t in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
            if t in (ast.Import, ast.ImportFrom):
                self.local_import(n, st, fr)
            if t is ast.Global:
                st.events.append(('global', tuple(n.names), self.loc(fr, n)))
                if self.unroll:
                    st.frames[fr.fid]['@global'] = st.frames[fr.fid].get('@global', ()) + tuple(n.names)
            return [(st, None)]
        if t is ast.Delete:
            sts = [st]
            for tg in n.targets:
                sts = [x for s in sts for x in self.delete(tg, s, fr)]
            return [(s, None) for s in sts]
        if t is ast.Match:
            return self.match_stmt(n, st, fr)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            cid = self.new()
            fi = FuncInfo(fr.mod, None, n)
            fi.outer = fr.fi
            fi.lex = fr.cls
            self.closures[cid] = (fi, fr.fid, fr.mod, fr.cls, fr.fi)
            st.frames[fr.fid][self.mangle(n.name, fr)] = ('lam', cid)
            return [(st, None)]
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.try_stmt(n, st, fr)
        if t in (ast.With, ast.AsyncWith):
            sts = [st]
            for it in n.items:
                nx = []
                for s in sts:
                    for s2, v in self.ev(it.context_expr, s, fr):
                        if it.optional_vars is not None:
                            nx += self.assign(it.optional_vars, v, s2, fr)
                        else:
                            nx.append(s2)
                sts = nx
            out = []
            for s in sts:
                out += self.block(n.body, s, fr)
            return out
        if t is ast.Assert:
            out = []
            for s, b in self.cond(n.test, st, fr):
                if b:
                    out.append((s, None))
                else:
                    out.append((s, ('raise', ('exc', 'AssertionError', ''), self.loc(fr, n))))
            return out
        if t is ast.ClassDef:
            return [(st, None)]
        self.unk(f"statement {t.__name__}", fr, n)
        return [(st, None)]

    def local_import(self, n, st, fr):
        env = st.frames[fr.fid]
        if isinstance(n, ast.Import):
            for a in n.names:
                nm = a.asname or a.name.split('.')[0]
                env[nm] = ('mod', a.name if a.asname else nm) if a.name.split('.')[0] in (
                    x.split('.')[0] for x in self.p.modules) else ('ext', a.name if a.asname else nm)
        else:
            for a in n.names:
                nm = a.asname or a.name
                m = self.p.modules.get(n.module)
                if m is not None:
                    r = self.p.resolve_name(m, a.name)
                    env[nm] = self.from_res(r, fr, st, n) if r else ('ext', f"{n.module}.{a.name}")
                else:
                    env[nm] = self.ext_const(f"{n.module}.{a.name}")

    def exc_name(self, e, fr):
        if isinstance(e, ast.Call):
            e = e.func
        r = self.p.resolve_expr(fr.mod, e)
        if r and r[0] == 'cls':
            return r[1].name
        return ast.unparse(e).split('.')[-1]

    def as_load(self, t):
        import copy as _c
        x = _c.copy(t)
        x.ctx = ast.Load()
        return x

    def mangle(self, name, fr):
        if fr.cls is not None and name.startswith('__') and not name.endswith('__'):
            return '_' + fr.cls.name.lstrip('_') + name
        return name

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            nm = self.mangle(t.id, fr)
            if t.id in st.frames[fr.fid].get('@global', ()):
                r = self.p.resolve_name(fr.mod, nm) or self.p.resolve_name(fr.mod, t.id)
                if r is not None and r[0] == 'expr':
                    st.frames.setdefault(-7, {})[(r[2].name, id(r[1]))] = v
                    return [st]
            st.frames[fr.fid][nm] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                out += self.setattr(s, b, self.mangle(t.attr, fr), v, fr, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st, fr):
                for s2, k in self.ev_index(t.slice, s, fr):
                    out += self.setitem(s2, b, k, v, fr, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, fr)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        self.unk('assign target', fr, t)
        return [st]

    def unpack(self, elts, v, st, fr):
        items = None
        if v == NONE and self.unroll:
            self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'unpack None'), self.loc(fr, elts[0]))))
            return []
        if v[0] in ('tup', 'list'):
            items = list(v[1])
        elif self.kind(st, v) == 'list':
            items = self.contents(st, v)
        if items is not None and any(x[0] in ('each', 'splice', 'rev') for x in items):
            items = None
        if items is None:
            n = len(elts)
            items = [('item', v, C(i), 0) for i in range(n)]
            if any(isinstance(e, ast.Starred) for e in elts):
                i = [isinstance(e, ast.Starred) for e in elts].index(True)
                items[i] = ('slice', v, i, n)
                for j in range(i + 1, n):
                    items[j] = ('item', v, C(j - n), 0)
            sts = [st]
            for e, x in zip(elts, items):
                sts = [s2 for s in sts for s2 in self.assign(e, x, s, fr)]
            return sts
        if any(isinstance(e, ast.Starred) for e in elts):
            i = [isinstance(e, ast.Starred) for e in elts].index(True)
            after = len(elts) - i - 1
            mid = items[i:len(items) - after]
            lst = self.alloc(st, 'list')
            for x in mid:
                self.op(st, lst, 'add', x)
            items = items[:i] + [lst] + (items[len(items) - after:] if after else [])
        if len(items) != len(elts):
            self.raised[-1].append((st, ('raise', ('exc', 'ValueError', 'unpack'), self.loc(fr, elts[0]))))
            return []
        sts = [st]
        for e, x in zip(elts, items):
            sts = [s2 for s in sts for s2 in self.assign(e, x, s, fr)]
        return sts

    def delete(self, t, st, fr):
        if isinstance(t, ast.Name):
            st.frames[fr.fid].pop(self.mangle(t.id, fr), None)
            return [st]
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st, fr):
                for s2, k in self.ev_index(t.slice, s, fr):
                    items = self.known_items(s2, b) if self.kind(s2, b) == 'list' else None
                    if items is not None and is_c(k) and isinstance(k[2], int) and -len(items) <= k[2] < len(items):
                        items.pop(k[2])
                        s2.ops[b] = tuple(('add', x) for x in items)
                        out.append(s2)
                        continue
                    for s3, _ in self.pop_key(s2, b, k, None, fr, t):
                        out.append(s3)
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                s.events.append(('delattr', b, self.mangle(t.attr, fr), self.loc(fr, t)))
                o = self.hobj(s, b)
                if o is not None:
                    s.own(b[1]).fields.pop(self.mangle(t.attr, fr), None)
                out.append(s)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            for e in t.elts:
                sts = [x for s in sts for x in self.delete(e, s, fr)]
            return sts
        return [st]

    def try_stmt(self, n, st, fr):
        names = []
        for h in n.handlers:
            if h.type is None:
                names.append(('BaseException',))
            elif isinstance(h.type, ast.Tuple):
                names.append(tuple(self.exc_name(e, fr) for e in h.type.elts))
            else:
                names.append((self.exc_name(h.type, fr),))
        old = self.handlers
        self.handlers = old + [x for t in names for x in t]
        res = self.block(n.body, st, fr)
        self.handlers = old
        out = []
        for s, sig in res:
            if sig is None:
                out += self.block(n.orelse, s, fr) if n.orelse else [(s, None)]
            elif sig[0] == 'raise':
                nm = sig[1][1]
                par = (nm,) + EXC_PARENTS.get(nm, ('Exception', 'BaseException'))
                c = [k for k in self.p.all_classes() if k.name == nm]
                if c:
                    par = tuple(x.name if isinstance(x, ClassInfo) else x[1].split('.')[-1] for x in self.p.mro(c[0])) + par
                for h, hn in zip(n.handlers, names):
                    if any(x in par for x in hn):
                        if h.name:
                            s.frames[fr.fid][self.mangle(h.name, fr)] = sig[1]
                        for s2, sg2 in self.block(h.body, s, fr):
                            if sg2 is not None and sg2[0] == 'raise' and sg2[1][1] == 'reraise':
                                sg2 = sig
                            out.append((s2, sg2))
                        break
                else:
                    out.append((s, sig))
            else:
                out.append((s, sig))
        if n.finalbody:
            o2 = []
            for s, sig in out:
                for s2, sg in self.block(n.finalbody, s, fr):
                    o2.append((s2, sg if sg is not None else sig))
            out = o2
        return out

    def match_stmt(self, n, st, fr):
        out = []
        for s, v in self.ev(n.subject, st, fr):
            cur = [s]
            for case in n.cases:
                nxt = []
                for c in cur:
                    for s2, ok in self.pattern(case.pattern, v, c, fr):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, g in self.cond(case.guard, s2, fr):
                                if g:
                                    s3.trail.append((self.loc(fr, case.pattern), True))
                                    out += self.block(case.body, s3, fr)
                                else:
                                    nxt.append(s3)
                        else:
                            s2.trail.append((self.loc(fr, case.pattern), True))
                            out += self.block(case.body, s2, fr)
                cur = nxt
            out += [(c, None) for c in cur]
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.frames[fr.fid][self.mangle(p.name, fr)] = v
                return [(st, True)]
            out = []
            for s, ok in self.pattern(p.pattern, v, st, fr):
                if ok and p.name:
                    s.frames[fr.fid][self.mangle(p.name, fr)] = v
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for c in cur:
                    for s, ok in self.pattern(q, v, c, fr):
                        (out.append((s, True)) if ok else nxt.append(s))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchValue):
            out = []
            for s, x in self.ev(p.value, st, fr):
                out += self.truth(self.compare(s, ast.Eq(), v, x, fr, p), s)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.split(st, ('is', v, C(p.value)))
        if isinstance(p, ast.MatchClass):
            c = self.class_ref(p.cls, st, fr)
            out = []
            for s, ok in self.split(st, ('isinst', v, c)):
                if not ok or (not p.patterns and not p.kwd_attrs):
                    out.append((s, ok))
                    continue
                cur = [s]
                if p.patterns:
                    self.unk('positional class pattern', fr, p)
                for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                    nx = []
                    for c2 in cur:
                        for s2, av in self.getattr(c2, v, a, fr, p):
                            for s3, ok3 in self.pattern(q, av, s2, fr):
                                (nx.append(s3) if ok3 else out.append((s3, False)))
                    cur = nx
                out += [(x, True) for x in cur]
            return out
        if isinstance(p, ast.MatchSequence):
            items = None
            if v[0] in ('tup', 'list'):
                items = list(v[1])
            elif self.kind(st, v) == 'list':
                items = self.contents(st, v)
            star = any(isinstance(q, ast.MatchStar) for q in p.patterns)
            if not star:
                n = len(p.patterns)
                if items is not None and not any(x[0] in ('each', 'splice', 'rev') for x in items):
                    if len(items) != n:
                        return [(st, False)]
                    heads = [(st, True)]
                else:
                    heads = self.split(st, ('eq', ('len', self.freeze(st, v)), C(n)))
                    items = [('item', v, C(i), 0) for i in range(n)]
                out = []
                for s, ok in heads:
                    if not ok:
                        out.append((s, False))
                        continue
                    cur = [s]
                    for q, x in zip(p.patterns, items):
                        nx = []
                        for c2 in cur:
                            for s2, ok2 in self.pattern(q, x, c2, fr):
                                (nx.append(s2) if ok2 else out.append((s2, False)))
                        cur = nx
                    out += [(x, True) for x in cur]
                return out
        self.unk(f"pattern {type(p).__name__}", fr, p)
        return self.split(st, ('truthy', ('unk', 'pattern', self.new())))

    def class_ref(self, e, st, fr):
        r = self.p.resolve_expr(fr.mod, e)
        if r and r[0] == 'cls':
            return r[1]
        if isinstance(e, ast.Name):
            if e.id in BUILTIN_TYPES:
                return e.id
            v = st.frames.get(fr.fid, {}).get(e.id)
            if v and v[0] == 'cls':
                return v[1]
        return ('ext', ast.unparse(e))

    # ------------------------------------------------------------------ loops
    def for_stmt(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            def cb(s1, x):
                res = []
                for s2 in self.assign(n.target, x, s1, fr):
                    for s3, sig in self.block(n.body, s2, fr):
                        res.append((s3, None if sig is not None and sig[0] == 'continue' else sig))
                return res
            for s2, sig in self.iterate(s, it, cb, fr, n):
                if sig is None:
                    out += self.block(n.orelse, s2, fr) if n.orelse else [(s2, None)]
                elif sig[0] == 'break':
                    out.append((s2, None))
                else:
                    out.append((s2, sig))
        return out

    def while_stmt(self, n, st, fr):
        def step(s):
            """one iteration -> [(st, sig)], sig 'wexit' when the condition is false"""
            res = []
            for s1, b in self.cond(n.test, s, fr):
                if not b:
                    res.append((s1, ('wexit',)))
                    continue
                for s2, sig in self.block(n.body, s1, fr):
                    res.append((s2, None if sig is not None and sig[0] == 'continue' else sig))
            return res
        out = []
        res, cur = [], [st]
        for _ in range(150 if self.unroll else 0):
            nxt = []
            for s in cur:
                if len({b for _, b in self.cond(n.test, s.fork(), fr)}) != 1:
                    res += self.generic_loop(s, 'while', None, None, step, fr, n)
                    continue
                for s2, sig in step(s):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        res.append((s2, sig))
            cur = nxt
            if not cur or len(cur) > 40:
                break
        for s in cur:
            res += self.generic_loop(s, 'while', None, None, step, fr, n)
        for s2, sig in res:
            if sig is None or sig[0] == 'wexit':
                out += self.block(n.orelse, s2, fr) if n.orelse else [(s2, None)]
            elif sig[0] == 'break':
                out.append((s2, None))
            else:
                out.append((s2, sig))
        return out

    def diff(self, a, b):
        """locations of state a that differ in state b"""
        keys = set()
        for fid, env in a.frames.items():
            e2 = b.frames.get(fid)
            if e2 is None:
                continue
            for k in set(env) | set(e2):
                if env.get(k) != e2.get(k):
                    keys.add(('var', fid, k))
        for k in set(a.fields) | set(b.fields):
            if a.fields.get(k) != b.fields.get(k):
                keys.add(('fld',) + k)
        for oid, o in a.heap.items():
            o2 = b.heap.get(oid)
            if o2 is None or o2 is o:
                continue
            for k in set(o.fields) | set(o2.fields):
                if o.fields.get(k) != o2.fields.get(k):
                    keys.add(('hfld', oid, k))
        for c in b.ops:
            if a.ops.get(c, ()) != b.ops[c]:
                if c[0] == 'o' and c[1] not in a.heap:
                    continue
                keys.add(('ops', c))
        for c in b.consumed:
            if b.consumed[c] != a.consumed.get(c) and c[1] in a.heap:
                keys.add(('cons', c))
        return keys

    def read_key(self, st, k):
        if k[0] == 'var':
            return st.frames[k[1]].get(k[2])
        if k[0] == 'fld':
            return st.fields.get((k[1], k[2]), ('f', k[1], k[2], 0))
        if k[0] == 'hfld':
            return st.heap[k[1]].fields.get(k[2])
        return None

    def generic_loop(self, st, kind, coll, elem, step, fr, node, lid=None):
        lid = lid or self.new()
        lp = Loop(lid, kind, coll, elem, node, self.loc(fr, node))
        self.loops[lid] = lp
        lp.pre = st.fork()
        keys = set()
        saved_unknown = len(self.unknown)
        for rnd in range(4):
            head = st.fork()
            for k in sorted(keys, key=repr):
                h = ('havoc', lid, k)
                if k[0] == 'var':
                    old = st.frames[k[1]].get(k[2])
                    if old is None:
                        continue
                    head.frames[k[1]][k[2]] = h
                    if old in st.types or True:
                        t = self.type_of(st, old)
                        if isinstance(t, (ClassInfo, str)):
                            head.types[h] = t
                elif k[0] == 'fld':
                    head.fields[(k[1], k[2])] = h
                elif k[0] == 'hfld':
                    if k[2] in st.heap[k[1]].fields:
                        head.own(k[1]).fields[k[2]] = h
                elif k[0] == 'ops':
                    head.ops[k[1]] = head.ops.get(k[1], ()) + (('iter', lid),)
                elif k[0] == 'cons':
                    head.consumed[k[1]] = 'maybe'
            mark = len(self.unknown)
            hs = head.fork()
            self.raised.append([])
            res = step(head.fork())
            res = res + self.raised.pop()
            new = set(keys)
            for s, sig in res:
                if sig is None:
                    new |= self.diff(head, s)
            if new == keys:
                break
            del self.unknown[saved_unknown:]
            keys = new
        lp.head = hs
        lp.paths = [Path(s, sig, hs) for s, sig in res]
        lp.done = True
        for k in sorted(keys, key=repr):
            lp.init[k] = self.read_key(lp.pre, k)
        for p in lp.paths:
            if p.sig is None:
                lp.next.append({k: self.read_key(p.st, k) for k in sorted(keys, key=repr)})
        out = []
        # regular end of the iteration
        if kind in ('while', 'chain'):
            for p in lp.paths:
                if p.sig is not None:
                    s = p.st.fork() if False else p.st
                    s2 = self.exit_state(s, lp, p)
                    out.append((s2, None if p.sig[0] == 'wexit' else p.sig))
        else:
            ex = hs.fork()
            for k in keys:
                if k[0] == 'var' and k[2] not in ex.frames[k[1]]:
                    ex.frames[k[1]][k[2]] = ('havoc', lid, k)
            ex.events = lp.pre.events + [('loop', lp, None)]
            out.append((ex, None))
            for p in lp.paths:
                if p.sig is not None:
                    out.append((self.exit_state(p.st, lp, p), p.sig))
        return out

    def exit_state(self, s, lp, p):
        s2 = s.fork()
        s2.events = lp.pre.events + [('loop', lp, p)] + p.events
        return s2

    # ------------------------------------------------------------------ iteration
    def iterate(self, st, it, cb, fr, node):
        """Drive an iterable; cb(st, elem) -> [(st, sig)]; any signal stops."""
        k = it[0]
        if it == NONE and self.unroll:
            self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'iterate None'), self.loc(fr, node))))
            return []
        if k in ('tup', 'list'):
            return self.iter_items(st, list(it[1]), cb, fr, node)
        if k == 'dict':
            return self.iter_items(st, [x for x, _ in it[1]], cb, fr, node)
        if k == 'rev':
            inner = it[1]
            if inner[0] == 'list' and len(inner[1]) == 1 and inner[1][0][0] == 'each':
                return self.iter_items(st, [it], cb, fr, node)
            return self.abstract_for(st, it, cb, fr, node)
        if k == 'c' and isinstance(it[2], (str, bytes, tuple)):
            return self.iter_items(st, [C(x) for x in it[2]], cb, fr, node)
        o = self.hobj(st, it)
        if o is not None:
            if o.kind == 'list':
                items = self.contents(st, it)
                if items is not None:
                    live = (it, st.ops.get(it, ()))
                    return self.iter_items(st, items, cb, fr, node)
                return self.abstract_for(st, it, cb, fr, node)
            if o.kind == 'gen':
                if st.consumed.get(it):
                    return self.reconsume(st, it, cb, fr, node)
                st.consumed[it] = 'yes'
                return self.drive(st, it, o, cb, fr, node)
            if o.kind == 'iter':
                if st.consumed.get(it):
                    return self.reconsume(st, it, cb, fr, node)
                st.consumed[it] = 'yes'
                return self.iter_lazy(st, o.data, cb, fr, node)
            if o.kind == 'opaquegen':
                st.consumed[it] = 'yes'
                st.events.append(('consume', o.data, self.loc(fr, node)))
                hook = self.contracts.get('consume')
                if hook:
                    hook(self, st, o.data)
                return self.abstract_for(st, o.data, cb, fr, node)
            if o.kind == 'dict':
                return self.iter_keys(st, it, 'keys', cb, fr, node)
            if o.kind in ('set', 'queue'):
                if not st.ops.get(it):
                    return [(st, None)]
                if o.kind == 'set' and self.unroll and self.members(st, it) is not None:
                    return self.iter_items(st, self.members(st, it), cb, fr, node)
                return self.abstract_for(st, it, cb, fr, node)
            if o.kind == 'xml':
                known = self.known_items(st, it)
                return self.abstract_for(st, it, cb, fr, node) if known is None else self.iter_items(st, known, cb, fr, node)
            if o.kind == 'inst':
                f = self.p.find(o.cls, '__iter__')
                if f:
                    out = []
                    for s, g in self.call_fi(f, it, [], {}, st, node, fr):
                        go = self.hobj(s, g)
                        nx = self.p.find(go.cls, '__next__') if go is not None and go.kind == 'inst' else None
                        out += self.iter_next(s, g, nx, cb, fr, node) if nx is not None else self.iterate(s, g, cb, fr, node)
                    return out
        if k == 'view':
            return self.iter_keys(st, it[2], it[1], cb, fr, node)
        if k == 'range':
            a = it[1]
            if all(x[0] == 'c' and isinstance(x[2], int) for x in a) and len(a) <= 3:
                r = list(range(*[x[2] for x in a]))
                if len(r) <= 12:
                    return self.iter_items(st, [C(i) for i in r], cb, fr, node)
        if k == 'repeat':
            return self.abstract_for(st, it, lambda s, e: cb(s, it[2]), fr, node)
        t = self.type_of(st, it)
        if isinstance(t, ClassInfo) and k in ('sym', 'f', 'elem', 'item'):
            f = self.p.find(t, '__iter__')
            if f:
                out = []
                for s, g in self.call_fi(f, it, [], {}, st, node, fr):
                    out += self.iterate(s, g, cb, fr, node)
                return out
        if k in ('sym', 'f') and t == 'dict':
            return self.iter_keys(st, it, 'keys', cb, fr, node)
        return self.abstract_for(st, it, cb, fr, node)

    def iter_next(self, st, it, nx, cb, fr, node):
        """an object that is its own iterator, asked until it is exhausted"""
        out, cur = [], [st]
        for _ in range(24):
            nxt = []
            for s in cur:
                self.raised.append([])
                r = self.call_fi(nx, it, [], {}, s, node, fr)
                for s2, sig in self.raised.pop():
                    out.append((s2, None if sig[0] == 'raise' and sig[1][1] == 'StopIteration' else sig))
                for s2, v in r:
                    for s3, sg in cb(s2, v):
                        if sg is None:
                            nxt.append(s3)
                        else:
                            out.append((s3, sg))
            cur = nxt
            if not cur:
                return out
        raise Limit('iterator without end')

    def reconsume(self, st, it, cb, fr, node):
        st.events.append(('exhausted', it, st.consumed.get(it), self.loc(fr, node)))
        if st.consumed.get(it) == 'maybe':
            # full in the first iteration of the surrounding loop only
            s2 = st.fork()
            o = st.heap[it[1]]
            st.consumed[it] = 'yes'
            res = self.drive(st, it, o, cb, fr, node) if o.kind == 'gen' else self.iter_lazy(st, o.data, cb, fr, node)
            return res + [(s2, None)]
        return [(st, None)]

    def iter_items(self, st, items, cb, fr, node):
        cur = [(st, None)]
        for x in items:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                elif x[0] == 'each':
                    nxt += self.iter_each(s, x, cb, fr, node)
                elif x[0] == 'splice':
                    nxt += self.iterate(s, x[1], cb, fr, node)
                elif x[0] == 'rev':
                    inner = x[1]
                    if inner[0] == 'list' and len(inner[1]) == 1 and inner[1][0][0] == 'each':
                        nxt += self.iter_each(s, inner[1][0], cb, fr, node, rev=True)
                    else:
                        nxt += self.abstract_for(s, x, cb, fr, node)
                else:
                    nxt += cb(s, x)
            cur = nxt
        return cur

    def iter_each(self, st, seg, cb, fr, node, rev=False):
        """Iterating a list that a loop has built = one generic iteration over what that loop went through."""
        lid, cont = seg[1:3]
        lp = self.loops[lid]
        nlid = self.new()
        up = dict(seg[3]) if len(seg) > 3 else {}
        m = {**up, **{('elem', lid, i): ('elem', nlid, i) for i in range(4)}}
        for k in lp.init:
            m[('havoc', lid, k)] = ('havoc', nlid, k)

        def step(s):
            out = []
            for p in lp.paths:
                if p.sig is not None:
                    continue
                s1 = s.fork()
                ok = True
                for atom, pol in p.facts:
                    if not self.assume(s1, subst(atom, m), pol):
                        ok = False
                        break
                if not ok:
                    continue
                for kk, oo in p.st.heap.items():
                    if kk not in s1.heap:
                        s1.heap[kk] = oo.copy()
                for kk, oo in p.st.ops.items():
                    if kk not in s1.ops and kk[0] == 'o' and kk[1] not in lp.head.heap:
                        s1.ops[kk] = subst(oo, m)
                for kk, tt in p.st.types.items():
                    s1.types.setdefault(subst(kk, m), tt)
                items = []
                for op in self.path_ops(lp, p, cont):
                    if op[0] == 'add':
                        items.append(subst(op[1], m))
                    elif op[0] == 'insert':
                        items.append(subst(op[2], m))
                    elif op[0] == 'splice':
                        items.append(('splice', subst(op[1], m)))
                    elif op[0] == 'iter':
                        items.append(('each', op[1], cont, tuple(m.items())))
                out += self.iter_items(s1, items, cb, fr, node) if items else [(s1, None)]
            return out
        coll = subst(lp.coll, up) if up else lp.coll
        coll = coll if not rev else ('rev', coll)
        self.origin[nlid] = self.origin.get(lid, lid)
        if lp.kind == 'while':
            coll = ('iters', lid) if not rev else ('rev', ('iters', lid))
        res = self.generic_loop(st, 'for', coll, ('elem', nlid, 0), step, fr, node, nlid)
        self.copied.add(nlid)
        self.origin[nlid] = self.origin.get(lid, lid)
        return res

    def iter_keys(self, st, cont, what, cb, fr, node):
        """Iterate a dict: known entries one by one when the content is exact, otherwise a generic entry."""
        ops = st.ops.get(cont, ())
        exact = self.is_fresh(st, cont) and all(op[0] == 'set' for op in ops)
        known = None if exact else self.exact_items(st, cont)
        if exact or known is not None:
            ks = [k for k, _ in known or ()]
            ent = dict(known or ())
            for op in ops if exact else ():
                if op[1] not in ent:
                    ks.append(op[1])
                ent[op[1]] = op[2]
            if what == 'keys':
                items = ks
            elif what == 'values':
                items = [ent[k] for k in ks]
            else:
                items = [('tup', (k, ent[k])) for k in ks]
            return self.iter_items(st, items, cb, fr, node)
        if not ops and self.is_fresh(st, cont):
            return [(st, None)]
        lid = self.new()
        key = ('elem', lid, 1)
        val = ('elem', lid, 0)
        x = key if what == 'keys' else val if what == 'values' else ('tup', (key, val))
        coll = ('view', what, cont, len(ops))

        def step(s):
            if what == 'keys':
                s.facts.append((('in', key, cont, len(ops)), True))
            else:
                hook = self.contracts.get('entry')
                if hook:
                    hook(self, s, cont, key, val)
            return cb(s, x)
        return self.generic_loop(st, 'for', coll, x, step, fr, node, lid)

    def abstract_for(self, st, coll, cb, fr, node):
        lid = self.new()
        e = ('elem', lid, 0)
        fz = self.freeze(st, coll)
        if coll[0] in ('o', 'f', 'sym', 'item'):
            fz = ('coll', fz, len(st.ops.get(coll, ())))
        return self.generic_loop(st, 'for', fz, e, lambda s: cb(s, e), fr, node, lid)

    def drive(self, st, it, o, cb, fr, node):
        fi, env, recv, cls = o.data
        plain = self.unroll and self.stack.count(fi) < 30 and all(v[0] == 'c' or v[0] == 'cls' or self.hobj(st, v) is not None for v in env.values())
        if fi in self.stack and fi is not None and not plain:
            chain = self.chain_of(fi)
            if chain is not None and self.chain_frames.get(fi):
                # tail recursion of a generator over a chain of receivers
                fr0, lp_recv = self.chain_frames[fi][-1]
                st.frames[fr0]['@recv'] = recv
                return [(st, ('chain', fi))]
            call = ('call', 'rec:' + fi.qual, tuple(self.freeze(st, v) for v in env.values()), (), 0)
            st.events.append(('consume', call, self.loc(fr, node)))
            return self.abstract_for(st, call, cb, fr, node)
        chain = self.chain_of(fi)
        if chain is not None and recv is not None and not plain:
            return self.drive_chain(st, fi, env, recv, cb, fr, node)
        out = []
        outer = list(self.stack)

        def consumer(s, x):
            # the body of the loop does not run inside the generator
            held, self.stack = self.stack, list(outer)
            try:
                return cb(s, x)
            finally:
                self.stack = held
        for s, sig in self.run_frame(fi, env, recv, st, consumer):
            if sig is None or sig[0] == 'return':
                out.append((s, None))
            elif sig[0] == 'out':
                out.append((s, sig[1]))
            else:
                out.append((s, sig))
        return out

    chain_frames = {}

    def chain_of(self, fi):
        """A generator method whose only recursion is `yield from <recv>.<same name>()` in tail position."""
        if not hasattr(fi, '_chain'):
            fi._chain = None
            if fi.is_gen and fi.cls is not None and len(fi.node.args.args) == 1:
                rec = []
                for nd in ast.walk(fi.node):
                    if isinstance(nd, ast.YieldFrom) and isinstance(nd.value, ast.Call) and \
                            isinstance(nd.value.func, ast.Attribute) and nd.value.func.attr == fi.name:
                        rec.append(nd)
                if len(rec) == 1 and self._tail(fi.node.body, rec[0]):
                    fi._chain = rec[0]
        return fi._chain

    def _tail(self, body, node):
        last = body[-1]
        if isinstance(last, ast.Expr) and last.value is node:
            return True
        if isinstance(last, ast.If):
            return any(b and self._tail(b, node) for b in (last.body, last.orelse))
        return False

    def drive_chain(self, st, fi, env, recv, cb, fr, node):
        hid = self.new()
        st.frames[hid] = {'@recv': recv}
        name = fi.node.args.args[0].arg

        def step(s):
            r = s.frames[hid]['@recv']
            self.chain_frames.setdefault(fi, []).append((hid, r))
            res = []
            try:
                for s2, sig in self.run_frame(fi, {name: r}, r, s, cb):
                    if sig is not None and sig[0] == 'chain':
                        res.append((s2, None))
                    elif sig is not None and sig[0] == 'out':
                        if sig[1] is not None and sig[1][0] == 'chain':
                            res.append((s2, None))
                        else:
                            res.append((s2, sig[1]))
                    elif sig is None or sig[0] == 'return':
                        res.append((s2, ('wexit',)))
                    else:
                        res.append((s2, sig))
            finally:
                self.chain_frames[fi].pop()
            return res
        out = []
        for s2, sig in self.generic_loop(st, 'chain', None, None, step, fr, node):
            out.append((s2, None if sig is not None and sig[0] == 'wexit' else sig))
        # a while-like loop: generic_loop treats non-'while' kinds as 'for'; fix below
        return out

    def iter_lazy(self, st, data, cb, fr, node):
        k = data[0]
        if k == 'filter':
            _, f, src = data

            def cb2(s, x):
                out = []
                if f == NONE:
                    vs = [(s, x)]
                else:
                    vs = self.call(f, [x], {}, s, fr, node)
                for s2, v in vs:
                    for s3, b in self.truth(v, s2):
                        out += cb(s3, x) if b else [(s3, None)]
                return out
            return self.iterate(st, src, cb2, fr, node)
        if k == 'map':
            _, f, srcs = data

            def cb2(s, x):
                out = []
                args = [x] if len(srcs) == 1 else list(x[1])
                for s2, v in self.call(f, args, {}, s, fr, node):
                    out += cb(s2, v)
                return out
            if len(srcs) == 1:
                return self.iterate(st, srcs[0], cb2, fr, node)
            return self.iter_zip(st, srcs, cb2, fr, node)
        if k == 'zip':
            return self.iter_zip(st, data[1], cb, fr, node)
        if k == 'enum':
            start = data[2]
            items = self.known_items(st, data[1])
            if items is not None and is_c(start):
                return self.iter_items(st, [('tup', (C(start[2] + i), x)) for i, x in enumerate(items)], cb, fr, node)

            at = self.alloc(st, 'cell', n=start) if self.unroll and is_c(start) else None

            def cb2(s, x):
                n = s.heap[at[1]].fields['n'] if at is not None else NONE
                if is_c(n) and isinstance(n[2], int):
                    s.own(at[1]).fields['n'] = C(n[2] + 1)
                    return cb(s, ('tup', (n, x)))
                return cb(s, ('tup', (('op', '+', start, ('idx', x)) if not is_c(start, 0) else ('idx', x), x)))
            return self.iterate(st, data[1], cb2, fr, node)
        if k == 'genexp':
            cid = data[1]
            node2, fid, mod, cls, fi = self.closures[cid]
            f2 = Frame(fid, mod, cls, fi)
            return self.comp(node2.generators, node2.elt, st, f2, lambda s, v: cb(s, v), node2, first=data[2] if len(data) > 2 else None)
        if k == 'iter':
            return self.iterate(st, data[1], cb, fr, node)
        if k == 'chain':
            return self.iter_items(st, [('splice', x) for x in data[1]], cb, fr, node)
        if k == 'rev':
            return self.iterate(st, ('rev', data[1]), cb, fr, node)
        return self.abstract_for(st, ('lazy',) + data, cb, fr, node)

    def known_items(self, st, v):
        if v[0] in ('tup', 'list'):
            items = list(v[1])
        elif self.kind(st, v) in ('list', 'xml'):
            items = self.contents(st, v)
        else:
            return None
        if items is None or any(x[0] in ('each', 'splice', 'rev') for x in items):
            return None
        return items

    def side_by_side(self, st, srcs, fr, node):
        """rows of a zip whose members become known when they are read: [(state, rows)] or None"""
        cur = [(st.fork(), [])]
        for x in srcs:
            nxt = []
            for s, cols in cur:
                o = self.hobj(s, x)
                if x[0] == 'repeat' or o is not None and o.kind == 'iter' and o.data[0] == 'repeat':
                    return None
                items = self.known_items(s, x)
                if x[0] == 'range' and all(is_c(y) and isinstance(y[2], int) for y in x[1]):
                    items = [C(y) for y in range(*[y[2] for y in x[1]])[:1000]]
                if items is not None:
                    nxt.append((s, cols + [items]))
                    continue
                if o is None or o.kind not in ('gen', 'iter'):
                    return None
                for s2, l in self.to_list(s, [x], fr, node):
                    items = self.known_items(s2, l)
                    if items is None:
                        return None
                    nxt.append((s2, cols + [items]))
            cur = nxt
        return [(s, list(zip(*cols))) for s, cols in cur]

    def iter_zip(self, st, srcs, cb, fr, node):
        known = [self.known_items(st, s) for s in srcs]
        if all(k is not None for k in known):
            return self.iter_items(st, [('tup', t) for t in zip(*known)], cb, fr, node)
        if self.unroll:
            marks = len(self.raised[-1]), len(self.unknown)
            r = self.side_by_side(st, srcs, fr, node)
            if r is None:
                del self.raised[-1][marks[0]:], self.unknown[marks[1]:]
            else:
                return [y for s, rows in r for y in self.iter_items(s, [('tup', t) for t in rows], cb, fr, node)]
        lid = self.new()
        comps = []
        for i, s in enumerate(srcs):
            o = self.hobj(st, s)
            if s[0] == 'repeat':
                comps.append(s[2])
            elif o is not None and o.kind == 'iter' and o.data[0] == 'repeat':
                comps.append(o.data[1])
            else:
                comps.append(('elem', lid, i))
        fz = []
        for s in srcs:
            o = self.hobj(st, s)
            f = self.freeze(st, s)
            if o is not None and o.kind == 'iter':
                st.consumed[s] = 'yes'
                f = ('lazy',) + o.data
            fz.append(f)
        coll = ('zip', tuple(fz))
        e = ('tup', tuple(comps))
        return self.generic_loop(st, 'for', coll, e, lambda s: cb(s, e), fr, node, lid)

    def comp(self, gens, elt, st, fr, emit, node, first=None):
        """comprehension core -> [(st, sig)]"""
        def level(i, s):
            if i == len(gens):
                out = []
                if isinstance(elt, tuple):
                    for s1, k in self.ev(elt[0], s, fr):
                        for s2, v in self.ev(elt[1], s1, fr):
                            out += emit(s2, (k, v))
                    return out
                for s2, v in self.ev(elt, s, fr):
                    out += emit(s2, v)
                return out
            g = gens[i]
            srcs = [(s, first)] if i == 0 and first is not None else self.ev(g.iter, s, fr)
            out = []
            for s1, it in srcs:
                def cb(s2, x):
                    cur = self.assign(g.target, x, s2, fr)
                    res = []
                    for c in g.ifs:
                        nx = []
                        for s3 in cur:
                            for s4, b in self.cond(c, s3, fr):
                                (nx.append(s4) if b else res.append((s4, None)))
                        cur = nx
                    for s3 in cur:
                        res += level(i + 1, s3)
                    return res
                out += self.iterate(s1, it, cb, fr, node)
            return out
        child = self.new()
        st.frames[child] = {'@up': fr.fid}
        fr = Frame(child, fr.mod, fr.cls, fr.fi, fr.recv, fr.on_yield)
        return level(0, st)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """-> [(st, value)]; raising paths go to self.raised[-1]"""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(st, self.unk(f"expression {type(e).__name__}", fr, e))]
        return m(e, st, fr)

    def ev_seq(self, es, st, fr):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        items = self.known_items(s2, v)
                        if items is not None:
                            nxt.append((s2, vs + items))
                        else:
                            lst = self.alloc(s2, 'list')
                            for s3 in self.extend(s2, lst, v, fr, e):
                                c = self.contents(s3, lst)
                                nxt.append((s3, vs + (c if c is not None else [('splice', lst)])))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev_Constant(self, e, st, fr):
        return [(st, C(e.value))]

    def ev_Name(self, e, st, fr):
        n = self.mangle(e.id, fr)
        fid = fr.fid
        while fid is not None and fid in st.frames:
            env = st.frames[fid]
            if n in env:
                return [(st, env[n])]
            if e.id in env:
                return [(st, env[e.id])]
            fid = env.get('@up')
        r = self.p.resolve_name(fr.mod, n) or (self.p.resolve_name(fr.mod, e.id) if n == e.id else None)
        if r is not None:
            return [(st, self.from_res(r, fr, st, e))]
        if hasattr(builtins, e.id):
            return [(st, ('ext', e.id))]
        self.raised[-1].append((st, ('raise', ('exc', 'NameError', n), self.loc(fr, e))))
        return []

    def from_res(self, r, fr, st, node):
        if r[0] == 'cls':
            return ('cls', r[1])
        if r[0] == 'fn':
            return ('fn', r[1], None)
        if r[0] == 'mod':
            return ('mod', r[1])
        if r[0] == 'ext':
            return self.ext_const(r[1])
        if r[0] == 'expr':
            node2, mod = r[1], r[2]
            kept = st.frames.get(-7, {}).get((mod.name, id(node2)))
            if kept is not None:
                return kept
            v = self.shared_fresh(st, (mod.name, id(node2)), node2, mod, mod.tree.body)
            if v is None:
                v = self.const_expr(node2, mod)
            return v if v is not None else ('shared', mod.name, ast.unparse(node2)[:60])
        return ('unk', 'name', self.new())

    def shared_fresh(self, st, key, node, mod, body):
        """An empty container made once, at import: in a program that starts afresh it is empty until something is put in it. One that the
        module itself may fill while it is imported is not known."""
        if not self.unroll:
            return None
        kept = st.frames.get(-7, {}).get(key)
        if kept is not None:
            return kept
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('dict', 'list', 'set') and not node.args and not node.keywords:
            kind = node.func.id
        elif isinstance(node, ast.Dict) and not node.keys:
            kind = 'dict'
        elif isinstance(node, ast.List) and not node.elts:
            kind = 'list'
        else:
            return None
        if body is not None:
            name = None
            for b in body:
                if isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is node:
                    ts = b.targets if isinstance(b, ast.Assign) else [b.target]
                    if len(ts) == 1 and isinstance(ts[0], ast.Name):
                        name = ts[0].id
            if name is None:
                return None
            users = set()
            for b in ast.walk(ast.Module(body=list(body), type_ignores=[])):
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(b)):
                    users.add(b.name)

            def outside(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        for x in c.decorator_list:
                            yield from ast.walk(x)
                        continue
                    if isinstance(c, ast.Lambda):
                        continue
                    yield c
                    yield from outside(c)
            seen = [x for x in outside(ast.Module(body=list(body), type_ignores=[])) if isinstance(x, ast.Name) and x.id in users | {name}]
            if len(seen) != 1:
                return None
        v = self.alloc(st, kind, node=node)
        st.frames.setdefault(-7, {})[key] = v
        return v

    def const_expr(self, n, mod):
        if isinstance(n, ast.Constant):
            return C(n.value)
        if isinstance(n, (ast.List, ast.Tuple)):
            items = [self.const_expr(x, mod) for x in n.elts]
            if all(x is not None for x in items):
                return ('list' if isinstance(n, ast.List) else 'tup', tuple(items))
            return None
        if isinstance(n, ast.Dict) and all(k is not None for k in n.keys):
            ks = [self.const_expr(x, mod) for x in n.keys]
            vs = [self.const_expr(x, mod) for x in n.values]
            if all(x is not None for x in ks + vs):
                return ('dict', tuple(zip(ks, vs)))
            return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            return C(-n.operand.value)
        if isinstance(n, ast.BinOp):
            a, b = self.const_expr(n.left, mod), self.const_expr(n.right, mod)
            if a is not None and b is not None:
                return self.fold(type(n.op), a, b)
            return None
        if isinstance(n, ast.Name):
            r = self.p.resolve_name(mod, n.id)
            if r and r[0] == 'expr' and r[1] is not n:
                return self.const_expr(r[1], r[2])
            if r and r[0] == 'cls':
                return ('cls', r[1])
            if r and r[0] == 'fn':
                return ('fn', r[1], None)
            return None
        if isinstance(n, ast.Attribute):
            fr = Frame(0, mod, None, None)
            return self.static_attr(fr, n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('frozenset', 'tuple', 'list', 'dict') and len(n.args) == 1:
            return self.const_expr(n.args[0], mod)
        if isinstance(n, ast.Lambda):
            cid = self.new()
            self.closures[cid] = (n, None, mod, None, None)
            return ('lam', cid)
        return None

    def ev_Tuple(self, e, st, fr):
        return [(s, ('tup', tuple(vs))) for s, vs in self.ev_seq(e.elts, st, fr)]

    def ev_List(self, e, st, fr):
        out = []
        for s, vs in self.ev_seq(e.elts, st, fr):
            l = self.alloc(s, 'list', node=e)
            for v in vs:
                self.op(s, l, 'splice', v[1]) if v[0] == 'splice' else self.op(s, l, 'add', v)
            out.append((s, l))
        return out

    def ev_Set(self, e, st, fr):
        out = []
        for s, vs in self.ev_seq(e.elts, st, fr):
            l = self.alloc(s, 'set', node=e)
            for v in vs:
                self.op(s, l, 'sadd', v)
            out.append((s, l))
        return out

    def ev_Dict(self, e, st, fr):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, items in cur:
                if k is None:
                    for s2, x in self.ev(v, s, fr):
                        nxt.append((s2, items + [('**', x)]))
                else:
                    for s2, kv in self.ev(k, s, fr):
                        for s3, vv in self.ev(v, s2, fr):
                            nxt.append((s3, items + [(kv, vv)]))
            cur = nxt
        out = []
        for s, items in cur:
            d = self.alloc(s, 'dict', node=e)
            for k, v in items:
                if k == '**':
                    ex = self.exact_items(s, v)
                    if ex is not None:
                        for kk, vv in ex:
                            self.op(s, d, 'set', kk, vv)
                    else:
                        self.op(s, d, 'update', self.freeze(s, v))
                else:
                    self.op(s, d, 'set', k, v)
            out.append((s, d))
        return out

    def ev_Lambda(self, e, st, fr):
        cid = self.new()
        self.closures[cid] = (e, fr.fid, fr.mod, fr.cls, fr.fi)
        return [(st, ('lam', cid))]

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            out += self.ev(e.body if b else e.orelse, s, fr)
        return out

    def ev_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            out += [(s2, v) for s2 in self.assign(e.target, v, s, fr)]
        return out

    def ev_Await(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            out += self.await_(s, v, fr, e)
        return out

    def await_(self, st, v, fr, node):
        o = self.hobj(st, v)
        if o is not None and o.kind == 'coro':
            if st.consumed.get(v):
                self.raised[-1].append((st, ('raise', ('exc', 'RuntimeError', 'cannot reuse already awaited coroutine'), self.loc(fr, node))))
                return []
            st.consumed[v] = 'yes'
            fi, env, recv, cls = o.data
            return self.run_body(fi, env, recv, st, node, fr, cls)
        if o is not None and o.kind == 'future':
            if isinstance(o.data, tuple) and o.data and o.data[0] == 'pending':
                if st.consumed.get(v) != 'yes':
                    self.op(st, o.data[1], 'add', o.data[2])
                st.consumed[v] = 'yes'
                return [(st, NONE)]
            return [(st, o.data)]
        if o is not None and o.kind == 'gather':
            cur = [(st, [])]
            for c in o.data:
                nxt = []
                for s, vs in cur:
                    for s2, r in self.await_(s, c, fr, node):
                        nxt.append((s2, vs + [r]))
                cur = nxt
            out = []
            for s, vs in cur:
                l = self.alloc(s, 'list')
                for x in vs:
                    self.op(s, l, 'add', x)
                out.append((s, l))
            return out
        st.events.append(('await', v, self.loc(fr, node)))
        return [(st, ('awaited', v) if v[0] != 'elem' else ('awaited', v))]

    def ev_Yield(self, e, st, fr):
        out = []
        if e.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(e.value, st, fr)
        for s, v in vals:
            out += self.emit_yield(s, v, fr, e)
        return out

    def emit_yield(self, st, v, fr, node):
        out = []
        if fr.on_yield is None:
            st.events.append(('yield', v, self.loc(fr, node)))
            return [(st, NONE)]
        for s, sig in fr.on_yield(st, v):
            if sig is None:
                out.append((s, NONE))
            else:
                self.raised[-1].append((s, ('gexit', fr.fid, sig)))
        return out

    def ev_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            def cb(s1, x):
                if fr.on_yield is None:
                    s1.events.append(('yield', x, self.loc(fr, e)))
                    return [(s1, None)]
                return fr.on_yield(s1, x)
            for s2, sig in self.iterate(s, v, cb, fr, e):
                if sig is None:
                    out.append((s2, NONE))
                elif sig[0] == 'raise':
                    self.raised[-1].append((s2, sig))
                elif sig[0] == 'chain':
                    self.raised[-1].append((s2, ('chain', sig[1])))
                else:
                    self.raised[-1].append((s2, ('gexit', fr.fid, sig)))
        return out

    def ev_JoinedStr(self, e, st, fr):
        cur = [(st, [])]
        for v in e.values:
            nxt = []
            for s, parts in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((s, parts + [C(v.value)]))
                else:
                    for s2, x in self.ev(v.value, s, fr):
                        if v.format_spec is not None or v.conversion not in (-1, 115):
                            x = ('fmt', x, ast.unparse(v.format_spec) if v.format_spec else '', v.conversion)
                        elif x[0] == 'str':
                            x = x[1]
                        nxt.append((s2, parts + [x]))
            cur = nxt
        return [(s, self.cat(parts)) for s, parts in cur]

    def ev_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def cat(self, parts):
        out = []
        for p in parts:
            if p[0] == 'str':
                p = p[1]
            if p[0] == 'cat':
                for q in p[1]:
                    out.append(q)
            else:
                out.append(p)
        res = []
        for p in out:
            if p[0] == 'c' and isinstance(p[2], (str, int, float)) and not isinstance(p[2], bool):
                t = p[2] if isinstance(p[2], str) else str(p[2])
                if res and res[-1][0] == 'c':
                    res[-1] = C(res[-1][2] + t)
                elif t:
                    res.append(C(t))
            else:
                res.append(p)
        if not res:
            return C('')
        if len(res) == 1 and res[0][0] == 'c':
            return res[0]
        return ('cat', tuple(res))

    def ev_Attribute(self, e, st, fr):
        r = self.p.resolve_expr(fr.mod, e) if self._static_root(e, st, fr) else None
        if r is not None:
            return [(st, self.from_res(r, fr, st, e))]
        out = []
        for s, b in self.ev(e.value, st, fr):
            out += self.getattr(s, b, self.mangle(e.attr, fr), fr, e)
        return out

    def _static_root(self, e, st, fr):
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name):
            return False
        fid = fr.fid
        n = self.mangle(e.id, fr)
        while fid is not None and fid in st.frames:
            if n in st.frames[fid]:
                return False
            fid = st.frames[fid].get('@up')
        r = self.p.resolve_name(fr.mod, e.id)
        return r is not None and r[0] in ('mod', 'ext')

    def ev_index(self, e, st, fr):
        if isinstance(e, ast.Slice):
            cur = [(st, [])]
            for x in (e.lower, e.upper, e.step):
                nxt = []
                for s, vs in cur:
                    if x is None:
                        nxt.append((s, vs + [NONE]))
                    else:
                        nxt += [(s2, vs + [v]) for s2, v in self.ev(x, s, fr)]
                cur = nxt
            return [(s, ('slice',) + tuple(vs)) for s, vs in cur]
        return self.ev(e, st, fr)

    ev_Slice = ev_index

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            if b[0] == 'ext' or (b[0] == 'cls'):
                out.append((s, b))      # generic alias
                continue
            for s2, k in self.ev_index(e.slice, s, fr):
                out += self.getitem(s2, b, k, fr, e)
        return out

    def getitem(self, st, b, k, fr, node):
        if b == NONE and self.unroll:
            self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'None[]'), self.loc(fr, node))))
            return []
        if k[0] == 'slice':
            return [(st, self.slice_(st, b, k, fr, node))]
        o = self.hobj(st, b)
        if b[0] in ('tup', 'list') or (o is not None and o.kind == 'list'):
            items = self.known_items(st, b)
            if items is not None and is_c(k) and isinstance(k[2], int):
                if -len(items) <= k[2] < len(items):
                    return [(st, items[k[2]])]
                self.raised[-1].append((st, ('raise', ('exc', 'IndexError', ''), self.loc(fr, node))))
                return []
            if items is None and is_c(k) and isinstance(k[2], int):
                c = list(b[1]) if b[0] in ('tup', 'list') else self.contents(st, b)
                if c is not None:
                    i = k[2]
                    seg = c[:i + 1] if i >= 0 else c[i:]
                    if not any(x[0] in ('each', 'splice', 'rev') for x in seg) and len(seg) == (i + 1 if i >= 0 else -i):
                        return [(st, c[i])]
            return [(st, ('item', self.freeze(st, b), k, 0))]
        if is_c(b) and isinstance(b[2], (str, bytes)) and is_c(k) and isinstance(k[2], int):
            if -len(b[2]) <= k[2] < len(b[2]):
                return [(st, C(b[2][k[2]]))]
            self.raised[-1].append((st, ('raise', ('exc', 'IndexError', ''), self.loc(fr, node))))
            return []
        if b[0] == 'dict':
            d = dict(b[1])
            if k in d:
                return [(st, d[k])]
            if is_c(k) or k[0] == 'enum':
                for kk, vv in b[1]:
                    if self.eq(st, kk, k):
                        return [(st, vv)]
                if all(self.eq(st, kk, k) is False for kk, _ in b[1]):
                    self.raised[-1].append((st, ('raise', ('exc', 'KeyError', ''), self.loc(fr, node))))
                    return []
            return [(st, ('item', b, k, 0))]
        t = self.type_of(st, b)
        if isinstance(t, ClassInfo):
            f = self.p.find(t, '__getitem__')
            if f is not None and not self.overridden(t, f, '__getitem__', st, b):
                return self.call_fi(f, b, [k], {}, st, node, fr)
            if f is not None:
                return [(st, ('mcall', b, '__getitem__', (k,), 0))]
        if o is not None and o.kind == 'dict' or self.is_map(st, b):
            return self.map_get(st, b, k, fr, node)
        if self.implicit or any(h in ('KeyError', 'LookupError', 'IndexError', 'Exception', 'BaseException') for h in self.handlers):
            return self.map_get(st, b, k, fr, node)
        return [(st, self.lookup(st, b, k))]

    def is_map(self, st, b):
        return self.type_of(st, b) == 'dict' or b in st.ops

    def map_get(self, st, b, k, fr, node):
        o = self.hobj(st, b)
        out = []
        handled = any(h in ('KeyError', 'LookupError', 'Exception', 'BaseException') for h in self.handlers)
        m, atom = self.member(st, b, k)
        if m is None and is_c(k) and isinstance(k[2], int) and not handled and o is None and b[0] in ('mcall', 'elem', 'sym', 'call', 'item') \
                and self.type_of(st, b) != 'dict':
            d = self.decide(st, atom)
            sp = [(st, d is not False)]         # a position of a sequence of unknown length
        elif m is None:
            if self.implicit or handled:
                sp = self.split(st, atom)
            else:
                d = self.decide(st, atom)
                sp = [(st, d)] if d is not None else [(st, True)]
                if d is None and not (o is not None and o.data and o.data[0] == 'default'):
                    self.assume(st, atom, True)
        else:
            sp = [(st, m)]
        for s, ok in sp:
            o = self.hobj(s, b)
            if o is not None and o.data and isinstance(o.data, tuple) and o.data[0] == 'default':
                if m is None and (atom is not None):
                    # default dict: present or created
                    d = self.decide(s, atom)
                    br = self.split(s, atom) if d is None else [(s, d)]
                else:
                    br = [(s, ok)]
                for s2, ok2 in br:
                    if ok2:
                        out.append((s2, self.lookup(s2, b, k)))
                    else:
                        for s3, v in self.call(o.data[1], [], {}, s2, fr, node):
                            self.op(s3, b, 'set', k, v)
                            out.append((s3, v))
                continue
            if ok:
                out.append((s, self.lookup(s, b, k)))
            else:
                self.raised[-1].append((s, ('raise', ('exc', 'KeyError', ''), self.loc(fr, node))))
        return out

    def setitem(self, st, b, k, v, fr, node):
        o = self.hobj(st, b)
        t = self.type_of(st, b)
        if isinstance(t, ClassInfo) and not (o is not None and o.kind in ('list', 'dict')):
            f = self.p.find(t, '__setitem__')
            if f is not None:
                return [s for s, _ in self.call_fi(f, b, [k, v], {}, st, node, fr)]
        if o is not None and o.kind == 'list':
            items = self.known_items(st, b)
            if items is not None and is_c(k) and isinstance(k[2], int) and -len(items) <= k[2] < len(items):
                items[k[2]] = v
                st.ops[b] = tuple(('add', x) for x in items)
                return [st]
            new = self.known_items(st, v)
            if k[0] == 'slice' and items is not None and new is not None and all(x[0] == 'c' for x in k[1:]):
                items[slice(k[1][2], k[2][2], k[3][2])] = new
                st.ops[b] = tuple(('add', x) for x in items)
                return [st]
            if k[0] == 'slice' and k[1:] == (NONE, NONE, NONE):
                self.op(st, b, 'clear')
                return self.extend(st, b, v, fr, node)
        self.op(st, b, 'set', k, v)
        st.events.append(('setitem', b, k, v, self.loc(fr, node)))
        return [st]

    def found(self, st, x, tag):
        """children of an element with a tag, if that is decided"""
        out = []
        for c in self.known_items(st, x) or ():
            o = self.hobj(st, c)
            if o is None or o.kind != 'xml' or not is_c(o.fields['tag']):
                return None
            if tag in ('*', o.fields['tag'][2]):
                out.append(c)
        return out if self.known_items(st, x) is not None else None

    def current(self, st, n):
        """what a length is the length of, unless that has changed since"""
        of = n[1]
        if of[0] == 'now':
            return of[1] if len(st.ops.get(of[1], ())) == of[2] else None
        return of

    def const_len(self, st, x):
        if isinstance(x, tuple) and x and x[0] == 'len' and x[1][0] != 'now':
            items = self.known_items(st, x[1])
            return len(items) if items is not None else None
        return None

    def slice_(self, st, b, k, fr, node):
        items = self.known_items(st, b)
        k = k[:1] + tuple(C(self.const_len(st, x)) if self.const_len(st, x) is not None else x for x in k[1:])
        lo, hi, step = k[1:]
        if items is not None and all(x[0] == 'c' for x in (lo, hi, step)):
            r = items[slice(lo[2], hi[2], step[2])]
            if b[0] == 'tup':
                return ('tup', tuple(r))
            l = self.alloc(st, 'list', node=node)
            for x in r:
                self.op(st, l, 'add', x)
            return l
        fz = self.freeze(st, b)
        if is_c(step, -1) and lo == NONE and hi == NONE:
            return self.reverse_of(st, b, fz)
        if b[0] == 'c' and all(x[0] == 'c' for x in (lo, hi, step)):
            return C(b[2][slice(lo[2], hi[2], step[2])])
        if lo == NONE and hi == NONE and step == NONE:
            l = self.alloc(st, 'list', node=node)
            self.op(st, l, 'splice', fz)
            return l
        c = None
        if fz[0] == 'list' and is_c(lo) and isinstance(lo[2], int) and lo[2] >= 0 and hi == NONE and step == NONE:
            seg = list(fz[1])
            if not any(x[0] in ('each', 'splice', 'rev') for x in seg[:lo[2]]) and len(seg) >= lo[2]:
                c = seg[lo[2]:]
        if c is not None:
            l = self.alloc(st, 'list', node=node)
            for x in c:
                if x[0] == 'each':
                    self.op(st, l, 'splice', ('list', (x,)))
                else:
                    self.op(st, l, 'add', x)
            return l
        return ('sliceof', fz, lo, hi, step)

    def reverse_of(self, st, b, fz):
        if fz[0] == 'rev':
            return fz[1]
        if fz[0] in ('list', 'tup'):
            items = []
            for x in reversed(fz[1]):
                if x[0] == 'rev':
                    items.append(x[1][1][0] if x[1][0] == 'list' and len(x[1][1]) == 1 else x)
                elif x[0] in ('each', 'splice'):
                    items.append(('rev', ('list', (x,))))
                else:
                    items.append(x)
            return ('list', tuple(items))
        return ('rev', fz)

    # --------- attributes
    def candidates(self, attr):
        if self._props is None:
            self._props = {}
            for c in self.p.all_classes():
                for n, f in c.methods.items():
                    self._props.setdefault(n, []).append(f)
        return self._props.get(attr, [])

    def overridden(self, t, f, name, st, b):
        """is the found method overridden in a strict subclass (unless the class is exact)?"""
        o = self.hobj(st, b)
        if (o is not None and o.kind == 'inst') or b in st.vers.get('exact', ()):
            return False
        if self.dispatch:
            d = self.dispatch(self, st, b, t, name, f)
            if d is not None:
                return d
        return any(name in s.methods and s.methods[name] is not f for s in self.p.subclasses.get(t, []))

    def getattr(self, st, b, attr, fr, node):
        k = b[0]
        if k == 'super':
            _, cls, recv, owner = b
            f = self.p.find_after(cls, owner, attr)
            if f is None:
                return [(st, ('bound', recv, 'object.' + attr))]
            if f.is_property:
                return self.call_fi(f, recv, [], {}, st, node, fr)
            return [(st, ('fn', f, recv))]
        if k == 'cls':
            v = self.class_attr(b[1], attr, st)
            if v is not None:
                if v[0] == 'fn' and v[1].is_classmethod:
                    return [(st, ('fn', v[1], b))]
                return [(st, v)]
            if attr == '__name__':
                return [(st, C(b[1].name))]
            return [(st, ('bound', b, attr))]
        if k == 'enum':
            if attr in ('value', '_value_'):
                return [(st, C(b[3]))] if isinstance(b[3], int) else [(st, ('attr', b, attr))]
            if attr == 'name':
                return [(st, C(b[2]))]
        if k in ('mod', 'ext'):
            if k == 'mod':
                m = self.p.modules.get(b[1])
                if m:
                    r = self.p.resolve_name(m, attr)
                    if r:
                        return [(st, self.from_res(r, fr, st, node))]
                if f"{b[1]}.{attr}" in self.p.modules:
                    return [(st, ('mod', f"{b[1]}.{attr}"))]
            return [(st, self.ext_const(f"{b[1]}.{attr}"))]
        o = self.hobj(st, b)
        if o is not None and o.kind in ('list', 'dict', 'set', 'queue', 'xml', 'iter', 'gen', 'coro', 'loop'):
            if o.kind == 'xml':
                if attr in ('text', 'tail', 'tag'):
                    return [(st, o.fields.get(attr, NONE))]
                if attr == 'attrib':
                    return [(st, o.fields['attrib'])]
            return [(st, ('bound', b, attr))]
        if k == 'lam' or k == 'fn':
            return [(st, ('attr', b, attr))]
        if b == NONE:
            self.raised[-1].append((st, ('raise', ('exc', 'AttributeError', f"None.{attr}"), self.loc(fr, node))))
            return []
        t = self.type_of(st, b)
        if isinstance(t, ClassInfo):
            f = self.p.find(t, attr)
            if f is not None:
                if f.is_property:
                    if self.overridden(t, f, attr, st, b):
                        return [(st, ('attr', b, attr))]
                    return self.getter(f, b, st, fr, node)
                if f.is_static:
                    return [(st, ('fn', f, None))]
                if self.overridden(t, f, attr, st, b):
                    return [(st, ('bound', b, attr))]
                return [(st, ('fn', f, b))]
            # subclasses may define it (declared type is only a bound)
            if not (o is not None and o.kind == 'inst') and b not in st.vers.get('exact', ()):
                cand = [s.methods[attr] for s in self.p.subclasses.get(t, []) if attr in s.methods]
                r = self.unique(cand)
                if r is not None:
                    if r.is_property:
                        return self.getter(r, b, st, fr, node)
                    return [(st, ('fn', r, b))]
                if cand:
                    return [(st, ('attr', b, attr) if cand[0].is_property else ('bound', b, attr))]
            if o is not None and o.kind == 'inst':
                if attr in o.fields:
                    return [(st, o.fields[attr])]
                ca = self.class_attr(t, attr, st)
                if ca is not None:
                    return [(st, ca)]
                if attr == '__class__':
                    return [(st, ('cls', o.cls))]
                if any(isinstance(k2, tuple) for k2 in self.p.mro(t)):
                    return [(st, ('f', b, attr, 0))]
                self.raised[-1].append((st, ('raise', ('exc', 'AttributeError', f"{t.name}.{attr}"), self.loc(fr, node))))
                return []
            ca = self.class_attr(t, attr, st)
            if ca is not None and (b, attr) not in st.fields:
                return [(st, ca if ca[0] != 'fn' else ('fn', ca[1], b))]
            return [(st, self.read_field(st, b, attr))]
        if (b, attr) in st.fields:
            return [(st, st.fields[(b, attr)])]
        if t in BUILTIN_TYPES or t == 'NoneType' or k in ('c', 'cat', 'join', 'list', 'tup', 'dict', 'view', 'range', 'rev'):
            return [(st, ('bound', b, attr))]
        cand = self.candidates(attr)
        if cand:
            r = self.unique(cand)
            if r is not None:
                if r.is_property:
                    return self.getter(r, b, st, fr, node)
                if r.is_static:
                    return [(st, ('fn', r, None))]
                if k not in ('elem', 'call', 'mcall', 'unk', 'item', 'awaited', 'ext') or len([c for c in cand if not c.is_abstract]) == 1:
                    if attr not in BUILTIN_METHODS and attr not in ('put', 'execute', 'depth', 'dim', 'edge', 'val', 'node', 'norm', 'setup'):
                        return [(st, ('fn', r, b))]
            elif all(c.is_property for c in cand):
                return [(st, ('attr', b, attr))]
            return [(st, ('bound', b, attr))]
        return [(st, ('attrx', b, attr) if k in ('unk',) else self.read_field(st, b, attr))]

    def getter(self, f, b, st, fr, node):
        c = self.contracts.get(f)
        r = c(self, st, b, [], {}, fr, node, f) if c is not None else None
        return r if r is not None else self.call_fi(f, b, [], {}, st, node, fr)

    def unique(self, cand):
        cand = [c for c in cand if not c.is_abstract]
        if not cand:
            return None
        said = [self._words(c) for c in cand]
        d = {ast.dump(ast.Module(body=b, type_ignores=[])) for b in said}
        if len(d) == 1 and len({c.is_property for c in cand}) == 1:
            if len(cand) > 1 and ('super' in next(iter(d)) or any(self._private(x) for x in said[0])):
                return None     # the same words, but not the same methods
            return cand[0]
        return None

    def _words(self, c):
        """the body of a method; where it only hands on to a helper of its own class, that of the helper"""
        for _ in range(4):
            b = [x for x in c.node.body if not self._doc(x)]
            v = b[0].value if len(b) == 1 and isinstance(b[0], ast.Return) else None
            me = c.node.args.args
            if not (isinstance(v, ast.Call) and not v.args and not v.keywords and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)
                    and len(me) == 1 and v.func.value.id == me[0].arg and v.func.attr.startswith('__') and c.cls is not None):
                return b
            h = c.cls.methods.get(c.cls._mangle(v.func.attr))
            if h is None or h.is_property or h.is_static or h.is_gen or h.node.decorator_list or len(h.node.args.args) != 1 or \
                    h.node.args.args[0].arg != me[0].arg or isinstance(h.node, ast.AsyncFunctionDef):
                return b
            c = h
        return b

    @staticmethod
    def _private(node):
        return any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__')
                   for x in ast.walk(node))

    @staticmethod
    def _doc(x):
        return isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)

    def read_field(self, st, b, attr):
        if (b, attr) in st.fields:
            return st.fields[(b, attr)]
        v = ('f', b, attr, 0)
        for (b2, a2), v2 in st.fields.items():
            if a2 == attr and b2 != b and self.eq(st, b2, b):
                return v2
        return v

    def setattr(self, st, b, attr, v, fr, node):
        o = self.hobj(st, b)
        if o is not None and o.kind == 'xml':
            st.own(b[1]).fields[attr] = v
            return [st]
        t = self.type_of(st, b)
        if isinstance(t, ClassInfo):
            f = self.p.find_setter(t, attr)
            if f is not None:
                return [s for s, _ in self.call_fi(f, b, [v], {}, st, node, fr)]
        elif o is None:
            cand = [c.setters[attr] for c in self.p.all_classes() if attr in c.setters]
            r = self.unique(cand)
            if r is not None:
                return [s for s, _ in self.call_fi(r, b, [v], {}, st, node, fr)]
        if o is not None and o.kind == 'inst':
            st.own(b[1]).fields[attr] = v
            st.events.append(('write', b, attr, v, self.loc(fr, node)))
            return [st]
        st.fields[(b, attr)] = v
        st.events.append(('write', b, attr, v, self.loc(fr, node)))
        return [st]

    # --------- operators
    def cond(self, e, st, fr):
        """evaluate as a condition -> [(st, bool)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            out, cur = [], [st]
            for v in e.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, fr):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.truth(v, s)
        return out

    def truth(self, v, st):
        k = v[0]
        if k == 'c':
            return [(st, bool(v[2]))]
        if k == 'b':
            return [(s, b == v[2]) for s, b in self.split(st, v[1])]
        if k == 'bin_in':
            return [(s, b == v[3]) for s, b in self.split_member(st, v[2], v[1])]
        if k == 'not':
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if k == 'conj':
            out, cur = [], [st]
            for x in v[1]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(x, s):
                        (nxt if b else out).append(s2)
                cur = nxt
            return [(s, not v[2]) for s in out] + [(s, v[2]) for s in cur]
        if k in ('enum',):
            return [(st, bool(v[3]))]
        if k in ('cls', 'fn', 'lam', 'bound', 'mod', 'ext'):
            return [(st, True)]
        if k in ('tup', 'list', 'dict'):
            if not any(x[0] in ('each', 'splice', 'rev') for x in v[1]):
                return [(st, len(v[1]) > 0)]
            if any(x[0] not in ('each', 'splice', 'rev') for x in v[1]):
                return [(st, True)]
            return [(s, not b) for s, b in self.split(st, ('empty', v))]
        o = self.hobj(st, v)
        if o is not None:
            if o.kind in ('list', 'dict', 'set', 'queue'):
                return [(s, not b) for s, b in self.split_empty(st, v)]
            return [(st, True)]
        if k == 'cat':
            if any(p[0] == 'c' for p in v[1]):
                return [(st, True)]
            return [(s, not b) for s, b in self.split(st, ('empty', v))]
        t = self.type_of(st, v)
        if isinstance(t, ClassInfo) and not self.p.find(t, '__bool__') and not self.p.find(t, '__len__'):
            return [(s, not b) for s, b in self.split(st, ('is', v, NONE))]
        if t in ('str', 'bytes', 'list', 'dict', 'set', 'tuple'):
            if v in st.vers.get('nonnull', ()) or t == 'str':
                return [(s, not b) for s, b in self.split_empty(st, v)]
        if k == 'len' and self.current(st, v) is not None:
            return [(s, not b) for s, b in self.split_empty(st, self.current(st, v))]
        return self.split(st, ('truthy', v))

    def split_empty(self, st, v):
        o = self.hobj(st, v)
        if o is not None and o.kind in ('list', 'dict', 'set', 'queue'):
            ops = st.ops.get(v, ())
            c = self.contents(st, v) if o.kind in ('list', 'queue') else None
            if c is not None and o.kind == 'list':
                if not c:
                    return [(st, True)]
                if any(x[0] not in ('each', 'splice', 'rev') for x in c):
                    return [(st, False)]
                return self.split(st, ('empty', ('list', tuple(c))))
            if o.data != 'shared' and not ops:
                return [(st, True)]
            if all(op[0] in ('set', 'sadd', 'put', 'add') for op in ops) and ops:
                return [(st, False)]
            return self.split(st, ('empty', v, len(ops)))
        if v[0] in ('tup', 'list', 'dict'):
            return [(s, not b) for s, b in self.truth(v, st)]
        if v in st.ops:
            return self.split(st, ('empty', v, len(st.ops[v])))
        return self.split(st, ('empty', v))

    def ev_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        out, cur = [], [(st, None)]
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(x, s, fr):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b == is_and:
                            nxt.append((s3, v))
                        else:
                            out.append((s3, v if v[0] not in ('b', 'bin_in') else C(b)))
            cur = nxt
        return out

    def ev_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(s, C(b)) for s, b in self.cond(e, st, fr)]
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if is_c(v):
                try:
                    out.append((s, C(-v[2] if isinstance(e.op, ast.USub) else ~v[2] if isinstance(e.op, ast.Invert) else +v[2])))
                    continue
                except Exception:
                    pass
            out.append((s, ('op', 'neg', v) if isinstance(e.op, ast.USub) else ('op', type(e.op).__name__, v)))
        return out

    def ev_Compare(self, e, st, fr):
        if len(e.ops) == 1:
            out = []
            for s, a in self.ev(e.left, st, fr):
                for s2, b in self.ev(e.comparators[0], s, fr):
                    out.append((s2, self.compare(s2, e.ops[0], a, b, fr, e)))
            return out
        # chained
        out = []
        cur = []
        for s, a in self.ev(e.left, st, fr):
            cur.append((s, a))
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for s, a in cur:
                for s2, b in self.ev(c, s, fr):
                    for s3, t in self.truth(self.compare(s2, op, a, b, fr, e), s2):
                        if t:
                            nxt.append((s3, b))
                        else:
                            out.append((s3, FALSE))
            cur = nxt
        return out + [(s, TRUE) for s, _ in cur]

    def compare(self, st, op, a, b, fr, node):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            pol = t is ast.Is
            atom = self.norm_atom(('is', a, b))
            d = self.decide(st, atom)
            return C(d == pol) if d is not None else ('b', atom, pol)
        if t in (ast.Eq, ast.NotEq):
            pol = t is ast.Eq
            if a == NONE or b == NONE:
                atom = self.norm_atom(('is', a, b))
                d = self.decide(st, atom)
                return C(d == pol) if d is not None else ('b', atom, pol)
            for x, y in ((a, b), (b, a)):
                if y == C('') or y == C(b'') or y == ('tup', ()) or y == ('list', ()) or (self.kind(st, y) == 'list' and not st.ops.get(y)):
                    return self.empty_value(st, x, pol)
                if is_c(y, 0) and x[0] == 'len' and self.current(st, x) is not None:
                    return self.empty_value(st, self.current(st, x), pol)
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if contains(fa, lambda x: x[0] == 'o') or contains(fb, lambda x: x[0] == 'o'):
                d = self.eq(st, a, b)
            else:
                a, b = fa, fb
                d = self.eq(st, a, b)
            if d is not None:
                return C(d == pol)
            if a[0] == b[0] and a[0] in ('tup', 'list') and len(a[1]) == len(b[1]) and a[1] and \
                    not any(x[0] in ('each', 'splice', 'rev') for x in a[1] + b[1]):
                return ('conj', tuple(self.compare(st, ast.Eq(), x, y, fr, node) for x, y in zip(a[1], b[1])), pol)
            ta, tb = self.type_of(st, a), self.type_of(st, b)
            if isinstance(ta, ClassInfo) and isinstance(tb, ClassInfo) and not self.p.find(ta, '__eq__') and not self.p.find(tb, '__eq__') and not self.p.is_enum(ta):
                atom = self.norm_atom(('is', a, b))      # default object equality is identity
            else:
                atom = self.norm_atom(('eq', a, b))
            d = self.decide(st, atom)
            return C(d == pol) if d is not None else ('b', atom, pol)
        if t in (ast.In, ast.NotIn):
            pol = t is ast.In
            if b[0] == 'view':
                b = b[2] if b[1] == 'keys' else b
            if b[0] == 'dict':
                b = ('tup', tuple(k for k, _ in b[1]))
            o = self.hobj(st, b)
            if o is None and b[0] not in ('tup', 'list'):
                tt = self.type_of(st, b)
                if tt == 'str' or b[0] == 'c':
                    if is_c(a) and is_c(b):
                        try:
                            return C((a[2] in b[2]) == pol)
                        except Exception:
                            pass
                    return ('b', ('in', a, b, 0), pol)
            return ('bin_in', a, b, pol)
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if is_c(a) and is_c(b):
            try:
                return C({'<': a[2] < b[2], '<=': a[2] <= b[2], '>': a[2] > b[2], '>=': a[2] >= b[2]}[sym])
            except TypeError:
                pass
        if a[0] == 'c' and b[0] == 'len':
            a, b = b, a
            sym = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[sym]
        if a[0] == 'len' and is_c(b) and isinstance(b[2], int):
            n = b[2]
            of = self.current(st, a)
            if (sym, n) in (('>', 0), ('>=', 1)) and of is not None:
                return self.empty_value(st, of, False)
            if (sym, n) in (('<', 1), ('<=', 0)) and of is not None:
                return self.empty_value(st, of, True)
        # normalise to a < b / a <= b
        if sym == '>':
            a, b, sym = b, a, '<'
        elif sym == '>=':
            a, b, sym = b, a, '<='
        if sym == '<=':
            atom, pol = ('lt', b, a), False
        else:
            atom, pol = ('lt', a, b), True
        atom = ('lt',) + self.lin(atom[1], atom[2])
        d = self.decide(st, atom)
        return C(d == pol) if d is not None else ('b', atom, pol)

    def lin(self, a, b):
        """a < b with constants moved to one side: integers only for +const forms"""
        return (a, b)

    def empty_value(self, st, v, pol):
        o = self.hobj(st, v)
        if o is not None and o.kind in ('list', 'dict', 'set', 'queue'):
            ops = st.ops.get(v, ())
            c = self.contents(st, v) if o.kind == 'list' else None
            if c is not None:
                if not c:
                    return C(pol)
                if any(x[0] not in ('each', 'splice', 'rev') for x in c):
                    return C(not pol)
                return ('b', ('empty', ('list', tuple(c))), pol)
            if not ops and o.data != 'shared':
                return C(pol)
            if ops and all(op[0] in ('set', 'sadd', 'put', 'add') for op in ops):
                return C(not pol)
            return ('b', ('empty', v, len(ops)), pol)
        if v[0] in ('tup', 'list', 'dict'):
            if not v[1]:
                return C(pol)
            if any(x[0] not in ('each', 'splice', 'rev') for x in v[1]):
                return C(not pol)
        if v in st.ops:
            atom = ('empty', v, len(st.ops[v]))
        else:
            atom = ('empty', v)
        d = self.decide(st, atom)
        return C(d == pol) if d is not None else ('b', atom, pol)

    def fold(self, op, a, b):
        try:
            x, y = a[2], b[2]
            r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y,
                 ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y, ast.Pow: lambda: x ** y}[op]()
            return C(r)
        except Exception:
            return None

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, a in self.ev(e.left, st, fr):
            for s2, b in self.ev(e.right, s, fr):
                out += self.binop(e.op, a, b, s2, fr, e)
        return out

    def binop(self, op, a, b, st, fr, node):
        t = type(op)
        if a[0] == 'c' and b[0] == 'c' and t is not ast.Mod:
            r = self.fold(t, a, b)
            if r is not None:
                return [(st, r)]
        if t is ast.Add:
            for x in (a, b):
                if (x[0] == 'c' and isinstance(x[2], str)) or x[0] in ('cat', 'join', 'str') or self.type_of(st, x) == 'str':
                    return [(st, self.cat([a, b]))]
            ka, kb = self.kind(st, a), self.kind(st, b)
            if ka == 'list' or kb == 'list' or a[0] == 'list' or b[0] == 'list':
                l = self.alloc(st, 'list', node=node)
                out = []
                for s in self.extend(st, l, a, fr, node):
                    for s2 in self.extend(s, l, b, fr, node):
                        out.append((s2, l))
                return out
            if a[0] == 'tup' and b[0] == 'tup':
                return [(st, ('tup', a[1] + b[1]))]
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                items = self.known_items(st, x)
                if items is not None and self.kind(st, x) == 'list' or x[0] == 'list' and items is not None:
                    if is_c(y) and isinstance(y[2], int):
                        l = self.alloc(st, 'list')
                        for _ in range(min(y[2], 50)):
                            for i in items:
                                self.op(st, l, 'add', i)
                        return [(st, l)]
                    if len(items) == 1:
                        return [(st, ('repeat', y, items[0]))]
        if self.unroll and t in (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor) and self.kind(st, a) == 'set' and self.kind(st, b) == 'set':
            c = self.set_algebra(st, a, {ast.Sub: 'difference', ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.BitXor: 'symmetric_difference'}[t], [b], fr, node)
            if c is not None:
                return [(st, c)]
        if t is ast.BitOr and a[0] in ('cls', 'tup', 'ext') and b[0] in ('cls', 'tup', 'ext'):
            fl = (a[1] if a[0] == 'tup' else (a,)) + (b[1] if b[0] == 'tup' else (b,))
            return [(st, ('tup', fl))]
        name = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
                ast.Pow: '**', ast.MatMult: '@', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}.get(t, t.__name__)
        if t is ast.Mod and a[0] == 'c' and isinstance(a[2], str):
            parts = re.split('%[sdi]', a[2])
            vals = list(b[1]) if b[0] == 'tup' else [b]
            if len(parts) == len(vals) + 1 and '%' not in ''.join(parts):
                seq = [C(parts[0])]
                for v, p in zip(vals, parts[1:]):
                    seq += [v, C(p)]
                return [(st, self.cat(seq))]
        return [(st, ('op', name, self.freeze(st, a), self.freeze(st, b)))]

    def ev_ListComp(self, e, st, fr):
        l = self.alloc(st, 'list', node=e)

        def emit(s, v):
            self.op(s, l, 'add', v)
            return [(s, None)]
        return self.finish_comp(self.comp(e.generators, e.elt, st, fr, emit, e), l)

    def ev_SetComp(self, e, st, fr):
        l = self.alloc(st, 'set', node=e)

        def emit(s, v):
            self.op(s, l, 'sadd', v)
            return [(s, None)]
        return self.finish_comp(self.comp(e.generators, e.elt, st, fr, emit, e), l)

    def ev_DictComp(self, e, st, fr):
        l = self.alloc(st, 'dict', node=e)

        def emit(s, kv):
            self.op(s, l, 'set', kv[0], kv[1])
            return [(s, None)]
        return self.finish_comp(self.comp(e.generators, (e.key, e.value), st, fr, emit, e), l)

    def finish_comp(self, res, l):
        out = []
        for s, sig in res:
            if sig is None:
                out.append((s, l))
            else:
                self.raised[-1].append((s, sig))
        return out

    def ev_GeneratorExp(self, e, st, fr):
        out = []
        for s, first in self.ev(e.generators[0].iter, st, fr):
            cid = self.new()
            self.closures[cid] = (e, fr.fid, fr.mod, fr.cls, fr.fi)
            out.append((s, self.alloc(s, 'iter', data=('genexp', cid, first), node=e)))
        return out

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # --------- calls
    def ev_Call(self, e, st, fr):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            v = self.super_of(st, fr)
            return [(st, v)]
        for s, f in self.ev(e.func, st, fr):
            for s2, args in self.ev_seq(e.args, s, fr):
                cur = [(s2, {})]
                for kw in e.keywords:
                    nxt = []
                    for s3, kws in cur:
                        for s4, v in self.ev(kw.value, s3, fr):
                            d = dict(kws)
                            if kw.arg is None:
                                fz = self.freeze(s4, v)
                                if fz[0] == 'dict':
                                    for k, x in fz[1]:
                                        if is_c(k):
                                            d[k[2]] = x
                                else:
                                    d['**'] = v
                            else:
                                d[kw.arg] = v
                            nxt.append((s4, d))
                    cur = nxt
                for s3, kws in cur:
                    out += self.call(f, args, kws, s3, fr, e)
        return out

    def super_of(self, st, fr):
        fid = fr.fid
        fi = fr.fi
        recv = fr.recv
        cls = fr.cls
        if recv is None and fi is not None and fi.node.args.args:
            recv = st.frames[fid].get(fi.node.args.args[0].arg)
        t = self.type_of(st, recv) if recv is not None else None
        o = self.hobj(st, recv) if recv is not None else None
        dyn = o.cls if o is not None and o.kind == 'inst' else t if isinstance(t, ClassInfo) else cls
        return ('super', dyn, recv, cls)

    def call(self, f, args, kwargs, st, fr, node):
        k = f[0]
        if k == 'fn':
            fi, recv = f[1], f[2]
            c = self.contracts.get(fi) or (self.contracts.get('fn:' + fi.name) if recv is not None else None)
            if c is not None:
                r = c(self, st, recv, args, kwargs, fr, node, fi)
                if r is not None:
                    return r
            if recv is not None and fi.is_static:
                recv = None
            return self.call_fi(fi, recv, args, kwargs, st, node, fr)
        if k == 'lam':
            return self.call_closure(f, args, kwargs, st, fr, node)
        if k == 'cls':
            return self.instantiate(f[1], args, kwargs, st, fr, node)
        if k == 'ext':
            return self.call_ext(f[1], args, kwargs, st, fr, node)
        if k == 'bound':
            return self.call_bound(f[1], f[2], args, kwargs, st, fr, node)
        if k == 'super':
            return [(st, f)]
        o = self.hobj(st, f)
        if o is not None and o.kind == 'partial':
            g, a, kw = o.data
            return self.call(g, list(a) + list(args), {**kw, **kwargs}, st, fr, node)
        if o is not None and o.kind == 'inst':
            m = self.p.find(o.cls, '__call__')
            if m:
                return self.call_fi(m, f, args, kwargs, st, node, fr)
        c = self.contracts.get('value')
        if c is not None:
            r = c(self, st, f, args, kwargs, fr, node)
            if r is not None:
                return r
        v = ('call', f, tuple(self.freeze(st, a) for a in args), tuple(sorted((n, self.freeze(st, x)) for n, x in kwargs.items())), self.new())
        st.events.append(('vcall', f, tuple(self.freeze(st, a) for a in args), v, self.loc(fr, node)))
        return [(st, v)]

    def call_closure(self, f, args, kwargs, st, fr, node):
        n, fid, mod, cls, fi = self.closures[f[1]]
        if isinstance(n, FuncInfo):
            b = self.bind(n, args, kwargs, fr, st, node)
            if b is None:
                self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'bad arguments'), self.loc(fr, node))))
                return []
            env = b[0]
            env['@up'] = fid
            if n.is_gen:
                n2 = FuncInfo(mod, None, n.node)
                n2.cls = None
                return [(st, self.alloc(st, 'gen', data=(n, env, None, cls), node=node))]
            if n.is_async:
                return [(st, self.alloc(st, 'coro', data=(n, env, None, cls), node=node))]
            return self.run_body(n, env, None, st, node, fr)
        fi2 = FuncInfo.__new__(FuncInfo)
        fi2.mod, fi2.cls, fi2.node, fi2.outer, fi2.name = mod, cls, n, fi, '<lambda>'
        fi2.decorators, fi2.is_property, fi2.is_static, fi2.is_gen, fi2.is_async = [], False, True, False, False
        b = self.bind(fi2, args, kwargs, fr, st, node)
        if b is None:
            self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'bad lambda arguments'), self.loc(fr, node))))
            return []
        env = b[0]
        env['@up'] = fid
        nf = self.new()
        st.frames[nf] = env
        f2 = Frame(nf, mod, cls, fi, None, None)
        if fi is not None and fid in st.frames and fi.node.args.args if fi is not None else False:
            f2.recv = None
        return self.ev(n.body, st, f2)

    def instantiate(self, c, args, kwargs, st, fr, node):
        if self.p.is_enum(c):
            if len(args) == 1:
                a = args[0]
                if a[0] == 'enum':
                    return [(st, a)]
                if is_c(a):
                    for k in c.class_attrs:
                        v = self.class_attr(c, k)
                        if v[3] == a[2]:
                            return [(st, v)]
                    self.raised[-1].append((st, ('raise', ('exc', 'ValueError', 'enum'), self.loc(fr, node))))
                    return []
                return [(st, ('toenum', c.key, a))]
        con = self.contracts.get('new')
        if con:
            r = con(self, st, c, args, kwargs, fr, node)
            if r is not None:
                return r
        v = self.alloc(st, 'inst', c, node=node)
        st.events.append(('new', v, c, tuple(self.freeze(st, a) for a in args),
                          tuple(sorted((n, self.freeze(st, x)) for n, x in kwargs.items())), self.loc(fr, node)))
        init = self.p.find(c, '__init__')
        if init is None:
            return [(st, v)]
        return [(s, v) for s, _ in self.call_fi(init, v, args, kwargs, st, node, fr)]

    def exact_items(self, st, v):
        """entries of a dict whose content is known, else None"""
        if v[0] == 'dict':
            return list(v[1])
        o = self.hobj(st, v)
        if o is None or o.kind != 'dict' or not self.is_fresh(st, v) or o.data is not None:
            return None
        out = []
        for op in st.ops.get(v, ()):
            if op[0] == 'clear':
                out = []
                continue
            if op[0] not in ('set', 'del'):
                return None
            es = [self.eq(st, k, op[1]) for k, _ in out]
            if None in es:
                return None
            if op[0] == 'del':
                out = [x for x, e in zip(out, es) if not e]
            elif True in es:
                out = [(k, op[2]) if e else (k, x) for (k, x), e in zip(out, es)]
            else:
                out.append((op[1], op[2]))
        return out

    def members(self, st, v):
        """members of a set whose content is known (in the order they were added), else None"""
        o = self.hobj(st, v)
        if o is None or o.kind != 'set' or not self.is_fresh(st, v) or o.data is not None:
            return None
        out = []
        for op in st.ops.get(v, ()):
            if op[0] == 'clear':
                out = []
                continue
            if op[0] not in ('sadd', 'add', 'del'):
                return None
            es = [self.eq(st, x, op[1]) for x in out]
            if None in es:
                return None
            if op[0] == 'del':
                out = [x for x, e in zip(out, es) if not e]
            elif True not in es:
                out.append(op[1])
        return out

    def settled(self, st, v):
        """the members of a set of a few arbitrary values, by cases of which are equal: [(state, members)] or None"""
        m = self.members(st, v)
        if m is not None:
            return [(st, m)]
        o = self.hobj(st, v)
        ops = st.ops.get(v, ())
        if o is None or not self.is_fresh(st, v) or o.data is not None or len(ops) > 4 or any(x[0] not in ('sadd', 'add') or x[1][0] not in ('sym', 'c') for x in ops):
            return None
        cur = [(st, [])]
        for _, x in ops:
            nxt = []
            for s, out in cur:
                open_ = [s]
                for y in out:
                    rest = []
                    for z in open_:
                        e = self.eq(z, x, y)
                        for z2, b in [(z, e)] if e is not None else self.split(z, ('eq', x, y)):
                            if b:
                                nxt.append((z2, list(out)))
                            else:
                                rest.append(z2)
                    open_ = rest
                nxt += [(z, out + [x]) for z in open_]
            cur = nxt
        return cur

    def set_algebra(self, st, a, how, args, fr, node):
        """union, difference, ... of sets with known members, else None"""
        ours = self.members(st, a)
        if ours is None:
            return None
        theirs = []
        for x in args:
            m = self.members(st, x)
            if m is None and (x[0] in ('tup', 'list') or self.kind(st, x) == 'list'):
                m = self.known_items(st, x)
            if m is None:
                return None
            theirs.append(m)
        for m in theirs:
            es = [[self.eq(st, x, y) for y in m] for x in ours]
            if any(None in r for r in es):
                return None
            both = [x for x, r in zip(ours, es) if True in r]
            rest = [y for j, y in enumerate(m) if not any(r[j] for r in es)]
            only = [x for x in ours if x not in both]
            ours = {'union': ours + rest, 'difference': only, 'intersection': both, 'symmetric_difference': only + rest}[how]
        c = self.alloc(st, 'set', node=node)
        for x in ours:
            self.op(st, c, 'sadd', x)
        return c

    def extend(self, st, lst, v, fr, node):
        """append every element of v -> [st]"""
        items = self.known_items(st, v)
        if items is not None:
            for x in items:
                self.op(st, lst, 'add', x)
            return [st]
        if v[0] == 'repeat':
            self.op(st, lst, 'splice', v)
            return [st]

        def cb(s, x):
            self.op(s, lst, 'add', x)
            return [(s, None)]
        out = []
        for s, sig in self.iterate(st, v, cb, fr, node):
            if sig is None:
                out.append(s)
            else:
                self.raised[-1].append((s, sig))
        return out

    def to_list(self, st, args, fr, node, kind='list'):
        l = self.alloc(st, kind, node=node)
        if not args:
            return [(st, l)]
        v = args[0]
        if kind == 'list':
            # a copy of an opaque sequence
            if v[0] in ('sym', 'f', 'item', 'sliceof', 'call', 'mcall', 'attr', 'awaited', 'op') and not (v in st.ops):
                t = self.type_of(st, v)
                if not (isinstance(t, ClassInfo) and self.p.find(t, '__iter__')) and t != 'dict':
                    if v[0] in ('mcall', 'call'):
                        st.events.append(('consume', v, self.loc(fr, node)))
                    self.op(st, l, 'splice', v)
                    return [(st, l)]
            return [(s, l) for s in self.extend(st, l, v, fr, node)]

        def cb(s, x):
            self.op(s, l, 'sadd', x)
            return [(s, None)]
        out = []
        for s, sig in self.iterate(st, v, cb, fr, node):
            if sig is None:
                out.append((s, l))
            else:
                self.raised[-1].append((s, sig))
        return out

    def fargs(self, st, args):
        return tuple(self.freeze(st, a) for a in args)

    def call_ext(self, name, args, kwargs, st, fr, node):
        h = self.contracts.get('ext:' + name)
        if h is not None:
            r = h(self, st, args, kwargs, fr, node)
            if r is not None:
                return r
        n = name
        if n in QUEUE_CTORS:
            q = self.alloc(st, 'queue', data=QUEUE_CTORS[n], node=node)
            if n.startswith('asyncio.'):
                self.async_queues.add(q)
            if QUEUE_CTORS[n] == 'deque':
                if args and not (self.known_items(st, args[0]) == []):
                    outs = []
                    for s in self.extend(st, q, args[0], fr, node):
                        outs.append((s, q))
                    if kwargs.get('maxlen', NONE) != NONE or (len(args) > 1 and args[1] != NONE):
                        for s, _ in outs:
                            s.events.append(('bounded', q, self.loc(fr, node)))
                    return outs
                if kwargs.get('maxlen', NONE) != NONE:
                    st.events.append(('bounded', q, self.loc(fr, node)))
            elif (args and not is_c(args[0], 0)) or ('maxsize' in kwargs and not is_c(kwargs['maxsize'], 0)):
                st.events.append(('bounded', q, self.loc(fr, node)))
            return [(st, q)]
        if n == 'isinstance':
            return self.call_isinstance(st, args[0], args[1], fr, node)
        if n == 'len':
            v = args[0]
            items = self.known_items(st, v)
            if items is not None:
                return [(st, C(len(items)))]
            if is_c(v) and hasattr(v[2], '__len__'):
                return [(st, C(len(v[2])))]
            if self.unroll and self.kind(st, v) == 'set':
                r = self.settled(st, v)
                if r is not None:
                    return [(s, C(len(m))) for s, m in r]
            if self.kind(st, v) == 'dict':
                known = self.exact_items(st, v)
                if known is not None:
                    return [(st, C(len(known)))]
            if self.kind(st, v) in ('dict', 'set') and st.ops.get(v):
                return [(st, ('len', ('now', v, len(st.ops[v]))))]       # as many as there are now, not as later
            if self.kind(st, v) in ('dict', 'set', 'queue'):
                return [(st, ('len', v))]
            return [(st, ('len', self.freeze(st, v)))]
        if n == 'list':
            return self.to_list(st, args, fr, node)
        if n == 'tuple':
            if not args:
                return [(st, ('tup', ()))]
            out = []
            for s, l in self.to_list(st, args, fr, node):
                fz = self.freeze(s, l)
                out.append((s, ('tup', fz[1]) if fz[0] == 'list' else fz))
            return out
        if n in ('set', 'frozenset'):
            return self.to_list(st, args, fr, node, 'set')
        if n == 'dict':
            if not args:
                d = self.alloc(st, 'dict', node=node)
                for k, v in kwargs.items():
                    self.op(st, d, 'set', C(k), v)
                return [(st, d)]
            d = self.alloc(st, 'dict', node=node)
            src = args[0]
            if src[0] == 'dict':
                for k, v in src[1]:
                    self.op(st, d, 'set', k, v)
                return [(st, d)]
            if self.kind(st, src) == 'dict' or self.type_of(st, src) == 'dict' or src[0] in ('sym', 'f'):
                ops = st.ops.get(src, ())
                if self.kind(st, src) == 'dict':
                    st.ops[d] = ops
                else:
                    self.op(st, d, 'update', src)
                return [(st, d)]

            def cb(s, x):
                if x[0] == 'tup' and len(x[1]) == 2:
                    self.op(s, d, 'set', x[1][0], x[1][1])
                else:
                    self.op(s, d, 'set', ('item', x, C(0), 0), ('item', x, C(1), 0))
                return [(s, None)]
            return self.finish_comp(self.iterate(st, src, cb, fr, node), d)
        if n == 'dict.fromkeys' and 1 <= len(args) <= 2:
            d = self.alloc(st, 'dict', node=node)
            fill = args[1] if len(args) == 2 else C(None)

            def cb(s, x):
                self.op(s, d, 'set', x, fill)
                return [(s, None)]
            return self.finish_comp(self.iterate(st, args[0], cb, fr, node), d)
        if n in ('filter', 'itertools.filterfalse') and len(args) == 2:
            return [(st, self.alloc(st, 'iter', data=('filter', args[0], args[1]), node=node))]
        if n == 'map' and len(args) >= 2:
            return [(st, self.alloc(st, 'iter', data=('map', args[0], tuple(args[1:])), node=node))]
        if n == 'zip':
            return [(st, self.alloc(st, 'iter', data=('zip', tuple(args)), node=node))]
        if n == 'itertools.repeat':
            if len(args) == 1:
                return [(st, self.alloc(st, 'iter', data=('repeat', args[0]), node=node))]
            return [(st, ('repeat', args[1], args[0]))]
        if n in ('itertools.chain',):
            return [(st, self.alloc(st, 'iter', data=('chain', tuple(args)), node=node))]
        if n == 'itertools.chain.from_iterable':
            cid = self.alloc(st, 'iter', data=('flat', args[0]), node=node)
            st.own(cid[1]).data = ('flat', args[0])
            return [(st, cid)]
        if n == 'enumerate':
            start = args[1] if len(args) > 1 else kwargs.get('start', C(0))
            return [(st, self.alloc(st, 'iter', data=('enum', args[0], start), node=node))]
        if n == 'reversed':
            v = args[0]
            items = self.known_items(st, v)
            fz = self.freeze(st, v)
            r = self.reverse_of(st, v, fz)
            return [(st, self.alloc(st, 'iter', data=('iter', r), node=node))]
        if n == 'iter':
            return [(st, self.alloc(st, 'iter', data=('iter', args[0]), node=node))]
        if n == 'range':
            return [(st, ('range', tuple(self.freeze(st, a) for a in args)))]
        if n == 'next':
            return self.call_next(st, args, fr, node)
        if n in ('any', 'all'):
            want = n == 'any'

            def cb(s, x):
                return [(s2, ('break',) if b == want else None) for s2, b in self.truth(x, s)]
            out = []
            for s, sig in self.iterate(st, args[0], cb, fr, node):
                if sig is None:
                    out.append((s, C(not want)))
                elif sig[0] == 'break':
                    out.append((s, C(want)))
                else:
                    self.raised[-1].append((s, sig))
            return out
        if n == 'str':
            v = args[0] if args else C('')
            if v[0] == 'c' and isinstance(v[2], (str, int)) and not isinstance(v[2], bool):
                return [(st, C(str(v[2])))]
            if v[0] in ('cat', 'join', 'str'):
                return [(st, v)]
            if v[0] == 'c' and (v[2] is None or isinstance(v[2], bool)):
                return [(st, C(str(v[2])))]
            o = self.hobj(st, v)
            if o is not None and o.kind == 'inst':
                f = self.p.find(o.cls, '__str__') or self.p.find(o.cls, '__repr__')
                if f is not None:
                    return self.call_fi(f, v, [], {}, st, node, fr)
            return [(st, ('str', v))]
        if n == 'hasattr' and len(args) == 2 and is_c(args[1]):
            o, a = self.hobj(st, args[0]), args[1][2]
            if o is not None and o.kind == 'inst':
                if a in o.fields or self.p.find(o.cls, a) is not None or self.class_attr(o.cls, a) is not None or hasattr(object, a):
                    return [(st, TRUE)]
                if not any(isinstance(k, tuple) for k in self.p.mro(o.cls)):
                    return [(st, FALSE)]
            elif is_c(args[0]):
                return [(st, C(hasattr(args[0][2], a)))]
        if n == 'bool' and args:
            return [(s, C(b)) for s, b in self.truth(args[0], st)]
        if n in ('int', 'float') and args:
            if is_c(args[0]):
                try:
                    return [(st, C({'int': int, 'float': float}[n](args[0][2])))]
                except Exception:
                    pass
            if args[0][0] == 'enum' and n == 'int' and isinstance(args[0][3], int):
                return [(st, C(args[0][3]))]
            return [(st, ('call', n, self.fargs(st, args), (), 0))]
        if n in ('copy.copy', 'copy.deepcopy'):
            o = self.hobj(st, args[0])
            if o is not None and o.kind in ('list', 'dict', 'set') and n == 'copy.copy':
                c = self.alloc(st, o.kind, data=o.data, node=node)
                st.ops[c] = st.ops.get(args[0], ())
                return [(st, c)]
            return [(st, ('call', n, self.fargs(st, args), (), self.new()))]
        if n == 'collections.defaultdict':
            d = self.alloc(st, 'dict', data=('default', args[0]) if args else None, node=node)
            return [(st, d)]
        if n == 'collections.OrderedDict' and not args:
            return [(st, self.alloc(st, 'dict', node=node))]
        if n == 'functools.partial':
            return [(st, self.alloc(st, 'partial', data=(args[0], tuple(args[1:]), dict(kwargs)), node=node))]
        if n in ('lxml.etree.Element', 'lxml.etree.SubElement', 'xml.etree.ElementTree.Element'):
            sub = n.endswith('SubElement')
            tag = args[1] if sub else args[0]
            x = self.alloc(st, 'xml', node=node, tag=tag, text=NONE)
            a = self.alloc(st, 'dict')
            st.own(x[1]).fields['attrib'] = a
            extra = dict(kwargs)
            src = extra.pop('attrib', None) or (args[2] if sub and len(args) > 2 else args[1] if not sub and len(args) > 1 else None)
            if src is not None:
                fz = self.freeze(st, src)
                if fz[0] == 'dict':
                    for k2, v2 in fz[1]:
                        self.op(st, a, 'set', k2, v2)
                else:
                    self.op(st, a, 'update', fz)
            for k2, v2 in extra.items():
                self.op(st, a, 'set', C(k2), v2)
            if sub:
                self.op(st, args[0], 'add', x)
            return [(st, x)]
        if n == 'asyncio.gather':
            return [(st, self.alloc(st, 'gather', data=tuple(args), node=node))] if not any(
                a[0] in ('each', 'splice', 'rev') for a in args) else self.gather_abs(st, args, fr, node)
        if n in ('asyncio.run',) and args:
            return self.await_(st, args[0], fr, node)
        if n in ('asyncio.new_event_loop', 'asyncio.get_event_loop', 'asyncio.get_running_loop'):
            return [(st, self.alloc(st, 'loop', node=node))]
        if n in ('asyncio.create_task', 'asyncio.ensure_future') and args:
            o = self.hobj(st, args[0])
            t = self.alloc(st, 'task', data=args[0], node=node)
            st.events.append(('scheduled', args[0], self.loc(fr, node)))
            return [(st, t)]
        if n == 'print':
            st.events.append(('print', self.fargs(st, args), self.loc(fr, node)))
            return [(st, NONE)]
        if n == 'getattr' and len(args) >= 2 and is_c(args[1]):
            if len(args) == 2:
                return self.getattr(st, args[0], args[1][2], fr, node)
            if (args[0], args[1][2]) in st.fields:
                return [(st, st.fields[(args[0], args[1][2])])]
            o, a = self.hobj(st, args[0]), args[1][2]
            c = o.cls if o is not None and o.kind == 'inst' else self.type_of(st, args[0]) if args[0] in st.vers.get('whole', ()) else None
            if o is not None and o.kind == 'inst' and a in o.fields:
                return [(st, o.fields[a])]
            if isinstance(c, ClassInfo):
                if self.p.find(c, a) is None and self.class_attr(c, a) is None and not any(isinstance(k, tuple) for k in self.p.mro(c)):
                    return [(st, args[2])]            # an object built here has what its methods gave it
                if self.p.find(c, a) is not None:
                    return self.getattr(st, args[0], a, fr, node)
            return [(st, ('call', 'getattr', self.fargs(st, args), (), 0))]
        if n == 'setattr' and len(args) == 3 and is_c(args[1]):
            return [(s, NONE) for s in self.setattr(st, args[0], args[1][2], args[2], fr, node)]
        if n == 'type' and len(args) == 1:
            o = self.hobj(st, args[0])
            if o is not None and o.kind == 'inst':
                return [(st, ('cls', o.cls))]
            return [(st, ('call', 'type', self.fargs(st, args), (), 0))]
        if n in ('min', 'max') and not kwargs:
            cs = self.known_items(st, args[0]) if len(args) == 1 else list(args)
            if cs and all(is_c(x) and type(x[2]) in (int, float) for x in cs):
                return [(st, C((min if n == 'min' else max)(x[2] for x in cs)))]
        if n == 'sum' and not kwargs and len(args) == 1 and self.unroll:
            cs = self.known_items(st, args[0])
            if cs:
                cur = [(st, cs[0])]
                for x in cs[1:]:
                    cur = [y for s, acc in cur for y in self.binop(ast.Add(), acc, x, s, fr, node)]
                return cur
        if n in ('id', 'hash', 'repr', 'abs', 'min', 'max', 'sum', 'sorted', 'round', 'hasattr', 'bytes', 'format', 'callable', 'vars', 'dir', 'ord', 'chr', 'divmod', 'pow', 'object'):
            if n == 'sorted':
                r = self.sorted_list(st, args, kwargs, fr, node) if self.unroll and len(args) == 1 else None
                if r is not None:
                    return r
                return [(st, ('call', n, self.fargs(st, self.materialise(st, args, fr, node)), tuple(sorted((k2, self.freeze(st, v2)) for k2, v2 in kwargs.items())), 0))]
            return [(st, ('call', n, self.fargs(st, args), tuple(sorted((k2, self.freeze(st, v2)) for k2, v2 in kwargs.items())), 0))]
        if n.endswith(('Error', 'Exception', 'Iteration')):
            return [(st, ('exc', n, ''))]
        pure = n.split('.')[0] in ('numpy', 'math')
        v = ('call', n, self.fargs(st, args), tuple(sorted((k2, self.freeze(st, v2)) for k2, v2 in kwargs.items())), 0 if pure else self.new())
        st.events.append(('ecall', n, self.fargs(st, args), tuple(sorted((k2, self.freeze(st, v2)) for k2, v2 in kwargs.items())), v, self.loc(fr, node)))
        return [(st, v)]

    def sorted_list(self, st, args, kwargs, fr, node):
        """sorted() of a collection whose members are known -> outcomes, or None"""
        cs = self.known_items(st, args[0])
        if cs is None:
            trial = st.fork()
            n = len(self.raised[-1])
            got = self.to_list(trial, args, fr, node)
            if len(got) == 1 and len(self.raised[-1]) == n and self.known_items(got[0][0], got[0][1]) is not None:
                st = got[0][0]
                cs = self.known_items(st, got[0][1])
            else:
                del self.raised[-1][n:]
                return None
        out = []
        for s, xs in self.ordered(st, cs, kwargs, fr, node):
            if xs is None:
                whole = ('call', 'sorted', self.fargs(s, args), tuple(sorted((k, self.freeze(s, v)) for k, v in kwargs.items())), 0)
                xs = [('item', whole, C(i), 0) for i in range(len(cs))]
            l = self.alloc(s, 'list', node=node)
            for x in xs:
                self.op(s, l, 'add', x)
            out.append((s, l))
        return out

    def ordered(self, st, items, kwargs, fr, node):
        """the members in ascending order of their keys: (state, members), members None when the order is not known.
        Keys that are arbitrary (and unrelated) stand in every order."""
        key = kwargs.get('key', NONE)
        back = kwargs.get('reverse', C(False))
        if len(items) < 2:
            return [(st, list(items))]
        if not is_c(back):
            return [(st, None)]
        cur = [(st, [])]
        for x in items:
            if key == NONE:
                cur = [(s, ks + [x]) for s, ks in cur]
            else:
                cur = [(s2, ks + [k]) for s, ks in cur for s2, k in self.call(key, [x], {}, s, fr, node)]
        out = []
        for s, ks in cur:
            flat = [self.plain(k) for k in ks]
            if all(f is not None for f in flat):
                try:
                    idx = sorted(range(len(items)), key=lambda i: flat[i], reverse=bool(back[2]))
                except TypeError:
                    self.raised[-1].append((s, ('raise', ('exc', 'TypeError', ''), self.loc(fr, node))))
                    continue
                out.append((s, [items[i] for i in idx]))
            elif len(items) <= 3 and all(k[0] == 'sym' for k in ks) and len(set(ks)) == len(ks):
                import itertools
                for perm in itertools.permutations(items):
                    out.append((s.fork(), list(perm)))
            else:
                out.append((s, None))
        return out

    def plain(self, k):
        """a constant key as a value that compares as it does, else None"""
        if k[0] == 'c' and type(k[2]) in (int, float, str, bytes, bool):
            return k[2]
        if k[0] == 'tup':
            xs = [self.plain(x) for x in k[1]]
            return None if any(x is None for x in xs) else tuple(xs)
        return None

    def materialise(self, st, args, fr, node):
        return args

    def gather_abs(self, st, args, fr, node):
        st.events.append(('gather', self.fargs(st, args), self.loc(fr, node)))
        return [(st, self.alloc(st, 'gather_abs', data=tuple(args), node=node))]

    def call_next(self, st, args, fr, node):
        it = args[0]
        o = self.hobj(st, it)
        out = []
        nx = self.p.find(o.cls, '__next__') if o is not None and o.kind == 'inst' else None
        if nx is not None:
            if len(args) == 1:
                return self.call_fi(nx, it, [], {}, st, node, fr)
            self.raised.append([])
            r = self.call_fi(nx, it, [], {}, st, node, fr)
            for s2, sig in self.raised.pop():
                if sig[0] == 'raise' and sig[1][1] == 'StopIteration':
                    r.append((s2, args[1]))
                else:
                    self.raised[-1].append((s2, sig))
            return r
        if o is not None and o.kind in ('gen', 'iter', 'opaquegen') and not st.consumed.get(it):
            res = self.iterate(st, it, lambda s, x: [(s, ('got', x))], fr, node)
        elif o is not None and o.kind in ('gen', 'iter'):
            st.events.append(('next-again', it, self.loc(fr, node)))
            return [(st, ('unk', 'next of a started iterator', self.new()))]
        else:
            self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'not an iterator'), self.loc(fr, node)))) if (
                o is not None and o.kind in ('list', 'dict', 'set')) else None
            if o is not None and o.kind in ('list', 'dict', 'set'):
                return []
            v = ('call', 'next', self.fargs(st, args[:1]), (), self.new())
            st.events.append(('next', it, v, self.loc(fr, node)))
            return [(st, v)]
        for s, sig in res:
            if sig is None:
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    self.raised[-1].append((s, ('raise', ('exc', 'StopIteration', ''), self.loc(fr, node))))
            elif sig[0] == 'got':
                out.append((s, sig[1]))
            else:
                self.raised[-1].append((s, sig))
        return out

    def call_isinstance(self, st, v, c, fr, node):
        if c[0] == 'tup':
            out, cur = [], [st]
            for x in c[1]:
                nxt = []
                for s in cur:
                    for s2, r in self.call_isinstance(s, v, x, fr, node):
                        for s3, b in self.truth(r, s2):
                            (out.append((s3, TRUE)) if b else nxt.append(s3))
                cur = nxt
            return out + [(s, FALSE) for s in cur]
        if c[0] == 'cls':
            atom = ('isinst', v, c[1])
        elif c[0] == 'ext':
            atom = ('isinst', v, c[1] if c[1] in BUILTIN_TYPES else c)
        else:
            atom = ('isinst', v, c)
        d = self.decide(st, atom)
        return [(st, C(d) if d is not None else ('b', atom, True))]

    # --------- methods of builtin containers / strings / unknown receivers
    def call_bound(self, recv, name, args, kwargs, st, fr, node):
        o = self.hobj(st, recv)
        h = self.contracts.get('m:' + name)
        if h is not None:
            r = h(self, st, recv, args, kwargs, fr, node)
            if r is not None:
                return r
        if name.startswith('object.'):
            return [(st, NONE)]
        kind = o.kind if o is not None else None
        if kind == 'queue':
            return self.queue_call(st, recv, o, name, args, kwargs, fr, node)
        if kind == 'list' or (kind is None and recv[0] == 'list'):
            r = self.list_call(st, recv, name, args, kwargs, fr, node)
            if r is not None:
                return r
        if kind == 'set':
            if name == 'add':
                self.op(st, recv, 'sadd', args[0])
                return [(st, NONE)]
            if name in ('discard', 'remove'):
                self.op(st, recv, 'del', args[0])
                return [(st, NONE)]
            if name == 'update':
                for a in args:
                    self.op(st, recv, 'update', self.freeze(st, a))
                return [(st, NONE)]
            if name == 'clear':
                self.op(st, recv, 'clear')
                return [(st, NONE)]
            if name == 'copy':
                c = self.alloc(st, 'set', node=node)
                st.ops[c] = st.ops.get(recv, ())
                return [(st, c)]
            if name == 'pop':
                m = self.members(st, recv) if self.unroll else None
                if m == []:
                    self.raised[-1].append((st, ('raise', ('exc', 'KeyError', ''), self.loc(fr, node))))
                    return []
                if m:       # any of them
                    out = []
                    for i, x in enumerate(m):
                        s = st.fork() if i < len(m) - 1 else st
                        self.op(s, recv, 'del', x)
                        out.append((s, x))
                    return out
                v = ('take', recv, len(st.ops.get(recv, ())))
                self.op(st, recv, 'take', v)
                return [(st, v)]
            if name in ('union', 'difference', 'intersection', 'symmetric_difference') and self.unroll:
                got = []
                for a in args:
                    oa = self.hobj(st, a)
                    if oa is not None and oa.kind in ('gen', 'iter'):
                        r = self.to_list(st, [a], fr, node)
                        if len(r) != 1:
                            got = None
                            break
                        st, a = r[0]
                    got.append(a)
                c = self.set_algebra(st, recv, name, got, fr, node) if got is not None else None
                if c is not None:
                    return [(st, c)]
        if kind == 'dict' or recv[0] == 'dict' or (kind is None and self.looks_map(st, recv, name)):
            r = self.dict_call(st, recv, name, args, kwargs, fr, node)
            if r is not None:
                return r
        if kind == 'xml':
            if name == 'append' and args[0] == NONE:
                self.raised[-1].append((st, ('raise', ('exc', 'TypeError', 'append(None)'), self.loc(fr, node))))
                return []
            if name == 'append':
                self.op(st, recv, 'add', args[0])
                return [(st, NONE)]
            if name == 'extend':
                return [(s, NONE) for s in self.extend(st, recv, args[0], fr, node)]
            if name == 'set':
                self.op(st, o.fields['attrib'], 'set', args[0], args[1])
                return [(st, NONE)]
            if name == 'insert':
                self.op(st, recv, 'insert', args[0], args[1])
                return [(st, NONE)]
            if name in ('get', 'keys', 'items', 'values'):
                return self.dict_call(st, o.fields['attrib'], name, args, kwargs, fr, node)
            if name in ('find', 'findall', 'iterfind', 'findtext') and args and is_c(args[0]) and isinstance(args[0][2], str) and (args[0][2] == '*' or args[0][2].isidentifier()):
                r = self.found(st, recv, args[0][2])
                if r is not None:
                    if name == 'find':
                        return [(st, r[0] if r else NONE)]
                    if name == 'findtext':
                        return [(st, self.hobj(st, r[0]).fields.get('text', NONE) if r else args[1] if len(args) > 1 else NONE)]
                    return [(st, ('list', tuple(r)))]
            if name == '__len__':
                known = self.known_items(st, recv)
                return [(st, C(len(known)) if known is not None else ('len', recv))]
        if kind == 'loop':
            if name == 'run_until_complete':
                return self.await_(st, args[0], fr, node)
            if name in ('create_task',):
                st.events.append(('scheduled', args[0], self.loc(fr, node)))
                return [(st, self.alloc(st, 'task', data=args[0]))]
            return [(st, NONE)]
        if kind in ('gen', 'iter', 'opaquegen') and name in ('__next__', 'send'):
            return self.call_next(st, [recv], fr, node)
        if kind in ('gen', 'coro') and name == 'close':
            st.consumed[recv] = 'yes'
            return [(st, NONE)]
        if name == 'join' and (recv[0] == 'c' or self.type_of(st, recv) == 'str') and len(args) == 1:
            return self.str_join(st, recv, args[0], fr, node)
        if recv[0] == 'c' and isinstance(recv[2], str) and name == 'format' and not kwargs:
            parts = recv[2].split('{}')
            if len(parts) == len(args) + 1:
                seq = [C(parts[0])]
                for v, p in zip(args, parts[1:]):
                    seq += [v, C(p)]
                return [(st, self.cat(seq))]
        if recv[0] == 'c' and isinstance(recv[2], (str, bytes)) and all(is_c(a) for a in args) and not kwargs:
            try:
                r = getattr(recv[2], name)(*[a[2] for a in args])
                if isinstance(r, (list, tuple)):
                    return [(st, ('list' if isinstance(r, list) else 'tup', tuple(C(x) for x in r)))]
                return [(st, C(r))]
            except Exception:
                pass
        if name in ('hex', 'encode', 'decode', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace',
                    'capitalize', 'title', 'rstrip', 'lstrip', 'partition', 'rpartition', 'rsplit', 'copy', 'astype', 'diagonal', 'item', 'count',
                    'index', 'tolist', 'reshape', 'sum', 'isdigit', 'find', 'removeprefix', 'removesuffix', '__getitem__', 'difference', 'union', 'intersection', 'digest', 'hexdigest'):
            return [(st, ('mcall', self.freeze(st, recv), name, self.fargs(st, args),
                          tuple(sorted((k2, self.freeze(st, v2)) for k2, v2 in kwargs.items()))))]
        # not looked into
        v = ('mcall', recv, name, self.fargs(st, args), tuple(sorted((k2, self.freeze(st, v2)) for k2, v2 in kwargs.items())), self.new())
        st.events.append(('mcall', recv, name, tuple(args), kwargs, v, self.loc(fr, node)))
        cand = [c for c in self.candidates(name)]
        if cand and all(c.is_gen or c.is_abstract for c in cand) and any(c.is_gen for c in cand):
            g = self.alloc(st, 'opaquegen', data=v, node=node)
            return [(st, g)]
        return [(st, v)]

    def looks_map(self, st, recv, name):
        t = self.type_of(st, recv)
        if t == 'dict':
            return True
        if t is not None:
            return False
        if recv in st.ops and name in ('pop', 'get', 'setdefault', 'values', 'keys', 'items', 'update', 'clear', 'popitem', 'copy'):
            return True
        if recv[0] in ('f', 'item', 'havoc', 'sym', 'shared') and name in ('values', 'keys', 'items', 'setdefault'):
            return True
        if recv[0] in ('f', 'item') and name in ('pop', 'get', 'popitem', 'clear'):
            return True
        return False

    def pop_key(self, st, recv, key, default, fr, node):
        """dict.pop / del -> [(st, value)]"""
        out = []
        m, atom = self.member(st, recv, key)
        handled = any(h in ('KeyError', 'LookupError', 'Exception', 'BaseException') for h in self.handlers)
        if m is None:
            if default is not None or self.implicit or handled:
                sp = self.split(st, atom)
            else:
                d = self.decide(st, atom)
                if d is None:
                    self.assume(st, atom, True)
                    d = True
                sp = [(st, d)]
        else:
            sp = [(st, m)]
        for s, ok in sp:
            if ok:
                v = self.lookup(s, recv, key)
                self.op(s, recv, 'del', key)
                s.events.append(('delitem', recv, key, v, self.loc(fr, node)))
                out.append((s, v))
            elif default is not None:
                out.append((s, default))
            else:
                self.raised[-1].append((s, ('raise', ('exc', 'KeyError', ''), self.loc(fr, node))))
        return out

    def dict_call(self, st, recv, name, args, kwargs, fr, node):
        if name == 'pop':
            return self.pop_key(st, recv, args[0], args[1] if len(args) > 1 else kwargs.get('default'), fr, node)
        if name == '__contains__':
            return [(s, C(b)) for s, b in self.split_member(st, recv, args[0])]
        if name == 'get':
            dflt = args[1] if len(args) > 1 else NONE
            if recv[0] == 'dict':
                out, cur = [], [st]
                for k, v in recv[1]:
                    nx = []
                    for s in cur:
                        for s2, b in self.split(s, ('eq', args[0], k)):
                            (out.append((s2, v)) if b else nx.append(s2))
                    cur = nx
                return out + [(s, dflt) for s in cur]
            out = []
            for s, ok in self.split_member(st, recv, args[0]):
                out.append((s, self.lookup(s, recv, args[0]) if ok else dflt))
            return out
        if name == 'setdefault':
            out = []
            dflt = args[1] if len(args) > 1 else NONE
            for s, ok in self.split_member(st, recv, args[0]):
                if ok:
                    out.append((s, self.lookup(s, recv, args[0])))
                else:
                    self.op(s, recv, 'set', args[0], dflt)
                    s.events.append(('setitem', recv, args[0], dflt, self.loc(fr, node)))
                    out.append((s, dflt))
            return out
        if name in ('values', 'keys', 'items'):
            if recv[0] == 'dict':
                ks = recv[1]
                return [(st, ('list', tuple(k if name == 'keys' else v if name == 'values' else ('tup', (k, v)) for k, v in ks)))]
            return [(st, ('view', name, recv))]
        if name == 'update':
            for a in args:
                fz = self.freeze(st, a)
                if fz[0] == 'dict':
                    for k, v in fz[1]:
                        self.op(st, recv, 'set', k, v)
                        st.events.append(('setitem', recv, k, v, self.loc(fr, node)))
                else:
                    ops = st.ops.get(a, ())
                    if self.kind(st, a) == 'dict' and ops and all(x[0] in ('iter', 'set') for x in ops):
                        for x in ops:
                            self.op(st, recv, *(x if x[0] == 'set' else ('update', a)))
                    else:
                        self.op(st, recv, 'update', fz)
                    st.events.append(('mapupdate', recv, fz, self.loc(fr, node)))
            for k, v in kwargs.items():
                self.op(st, recv, 'set', C(k), v)
            return [(st, NONE)]
        if name == 'clear':
            self.op(st, recv, 'clear')
            st.events.append(('mapclear', recv, self.loc(fr, node)))
            return [(st, NONE)]
        if name == 'copy':
            d = self.alloc(st, 'dict', node=node)
            if self.kind(st, recv) == 'dict':
                st.ops[d] = st.ops.get(recv, ())
            else:
                self.op(st, d, 'update', recv)
            return [(st, d)]
        if name == 'popitem':
            v = ('take', recv, len(st.ops.get(recv, ())))
            self.op(st, recv, 'take', v)
            st.events.append(('mapclear', recv, self.loc(fr, node)))
            return [(st, v)]
        return None

    def list_call(self, st, recv, name, args, kwargs, fr, node):
        if recv[0] == 'list':
            return None
        if name == 'append':
            self.op(st, recv, 'add', args[0])
            return [(st, NONE)]
        if name == 'extend':
            return [(s, NONE) for s in self.extend(st, recv, args[0], fr, node)]
        if name == 'insert':
            self.op(st, recv, 'insert', args[0], args[1])
            return [(st, NONE)]
        if name == 'clear':
            self.op(st, recv, 'clear')
            return [(st, NONE)]
        if name == 'reverse':
            self.op(st, recv, 'reverse')
            return [(st, NONE)]
        if name == 'copy':
            c = self.alloc(st, 'list', node=node)
            for x in self.known_items(st, recv) or ():
                self.op(st, c, 'add', x)
            if self.known_items(st, recv) is None:
                self.op(st, c, 'splice', self.freeze(st, recv))
            return [(st, c)]
        if name == 'pop':
            items = self.known_items(st, recv)
            if items and (not args or is_c(args[0])):
                i = args[0][2] if args else -1
                if -len(items) <= i < len(items):
                    v = items.pop(i)
                    st.ops[recv] = tuple(('add', x) for x in items)
                    return [(st, v)]
            if items == []:
                self.raised[-1].append((st, ('raise', ('exc', 'IndexError', ''), self.loc(fr, node))))
                return []
            front = bool(args) and is_c(args[0], 0)
            end = not args or is_c(args[0], -1)
            v = ('take', recv, len(st.ops.get(recv, ())))
            self.op(st, recv, 'take', v, 'front' if front else 'back' if end else 'other')
            return [(st, v)]
        if name == 'remove':
            self.op(st, recv, 'del', args[0])
            return [(st, NONE)]
        if name == 'sort':
            items = self.known_items(st, recv) if self.unroll else None
            if items is None:
                self.op(st, recv, 'sort')
                return [(st, NONE)]
            out = []
            for s, xs in self.ordered(st, items, kwargs, fr, node):
                if xs is None:
                    self.op(s, recv, 'sort')
                else:
                    s.events.append(('reorder', recv, self.loc(fr, node)))
                    s.ops[recv] = tuple(('add', x) for x in xs)
                out.append((s, NONE))
            return out
        return None

    def queue_call(self, st, recv, o, name, args, kwargs, fr, node):
        kind = o.data if isinstance(o.data, str) else 'fifo'
        if name in ('put', 'put_nowait', 'append', 'appendleft') or (name in ('extend', 'extendleft') and kind == 'deque'):
            if name == 'extend':
                return [(s, NONE) for s in self.extend(st, recv, args[0], fr, node)]
            if name == 'extendleft':
                self.op(st, recv, 'other')
                return [(st, NONE)]
            if name == 'put' and recv in self.async_queues:     # takes effect when awaited
                return [(st, self.alloc(st, 'future', data=('pending', recv, args[0])))]
            self.op(st, recv, 'add' if name != 'appendleft' else 'addleft', args[0])
            return [(st, NONE)]
        if name in ('get', 'get_nowait', 'pop', 'popleft'):
            ops = st.ops.get(recv, ())
            items = None
            if all(x[0] == 'add' for x in ops):
                items = [x[1] for x in ops]
            side = {'fifo': 'front', 'lifo': 'back', 'prio': 'other', 'deque': 'front' if name == 'popleft' else 'back'}[kind]
            if items and kind != 'prio':
                v = items.pop(0 if side == 'front' else -1)
                st.ops[recv] = tuple(('add', x) for x in items)
            else:
                v = ('take', recv, len(ops))
                self.op(st, recv, 'take', v, side)
            if name == 'get':
                return [(st, self.alloc(st, 'future', data=v))] if recv in self.async_queues else [(st, v)]
            return [(st, v)]
        if name in ('empty',):
            ops = st.ops.get(recv, ())
            return [(st, self.empty_value(st, recv, True))]
        if name in ('qsize', '__len__'):
            return [(st, ('len', recv))]
        if name in ('task_done', 'join'):
            return [(st, self.alloc(st, 'future', data=NONE) if name == 'join' else NONE)]
        if name == 'clear':
            st.ops[recv] = ()
            return [(st, NONE)]
        return [(st, ('mcall', recv, name, self.fargs(st, args), (), self.new()))]

    def str_join(self, st, sep, it, fr, node):
        out = []
        for s, l in self.to_list(st, [it], fr, node):
            fz = self.freeze(s, l)
            if fz[0] == 'list' and not any(x[0] in ('each', 'splice', 'rev') for x in fz[1]):
                parts = []
                for i, x in enumerate(fz[1]):
                    if i:
                        parts.append(sep)
                    parts.append(x)
                out.append((s, self.cat(parts)))
            else:
                if fz[0] == 'list' and len(fz[1]) == 1 and fz[1][0][0] == 'splice':
                    fz = fz[1][0][1]
                out.append((s, ('join', sep, fz)))
        return out
