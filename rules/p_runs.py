"""P15: runs and instances never influence each other.  P25: an encoder describes the graph of its last update."""
import ast
from sa.interp import NONE, C, is_c, contains, State
from sa.loader import AnalysisError, ClassInfo
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from .p_trav import concrete, copy_queue
from . import worklist as W

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'discard', 'put',
            'put_nowait', 'appendleft', 'extendleft', 'sort', 'reverse', 'popleft', 'get_nowait', '__setitem__', 'task_done',
            'difference_update', 'intersection_update', 'symmetric_difference_update'}
COPIES = {'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'len', 'str', 'repr', 'sum', 'min', 'max', 'any', 'all', 'map',
          'filter', 'zip', 'enumerate', 'isinstance', 'deepcopy', 'copy', 'array', 'asarray', 'join', 'range', 'reversed', 'iter',
          'bytes', 'type', 'id', 'bool', 'next', 'print'}
MUTABLE_CTORS = {'list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter', 'Queue', 'LifoQueue', 'SimpleQueue',
                 'PriorityQueue', 'bytearray', 'array', 'zeros', 'ones', 'empty', 'WeakValueDictionary', 'WeakKeyDictionary',
                 'ChainMap'}
QUEUES = {'Queue', 'LifoQueue', 'PriorityQueue', 'SimpleQueue', 'deque'}
CACHES = {'cache', 'lru_cache', 'cached_property'}


# ------------------------------------------------------------------------------------------- state outside of one instance
def mutable_kind(e):
    """kind of mutable object an expression makes, or None"""
    if isinstance(e, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(e, (ast.Set, ast.SetComp)):
        return 'set'
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        if n in MUTABLE_CTORS:
            return 'queue' if n in QUEUES else n
    return None


def last_name(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Uses:
    """What a function does with an object known under some expressions (flow-insensitive, with local aliases)"""
    def __init__(self, fn, is_obj, kind):
        self.fn, self.kind = fn, kind
        self.aliases = set()
        self.is_obj = is_obj
        self.mutated = []
        self.stored = []          # (attribute, node)
        self.escapes = []         # nodes
        grew = True
        nodes = list(ast.walk(fn))
        while grew:
            grew = False
            for n in nodes:
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if n.value is not None and self.may_be(n.value):
                        for t in ts:
                            if isinstance(t, ast.Name) and t.id not in self.aliases:
                                self.aliases.add(t.id)
                                grew = True
        for n in nodes:
            self.look(n)

    def me(self, e):
        return self.is_obj(e) or (isinstance(e, ast.Name) and e.id in self.aliases)

    def may_be(self, e):
        """may the value of e be the object itself (or share its contents)?"""
        if self.me(e):
            return True
        if isinstance(e, ast.IfExp):
            return self.may_be(e.body) or self.may_be(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.may_be(v) for v in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.may_be(e.value)
        if isinstance(e, ast.Call) and self.kind == 'queue' and last_name(e.func) == 'copy' and e.args:
            return self.may_be(e.args[0])          # copy.copy of a queue shares what is in it
        return False

    def look(self, n):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and self.may_be(n.func.value) and n.func.attr in MUTATORS:
                self.mutated.append(n)
            elif isinstance(n.func, ast.Attribute) and self.kind == 'queue' and self.may_be(n.func.value) and n.func.attr == 'get':
                self.mutated.append(n)
            for a in list(n.args) + [k.value for k in n.keywords]:
                if self.may_be(a) and last_name(n.func) not in COPIES:
                    self.escapes.append((n, 'handed to ' + ast.unparse(n.func)))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript) and self.may_be(t.value):
                    self.mutated.append(n)
                if isinstance(n, ast.AugAssign) and self.may_be(t):
                    self.mutated.append(n)
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and isinstance(t, ast.Attribute) and self.may_be(n.value):
                    self.stored.append((t.attr, n))
                if isinstance(t, ast.Tuple) and isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple):
                    for a, b in zip(t.elts, n.value.elts):
                        if isinstance(a, ast.Attribute) and self.may_be(b):
                            self.stored.append((a.attr, n))
        elif isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
            vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) else [n.value]
            if any(self.may_be(v) for v in vs):
                self.escapes.append((n, 'handed out'))


def attr_mutated(p, c, attr):
    """is self.<attr> changed in place anywhere in the class, its ancestors or subclasses?"""
    for k in p.classes_of(c) + p.subclasses.get(c, []):
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f is None:
                continue
            mangled = attr if not attr.startswith('__') else attr
            u = Uses(f.node, lambda e: isinstance(e, ast.Attribute) and e.attr == mangled and isinstance(e.value, ast.Name) and e.value.id == 'self', 'list')
            if u.mutated or u.escapes:
                return u.mutated[0] if u.mutated else u.escapes[0][0]
    return None


def functions_of(mod):
    for f in mod.functions.values():
        yield None, f
    for c in mod.classes.values():
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f is not None:
                yield c, f


def shared_state(ctx, p):
    mods = [m for n, m in sorted(p.modules.items()) if n.split('.')[0] == 'rei']
    for mod in mods:
        ctx.guard('instance-state', mod.name, module_state, ctx, p, mod, where=mod.relpath)


def module_state(ctx, p, mod):
    bad = 0
    n = 0
    mnames = {}
    for b in mod.tree.body:
        ts = b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) and b.value is not None else []
        for t in ts:
            if isinstance(t, ast.Name):
                mnames[t.id] = mutable_kind(b.value) if hasattr(b, 'value') else None
    for c, f in functions_of(mod):
        n += 1
        con = f.qual
        w = f.where
        # defaults
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pairs:
            k = mutable_kind(d)
            if k is None:
                continue
            u = Uses(f.node, lambda e, nm=x.arg: isinstance(e, ast.Name) and e.id == nm and not isinstance(e.ctx, ast.Store), k)
            why = None
            if u.mutated:
                why = f"changed in line {u.mutated[0].lineno}"
            elif u.stored:
                why = f"kept as {u.stored[0][0]} in line {u.stored[0][1].lineno}"
            elif u.escapes and (k == 'queue' or u.escapes[0][1] == 'handed out'):
                why = f"{u.escapes[0][1]} in line {u.escapes[0][0].lineno}"
            if why:
                bad += 1
                ctx.bad('instance-state', f"{con}.{x.arg}", w, f"one {k} is the default of every call, and it is {why}")
            elif u.escapes:
                ctx.und('instance-state', f"{con}.{x.arg}", w, u.escapes[0][1])
        # memo decorators
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            if last_name(e) in CACHES:
                bad += 1
                ctx.bad('memo', con, w, f"results are kept by @{ast.unparse(d)} whatever the graph is by then")
        # global names
        gl = {x for g in ast.walk(f.node) if isinstance(g, ast.Global) for x in g.names}
        if gl:
            for g in ast.walk(f.node):
                if isinstance(g, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (g.targets if isinstance(g, ast.Assign) else [g.target]):
                        if isinstance(t, ast.Name) and t.id in gl:
                            bad += 1
                            ctx.bad('instance-state', f"{con}.{t.id}", w, f"writes the module variable {t.id}")
        local = {x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)} | \
                {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - gl
        for nm, k in mnames.items():
            if k is None or nm in local:
                continue
            u = Uses(f.node, lambda e, nm=nm: isinstance(e, ast.Name) and e.id == nm, k)
            why = None
            if u.mutated:
                why = f"changes it in line {u.mutated[0].lineno}"
            elif u.stored:
                cl = c
                hit = attr_mutated(p, cl, u.stored[0][0]) if cl is not None else u.stored[0][1]
                if hit is not None:
                    why = f"keeps it as {u.stored[0][0]}, which is changed or handed out in line {hit.lineno}"
            if why:
                bad += 1
                ctx.bad('instance-state', f"{con}.{nm}", w, f"the module's {k} {nm} is one for all runs, and {con} {why}")
    for c in mod.classes.values():
        if p.is_enum(c):
            continue
        attrs = {}
        for b in c.node.body:
            ts = b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) and b.value is not None else []
            for t in ts:
                if isinstance(t, ast.Name):
                    attrs[t.id] = (mutable_kind(b.value), b)
        fam = [c] + p.subclasses.get(c, [])
        for nm, (k, b) in attrs.items():
            # replaced per instance before use?
            if k is not None:
                for kc in fam:
                    init = p.find(kc, '__init__')
                    own = init is not None and always_set(p, kc, init, nm)
                    for f in list(kc.methods.values()) + list(kc.setters.values()):
                        if f is None:
                            continue

                        def is_obj(e, nm=nm, own=own, kc=kc):
                            if not isinstance(e, ast.Attribute) or e.attr != nm:
                                return False
                            v = e.value
                            if isinstance(v, ast.Name) and v.id == 'self':
                                return not own
                            return isinstance(v, ast.Name) and (v.id == 'cls' or v.id == c.name or v.id == kc.name) or \
                                ast.unparse(v) in ('type(self)', 'self.__class__')
                        u = Uses(f.node, is_obj, k)
                        hit = u.mutated[0] if u.mutated else u.escapes[0][0] if u.escapes and u.escapes[0][1] == 'handed out' else None
                        if hit is not None:
                            bad += 1
                            ctx.bad('instance-state', f"{c.name}.{nm}", f.where,
                                    f"the {k} is one for all instances of {c.name}, and line {hit.lineno} changes it or hands it out")
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f is None:
                continue
            for g in ast.walk(f.node):
                if isinstance(g, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (g.targets if isinstance(g, ast.Assign) else [g.target]):
                        t0 = t.value if isinstance(t, ast.Subscript) else t
                        if isinstance(t0, ast.Attribute):
                            v = t0.value
                            s = ast.unparse(v)
                            r = p.resolve_name(mod, s) if isinstance(v, ast.Name) else None
                            if s in ('cls', 'type(self)', 'self.__class__') and (s != 'cls' or f.is_classmethod) or \
                                    (isinstance(r, ClassInfo)) or (isinstance(r, tuple) and any(isinstance(q, ClassInfo) for q in r) and r[0] != 'inst'):
                                bad += 1
                                ctx.bad('instance-state', f"{f.qual}.{t0.attr}", f.where, f"writes {s}.{t0.attr}, which all instances share")
    if not bad:
        ctx.good('instance-state', mod.name, mod.relpath, f"{n} functions")


def always_set(p, c, init, nm):
    """the constructor gives every instance its own attribute (assigned at the top level of the constructor or of an inherited one
    that it calls unconditionally)"""
    for k in p.classes_of(c):
        f = k.methods.get('__init__')
        if f is None:
            continue
        for b in f.node.body:
            ts = b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) and b.value is not None else []
            if any(isinstance(t, ast.Attribute) and t.attr == nm and isinstance(t.value, ast.Name) and t.value.id == 'self' for t in ts):
                return True
        if not any('super().__init__' in ast.unparse(b) for b in f.node.body):
            break
    return False


# ------------------------------------------------------------------------------------------------------- one run, then another
class Runs:
    def __init__(self, ctx, m, c, types=None, contracts=None, setup=None):
        self.ctx, self.m, self.c, self.p = ctx, m, c, m.p
        self.I = m.interp(implicit=False, contracts={'ext:copy.copy': copy_queue, **(contracts or {})})
        self.types = types or {}
        self.states, self.names = W.construct(self.I, m, c, types)
        if setup:
            self.states = [s for s in self.states if setup(self.I, s) is not False]

    def call(self, s, name, args):
        f = self.p.find(self.c, name)
        if f is None:
            raise AnalysisError(f"{self.c.name}.{name} not found")
        for a in args:
            t = self.types.get(a[1]) if a[0] == 'sym' else None
            if t is not None:
                s.types[a] = t
                s.vers['nonnull'] = tuple(s.vers.get('nonnull', ())) + (a,)
        return self.I.entry(f, args, s, recv=SELF)

    def seq(self, states, calls):
        """[(state, [(name, returned)])]"""
        cur = [(s, []) for s in states]
        for name, args in calls:
            nxt = []
            for s, vals in cur:
                for s2, sig in self.call(s, name, args):
                    self.ctx.paths += 1
                    if sig[0] == 'return':
                        nxt.append((s2, vals + [(name, sig[1])]))
            cur = nxt
            if len(cur) > 400:
                raise Exception(f"{len(cur)} paths")
        return cur


def carried(R, con, first, second, rule, keep=(), where=''):
    """run `first`, then `second` on the same object: nothing of the first may be met in the second"""
    ctx, m, I = R.ctx, R.m, R.I
    n = 0
    for s0 in R.states:
        born = set(s0.heap)
        l0 = set(I.loops)
        marks = [('sym', a[1]) for _, args in first for a in args if a[0] == 'sym']
        for s1, ret1 in R.seq([s0], first):
            lids = set(I.loops) - l0
            new1 = {('o', k) for k in s1.heap if k not in born}
            keepobj = reach_objects(I, s1, [s1.fields.get((SELF, a), ('f', SELF, a, 0)) for a in keep])
            new1 -= keepobj

            def old(t):
                return contains(t, lambda x: isinstance(x, tuple) and len(x) > 1 and (
                    x in marks or x in new1 or (x[0] == 'elem' and x[1] in lids) or
                    (x[0] == 'havoc' and x[1] in lids) or (x[0] == 'iter' and x[1] in lids)))
            handed1 = reach_objects(I, s1, [v for _, v in ret1])
            base = s1.fork()
            base.events = []
            nf = len(base.facts)
            ops1 = dict(s1.ops)
            for s2, ret2 in R.seq([base.fork()], second):
                n += 1
                loops2 = list(W.loops_in(s2.events))
                bad = None
                facts = list(s2.facts[nf:])
                for lp in loops2:
                    for q in lp.paths:
                        facts += q.facts
                for a, pol in facts:
                    if old(a):
                        bad = f"decides by what is left of an earlier run: {m.show(a)[:80]}"
                        break
                for name, v in ret2:
                    if bad is None and old(I.freeze(s2, v)):
                        bad = f"{name} gives what an earlier run left"
                for cont, o in s2.ops.items():
                    if bad:
                        break
                    if cont[0] == 'shared' and o != ops1.get(cont, ()):
                        bad = f"works on {m.show(cont)}, which every run and instance shares"
                        break
                    if cont in keepobj:
                        continue
                    prev = ops1.get(cont, ())
                    if cont[0] == 'o' and cont[1] in base.heap:
                        if o != prev and prev and o[:len(prev)] == prev and [x for x in o[len(prev):] if x[0] != 'take'] and \
                                [x for x in o[len(prev):] if x[0] != 'take'][0][0] != 'clear':
                            bad = 'adds to a collection that an earlier run filled'
                        elif o != prev and cont in handed1:
                            bad = 'changes the result that an earlier run handed out'
                    elif cont[0] == 'f' and root(cont) == SELF and cont[3] == 0 and o != prev and prev:
                        bad = f"adds to {m.show(cont)}, which an earlier run filled"
                    if bad is None and cont[0] == 'o' and cont[1] not in base.heap:
                        for x in o:
                            if any(isinstance(y, tuple) and old(y) for y in x[1:]):
                                bad = 'works on what an earlier run left'
                for (b, at), v in s2.fields.items():
                    if bad or b != SELF or at in keep:
                        continue
                    before = base.fields.get((b, at))
                    if v == before:
                        # unchanged: is it read as a result?
                        continue
                    if old(I.freeze(s2, v)) or counter_old(I, s2, v, old):
                        bad = f"{at} goes on from the value of an earlier run"
                for lp in loops2:
                    if bad is None and lp.coll is not None and old(lp.coll):
                        bad = f"goes through what an earlier run left ({where_of(lp.loc)})"
                if bad:
                    ctx.bad(rule, con, where, bad)
                    return
    if n:
        ctx.good(rule, con, where, f"{n} pairs of paths")
    else:
        ctx.und(rule, con, where, 'no path through two runs')


def root(t):
    while t[0] in ('f', 'item', 'elem') and isinstance(t[1], tuple):
        t = t[1]
    return t


def counter_old(I, s, v, old):
    if v[0] == 'havoc':
        lp = I.loops.get(v[1])
        if lp is not None:
            ini = lp.init.get(v[2])
            if ini is not None and ini != v:
                return old(ini) or counter_old(I, s, ini, old)
    return False


def reach_objects(I, s, vals):
    """heap objects reachable from values"""
    out = set()

    def go(v):
        if not isinstance(v, tuple):
            return
        if len(v) == 2 and v[0] == 'o':
            if v in out:
                return
            out.add(v)
            o = I.hobj(s, v)
            if o is not None:
                for x in o.fields.values():
                    go(x)
                for op in s.ops.get(v, ()):
                    for x in op[1:]:
                        go(x)
            for (b, at), x in s.fields.items():
                if b == v:
                    go(x)
            return
        for x in v:
            if isinstance(x, tuple):
                go(x)
    for v in vals:
        go(v)
    return out


def p15(ctx):
    ctx.rule('instance-state', 'no mutable default, class attribute or module variable carries state between runs or instances')
    ctx.rule('memo', 'no result is kept beyond the run that computed it')
    ctx.rule('carry-over', 'a second run on the same object meets nothing that the first one left, and leaves its result alone')
    m = Model(ctx)
    p = ctx.prog
    shared_state(ctx, p)
    N = p.cls('HypergraphNode')
    root_c = p.cls('GraphMonad')
    for c in concrete(p, root_c):
        f = p.find(c, 'execute')
        if f.is_gen or any(p.find(c, n).is_abstract for k in p.classes_of(c) for n in k.methods if p.find(c, n) is not None):
            continue
        ctx.guard('carry-over', c.name, one_class, ctx, m, c, N, where=f.where)
    ctx.minimum = 20


ONE, TWO = ('sym', 'start'), ('sym', 'start2')


def one_class(ctx, m, c, N):
    p = m.p
    f = p.find(c, 'execute')
    R = Runs(ctx, m, c, types={'start': N, 'start2': N, 'context': N})
    if c.name == 'CoordinateObjectTransformer' or p.find(c, 'reset') is not None and len(f.node.args.args) == 2:
        carried(R, c.name, [('reset', [ONE]), ('execute', [NONE])], [('reset', [TWO]), ('execute', [NONE])], 'carry-over', where=f.where)
        return
    carried(R, c.name, [('execute', [ONE])], [('execute', [TWO])], 'carry-over', where=f.where)
