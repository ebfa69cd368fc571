"""P12: no element becomes reachable before it is complete."""
import ast
from sa.interp import NONE, C, contains
from sa.loader import ClassInfo
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from . import worklist as W

HANDING = ('add_element', 'add_elements', 'connect', 'register', 'unary_connect', 'put', 'append')


def strip_ids(v):
    """a value without the serial numbers of calls"""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('call',) and len(v) == 5:
        return ('call',) + tuple(strip_ids(x) for x in v[1:4])
    if v[:1] == ('mcall',) and len(v) >= 5:
        return ('mcall',) + tuple(strip_ids(x) for x in v[1:5])
    return tuple(strip_ids(x) for x in v)


def clock_value(v):
    return contains(v, lambda x: isinstance(x, tuple) and x[:1] == ('mcall',) and len(x) > 2 and x[2] in ('get_time_ns', 'get_time', 'time_ns', 'now'))


def p12(ctx):
    ctx.rule('complete', 'when the constructor hands the element to its parent, every field it sets has its value, and none is set afterwards')
    ctx.rule('no-late-failure', 'a constructor does not fail once the element can be reached through its parent')
    ctx.rule('fields', 'every field that an operation of the element reads is set by its constructor')
    m = Model(ctx)
    p = m.p
    for c in m.family:
        if p.is_concrete(c) or c in (m.H,) or not [k for k in p.subclasses.get(c, [])]:
            fi = p.find(c, '__init__')
            if fi is None:
                continue
            ctx.guard('complete', c.name, birth, ctx, m, c, fi, where=f"{c.mod.relpath}:{c.node.lineno} {c.name}")
    ctx.minimum = 20


def birth(ctx, m, c, fi):
    where = f"{c.mod.relpath}:{c.node.lineno} {c.name}"
    I = m.interp(implicit=False)
    marks = {}

    def attach(I, st, recv, args, kw, fr, node, f=None):
        vals = list(args) + list(kw.values())
        if SELF not in vals or recv == SELF:
            return None
        n = I.new()
        marks[n] = {k: I.contents(st, v) if I.kind(st, v) == 'list' else None for (b, k), v in st.fields.items() if b == SELF}
        st.events.append(('do', 'attach', recv, tuple(vals), I.loc(fr, node), {v: st.ops.get(v, ()) for (b, k), v in st.fields.items() if b == SELF and v[0] == 'o'}))
        return [(st, NONE)]
    for n in HANDING:
        I.contracts['fn:' + n] = I.contracts['m:' + n] = attach
    p = m.p
    con = c.name
    st = m.start(c)
    names = [a.arg for a in fi.node.args.args][1:] + [a.arg for a in fi.node.args.kwonlyargs]
    st.vers['nonnull'] = (SELF,) + tuple(('sym', n) for n in names if n in ('uuid', 'id_name', 'qualified_name', 'progenitor_qualified_name'))
    # a parent is an element: its operations are those of an element
    if 'parent' in names:
        st.types[('sym', 'parent')] = m.H
    rs = I.entry(fi, [], st, recv=SELF, kwargs={n: ('sym', n) for n in names})
    finals = []
    for s, sig in rs:
        if none_of_all(I, p, s):
            continue
        ctx.paths += 1
        events = list(flat(s.events))
        at = None
        have = {}
        ok = True
        for e in events:
            if e[0] == 'write' and e[1] == SELF:
                if at is not None:
                    old = have.get(e[2])
                    if old is None:
                        ok = False
                        ctx.bad('complete', f"{con}.{e[2]}", where_of(e[4]), f"is set only after the element was handed over in line {at[4][1]}")
                    elif strip_ids(old) != strip_ids(e[3]) and not (clock_value(e[3]) and clock_value(old)):
                        fresh = old[0] == 'o' and e[3][0] == 'o'
                        ok = False
                        ctx.bad('complete', f"{con}.{e[2]}", where_of(e[4]),
                                f"{'is replaced' if fresh else 'gets its value'} after the element was handed over in line {at[4][1]}")
                have[e[2]] = e[3]
            elif at is None and escape(e):
                at = e
            elif at is not None and at[0] == 'do' and e[0] in ('setitem',) and e[1] in at[5]:
                ok = False
                ctx.bad('complete', con, where_of(e[-1]), f"its state changes after the element was handed over in line {at[4][1]}")
        if at is not None and at[0] == 'do' and sig[0] == 'return':
            for cont, ops in at[5].items():
                if s.ops.get(cont, ()) != ops:
                    ok = False
                    fld = next((k for (b, k), v in s.fields.items() if v == cont), '?')
                    ctx.bad('complete', f"{con}.{fld}", where, f"is filled after the element was handed over in line {at[4][1]}")
        if sig[0] == 'raise':
            if at is not None:
                ctx.bad('no-late-failure', con, where_of(sig[2]) if len(sig) > 2 else where, f"{exc_name(sig)} after the element was handed over in line {at[4][1]}")
            else:
                ctx.good('no-late-failure', con, where)
            continue
        finals.append({k for (b, k), v in s.fields.items() if b == SELF})
        if ok:
            ctx.good('complete', con + (' attached' if at is not None else ' not attached'), where, f"{len(have)} fields")
    if not finals:
        ctx.und('complete', con, where, 'no path ends normally')
        return
    reads(ctx, m, c, set.intersection(*finals), set.union(*finals), where)


def none_of_all(I, p, s):
    """a value that equals no member of its enumeration"""
    denied = {}
    for f, pol in s.facts:
        if not pol and f[0] in ('eq', 'is'):
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if b[0] == 'enum':
                    denied.setdefault((a, b[1]), set()).add(b[2])
    for (a, key), ms in denied.items():
        t = I.type_of(s, a)
        if isinstance(t, ClassInfo) and p.is_enum(t):
            n = sum(1 for b in t.node.body if isinstance(b, ast.Assign))
            if len(ms) >= n > 0:
                return True
    return False


def escape(e):
    """is the element handed to something that outlives the constructor?"""
    if e[0] == 'do':
        return True
    if e[0] == 'write' and e[1] != SELF and e[3] == SELF:
        return False if e[1][0] == 'o' else True
    if e[0] == 'setitem' and e[3] == SELF and e[1][0] != 'o':
        return True
    return False


def reads(ctx, m, c, fields, some, where):
    p = m.p
    defined = set()
    assigned = {}
    for k in p.classes_of(c):
        defined |= set(k.methods) | {n for n in k.setters}
        for b in k.node.body:
            for t in (b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) else []):
                if isinstance(t, ast.Name):
                    defined.add(k._mangle(t.id))
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defined.add(k._mangle(b.name))
    todo = {}
    external = any(not isinstance(k, ClassInfo) and k[1] not in ('abc.ABC', 'abc.ABCMeta', 'builtins.object', 'object', 'ABC') for k in p.mro(c))
    for k in p.classes_of(c):
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f is None or not f.node.args.args or f.is_static or f.is_classmethod:
                continue
            me = f.node.args.args[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    a = k._mangle(n.attr)
                    if isinstance(n.ctx, ast.Store):
                        if f.name != '__init__':
                            assigned.setdefault(a, f)
                    elif a not in defined:
                        todo.setdefault(a, (k, f, n))
    for a, (k, f, n) in sorted(todo.items()):
        if a in fields:
            ctx.good('fields', f"{c.name}.{a}", where)
        elif a.startswith('__') and a.endswith('__'):
            continue
        elif (a in assigned and a not in some) or external:
            ctx.und('fields', f"{c.name}.{a}", where, f"set elsewhere only: {assigned[a].qual if a in assigned else 'outside'}")
        elif guarded(f, n, a):
            ctx.und('fields', f"{c.name}.{a}", where, 'read under a test')
        else:
            ctx.bad('fields', f"{c.name}.{a}", f"{k.mod.relpath}:{n.lineno} {f.qual}", f"is read here, but a way through the constructor of {c.name} leaves it unset")


def guarded(f, n, a):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'vars'):
            return True
        if isinstance(x, ast.ExceptHandler) and x.type is not None and 'AttributeError' in ast.unparse(x.type):
            return True
    return False
