"""P32: every class that can be made honours what its ancestors promise."""
import ast
from sa.interp import State, C
from sa.loader import ClassInfo
from .hier import Model, SELF
from .p_birth import reads

EXC = ('Exception', 'BaseException')


def p32(ctx):
    ctx.rule('implemented', 'every class without subclasses implements each operation its interfaces declare, and no class that lacks one is made')
    ctx.rule('arguments', 'an operation takes every call that the operation it overrides takes')
    ctx.rule('default', 'an argument that is left out means the same as for the operation that is overridden')
    ctx.rule('kind', 'an operation is awaited, iterated, read or called as the one it overrides')
    ctx.rule('settable', 'what can be set through an interface can be set in every class')
    ctx.rule('initialised', 'a constructor sets every field that an operation of the class reads')
    ctx.rule('identity', 'elements keep their identity as keys: none defines equality without a hash')
    m = Model(ctx)
    p = m.p
    classes = [c for x in sorted(p.modules.values(), key=lambda x: x.name) for c in x.classes.values()]
    made = instantiated(p)
    for c in classes:
        implemented(ctx, p, c, made)
        overrides(ctx, p, c, classes)
        hashes(ctx, p, c, m)
    for c in classes:
        if p.is_concrete(c) and c not in m.family and not p.is_enum(c):
            ctx.guard('initialised', c.name, initialised, ctx, p, c, where=f"{c.mod.relpath}:{c.node.lineno} {c.name}")
    ctx.minimum = 150


def stub(f):
    """only raises: declares an operation"""
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Raise) and b[0].exc is not None and 'NotImplemented' in ast.unparse(b[0].exc)


def declares(f):
    return f.is_abstract or stub(f)


def instantiated(p):
    out = {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = m.names.get(n.func.id)
                for _ in range(6):
                    if r and r[0] == 'from' and r[1] in p.modules:
                        r = p.modules[r[1]].names.get(r[2])
                    else:
                        break
                if r and r[0] == 'cls':
                    out.setdefault(r[1], f"{m.relpath}:{n.lineno}")
    return out


def implemented(ctx, p, c, made):
    where = f"{c.mod.relpath}:{c.node.lineno} {c.name}"
    names, taken = [], set()
    for k in p.classes_of(c):
        for n, f in k.methods.items():
            if n not in taken and n not in names and declares(f):
                names.append(n)
            taken.add(n)
        taken |= set(k.class_attrs)
    own = [n for n, f in c.methods.items() if declares(f)]
    for k in p.classes_of(c):
        for n, f in k.methods.items():
            if declares(f) and p.find(c, n) is not None and not declares(p.find(c, n)):
                ctx.good('implemented', f"{c.name}.{n}", where)
    if not names:
        return
    abstract = bool(own) or any(not isinstance(b, ClassInfo) and str(b[1]).endswith(('ABC', 'Protocol')) for b in c.bases) or any('ABCMeta' in ast.unparse(k.value) for k in c.node.keywords)
    external = any(not isinstance(b, ClassInfo) and not str(b[1]).endswith(('ABC', 'object', 'Protocol', 'Exception')) for k in p.classes_of(c) for b in k.bases)
    leaf = not p.subclasses.get(c)
    for n in names:
        if c in made:
            ctx.bad('implemented', f"{c.name}.{n}", where, f"is made at {made[c]}, but {n} is only declared")
        elif abstract or not leaf:
            ctx.good('implemented', f"{c.name} is an interface: {n}", where)
        else:
            ctx.ob('implemented', f"{c.name}.{n}", None if external else False, where, f"{n} is declared by an interface and implemented nowhere")


def lower(f):
    """calls a function takes: names by position, number needed, keyword-only names and those needed, * and **"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    need = len(pos) - len(a.defaults)
    if not f.is_static:
        pos, need = pos[1:], max(0, need - 1)
    kw = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    return pos, need, kw, a.vararg, a.kwarg, len(a.posonlyargs)


def default(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    return d.get(name)


def kind(f):
    return 'property' if f.is_property else 'static' if f.is_static else 'class' if f.is_classmethod else 'plain'


def flow(f):
    return {(False, False): 'called', (True, False): 'awaited', (False, True): 'iterated', (True, True): 'iterated asynchronously'}[f.is_async, f.is_gen]


def keyword_used(p, name, arg):
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name and any(k.arg == arg for k in n.keywords):
                return f"{m.relpath}:{n.lineno}"
    return None


def gives(f):
    """what a plain function hands back: 'nothing' if no return has a value, 'constant', else 'something'"""
    vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    if not any(v is not None for v in vals):
        return 'nothing'
    if all(v is None or isinstance(v, ast.Constant) for v in vals):
        return 'constant'
    return 'something'


def overrides(ctx, p, c, classes):
    for n, f in c.methods.items():
        if n in ('__init__', '__new__', '__init_subclass__', '__class_getitem__') or n.startswith('_') and not n.startswith('__') and '__' in n[1:]:
            continue
        bases = [k.methods[n] for k in p.classes_of(c)[1:] if n in k.methods]
        if n in c.class_attrs:
            continue
        if any(d.split('(')[0] not in ('abc.abstractmethod', 'abstractmethod', 'property', 'staticmethod', 'classmethod', 'functools.cached_property', 'cached_property', 'typing.override', 'override') and not d.endswith('.setter') for d in f.decorators):
            if bases:
                ctx.und('arguments', f"{c.name}.{n}", f.where, 'decorated')
            continue
        for g in bases:
            con = f"{c.name}.{n} for {g.cls.name}"
            if kind(f) != kind(g):
                ctx.bad('kind', con, f.where, f"{kind(f)} instead of {kind(g)}")
                continue
            ctx.good('kind', f"{con}: {kind(f)}", f.where)
            if f.is_property:
                continue
            flows(ctx, p, c, n, f, g, con, classes)
            arguments(ctx, p, n, f, g, con)
        # properties that lose their setter
        if f.is_property and n not in c.setters:
            for k in p.classes_of(c)[1:]:
                if n in k.setters:
                    ctx.bad('settable', f"{c.name}.{n}", f.where, f"{k.name} lets it be set")
                    break
                if n in k.methods:
                    break
    for k in p.classes_of(c)[1:]:
        for n in k.setters:
            if p.find_setter(c, n) is not None:
                ctx.good('settable', f"{c.name}.{n}", f"{c.mod.relpath}:{c.node.lineno} {c.name}")


def flows(ctx, p, c, n, f, g, con, classes):
    a, b = flow(f), flow(g)
    if declares(f):
        return
    if declares(g):
        # a declaration tells whether it is awaited; whether it is iterated is told by those who implement it
        if g.is_gen:
            pass
        elif f.is_async and not g.is_async or g.is_async and not f.is_async:
            b = 'awaited' if g.is_async else 'called'
        else:
            sib = {}
            for k in classes:
                h = k.methods.get(n)
                if h is not None and h is not f and not declares(h) and g.cls in p.mro(k) and k is not c:
                    sib.setdefault(flow(h), []).append(k.name)
            if not sib:
                ctx.good('kind', f"{con}: {a}", f.where)
                return
            best = sorted(sib, key=lambda x: (-len(sib[x]), x))[0]
            if a in sib and len(sib[a]) >= len(sib[best]):
                b = a
            else:
                b = best
    if a == b:
        ctx.good('kind', f"{con}: {a}", f.where)
    elif a == 'called' and gives(f) == 'something':
        ctx.und('kind', con, f.where, f"{b} through {g.cls.name}; hands on what it gets")
    elif a == 'called' and b == 'iterated' and gives(f) == 'constant' and all(isinstance(x.value, ast.Constant) and x.value.value in ('', ()) for x in ast.walk(f.node) if isinstance(x, ast.Return)):
        ctx.und('kind', con, f.where, 'empty')
    elif b == 'called' and not declares(g) and gives(g) == 'something':
        ctx.und('kind', con, f.where, f"{a}; {g.cls.name} hands on what it gets")
    else:
        ctx.bad('kind', f"{c.name}.{n}", f.where, f"is {a}, but {b} through {g.cls.name}")


def arguments(ctx, p, n, f, g, con):
    fp, fneed, fkw, fva, fkwa, _ = lower(f)
    gp, gneed, gkw, gva, gkwa, _ = lower(g)
    bad = und = None
    if len(gp) > len(fp) and not fva:
        bad = f"takes {len(fp)} arguments, {g.qual} takes {len(gp)}"
    elif fneed > gneed and not (gva and not gp):
        bad = f"needs {fneed} arguments, {g.qual} needs {gneed}"
    elif gva and not fva and not len(fp) > len(gp):
        bad = f"{g.qual} takes any number of arguments"
    elif gkwa and not fkwa:
        und = f"{g.qual} takes any keyword"
    else:
        for k, d in fkw.items():
            if d is None and k not in gkw and k not in gp:
                bad = f"needs {k}"
        for k in gkw:
            if k not in fkw and k not in fp and not fkwa:
                bad = f"does not take {k}"
        for i, k in enumerate(gp):
            if k not in fp and k not in fkw and not fkwa:
                use = keyword_used(p, n, k)
                if use:
                    bad = f"does not know the argument {k}, named at {use}"
                else:
                    und = f"the argument {k} has another name"
            elif k in fp and fp.index(k) != i:
                bad = f"takes {k} at another place"
    ctx.ob('arguments', con, False if bad else None if und else True, f.where, bad or und or '')
    for i, k in enumerate(gp):
        d = default(g, k)
        other = fp[i] if i < len(fp) else None
        e = default(f, k) if k in fp or k in fkw else default(f, other) if other else None
        if d is None or e is None:
            continue
        if ast.dump(d) == ast.dump(e):
            ctx.good('default', f"{con}: {k}", f.where)
        else:
            same = None
            try:
                x, y = ast.literal_eval(d), ast.literal_eval(e)
                same = x == y and type(x) is type(y)
            except ValueError:
                pass
            ctx.ob('default', f"{con}: {k}", same, f.where, f"{ast.unparse(e)} instead of {ast.unparse(d)}")


def hashes(ctx, p, c, m):
    """elements are keys of maps and members of sets"""
    if c not in m.family and c is not m.H and not p.issub(c, m.H):
        return
    where = f"{c.mod.relpath}:{c.node.lineno} {c.name}"
    for k in p.classes_of(c):
        eq = '__eq__' in k.methods or '__eq__' in k.class_attrs
        h = '__hash__' in k.methods or '__hash__' in k.class_attrs
        if eq and not h:
            ctx.bad('identity', c.name, where, f"{k.name} defines equality and no hash, so the element is no key")
            return
        if '__hash__' in k.class_attrs and isinstance(k.class_attrs['__hash__'], ast.Constant) and k.class_attrs['__hash__'].value is None:
            ctx.bad('identity', c.name, where, f"{k.name} has no hash")
            return
        if any('dataclass' in ast.unparse(d) for d in k.node.decorator_list):
            ctx.und('identity', c.name, where, 'generated equality')
            return
        if eq or h:
            break
    ctx.good('identity', c.name, where)


class Holder:
    def __init__(self, p):
        self.p = p


def initialised(ctx, p, c):
    where = f"{c.mod.relpath}:{c.node.lineno} {c.name}"
    fi = p.find(c, '__init__')
    if fi is None:
        fields = set()
        reads(ctx, Holder(p), c, fields, fields, where) if False else None
        return relay(ctx, p, c, set(), set(), where)
    I = ctx.interp(implicit=False)
    st = State()
    st.types[SELF] = c
    st.vers['exact'] = (SELF,)
    names = [a.arg for a in fi.node.args.args][1:] + [a.arg for a in fi.node.args.kwonlyargs]
    kwargs = {n: ('sym', n) for n in names}
    if any(True for k in p.classes_of(c) for b in k.bases if not isinstance(b, ClassInfo) and not str(b[1]).endswith(('ABC', 'object') + EXC)):
        ctx.und('initialised', c.name, where, 'has an ancestor outside the program')
        return
    rs = I.entry(fi, [], st, recv=SELF, kwargs=kwargs)
    finals = [{k for (b, k), v in s.fields.items() if b == SELF} for s, sig in rs if sig[0] == 'return']
    ctx.paths += len(rs)
    if not finals:
        ctx.und('initialised', c.name, where, 'no path ends normally')
        return
    relay(ctx, p, c, set.intersection(*finals), set.union(*finals), where)


def relay(ctx, p, c, fields, some, where):
    """as for elements, under this rule's name"""
    class Sub:
        def good(self, rule, *a):
            ctx.good('initialised', *a)

        def und(self, rule, *a):
            ctx.und('initialised', *a)

        def bad(self, rule, *a):
            ctx.bad('initialised', *a)
    reads(Sub(), Holder(p), c, fields, some, where)
