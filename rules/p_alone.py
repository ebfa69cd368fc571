"""P31: the library stands on its own. Imports are followed symbolically from every module as the first one, names are
resolved by scope (symbol tables of the compiler), attributes and calls by class hierarchy and by type inference (mypy)
on the source with its annotations left out, so that no verdict rests on an annotation. Nothing is executed or imported."""
import ast
import builtins
import os
import re
import shutil
import subprocess
import symtable
import sys
import tempfile
from sa.loader import AnalysisError, ClassInfo, FuncInfo
from .p_read import FILES, PARSER, VISITOR, load

ROOT = 'framework_python'
VENV = '/opt/venv/bin/python'
BUILTIN = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__', '__annotations__', '__class__', '__debug__', '__dict__', '__module__', '__qualname__'}
OBJECT = set(dir(object)) | set(dir(BaseException)) | {'__dict__', '__name__', '__qualname__', '__module__', '__annotations__', '__mro__', '__bases__', '__subclasses__', '__slots__', '__weakref__', '__abstractmethods__'}
FOREIGN = ('test', 'tests', 'apps')
NEEDED = ('antlr4',)            # needed by the generated parser and not installed where the checks run


def p31(ctx):
    ctx.rule('independent', 'no module of the library imports the test tree or an application')
    ctx.rule('import', 'every import of a module or of a name in it succeeds, whichever module is imported first')
    ctx.rule('name', 'every name a function uses is bound in a scope around it, in its module, or is built in')
    ctx.rule('private', 'every private attribute is defined in the class that uses it')
    ctx.rule('attribute', 'every attribute of a value of known class or module exists')
    ctx.rule('call', 'every call of a known function passes arguments it takes')
    ctx.rule('effect', 'no operation that has to be awaited or iterated is merely called')
    W = Whole(ctx)
    for m in W.mods:
        imports(W, m)
        scopes(W, m)
        uses(W, m)
    for m in W.mods:
        errs = Load(W).start(m.name)
        for rule, where, text in errs:
            if rule == 'und':
                ctx.und('import', f"{m.name} first", where, text)
            else:
                ctx.bad('import', f"{m.name} first", where, text)
        if not errs:
            ctx.good('import', f"{m.name} first", m.relpath)
    typed(W)
    ctx.minimum = 200


class Whole:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        try:
            load(ctx)            # stands for the generated parser
        except AnalysisError as e:
            ctx.notes.append(f"{e}.")
        self.mods = sorted((m for m in self.p.modules.values() if m.name not in (PARSER, VISITOR)), key=lambda m: m.name)
        self.packages = {'.'.join(m.name.split('.')[:i]) for m in self.mods for i in range(1, len(m.name.split('.')))}
        self.generated = generated(self.p)
        self.own = {m.name.split('.')[0] for m in self.mods}
        self.stores = {}         # attribute name -> classes (or None) that store it
        self.dynamic = set()     # classes that make attributes by computed name
        for m in self.mods:
            for c in m.classes.values():
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        self.stores.setdefault(c._mangle(n.attr), set()).add(c if isinstance(n.value, ast.Name) and n.value.id == 'self' else None)
                    if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars') or isinstance(n.func, ast.Attribute) and n.func.attr in ('__setattr__', '__dict__', 'update') and '__dict__' in ast.unparse(n.func)):
                        a = n.args[1] if len(n.args) > 1 else None
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            self.stores.setdefault(a.value, set()).add(None)
                        else:
                            self.dynamic.add(c)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.stores.setdefault(n.attr, set()).add(None)

    def family(self, c):
        """the classes a value that is known as c can have: their linearisations"""
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            todo += [y for y in self.p.subclasses.get(x, ()) if y not in out]
        return {y for x in out for y in self.p.classes_of(x)}

    def open(self, c):
        """has the class a base that is not analysed, or attributes of computed name?"""
        for k in self.family(c):
            if k in self.dynamic or '__getattr__' in k.methods or '__getattribute__' in k.methods or '__slots__' in k.class_attrs:
                return True
            for b in k.bases:
                if not isinstance(b, ClassInfo):
                    d = b[1] if isinstance(b, tuple) else str(b)
                    if d.split('.')[-1] not in ('ABC', 'object', 'Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'RuntimeError', 'Generic', 'Protocol'):
                        return True
        return False

    def has(self, c, a):
        """True / False / None: can a value known as c have the attribute?"""
        if a in OBJECT:
            return True
        fam = self.family(c)
        for k in fam:
            if a in k.methods or a in k.setters or a in k.class_attrs:
                return True
            if k in self.stores.get(a, ()):
                return True
            for st in k.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and k._mangle(st.target.id) == a:
                    return True
                if isinstance(st, ast.ClassDef) and st.name == a:
                    return True
        if self.open(c) or None in self.stores.get(a, ()):
            return None
        return False

    def exists(self, name):
        return name in self.p.modules or name in self.packages or name in self.generated

    def external(self, name):
        top = name.split('.')[0]
        if top in sys.stdlib_module_names or top in NEEDED:
            return True
        d = os.path.join(os.path.dirname(os.path.dirname(VENV)), 'lib')
        for v in os.listdir(d) if os.path.isdir(d) else ():
            s = os.path.join(d, v, 'site-packages', top)
            if os.path.exists(s) or os.path.exists(s + '.py'):
                return True
        return None


def generated(p):
    """modules the build generates from the grammar"""
    d = os.path.join(p.repo, FILES)
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith('.g4'):
            g = f[:-3]
            for k in ('Lexer', 'Parser', 'Visitor', 'Listener'):
                out[f"rei.format.cognilang.{g}{k}"] = {g + k, 'serializedATN'}
            out['rei.format.cognilang'] = {g + k for k in ('Lexer', 'Parser', 'Visitor', 'Listener')}
    return out


def absolute(m, node):
    """dotted name an import-from refers to"""
    if not node.level:
        return node.module or ''
    base = m.name.split('.')
    if not m.path.endswith('__init__.py'):
        base = base[:-1]
    base = base[:len(base) - (node.level - 1)]
    return '.'.join(base + ([node.module] if node.module else []))


# --------------------------------------------------------------------------------------------------- imports
def guarded(tree):
    """nodes within a try that handles a failing import, or in a block for type checkers"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException', 'AttributeError', 'NameError') for x in ast.walk(h.type)) for h in n.handlers):
            for s in n.body:
                out.update(id(x) for x in ast.walk(s))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
            for s in n.body:
                out.update(id(x) for x in ast.walk(s))
    return out


def imports(W, m):
    skip = guarded(m.tree)
    lib = m.name.split('.')[0] == 'rei'
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            targets = [(a.name, None) for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            targets = [(absolute(m, n), a.name) for a in n.names]
        else:
            continue
        for t, name in targets:
            at = f"{m.relpath}:{n.lineno}"
            con = f"{m.name}: {t}{'.' + name if name else ''}"
            top = t.split('.')[0]
            if lib:
                W.ctx.ob('independent', con, not (top in FOREIGN or top in W.own and top != 'rei'), at, f"the library depends on {top}")
            if top in FOREIGN and top not in W.own:
                continue
            if top in W.own:
                if id(n) in skip:
                    ok = True
                elif not W.exists(t):
                    ok = False
                elif name is None or name == '*':
                    ok = True
                else:
                    x = W.p.modules.get(t)
                    ok = W.exists(f"{t}.{name}") or (name in W.generated[t] if t in W.generated else x is not None and bound(x, name))
                W.ctx.ob('import', con, ok, at, 'there is no such module or name')
            else:
                e = W.external(t)
                W.ctx.ob('import', con, True if e or id(n) in skip else None, at, 'not installed here')


def bound(m, name):
    if name in m.names or name in m.functions or name in m.classes:
        return True
    try:
        return symbol(symtable.symtable(m.src, m.path, 'exec'), name)
    except SyntaxError:
        return True


def symbol(t, name):
    try:
        s = t.lookup(name)
        return s.is_assigned() or s.is_imported() or s.is_namespace()
    except KeyError:
        return False


class Load:
    """import of a module with everything it imports, as Python does it: which names exist when they are needed"""

    def __init__(self, W):
        self.W, self.names, self.done, self.errs = W, {}, set(), []
        self.soft = 0

    def start(self, name):
        self.load(name)
        seen, out = set(), []
        for e in self.errs:
            if e not in seen:
                seen.add(e)
                out.append(e)
        return out

    def fail(self, m, node, text, sure=True):
        if not self.soft:
            self.errs.append(('viol' if sure else 'und', f"{m.relpath}:{node.lineno}", text))

    def load(self, name):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            m = self.W.p.modules.get(n)
            if m is None or n in self.names:
                continue
            self.names[n] = set()
            future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names) for s in m.tree.body)
            self.block(m, m.tree.body, [self.names[n]], future)
            self.done.add(n)

    def block(self, m, body, env, future):
        for s in body:
            self.stmt(m, s, env, future)

    def bind(self, env, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                env[-1].add(x.id)

    def need(self, m, e, env, own=()):
        """names evaluated by an expression at import time"""
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.need(m, d, env, own)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(own)
            for g in e.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        inner.add(x.id)
            for c in ast.iter_child_nodes(e):
                for x in ([c] if not isinstance(c, ast.comprehension) else [c.iter] + c.ifs):
                    self.need(m, x, env, inner)
            return
        if isinstance(e, ast.NamedExpr):
            self.need(m, e.value, env, own)
            env[-1].add(e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in own and e.id not in BUILTIN and not any(e.id in x for x in env):
                self.fail(m, e, f"{e.id} is not bound yet when the module is imported")
            return
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            mod = m.names.get(e.value.id)
            if mod and mod[0] == 'mod' and mod[1] in self.W.p.modules and mod[1] in self.names:
                if e.attr not in self.names[mod[1]] and f"{mod[1]}.{e.attr}" not in self.names:
                    self.fail(m, e, f"{mod[1]} has no {e.attr} yet when the module is imported")
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword)):
                self.need(m, c.value if isinstance(c, ast.keyword) else c, env, own)

    def stmt(self, m, s, env, future):
        if isinstance(s, ast.Import):
            for a in s.names:
                self.load(a.name)
                env[-1].add(a.asname or a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            t = absolute(m, s)
            self.load(t)
            for a in s.names:
                if a.name == '*':
                    x = self.W.p.modules.get(t)
                    if x is not None:
                        env[-1] |= {n for n in self.names.get(t, ()) if not n.startswith('_')}
                    continue
                if self.W.exists(f"{t}.{a.name}") and a.name not in self.names.get(t, ()):
                    self.load(f"{t}.{a.name}")
                elif t in self.W.p.modules and t in self.names and a.name not in self.names[t]:
                    if t in self.done:
                        self.fail(m, s, f"{t} has no {a.name}")
                    else:
                        self.fail(m, s, f"{a.name} does not exist yet: {t} is still being imported")
                env[-1].add(a.asname or a.name)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                if not (isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter')):
                    self.need(m, d, env)
            a = s.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                self.need(m, d, env)
            if not future:
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    self.need(m, x.annotation, env)
                self.need(m, s.returns, env)
            env[-1].add(s.name)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.need(m, d, env)
            self.block(m, s.body, [env[0], set()], future)
            env[-1].add(s.name)
        elif isinstance(s, ast.If):
            t = ast.unparse(s.test)
            if 'TYPE_CHECKING' in t:
                self.block(m, s.orelse, env, future)
            elif '__name__' in t and '__main__' in t:
                self.block(m, s.orelse, env, future)
            else:
                self.need(m, s.test, env)
                self.soft += 1
                self.block(m, s.body, env, future)
                self.block(m, s.orelse, env, future)
                self.soft -= 1
        elif isinstance(s, ast.Try):
            self.soft += bool(s.handlers)
            self.block(m, s.body, env, future)
            for h in s.handlers:
                self.block(m, h.body, env, future)
            self.block(m, s.orelse, env, future)
            self.soft -= bool(s.handlers)
            self.block(m, s.finalbody, env, future)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            if isinstance(s, ast.For):
                self.need(m, s.iter, env)
                self.bind(env, s.target)
            elif isinstance(s, ast.While):
                self.need(m, s.test, env)
            else:
                for i in s.items:
                    self.need(m, i.context_expr, env)
                    if i.optional_vars is not None:
                        self.bind(env, i.optional_vars)
            self.block(m, s.body, env, future)
            self.block(m, getattr(s, 'orelse', []), env, future)
        elif isinstance(s, ast.Assign):
            self.need(m, s.value, env)
            for t in s.targets:
                self.bind(env, t)
        elif isinstance(s, ast.AnnAssign):
            if not future:
                self.need(m, s.annotation, env)
            if s.value is not None:
                self.need(m, s.value, env)
                self.bind(env, s.target)
        elif isinstance(s, ast.AugAssign):
            self.need(m, s.value, env)
        elif isinstance(s, (ast.Expr, ast.Assert)):
            self.need(m, s.value if isinstance(s, ast.Expr) else s.test, env)
        elif isinstance(s, (ast.Delete, ast.Pass, ast.Raise, ast.Match)):
            if isinstance(s, ast.Match):
                self.soft += 1
                for c in s.cases:
                    self.block(m, c.body, env, future)
                self.soft -= 1
        elif hasattr(ast, 'TypeAlias') and isinstance(s, ast.TypeAlias):
            self.bind(env, s.name)


# --------------------------------------------------------------------------------------------------- names
def scopes(W, m):
    top = symtable.symtable(m.src, m.path, 'exec')
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
    have = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            have |= set(n.names)
    lines = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    soft = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('globals', 'exec') for n in ast.walk(m.tree))
    caught = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Try) and any(h.type is None or 'NameError' in ast.unparse(h.type) for h in n.handlers):
            caught |= {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name)}

    def walk(t, qual):
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or t is top and not (s.is_assigned() or s.is_imported() or s.is_namespace())):
                n = s.get_name()
                ok = n in have or n in BUILTIN
                if not ok and (star or soft or n in caught):
                    ok = None
                plain = n
                if not ok and n.startswith('_') and '__' in n[1:]:
                    plain = '__' + n[1:].split('__', 1)[1]
                ln = next((l for l in lines.get(n, []) + lines.get(plain, []) if l >= t.get_lineno()), t.get_lineno())
                W.ctx.ob('name', f"{qual or m.name}: {n}", ok, f"{m.relpath}:{ln}", f"{n} is bound nowhere")
        for c in t.get_children():
            walk(c, f"{qual}.{c.get_name()}" if qual else c.get_name())
    walk(top, '')
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            early(W, m, n)


def early(W, m, f):
    """local names that no path has bound when they are used"""
    local, free = set(), set()
    for n in own_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            local.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            local |= {(a.asname or a.name.split('.')[0]) for a in n.names}
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            free |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            local.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            local.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            local.add(n.rest)
    a = f.args
    given = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    local -= free | given
    if not local:
        return
    bad = []

    def use(e, may):
        for n in own_nodes(e, True):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in may:
                bad.append(n)
        for n in own_nodes(e, True):
            if isinstance(n, ast.NamedExpr):
                may.add(n.target.id)

    def binds(t, may):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                may.add(n.id)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                may.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                may.add(n.rest)

    def block(body, may):
        """may-bound names at the end, or None if the end is not reached"""
        for s in body:
            if may is None:
                return None
            may = stmt(s, may)
        return may

    def join(*xs):
        xs = [x for x in xs if x is not None]
        return set().union(*xs) if xs else None

    def everything(body):
        out = set()
        for s in body:
            for n in own_nodes(s, True):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(x.asname or x.name.split('.')[0]) for x in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar, ast.ExceptHandler)) and n.name:
                    out.add(n.name)
                elif isinstance(n, ast.MatchMapping) and n.rest:
                    out.add(n.rest)
        return out

    def stmt(s, may):
        may = set(may)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            may.add(s.name)
            return may
        if isinstance(s, (ast.Return, ast.Raise)):
            use(s, may)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.If):
            use(s.test, may)
            return join(block(s.body, set(may)), block(s.orelse, set(may)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                may |= everything(s.body)          # bound by an earlier round
                use(s.test, may)
            else:
                use(s.iter, may)
                may |= everything(s.body)
                binds(s.target, may)
            block(s.body, set(may))
            block(s.orelse, set(may))
            return may | everything(s.body) | everything(s.orelse)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                use(i.context_expr, may)
                if i.optional_vars is not None:
                    binds(i.optional_vars, may)
            return block(s.body, may)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            b = block(s.body, set(may))
            part = may | everything(s.body)
            hs = []
            for h in s.handlers:
                hs.append(block(h.body, part | ({h.name} if h.name else set())))
            e = block(s.orelse, set(b)) if b is not None else None
            after = join(e, *hs)
            if s.finalbody:
                f2 = block(s.finalbody, part | everything(s.orelse) | {x for h in s.handlers for x in everything(h.body)})
                return None if after is None or f2 is None else after | f2
            return after
        if isinstance(s, ast.Match):
            use(s.subject, may)
            outs = [set(may)]
            for c in s.cases:
                x = set(may)
                binds(c.pattern, x)
                if c.guard is not None:
                    use(c.guard, x)
                outs.append(block(c.body, x))
            return join(*outs)
        if isinstance(s, ast.Assign):
            use(s.value, may)
            for t in s.targets:
                use(t, may)
                binds(t, may)
            return may
        if isinstance(s, ast.AugAssign):
            use(s.value, may)
            if isinstance(s.target, ast.Name) and s.target.id in local and s.target.id not in may:
                bad.append(s.target)
            use(s.target, may)
            return may
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                use(s.value, may)
                binds(s.target, may)
            return may
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return may | {(x.asname or x.name.split('.')[0]) for x in s.names}
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return may
        use(s, may)
        return may
    block(f.body, set())
    qual = f.name
    for n in {(x.id, x.lineno) for x in bad}:
        W.ctx.bad('name', f"{qual}: {n[0]}", f"{m.relpath}:{n[1]}", f"{n[0]} is used before anything binds it")
    if not bad:
        W.ctx.good('name', f"{m.name}.{qual}: {len(local)} local names", f"{m.relpath}:{f.lineno}")


def own_nodes(f, inner=False):
    """nodes of a function (or statement) without those of nested scopes; comprehension variables are their own"""
    todo = [f] if inner else list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            yield n
            todo.append(n.generators[0].iter)
            mine = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    todo.append(x.target)
            continue
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.ClassDef):
                todo += n.args.defaults + [x for x in n.args.kw_defaults if x is not None]
            todo += getattr(n, 'decorator_list', [])
            continue
        if isinstance(n, ast.AnnAssign):
            todo += [n.target] + ([n.value] if n.value is not None else [])
            continue
        todo.extend(ast.iter_child_nodes(n))


# --------------------------------------------------------------------------------------------------- attributes and calls
def uses(W, m):
    p = W.p
    for c in m.classes.values():
        names = {k for k in ()}
        same = [k for x in W.mods for k in x.classes.values() if k.name.lstrip('_') == c.name.lstrip('_')]
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.startswith('__') and not n.attr.endswith('__'):
                a = c._mangle(n.attr)
                ok = any(a in k.methods or a in k.setters or a in k.class_attrs for k in same) or a in W.stores
                if not ok and (any(W.open(k) for k in same) or hidden(c.node, n)):
                    ok = None
                W.ctx.ob('private', f"{c.name}{n.attr}", ok, f"{m.relpath}:{n.lineno}", f"no class stores or defines {a}")
    fs = list(m.functions.values()) + [f for c in m.classes.values() for f in list(c.methods.values()) + list(c.setters.values())]
    for f in fs:
        body(W, m, f)


def hidden(tree, node):
    """inside a try that expects the attribute to be missing"""
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) or 'Exception' in ast.unparse(h.type) for h in t.handlers):
            if any(x is node for s in t.body for x in ast.walk(s)):
                return True
    return False


def overrides(W, c, name):
    """definitions a call of the method on a value known as c can reach"""
    out = []
    todo, seen = [c], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = W.p.find(k, name)
        if isinstance(f, FuncInfo) and f not in out:
            out.append(f)
        todo += W.p.subclasses.get(k, ())
    return out


def accepts(f, call, bound_):
    """True / False / None: can the function be called like this?"""
    a = f.node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if any(d.split('(')[0] not in ('staticmethod', 'classmethod', 'abc.abstractmethod', 'abstractmethod', 'typing.final') for d in f.decorators):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound_:
        if not pos and not a.vararg:
            return False
        pos = pos[1:]
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return False
    got = set(pos[:n])
    only = {x.arg for x in a.posonlyargs}
    kw = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg in got:
            return False
        if k.arg not in pos and k.arg not in kw or k.arg in only:
            if not a.kwarg:
                return False
        got.add(k.arg)
    need = pos[:max(0, len(a.posonlyargs + a.args) - len(a.defaults) - (1 if bound_ else 0))]
    if any(x not in got for x in need):
        return False
    if any(x.arg not in got for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None):
        return False
    return True


def callee(W, m, c, f, e, shadow):
    """functions a call can reach, and whether the first parameter is taken; None if not known"""
    p = W.p
    if isinstance(e, ast.Name):
        if e.id in shadow:
            return None
        r = m.names.get(c._mangle(e.id) if c else e.id) or m.names.get(e.id)
        for _ in range(6):
            if r and r[0] == 'from' and r[1] in p.modules:
                r = p.modules[r[1]].names.get(r[2])
            else:
                break
        if not r:
            return None
        if r[0] == 'fn':
            return [r[1]], False
        if r[0] == 'cls':
            return ctor(W, r[1])
        return None
    if isinstance(e, ast.Attribute):
        if c and isinstance(e.value, ast.Name) and e.value.id == 'self' and 'self' not in shadow and not f.is_static:
            name = c._mangle(e.attr)
            fs = overrides(W, c, name)
            if not fs or name in W.stores or any(x.is_property or x.is_static or x.is_classmethod for x in fs):
                return None
            return fs, True
        if c and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super' and not e.value.args:
            out = []
            todo, seen = [c], set()
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                mro = p.mro(k)
                rest = mro[mro.index(c) + 1:] if c in mro else []
                for b in rest:
                    if not isinstance(b, ClassInfo):
                        if e.attr in ('__init__', '__new__') and is_abc(b):
                            continue
                        return None
                    if e.attr in b.methods:
                        out.append(b.methods[e.attr])
                        break
                else:
                    return None
                todo += p.subclasses.get(k, ())
            if any(x.is_property or x.is_static or x.is_classmethod for x in out):
                return None
            return (out, True) if out else None
        if isinstance(e.value, ast.Name) and e.value.id not in shadow:
            r = m.names.get(e.value.id)
            if r and r[0] == 'mod' and r[1] in p.modules:
                r = p.modules[r[1]].names.get(e.attr)
                if r and r[0] == 'fn':
                    return [r[1]], False
                if r and r[0] == 'cls':
                    return ctor(W, r[1])
    return None


def is_abc(b):
    d = b[1] if isinstance(b, tuple) else str(b)
    return d.split('.')[-1] in ('ABC', 'object')


def ctor(W, c):
    p = W.p
    for k in p.mro(c):
        if not isinstance(k, ClassInfo):
            if is_abc(k):
                continue
            return None
        if '__new__' in k.methods:
            return None
        if '__init__' in k.methods:
            return [k.methods['__init__']], True
    if any(ast.unparse(d) for k in p.classes_of(c) for d in k.node.decorator_list):
        return None
    return None


def body(W, m, f):
    c = f.cls
    names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    names |= {x.arg for n in ast.walk(f.node) if isinstance(n, (ast.arguments,)) for x in n.posonlyargs + n.args + n.kwonlyargs}
    names |= {n.name for n in ast.walk(f.node) if n is not f.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
    names |= {n.name for n in ast.walk(f.node) if isinstance(n, (ast.MatchAs, ast.MatchStar, ast.ExceptHandler)) and n.name}
    first = f.node.args.args[0].arg if f.node.args.args else None
    shadow = names - ({'self'} if first == 'self' and not any(isinstance(n, ast.Name) and n.id == 'self' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) else set())
    skip = {id(n) for n in ast.walk(f.node) if isinstance(n, ast.ClassDef) for n in ast.walk(n)}
    for n in ast.walk(f.node):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' and c and 'self' not in shadow and not f.is_static and not f.is_classmethod:
            a = c._mangle(n.attr)
            if not (n.attr.startswith('__') and not n.attr.endswith('__')):
                ok = W.has(c, a)
                if ok is False and hidden(f.node, n):
                    ok = None
                W.ctx.ob('attribute', f"{c.name}.{n.attr}", ok, f"{m.relpath}:{n.lineno} {f.qual}", f"{c.name} has no {n.attr}")
        if isinstance(n, ast.Call):
            r = callee(W, m, c, f, n.func, shadow)
            if r is None:
                continue
            fs, bnd = r
            rs = [accepts(x, n, bnd) for x in fs]
            ok = None if None in rs else any(rs)
            W.ctx.ob('call', f"{f.qual}: {ast.unparse(n.func)[:60]}", ok, f"{m.relpath}:{n.lineno} {f.qual}",
                     f"{ast.unparse(n)[:80]} does not fit {fs[0].qual}({ast.unparse(fs[0].node.args)})" if ok is False else '')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            r = callee(W, m, c, f, n.value.func, shadow)
            fs = r[0] if r else method_anywhere(W, n.value.func)
            if not fs:
                continue
            lazy = [x for x in fs if (x.is_async or x.is_gen) and not x.is_abstract]
            hard = [x for x in fs if not (x.is_async or x.is_gen) and not x.is_abstract]
            if lazy and not hard and not any(x.decorators and not x.is_abstract and not set(x.decorators) <= {'staticmethod', 'classmethod'} for x in lazy):
                W.ctx.bad('effect', f"{f.qual}: {ast.unparse(n.value.func)[:60]}", f"{m.relpath}:{n.lineno} {f.qual}", f"{lazy[0].qual} is {'to be awaited' if lazy[0].is_async else 'a generator'}; calling it alone does nothing")
            else:
                W.ctx.good('effect', f"{f.qual}: {ast.unparse(n.value.func)[:60]}", f"{m.relpath}:{n.lineno}")


def method_anywhere(W, e):
    """all definitions of a method that has this name and of no other library"""
    if not isinstance(e, ast.Attribute) or e.attr.startswith('__'):
        return None
    fs = [c.methods[e.attr] for m in W.mods for c in m.classes.values() if e.attr in c.methods]
    if not fs or e.attr in ('append', 'extend', 'add', 'remove', 'discard', 'clear', 'update', 'insert', 'put', 'get', 'pop', 'close', 'sort', 'cancel', 'run', 'write', 'join', 'execute', 'reset', 'start', 'stop', 'set', 'wait', 'send', 'throw'):
        return None
    return fs


# --------------------------------------------------------------------------------------------------- types
def blank(src, tree):
    """the source without its annotations, at the same places"""
    lines = src.split('\n')
    rows = [l.encode() for l in lines]
    starts = [0]
    for r in rows:
        starts.append(starts[-1] + len(r) + 1)
    data = bytearray('\n'.join(lines).encode())

    def at(line, col):
        return starts[line - 1] + col

    def wipe(a, b):
        for i in range(a, b):
            if data[i:i + 1] != b'\n':
                data[i:i + 1] = b' '
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                if x.annotation is not None:
                    s = at(x.lineno, x.col_offset) + len(x.arg.encode())
                    wipe(s, at(x.annotation.end_lineno, x.annotation.end_col_offset))
            if n.returns is not None:
                e = at(n.returns.end_lineno, n.returns.end_col_offset)
                s = data.rfind(b'->', 0, at(n.returns.lineno, n.returns.col_offset))
                wipe(s, e)
        elif isinstance(n, ast.AnnAssign):
            if n.value is None:
                s, e = at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
                wipe(s, e)
                if e - s >= 4:
                    data[s:s + 4] = b'pass'
                else:
                    data[s:s + 1] = b'0'
            else:
                s = at(n.target.end_lineno, n.target.end_col_offset)
                wipe(s, at(n.annotation.end_lineno, n.annotation.end_col_offset))
    out = data.decode()
    try:
        ast.parse(out)
    except SyntaxError:
        return None
    return out


LINE = re.compile(r'^(.*?\.py):(\d+): error: (.*)  \[([a-z-]+)\]$')


def typed(W):
    d = tempfile.mkdtemp(prefix='verif_types_')
    try:
        n = 0
        for m in W.mods:
            t = blank(m.src, m.tree)
            if t is None:
                W.ctx.und('attribute', m.name, m.relpath, 'annotations could not be left out')
                t = m.src
            q = os.path.join(d, os.path.relpath(m.path, os.path.join(W.p.repo, ROOT)))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w', encoding='utf-8') as fh:
                fh.write(t)
            n += 1
        tops = sorted(x for x in os.listdir(d))
        cmd = [sys.executable, '-m', 'mypy'] if False else ['mypy']
        cmd += ['--check-untyped-defs', '--explicit-package-bases', '--namespace-packages', '--no-error-summary', '--no-color-output', '--hide-error-context', '--config-file=',
                '--enable-error-code', 'used-before-def', '--cache-dir', os.path.join(d, '.cache')]
        if os.path.exists(VENV):
            cmd += ['--python-executable', VENV]
        try:
            r = subprocess.run(cmd + tops, cwd=d, capture_output=True, text=True, timeout=300, env={**os.environ, 'MYPYPATH': '', 'PYTHONDONTWRITEBYTECODE': '1'})
        except (OSError, subprocess.TimeoutExpired) as e:
            W.ctx.und('attribute', 'type inference', '', f"not available: {type(e).__name__}")
            return
        if r.returncode not in (0, 1):
            W.ctx.und('attribute', 'type inference', '', (r.stderr or r.stdout)[-200:])
            return
        found = {}
        for line in r.stdout.splitlines():
            x = LINE.match(line)
            if x:
                judge(W, x.group(1), int(x.group(2)), x.group(3), x.group(4), found)
        for m in W.mods:
            k = len([1 for x in ast.walk(m.tree) if isinstance(x, (ast.Attribute, ast.Call))])
            if m.name not in found:
                W.ctx.good('attribute', f"types of {m.name}: {k} attributes and calls", m.relpath)
        W.ctx.notes.append(f"Types inferred without annotations over {n} modules.")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(W, path, line, text, code, found):
    m = next((m for m in W.mods if m.path.endswith(os.sep + path)), None)
    if m is None:
        return
    at = f"{m.relpath}:{line}"
    classes = {c.name: c for x in W.mods for c in x.classes.values()}

    def rec(rule, con, ok, detail=text):
        found[m.name] = True
        W.ctx.ob(rule, con, ok, at, detail)
    if code == 'attr-defined':
        x = re.match(r'^"(?:type\[)?([\w.]+)(?:\[.*\])?\]?" has no attribute "(\w+)"', text)
        if text.startswith('Module'):
            y = re.match(r'^Module "?([\w.]+)"? has no attribute "(\w+)"', text)
            if y and any(y.group(1) in g or y.group(1).startswith(g + '.') for g in W.generated):
                return
            rec('attribute', f"{m.name}: {text[7:60]}", None if soft(m, line) else False)
        elif x and x.group(1) in classes:
            ok = W.has(classes[x.group(1)], x.group(2))
            rec('attribute', f"{x.group(1)}.{x.group(2)}", None if ok is False and soft(m, line) else ok)
        elif x and x.group(1) in ('None', 'object', 'Never', 'type', 'function'):
            rec('attribute', f"{x.group(1)}.{x.group(2)}", None)
        elif x:
            rec('attribute', f"{x.group(1)}.{x.group(2)}", None if soft(m, line) else False)
        else:
            rec('attribute', text[:60], None)
    elif code == 'call-arg':
        x = re.search(r'for "(\w+)" of "(\w+)', text) or re.search(r'in call to "(\w+)" of "(\w+)', text)
        y = re.search(r'(?:for|to) "(\w+)"$', text)
        if x and x.group(2) in classes:
            fs = overrides(W, classes[x.group(2)], x.group(1))
            call = next((n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and n.lineno <= line <= (n.end_lineno or line) and isinstance(n.func, ast.Attribute) and n.func.attr == x.group(1)), None)
            rs = [accepts(f, call, True) for f in fs] if call is not None else [None]
            rec('call', f"{x.group(2)}.{x.group(1)}", False if rs and all(r is False for r in rs) else None)
        elif y and not x:
            rec('call', y.group(1), False)
        else:
            rec('call', text[:60], None)
    elif code == 'import-not-found':
        x = re.search(r'module named "([\w.]+)"', text)
        top = x.group(1).split('.')[0] if x else ''
        if top in sys.stdlib_module_names or top == 'numpy':
            rec('import', f"{m.name}: {x.group(1)}", None if soft(m, line) else False)
    elif code == 'used-before-def':
        rec('name', text[:60], False)
    elif code == 'abstract':
        rec('call', text[:70], False)
    elif code in ('unused-coroutine', 'unused-awaitable'):
        rec('effect', text[:60], False)
    elif code in ('operator', 'call-overload', 'index') and 'None' not in text:
        x = re.match(r'^Value of type "(\w+)" is not indexable', text)
        if x and x.group(1) in classes:
            rec('attribute', f"{x.group(1)}[]", W.has(classes[x.group(1)], '__getitem__'))
        else:
            rec('call', f"{m.name}: {text[:60]}", None)


def soft(m, line):
    """in a try, or under a question whether the attribute is there"""
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and t.handlers and t.body[0].lineno <= line <= t.body[-1].end_lineno:
            return True
        if isinstance(t, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(t.test) and t.lineno <= line <= t.end_lineno:
            return True
    return False
