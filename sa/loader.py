"""Program model: parsed modules, resolved imports, classes (C3 linearised) and functions.

Nothing of the analysed repository is imported or executed; everything comes from its source text.
"""
import ast
import copy
import hashlib
import os


class AnalysisError(Exception):
    """The analysed program lacks something a rule needs (vanished anchor)."""


class FuncInfo:
    def __hash__(self):
        return self._h

    def __init__(self, mod, cls, node, outer=None):
        self._h = hash((mod.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        self.mod, self.cls, self.node, self.outer = mod, cls, node, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        deco = []
        for d in getattr(node, 'decorator_list', []):
            deco.append(ast.unparse(d))
        self.decorators = deco
        self.is_property = any(d in ('property', 'functools.cached_property', 'cached_property', 'abc.abstractproperty')
                               for d in deco)
        self.setter_for = next((d.split('.')[0] for d in deco if d.endswith('.setter')), None)
        self.is_static = 'staticmethod' in deco
        self.is_classmethod = 'classmethod' in deco
        self.is_abstract = any(d.endswith('abstractmethod') for d in deco)
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = _has_yield(node)
        self.locals = None
        self.lex = None          # class around a nested function

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    @property
    def where(self):
        return f"{self.mod.relpath}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return f"<F {self.mod.name}:{self.qual}>"


def _has_yield(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __hash__(self):
        return self._h

    def __init__(self, mod, node):
        self._h = hash((mod.name, node.name, node.lineno))
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = []          # ClassInfo or ('ext', dotted)
        self.methods = {}        # name -> FuncInfo (last definition)
        self.setters = {}
        self.class_attrs = {}    # name -> ast expr
        self._mro = None
        for st in node.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(self.mod, self, st)
            if f.setter_for:
                self.setters[self._mangle(f.setter_for)] = f
            else:
                self.methods[self._mangle(st.name)] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.class_attrs[self._mangle(t.id)] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.class_attrs[self._mangle(st.target.id)] = st.value

    def _mangle(self, n):
        if n.startswith('__') and not n.endswith('__'):
            return '_' + self.name.lstrip('_') + n
        return n

    @property
    def key(self):
        return f"{self.mod.name}.{self.name}"

    def __repr__(self):
        return f"<C {self.key}>"


class Module:
    def __init__(self, name, path, relpath, tree, src):
        self.name, self.path, self.relpath, self.tree, self.src = name, path, relpath, tree, src
        self.names = {}      # local name -> ('mod',n) ('cls',ClassInfo) ('fn',FuncInfo) ('from',mod,attr) ('expr',node)
        self.functions = {}
        self.classes = {}


def plainer(tree):
    """the same program with fewer ways of writing a loop:
       it = iter(e); while True: try: x = next(it) except StopIteration: break; ...   ->   for x in e: ...
       while True: if c: break; ...                                                  ->   while not c: ...
       def f(..): return (x for x in e)                                              ->   def f(..): yield from ..."""
    FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)

    def true(e):
        return isinstance(e, ast.Constant) and e.value in (True, 1)

    def cursor(a, w, fn):
        if not (isinstance(a, (ast.Assign, ast.AnnAssign)) and isinstance(w, ast.While) and true(w.test) and not w.orelse and len(w.body) > 1):
            return None
        tg = a.targets[0] if isinstance(a, ast.Assign) and len(a.targets) == 1 else getattr(a, 'target', None)
        v, t = a.value, w.body[0]
        if not (isinstance(tg, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'iter' and len(v.args) == 1 and not v.keywords):
            return None
        if not (isinstance(t, ast.Try) and len(t.body) == 1 and not t.orelse and not t.finalbody and len(t.handlers) == 1 and isinstance(t.body[0], ast.Assign)
                and len(t.body[0].targets) == 1):
            return None
        h, n = t.handlers[0], t.body[0].value
        if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
            return None
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and len(n.args) == 1 and isinstance(n.args[0], ast.Name)
                and n.args[0].id == tg.id):
            return None
        if sum(isinstance(x, ast.Name) and x.id == tg.id for x in ast.walk(fn)) != 2:
            return None
        return ast.copy_location(ast.For(t.body[0].targets[0], v.args[0], w.body[1:], [], None), w)

    def block(b, fn):
        i = 0
        while i + 1 < len(b):
            r = cursor(b[i], b[i + 1], fn)
            if r is not None:
                b[i:i + 2] = [r]
            i += 1
        for w in b:
            if isinstance(w, ast.While) and true(w.test) and not w.orelse:
                while len(w.body) > 1 and isinstance(w.body[0], ast.If) and not w.body[0].orelse and len(w.body[0].body) == 1 and isinstance(w.body[0].body[0], ast.Break):
                    c = w.body[0].test
                    c = c.operand if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), c), c)
                    w.test = c
                    del w.body[0]
                    break
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(w, fld, None), list) and not isinstance(w, FN + (ast.ClassDef,)):
                    block(getattr(w, fld), fn)
            for h in getattr(w, 'handlers', None) or []:
                block(h.body, fn)
            for c in getattr(w, 'cases', None) or []:
                block(c.body, fn)

    def lazy(e):
        """reading it does nothing yet"""
        if isinstance(e, (ast.Name, ast.Lambda, ast.Constant)):
            return True
        if isinstance(e, ast.Attribute):
            return lazy(e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('values', 'items', 'keys') and not e.args:
            return lazy(e.func.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('map', 'filter') and not e.keywords:
            return all(lazy(x) for x in e.args)
        return False

    for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        block(fn.body, fn)
        b = fn.body[1:] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
        if isinstance(fn, ast.AsyncFunctionDef) or len(b) != 1 or not isinstance(b[0], ast.Return):
            continue
        v = b[0].value
        if isinstance(v, ast.GeneratorExp) and lazy(v.generators[0].iter) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('map', 'filter') and lazy(v):
            fn.body[-1] = ast.copy_location(ast.Expr(ast.copy_location(ast.YieldFrom(v), v)), b[0])
    return tree


class Program:
    def __init__(self, repo, subdirs=('framework_python/rei', 'framework_python/apps')):
        self.repo = repo
        self.modules = {}
        self.errors = []
        root = os.path.join(repo, 'framework_python')
        for sub in subdirs:
            base = os.path.join(repo, sub)
            for dp, dn, fn in os.walk(base):
                dn.sort()
                for f in sorted(fn):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    try:
                        tree = plainer(ast.parse(src, p))
                    except SyntaxError as e:
                        self.errors.append(f"{p}: {e}")
                        continue
                    self.modules[name] = Module(name, p, os.path.relpath(p, repo), tree, src)
        for m in self.modules.values():
            self._collect(m)
        self.link()

    def link(self):
        """resolve the base classes of every class"""
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._base(m, b) for b in c.node.bases]
                c._mro = None
        self.subclasses = {}
        for c in self.all_classes():
            for b in self.mro(c)[1:]:
                if isinstance(b, ClassInfo):
                    self.subclasses.setdefault(b, []).append(c)

    def add(self, name, src):
        """a further module, written by a rule (client programs over the code under analysis)"""
        m = Module(name, name, name, ast.parse(src, name), src)
        self.modules[name] = m
        self._collect(m)
        for c in m.classes.values():
            c.bases = [self._base(m, b) for b in c.node.bases]
        for c in m.classes.values():
            for b in self.mro(c)[1:]:
                if isinstance(b, ClassInfo):
                    self.subclasses.setdefault(b, []).append(c)
        return m

    def digest(self, mods=None):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode()); h.update(self.modules[n].src.encode())
        return h.hexdigest()

    def _collect(self, m):
        def walk(body):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.names[a.asname] = ('mod', a.name)
                        else:
                            m.names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ''
                    if st.level:
                        parts = m.name.split('.')
                        parts = parts[:len(parts) - st.level]
                        base = '.'.join(parts + ([st.module] if st.module else []))
                    for a in st.names:
                        m.names[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(st, ast.ClassDef):
                    c = ClassInfo(m, st)
                    m.classes[st.name] = c
                    m.names[st.name] = ('cls', c)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(m, None, st)
                    m.functions[st.name] = f
                    m.names[st.name] = ('fn', f)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ('expr', st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.names[st.target.id] = ('expr', st.value)
                elif isinstance(st, (ast.If, ast.Try)):
                    walk(st.body); walk(st.orelse)
        walk(m.tree.body)

    def resolve_name(self, m, name, depth=0):
        """-> ('mod',name) ('cls',C) ('fn',F) ('expr',node,module) ('ext',dotted) or None"""
        r = m.names.get(name)
        if r is None:
            return None
        if r[0] == 'from':
            _, base, attr = r
            if base in self.modules:
                m2 = self.modules[base]
                if attr in m2.names and depth < 10:
                    return self.resolve_name(m2, attr, depth + 1)
            if f"{base}.{attr}" in self.modules:
                return ('mod', f"{base}.{attr}")
            return ('ext', f"{base}.{attr}")
        if r[0] == 'expr':
            return ('expr', r[1], m)
        if r[0] == 'mod':
            return r if r[1] in self.modules else ('ext', r[1])
        return r

    def _base(self, m, b):
        r = self.resolve_expr(m, b)
        if r and r[0] == 'cls':
            return r[1]
        return ('ext', r[1] if r and r[0] == 'ext' else ast.unparse(b))

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == 'mod' and r[1] in self.modules:
                return self.resolve_name(self.modules[r[1]], e.attr) or (
                    ('mod', f"{r[1]}.{e.attr}") if f"{r[1]}.{e.attr}" in self.modules else None)
            if r[0] == 'ext':
                return ('ext', f"{r[1]}.{e.attr}")
        return None

    def all_classes(self):
        for n in sorted(self.modules):
            for c in self.modules[n].classes.values():
                yield c

    def all_functions(self):
        """Every function of the program incl. methods (not nested ones)."""
        for n in sorted(self.modules):
            m = self.modules[n]
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def mro(self, c):
        if not isinstance(c, ClassInfo):
            return [c]
        if c._mro is None:
            c._mro = [c]  # guard
            seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                for s in seqs:
                    if s[0] == cand:
                        del s[0]
            c._mro = res
        return c._mro

    def classes_of(self, c):
        """the classes of the repository among the ancestors of c (itself included), in resolution order"""
        return [k for k in self.mro(c) if isinstance(k, ClassInfo)]

    def find(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo) and name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo):
                if name in k.setters:
                    return k.setters[name]
        return None

    def find_after(self, c, after, name):
        """super() lookup: continue in c's MRO after class `after`."""
        mro = self.mro(c)
        i = mro.index(after) if after in mro else -1
        for k in mro[i + 1:]:
            if isinstance(k, ClassInfo) and name in k.methods:
                return k.methods[name]
        return None

    def issub(self, c, d):
        return d in self.mro(c)

    def cls(self, name, mod=None):
        """Public class by name (anchor)."""
        out = [c for c in self.all_classes() if c.name == name and (mod is None or c.mod.name == mod)]
        if not out:
            raise AnalysisError(f"class {name} not found")
        return out[0]

    def method(self, clsname, name):
        c = self.cls(clsname)
        f = self.find(c, name)
        if f is None:
            raise AnalysisError(f"method {clsname}.{name} not found")
        return f

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m is None:
            raise AnalysisError(f"module {modname} not found")
        r = self.resolve_name(m, name)
        if not r or r[0] != 'fn':
            raise AnalysisError(f"function {modname}.{name} not found")
        return r[1]

    def is_enum(self, c):
        return any(isinstance(b, tuple) and b[1].split('.')[-1] in ('IntEnum', 'Enum', 'IntFlag', 'Flag', 'StrEnum')
                   for b in self.mro(c))

    def is_concrete(self, c):
        seen = {}
        for k in self.mro(c):
            if isinstance(k, ClassInfo):
                for n, f in k.methods.items():
                    seen.setdefault(n, f)
                for n in k.class_attrs:
                    seen.setdefault(n, None)
        return not any(f is not None and f.is_abstract for f in seen.values())
