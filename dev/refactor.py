#!/usr/bin/env python3
"""Development only: mechanical refactorings that keep the behaviour; the checks must stay quiet on each.
usage: dev/refactor.py [-t transformation,...] [-p PXX,...] [-j N] [-k keep] [-r REPO] [--test]
Each transformation is applied to every function of the package at once; a file at a time, then site at a time, where a check
alarms."""
import ast
import argparse
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
PKG = 'framework_python/rei'
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LOOPS = (ast.For, ast.While, ast.AsyncFor)
T = {}


def tr(f):
    T[f.__name__.replace('_', '-')] = f
    return f


class Sites:
    """only the sites chosen are changed"""
    def __init__(self, only=None):
        self.n = 0
        self.only = only

    def take(self):
        self.n += 1
        return self.only is None or self.n - 1 in self.only


def own(fn, types=None):
    """nodes of a function without nested functions and classes"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FN + (ast.ClassDef, ast.Lambda)):
                continue
            out.append(c)
            go(c)
    go(fn)
    return [x for x in out if types is None or isinstance(x, types)]


def functions(tree):
    """(function, class or None)"""
    def go(n, c):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, FN):
                yield x, c
                yield from go(x, None)
            elif isinstance(x, ast.ClassDef):
                yield from go(x, x)
            else:
                yield from go(x, c)
    yield from go(tree, None)


def blocks(node):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(node, 'handlers', []) or []:
        yield h.body
    for c in getattr(node, 'cases', []) or []:
        yield c.body


def all_blocks(fn):
    """blocks of a function, nested functions excluded"""
    def go(n):
        for b in blocks(n):
            yield b
            for s in b:
                if not isinstance(s, FN + (ast.ClassDef,)):
                    yield from go(s)
        for c in getattr(n, 'cases', []) or []:
            pass
    yield from go(fn)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def bound(n):
    """names assigned outside of comprehensions"""
    out = set()

    def go(x):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        for y in ast.iter_child_nodes(x):
            go(y)
    go(n)
    return out


def fresh(fn, base):
    used = names(fn) | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    n, k = base, 1
    while n in used:
        k += 1
        n = f"{base}{k}"
    return n


def is_gen(fn):
    return bool(own(fn, (ast.Yield, ast.YieldFrom)))


def has_await(n):
    return any(isinstance(x, (ast.Await, ast.AsyncFor, ast.AsyncWith)) for x in ast.walk(n)) or \
        any(isinstance(x, ast.comprehension) and x.is_async for x in ast.walk(n))


def pure(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context, ast.UnaryOp, ast.unaryop)) for x in ast.walk(e))


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(op=ast.Not(), operand=e)


def doc(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0


# ------------------------------------------------------------------------------------------------------ transformations
@tr
def unparse(tree, S):
    S.take()


@tr
def rename_locals(tree, S):
    for fn, c in functions(tree):
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)) or any(isinstance(x, FN) and x is not fn for x in ast.walk(fn)):
            continue
        params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        loc = {x.id for x in own(fn, ast.Name) if isinstance(x.ctx, ast.Store)} - params
        for x in own(fn, (ast.MatchAs, ast.ExceptHandler)):
            if x.name:
                loc.discard(x.name)
        lam = {a.arg for l in ast.walk(fn) if isinstance(l, ast.Lambda) for a in ast.walk(l.args) if isinstance(a, ast.arg)}
        loc -= lam
        if not loc or not S.take():
            continue
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = 'local_' + x.id.lstrip('_')


@tr
def temp_for_return(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and S.take():
                    n = fresh(fn, 'outcome')
                    b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], s.value), ast.Return(ast.Name(n, ast.Load()))]


@tr
def inline_temp(tree, S):
    """x = e; return x  ->  return e"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 2, -1, -1):
                s, r = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(r, ast.Return) and \
                        isinstance(r.value, ast.Name) and r.value.id == s.targets[0].id and S.take():
                    b[i:i + 2] = [ast.Return(s.value)]


@tr
def invert_if(tree, S):
    for fn, c in functions(tree):
        for s in own(fn, ast.If):
            if s.orelse and S.take():
                s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body


@tr
def guard_return(tree, S):
    for fn, c in functions(tree):
        b = fn.body
        s = b[-1]
        if isinstance(s, ast.If) and not s.orelse and S.take():
            b[-1:] = [ast.If(neg(s.test), [ast.Return(None)], [])] + s.body


@tr
def guard_continue(tree, S):
    for fn, c in functions(tree):
        for l in own(fn, LOOPS):
            s = l.body[-1]
            if isinstance(s, ast.If) and not s.orelse and S.take():
                l.body[-1:] = [ast.If(neg(s.test), [ast.Continue()], [])] + s.body


@tr
def else_after_return(tree, S):
    """if a: return x; rest  ->  if a: return x else: rest"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i, s in enumerate(b[:-1]):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and S.take():
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break


@tr
def drop_else(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and S.take():
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []


def comp_loop(e, n):
    """statements that build a list/dict/set comprehension in variable n"""
    if isinstance(e, ast.ListComp):
        init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), 'append', ast.Load()), [e.elt], []))
    elif isinstance(e, ast.SetComp):
        init, add = ast.Call(ast.Name('set', ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), 'add', ast.Load()), [e.elt], []))
    else:
        init, add = ast.Dict([], []), ast.Assign([ast.Subscript(ast.Name(n, ast.Load()), e.key, ast.Store())], e.value)
    body = [add]
    for g in reversed(e.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [], None)]
    return [ast.Assign([ast.Name(n, ast.Store())], init)] + body


@tr
def comprehension_to_loop(tree, S):
    for fn, c in functions(tree):
        params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                v = getattr(s, 'value', None) if isinstance(s, (ast.Return, ast.Assign)) else None
                if not isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) or any(g.is_async for g in v.generators):
                    continue
                tg = {x for g in v.generators for x in names(g.target)}
                rest = {x.id for x in own(fn, ast.Name)} | params
                inner = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                if tg & params or not S.take():
                    continue
                n = fresh(fn, 'collected')
                new = comp_loop(v, n)
                s.value = ast.Name(n, ast.Load())
                b[i:i] = new


class Ret(ast.NodeTransformer):
    pass


def tail_of(fn, k):
    d = doc(fn.body)
    return max(d + 1, len(fn.body) - k)


def extract(tree, S, pick, label):
    """the statements of a function from pick(fn) on go into a private method or function"""
    mods = []
    for fn, c in list(functions(tree)):
        if fn.name.startswith('__') and fn.name != '__init__' and not fn.name.endswith('__'):
            pass
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
            continue
        owner = c if c is not None else tree
        if fn not in owner.body:
            continue
        if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'abstractmethod') or isinstance(d, ast.Attribute) and d.attr == 'abstractmethod' for d in fn.decorator_list):
            continue
        at = pick(fn)
        if at is None or at <= doc(fn.body) - 1 or at >= len(fn.body):
            continue
        tail = fn.body[at:]
        if len(tail) == 1 and isinstance(tail[0], (ast.Return, ast.Pass)) and (tail[0].value is None if isinstance(tail[0], ast.Return) else True):
            continue
        if not S.take():
            continue
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        if fn.args.vararg:
            params.append(fn.args.vararg.arg)
        if fn.args.kwarg:
            params.append(fn.args.kwarg.arg)
        before = set()
        for s in fn.body[:at]:
            before |= bound(s)
            before |= {x.name for x in ast.walk(s) if isinstance(x, FN)}
        tmod = ast.Module(tail, [])
        used = names(tmod) | {'self'} if c is not None else names(tmod)
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(tmod)):
            used.add(params[0] if params else 'self')
        sure = set(params)
        for x in fn.body[:at]:
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Import, ast.ImportFrom)) or isinstance(x, FN):
                sure |= bound(x) | ({x.name} if isinstance(x, FN) else set())
        if any(x in before and x not in sure for x in used):
            continue
        args = [x for x in params if x in used and (c is None or x != params[0])] + sorted(x for x in before if x in used and x not in params)
        hname = ('__' if c is not None else '_') + fn.name.strip('_') + '_' + label + ('_set' if any(isinstance(x, ast.Attribute) and x.attr == 'setter' for x in fn.decorator_list) else '')
        gen, asy = is_gen(fn), isinstance(fn, ast.AsyncFunctionDef)
        tgen = bool(own(ast.FunctionDef('x', None, tail, [], None), (ast.Yield, ast.YieldFrom)))
        if gen and asy:
            S.n -= 0
            continue
        if gen and not tgen:
            continue
        ret_ann = None
        ha = ([ast.arg(params[0] if params else 'self')] if c is not None else []) + [ast.arg(x) for x in args]
        h = type(fn)(hname, ast.arguments([], ha, None, [], [], None, []), tail, [], ret_ann)
        h.type_params = []
        f = ast.Attribute(ast.Name(params[0], ast.Load()), hname, ast.Load()) if c is not None else ast.Name(hname, ast.Load())
        call = ast.Call(f, [ast.Name(x, ast.Load()) for x in args], [])
        returns = bool(own(ast.FunctionDef('x', None, tail, [], None), ast.Return))
        if gen:
            new = ast.Return(ast.YieldFrom(call)) if returns else ast.Expr(ast.YieldFrom(call))
        else:
            e = ast.Await(call) if asy else call
            new = ast.Return(e) if returns else ast.Expr(e)
        fn.body[at:] = [new]
        mods.append((owner, fn, h))
    for owner, fn, h in mods:
        # after the method and, where it is a property, after its setter
        k = max(i for i, x in enumerate(owner.body) if getattr(x, 'name', None) == fn.name)
        owner.body.insert(k + 1, h)


@tr
def extract_tail(tree, S):
    extract(tree, S, lambda fn: doc(fn.body) + max(1, (len(fn.body) - doc(fn.body)) // 2) if len(fn.body) - doc(fn.body) > 1 else None, 'rest')


@tr
def extract_last(tree, S):
    extract(tree, S, lambda fn: len(fn.body) - 1 if len(fn.body) - doc(fn.body) > 1 else None, 'end')


@tr
def extract_body(tree, S):
    """the whole body in a helper"""
    def pick(fn):
        if fn.name == '__init__':
            return None
        return doc(fn.body)
    extract(tree, S, pick, 'impl')


def loop_body_helper(tree, S, kinds, get, label):
    mods = []
    for fn, c in list(functions(tree)):
        owner = c if c is not None else tree
        if fn not in owner.body or fn.decorator_list and any(getattr(d, 'id', '') in ('staticmethod', 'classmethod') for d in fn.decorator_list):
            continue
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)) or any(isinstance(x, FN) and x is not fn for x in ast.walk(fn)):
            continue
        k = 0
        for l in own(fn, kinds):
            body = l.body
            wrap = ast.FunctionDef('x', None, body, [], None)
            if own(wrap, (ast.Return, ast.Break, ast.Continue)):
                continue
            gen = bool(own(wrap, (ast.Yield, ast.YieldFrom)))
            asy = has_await(wrap)
            if gen and isinstance(fn, ast.AsyncFunctionDef) or gen and asy:
                continue
            stored = names(ast.Module(body, []), ast.Store)
            outside = names(fn, ast.Load)
            # names the body sets and something outside reads
            inside = sum(1 for x in ast.walk(ast.Module(body, [])) if isinstance(x, ast.Name) and x.id in stored)
            total = sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in stored)
            if total != inside or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in ast.walk(ast.Module(body, []))):
                continue
            # a value kept from one round to the next
            if not S.take():
                continue
            loc = (bound(ast.Module(fn.body, [])) | set(params)) - stored
            used = names(ast.Module(body, [])) & loc
            first = params[0] if c is not None else None
            args = sorted(x for x in used if x != first)
            k += 1
            hname = ('__' if c is not None else '_') + fn.name.strip('_') + '_' + label + (str(k) if k > 1 else '')
            ha = ([ast.arg(first)] if first else []) + [ast.arg(x) for x in args]
            h = (ast.AsyncFunctionDef if asy else ast.FunctionDef)(hname, ast.arguments([], ha, None, [], [], None, []), body, [], None)
            h.type_params = []
            f = ast.Attribute(ast.Name(first, ast.Load()), hname, ast.Load()) if first else ast.Name(hname, ast.Load())
            call = ast.Call(f, [ast.Name(x, ast.Load()) for x in args], [])
            l.body = [ast.Expr(ast.YieldFrom(call) if gen else ast.Await(call) if asy else call)]
            mods.append((owner, fn, h))
            break
    for owner, fn, h in mods:
        owner.body.insert(owner.body.index(fn) + 1, h)


@tr
def extract_loop_body(tree, S):
    loop_body_helper(tree, S, (ast.For, ast.While), None, 'one')


@tr
def extract_condition(tree, S):
    mods = []
    for fn, c in list(functions(tree)):
        owner = c if c is not None else tree
        if fn not in owner.body or any(getattr(d, 'id', '') in ('staticmethod', 'classmethod') for d in fn.decorator_list):
            continue
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        k = 0
        for l in own(fn, (ast.If, ast.While)):
            e = l.test
            if pure(e) or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Lambda, ast.Yield)) for x in ast.walk(e)):
                continue
            if not S.take():
                continue
            loc = bound(ast.Module(fn.body, [])) | set(params)
            first = params[0] if c is not None else None
            args = sorted(x for x in names(e) & loc if x != first)
            k += 1
            hname = ('__' if c is not None else '_') + fn.name.strip('_') + '_holds' + (str(k) if k > 1 else '')
            ha = ([ast.arg(first)] if first else []) + [ast.arg(x) for x in args]
            h = ast.FunctionDef(hname, ast.arguments([], ha, None, [], [], None, []), [ast.Return(e)], [], None)
            h.type_params = []
            f = ast.Attribute(ast.Name(first, ast.Load()), hname, ast.Load()) if first else ast.Name(hname, ast.Load())
            l.test = ast.Call(f, [ast.Name(x, ast.Load()) for x in args], [])
            mods.append((owner, fn, h))
    for owner, fn, h in mods:
        owner.body.insert(owner.body.index(fn) + 1, h)


@tr
def fstring_to_format(tree, S):
    class X(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            self.generic_visit(n)
            if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values) or not S.take():
                return n
            s, args = '', []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace('{', '{{').replace('}', '}}')
                else:
                    s += '{}'
                    args.append(v.value)
            if not args:
                return n
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def percent_to_fstring(tree, S):
    """f"{a}b" -> str(a) + "b" """
    class X(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values) or len(n.values) < 2 or not S.take():
                return n
            ps = [v if isinstance(v, ast.Constant) else ast.Call(ast.Name('str', ast.Load()), [v.value], []) for v in n.values]
            e = ps[0]
            for q in ps[1:]:
                e = ast.BinOp(e, ast.Add(), q)
            return e
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def temp_for_argument(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                v = getattr(s, 'value', None) if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) else None
                if isinstance(v, ast.Await):
                    v = v.value
                if isinstance(v, ast.Call) and pure(v.func) and v.args and isinstance(v.args[0], (ast.Call, ast.Attribute, ast.BinOp, ast.JoinedStr, ast.ListComp)) \
                        and not has_await(v.args[0]) and S.take():
                    n = fresh(fn, 'given')
                    b[i:i] = [ast.Assign([ast.Name(n, ast.Store())], v.args[0])]
                    v.args[0] = ast.Name(n, ast.Load())


@tr
def literal_containers(tree, S):
    class X(ast.NodeTransformer):
        def visit_List(self, n):
            self.generic_visit(n)
            if not n.elts and isinstance(n.ctx, ast.Load) and S.take():
                return ast.Call(ast.Name('list', ast.Load()), [], [])
            return n

        def visit_Dict(self, n):
            self.generic_visit(n)
            if not n.keys and S.take():
                return ast.Call(ast.Name('dict', ast.Load()), [], [])
            return n

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and not n.args and not n.keywords and n.func.id in ('dict', 'list') and S.take():
                return ast.Dict([], []) if n.func.id == 'dict' else ast.List([], ast.Load())
            return n
    for fn, c in functions(tree):
        fn.body = [X().visit(s) for s in fn.body]


@tr
def nested_if(tree, S):
    for fn, c in functions(tree):
        for s in own(fn, ast.If):
            if not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and S.take():
                vs = s.test.values
                s.test = vs[0]
                body = s.body
                for v in reversed(vs[1:]):
                    body = [ast.If(v, body, [])]
                s.body = body


@tr
def merge_if(tree, S):
    for fn, c in functions(tree):
        for s in own(fn, ast.If):
            if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and S.take():
                i = s.body[0]
                s.test = ast.BoolOp(ast.And(), [s.test, i.test])
                s.body = i.body


@tr
def or_to_elif(tree, S):
    for fn, c in functions(tree):
        for s in own(fn, ast.If):
            if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and S.take():
                vs = s.test.values
                rest = s.orelse
                for v in reversed(vs[1:]):
                    rest = [ast.If(v, copy.deepcopy(s.body), rest)]
                s.test, s.orelse = vs[0], rest


@tr
def map_filter_to_generator(tree, S):
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ('map', 'filter') and len(n.args) == 2 and isinstance(n.args[0], ast.Lambda) \
                    and len(n.args[0].args.args) == 1 and not n.args[0].args.defaults and S.take():
                l, it = n.args
                v = l.args.args[0].arg
                if n.func.id == 'map':
                    return ast.GeneratorExp(l.body, [ast.comprehension(ast.Name(v, ast.Store()), it, [], 0)])
                return ast.GeneratorExp(ast.Name(v, ast.Load()), [ast.comprehension(ast.Name(v, ast.Store()), it, [l.body], 0)])
            return n
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def generator_to_filter(tree, S):
    class X(ast.NodeTransformer):
        def visit_GeneratorExp(self, n):
            self.generic_visit(n)
            g = n.generators[0]
            if len(n.generators) == 1 and isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id and len(g.ifs) == 1 and not g.is_async \
                    and not has_await(n) and S.take():
                return ast.Call(ast.Name('filter', ast.Load()), [ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), g.ifs[0]), g.iter], [])
            return n
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def lambda_to_def(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Match) + FN):
                    continue
                ls = [x for x in ast.walk(s) if isinstance(x, ast.Lambda)]
                if len(ls) != 1 or any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(s)):
                    continue
                if not S.take():
                    continue
                n = fresh(fn, 'local_function')
                l = ls[0]

                class X(ast.NodeTransformer):
                    def visit_Lambda(self, x):
                        return ast.Name(n, ast.Load()) if x is l else x
                d = ast.FunctionDef(n, l.args, [ast.Return(l.body)], [], None)
                d.type_params = []
                b[i] = X().visit(s)
                b.insert(i, d)


@tr
def yield_from_to_loop(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and S.take():
                    n = fresh(fn, 'entry')
                    b[i] = ast.For(ast.Name(n, ast.Store()), s.value.value, [ast.Expr(ast.Yield(ast.Name(n, ast.Load())))], [], None)


@tr
def loop_to_yield_from(tree, S):
    for fn, c in functions(tree):
        if isinstance(fn, ast.AsyncFunctionDef):
            continue
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse and len(s.body) == 1:
                    t = s.body[0]
                    cond = []
                    if isinstance(t, ast.If) and not t.orelse and len(t.body) == 1:
                        cond, t = [t.test], t.body[0]
                    if isinstance(t, ast.Expr) and isinstance(t.value, ast.Yield) and t.value.value is not None and S.take():
                        b[i] = ast.Expr(ast.YieldFrom(ast.GeneratorExp(t.value.value, [ast.comprehension(s.target, s.iter, cond, 0)])))


@tr
def return_generator(tree, S):
    """for x in it: if c: yield e   (whole body)  ->  return (e for x in it if c)"""
    for fn, c in functions(tree):
        d = doc(fn.body)
        if isinstance(fn, ast.AsyncFunctionDef) or len(fn.body) != d + 1:
            continue
        s = fn.body[d]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and S.take():
            v = s.value.value
            fn.body[d] = ast.Return(v if isinstance(v, ast.GeneratorExp) else ast.GeneratorExp(ast.Name('it', ast.Load()), [ast.comprehension(ast.Name('it', ast.Store()), v, [], 0)]))


@tr
def reorder_methods(tree, S):
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            idx = [i for i, s in enumerate(c.body) if isinstance(s, FN) and not s.decorator_list]
            nm = [c.body[i].name for i in idx]
            if len(idx) < 2 or len(set(nm)) != len(nm) or not S.take():
                continue
            ms = [c.body[i] for i in idx][::-1]
            for i, m in zip(idx, ms):
                c.body[i] = m


@tr
def swap_assignments(tree, S):
    def simple(s):
        return isinstance(s, (ast.Assign, ast.AnnAssign)) and (len(s.targets) == 1 if isinstance(s, ast.Assign) else s.value is not None) and \
            isinstance(s.targets[0] if isinstance(s, ast.Assign) else s.target, (ast.Name, ast.Attribute)) and \
            (isinstance(s.value, (ast.Constant, ast.Name)) or isinstance(s.value, (ast.List, ast.Dict)) and not ast.dump(s.value).count('Call'))

    def tgt(s):
        return ast.unparse(s.targets[0] if isinstance(s, ast.Assign) else s.target)
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            i = 0
            while i < len(b) - 1:
                if simple(b[i]) and simple(b[i + 1]) and tgt(b[i]) != tgt(b[i + 1]) and tgt(b[i]) not in ast.unparse(b[i + 1].value) and tgt(b[i + 1]) not in ast.unparse(b[i].value) \
                        and S.take():
                    # property setters run code: only names and attributes of self that start with _
                    b[i], b[i + 1] = b[i + 1], b[i]
                    i += 1
                i += 1


@tr
def conditional_to_if(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and S.take():
                    e = s.value
                    b[i:i + 1] = [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and S.take():
                    e = s.value
                    b[i:i + 1] = [ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])]


@tr
def if_to_conditional(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and \
                        s.body[0].value and s.orelse[0].value and S.take():
                    b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                elif isinstance(s, ast.If) and len(s.body) == 1 and not s.orelse and i + 1 < len(b) and isinstance(s.body[0], ast.Return) and isinstance(b[i + 1], ast.Return) and \
                        s.body[0].value and b[i + 1].value and S.take():
                    b[i:i + 2] = [ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))]


def pattern(p, subj):
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subj, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(ast.Name('isinstance', ast.Load()), [subj, p.cls], [])
    if isinstance(p, ast.MatchOr):
        ps = [pattern(x, subj) for x in p.patterns]
        return None if None in ps else ast.BoolOp(ast.Or(), ps)
    if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
        return True
    return None


@tr
def match_to_if(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if not isinstance(s, ast.Match) or not isinstance(s.subject, ast.Name):
                    continue
                ts = [(pattern(k.pattern, s.subject), k) for k in s.cases]
                if any(t is None or k.guard is not None for t, k in ts) or not S.take():
                    continue
                rest = []
                for t, k in reversed(ts):
                    rest = k.body if t is True else [ast.If(t, k.body, rest)]
                b[i:i + 1] = rest


@tr
def if_to_match(tree, S):
    """if isinstance(x, A): .. elif isinstance(x, B): .. else: .. -> match"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if not isinstance(s, ast.If):
                    continue
                arms, cur, subj = [], s, None
                while True:
                    t = cur.test
                    if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and isinstance(t.args[0], ast.Name)
                            and isinstance(t.args[1], ast.Name)) or subj not in (None, t.args[0].id):
                        arms = None
                        break
                    subj = t.args[0].id
                    arms.append(ast.match_case(ast.MatchClass(t.args[1], [], [], []), None, cur.body))
                    if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                        cur = cur.orelse[0]
                        continue
                    if cur.orelse:
                        arms.append(ast.match_case(ast.MatchAs(None, None), None, cur.orelse))
                    break
                if arms and S.take():
                    b[i] = ast.Match(ast.Name(subj, ast.Load()), arms)


@tr
def while_true(tree, S):
    for fn, c in functions(tree):
        for s in own(fn, ast.While):
            if not s.orelse and not (isinstance(s.test, ast.Constant)) and S.take():
                s.body.insert(0, ast.If(neg(s.test), [ast.Break()], []))
                s.test = ast.Constant(True)


@tr
def for_over_temp(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name) and S.take():
                    n = fresh(fn, 'sequence')
                    b.insert(i, ast.Assign([ast.Name(n, ast.Store())], s.iter))
                    s.iter = ast.Name(n, ast.Load())


@tr
def for_to_iterator(tree, S):
    """for x in it -> it = iter(it); while True: try: x = next(it) except StopIteration: break"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.For) and not s.orelse and S.take():
                    n = fresh(fn, 'cursor')
                    b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [s.iter], [])),
                                  ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(n, ast.Load())], []))],
                                                                         [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], [], [])] + s.body, [])]


@tr
def loop_to_comprehension(tree, S):
    """l = []; for x in it: if c: l.append(e)  ->  l = [e for x in it if c]"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 2, -1, -1):
                a, s = b[i], b[i + 1]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and \
                        isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                    t, cond = s.body[0], []
                    if isinstance(t, ast.If) and not t.orelse and len(t.body) == 1:
                        cond, t = [t.test], t.body[0]
                    if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute) and t.value.func.attr == 'append' and \
                            ast.unparse(t.value.func.value) == a.targets[0].id and not has_await(s) and S.take():
                        b[i:i + 2] = [ast.Assign(a.targets, ast.ListComp(t.value.args[0], [ast.comprehension(s.target, s.iter, cond, 0)]))]


@tr
def append_to_extend(tree, S):
    """for x in it: (if c:) l.append(e) -> l.extend([e for x in it if c])"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                    t, cond = s.body[0], []
                    if isinstance(t, ast.If) and not t.orelse and len(t.body) == 1:
                        cond, t = [t.test], t.body[0]
                    if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute) and t.value.func.attr == 'append' and \
                            pure(t.value.func.value) and not names(t.value.func.value) & names(s.target) and not has_await(s) and S.take():
                        b[i] = ast.Expr(ast.Call(ast.Attribute(t.value.func.value, 'extend', ast.Load()), [ast.ListComp(t.value.args[0], [ast.comprehension(s.target, s.iter, cond, 0)])], []))


@tr
def negated_operators(tree, S):
    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            m = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}
            if len(n.ops) == 1 and type(n.ops[0]) in m and S.take():
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
            return n
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def flipped_comparison(tree, S):
    for fn, c in functions(tree):
        for n in own(fn, ast.Compare):
            m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if len(n.ops) == 1 and type(n.ops[0]) in m and 'numpy' not in ast.dump(n) and S.take():
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]


@tr
def de_morgan(tree, S):
    for fn, c in functions(tree):
        for s in own(fn, (ast.If, ast.While)):
            if isinstance(s.test, ast.BoolOp) and S.take():
                op = ast.Or if isinstance(s.test.op, ast.And) else ast.And
                s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op(), [neg(v) for v in s.test.values]))


@tr
def split_tuple_assignment(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                        len(s.targets[0].elts) == len(s.value.elts) and not names(s.targets[0]) & names(s.value) and all(isinstance(x, ast.Name) for x in s.targets[0].elts) and S.take():
                    b[i:i + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]


@tr
def constants_out(tree, S):
    """string constants go to the module"""
    new = []

    class X(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            return n

        def visit_arguments(self, n):
            return n

        def visit_MatchValue(self, n):
            return n

        def visit_arg(self, n):
            return n

        def visit_AnnAssign(self, n):
            if n.value:
                n.value = self.visit(n.value)
            return n

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return n
            return self.generic_visit(n)

        def visit_Constant(self, n):
            if isinstance(n.value, (str, float)) and n.value != '' and S.take():
                v = f"_TEXT_{len(new)}"
                new.append(ast.Assign([ast.Name(v, ast.Store())], n))
                return ast.Name(v, ast.Load())
            return n
    for fn, c in functions(tree):
        fn.body = [X().visit(s) for s in fn.body]
    at = doc(tree.body)
    while at < len(tree.body) and isinstance(tree.body[at], (ast.Import, ast.ImportFrom)):
        at += 1
    tree.body[at:at] = new


@tr
def aug_assign(tree, S):
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.AugAssign) and pure(s.target) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float, str)) and S.take():
                    t = copy.deepcopy(s.target)
                    t.ctx = ast.Load()
                    b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))


@tr
def default_get(tree, S):
    """if k in d: return d[k] ... ; d[k] if k in d else x -> d.get(k, x)"""
    class X(ast.NodeTransformer):
        def visit_IfExp(self, n):
            self.generic_visit(n)
            t = n.test
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In) and isinstance(n.body, ast.Subscript) and ast.unparse(n.body.value) == ast.unparse(t.comparators[0]) and \
                    ast.unparse(n.body.slice) == ast.unparse(t.left) and isinstance(n.orelse, ast.Constant) and S.take():
                return ast.Call(ast.Attribute(n.body.value, 'get', ast.Load()), [n.body.slice, n.orelse], [])
            return n
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def keyword_arguments(tree, S):
    """calls of own constructors with keywords"""
    inits = {}
    for c in SIGS:
        inits[c] = SIGS[c]
    for fn, c in functions(tree):
        for n in own(fn, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in inits and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
                ps = inits[n.func.id]
                if len(n.args) <= len(ps) and S.take():
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                    n.args = []


@tr
def positional_arguments(tree, S):
    for fn, c in functions(tree):
        for n in own(fn, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in SIGS and n.keywords and all(k.arg for k in n.keywords):
                ps = SIGS[n.func.id][len(n.args):]
                ks = {k.arg: k.value for k in n.keywords}
                if set(ps[:len(ks)]) == set(ks) and [k.arg for k in n.keywords] == ps[:len(ks)] and S.take():
                    n.args += [ks[p] for p in ps[:len(ks)]]
                    n.keywords = []


@tr
def isinstance_helper(tree, S):
    """for x in a: if isinstance(x, C): body -> for x in filter(lambda v: isinstance(v, C), a): body"""
    for fn, c in functions(tree):
        for s in own(fn, ast.For):
            if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and isinstance(s.target, ast.Name) and not s.orelse and \
                    isinstance(s.body[0].test, ast.Call) and not has_await(s.body[0].test) and S.take():
                i = s.body[0]
                s.iter = ast.GeneratorExp(ast.Name(s.target.id, ast.Load()), [ast.comprehension(ast.Name(s.target.id, ast.Store()), s.iter, [i.test], 0)])
                s.body = i.body


@tr
def empty_test(tree, S):
    """not q.empty() -> q.qsize() > 0; len(x) == 0 -> not len(x)"""
    class X(ast.NodeTransformer):
        def visit_UnaryOp(self, n):
            self.generic_visit(n)
            o = n.operand
            if isinstance(n.op, ast.Not) and isinstance(o, ast.Call) and isinstance(o.func, ast.Attribute) and o.func.attr == 'empty' and S.take():
                return ast.Compare(ast.Call(ast.Attribute(o.func.value, 'qsize', ast.Load()), [], []), [ast.Gt()], [ast.Constant(0)])
            return n

        def visit_Compare(self, n):
            self.generic_visit(n)
            if isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == 'len' and isinstance(n.ops[0], (ast.Gt, ast.NotEq)) and \
                    isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0 and S.take():
                return ast.Call(ast.Name('bool', ast.Load()), [n.left], [])
            return n
    for fn, c in functions(tree):
        X().visit(fn)


@tr
def assert_like(tree, S):
    """a statement that does nothing in every function"""
    for fn, c in functions(tree):
        if S.take():
            fn.body.insert(doc(fn.body), ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(None)))


@tr
def pass_everywhere(tree, S):
    for fn, c in functions(tree):
        if S.take():
            for b in list(all_blocks(fn)):
                b.insert(doc(b) if b is fn.body else 0, ast.Pass())


@tr
def walrus(tree, S):
    """x = e; if x: -> if (x := e):"""
    for fn, c in functions(tree):
        for b in all_blocks(fn):
            for i in range(len(b) - 2, -1, -1):
                a, s = b[i], b[i + 1]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(s, ast.If):
                    n = a.targets[0].id
                    t = s.test
                    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == n and S.take():
                        t.left = ast.NamedExpr(ast.Name(n, ast.Store()), a.value)
                        del b[i]


@tr
def self_alias(tree, S):
    """me = self in each method"""
    for fn, c in functions(tree):
        if c is None or fn.decorator_list or not fn.args.args or fn.args.args[0].arg != 'self' or \
                any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(fn)) or any(isinstance(x, FN) and x is not fn for x in ast.walk(fn)):
            continue
        if not S.take():
            continue
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == 'self':
                    x.id = 'me'
        fn.body.insert(doc(fn.body), ast.Assign([ast.Name('me', ast.Store())], ast.Name('self', ast.Load())))


@tr
def field_alias(tree, S):
    """a container field is read into a local variable first"""
    for fn, c in functions(tree):
        if c is None or not fn.args.args or fn.args.args[0].arg != 'self' or fn.name == '__init__' or any(isinstance(x, FN) and x is not fn for x in ast.walk(fn)):
            continue
        at = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self']
        if any(isinstance(x, ast.Call) for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self') or \
                any(isinstance(x, ast.Await) for x in ast.walk(fn)) or is_gen(fn):
            continue
        stored = {x.attr for x in at if not isinstance(x.ctx, ast.Load)}
        cont = {x.attr for x in at if isinstance(x.ctx, ast.Load) and x.attr in ('_sub_elements', '_sub_element_by_name', '_index_nodes', '_index_edges')} - stored
        for a in sorted(cont):
            if not S.take():
                continue
            n = fresh(fn, 'held' + a)

            class X(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    self.generic_visit(x)
                    if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a:
                        return ast.Name(n, x.ctx)
                    return x
            fn.body = [X().visit(s) for s in fn.body]
            fn.body.insert(doc(fn.body), ast.Assign([ast.Name(n, ast.Store())], ast.Attribute(ast.Name('self', ast.Load()), a, ast.Load())))


@tr
def rename_private_fields(tree, S):
    """whole-program: see rename_all"""


@tr
def inline_private(tree, S):
    """a private method with one return statement, called once in its class with plain arguments, is inlined"""
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        for m in list(c.body):
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or not m.name.startswith('_') or m.name.endswith('__'):
                continue
            d = doc(m.body)
            if len(m.body) != d + 1 or not isinstance(m.body[d], ast.Return) or m.body[d].value is None or m.args.defaults:
                continue
            calls = [x for x in ast.walk(c) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == m.name and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self']
            refs = [x for x in ast.walk(tree) if isinstance(x, ast.Attribute) and x.attr == m.name]
            if m.name in OTHER_REFS and not m.name.startswith('__'):
                continue
            if not calls or len(refs) != len(calls) or any(not all(pure(a) for a in k.args) or k.keywords or len(k.args) != len(m.args.args) - 1 for k in calls):
                continue
            if any(isinstance(x, (ast.Lambda, ast.comprehension)) for x in ast.walk(m)):
                continue
            if not S.take():
                continue
            for k in calls:
                sub = {p.arg: a for p, a in zip(m.args.args[1:], k.args)}

                class X(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return copy.deepcopy(sub[x.id]) if x.id in sub else x
                e = X().visit(copy.deepcopy(m.body[d].value))

                class Y(ast.NodeTransformer):
                    def visit_Call(self, x):
                        self.generic_visit(x)
                        return e if x is k else x
                Y().visit(c)
            c.body.remove(m)
            if not c.body:
                c.body.append(ast.Pass())


SIGS = {}
OTHER_REFS = set()


def scan(root):
    SIGS.clear()
    OTHER_REFS.clear()
    cls, cnt = {}, {}
    for p in pyfiles(root):
        t = ast.parse(open(p).read())
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                cls.setdefault(c.name, []).append(c)
        for a in {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}:
            cnt[a] = cnt.get(a, 0) + 1
    OTHER_REFS.update(a for a, n in cnt.items() if n > 1)
    for n, cs in cls.items():
        if len(cs) == 1:
            for m in cs[0].body:
                if isinstance(m, ast.FunctionDef) and m.name == '__init__' and not m.args.vararg:
                    SIGS[n] = [a.arg for a in m.args.args[1:]]


def pyfiles(root):
    for d, ds, fs in os.walk(os.path.join(root, PKG)):
        ds[:] = [x for x in ds if x != '__pycache__']
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(d, f)


def copy_repo():
    d = tempfile.mkdtemp(prefix='rf_')
    shutil.copytree(REPO + '/framework_python', d + '/framework_python', ignore=shutil.ignore_patterns('__pycache__', '.git'))
    g = 'framework/cognitive/speclanguage/src/main/antlr4'
    if os.path.isdir(f"{REPO}/{g}"):
        shutil.copytree(f"{REPO}/{g}", f"{d}/{g}")
    return d


def apply(name, root, chosen=None):
    """apply to all files (chosen = {relative file: set of sites or None}); returns {file: number of sites}"""
    out = {}
    scan(root)
    for p in pyfiles(root):
        rel = os.path.relpath(p, root)
        if chosen is not None and rel not in chosen:
            continue
        tree = ast.parse(open(p).read())
        before = ast.dump(tree)
        S = Sites(None if chosen is None else chosen[rel])
        T[name](tree, S)
        if ast.dump(tree) != before or name == 'unparse':
            out[rel] = S.n
            ast.fix_missing_locations(tree)
            s = ast.unparse(tree) + '\n'
            compile(s, p, 'exec')
            open(p, 'w').write(s)
    return out


def check(d, prop):
    ev = d + '/ev'
    os.makedirs(ev, exist_ok=True)
    try:
        r = subprocess.run([sys.executable, V + '/bin/check.py', prop], capture_output=True, text=True, cwd=V, timeout=900,
                           env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE_DIR': ev})
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def tests(d):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    t = subprocess.run("cd %s/framework_python && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
                       "--continue-on-collection-errors --tb=no -rA test 2>&1 | grep -E '^(FAILED|ERROR|PASSED)'" % d, shell=True, capture_output=True, text=True).stdout
    got = {l.split()[1].replace('.py::', '::').replace('/', '.') for l in t.split('\n') if l.startswith('PASSED')}
    got = {g.split('::')[0] + '::' + g.split('::')[-1] for g in got}
    return {t for t in stable if t.split('::')[0] + '::' + t.split('::')[-1] not in got}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-t', default='')
    ap.add_argument('-p', default='')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--notest', action='store_true')
    ap.add_argument('--nobisect', action='store_true')
    ap.add_argument('--keep', default='')
    a = ap.parse_args()
    props = a.p.split(',') if a.p else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    props.sort(key=lambda c: c not in ('P30', 'P31', 'P29'))
    todo = a.t.split(',') if a.t else list(T)
    with cf.ThreadPoolExecutor(a.j) as ex:
        for name in todo:
            d = copy_repo()
            try:
                sites = apply(name, d)
                if not sites:
                    print(f"{name}: no sites", flush=True)
                    continue
                lost = set() if a.notest else tests(d)
                if lost:
                    print(f"{name}: TESTS LOST {len(lost)}: {sorted(lost)[:3]}", flush=True)
                res = dict(zip(props, ex.map(lambda p: check(d, p), props)))
                bad = {p: o for p, (rc, o) in res.items() if rc}
                und = {p: sum(l.strip().startswith('undecided') for l in o.split('\n')) for p, (rc, o) in res.items()}
                und = {p: n for p, n in und.items() if n}
                print(f"{name}: {sum(sites.values())} sites in {len(sites)} files; {'ALARM ' + ','.join(sorted(bad)) if bad else 'quiet'}"
                      + (f"; undecided {und}" if und else ''), flush=True)
                if a.keep:
                    shutil.copytree(d, a.keep, dirs_exist_ok=True)
                for p in sorted(bad):
                    print(f"   {p}: " + ' | '.join(l.strip()[:230] for l in bad[p].split('\n') if l.startswith('  ') and not l.strip().startswith('undecided'))[:500] or bad[p][-300:], flush=True)
                if bad and not a.nobisect:
                    def one(args):
                        rel, k, p = args
                        e = copy_repo()
                        try:
                            apply(name, e, {rel: {k}})
                            return args, check(e, p)
                        finally:
                            shutil.rmtree(e, ignore_errors=True)

                    def filewise(args):
                        rel, p = args
                        e = copy_repo()
                        try:
                            apply(name, e, {rel: None})
                            return args, check(e, p)[0]
                        finally:
                            shutil.rmtree(e, ignore_errors=True)
                    guilty = [x for x, rc in ex.map(filewise, [(rel, p) for p in bad for rel in sites]) if rc]
                    for rel, p in guilty:
                        n = 0
                        for (rl, k, pp), (rc, o) in ex.map(one, [(rel, k, p) for k in range(sites[rel])]):
                            if rc:
                                n += 1
                                print(f"      {p} {rel} site {k}: " + ' | '.join(l.strip()[:200] for l in o.split('\n') if l.startswith('  ') and not l.strip().startswith('undecided'))[:300], flush=True)
                        if not n:
                            print(f"      {p} {rel}: only all sites together", flush=True)
            finally:
                shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
