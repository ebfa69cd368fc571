#!/usr/bin/env python3
"""Development only: mechanical mutants of the library; which of them neither the tests nor the checks notice.
usage: dev/mutate.py [-f substring of file] [-j N] [-o OUT.jsonl] [--sample N]
Survivors are for reading: each either breaks no property (equivalent, or outside what is claimed) or shows a gap."""
import argparse
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import random
import re
import shutil
import subprocess
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'framework_python/rei'
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SWAP = [('incoming', 'outgoing'), ('INWARDS', 'OUTWARDS'), ('INWARDS', 'BIDIRECTIONAL'), ('OUTWARDS', 'BIDIRECTIONAL'), ('node', 'edge'), ('nodes', 'edges'), ('id_name', 'qualified_name'),
        ('uuid', 'id_name'), ('endpoint', 'parent'), ('append', 'appendleft'), ('pop', 'popleft'), ('values', 'keys'), ('first', 'last'), ('update', 'setdefault'),
        ('add', 'discard'), ('put', 'put_nowait'), ('BreadthFirst', 'DepthFirst'), ('visual', 'collision'), ('parent', 'child'), ('translation', 'rotation')]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.MatMult: ast.Mult}


def names_of(trees):
    out = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, FN + (ast.ClassDef,)):
                out.add(n.name)
            elif isinstance(n, ast.Name):
                out.add(n.id)
    return out


def mutants(tree, known):
    """(description, function name, line, apply) — apply edits a deep copy found by position"""
    index = {id(n): i for i, n in enumerate(ast.walk(tree))}
    out = []

    def at(n, edit, what, fn):
        i = index[id(n)]

        def go():
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            edit(m, t)
            return ast.unparse(ast.fix_missing_locations(t))
        out.append((what, fn, n.lineno if hasattr(n, 'lineno') else 0, go))

    def walk(n, fn, cls):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, ast.ClassDef):
                walk(c, c.name, c.name)
                continue
            if isinstance(c, FN):
                f = f"{cls}.{c.name}" if cls else c.name
            visit(c, f)
            walk(c, f, cls)

    def stmts(n, field, fn):
        body = getattr(n, field)
        for k, s in enumerate(body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.ClassDef, ast.Pass)) or isinstance(s, FN):
                continue

            def drop(m, t, k=k, field=field):
                getattr(m, field)[k] = ast.Pass()
            at(n, drop, f"drop {type(s).__name__} line {s.lineno}: {ast.unparse(s)[:60]!r}", fn)
            if k + 1 < len(body) and not isinstance(s, (ast.Return, ast.Raise)) and not isinstance(body[k + 1], FN):
                def sw(m, t, k=k, field=field):
                    b = getattr(m, field)
                    b[k], b[k + 1] = b[k + 1], b[k]
                at(n, sw, f"swap statements {s.lineno}/{body[k + 1].lineno}: {ast.unparse(s)[:40]!r} / {ast.unparse(body[k + 1])[:40]!r}", fn)

    def visit(n, fn):
        u = lambda: ast.unparse(n)[:70]
        if fn is not None:
            for field in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(n, field, None), list) and not isinstance(n, ast.ClassDef):
                    stmts(n, field, fn)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            at(n, lambda m, t: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)), f"negate {u().splitlines()[0]!r}", fn)
            for b in (True, False):
                if not isinstance(n, ast.While):
                    at(n, lambda m, t, b=b: setattr(m, 'test', ast.Constant(b)), f"{b} for {ast.unparse(n.test)[:50]!r}", fn)
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                at(n, lambda m, t, k=k: m.values.pop(k) and None or (len(m.values) == 1 and m.values.append(copy.deepcopy(m.values[0]))), f"without operand {k} of {u()!r}", fn)
            at(n, lambda m, t: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()), f"and/or {u()!r}", fn)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            at(n, lambda m, t: m.ops.__setitem__(0, CMP[type(m.ops[0])]()), f"operator of {u()!r}", fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            at(n, lambda m, t: setattr(m, 'op', BIN[type(m.op)]()), f"operator of {u()!r}", fn)
            at(n, lambda m, t: (setattr(m, 'left', m.right), None)[1], f"right twice in {u()!r}", fn)
            at(n, lambda m, t: (setattr(m, 'right', m.left), None)[1], f"left twice in {u()!r}", fn)
        if isinstance(n, ast.UnaryOp):
            at(n, lambda m, t: setattr(m, 'op', ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand)), f"unary of {u()!r}", fn)
        if isinstance(n, ast.Constant) and fn is not None:
            v = n.value
            if isinstance(v, bool):
                at(n, lambda m, t: setattr(m, 'value', not m.value), f"constant {v!r}", fn)
            elif isinstance(v, (int, float)):
                for w in (v + 1, v - 1):
                    at(n, lambda m, t, w=w: setattr(m, 'value', w), f"constant {v!r} -> {w!r}", fn)
            elif isinstance(v, str) and len(v) < 40:
                at(n, lambda m, t: setattr(m, 'value', m.value + 'x'), f"constant {v!r}", fn)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    def sw(m, t, k=k):
                        m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                    at(n, sw, f"swap arguments {k} of {u()!r}", fn)
            for k in range(len(n.keywords)):
                at(n, lambda m, t, k=k: m.keywords.pop(k), f"without {n.keywords[k].arg} in {u()!r}", fn)
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'set', 'dict', 'tuple', 'sorted', 'reversed', 'str', 'float', 'len', 'abs') and len(n.args) == 1:
                i = index[id(n)]

                def bare(m, t):
                    x = m.args[0]
                    m.func, m.args = ast.Lambda(ast.arguments([], [ast.arg('q')], None, [], [], None, []), ast.Name('q', ast.Load())), [x]
                at(n, bare, f"without {n.func.id} in {u()!r}", fn)
            if len(n.args) >= 1 and not (isinstance(n.func, ast.Name) and n.func.id == 'isinstance'):
                at(n, lambda m, t: m.args.pop(), f"without the last argument in {u()!r}", fn)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            def part(m, t, lo, hi):
                m.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [m.iter], []), ast.Slice(lo and ast.Constant(lo), hi and ast.Constant(hi)), ast.Load())
            if isinstance(n, ast.For):
                at(n, lambda m, t: part(m, t, 1, None), f"all but the first of {ast.unparse(n.iter)[:50]!r}", fn)
                at(n, lambda m, t: part(m, t, None, 1), f"only the first of {ast.unparse(n.iter)[:50]!r}", fn)
                at(n, lambda m, t: setattr(m, 'iter', ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [m.iter], []), ast.Slice(None, None, ast.Constant(-1)), ast.Load())), f"backwards {ast.unparse(n.iter)[:50]!r}", fn)
                if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name)):
                    pass
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                pass
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in range(len(n.generators)):
                for k in range(len(n.generators[g].ifs)):
                    at(n, lambda m, t, g=g, k=k: m.generators[g].ifs.pop(k), f"unfiltered {u()!r}", fn)
        if isinstance(n, (ast.Break, ast.Continue)):
            pass
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            at(n, lambda m, t: setattr(m, 'value', ast.Constant(None)), f"None for {u()!r}", fn)
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, (ast.Load, ast.Store)):
            name = n.attr if isinstance(n, ast.Attribute) else n.id
            for a, b in SWAP:
                for x, y in ((a, b), (b, a)):
                    if x in name:
                        new = name.replace(x, y)
                        if new in known and new != name and not name.startswith('Hypergraph'):
                            at(n, lambda m, t, new=new: setattr(m, 'attr' if isinstance(m, ast.Attribute) else 'id', new), f"{new} for {u()!r}", fn)
        if isinstance(n, FN):
            ls = [a.arg for a in n.args.posonlyargs + n.args.args if a.arg not in ('self', 'cls')]
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id in ls and len(ls) > 1:
                    o = ls[(ls.index(m.id) + 1) % len(ls)]
                    at(m, lambda q, t, o=o: setattr(q, 'id', o), f"{o} for {m.id} line {m.lineno}", f"{fn}")
    walk(tree, None, None)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-f', default='')
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('-o', default='/tmp/mut.jsonl')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--cost', type=float, default=1e9, help='only the checks that take less than this many seconds')
    a = ap.parse_args()
    repo = '/repo'
    files = sorted(f for f in glob.glob(f"{repo}/{PKG}/**/*.py", recursive=True) if a.f in f)
    trees = {f: ast.parse(open(f).read()) for f in sorted(glob.glob(f"{repo}/{PKG}/**/*.py", recursive=True))}
    known = names_of(trees.values())
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    cov, cost = {}, {}
    for p in props:
        e = json.load(open(os.path.join(V, 'evidence', p + '.json')))
        cov[p] = {re.sub(r':\d+.*', '', x) for x in e['coverage']['functions_analysed']}
        cost[p] = e['wall_s']
    jobs = []
    done = set()
    if os.path.exists(a.o):
        done = {(d['file'], d['what'], d['line'], d['n']) for d in map(json.loads, open(a.o))}
    for f in files:
        seen = {}
        for what, fn, line, go in mutants(trees[f], known):
            k = (os.path.relpath(f, repo), what, line)
            seen[k] = seen.get(k, -1) + 1
            if (*k, seen[k]) not in done:
                jobs.append((f, what, fn, line, seen[k], go))
    if a.sample and len(jobs) > a.sample:
        random.seed(1)
        jobs = random.sample(jobs, a.sample)
    print(len(jobs), 'mutants', flush=True)
    if a.list:
        return
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    short = {t.split('::')[0] + '::' + t.split('::')[-1] for t in stable}
    local = threading.local()
    lock = threading.Lock()
    pool = []
    for i in range(a.j):
        d = f"/tmp/mu/{os.getpid()}_{i}"
        os.makedirs(d, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'])
        os.makedirs(d + '/ev', exist_ok=True)
        pool.append(d)
    roots = list(pool)
    out = open(a.o, 'a')

    def one(job):
        f, what, fn, line, n, go = job
        rel = os.path.relpath(f, repo)
        with lock:
            d = pool.pop()
        res = {'file': rel, 'what': what, 'fn': fn, 'line': line, 'n': n}
        tgt = os.path.join(d, 'repo', rel)
        orig = open(f).read()
        try:
            try:
                src = go()
                compile(src, rel, 'exec')
            except Exception as e:
                res['result'] = 'invalid'
                return res
            if src == ast.unparse(trees[f]):
                res['result'] = 'same'
                return res
            open(tgt, 'w').write(src)
            t = subprocess.run(f"cd {d}/repo/framework_python && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 60 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=20 --continue-on-collection-errors --tb=no -rA test 2>&1 | grep -E '^PASSED'", shell=True, capture_output=True, text=True).stdout
            got = {l.split()[1].replace('.py::', '::').replace('/', '.') for l in t.split('\n') if l.startswith('PASSED')}
            got = {g.split('::')[0] + '::' + g.split('::')[-1] for g in got}
            if short - got:
                res['result'] = 'tests'
                return res
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE_DIR=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
            order = sorted((p for p in props if (rel in cov[p] or not cov[p]) and cost[p] < a.cost), key=lambda p: cost[p])
            und = {}
            for p in order:
                try:
                    r = subprocess.run(['timeout', '300', 'python3', os.path.join(V, 'bin/check.py'), p], cwd=V, env=env, capture_output=True, text=True)
                except Exception as e:
                    continue
                if r.returncode == 1:
                    res['result'] = p
                    return res
                if r.returncode != 0:
                    und[p] = 'rc%d' % r.returncode
                else:
                    m = re.search(r'(\d+) undecided', r.stdout)
                    if m and int(m.group(1)) > (6 if p == 'P32' else 0):
                        und[p] = int(m.group(1))
            res['result'] = 'survived'
            res['und'] = und
            res['checks'] = order
            return res
        finally:
            open(tgt, 'w').write(orig)
            with lock:
                pool.append(d)
                if 'result' in res:
                    out.write(json.dumps(res) + '\n')
                    out.flush()
    with cf.ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, jobs))
    for d in roots:
        shutil.rmtree(d)


main()
