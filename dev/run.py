#!/usr/bin/env python3
"""Development only: run the checks on edited copies of the repository.
usage: dev/run.py CORPUS.py [-p PXX,...] [-n name-substring] [-v]
A corpus defines CASES = [(name, kind, props, [(file, old, new), ...]), ...]; kind is 'bug' (every listed property must
raise) or 'same' (behaviour unchanged: every listed property, or all if empty, must stay quiet)."""
import concurrent.futures as cf
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = '/repo'
FP = 'framework_python/rei/'


def load(path):
    sp = importlib.util.spec_from_file_location('corpus', path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.CASES


def make(edits):
    d = tempfile.mkdtemp(prefix='vf_')
    shutil.copytree(REPO + '/framework_python', d + '/framework_python', ignore=shutil.ignore_patterns('__pycache__', '.git'))
    g = 'framework/cognitive/speclanguage/src/main/antlr4'
    if os.path.isdir(f"{REPO}/{g}"):
        shutil.copytree(f"{REPO}/{g}", f"{d}/{g}")
    for f, old, new in edits:
        p = None
        for c in (f, FP + f, 'framework_python/' + f):
            if os.path.exists(f"{d}/{c}"):
                p = f"{d}/{c}"
                break
        if p is None:
            shutil.rmtree(d)
            return None, f"no file {f}"
        s = open(p).read()
        if s.count(old) < 1:
            shutil.rmtree(d)
            return None, f"text not found in {f}: {old[:60]!r}"
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
        if p.endswith('.py'):
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                shutil.rmtree(d)
                return None, f"syntax {e}"
    return d, None


def check(d, prop, ev):
    r = subprocess.run([sys.executable, V + '/bin/check.py', prop], capture_output=True, text=True, cwd=V,
                       env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE_DIR': ev})
    return r.returncode, r.stdout + r.stderr


def main():
    a = sys.argv[1:]
    verb = '-v' in a
    props = names = None
    if '-p' in a:
        props = a[a.index('-p') + 1].split(',')
    if '-n' in a:
        names = a[a.index('-n') + 1]
    from rules.registry import RULES
    allp = sorted(RULES)
    cases = []
    for path in [x for x in a if x.endswith('.py')]:
        cases += load(path)
    cases = [c for c in cases if (not names or names in c[0])]

    def one(c):
        name, kind, ps, edits = c
        d, err = make(edits)
        if err:
            return name, kind, [('-', 'SETUP', err)]
        ev = tempfile.mkdtemp(prefix='ve_')
        out = []
        todo = (ps or allp) if kind == 'bug' else allp
        if props:
            todo = [p for p in todo if p in props]
        for p in todo:
            if p not in RULES:
                continue
            rc, o = check(d, p, ev)
            und = [l for l in o.splitlines() if 'undecided ' in l and l.startswith('    ')]
            if kind == 'bug':
                st = 'ok' if rc == 1 else ('ERR' if rc != 0 else 'MISSED')
            else:
                st = 'ok' if rc == 0 else ('ERR' if rc != 1 else 'FALSE-ALARM')
                if rc == 0 and und:
                    st = 'ok(und)'
            out.append((p, st, o))
        shutil.rmtree(d)
        shutil.rmtree(ev)
        return name, kind, out
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, kind, out in ex.map(one, cases):
            sts = ' '.join(f"{p}:{s}" for p, s, _ in out if s not in ('ok',) or kind == 'bug')
            flag = any(s in ('MISSED', 'ERR', 'FALSE-ALARM', 'SETUP') for _, s, _ in out)
            bad += flag
            print(('!! ' if flag else '   ') + f"{kind:5}{name}: {sts or 'quiet'}")
            for p, s, o in out:
                if s == 'SETUP' or (verb and s != 'ok') or (s in ('ERR', 'FALSE-ALARM')):
                    print('      ' + '\n      '.join(x[:260] for x in o.splitlines()[:4 if not verb else 14]))
    print(f"{len(cases)} cases, {bad} not as expected")


if __name__ == "__main__":
    main()
