#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a planted bug: python3 dev/seed.py SPECFILE [-n ID]

A spec file defines SEEDS = [dict(id, property, file (under /repo), edits [(old, new)…], needs, breaks, demo)].
Each bug is made in a scratch copy; kept only when the changed lines are the original repository's, the stable tests
still pass, the demonstration exits 0 without and nonzero with it.  Prints which checks report it."""
from concurrent.futures import ThreadPoolExecutor
import argparse, json, os, shutil, subprocess, sys, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '1432057'
ap = argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('-n', default=''); ap.add_argument('-q', action='store_true', help='checks only')
a = ap.parse_args()
ns = {}; exec(open(a.spec).read(), ns)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
HEAD = """#!/bin/bash
# Runs in /repo; exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/framework_python"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" "$here/demo.py"
"""
for s in ns['SEEDS']:
    if a.n and a.n not in s['id']: continue
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        sh(f'cp -a /repo {w}/repo'); R = w + '/repo'; sh('git checkout -- .', cwd=R)
        d = os.path.join(w, 'seed'); os.makedirs(d)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(HEAD); os.chmod(d + '/demo.sh', 0o755)
        clean = sh(f'timeout 300 {d}/demo.sh', cwd=R)
        eds = s['edits'] if isinstance(s['edits'][0], (tuple, list)) and len(s['edits'][0]) == 3 else [(s['file'], o, n) for o, n in s['edits']]
        bad = None
        for f, o, n in eds:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(o) != 1: bad = f'{f}: old text occurs {t.count(o)}x: {o!r}'; break
            open(p, 'w').write(t.replace(o, n))
        if bad: print(s['id'], 'BAD', bad); continue
        diff = sh('git diff', cwd=R).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # every removed line must be original
        orig = new = 0
        cur = None; ln = 0; bl = {}
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]; bl = {}
                for x in sh(f'git blame -s HEAD -- {cur}', cwd=R).stdout.split('\n'):
                    m = re.match(r'(\^?\w+)\s+(?:\S+\s+)?(\d+)\)', x)
                    if m: bl[int(m.group(2))] = m.group(1)
            elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
            elif l.startswith('-'):
                ln += 1
                if bl.get(ln, '').startswith('^'): orig += 1
                else: new += 1
            elif l.startswith(' '): ln += 1
        tests = sh(f"cd {R}/framework_python && find . -name __pycache__ -prune -exec rm -rf {{}} + ; PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=no -rA test 2>&1 | grep -E '^(FAILED|ERROR|PASSED)'").stdout
        got = {l.split()[1].replace('.py::', '::').replace('/', '.') for l in tests.split('\n') if l.startswith('PASSED')}
        got = {g.split('::')[0] + '::' + g.split('::')[-1] for g in got}
        lost = {t for t in stable if t.split('::')[0] + '::' + t.split('::')[-1] not in got}
        npass = len(stable) - len(lost)
        dirty = sh(f'timeout 300 {d}/demo.sh', cwd=R)
        def one(c):
            return c['property'], sh(f"VERIF_REPO={R} VERIF_EVIDENCE_DIR={w} python3 bin/check.py {c['property']}", cwd=V).returncode
        caught = []
        with ThreadPoolExecutor(7) as ex:
            cs = sorted(json.load(open(V + '/MANIFEST.json'))['checks'], key=lambda c: c['property'] not in ('P30', 'P31', 'P29'))
            for c, rc in sorted(ex.map(one, cs)):
                if rc == 1: caught.append(c)
                elif rc: caught.append(c + '=exit%d' % rc)
        ok = clean.returncode == 0 and dirty.returncode != 0 and orig > 0 and new == 0 and not lost
        print(f"{s['id']}: {'OK ' if ok else 'BAD'} clean={clean.returncode} patched={dirty.returncode} orig={orig} fixlines={new} passed={npass} caught={','.join(caught) or '-'}" + ('' if s['property'] in caught else '   MISSED ' + s['property']), flush=True)
        if not ok: print((clean.stderr + clean.stdout)[-600:], dirty.stderr[-200:] if not dirty.returncode else '')
        if ok and not a.q:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            t = os.path.join(V, 'seeded', s['id']); shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    finally:
        shutil.rmtree(w, ignore_errors=True)
