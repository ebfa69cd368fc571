"""Obligations, verdicts, evidence and known findings shared by all rules."""
import json
import os
import time
import traceback

from sa.loader import AnalysisError, ClassInfo, FuncInfo
from sa.interp import Interp, State, Limit, NONE, TRUE, FALSE, C, is_c, contains, subst

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prog, prop):
        self.prog, self.prop = prog, prop
        self.obs = []            # (rule, construct, status, where, detail)
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.rules = {}
        self.assumptions = []
        self.minimum = 1

    # ---- rules
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, where='', detail=''):
        """ok: True (holds) / False (violated) / None (not decided)"""
        st = 'ok' if ok is True else 'viol' if ok is False else 'und'
        o = (rule, construct, st, str(where), str(detail))
        self.checks = getattr(self, 'checks', 0) + 1
        self._seen = getattr(self, '_seen', set())
        if o not in self._seen:
            self._seen.add(o)
            self.obs.append(o)
        return ok

    def good(self, rule, construct, where='', detail=''):
        return self.ob(rule, construct, True, where, detail)

    def bad(self, rule, construct, where='', detail=''):
        return self.ob(rule, construct, False, where, detail)

    def und(self, rule, construct, where='', detail=''):
        return self.ob(rule, construct, None, where, detail)

    def interp(self, **kw):
        i = Interp(self.prog, **kw)
        self._interps = getattr(self, '_interps', [])
        self._interps.append(i)
        return i

    def release(self, i):
        """an interpreter that is no longer needed"""
        self.functions |= {f.where for f in i.analysed if not f.mod.name.startswith('vclient')}
        self._interps.remove(i)

    def guard(self, rule, construct, fn, *a, where='', **k):
        """Run one obligation; an analysis limit makes it undecided, never a verdict."""
        try:
            return fn(*a, **k)
        except AnalysisError:
            raise
        except (Limit, RecursionError) as e:
            self.und(rule, construct, where, f"analysis limit: {e}")
        except Exception as e:                      # an idiom the machinery does not know
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(rule, construct, where, f"not understood: {type(e).__name__}: {e} @{os.path.basename(tb.filename)}:{tb.lineno}")
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        return None

    def collect(self):
        for i in getattr(self, '_interps', []):
            self.functions |= {f.where for f in i.analysed if not f.mod.name.startswith('vclient')}


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=P15 rule=<rule> construct=<construct> :: what fails
                head, _, what = line[len('finding:'):].partition('::')
                d = dict(t.split('=', 1) for t in head.split() if '=' in t)
                d['what'] = what.strip()
                out.append(d)
    return out


def finish(ctx, tier, seed, t0, level='other'):
    ctx.collect()
    viol = [o for o in ctx.obs if o[2] == 'viol']
    und = [o for o in ctx.obs if o[2] == 'und']
    ok = [o for o in ctx.obs if o[2] == 'ok']
    kf = [k for k in known_findings() if k.get('property') == ctx.prop]
    known, fresh = [], []
    for o in viol:
        m = [k for k in kf if k.get('rule') == o[0] and k.get('construct') == o[1].replace(' ', '_')]
        (known if m else fresh).append((o, m[0] if m else None))
    seen = set()
    for o, k in known:
        if (o[0], o[1]) not in seen:
            seen.add((o[0], o[1]))
            print(f"KNOWN-FINDING: property={ctx.prop} {k['what']} [{o[3]}]")
    evdir = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    per = {}
    for r, c, s, w, d in ctx.obs:
        per.setdefault(r, {'rule': ctx.rules.get(r, ''), 'instances': 0, 'hold': 0, 'violated': 0, 'undecided': 0})
        per[r]['instances'] += 1
        per[r][{'ok': 'hold', 'viol': 'violated', 'und': 'undecided'}[s]] += 1
    cov = {
        'explanation': 'Static analysis of the current source; nothing of the repository was imported or executed. '
                       + ' '.join(ctx.notes),
        'functions_analysed': sorted(ctx.functions),
        'functions_analysed_count': len(ctx.functions),
        'paths': ctx.paths,
        'path_checks': getattr(ctx, 'checks', 0),
        'obligations': len(ctx.obs), 'obligations_hold': len(ok), 'obligations_violated': len(viol),
        'obligations_undecided': len(und),
        'rules': per,
        'instances': [f"{s}: {r}: {c} [{w}]" for r, c, s, w, d in ctx.obs][:400],
        'undecided': [f"{r}: {c} [{w}] {d}" for r, c, s, w, d in und][:60],
        'violation_list': [f"{o[0]}: {o[1]} at {o[3]}: {o[4]}" for o, _ in fresh],
        'known_findings': [f"{o[0]}: {o[1]} [{o[3]}]" for o, _ in known],
        'modules_parsed': len(ctx.prog.modules),
        'source_digest': ctx.prog.digest(),
    }
    rep = os.path.join(evdir, f"{ctx.prop}.report.txt")
    ev = {'property': ctx.prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 3),
          'violations': len(fresh)}
    with open(os.path.join(evdir, f"{ctx.prop}.json"), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    print(f"{ctx.prop}: {len(ok)} hold, {len(viol)} violated, {len(und)} undecided over {len(ctx.obs)} obligations, "
          f"{len(ctx.functions)} functions, {ctx.paths} paths, {ev['wall_s']}s")
    if os.environ.get('VERIF_VERBOSE'):
        for o in ctx.obs:
            print('   ', o[2], o[0], '|', o[1], '|', o[3], '|', o[4])
    elif und:
        for o in und[:8]:
            print('    undecided', o[0], '|', o[1], '|', o[3], '|', o[4])
    if fresh:
        with open(rep, 'w', encoding='utf-8') as fh:
            for o, _ in fresh:
                fh.write(f"property {ctx.prop}\nrule {o[0]}: {ctx.rules.get(o[0], '')}\nconstruct {o[1]}\nat {o[3]}\n{o[4]}\n\n")
        for o, _ in fresh:
            print(f"  {o[0]}: {o[1]} at {o[3]}: {o[4]}")
        print(f"VIOLATION property={ctx.prop} replay={rep}")
        return 1
    if not ctx.obs:
        print('ERROR: nothing was analysed')
        return 2
    if len(ok) + len(known) < ctx.minimum:
        print(f"NOTE: only {len(ok)} obligations decided of {len(ctx.obs)}, usually at least {ctx.minimum}")
    return 0
