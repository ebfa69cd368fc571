"""dev: compact printing of analysis results"""
import sys
sys.path.insert(0, '/verif')


def sh(t, d=0):
    if not isinstance(t, tuple):
        return getattr(t, 'name', None) or str(t)
    if not t:
        return '()'
    k = t[0]
    if d > 14:
        return '..'
    r = lambda x: sh(x, d + 1)
    if k == 'sym':
        return '$' + str(t[1])
    if k == 'c' and len(t) == 3:
        return repr(t[2])
    if k == 'f' and len(t) == 4:
        return f"{r(t[1])}.{t[2]}" + (f"@{t[3]}" if t[3] else '')
    if k == 'item':
        return f"{r(t[1])}[{r(t[2])}]" + (f"@{t[3]}" if t[3] else '')
    if k == 'elem':
        return f"e{t[1]}.{t[2]}"
    if k == 'o':
        return f"o{t[1]}"
    if k == 'havoc':
        return f"H{t[1]}<{'.'.join(map(str, [r(x) if isinstance(x, tuple) else x for x in t[2]]))}>"
    if k == 'mcall':
        return f"{r(t[1])}.{t[2]}({', '.join(map(r, t[3]))}{' '.join(f'{a}={r(b)}' for a, b in t[4]) if isinstance(t[4], tuple) else ''})"
    if k == 'call':
        return f"{r(t[1])}({', '.join(map(r, t[2]))})"
    if k == 'op':
        return '(' + f" {t[1]} ".join(map(r, t[2:])) + ')'
    if k in ('list', 'tup') and len(t) == 2:
        return k[0] + '[' + ', '.join(map(r, t[1])) + ']'
    return '<' + ' '.join(map(r, t)) + '>'


def facts(fs):
    return ' & '.join(('' if p else '!') + sh(a) for a, p in fs)


def events(evs, ind='  ', depth=0, paths=True):
    for e in evs:
        if e[0] == 'loop':
            lp = e[1]
            print(f"{ind}loop {lp.lid} {lp.kind} over {sh(lp.coll) if lp.coll else None} init={ {sh(k): sh(v) for k, v in lp.init.items() if v is not None} } exit={'end' if e[2] is None else e[2].sig}")
            for i, p in enumerate(lp.paths):
                if depth < 5:
                    print(f"{ind}  path {p.sig if p.sig is None or p.sig[0] != 'return' else ('return', sh(p.sig[1]))} [{facts(p.facts)}]")
                    events(p.events, ind + '    ', depth + 1)
            for n in lp.next:
                print(f"{ind}  next", {sh(k): sh(v) for k, v in n.items() if v is not None})
        else:
            print(ind + e[0], ' '.join(sh(x) for x in e[1:-1] if not isinstance(x, dict)), {k: sh(v) for x in e[1:-1] if isinstance(x, dict) for k, v in x.items()} or '', f"@{e[-1][1]}" if isinstance(e[-1], tuple) and len(e[-1]) == 3 else '')


def result(r, ev=True, fields=True):
    for s, sig in r:
        print('== ', sig[0], sh(sig[1]) if sig[0] == 'return' else sig[1], '[' + facts(s.facts) + ']')
        if fields and s.fields:
            print('   fields', {sh(k[0]) + '.' + k[1]: sh(v) for k, v in s.fields.items()})
        if ev:
            events(s.events)
