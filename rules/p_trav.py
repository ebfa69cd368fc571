"""P14 hierarchy traversal, P16 call depth, P17 termination on cyclic graphs, P18 searches."""
import ast
import math
from sa.interp import NONE, TRUE, FALSE, C, is_c, contains, subst, State
from sa.loader import AnalysisError, ClassInfo
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from . import worklist as W

BOUNDED = 'the work list holds only a bounded number of entries'

START = ('sym', 'start')
VIS, FLT, MAXD, IGN = (('sym', n) for n in ('visitor_func', 'filter_func', 'max_depth', 'ignore_root'))


def concrete(p, root):
    out = []
    for c in [root] + p.subclasses.get(root, []):
        f = p.find(c, 'execute')
        if f is not None and not f.is_abstract:
            out.append(c)
    return out


def vcalls(events, f):
    return [e for e in events if e[0] == 'vcall' and e[1] == f]


def accepted(I, st, facts, x, call):
    """polarity of filter(x) among facts; None when it is not tested"""
    for a, pol in facts:
        if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == FLT and a[1][2][:1] == (x,):
            return pol
        if a[0] in ('is', 'eq') and any(y[0] == 'call' and y[1] == FLT and y[2][:1] == (x,) for y in a[1:3] if isinstance(y, tuple)):
            other = [y for y in a[1:3] if not (y[0] == 'call' and y[1] == FLT)]
            if other and other[0] in (TRUE, FALSE):
                return pol if other[0] == TRUE else not pol
    return None


# ---------------------------------------------------------------------------------------------------------------- P14
def p14(ctx):
    ctx.rule('start', 'the start is visited once, first, if the filter accepts it and it is not to be ignored')
    ctx.rule('children', 'every accepted child of a processed element, and only those, is put on the work list exactly once')
    ctx.rule('visit', 'every element taken from the work list is visited exactly once and the outcome is kept')
    ctx.rule('depth', 'elements are reached exactly down to the depth limit')
    ctx.rule('order', 'breadth-first takes the oldest, depth-first the newest entry; breadth-first keeps the order of the children')
    ctx.rule('complete', 'the traversal ends only when the work list is empty')
    m = Model(ctx)
    p = ctx.prog
    root = p.cls('HierarchicalTraversal')
    cs = concrete(p, root)
    if not cs:
        raise AnalysisError('no hierarchy traversal')
    for c in cs:
        ctx.guard('visit', c.name, traversal, ctx, m, c, where=p.find(c, 'execute').where)
    ctx.minimum = 4


def traversal(ctx, m, c):
    p = m.p
    f = p.find(c, 'execute')
    I = m.interp(implicit=False)
    states, names = W.construct(I, m, c)
    w = f.where
    if not states or not {'visitor_func', 'filter_func'} <= set(names):
        ctx.und('visit', c.name, w, f"constructor {names}")
        return
    for s0 in states:
        s0.types[START] = p.cls('HypergraphNode')
        s0.vers['nonnull'] = tuple(s0.vers.get('nonnull', ())) + (START,)
        r = I.entry(f, [START], s0, recv=SELF)
        ctx.paths += len(r)
        limited = 'max_depth' in names
        seen = set()
        for s, sig in r:
            if sig[0] == 'raise':
                if not any(a[0] == 'isinst' or contains(a, lambda x: x == NONE) for a, _ in s.facts[len(s0.facts):]):
                    ctx.bad('complete', c.name, w, f"raises {exc_name(sig)}")
                continue
            run_path(ctx, m, I, c, s, sig, w, limited, seen)


def start_visits(I, s, lp):
    pre = []
    for e in s.events:
        if e[0] == 'loop' and lp is not None and e[1].lid == lp.lid:
            break
        pre.append(e)
    return [e for e in pre if e[0] == 'vcall' and e[1] == VIS], pre


def run_path(ctx, m, I, c, s, sig, w, limited, seen):
    con = c.name
    if W.bound(s):
        ctx.bad('complete', con, W.bound(s), BOUNDED)
    mains = W.find_main(I, s)
    mains = [(l, q) for l, q in mains if not any(l2 is not l and l.lid in {x.lid for x in W.loops_in([('loop', l2, None)])} - {l2.lid}
                                                 for l2, _ in mains)]
    F = accepted(I, s, s.facts, START, None)
    G = I.decide(s, ('truthy', IGN))
    if len(mains) != 1:
        below = [l for l in W.loops_in(s.events) if children_of(m, l) == START]
        if below and not mains and not any(e[0] in ('rec', 'mcall', 'ecall') for e in flat(s.events)) and \
                not any(e[0] == 'vcall' and e[1] == VIS and e[2][:1] != (START,) for e in flat(s.events)):
            ctx.bad('visit', con, w, 'no element below the start is ever visited')
            return
        if mains or below or any(e[0] == 'rec' for e in flat(s.events)):
            ctx.und('visit', con, w, f"{len(mains)} work loops")
            return
        # nothing below the start is looked at on this path
        hit = [M for M in (1, 2, 3) if W.possible(s.facts, {MAXD: M})] if limited else [math.inf]
        ctx.ob('depth', con + ' nothing below', not hit, w, f"nothing below the start is reached with depth limit {hit[0]}" if hit else '')
        lp = None
    else:
        lp, Q = mains[0]
    if lp is None:
        start_part(ctx, m, I, con, s, sig, w, F, G, None)
        return
    where = where_of(lp.loc)
    top = [e[1].lid for e in s.events if e[0] == 'loop']
    if lp.lid not in top:
        ctx.und('visit', con, where, 'the work loop lies in another loop')
        return
    # ---- before the loop
    head = lp.pre.ops.get(Q, ())
    ini, ok = W.puts(I, head, Q)
    if not ok:
        ctx.und('children', con, where, 'work list filled in a way that is not understood')
        return
    self_put = [x for x in ini if not x.chain]
    for x in self_put:
        e = [t for t in (x.value,) + tuple(x.value[1] if x.value[0] in ('tup', 'list') else ()) if t[0] == 'elem']
        if e and children_of(m, I.loops[e[0][1]]) is not None:
            ctx.bad('children', con, where_of(I.loops[e[0][1]].loc), 'leaves the loop over the children early')
            return
    if self_put:
        # the start itself goes through the work list
        ctx.und('start', con, where, 'the start goes through the work list')
        return
    if not start_part(ctx, m, I, con, s, sig, w, F, G, lp):
        return
    R = sig[1]
    # ---- numbers
    limits = (0, 1, 2, 3, 4, 7, 300) if limited else [math.inf]
    # initial labels
    first = init_children(ctx, m, I, con, ini, lp, where, s)
    if first is None:
        return
    its = []
    for pth in lp.paths:
        it = turn(ctx, m, I, con, lp, Q, pth, where, R)
        if it is None:
            return
        its.append(it)
    its = [i for i in its if i != 'end']
    if not its:
        ctx.und('visit', con, where, 'no turn of the work loop understood')
        return
    depth_logic(ctx, m, I, con, s, first, its, limits, where)
    # ---- order
    bfs = 'Breadth' in con
    sides = {i['side'] for i in its}
    opsk = {x.op for i in its for x in i['puts']} | {x.op for x in ini}
    rev = [x for i in its for x in i['puts'] if rev_loop(x)] + [x for x in ini if rev_loop(x)]
    if opsk <= {'add'} or opsk <= {'addleft'}:
        left = opsk == {'addleft'}
        fifo = {('front', False), ('back', True)}
        kinds = {(sd, left) for sd in sides}
        if any(sd == 'other' for sd, _ in kinds):
            ctx.bad('order', con, where, 'takes neither the oldest nor the newest entry')
        elif kinds <= fifo:
            ctx.ob('order', con, bfs, where, '' if bfs else 'takes the oldest entry: breadth-first')
            if bfs:
                ctx.ob('order', con + ' children', not rev, where, 'children in reverse order' if rev else '')
        elif not kinds & fifo:
            ctx.ob('order', con, not bfs, where, 'takes the newest entry: depth-first' if bfs else '')
        else:
            ctx.bad('order', con, where, 'takes the oldest and the newest entry')
    elif not opsk:
        pass
    elif 'insert' in opsk:
        ctx.und('order', con, where, 'inserts at a computed place')
    else:
        ctx.bad('order', con, where, 'puts at both ends')


def start_part(ctx, m, I, con, s, sig, w, F, G, lp):
    """visits outside the work loop; False when the rest of the path makes no sense"""
    where = where_of(lp.loc) if lp is not None else w
    sv, pre = start_visits(I, s, lp)
    other = [e for e in sv if e[2][:1] != (START,)]
    if other:
        ctx.und('start', con, where, f"visits {m.show(other[0][2][0])} before the work loop")
        return False
    inloops = [e for e in flat(pre) if e[0] == 'vcall' and e[1] == VIS and e not in sv]
    if inloops:
        ctx.und('visit', con, where, 'visits elements before they are taken from the work list')
        return False
    n = len(sv)
    want = None
    if F is False or G is True:
        want = 0
    elif F is True and G is False:
        want = 1
    if want is None:
        # not every condition decides on this path
        ctx.ob('start', con, False, w, ('visited' if n else 'not visited') + ' without regard to ' +
               ('the filter' if F is None else 'ignore_root'))
    else:
        ctx.ob('start', con, n == want, w, '' if n == want else f"the start is visited {n} times where {'it is accepted' if want else 'it is rejected or ignored'}")
    after = False
    for e in s.events:
        if lp is not None and e[0] == 'loop' and e[1].lid == lp.lid:
            after = True
        elif after and e[0] == 'vcall' and e[1] == VIS:
            ctx.bad('start', con, w, 'visits after the work loop')
    # ---- returned list
    R = sig[1]
    rops = s.ops.get(R, ()) if R[0] == 'o' else None
    flatR = None
    if rops is not None:
        flatR = [o for o in rops if o[0] == 'add']
        if n and want:
            okr = bool(rops) and rops[0][0] == 'add' and rops[0][1][0] == 'call' and rops[0][1][1] == VIS
            ctx.ob('start', con + ' outcome', okr, w, '' if okr else 'the outcome of visiting the start is not the first of the result')
    return True


def rev_loop(x):
    c = x.chain[-1][0].coll if x.chain else None
    return c is not None and c[0] == 'rev'


def children_of(m, lp):
    """element whose children the loop goes through (all of them), or None"""
    c = W.strip(lp.coll)
    while c is not None and c[0] in ('rev', 'coll', 'iter', 'splice'):
        c = c[1]
    if c is not None and c[0] == 'view' and c[1] in ('values', 'items') and c[2][0] == 'f' and c[2][2] == m.CH:
        return c[2][1]
    return m.loop_children_of_I(lp) if hasattr(m, 'loop_children_of_I') else None


def split_entry(v, e):
    """(element, label) of an entry; label None when the entry is the element itself"""
    if v == e:
        return v, None
    if v[0] in ('tup', 'list') and e in v[1]:
        rest = [x for x in v[1] if x != e]
        if len(rest) == 1 and len(v[1]) == 2:
            return e, (rest[0], v[1].index(rest[0]), v[1].index(e))
    return None


def cover(ctx, m, I, con, plist, Q, lids, ops, where, parent):
    """The puts of one group of children loops: [(Put, label, filtered)] or None.  Reports missing and double puts."""
    out = []
    by = {}
    for x in plist:
        if len(x.chain) != 1:
            ctx.und('children', con, where, 'nested loops fill the work list')
            return None
        by.setdefault(x.chain[0][0].lid, []).append(x)
    loops = {x.chain[0][0].lid: x.chain[0][0] for x in plist}
    for lid, xs in by.items():
        lp = loops[lid]
        who = children_of(m, lp)
        if who is None:
            ctx.und('children', con, where, f"the loop at {where_of(lp.loc)} does not go through the children")
            return None
        if who != parent:
            ctx.bad('children', con, where_of(lp.loc), f"puts the children of {m.show(who)}, not of {m.show(parent)}")
            return None
        e = lp.elem if lp.elem is not None and lp.elem[0] == 'elem' else ('elem', lid, 0)
        if e[0] == 'tup':
            e = ('elem', lid, 0)
        e = ('elem', lid, 0)
        for p in lp.paths:
            if p.sig is not None:
                if p.sig[0] in ('break', 'return', 'wexit', 'raise'):
                    ctx.bad('children', con, where_of(lp.loc), 'leaves the loop over the children early')
                continue
            mine = [x for x in xs if x.chain[0][1] is p]
            acc = accepted(I, p.st, p.facts, e, None)
            extra = [(a, pol) for a, pol in p.facts if not (a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == FLT)]
            if len(mine) > 1:
                ctx.bad('children', con, where_of(lp.loc), 'a child is put more than once')
            elif len(mine) == 1:
                sp = split_entry(mine[0].value, e)
                if sp is None:
                    ctx.und('children', con, where_of(lp.loc), f"entry {m.show(mine[0].value)}")
                    return None
                if acc is False:
                    ctx.bad('children', con, where_of(lp.loc), 'a rejected child is put')
                else:
                    ctx.good('children', con, where_of(lp.loc))
                out.append((mine[0], sp[1], acc is True))
            else:
                if acc is not False:
                    ctx.bad('children', con, where_of(lp.loc), 'a child that the filter does not reject is left out' +
                            (f" when {m.show(extra[0][0])}{'' if extra[0][1] else ' is false'}" if extra else ''))
    if len(by) > 1:
        ctx.bad('children', con, where, f"the children of one element are put {len(by)} times")
    return out


def init_children(ctx, m, I, con, ini, lp, where, s):
    if not ini:
        return []
    return cover(ctx, m, I, con, ini, None, None, None, where, START)


def turn(ctx, m, I, con, lp, Q, pth, where, R):
    """what one turn of the work loop does"""
    ops = I.path_ops(lp, pth, Q)
    takes = [o for o in ops if o[0] == 'take']
    if pth.sig is not None and pth.sig[0] != 'continue':
        empty = any(a[0] == 'empty' and a[1] == Q and pol for a, pol in pth.facts)
        if pth.sig[0] == 'raise' and exc_name(pth.sig) in ('IndexError', 'Empty', 'QueueEmpty'):
            return 'end'
        if not empty and not takes:
            lens = [a for a, pol in pth.facts if contains(a, lambda x: x[0] == 'len' and x[1] == Q)]
            if lens:
                return 'end'
        if not empty:
            ctx.bad('complete', con, where, f"ends ({pth.sig[0]}) before the work list is empty")
            return None
        return 'end'
    if len(takes) != 1:
        if not takes:
            ctx.bad('complete', con, where, 'a turn takes nothing from the work list')
        else:
            ctx.und('complete', con, where, f"a turn takes {len(takes)} entries")
        return None
    T, side = takes[0][1], takes[0][2]
    pl, ok = W.puts(I, ops, Q)
    if not ok:
        ctx.und('children', con, where, 'work list changed in a way that is not understood')
        return None
    # the element of the entry: what the visitor gets or whose children are put
    cand = []
    for e in flat(pth.events):
        if e[0] == 'vcall' and e[1] == VIS and e[2]:
            cand.append(e[2][0])
    for x in pl:
        w = children_of(m, x.chain[0][0]) if x.chain else None
        if w is not None:
            cand.append(w)
    el = None
    for x in cand:
        if x == T or (x[0] == 'item' and x[1] == T):
            el = x
            break
    return {'T': T, 'side': side, 'puts': pl, 'el': el, 'facts': pth.facts, 'path': pth, 'lp': lp, 'R': R, 'Q': Q,
            'visits': [e for e in pth.events if e[0] == 'vcall' and e[1] == VIS],
            'deep': [e for e in flat(pth.events) if e[0] == 'vcall' and e[1] == VIS and e not in pth.events]}


def depth_logic(ctx, m, I, con, s, first, its, limits, where):
    els = {i['el'] for i in its if i['el'] is not None}
    if len(els) > 1:
        ctx.bad('visit', con, where, 'visits one part of an entry and expands another: ' + ', '.join(sorted(m.show(x) for x in els)))
        return
    if not els:
        if not any(i['visits'] or i['deep'] for i in its):
            ctx.bad('visit', con, where, 'elements taken from the work list are never visited')
        else:
            i = next(i for i in its if i['visits'] or i['deep'])
            ctx.und('visit', con, where, f"visits {m.show((i['visits'] or i['deep'])[0][2][0])}")
        return
    el = els.pop()
    T = its[0]['T']
    # labels
    labs = {x[1] for x in first} if first else set()
    forms = {None if l is None else (l[1], l[2]) for l in labs}
    whole = el == T
    labterm = None
    if forms and None not in forms and not whole:
        if len(forms) != 1:
            ctx.und('depth', con, where, 'entries of several forms')
            return
        pos, epos = forms.pop()
        if el != ('item', T, C(epos), el[3] if len(el) > 3 else 0):
            ctx.bad('visit', con, where, f"visits {m.show(el)} of an entry whose element is part {epos}")
            return
        labterm = [t for i in its for t in item_terms(i, T, pos)]
        labterm = labterm[0] if labterm else ('item', T, C(pos), 0)
    elif first and (whole != (forms == {None})):
        ctx.und('depth', con, where, 'the form of the entries is not understood')
        return
    # labels of the children put in a turn
    for i in its:
        cov = cover(ctx, m, I, con, i['puts'], i['Q'], None, None, where, el) if i['puts'] else []
        if cov is None:
            return
        i['cov'] = cov
        fm = {None if x[1] is None else (x[1][1], x[1][2]) for x in cov}
        if cov and fm != ({None} if labterm is None else {(pos, epos)}) and first:
            ctx.bad('depth', con, where, 'entries for children have another form than the first ones')
            return
    filtered_first = bool(first) and all(x[2] for x in first)
    filt = [x[2] for i in its for x in i['cov']]
    # ---- what a turn does with its element
    for i in its:
        i['acc'] = accepted(I, i['path'].st, i['facts'], el, None)
        v = i['visits']
        bad = [e for e in v + i['deep'] if e[2][:1] != (el,)]
        if bad:
            ctx.bad('visit', con, where, f"visits {m.show(bad[0][2][0])}")
            return
        if i['deep'] or len(v) > 1:
            ctx.bad('visit', con, where, 'an element is visited more than once')
            return
        i['visited'] = len(v) == 1
        if i['visited']:
            R = i['R']
            if R[0] == 'o':
                ro = I.path_ops(i['lp'], i['path'], R)
                adds = [o for o in ro if o[0] == 'add']
                ok = len(ro) == 1 and len(adds) == 1 and adds[0][1][0] == 'call' and adds[0][1][1] == VIS
                ctx.ob('visit', con + ' outcome', ok, where, '' if ok else 'the outcome of a visit is not kept once, in order')
    need = not (filtered_first and all(filt))

    def known(a):
        return a[0] in ('empty',) or (a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == FLT) or contains(a, lambda x: x[0] == 'len')
    names = depth_names(m)

    def own(t):
        return t[0] == 'f' and len(t) > 2 and t[2] in names
    # the depth an element has in its hierarchy: k at the start, one more with every level
    mentioned = any(contains(x, own) for i in its for x in [a for a, _ in i['facts']] + [y.value for y in i['puts']]) or \
        any(x[1] is not None and contains(x[1][0], own) for x in first or []) or any(contains(a, own) for a, _ in s.facts)
    for M, k in [(M, k) for M in limits for k in ((0, 2) if mentioned else (0,))]:
        level = [0]

        def depth_of(t):
            if not own(t):
                return None
            return k if t[1] == START else k + level[0] if t[1] == el else k + level[0] + 1 if t[1][0] == 'elem' else None
        env0 = {'depth of': depth_of}
        if M is not math.inf:
            env0[MAXD] = M
        top = 3 if M is math.inf else M + 2
        # children of the start
        can = W.possible(s.facts, env0)
        if not can:
            continue
        label = None
        vals = set()
        for x in first:
            if x[1] is not None:
                vals.add(W.number(x[1][0], env0))
        if len(vals) > 1 or None in vals:
            ctx.und('depth', con, where, 'first label not a number')
            return
        label = vals.pop() if vals else 1
        reach = bool(first)
        if not reach and M >= 1:
            ctx.bad('depth', con, where, f"nothing below the start is reached with depth limit {M}")
            return
        for d in range(1, top + 1):
            level[0] = d
            env = dict(env0)
            if labterm is not None:
                for t in {x for i in its for x in item_terms(i, T, pos)} | {labterm}:
                    env[t] = label
            adm = [i for i in its if W.possible(i['facts'], env)]
            ok_adm = [i for i in adm if i['acc'] is not False] if need else [i for i in adm if i['acc'] is not False]
            rejected = [i for i in adm if i['acc'] is False]
            for i in rejected:
                if i['visited'] or i['cov']:
                    ctx.bad('visit', con, where, 'a rejected element is visited or its children are put')
                    return
            if need and reach and any(i['acc'] is None and i['visited'] for i in adm):
                ctx.bad('children', con, where, 'elements reach the visitor without having passed the filter')
                return
            V = {i['visited'] for i in ok_adm}
            P = {bool(i['cov']) for i in ok_adm}
            if reach:
                if d <= M:
                    if not V:
                        ctx.und('visit', con, where, f"no turn for depth {d} with limit {M}")
                        return
                    if False in V:
                        b = next(i for i in ok_adm if not i['visited'])
                        fx = W.foreign(b['facts'], env, known)
                        ctx.bad('visit', con, where, f"an accepted element at depth {d} is not visited with depth limit {M}" +
                                (f" when {m.show(fx[0][0])} is {fx[0][1]}" if fx else ''))
                        return
                elif True in V:
                    ctx.bad('depth', con, where, f"an element at depth {d} is visited with depth limit {M}")
                    return
            if d < M and reach:
                if False in P:
                    b = next(i for i in ok_adm if not i['cov'])
                    fx = W.foreign(b['facts'], env, known)
                    ctx.bad('depth', con, where, f"the children of an element at depth {d} are not reached with depth limit {M}" +
                            (f" when {m.show(fx[0][0])} is {fx[0][1]}" if fx else ''))
                    return
            reach = reach and True in P
            if not reach:
                break
            nxt = set()
            for i in ok_adm:
                for x in i['cov']:
                    nxt.add(None if x[1] is None else W.number(x[1][0], env))
            if labterm is not None:
                if None in nxt or len(nxt) != 1:
                    ctx.und('depth', con, where, 'label of the children not a number')
                    return
                label = nxt.pop()
        ctx.good('depth', f"{con} limit {M}", where)
        ctx.good('visit', con, where)
    ctx.good('complete', con, where)


def depth_names(m):
    """names under which an element tells its own depth"""
    out = {'depth'}
    for c in m.p.classes_of(m.p.cls('HierarchicalElement')):
        f = c.methods.get('depth')
        if f is not None:
            r = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Attribute)]
            out |= {x.value.attr for x in r}
    return out


def item_terms(i, T, pos):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) >= 3 and x[0] == 'item' and x[1] == T and x[2] == C(pos):
                out.append(x)
                return
            for y in x:
                go(y)
    for a, _ in i['facts']:
        go(a)
    for x in i['puts']:
        go(x.value)
    return out


# ---------------------------------------------------------------------------------------------------------------- P16
def p16(ctx):
    ctx.rule('no-recursion', 'nothing that an operation over a graph runs for an element calls the operation that is already running')
    ctx.rule('self-calls', 'no cycle of calls among the methods of a graph operation')
    m = Model(ctx)
    p = ctx.prog
    root = p.cls('GraphMonad')
    todo = [(c, 'execute') for c in concrete(p, root)]
    for n in ('HierarchicalPrepositionQuery', 'HypergraphQueryEngine', 'NumpyTensorRepresentation'):
        c = p.cls(n)
        for k in p.classes_of(c):
            if k in p.mro(p.cls('HypergraphNode')) or k is root:
                continue
            for name, f in k.methods.items():
                if not name.startswith('__') and not f.is_abstract and (c, name) not in todo and p.find(c, name) is f:
                    todo.append((c, name))
    for c in p.subclasses.get(root, []):
        ctx.guard('self-calls', c.name, self_calls, ctx, p, c, where=c.name)
    for c, name in todo:
        ctx.guard('no-recursion', f"{c.name}.{name}", recursion, ctx, m, c, name, where=p.find(c, name).where)
    ctx.minimum = 10


def self_calls(ctx, p, c):
    """cycles among the methods of a class through self, super or the class itself"""
    graph = {}
    fns = {}
    for k in p.classes_of(c):
        for name, f in k.methods.items():
            if f is None:
                continue
            key = f.qual
            fns[key] = f
            out = set()
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                    continue
                v = n.func.value
                attr = n.func.attr
                if attr.startswith('__') and not attr.endswith('__'):
                    t = k.methods.get(attr)
                    if t is not None and isinstance(v, ast.Name):
                        out.add(t.qual)
                    continue
                if isinstance(v, ast.Name) and v.id in ('self', 'cls'):
                    t = p.find(c, attr)
                    if t is not None:
                        out.add(t.qual)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    mro = p.mro(c)
                    for q in mro[mro.index(k) + 1:]:
                        if isinstance(q, ClassInfo) and q.methods.get(attr) is not None:
                            out.add(q.methods[attr].qual)
                            break
            graph.setdefault(key, set()).update(out)
    # strongly connected components
    idx, low, st, on, res = {}, {}, [], set(), []

    def dfs(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        for w in graph.get(v, ()):
            if w not in idx:
                dfs(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in graph.get(v, ()):
                res.append(sorted(comp))
    for v in graph:
        if v not in idx:
            dfs(v)
    el = p.cls('HierarchicalElement')
    res = [r for r in res if not all(any(f.qual == q for k in p.classes_of(el) + [el] + p.subclasses.get(el, []) for f in k.methods.values() if f) for q in r)]
    for r in res:
        ctx.bad('self-calls', c.name, fns[r[0]].where, 'calls itself: ' + ' -> '.join(r))
    if not res:
        ctx.good('self-calls', c.name, c.where if hasattr(c, 'where') else '', f"{len(graph)} methods")


def recursion(ctx, m, c, name):
    p = m.p
    f = p.find(c, name)
    I = m.interp(implicit=False)
    states, names = W.construct(I, m, c)
    args = [a.arg for a in f.node.args.args][0 if f.is_static else 1:]
    if f.node.args.vararg or f.node.args.kwonlyargs:
        ctx.und('no-recursion', f.qual, f.where, 'parameters')
        return
    n = 0
    for s0 in states[:4]:
        for a in args:
            t = f.node.args.args[[x.arg for x in f.node.args.args].index(a)].annotation
            if a == 'start':
                s0.types[('sym', a)] = p.cls('HypergraphNode')
                s0.vers['nonnull'] = tuple(s0.vers.get('nonnull', ())) + (('sym', a),)
        r = I.entry(f, [('sym', a) for a in args], s0, recv=SELF)
        ctx.paths += len(r)
        n += len(r)
        for s, sig in r:
            for e in flat(s.events):
                if e[0] == 'rec':
                    ctx.bad('no-recursion', f"{c.name}.{name}", where_of(e[3]), f"{e[1].qual} is called again while it runs")
                    return
    if n:
        ctx.good('no-recursion', f"{c.name}.{name}", f.where)
    else:
        ctx.und('no-recursion', f"{c.name}.{name}", f.where, 'no path')


# ---------------------------------------------------------------------------------------------------------------- P17
def admits_kind(p, facts, el, K):
    for a, pol in facts:
        if a[0] == 'isinst' and a[1] == el:
            x = a[2]
            if isinstance(x, ClassInfo):
                if p.issub(K, x) != pol:
                    return False
            elif isinstance(x, tuple) and x and x[0] == 'or':
                if any(p.issub(K, y) for y in x[1] if isinstance(y, ClassInfo)) != pol:
                    return False
        if a[0] == 'is' and a[1] == NONE and a[2] == el and pol:
            return False
        if a[0] == 'is' and a[2] == NONE and a[1] == el and pol:
            return False
        if a[0] == 'eq' and contains(a, lambda x: x[0] == 'call' and x[1] in ('type', ('ext', 'type')) and x[2][:1] == (el,)):
            return None
    return True


def key_of(m, k, x):
    """'self' / 'uuid' / 'id' when k identifies element x; another observer's name when it does not; None"""
    if k == x:
        return 'self'
    if k[0] == 'f' and k[1] == x:
        return 'uuid' if k[2] == m.UUID else k[2]
    if k[0] == 'call' and k[1] in ('id', ('ext', 'id')) and k[2][:1] == (x,):
        return 'id'
    if k[0] in ('mcall', 'item', 'call', 'op', 'cat', 'tup') and contains(k, lambda t: t == x):
        return 'other'
    return None


def in_facts(m, facts, x):
    """[(kind, container, polarity, key)] of the membership facts about element x"""
    out = []
    for a, pol in facts:
        if a[0] == 'in' and len(a) >= 3 and not (a[2][0] == 'f' and a[2][1] != SELF):
            k = key_of(m, a[1], x)
            if k is not None:
                out.append((k, a[2], pol, a[1]))
    return out


def marks(I, m, lp, pth, x):
    """[(kind, container, key)]: what a turn remembers about x"""
    out = []
    for cont in pth.st.ops:
        if cont[0] not in ('o', 'f', 'shared'):
            continue
        for o in I.path_ops(lp, pth, cont):
            if o[0] in ('sadd', 'set', 'add'):
                k = key_of(m, o[1], x)
                if k is not None:
                    out.append((k, cont, o[1]))
    return out


class Walk:
    """One class whose operation follows a work list"""
    def __init__(self, ctx, m, c, rule, opaque=False, contracts=None):
        self.ctx, self.m, self.c = ctx, m, c
        self.p = m.p
        self.f = m.p.find(c, 'execute')
        self.I = m.interp(implicit=False, contracts=contracts or {})
        self.rule = rule
        if opaque:
            self.states, self.names = [m.start(c)], []
        else:
            self.states, self.names = W.construct(self.I, m, c)
        self.REL = m.p.cls('HypergraphRelation')
        self.END = m.field_of(self.REL, 'endpoint')
        self.DIR = m.field_of(self.REL, 'direction')

    def runs(self):
        for s0 in self.states:
            s0.types[START] = self.p.cls('HypergraphNode')
            s0.vers['nonnull'] = tuple(s0.vers.get('nonnull', ())) + (START,)
            for s, sig in self.I.entry(self.f, [START], s0, recv=SELF):
                self.ctx.paths += 1
                yield s0, s, sig

    def turns(self, lp, Q):
        """[turn] of the work loop; 'end' paths as ('end', path)"""
        out = []
        for pth in lp.paths:
            ops = self.I.path_ops(lp, pth, Q)
            takes = [o for o in ops if o[0] == 'take']
            pl, ok = W.puts(self.I, ops, Q)
            out.append({'path': pth, 'takes': takes, 'puts': pl, 'ok': ok, 'sig': pth.sig})
        return out

    def element_of(self, turns, initial):
        """(element term, (position of the element, of the label) or None)"""
        T = next((t['takes'][0][1] for t in turns if t['takes']), None)
        if T is None:
            return None, None, None
        v = initial
        if v == START:
            return T, T, None
        if v[0] in ('tup', 'list') and START in v[1] and len(v[1]) == 2:
            i = v[1].index(START)
            j = 1 - i
            el = None
            for t in turns:
                for x in self.terms(t, T, i):
                    el = x
            return T, el or ('item', T, C(i), 0), (i, j)
        return T, None, None

    def terms(self, t, T, pos):
        out = []

        def go(x):
            if isinstance(x, tuple):
                if len(x) >= 3 and x[0] == 'item' and x[1] == T and x[2] == C(pos):
                    if x not in out:
                        out.append(x)
                    return
                for y in x:
                    if isinstance(y, tuple):
                        go(y)
        for a, _ in t['path'].facts:
            go(a)
        for x in t['puts']:
            go(x.value)
            for lp, _ in x.chain:
                if lp.coll is not None:
                    go(lp.coll)
            for a, _ in x.facts:
                go(a)
        for e in flat(t['path'].events):
            for y in e[1:]:
                if isinstance(y, tuple):
                    go(y)
        return out


def classify(w, x, el, pos):
    """what a put hands on, relative to the processed element: (what, loop, path, label)"""
    v = x.value
    lab = None
    if pos is not None:
        if v[0] not in ('tup', 'list') or len(v[1]) != 2:
            return None
        lab = v[1][pos[1]]
        v = v[1][pos[0]]
    if not x.chain:
        if v == ('f', el, w.END, 0):
            return 'endpoint', None, None, lab, v
        if v == ('f', el, w.m.PARENT, 0):
            return 'parent', None, None, lab, v
        if v == el:
            return 'itself', None, None, lab, v
        if v[0] == 'f' and v[1][0] == 'elem' and v[2] == w.END:
            v = v[1]
        if v[0] == 'elem' and children_of(w.m, w.I.loops[v[1]]) is not None:
            return 'early', w.I.loops[v[1]], None, lab, v
        return None
    if len(x.chain) != 1:
        return None
    lp, pth = x.chain[0]
    who = children_of(w.m, lp)
    e = ('elem', lp.lid, 0)
    if who is None:
        return None
    if v == e:
        return ('child' if who == el else 'other child'), lp, pth, lab, v
    if v[0] == 'f' and v[1] == e and v[2] == w.END:
        return ('child endpoint' if who == el else 'other child'), lp, pth, lab, v
    if v == el:
        return 'itself', lp, pth, lab, v
    return None


def p17(ctx):
    ctx.rule('once', 'an element is processed only if it was not processed before in this run, and that is remembered by its identity')
    ctx.rule('fresh', 'what was processed is remembered per run')
    ctx.rule('reach', 'from every processed element the walk goes on to everything that follows')
    ctx.rule('limit', 'endpoints are reached exactly within the depth limit, which needs first-in first-out order')
    ctx.rule('ends', 'the walk ends when, and only when, the work list is empty')
    m = Model(ctx)
    p = ctx.prog
    N, E, R = p.cls('HypergraphNode'), p.cls('HypergraphEdge'), p.cls('HypergraphRelation')
    spec = {
        'HypergraphTraversal': {N: [('child', E)], E: [('child', R)], R: [('endpoint', None)]},
        'Factorization2Operation': {N: [('child', E)], E: [('child endpoint', R)]},
        'QuerySearchElement': {N: [('child', None), ('parent', None)], E: [('child', None), ('parent', None)]},
    }
    for n, sp in spec.items():
        c = p.cls(n)
        for k in [c] + p.subclasses.get(c, []):
            if p.find(k, 'execute') is not None and not p.find(k, 'execute').is_abstract:
                ctx.guard('once', k.name, walker, ctx, m, k, sp, n == 'QuerySearchElement', where=p.find(k, 'execute').where)
    ctx.minimum = 6


def copy_queue(I, st, args, kwargs, fr, node):
    """copy.copy of the work list of the query default argument: recorded as a finding under P15, a new list here"""
    v = args[0]
    if v[0] == 'shared' or (v[0] == 'o' and I.hobj(st, v) is not None and I.hobj(st, v).kind == 'queue'):
        q = I.alloc(st, 'queue', data='fifo', node=node)
        I.async_queues.add(q)
        st.events.append(('copied queue', v, I.loc(fr, node)))
        return [(st, q)]
    return [(st, ('call', 'copy.copy', tuple(args), (), I.new()))]


def walker(ctx, m, c, spec, tree):
    p = m.p
    con = c.name
    w = Walk(ctx, m, c, 'once', opaque=tree, contracts={'ext:copy.copy': copy_queue})
    I = w.I
    done = 0
    for s0, s, sig in w.runs():
        if sig[0] == 'raise':
            ctx.bad('ends', con, w.f.where, f"raises {exc_name(sig)}")
            continue
        if W.bound(s):
            ctx.bad('ends', con, W.bound(s), BOUNDED)
        mains = W.find_main(I, s)
        if len(mains) != 1:
            loops = list(W.loops_in(s.events))
            ctx.und('once', con, w.f.where, f"{len(mains)} work loops")
            continue
        lp, Q = mains[0]
        where = where_of(lp.loc)
        ini, ok = W.puts(I, lp.pre.ops.get(Q, ()), Q)
        if not ok or len(ini) != 1 or ini[0].chain:
            ctx.und('once', con, where, 'work list not filled with the start alone')
            continue
        turns = w.turns(lp, Q)
        T, el, pos = w.element_of(turns, ini[0].value)
        if el is None:
            ctx.und('once', con, where, f"entries {m.show(ini[0].value)}")
            continue
        done += 1
        walk_path(ctx, m, w, con, s, lp, Q, turns, T, el, pos, ini[0].value, spec, tree, where)
    if not done:
        ctx.und('once', con, w.f.where, 'no run understood')


def walk_path(ctx, m, w, con, s, lp, Q, turns, T, el, pos, initial, spec, tree, where):
    p, I = m.p, w.I
    work = []
    for t in turns:
        pth = t['path']
        if t['sig'] is not None and t['sig'][0] != 'continue':
            if t['sig'][0] == 'raise':
                if exc_name(t['sig']) not in ('IndexError', 'Empty', 'QueueEmpty'):
                    ctx.bad('ends', con, where, f"raises {exc_name(t['sig'])}")
                continue
            empty = any(a[0] == 'empty' and a[1] == Q and pol for a, pol in pth.facts)
            match = tree and t['takes'] and name_match(m, pth.facts, el) is True
            if not empty and not match:
                if any(contains(a, lambda x: x[0] == 'len' and x[1] == Q) for a, _ in pth.facts):
                    continue
                ctx.bad('ends', con, where, f"ends ({t['sig'][0]}) with work left")
            continue
        if len(t['takes']) != 1:
            ctx.bad('ends', con, where, 'a turn takes nothing from the work list') if not t['takes'] else \
                ctx.und('ends', con, where, 'several entries per turn')
            return
        if not t['ok']:
            ctx.und('reach', con, where, 'work list changed in a way that is not understood')
            return
        work.append(t)
    # ---- what each turn hands on
    for t in work:
        t['cl'] = []
        for x in t['puts']:
            k = classify(w, x, el, pos)
            if k is None:
                ctx.und('reach', con, where, f"puts {m.show(x.value)}")
                return
            if k[0] == 'early':
                ctx.bad('reach', con, where_of(k[1].loc), 'leaves a loop over the children early')
                return
            if k[0] == 'itself':
                ctx.bad('once', con, where, 'puts the processed element back')
                return
            if k[0] == 'other child':
                ctx.bad('reach', con, where_of(k[1].loc), 'puts children of something else')
                return
            t['cl'].append((k, x))
    # ---- processed at most once
    mode = None
    for t in work:
        busy = bool(t['puts']) or any(e[0] == 'vcall' for e in flat(t['path'].events))
        inf = in_facts(m, t['path'].facts, el)
        mk = marks(I, m, lp, t['path'], el)
        wrong = [i for i in inf if i[0] not in ('self', 'uuid', 'id')]
        right = [i for i in inf if i[0] in ('self', 'uuid', 'id')]
        t['again'] = any(i[2] for i in right)
        if not busy:
            continue
        if t['again']:
            ctx.bad('once', con, where, 'goes on from an element that was processed before')
            return
        conts = {i[1] for i in right if not i[2]}
        good = [k for k in mk if k[1] in conts and any(i[1] == k[1] and i[3] == k[2] for i in right)]
        if good:
            t['mode'] = 'take'
            for k in good[:1]:
                fresh_set(ctx, m, I, con, s, lp, k[1], where)
            continue
        if wrong and not right:
            ctx.bad('once', con, where, f"tells elements apart by {wrong[0][0]}, which several elements can share")
            return
        if right and not mk:
            ctx.bad('once', con, where, 'asks whether an element was processed but never remembers it')
            return
        # asked when put?
        res = put_guards(ctx, m, I, w, t, el, lp, mk, con, where, tree, initial, s)
        if res is not True:
            if res is False:
                return
            ctx.bad('once', con, where, 'on a graph that leads back to an element, the element is processed again and again' if not right else
                    'asks in one collection and remembers in another')
            return
        t['mode'] = 'put'
    if any(t.get('mode') for t in work):
        ctx.good('once', con, where)
    # ---- goes on to everything
    for K, wants in spec.items():
        for t in work:
            if t['again'] or admits_kind(p, t['path'].facts, el, K) is not True:
                continue
            if tree and name_match(m, t['path'].facts, el) is True:
                continue
            for what, child in wants:
                reach(ctx, m, w, con, t, el, lp, K, what, child, where, pos)
    # ---- limit
    if pos is not None:
        ctx.guard('limit', con, limit_logic, ctx, m, w, con, work, T, el, pos, initial, lp, where, spec, where=where)
    sides = {t['takes'][0][2] for t in work}
    kinds = {x.op for t in work for x in t['puts']}
    fifo = sides == {'front'} and kinds <= {'add'} or sides == {'back'} and kinds <= {'addleft'}
    if pos is not None and 'depth' in ''.join(w.names):
        ctx.ob('limit', con + ' order', bool(fifo), where, '' if fifo else
               'with a depth limit, an element first met at a greater depth than necessary cuts off what lies behind it')
    ctx.good('ends', con, where)


def name_match(m, facts, el):
    for a, pol in facts:
        if a[0] in ('eq', 'is') and ('f', el, m.QUAL, 0) in a[1:3]:
            return pol
    return None


def fresh_set(ctx, m, I, con, s, lp, cont, where):
    if cont[0] == 'o' and cont in s.vers.get('born', ()):
        ctx.bad('fresh', con, where, 'the record of processed elements is made once and carried over from run to run')
    elif cont[0] == 'o':
        ctx.ob('fresh', con, True, where)
    elif cont[0] in ('f', 'shared'):
        ctx.bad('fresh', con, where, f"the record of processed elements ({m.show(cont)}) is carried over from earlier runs")
    else:
        ctx.und('fresh', con, where, m.show(cont))


def put_guards(ctx, m, I, w, t, el, lp, mk, con, where, tree, initial, s):
    """every put of a turn asks whether the element was processed; True / False (reported) / None"""
    ok = True
    for k, x in t['cl']:
        v = k[4]
        fx = list(x.facts) + list(t['path'].facts)
        inf = [i for i in in_facts(m, fx, v)]
        right = [i for i in inf if i[0] in ('self', 'uuid', 'id') and not i[2]]
        if not right:
            if [i for i in inf if i[0] not in ('self', 'uuid', 'id')]:
                ctx.bad('once', con, where, f"tells elements apart by {inf[0][0]}, which several elements can share")
                return False
            return None
        i = right[0]
        # remembered when put ...
        own = []
        pths = [(k[1], k[2])] if k[1] is not None else [(lp, t['path'])]
        for l2, p2 in pths:
            own += [q for q in marks(I, m, l2, p2, v) if q[1] == i[1]]
        if own:
            first = [o for o in lp.pre.ops.get(i[1], ()) if o[0] in ('sadd', 'add', 'set') and key_of(m, o[1], START) == i[0]]
            # or marked at take as well
            if not first and not [q for q in mk if q[1] == i[1]]:
                ctx.bad('once', con, where, 'the start is not remembered and is processed again')
                return False
            fresh_set(ctx, m, I, con, s, lp, i[1], where)
            continue
        # ... or when taken, which is enough where only one way leads to an element (containment)
        if tree and [q for q in mk if q[1] == i[1] and q[0] == i[0]]:
            fresh_set(ctx, m, I, con, s, lp, i[1], where)
            continue
        if [q for q in mk if q[1] == i[1]] and not tree:
            ctx.bad('once', con, where, 'an element met again before it is taken is processed twice')
            return False
        return None
    return ok


def reach(ctx, m, w, con, t, el, lp, K, what, child, where, pos):
    p, I = m.p, w.I
    name = f"{con}: {K.name} to {what}{' ' + child.name if child else ''}"
    cl = [(k, x) for k, x in t['cl'] if k[0] == what]
    if what in ('endpoint', 'parent'):
        v = ('f', el, w.END if what == 'endpoint' else m.PARENT, 0)
        if len(cl) > 1:
            ctx.bad('once', name, where, 'put twice')
        elif cl:
            ctx.good('reach', name, where)
        else:
            fx = t['path'].facts
            none = any(a[0] == 'is' and NONE in a[1:3] and v in a[1:3] and pol for a, pol in fx)
            seen = any(i[2] for i in in_facts(m, fx, v))
            lim = pos is not None and any(a[0] == 'lt' for a, _ in fx)
            falsy = any(a == ('truthy', v) and not pol for a, pol in fx)
            if none or seen or lim or falsy:
                ctx.good('reach', name, where)
            else:
                ctx.bad('reach', name, where, f"does not go on to the {what}")
        return
    loops = {}
    for k, x in cl:
        loops.setdefault(k[1].lid, []).append((k, x))
    # loops over the children of the element that put nothing of the wanted kind on any path are not the ones meant
    if len(loops) > 1:
        ctx.und('reach', name, where, 'several loops put children')
        return
    if not loops:
        other = [k for k, x in t['cl']]
        ctx.bad('reach', name, where, f"does not go on to {child.name if child else 'the children'} of a {K.name}")
        return
    lid = next(iter(loops))
    L = I.loops[lid]
    e = ('elem', lid, 0)
    from .p_edges import dir_consts, possible_dir
    consts = dir_consts(p)
    d = ('f', e, w.DIR, 0)
    good = True
    for q in L.paths:
        if q.sig is not None:
            if q.sig[0] in ('break', 'return', 'raise'):
                ctx.bad('reach', name, where_of(L.loc), 'leaves the loop over the children early')
                good = False
            continue
        mine = [x for k, x in loops[lid] if k[2] is q]
        isin = child is None or admits_kind(p, q.facts, e, child)
        seen = any(i[2] for i in in_facts(m, q.facts, e) + in_facts(m, q.facts, ('f', e, w.END, 0)))
        dirs = possible_dir(q.facts, d, consts)
        want = isin is True and not seen
        if what == 'child endpoint':
            out = [D for D in dirs if D in ('OUTWARDS', 'BIDIRECTIONAL')]
            if want and not out:
                want = False
                if mine:
                    ctx.bad('reach', name, where_of(L.loc), 'follows a relation that is not outgoing')
                    good = False
                    continue
            nul = any(a[0] == 'is' and NONE in a[1:3] and ('f', e, w.END, 0) in a[1:3] and pol for a, pol in q.facts)
            want = want and not nul
        if len(mine) > 1:
            ctx.bad('once', name, where_of(L.loc), 'a child is put twice')
            good = False
        elif want and not mine:
            ctx.bad('reach', name, where_of(L.loc), 'leaves out a child' + show_facts(m, q.facts))
            good = False
    if good:
        ctx.good('reach', name, where)


def show_facts(m, facts):
    fs = [f"{m.show(a)} is {pol}" for a, pol in facts if a[0] != 'isinst']
    return (' when ' + ', '.join(fs[:2])) if fs else ''


def limit_logic(ctx, m, w, con, work, T, el, pos, initial, lp, where, spec):
    """endpoints one hop further are reached iff the hop is below the limit"""
    p = m.p
    start = W.number(initial[1][pos[1]], {})
    dn = [n for n in w.names if 'depth' in n]
    if start is None or not dn:
        ctx.und('limit', con, where, 'labels or depth parameter not understood')
        return
    D = ('sym', dn[0])
    labt = {x for t in work for x in w.terms(t, T, pos[1])} | {('item', T, C(pos[1]), 0)}
    kinds = list(spec)
    steps = {}
    for M in (1, 2, 3, 5, math.inf):
        label = start
        for hop in range(0, 7):
            # one hop: node -> edge -> relation -> endpoint
            for K in kinds:
                env = {t: label for t in labt}
                env[D] = M
                adm = [t for t in work if not t['again'] and admits_kind(p, t['path'].facts, el, K) is True and W.possible(t['path'].facts, env)]
                nxt = set()
                has = set()
                for t in adm:
                    has.add(bool(t['cl']))
                    for k, x in t['cl']:
                        nxt.add(W.number(k[3], env))
                last = K is kinds[-1]
                if last:
                    want = hop + 1 < M
                    if has == {True, False} and None not in nxt:
                        b = next(t for t in adm if not t['cl'])
                        ends = ('f', el, w.END, 0)
                        if not any(a[0] == 'is' and NONE in a[1:3] and ends in a[1:3] and q for a, q in b['path'].facts) and \
                                not any(i[2] for i in in_facts(m, b['path'].facts, ends)):
                            ctx.bad('limit', con, where, 'whether an endpoint is followed depends on something else' +
                                    show_facts(m, [(a, q) for a, q in b['path'].facts if W.truth(a, env) is None and a[0] not in ('empty', 'in')][:2]))
                            return
                    if (True in has) != want:
                        ctx.bad('limit', con, where, f"an endpoint {hop + 1} hops away is {'followed' if True in has else 'not followed'} with depth limit {M}")
                        return
                    if not want:
                        nxt = None
                        break
                if not nxt or None in nxt or len(nxt) != 1:
                    ctx.und('limit', con, where, f"labels after a {K.name}: {nxt}")
                    return
                label = nxt.pop()
            if nxt is None:
                break
        ctx.good('limit', f"{con} limit {M}", where)


# ---------------------------------------------------------------------------------------------------------------- P18
def p18(ctx):
    ctx.rule('match', 'an element is a result exactly when its current qualified name equals the name searched for')
    ctx.rule('covers', 'an element that does not match is followed to all of its children (and, for the search in both directions, its parent)')
    ctx.rule('anew', 'every run starts with the start alone, no result and no memory of earlier runs')
    ctx.rule('stops', 'the search ends only with a match or when nothing is left')
    ctx.rule('fresh-queue', 'the work list of a run is its own')
    m = Model(ctx)
    p = ctx.prog
    root = p.cls('GraphQuery')
    for c in searches(p, root):
        ctx.guard('match', c.name, search, ctx, m, c, where=p.find(c, 'execute').where)
    ctx.minimum = 4


def searches(p, root):
    out = []
    for c in [root] + p.subclasses.get(root, []):
        f = p.find(c, 'execute')
        g = p.find(c, '_traverse')
        if f is None or f.is_abstract or (g is not None and g.is_abstract):
            continue
        out.append(c)
    return out


def search(ctx, m, c):
    p = m.p
    con = c.name
    up = p.issub(c, p.cls('QuerySearchElement'))
    w = Walk(ctx, m, c, 'match', opaque=True, contracts={'ext:copy.copy': copy_queue})
    I = w.I
    QF = m.field_of(c, 'query_def')
    QT = ('f', SELF, QF, 0)
    RP = p.find(c, 'query_result')
    if RP is None:
        raise AnalysisError('query_result not found')
    for s0, s, sig in w.runs():
        if sig[0] == 'raise':
            ctx.bad('stops', con, w.f.where, f"raises {exc_name(sig)}")
            continue
        for e in flat(s.events):
            if e[0] == 'copied queue' and e[1][0] == 'shared':
                ctx.bad('fresh-queue', 'GraphQuery._setup_query.fringe', where_of(e[2]),
                        'a shallow copy of one default work list is used by every run')
        if W.bound(s):
            ctx.bad('stops', con, W.bound(s), BOUNDED)
        mains = W.find_main(I, s)
        rr = I.entry(RP, [], s.fork(), recv=SELF)
        R = {x[1] for _, x in rr if x[0] == 'return'}
        R = R.pop() if len(R) == 1 else None
        if len(mains) != 1:
            lo = list(W.loops_in(s.events))
            if not lo and not mains and not any(e[0] in ('mcall', 'rec') for e in flat(s.events)):
                ctx.bad('anew', con, w.f.where, 'returns without looking at the hierarchy' + show_facts(m, s.facts[len(s0.facts):]))
            else:
                ctx.und('match', con, w.f.where, f"{len(mains)} work loops")
            continue
        lp, Q = mains[0]
        where = where_of(lp.loc)
        ini, ok = W.puts(I, lp.pre.ops.get(Q, ()), Q)
        if Q[0] in ('f', 'shared'):
            ctx.bad('anew', con + ' work list', where, f"the work list ({m.show(Q)}) is shared between runs")
        if not ok or len(ini) != 1 or ini[0].chain:
            asked = any(contains(a, lambda x: x == ('f', START, m.QUAL, 0)) for a, _ in s.facts + [f for q in lp.paths for f in q.facts])
            if ok and not asked and all(x.chain and x.value[0] == 'elem' for x in ini):
                ctx.bad('covers', con, where, 'the start is not searched')
            else:
                ctx.und('anew', con, where, 'work list not filled with the start alone')
            continue
        turns = w.turns(lp, Q)
        T, el, pos = w.element_of(turns, ini[0].value)
        if el is None:
            ctx.und('match', con, where, f"entries {m.show(ini[0].value)}")
            continue
        # ---- results start empty
        if R is None or R[0] != 'o':
            ctx.ob('anew', con + ' result', False if R is not None and R[0] == 'f' else None, where,
                   f"results are collected in {m.show(R)}, which earlier runs filled" if R is not None else 'result not found')
            if R is None or R[0] != 'f':
                continue
        else:
            pre = lp.pre.ops.get(R, ())
            ctx.ob('anew', con + ' result', not pre, where, 'the result is not empty at the start' if pre else '')
        for t in turns:
            search_turn(ctx, m, w, con, t, el, lp, Q, R, QT, up, where, pos)
        walk_once(ctx, m, w, con, turns, el, lp, s, up, where)


def p_result(m, w):
    return m.p.find(w.c, 'query_result')


def walk_once(ctx, m, w, con, turns, el, lp, s, up, where):
    for t in turns:
        for a, pol in t['path'].facts + [f for x in t['puts'] for f in x.facts]:
            if a[0] == 'in' and a[2][0] in ('f', 'shared') and a[2] not in ():
                if contains(a[1], lambda x: x == el or x[0] == 'elem'):
                    ctx.bad('anew', con + ' memory', where, f"{m.show(a[2])} remembers elements of earlier runs")
                    return
    ctx.good('anew', con + ' memory', where)


def search_turn(ctx, m, w, con, t, el, lp, Q, R, QT, up, where, pos):
    I = w.I
    pth = t['path']
    fx = list(pth.facts)
    name = ('f', el, m.QUAL, 0)
    exact = [(a, pol) for a, pol in fx if a[0] in ('eq', 'is') and set(a[1:3]) == {name, QT}]
    adds = [o for o in I.path_ops(lp, pth, R) if o[0] in ('add', 'insert', 'splice')]
    if not t['takes']:
        if t['sig'] is not None and t['sig'][0] in ('wexit', 'break', 'return'):
            empty = any(a[0] == 'empty' and a[1] == Q and pol for a, pol in fx)
            if not empty and not any(contains(a, lambda x: x[0] == 'len') for a, _ in fx):
                mt = [a for a, pol in fx if contains(a, lambda x: x == R)]
                if mt and up is not None:
                    # stops because a result is there
                    ok = any(a[0] == 'empty' and a[1] == R and not pol for a, pol in fx) or any(
                        a[0] == 'truthy' and a[1] == R and pol for a, pol in fx)
                    ctx.ob('stops', con, True if ok else None, where)
                else:
                    ctx.bad('stops', con, where, 'gives up with elements left')
            else:
                ctx.good('stops', con, where)
        return
    if any(a[0] == 'is' for a, _ in exact):
        ctx.bad('match', con, where, 'compares names by identity')
        return
    skip = [i for i in in_facts(m, fx, el) if i[2]]
    if skip and not exact:
        if adds or t['puts']:
            ctx.bad('match', con, where, 'goes on from an element it had before')
        return
    if not exact:
        other = [a for a, _ in fx if contains(a, lambda x: x == QT)]
        if adds:
            ctx.bad('match', con, where, 'takes an element as a result without comparing its qualified name' +
                    (f": {m.show(other[0])}" if other else ''))
        else:
            ctx.bad('match', con, where, 'an element is passed over without comparing its qualified name' + (f": {m.show(other[0])}" if other else ''))
        return
    pol = exact[0][1]
    if pol:
        if not adds:
            # the result may be a new list
            rr = {x[1] for _, x in I.entry(p_result(m, w), [], pth.st.fork(), recv=SELF) if x[0] == 'return'}
            r2 = rr.pop() if len(rr) == 1 else None
            if r2 is not None and r2 != R:
                if r2[0] != 'o':
                    ctx.und('match', con, where, f"a match makes the result {m.show(r2)}")
                    return
                adds = [o for o in I.path_ops(lp, pth, r2) if o[0] in ('add', 'insert', 'splice')]
        ok = len(adds) == 1 and adds[0][-1] == el
        ctx.ob('match', con, ok, where, '' if ok else f"a match adds {len(adds)} results" if len(adds) != 1 else f"a match adds {m.show(adds[0][-1])}")
        return
    if adds:
        ctx.bad('match', con, where, 'an element with another name is a result')
    if t['sig'] is not None and t['sig'][0] not in ('continue',):
        if t['sig'][0] in ('return', 'break'):
            ctx.bad('stops', con, where, 'gives up after an element that does not match' + show_facts(m, [f for f in fx if f not in exact]))
        elif t['sig'][0] == 'raise':
            ctx.bad('stops', con, where, f"raises {exc_name(t['sig'])}")
        return
    if not t['ok']:
        ctx.und('covers', con, where, 'work list changed in a way that is not understood')
        return
    t['cl'] = []
    for x in t['puts']:
        k = classify(w, x, el, pos)
        if k is None:
            ctx.und('covers', con, where, f"puts {m.show(x.value)}")
            return
        if k[0] in ('early', 'other child', 'itself'):
            ctx.bad('covers', con, where, {'early': 'leaves the loop over the children early', 'other child': 'follows something else',
                                           'itself': 'puts the element back'}[k[0]])
            return
        t['cl'].append((k, x))
    # children
    loops = {k[1].lid for k, x in t['cl'] if k[0] == 'child'}
    if not loops:
        ctx.bad('covers', con, where, 'the children of an element that does not match are not searched' + show_facts(m, [f for f in fx if f not in exact and f[0][0] not in ('empty',)]))
    elif len(loops) > 1:
        ctx.und('covers', con, where, 'several loops put children')
    else:
        L = I.loops[loops.pop()]
        e = ('elem', L.lid, 0)
        for q in L.paths:
            if q.sig is not None:
                if q.sig[0] in ('break', 'return', 'raise'):
                    ctx.bad('covers', con, where_of(L.loc), 'leaves the loop over the children early')
                continue
            mine = [x for k, x in t['cl'] if k[2] is q]
            seen = any(i[2] and i[0] in ('self', 'uuid', 'id') for i in in_facts(m, q.facts, e))
            mark = any(i[2] and i[0] not in ('self', 'uuid', 'id') for i in in_facts(m, q.facts, e))
            if not mine and not seen:
                kinds = [a for a, p2 in q.facts if a[0] == 'isinst']
                ctx.bad('covers', con, where_of(L.loc), 'a child is not searched' + (' because another one has the same name' if mark else
                        f" when {m.show(q.facts[0][0])} is {q.facts[0][1]}" if q.facts else ''))
            else:
                ctx.good('covers', con, where_of(L.loc))
    par = [k for k, x in t['cl'] if k[0] == 'parent']
    P = ('f', el, m.PARENT, 0)
    if up:
        none = any(a[0] == 'is' and NONE in a[1:3] and P in a[1:3] and p2 for a, p2 in fx) or any(a == ('truthy', P) and not p2 for a, p2 in fx)
        seen = any(i[2] and i[0] in ('self', 'uuid', 'id') for i in in_facts(m, fx, P))
        if not par and not none and not seen:
            ctx.bad('covers', con + ' upwards', where, 'the parent is not searched' + show_facts(m, [f for f in fx if f not in exact and f[0][0] != 'empty']))
        else:
            ctx.good('covers', con + ' upwards', where)
    elif par:
        ctx.bad('covers', con, where, 'leaves the part of the hierarchy below the start')
