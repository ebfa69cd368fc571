"""P19 query engine, P20 factorisation."""
import ast
from sa.interp import NONE, TRUE, FALSE, C, is_c, contains, State, Frame
from sa.loader import AnalysisError, ClassInfo
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from . import worklist as W


def apply(I, st, f, args, fi, wait=True):
    """call a value, awaiting the outcome; [(state, value or None when it raises)]"""
    fr = Frame(0, fi.mod, fi.cls, fi)
    I.raised.append([])
    out = []
    for s, v in I.call(f, list(args), {}, st, fr, fi.node):
        o = I.hobj(s, v)
        if wait and o is not None and o.kind == 'coro':
            out += I.await_(s, v, fr, fi.node)
        else:
            out.append((s, v))
    for s, sig in I.raised.pop():
        out.append((s, None))
    return out


def await_value(I, st, v, fi):
    fr = Frame(0, fi.mod, fi.cls, fi)
    I.raised.append([])
    out = list(I.await_(st, v, fr, fi.node))
    out += [(s, None) for s, sig in I.raised.pop()]
    return out


# ---------------------------------------------------------------------------------------------------------------- P19
def p19(ctx):
    ctx.rule('reach', 'a query walks the whole hierarchy below its context, context included, wherever its traversal condition accepts')
    ctx.rule('select', 'an element reached is kept exactly once if the condition of the query accepts it, and not otherwise')
    ctx.rule('anew', 'every run collects anew')
    ctx.rule('read', 'reading the results of a query gives all that was kept, each once, in order, and leaves nothing behind')
    ctx.rule('engine', 'the engine runs every registered query completely before it reads it, in the order of registration, and joins the results')
    ctx.rule('register', 'queries are registered under their name and cleared all at once')
    ctx.rule('sync', 'the synchronous form returns what the asynchronous one returns')
    m = Model(ctx)
    p = ctx.prog
    Q, E = p.cls('HierarchicalPrepositionQuery'), p.cls('HypergraphQueryEngine')
    pre, get = p.find(Q, 'prefilter'), p.find(Q, 'get_list_results')
    if pre is None or get is None:
        # the protocol between engine and query was changed: nothing to tell apart
        ctx.und('engine', 'protocol', E.name, 'prefilter / get_list_results are gone')
        return
    ctx.guard('select', Q.name, query, ctx, m, Q, pre, get, where=pre.where)
    ctx.guard('engine', E.name, engine, ctx, m, E, Q, pre, get, where=E.name)
    ctx.guard('register', E.name, register, ctx, m, E, where=E.name)
    ctx.guard('sync', E.name, sync, ctx, m, E, where=E.name)
    ctx.minimum = 8


def trav_fields(m):
    """(visitor field, filter field, ignore field) of a hierarchy traversal"""
    p = m.p
    c = p.cls('BreadthFirstHierarchicalTraversal')
    I = m.interp(implicit=False)
    st, names = W.construct(I, m, c)
    f = {v: a for (b, a), v in st[0].fields.items() if b == SELF}
    return f.get(('sym', 'visitor_func')), f.get(('sym', 'filter_func')), f.get(('sym', 'ignore_root'))


def query(ctx, m, c, pre, get):
    p = m.p
    con = c.name
    I = m.interp(implicit=False)
    HT = p.cls('HierarchicalTraversal')
    N = p.cls('HypergraphNode')
    states, names = W.construct(I, m, c, {'context': N})
    VF, FF, IG = trav_fields(m)
    if len(states) != 1 or not {'context', 'prep', 'traversal_statement'} <= set(names):
        ctx.und('select', con, pre.where, 'constructor')
        return
    PREP, STMT, CTX = ('sym', 'prep'), ('sym', 'traversal_statement'), ('sym', 'context')
    s0 = states[0]
    # ---- run of the traversal: which object walks, from where
    runs = []
    execs = {p.find(k, 'execute') for k in [HT] + p.subclasses.get(HT, []) if p.find(k, 'execute') is not None}

    def walk(I_, st, recv, args, kwargs, fr, node, fi):
        st.events.append(('walk', recv, tuple(args), I_.loc(fr, node)))
        return [(st, I_.alloc(st, 'future', data=('sym', 'walked'), node=node))]
    for f in execs:
        I.contracts[f] = walk
    r = I.entry(pre, [], s0.fork(), recv=SELF)
    ctx.paths += len(r)
    done = None
    for s, sig in r:
        if sig[0] != 'return':
            ctx.bad('reach', con, pre.where, f"raises {exc_name(sig)}")
            return
        if W.bound(s):
            ctx.bad('reach', con, W.bound(s), 'the matches are kept in a queue that holds only a bounded number of entries')
            return
        ws = [e for e in flat(s.events) if e[0] == 'walk']
        if len(ws) != 1:
            if not ws:
                ctx.bad('reach', con, pre.where, 'a path does not walk the hierarchy')
            else:
                ctx.und('reach', con, pre.where, f"{len(ws)} walks")
            return
        T, args = ws[0][1], ws[0][2]
        ctx.ob('reach', con + ' start', args[:1] == (CTX,), pre.where, '' if args[:1] == (CTX,) else f"walks from {m.show(args[0])}")
        o = I.hobj(s, T)
        if o is None or o.kind != 'inst':
            ctx.und('reach', con, pre.where, f"walker {m.show(T)}")
            return

        def fld(a):
            return s.fields.get((T, a)) or o.fields.get(a)
        V, F, G = fld(VF), fld(FF), fld(IG)
        ctx.ob('reach', con + ' context', G == FALSE, pre.where, '' if G == FALSE else 'the context itself is left out')
        lim = [a for a in set(o.fields) | {k[1] for k in s.fields if k[0] == T} if 'depth' in a]
        for a in lim:
            v = fld(a)
            inf = v == ('ext', 'math.inf') or is_c(v) and v[2] == float('inf')
            ctx.ob('reach', con + ' limit', True if inf else False if is_c(v) else None, pre.where, '' if inf else f"depth limit {m.show(v)}")
        R = sig[1]
        if V is None or F is None or R is None or R[0] != 'o':
            ctx.und('select', con, pre.where, f"visitor {V is not None}, filter {F is not None}, outcome {m.show(R)}")
            return
        fresh = R not in [('o', k) for k in s0.heap]
        held = s0.ops.get(R, ())
        clear = not fresh and s.ops.get(R, ())[:1] == (('clear',),) or not fresh and R in s0.ops and False
        ctx.ob('anew', con + ' tasks', True if fresh else False, pre.where,
               '' if fresh else 'the list of an earlier run is handed out and filled again')
        done = (s, T, V, F, R)
    # ---- traversal condition
    s, T, V, F, R = done
    for K in ('HypergraphNode', 'HypergraphEdge', 'HypergraphRelation'):
        x = ('sym', 'x' + K)
        st = s.fork()
        st.types[x] = p.cls(K)
        st.vers['nonnull'] = tuple(st.vers.get('nonnull', ())) + (x,)
        nf = len(st.facts)
        for s2, v in apply(I, st, F, [x], pre):
            ans = None
            for a, pol in s2.facts[nf:]:
                if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == STMT and a[1][2][:1] == (x,):
                    ans = pol
            name = f"{con} condition on {K}"
            if v is None:
                ctx.bad('reach', name, pre.where, 'the traversal condition raises')
            elif v[0] == 'call' and v[1] == STMT and v[2][:1] == (x,):
                ctx.good('reach', name, pre.where)
            elif v in (TRUE, FALSE):
                ok = ans is not None and ans == (v == TRUE)
                if not ok and v == FALSE and ans is None and any(a[0] == 'isinst' and a[1] == x for a, _ in s2.facts[nf:]):
                    ctx.bad('reach', name, pre.where, f"no {K} is ever reached")
                else:
                    ctx.ob('reach', name, ok, pre.where, '' if ok else 'accepts or rejects without asking the traversal condition')
            else:
                ctx.und('reach', name, pre.where, m.show(v))
    # ---- selection
    x = ('sym', 'x')
    st = s.fork()
    st.types[x] = N
    st.vers['nonnull'] = tuple(st.vers.get('nonnull', ())) + (x,)
    nf = len(st.facts)
    before = dict(st.ops)
    cur = apply(I, st, V, [x], pre, wait=False)
    ends = []
    for s2, v in cur:
        if v is None:
            ctx.bad('select', con, pre.where, 'the visitor raises')
            return
        add = s2.ops.get(R, ())[len(before.get(R, ())):]
        coros = [o[1] for o in add if o[0] in W.PUTS and I.hobj(s2, o[1]) is not None]
        if any(o[0] not in W.PUTS for o in add):
            ctx.und('select', con, pre.where, 'task list filled in a way that is not understood')
            return
        lost = [k for k, o in s2.heap.items() if o.kind == 'coro' and k not in st.heap and ('o', k) not in coros and not s2.consumed.get(('o', k))]
        if lost:
            ctx.bad('select', con, pre.where, 'the test of an element is started but never handed to the engine')
            return
        nxt = [s2]
        for q in coros:
            nxt = [t for u in nxt for t, w in await_value(I, u, q, pre) if w is not None]
        ends += [(u, R) for u in nxt]
    kept = set()
    for u, _ in ends:
        puts = [(cont, o) for cont, ops in u.ops.items() for o in ops[len(before.get(cont, ())):]
                if o[0] in W.PUTS + ('sadd', 'set', 'insert') and o[1] == x or o[0] == 'insert' and o[-1] == x]
        puts = [(k, o) for k, o in puts if k != R]
        asked = None
        for a, pol in u.facts[nf:]:
            if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == PREP and a[1][2][:1] == (x,):
                asked = pol
        if asked is None and not puts and not any(x == y for cont, ops in u.ops.items() for o in ops for y in o[1:]):
            ctx.bad('select', con, pre.where, 'an element is dropped without asking the condition of the query')
        elif asked is None:
            ctx.bad('select', con, pre.where, 'an element is kept without asking the condition of the query')
        elif asked:
            ok = len(puts) == 1
            extra = [(a, pol) for a, pol in u.facts[nf:] if not (a[0] == 'truthy' and a[1][0] == 'call') and a[0] != 'isinst']
            ctx.ob('select', con + ' accepted', ok, pre.where, '' if ok else f"an accepted element is kept {len(puts)} times" + (
                f" when {m.show(extra[0][0])} is {extra[0][1]}" if extra else ''))
            kept |= {k for k, _ in puts}
        else:
            ctx.ob('select', con + ' rejected', not puts, pre.where, 'a rejected element is kept' if puts else '')
    if len(kept) != 1:
        if kept:
            ctx.und('read', con, get.where, f"results kept in {len(kept)} places")
        return
    K = kept.pop()
    # ---- reading
    st = s.fork()
    st.ops[K] = (('splice', ('sym', 'held')),)
    st.events = []
    for s2, sig in I.entry(get, [], st, recv=SELF):
        ctx.paths += 1
        if sig[0] != 'return':
            ctx.bad('read', con, get.where, f"raises {exc_name(sig)}")
            continue
        read_out(ctx, m, I, con, s2, sig[1], K, get)


def sub_terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub_terms(x)


def read_out(ctx, m, I, con, s, L, K, get):
    mains = W.find_main(I, s)
    if len(mains) == 1 and mains[0][1] == K:
        lp = mains[0][0]
        where = where_of(lp.loc)
        for pth in lp.paths:
            takes = [o for o in I.path_ops(lp, pth, K) if o[0] == 'take']
            adds = [o for o in I.path_ops(lp, pth, L) if o[0] != 'take'] if L[0] == 'o' else None
            if pth.sig is not None and not takes:
                empty = any(a[0] == 'empty' and a[1] == K and pol for a, pol in pth.facts) or \
                    any(contains(a, lambda x: isinstance(x, tuple) and x[:1] == ('len',)) for a, _ in pth.facts)
                lens = {x for a, _ in pth.facts for x in sub_terms(a) if x[0] == 'len' and x[1] == K}
                if lens and any(W.possible(pth.facts, {x: n for x in lens}) for n in (1, 2, 3)):
                    empty = False
                ctx.ob('read', con + ' end', True if empty else False, where, '' if empty else 'stops reading with results left')
                continue
            if pth.sig is not None and pth.sig[0] in ('break', 'return'):
                ctx.bad('read', con + ' end', where, 'stops reading after a result')
                continue
            if len(takes) != 1:
                ctx.und('read', con, where, f"takes {len(takes)} in a turn")
                continue
            if takes[0][2] != 'front':
                ctx.bad('read', con + ' order', where, 'reads the newest result first')
            if adds is None:
                ctx.und('read', con, where, m.show(L))
                continue
            ok = len(adds) == 1 and adds[0][0] == 'add' and adds[0][1] == takes[0][1]
            ctx.ob('read', con + ' item', ok, where, '' if ok else f"a result is given {len(adds)} times" if len(adds) != 1 else f"gives {m.show(adds[0])}")
        return
    if L == K or (L[0] == 'o' and s.ops.get(L, ()) and s.ops[L][0] == ('splice', ('sym', 'held'))):
        # handed out as it is: a list that the next run must not go on filling is not looked at here
        ctx.und('read', con, get.where, 'results are handed out as they are kept')
        return
    ops = s.ops.get(L, ()) if L[0] == 'o' else None
    if ops is not None and not any(contains(o, lambda x: x == K) for o in ops) and not mains and \
            not any(lp.coll is not None and contains(lp.coll, lambda x: x == K) for lp in W.loops_in(s.events)):
        ctx.bad('read', con, get.where, 'what was kept is not read')
        return
    ctx.und('read', con, get.where, 'reading not understood')


# ---- engine
def opaque(name):
    def f(I, st, recv, args, kwargs, fr, node, fi):
        return [(st, I.alloc(st, 'future', data=('mcall', recv, name, (), (), 0), node=node))]
    return f


def is_q(I, lp, QD):
    """does a loop go through the registered queries, forward and all of them?"""
    return covers(I, W.strip(lp.coll), QD) if lp.coll is not None else None


def covers(I, c, QD):
    """'all' / 'rev' / 'part': what of the table of queries a collection holds"""
    c = W.strip(c)
    if c == QD or c[0] == 'view' and c[1] in ('values', 'items', 'keys') and c[2] == QD:
        return 'all'
    if c[0] == 'rev':
        return {'all': 'rev', 'rev': 'all', 'part': 'part'}.get(covers(I, c[1], QD))
    if c[0] == 'sliceof':
        x = covers(I, c[1], QD)
        if x is None or c[2:] == (NONE, NONE, NONE):
            return x
        if c[2:4] == (NONE, NONE) and is_c(c[4], -1):
            return {'all': 'rev', 'rev': 'all'}.get(x, x)
        if all(is_c(k) for k in c[2:]):
            return 'part' if x in ('all', 'rev', 'part') and not (c[2] in (NONE, C(0)) and c[3:] == (NONE, NONE)) else x
        return None
    if c[0] in ('list', 'tup') and len(c[1]) == 1 and c[1][0][0] == 'each':
        lp = I.loops[c[1][0][1]]
        cont = c[1][0][2]
        for q in lp.paths:
            ops = I.path_ops(lp, q, cont)
            if q.sig is not None or len(ops) != 1 or ops[0][0] != 'add':
                return None
        return is_q(I, lp, QD)
    if c[0] == 'list' and len(c[1]) == 1 and c[1][0][0] == 'splice':
        return covers(I, c[1][0][1], QD)
    return None


def source(I, v, name, QD):
    """'all' if v is what <name> gives for a generic registered query"""
    if v[0] == 'awaited':
        v = v[1]
    if v[0] == 'mcall' and v[2] == name:
        q = v[1]
        if q[0] == 'elem':
            return is_q(I, I.loops[q[1]], QD)
        if q[0] == 'item' and q[1] == QD and q[2][0] == 'elem':
            return is_q(I, I.loops[q[2][1]], QD)
    return None


def per_query(I, ops, cont, name, QD):
    """[(mode, facts)] for the ways a container gets what <name> gives for the queries; None when something else is in it"""
    out = []

    def go(ops, chain, facts):
        for o in ops:
            if o[0] == 'iter':
                lp = I.loops[o[1]]
                live = [q for q in lp.paths]
                for q in live:
                    if not go(I.path_ops(lp, q, cont), chain + [(lp, q)], facts + list(q.facts)):
                        return False
            elif o[0] in ('add', 'splice'):
                v = o[1]
                if o[0] == 'splice':
                    how, ch = source(I, v, name, QD), chain
                elif v[0] == 'elem' and chain and chain[-1][0].lid == v[1]:
                    inner = W.strip(chain[-1][0].coll)
                    how, ch = source(I, inner, name, QD), chain[:-1]
                else:
                    return False
                if how is None:
                    return False
                mode = [is_q(I, lp, QD) for lp, _ in ch]
                if len(mode) != 1:
                    return False
                out.append((mode[0], how, tuple(facts), [q for _, q in chain], o[0]))
            else:
                return False
        return True
    return out if go(ops, [], []) else None


def last_only(I, lp, key, old, name, QD):
    """a variable that every turn over the queries replaces by what <name> gives for that one query"""
    if not lp.next:
        return False
    for nx in lp.next:
        v = nx.get(key)
        if v is None or contains(v, lambda x: x == old):
            return False
        v = W.strip(v)
        if is_q(I, lp, QD) == 'all' and source(I, v, name, QD) == 'all':
            continue
        if lp.coll is not None and W.strip(lp.coll)[0] in ('list', 'coll') and v[0] == 'awaited':
            continue
        return False
    return True


def misread(I, ops, L, QD):
    """a definite mistake in a result that is not one list of all results"""
    for o in ops:
        if o[0] != 'iter':
            continue
        lp = I.loops[o[1]]
        for q in lp.paths:
            for k in I.path_ops(lp, q, L):
                if k[0] == 'add' and source(I, k[1], 'get_list_results', QD):
                    return 'the results of a query are given as one item'
        c = W.strip(lp.coll)
        if c is not None and c[0] == 'o' and any(k[0] in ('sadd', 'iter') for k in lp.head.ops.get(c, ())):
            kinds = {k[0] for z in lp.head.ops.get(c, ()) if z[0] == 'iter' for y in I.loops[z[1]].paths for k in deep_ops(I, I.path_ops(I.loops[z[1]], y, c), c)}
            if kinds == {'sadd'}:
                return 'results pass through a set: order and repetition are lost'
    return None


def deep_ops(I, ops, c):
    for o in ops:
        if o[0] == 'iter':
            for y in I.loops[o[1]].paths:
                yield from deep_ops(I, I.path_ops(I.loops[o[1]], y, c), c)
        else:
            yield o


def engine(ctx, m, E, Q, pre, get):
    p = m.p
    f = p.find(E, 'execute')
    con = E.name
    I = m.interp(implicit=False, contracts={pre: opaque('prefilter'), get: opaque('get_list_results')})
    # the table of queries
    g = p.find(E, 'add_query')
    r = I.entry(g, [('sym', 'name'), ('sym', 'query')], m.start(E), recv=SELF)
    tabs = {k for s, _ in r for k, ops in s.ops.items() for o in ops if k[0] == 'f' and o[0] in ('set', 'add') and ('sym', 'query') in o}
    if len(tabs) != 1 or list(tabs)[0][0] != 'f':
        ctx.und('engine', con, f.where, 'table of queries not found')
        return
    QD = tabs.pop()
    r = I.entry(f, [], m.start(E), recv=SELF)
    ctx.paths += len(r)
    for s, sig in r:
        if sig[0] != 'return':
            ctx.bad('engine', con, f.where, f"raises {exc_name(sig)}")
            continue
        L = sig[1]
        none = any(a[0] == 'empty' and a[1] == QD and pol for a, pol in s.facts) or any(a == ('truthy', QD) and not pol for a, pol in s.facts)
        if L[0] == 'list':
            ops = tuple(('splice', x[1]) if x[0] == 'splice' else ('add', x) for x in L[1])
        elif L[0] == 'o':
            ops = s.ops.get(L, ())
        else:
            lps = [(k, lp) for lp in I.loops.values() if L[0] == 'havoc' and lp.lid == L[1] for k in [L[2]]] if L[0] == 'havoc' else []
            if L == NONE:
                ctx.bad('engine', con, f.where, 'returns nothing')
            elif lps and all(last_only(I, lp, k, L, 'get_list_results', QD) for k, lp in lps):
                ctx.bad('engine', con + ' result', f.where, 'only the results of the last query are given')
            else:
                ctx.und('engine', con, f.where, f"returns {m.show(L)}")
            continue
        if none and not ops:
            ctx.good('engine', con + ' without queries', f.where)
            continue
        other = [(a, pol) for a, pol in s.facts if not (a[0] == 'empty' and a[1] == QD)]
        got = per_query(I, ops, L, 'get_list_results', QD)
        if got is None:
            why = misread(I, ops, L, QD)
            ctx.ob('engine', con + ' result', False if why else None, f.where, why or 'result not understood')
            continue
        if not got:
            ctx.bad('engine', con + ' result', f.where, 'the results of the queries are not in the result' + (
                f" when {m.show(other[0][0])} is {other[0][1]}" if other else ''))
            continue
        ok = True
        for mode, how, facts, paths, kind in got:
            if mode == 'rev' or how == 'rev':
                ctx.bad('engine', con + ' order', f.where, 'queries in reverse order')
                ok = False
            elif mode == 'part' or how == 'part':
                ctx.bad('engine', con + ' result', f.where, 'not every query is read')
                ok = False
            elif mode is None or how is None:
                ctx.und('engine', con + ' result', f.where, 'loop over the queries not understood')
                ok = False
            cond = [(a, pol) for a, pol in facts]
            if cond and ok:
                ctx.bad('engine', con + ' result', f.where, f"a result is only given when {m.show(cond[0][0])} is {cond[0][1]}")
                ok = False
            if any(q.sig is not None and q.sig[0] in ('break', 'return') for q in paths):
                ctx.bad('engine', con + ' result', f.where, 'stops at the first query or result')
                ok = False
        if len(got) > 1 and ok:
            ctx.bad('engine', con + ' result', f.where, f"results are given {len(got)} times")
            ok = False
        # a path of a loop over the queries that reads nothing
        for lp in W.loops_in(s.events):
            if is_q(I, lp, QD) and any(I.path_ops(lp, q, L) for q in lp.paths):
                for q in lp.paths:
                    if q.sig is not None and q.sig[0] in ('break', 'return', 'raise'):
                        ctx.bad('engine', con + ' result', where_of(lp.loc), 'stops before every query was read')
                        ok = False
                    elif q.sig is None and not I.path_ops(lp, q, L):
                        ctx.bad('engine', con + ' result', where_of(lp.loc), 'a query is left out' + (
                            f" when {m.show(q.facts[0][0])} is {q.facts[0][1]}" if q.facts else ''))
                        ok = False
        if ok:
            ctx.good('engine', con + ' result', f.where)
        completed(ctx, m, I, con, s, L, QD, f)


def gathered(I, s, e, QD):
    """does event e complete what prefilter gives (for one generic query or for all of them)?"""
    if e[0] == 'gather':
        for a in e[1]:
            v = a
            if v[0] == 'splice':
                v = v[1]
            if source(I, v, 'prefilter', QD):
                return 'one'
            if v[0] == 'each':
                lid, cont = v[1], v[2]
                got = per_query(I, (('iter', lid),), cont, 'prefilter', QD)
                if got and all(x[0] == 'all' and not x[2] for x in got):
                    return 'all'
                lp = I.loops[lid]
                c = W.strip(lp.coll)
                if source(I, c, 'prefilter', QD):
                    return 'one'
                if c[0] == 'havoc' and last_only(I, I.loops[c[1]], c[2], c, 'prefilter', QD):
                    return 'last'
    if e[0] == 'await' and e[1][0] == 'elem':
        lp = I.loops[e[1][1]]
        if source(I, W.strip(lp.coll), 'prefilter', QD):
            return 'item'
    return None


def reads(I, L, e, QD):
    if e[0] == 'loop':
        c = W.strip(e[1].coll)
        return c is not None and source(I, c, 'get_list_results', QD) is not None
    return False


def completed(ctx, m, I, con, s, L, QD, f):
    """the tests of a query have run before its results are read"""
    seq = []

    def go(events, depth):
        for e in events:
            g = gathered(I, s, e, QD)
            if g:
                seq.append(('done', g, depth))
            if reads(I, L, e, QD):
                seq.append(('read', None, depth))
            if e[0] == 'loop':
                d = depth + [(e[1].lid, is_q(I, e[1], QD))]
                for q in e[1].paths:
                    go(q.events, d)
    go(s.events, [])
    for lp in W.loops_in(s.events):
        if is_q(I, lp, QD):
            for q in lp.paths:
                for o in I.path_ops(lp, q, L):
                    if o[0] == 'splice' and not any(x[0] == 'read' for x in seq):
                        ctx.und('engine', con + ' completion', f.where, 'order of reading not found')
                        return
    r = [i for i, x in enumerate(seq) if x[0] == 'read']
    d = [i for i, x in enumerate(seq) if x[0] == 'done']
    pre = any(source(I, W.strip(lp.coll), 'prefilter', QD) for lp in W.loops_in(s.events) if lp.coll is not None)
    if not d:
        unk = any(e[0] in ('gather', 'await', 'ecall') and contains(e[1:], lambda x: isinstance(x, tuple) and x[:1] == ('mcall',) and len(x) > 2 and x[2] == 'prefilter')
                  for e in flat(s.events))
        if unk or any(e[0] == 'gather' for e in flat(s.events)):
            ctx.und('engine', con + ' completion', f.where, 'what is awaited is not understood')
        else:
            ctx.bad('engine', con + ' completion', f.where, 'the tests of the queries are never completed')
        return
    if any(x[1] == 'last' for x in seq):
        ctx.bad('engine', con + ' completion', f.where, 'only the tests of the last query are completed')
        return
    if not r:
        ctx.und('engine', con + ' completion', f.where, 'order of reading not found')
        return
    ok = min(d) < min(r)
    ctx.ob('engine', con + ' completion', ok, f.where, '' if ok else 'results are read before the tests are completed')


def register(ctx, m, E):
    p = m.p
    con = E.name
    f, g = p.find(E, 'add_query'), p.find(E, 'clear')
    if f is None or g is None:
        raise AnalysisError('add_query / clear not found')
    I = m.interp(implicit=False)
    QD = None
    for s, sig in I.entry(f, [('sym', 'name'), ('sym', 'query')], m.start(E), recv=SELF):
        touched = [(k, o) for k, ops in s.ops.items() for o in ops if k[0] == 'f']
        sets = [(k, o) for k, o in touched if o[0] == 'set']
        ok = sig[0] == 'return' and len(sets) == 1 and sets[0][1][1:] == (('sym', 'name'), ('sym', 'query'))
        if not ok and any(o[0] != 'set' for _, o in touched):
            ok = None
        ctx.ob('register', con + ' add', ok, f.where, '' if ok else 'a query is not registered under its name' + (
            f" when {m.show(s.facts[0][0])} is {s.facts[0][1]}" if s.facts else ''))
        if sets:
            QD = sets[0][0]
    for s, sig in I.entry(g, [], m.start(E), recv=SELF):
        ok = None
        if QD is not None and QD[0] == 'f':
            v = s.fields.get((SELF, QD[2]))
            ops = s.ops.get(QD, ())
            ok = v is not None and v[0] == 'o' and not s.ops.get(v) or any(o[0] == 'clear' for o in ops)
            if not ok and ops:
                ok = None if any(o[0] in ('iter', 'del') for o in ops) and not v else False
        ctx.ob('register', con + ' clear', bool(ok) if ok is not None else None, g.where, '' if ok else 'queries are left after clearing')


def sync(ctx, m, E):
    p = m.p
    f, g = p.find(E, 'execute_all_queries'), p.find(E, 'execute')
    if f is None:
        raise AnalysisError('execute_all_queries not found')
    RES = ('sym', 'RESULT')

    def ex(I, st, recv, args, kwargs, fr, node, fi):
        return [(st, I.alloc(st, 'future', data=RES, node=node))]
    I = m.interp(implicit=False, contracts={g: ex})
    for s, sig in I.entry(f, [], m.start(E), recv=SELF):
        ok = sig[0] == 'return' and sig[1] == RES
        und = sig[0] == 'return' and not ok and contains(I.freeze(s, sig[1]), lambda x: x == RES)
        bad = [(a, pol) for a, pol in s.facts]
        ctx.ob('sync', E.name, True if ok else None if und else False, f.where,
               '' if ok else f"returns {m.show(sig[1]) if sig[0] == 'return' else exc_name(sig)}")


# ---------------------------------------------------------------------------------------------------------------- P20
PAIRERS = ('Factorization2Operation', 'Factorization2SubsetOperation', 'RelationFactorization2SubsetOperation')


def p20(ctx):
    ctx.rule('pairs', 'every pair of an incoming and an outgoing relation of one edge, incoming first, exactly once; self loops only on request')
    ctx.rule('complete', 'the loops over the selection, the edges and the relations are never left early')
    ctx.rule('one-sided', 'an edge with relations on one side only is no error')
    ctx.rule('mapping', 'the mapping of a factorisation maps every pair')
    m = Model(ctx)
    p = ctx.prog
    for n in PAIRERS:
        c = p.cls(n)
        f = p.find(c, 'execute')
        if f is None:
            raise AnalysisError(f"{n}.execute not found")
        ctx.guard('pairs', n, pairs, ctx, m, c, f, where=f.where)
    c = p.cls('MapFactorizationToFactorGraph')
    ctx.guard('mapping', c.name, mapping, ctx, m, c, where=c.name)
    ctx.minimum = 4


def emissions(I, ops, cont, chain=(), facts=()):
    """(value, chain of (loop, path), facts, kind, path state) of everything put into a container"""
    for o in ops:
        if o[0] == 'iter':
            lp = I.loops[o[1]]
            for q in lp.paths:
                yield from emissions(I, I.path_ops(lp, q, cont), cont, chain + ((lp, q),), facts + tuple(q.facts))
        elif o[0] == 'take':
            continue
        else:
            yield o, chain, facts


class Scope:
    """What the elements of the loops of one factorisation stand for."""
    def __init__(self, ctx, m, I, c, s):
        self.ctx, self.m, self.I, self.c, self.s, self.p = ctx, m, I, c, s, m.p
        self.N, self.E, self.R = (self.p.cls(k) for k in ('HypergraphNode', 'HypergraphEdge', 'HypergraphRelation'))
        self.memo = {}
        self.lost = set()

    def lists(self, cont):
        """how a built container of selected things is filled: [(value, facts)] or None"""
        if cont not in self.memo:
            out = []
            for o, chain, facts in emissions(self.I, self.s.ops.get(cont, ()), cont):
                if o[0] not in ('add', 'sadd') or len(chain) > 1:
                    out = None
                    break
                out.append((o[1], tuple(facts)))
            self.memo[cont] = out
        return self.memo[cont]

    def is_start(self, t):
        if t[0] != 'elem' or t[1] not in self.I.loops:
            return False
        c = self.I.loops[t[1]].coll
        return c is not None and W.strip(c) == ('sym', 'start')

    def nodes(self, cont):
        """what a container of the selected nodes holds: 'elem' or 'uuid', or None"""
        if cont == ('sym', 'start') or W.strip(cont) == ('sym', 'start'):
            return 'elem'
        l = self.lists(cont)
        if not l:
            return None
        kinds = set()
        for v, facts in l:
            e = v
            k = 'elem'
            if v[0] == 'f' and v[2] == '_uuid':
                e, k = v[1], 'uuid'
            if not self.is_start(e) or [(a, pol) for a, pol in facts] != [(('isinst', e, self.N), True)]:
                return None
            kinds.add(k)
        return kinds.pop() if len(kinds) == 1 else None

    def groups(self, D):
        """[(things filed with their keys, facts, path, loop)] for a table of lists; None if not understood"""
        if ('g', D) in self.memo:
            return self.memo['g', D]
        self.memo['g', D] = None
        ops = self.s.ops.get(D, ())
        out = []
        for o in ops:
            if o[0] != 'iter':
                return None
            lp = self.I.loops[o[1]]
            if lp.coll is None:
                return None
            e = None
            for q in lp.paths:
                fills = []
                for cont, _ in q.st.ops.items():
                    new = self.I.path_ops(lp, q, cont)
                    if not new:
                        continue
                    k = None
                    if cont[0] == 'item' and cont[1] == D:
                        k = cont[2]
                    else:
                        for d in self.I.path_ops(lp, q, D):
                            if d[0] == 'set' and d[2] == cont:
                                k = d[1]
                    if k is None:
                        continue
                    for n in new:
                        if n[0] in ('add', 'sadd'):
                            fills.append((n[1], k))
                        elif n[0] not in ('iter',):
                            return None
                for d in self.I.path_ops(lp, q, D):
                    if d[0] == 'set':
                        z = self.I.freeze(q.st, d[2])
                        if z[0] in ('list', 'tup') and d[2] not in q.st.ops:
                            fills += [(y, d[1]) for y in z[1]]
                    elif d[0] not in ('iter',):
                        return None
                    if d[0] == 'set' and not any(at[0] == 'in' and at[1] == d[1] and not pol and self.twins(D, at[2]) for at, pol in q.facts):
                        self.lost.add(D)
                for ev in flat(q.events):
                    if ev[0] == 'vcall' and ev[1][0] == 'f' and ev[1][1][0] == 'item' and ev[1][1][1] == D and len(ev[2]) == 1:
                        if ev[1][2] in ('append', 'appendleft', 'add'):
                            fills.append((ev[2][0], ev[1][1][2]))
                        else:
                            return None
                out.append((fills, tuple(q.facts), q, lp))
        self.memo['g', D] = out
        return out

    def twins(self, a, b):
        """two tables that always get the same keys"""
        if a == b:
            return True
        some = False
        for lp in self.I.loops.values():
            for q in lp.paths:
                x, y = ([(o[0], o[1]) for o in self.I.path_ops(lp, q, t) if o[0] != 'iter'] for t in (a, b))
                if sorted(set(x), key=repr) != sorted(set(y), key=repr):
                    return False
                some = some or bool(x)
        return some

    def alternatives(self, e, facts_so_far):
        """ways an element of a loop gets there: [(element it stands for, extra facts, ('edge', X) or ('start',))], or None"""
        lp = self.I.loops.get(e[1]) if e[0] == 'elem' else None
        if lp is None or lp.coll is None:
            return None
        c = W.strip(lp.coll)
        while c[0] == 'rev':
            c = W.strip(c[1])
        if c == ('sym', 'start'):
            return [(e, (), ('start',))]
        if c[0] == 'view' and c[1] == 'values' and c[2][0] == 'f' and c[2][2] in ('_sub_elements', '_sub_relations'):
            return [(e, (), ('edge', c[2][1], c[2][2]))]
        if c[0] == 'call' and isinstance(c[1], str) and c[1].startswith('rec:') and c[1].endswith('sub_relations'):
            return [(e, (), ('edge', c[2][0], '_sub_relations'))]
        if c[0] == 'item':
            return [(e, (), ('group', c[1], c[2]))]
        if c[0] == 'elem' and c[1] in self.I.loops and c[2] == 0:
            o = self.I.loops[c[1]].coll
            if o is not None and o[0] == 'view' and o[1] in ('items', 'values'):
                return [(e, (), ('group', o[2], ('elem', c[1], 1)))]
        return None


def pairs(ctx, m, c, f, rule='pairs', only_directions=False):
    from .p_edges import dir_consts, dir_truth, DIRS
    p = m.p
    con = c.name
    I = m.interp(implicit=c.name.startswith('Relation'))
    consts = dir_consts(p)
    r = I.entry(f, [('sym', 'start')], m.start(c), recv=SELF)
    ctx.paths += len(r)
    N, E, R = (p.cls(k) for k in ('HypergraphNode', 'HypergraphEdge', 'HypergraphRelation'))
    fine = [s for s, sig in r if sig[0] == 'return']
    for s, sig in r:
        if sig[0] != 'return':
            if fine and impossible(Scope(ctx, m, I, c, fine[0]), s.facts):
                continue
            if not only_directions:
                key = s.facts[-1] if s.facts else None
                ctx.bad('one-sided', con, f.where, f"raises {exc_name(sig)}" + (f" when {m.show(key[0])} is {key[1]}" if key else ''))
            continue
        L = sig[1]
        if L[0] != 'o':
            ctx.ob(rule, con, False if L == NONE else None, f.where, f"gives {m.show(L)}")
            continue
        sc = Scope(ctx, m, I, c, s)
        verdict = judge(ctx, m, I, sc, con, s, L, f, rule, consts, dir_truth, DIRS, only_directions)
        if only_directions:
            continue
        if verdict is None:
            continue
        # loops left early, errors
        early = []
        for lp in W.loops_in(s.events):
            if lp.lid in verdict:
                for q in lp.paths:
                    if q.sig is not None and q.sig[0] not in ('wexit', 'raise', 'continue'):
                        early.append((lp, q))
        for e in flat(s.events):
            if e[0] == 'exhausted':
                ctx.bad('complete', con, where_of(e[-1]), 'an iterator is gone through again after it was used up')
                early.append(None)
        for lp, q in [x for x in early if x]:
            ctx.bad('complete', con, where_of(lp.loc), 'the loop is left early' + (f" when {m.show(q.facts[-1][0])} is {q.facts[-1][1]}" if q.facts else ''))
        if not early:
            ctx.good('complete', con, f.where)
        ctx.good('one-sided', con, f.where)


def impossible(sc, facts):
    """a key in one table and not in another that always gets the same keys"""
    ins = [(a[1], a[2], pol) for a, pol in facts if a[0] == 'in' and len(a) > 2]
    return any(k == k2 and a != b and x and not y and sc.twins(a, b) for k, a, x in ins for k2, b, y in ins)


def judge(ctx, m, I, sc, con, s, L, f, rule, consts, dir_truth, DIRS, only_directions):
    """compare what is emitted with what must be, for every valuation; the loops involved, or None when not understood"""
    N, E, R = sc.N, sc.E, sc.R
    ems = []
    lids = set()

    def nope(why):
        ctx.und(rule, con, f.where, why)
        return None
    raw = list(emissions(I, s.ops.get(L, ()), L))
    if not raw:
        ctx.bad(rule, con, f.where, 'no pair is ever given')
        return None
    for o, chain, facts in raw:
        if o[0] != 'add':
            return nope(f"list filled by {o[0]}")
        if not chain:
            return nope('an entry outside every loop')
        st = chain[-1][1].st
        v = I.freeze(st, o[1])
        if o[1][0] == 'tup':
            v = o[1]
        if v[0] in ('list', 'tup') and len(v[1]) == 2:
            a, b = v[1]
            src = None
            if b[0] == 'o':
                src = (st.ops.get(b, ()), b)
            elif b[0] in ('list', 'tup') and len(b[1]) == 1 and b[1][0][0] == 'each':
                src = ((('iter', b[1][0][1]),), b[1][0][2])
            elif b[0] == 'sliceof' and all(is_c(k) for k in b[2:]) and not (b[2] in (NONE, C(0)) and b[3] == NONE):
                ctx.bad(rule, con, f.where, 'only a part of the outgoing relations is given')
                return None
            if src is not None:
                for o2, ch2, f2 in emissions(I, *src):
                    if o2[0] != 'add' or len(ch2) < 1:
                        return nope('second component not understood')
                    ems.append((a, o2[1], chain + ch2, facts + f2))
            else:
                if a[0] != 'elem' and not (a[0] == 'f'):
                    return nope(f"entry {m.show(v)}")
                ems.append((a, b, chain, facts))
        else:
            return nope(f"entry {m.show(v)}")
    # domains
    flat_ems = []
    for a, b, chain, facts in ems:
        lids |= {lp.lid for lp, _ in chain} | {t[1] for t in (a, b) if t[0] == 'elem'}
        aa, bb = sc.alternatives(a, facts), sc.alternatives(b, facts)
        if aa is None or bb is None:
            return nope(f"pair {m.show(a)}, {m.show(b)}")
        for x, fx, wx in aa:
            for y, fy, wy in bb:
                if wx[0] != wy[0]:
                    return nope('the two sides come from different places')
                if wx[0] == 'edge':
                    if wx[1] != wy[1]:
                        ctx.bad(rule, con, f.where, 'relations of different edges are paired')
                        return lids
                elif wx[0] == 'group':
                    if wx[2] != wy[2]:
                        ctx.bad(rule, con, f.where, 'relations of different edges are paired')
                        return lids
                elif wx[0] == 'start':
                    ok = [pol for at, pol in facts if at[0] in ('eq', 'is') and set(at[1:3]) in (
                        {('f', x, '_parent', 0), ('f', y, '_parent', 0)},
                        {('f', ('f', x, '_parent', 0), '_uuid', 0), ('f', ('f', y, '_parent', 0), '_uuid', 0)})]
                    if ok != [True]:
                        if not ok:
                            ctx.bad(rule, con, f.where, 'relations of different edges are paired')
                            return lids
                        return nope('parents')
                flat_ems.append((x, y, tuple(facts) + tuple(fx) + tuple(fy), wx, wy, chain))
    # valuations
    whole = con == 'Factorization2Operation'
    byrel = con.startswith('Relation')
    LOOP = None
    bad = []
    unk = set()
    import itertools

    def ev(at, x, y, d, sel, same, loop, wx, chain):
        """truth of one fact; True/False, 'skip' (about what surrounds the pair), or None"""
        for t, dd in ((x, d[0]), (y, d[1])):
            w = dir_truth(at, ('f', t, '_direction', 0), dd, consts)
            if w is not None:
                return w
        ex, ey = ('f', x, '_endpoint', 0), ('f', y, '_endpoint', 0)
        ux, uy = ('f', ex, '_uuid', 0), ('f', ey, '_uuid', 0)
        if at[0] in ('eq', 'is') and set(at[1:3]) in ({ex, ey}, {ux, uy}):
            return same
        if at[0] in ('eq', 'is') and set(at[1:3]) in ({x, y}, {('f', x, '_uuid', 0), ('f', y, '_uuid', 0)}):
            return False if d[0] != d[1] or not same else True if whole else None
        if at[0] in ('eq', 'is') and len(at) > 2 and NONE in at[1:3] and (at[2] if at[1] == NONE else at[1]) in (ex, ey, x, y, ux, uy):
            return False
        if at[0] == 'in' and len(at) > 2:
            for t, k, z in ((ex, 'elem', sel[0]), (ey, 'elem', sel[1]), (ux, 'uuid', sel[0]), (uy, 'uuid', sel[1])):
                if at[1] == t:
                    return z if sc.nodes(at[2]) == k else None
        if at[0] == 'truthy' and at[1] == ('f', SELF, 'self_loop', 0):
            return loop
        if at[0] == 'truthy' and at[1] in (ex, ey, x, y):
            return True
        if at[0] == 'isinst' and len(at) == 3:
            if at[1] in (x, y):
                return at[2] in R.mro() if hasattr(R, 'mro') else at[2] is R
            if at[1] in (ex, ey):
                return True if at[2] is N else None
            return 'skip'
        if at[0] == 'empty':
            return 'empty'
        if at[0] == 'in' and len(at) > 2 and at[2] == L:
            z = at[1]
            for lp, q in chain:
                z = I.freeze(q.st, z)
            return 'skip' if z[0] in ('list', 'tup') and z[1] == (x, y) else None
        if at[0] == 'in' and len(at) > 2 and wx[0] == 'group' and at[2] in sc.memo_groups:
            return 'skip'
        if contains(at, lambda q: q in (x, y)):
            # about the surroundings (same parent), checked above
            if at[0] in ('eq', 'is') and all(z[0] == 'f' and (z[2] == '_parent' or z[2] == '_uuid' and z[1][0] == 'f' and z[1][2] == '_parent') for z in at[1:3] if isinstance(z, tuple)):
                return 'skip'
            if at[0] == 'in' and at[1] in (('f', ('f', x, '_parent', 0), '_uuid', 0), ('f', ('f', y, '_parent', 0), '_uuid', 0), ('f', x, '_parent', 0), ('f', y, '_parent', 0)):
                return 'skip'
            return None
        return 'skip'
    sc.memo_groups = {g[1] for e in flat_ems for g in e[3:5] if g[0] == 'group'}
    cond = None
    for d in itertools.product(DIRS, DIRS):
        for sel in itertools.product((True, False), repeat=2) if not (whole or byrel) else [(True, True)]:
            for same, loop in itertools.product((False, True), repeat=2) if not whole else [(False, False), (True, False)]:
                if only_directions and (not all(sel) or same):
                    continue
                want = d[0] in ('INWARDS', 'BIDIRECTIONAL') and d[1] in ('OUTWARDS', 'BIDIRECTIONAL') and all(sel) and (not same or loop or whole)
                n, maybe = 0, 0
                seen = []
                for x, y, facts, wx, wy, chain in flat_ems:
                    fate = True
                    foreign = []
                    for at, pol in facts:
                        w = ev(at, x, y, d, sel, same, loop, wx, chain)
                        if w == 'skip':
                            continue
                        if w == 'empty':
                            if pol:
                                fate = False
                            continue
                        if w is None:
                            foreign.append((at, pol))
                        elif w != pol:
                            fate = False
                            break
                    if not fate:
                        continue
                    k = 1
                    if wx[0] == 'group':
                        times = [filed(sc, w[1], dr, consts, dir_truth) for w, dr in ((wx, d[0]), (wy, d[1]))]
                        if None in times:
                            return nope('grouping')
                        if 'edge' in times:
                            ctx.bad(rule, con, f.where, 'relations are not grouped by their edge')
                            return lids
                        if sc.lost & {wx[1], wy[1]}:
                            ctx.bad(rule, con, f.where, 'the relations of an edge that were collected before are thrown away')
                            return lids
                        k = times[0] * times[1]
                    if foreign and k:
                        maybe += 1
                        seen.append(foreign)
                    else:
                        n += k
                if maybe:
                    if want and n == 0:
                        cond = cond or (seen, d)
                    elif not want:
                        unk.add(repr(seen[0][0][0])[:80])
                    continue
                if want and n != 1:
                    bad.append(('a pair of ' + d[0] + ' and ' + d[1] + (f" is given {n} times" if n else ' is left out') + (' (self loop)' if same else ''), None))
                elif not want and n:
                    bad.append(('a pair of ' + d[0] + ' and ' + d[1] + ' is given' + (
                        ' although an endpoint is not selected' if not all(sel) else ' although its endpoints are the same' if same and not loop else ''), None))
    if cond is not None and not bad:
        seen, d = cond
        if len(seen) == 1 and len(seen[0]) == 1:
            at, pol = seen[0][0]
            if contains(at, lambda t: isinstance(t, tuple) and t[:1] == ('attr',)):
                ctx.und(rule, con, f.where, f"a pair depends on {m.show(at)}"[:160])
                return lids
            ctx.bad(rule, con, f.where, f"a pair is only given when {m.show(at)} is {pol}")
            return lids
        at = {a for x in seen for a, _ in x}
        both = all({pol for x in seen for a2, pol in x if a2 == a} == {True, False} for a in at)
        if not both:
            ctx.und(rule, con, f.where, 'a pair depends on ' + '; '.join(sorted(m.show(a) for a in at))[:120])
            return lids
    if bad:
        ctx.bad(rule, con, f.where, bad[0][0])
    elif unk:
        ctx.und(rule, con, f.where, 'not understood: ' + sorted(unk)[0])
    else:
        ctx.good(rule, con, f.where)
    return lids


def filed(sc, D, dr, consts, dir_truth):
    """how often a selected relation of a direction is filed in a table of lists under its edge"""
    g = sc.groups(D)
    if g is None:
        return None
    ns = set()
    for fills, facts, q, lp in g:
        el = ('elem', lp.lid, 0)
        if not sc.is_start(el):
            return None
        live = True
        for at, pol in facts:
            w = dir_truth(at, ('f', el, '_direction', 0), dr, consts)
            if w is None and at[0] == 'isinst' and at[1] == el:
                w = True if at[2] is sc.R else False
            if w is not None and w != pol:
                live = False
            elif w is None and not (at[0] in ('in', 'empty') or at[0] in ('eq', 'is') and NONE in at[1:3] or at[0] == 'truthy' and at[1][0] == 'item'):
                return None
        if not live:
            continue
        for v, k in fills:
            if v != el:
                return None
            if k not in (('f', ('f', el, '_parent', 0), '_uuid', 0), ('f', el, '_parent', 0)):
                return 'edge' if not contains(k, lambda z: z == ('f', el, '_parent', 0)) else None
        ns.add(len(fills))
    return ns.pop() if len(ns) == 1 else None if ns else 0


def mapping(ctx, m, c):
    p = m.p
    f = p.find(c, 'execute')
    I = m.interp(implicit=False)
    st, names = W.construct(I, m, c)
    if f is None or len(st) != 1 or len(names) != 1:
        ctx.und('mapping', c.name, c.name, 'constructor')
        return
    F = ('sym', names[0])
    st = st[0]
    for s, sig in I.entry(f, [('sym', 'start')], st, recv=SELF):
        if sig[0] != 'return':
            ctx.bad('mapping', c.name, f.where, f"raises {exc_name(sig)}")
            continue
        v = sig[1]
        fr = Frame(0, f.mod, f.cls, f)
        outs = I.call(('ext', 'list'), [v], {}, s, fr, f.node)
        for s2, l in outs:
            ops = s2.ops.get(l, ()) if l[0] == 'o' else None
            em = list(emissions(I, ops, l)) if ops else []
            ok = None
            why = 'not understood'
            if v == NONE:
                ok, why = False, 'gives nothing'
            elif em:
                full = all(o[0] == 'add' and len(ch) == 1 and W.strip(ch[0][0].coll) == ('sym', 'start') for o, ch, _ in em)
                good = [o for o, ch, fs in em if o[1][0] == 'call' and o[1][1] == F and o[1][2] == (('elem', ch[0][0].lid, 0),)]
                if full:
                    ok = len(em) == 1 and len(good) == 1 and not em[0][2] and all(q.sig is None for q in em[0][1][0][0].paths)
                    why = '' if ok else 'a pair is mapped more or less than once, or the mapping does not see the pair itself'
            ctx.ob('mapping', c.name, ok, f.where, why if not ok else '')
