"""P09 connecting, P10 directions, P11 edges built from node lists (and the rejected number of values of P03)."""
from sa.interp import NONE, C, is_c, contains, State
from sa.loader import AnalysisError
from rules.hier import Model, SELF
from rules.p_hier import flat, exc_name, streams, where_of

DIRS = ('INWARDS', 'OUTWARDS', 'BIDIRECTIONAL')
INC = {'INWARDS': (1.0, 0.0), 'OUTWARDS': (0.0, 1.0), 'BIDIRECTIONAL': (1.0, 1.0)}


def S(n):
    return ('sym', n)


# ------------------------------------------------------------------------------------------------ directions
def dir_consts(prog):
    E = prog.cls('EnumRelationDirection')
    out = {}
    for n in DIRS:
        I = None
        v = class_const(prog, E, n)
        if v is None:
            raise AnalysisError(f"EnumRelationDirection.{n} not found")
        out[n] = v
    return out


def class_const(prog, cls, name):
    from sa.interp import Interp
    I = Interp(prog)
    v = I.class_attr(cls, name)
    if isinstance(v, tuple) and v and v[0] == 'enum':
        return v
    return v[1] if isinstance(v, (list, tuple)) and len(v) == 2 and isinstance(v[1], tuple) else None


def dir_truth(atom, term, D, consts):
    """truth of a fact when `term` (a direction) has the value D; None when the fact says something else"""
    me = consts[D]

    def val(x):
        if x == term:
            return me
        if x[0] == 'enum' or is_c(x):
            return x
        if x[0] == 'f' and x[1] == term and x[2] in ('value', 'name', '_value_'):
            return C(me[3] if x[2] != 'name' else me[2])
        if x[0] == 'call' and x[1] in (('ext', 'int'), 'int') and len(x[2]) == 1:
            y = val(x[2][0])
            return C(y[3]) if y is not None and y[0] == 'enum' else None
        return None

    def num(x):
        return x[3] if x[0] == 'enum' else x[2]
    if not contains(atom, lambda x: x == term):
        return None
    if atom[0] in ('eq', 'is', 'lt') and len(atom) >= 3:
        a, b = val(atom[1]), val(atom[2])
        if a is None or b is None:
            return None
        if a == NONE or b == NONE:
            return a == b
        if isinstance(num(a), str) != isinstance(num(b), str):
            return False
        return num(a) < num(b) if atom[0] == 'lt' else num(a) == num(b)
    if atom[0] == 'in':
        a = val(atom[1])
        cont = atom[2]
        if a is None or cont[0] not in ('tup', 'list', 'set', 'frozenset'):
            return None
        xs = [val(x) for x in cont[1]]
        return None if None in xs else any(num(x) == num(a) for x in xs)
    if atom[0] == 'truthy' and atom[1] == term:
        return bool(num(me))
    if atom[0] == 'isinst':
        return None
    return None


def admits(facts, term, D, consts):
    """True / False / None: can a path with these facts be taken when `term` is D?"""
    res = True
    for a, pol in facts:
        t = dir_truth(a, term, D, consts)
        if t is None:
            if contains(a, lambda x: x == term):
                res = None
            continue
        if t != pol:
            return False
    return res


def possible_dir(facts, term, consts):
    return [D for D in DIRS if admits(facts, term, D, consts) is not False]


def direction_terms(v, DIRF):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'f' and x[2] == DIRF:
                out.append(x)
            for y in x:
                go(y)
    go(v)
    return out


# ------------------------------------------------------------------------------------------------ shared contracts
def rec_op(I, st, recv, args, kwargs, fr, node, fi):
    b = I.bind(fi, [recv] + list(args), kwargs, fr, st, node)
    env = b[0] if b else {}
    pos = [env[k] for k in list(env)[1:]] if b else list(args)
    v = ('mcall', recv, fi.name, tuple(pos), (), I.new())
    st.events.append(('op', fi.name, recv, tuple(env.items()), v, I.loc(fr, node)))
    value = fi.is_gen or fi.name == 'generate_uid'
    return [(st, v if value else NONE)]


def op_args(e):
    return dict(e[3])


def read(I, m, st, obj, name):
    """value of an observer of an object in a state"""
    I2 = I
    o = I.hobj(st, obj)
    if o is not None and o.cls is not None:
        f = m.p.find(o.cls, name)
        if f is None:
            return o.fields.get(name)
        r = I2.entry(f, [], st.fork(), recv=obj)
        vs = {s[1] for _, s in r if s[0] == 'return'}
        return vs.pop() if len(vs) == 1 else None
    return None


def in_loop(events, pred):
    return [e for e in events if e[0] == 'loop' and any(pred(x) for p in e[1].paths for x in flat(p.events))]


def new_of(events, cls, prog):
    return [e for e in flat(events) if e[0] == 'new' and (e[2] == cls or cls in prog.mro(e[2]))]


# ---------------------------------------------------------------------------------------------------------------- P09
def p09(ctx):
    ctx.rule('connect', 'connecting creates one relation, adds it once, makes one port on the endpoint and takes in the semantic value')
    ctx.rule('carries', 'the relation reports exactly the endpoint, weight, direction and semantic value it was given')
    ctx.rule('port', 'an element makes one port that points to the relation, adds it once and registers it under that relation')
    ctx.rule('disconnect', 'disconnecting takes the port registered for the relation out of the element, and nothing else')
    ctx.rule('observers', 'relations, ports and endpoints of an element are read from its current children')
    m = Model(ctx)
    p = ctx.prog
    consts = dir_consts(p)
    REL, PORT, EL = p.cls('HypergraphRelation'), p.cls('HypergraphPort'), p.cls('HypergraphElement')
    K = {'fn:add_element': rec_op, 'fn:remove_element': rec_op, 'fn:connect': rec_op, 'fn:generate_uid': rec_op}
    PARAMS = ('endpoint', 'weight', 'direction', 'semantic_value_node')
    seen = set()
    for c in m.family:
        f = p.find(c, 'unary_connect')
        if f is None or f.is_abstract or f in seen:
            continue
        seen.add(f)
        names = [a.arg for a in f.node.args.args][1:]
        con = f.qual

        def go(f=f, c=c, names=names, con=con):
            if not set(PARAMS) <= set(names):
                ctx.und('connect', con, f.where, f"parameters {names}")
                return
            I = m.interp(implicit=False, contracts=K)
            st = m.start(c)
            EP = S('endpoint')
            st.types[EP] = p.cls('HypergraphNode')
            st.vers['nonnull'] = (SELF, EP)
            r = I.entry(f, [], st, recv=SELF, kwargs={k: S(k) for k in PARAMS})
            ctx.paths += len(r)
            n = 0
            for s, sig in r:
                if not possible_dir(s.facts, S('direction'), consts):
                    continue
                if sig[0] == 'raise':
                    ctx.bad('connect', con, f.where, f"raises {exc_name(sig)}")
                    continue
                n += 1
                connect_path(ctx, m, I, s, con, f, REL)
            if not n:
                ctx.bad('connect', con, f.where, 'never completes')
        ctx.guard('connect', con, go, where=f.where)
        ctx.guard('connect', con + ' default', default_dir, ctx, m, c, f, con + ' default', consts, K, where=f.where)
    ctx.guard('carries', 'HypergraphRelation', carries, ctx, m, REL, consts)
    ctx.guard('carries', 'HypergraphPort', carries_port, ctx, m, PORT)
    seen = set()
    for c in m.family:
        f, g = p.find(c, 'connect'), p.find(c, 'disconnect')
        if f is None or f.is_abstract or f in seen or EL not in p.mro(c):
            continue
        seen.add(f)
        con = f.qual
        K2 = {k: v for k, v in K.items() if k != 'fn:connect'}

        def port(f=f, c=c, con=con, g=g):
            key = one_port(ctx, m, c, f, con, PORT, K2)
            if g is not None and key is not None:
                ctx.guard('disconnect', g.qual, disconnect, ctx, m, c, g, g.qual, key, K2, where=g.where)
            elif g is None:
                raise AnalysisError(f"{c.name}.disconnect not found")
        ctx.guard('port', con, port, where=f.where)
    typed = (('sub_relations', REL, None), ('sub_ports', PORT, None), ('induced_subset', REL, 'endpoint'))
    for c in m.family:
        for name, k, part in typed:
            f = p.find(c, name)
            if f is not None and (f, 'v') not in seen:
                seen.add((f, 'v'))
                ctx.guard('observers', f.qual, typed_view, ctx, m, c, f, k, part, where=f.where)
    from .p_build import p09_life
    p09_life(ctx)
    ctx.minimum = 6


def default_dir(ctx, m, c, f, con, consts, K):
    """not giving a direction means bidirectional"""
    I = m.interp(implicit=False, contracts=K)
    st = m.start(c)
    st.types[S('endpoint')] = m.p.cls('HypergraphNode')
    st.vers['nonnull'] = (SELF, S('endpoint'))
    r = I.entry(f, [], st, recv=SELF, kwargs={'endpoint': S('endpoint'), 'weight': S('weight')})
    for s, sig in r:
        news = new_of(s.events, m.p.cls('HypergraphRelation'), m.p)
        if sig[0] == 'raise' or len(news) != 1:
            continue
        d = read(I, m, s, news[0][1], 'direction')
        ctx.ob('connect', con, None if d is None or d[0] not in ('enum', 'c') else d == consts['BIDIRECTIONAL'], f.where,
               f"without a direction: {m.show(d)}" if d else '')


def connect_path(ctx, m, I, s, con, f, REL):
    w = f.where
    SV = S('semantic_value_node')
    if in_loop(s.events, lambda x: x[0] in ('op', 'new')):
        ctx.und('connect', con, w, 'connects in a loop')
        return
    news = [e for e in s.events if e[0] == 'new' and REL in m.p.mro(e[2])]
    if len(news) != 1:
        ctx.bad('connect', con, w, f"{len(news)} relations are created")
        return
    rel = news[0][1]
    ops = [e for e in s.events if e[0] == 'op']
    adds = [e for e in ops if e[1] == 'add_element']
    a_rel = [e for e in adds if op_args(e).get('element') == rel or rel in [v for _, v in e[3]][1:]]
    if len(a_rel) != 1 or a_rel[0][2] != SELF:
        ctx.bad('connect', con, w, f"the relation is added {len(a_rel)} times" if len(a_rel) != 1 else 'the relation is added to something else')
    else:
        ctx.good('connect', con, w)
    cons = [e for e in ops if e[1] == 'connect']
    ok = len(cons) == 1 and cons[0][2] == S('endpoint') and [v for _, v in cons[0][3]][1:] == [rel]
    ctx.ob('connect', con, ok, w, '' if ok else f"endpoint connected {len(cons)} times: " + ', '.join(m.show(e[4]) for e in cons))
    if ok and a_rel and s.events.index(cons[0]) < s.events.index(a_rel[0]):
        ctx.bad('connect', con, w, 'the port is made before the relation is accepted')
    a_sv = [e for e in adds if e not in a_rel]
    none = I.implied(s, ('is', NONE, SV)) if hasattr(I, 'implied') else None
    d = I.decide(s, I.norm_atom(('is', SV, NONE)))
    if d is None:
        t = I.decide(s, ('truthy', SV))
        if t is True:
            d = False
        elif t is False:
            ctx.und('connect', con, w, 'tests the semantic value for truth')
            return
    if d is True:
        ctx.ob('connect', con + ' without semantic value', not a_sv, w, 'adds something else' if a_sv else '')
    elif d is False:
        ok = len(a_sv) == 1 and a_sv[0][2] == rel and SV in [v for _, v in a_sv[0][3]][1:]
        ctx.ob('connect', con + ' with semantic value', ok, w, '' if ok else f"the semantic value is added to the relation {len(a_sv)} times")
    else:
        ok = len(a_sv) == 1
        ctx.bad('connect', con + ' semantic value', w, 'a given semantic value does not become part of the relation' if not ok else
                'a missing semantic value is added')
    others = [e for e in ops if e not in adds and e not in cons and e[1] in ('remove_element',)]
    if others:
        ctx.bad('connect', con, w, f"also calls {others[0][1]}")
    for name, want in (('endpoint', S('endpoint')), ('weight', S('weight')), ('direction', S('direction')), ('semantic_value_node', SV)):
        v = read(I, m, s, rel, name)
        if v is None:
            ctx.und('carries', f"{con}: {name}", w, 'value not found')
            continue
        if v != want and d is True and name == 'semantic_value_node' and v == NONE:
            v = want
        if v != want and want[0] == 'sym' and v[0] == 'enum' and v in dir_consts(m.p).values():
            # on this path the direction is known to be that constant
            D = v[2]
            v = want if possible_dir(s.facts, want, dir_consts(m.p)) == [D] else v
        ctx.ob('carries', f"{con}: {name}", v == want, w, '' if v == want else f"carries {m.show(v)}")


def carries(ctx, m, REL, consts):
    f = m.p.find(REL, '__init__')
    I = m.interp(implicit=False, contracts={'fn:add_element': rec_op, 'fn:connect': rec_op})
    names = [a.arg for a in f.node.args.args][1:]
    st = m.start(REL)
    args = {k: S(k) for k in names if k != 'parent'}
    r = I.entry(f, [], st, recv=SELF, kwargs=args)
    ctx.paths += len(r)
    for s, sig in r:
        if not possible_dir(s.facts, S('direction'), consts):
            continue
        if sig[0] == 'raise':
            ctx.bad('carries', 'HypergraphRelation', f.where, f"raises {exc_name(sig)}")
            continue
        for name in ('endpoint', 'weight', 'direction', 'semantic_value_node'):
            if name not in args:
                continue
            g = m.p.find(REL, name)
            if g is None:
                v = s.fields.get((SELF, name))
            else:
                rr = I.entry(g, [], s.fork(), recv=SELF)
                vs = {x[1] for _, x in rr if x[0] == 'return'}
                v = vs.pop() if len(vs) == 1 else None
            if v is not None and v[0] == 'enum' and possible_dir(s.facts, S('direction'), consts) == [v[2]] and name == 'direction':
                v = S(name)
            if v is not None and v == NONE and name == 'semantic_value_node' and I.decide(s, I.norm_atom(('is', S(name), NONE))) is True:
                v = S(name)
            ctx.ob('carries', f"HypergraphRelation: {name}", None if v is None else v == S(name), f.where,
                   '' if v == S(name) else f"{name} is {m.show(v)}" if v else 'not found')


def carries_port(ctx, m, PORT):
    f = m.p.find(PORT, '__init__')
    I = m.interp(implicit=False, contracts={'fn:add_element': rec_op})
    names = [a.arg for a in f.node.args.args][1:]
    if 'endpoint' not in names:
        ctx.und('carries', 'HypergraphPort', f.where, f"parameters {names}")
        return
    r = I.entry(f, [], m.start(PORT), recv=SELF, kwargs={k: S(k) for k in names if k != 'parent'})
    for s, sig in r:
        g = m.p.find(PORT, 'endpoint')
        rr = I.entry(g, [], s.fork(), recv=SELF) if g else []
        vs = {x[1] for _, x in rr if x[0] == 'return'} or {s.fields.get((SELF, 'endpoint'))}
        v = vs.pop() if len(vs) == 1 else None
        ctx.ob('carries', 'HypergraphPort: endpoint', None if v is None else v == S('endpoint'), f.where, m.show(v) if v else '')


def one_port(ctx, m, c, f, con, PORT, K):
    I = m.interp(implicit=False, contracts=K)
    st = m.start(c)
    EL = S('el')
    st.types[EL] = m.H
    st.vers['nonnull'] = (SELF, EL)
    r = I.entry(f, [EL], st, recv=SELF)
    ctx.paths += len(r)
    keys = set()
    for s, sig in r:
        if sig[0] == 'raise':
            ctx.bad('port', con, f.where, f"raises {exc_name(sig)}")
            continue
        if in_loop(s.events, lambda x: x[0] in ('op', 'new')):
            ctx.und('port', con, f.where, 'makes ports in a loop')
            continue
        news = [e for e in s.events if e[0] == 'new' and PORT in m.p.mro(e[2])]
        if len(news) != 1:
            ctx.bad('port', con, f.where, f"{len(news)} ports are made")
            continue
        port = news[0][1]
        v = read(I, m, s, port, 'endpoint')
        ctx.ob('port', con, None if v is None else v == EL, f.where, '' if v == EL else f"the port points to {m.show(v)}" if v else 'endpoint not found')
        adds = [e for e in s.events if e[0] == 'op' and e[1] == 'add_element']
        mine = [e for e in adds if e[2] == SELF and port in [x for _, x in e[3]][1:]]
        ctx.ob('port', con, len(mine) == 1 and len(adds) == 1, f.where, '' if len(mine) == 1 else f"the port is added {len(mine)} times")
        regs = [e for e in s.events if e[0] == 'setitem' and e[3] == port]
        if len(regs) != 1:
            ctx.ob('disconnect', con, None if regs else None, f.where, f"{len(regs)} registrations of the port")
            continue
        keys.add((regs[0][1], regs[0][2]))
        if regs[0][2] != ('f', EL, m.UUID, 0) and regs[0][2] != EL:
            ctx.ob('port', con, False if not contains(regs[0][2], lambda x: x == EL) else None, f.where,
                   f"the port is registered under {m.show(regs[0][2])}")
    return keys.pop() if len(keys) == 1 else None


def disconnect(ctx, m, c, g, con, key, K):
    I = m.interp(implicit=True, contracts=K)
    st = m.start(c)
    EL = S('el')
    st.types[EL] = m.H
    st.vers['nonnull'] = (SELF, EL)
    r = I.entry(g, [EL], st, recv=SELF)
    ctx.paths += len(r)
    done = 0
    for s, sig in r:
        if sig[0] == 'raise':
            ok = any(a[0] == 'in' and not pol and a[2][:3] == key[0][:3] for a, pol in s.facts) or I.decide(s, ('empty', key[0], 0)) is True
            eff = [e for e in flat(s.events) if e[0] == 'op']
            ctx.ob('disconnect', con, (ok or None) if not eff else None, g.where, f"raises {exc_name(sig)}")
            continue
        missing = any(a[0] == 'in' and not pol and a[2][:3] == key[0][:3] for a, pol in s.facts)
        ops = [e for e in flat(s.events) if e[0] == 'op']
        dels = [e for e in flat(s.events) if e[0] == 'delitem']
        if missing:
            ctx.ob('disconnect', con + ' absent', not ops, g.where, 'removes something although no port is registered' if ops else '')
            continue
        done += 1
        if len(ops) != 1 or ops[0][1] != 'remove_element' or ops[0][2] != SELF:
            ctx.ob('disconnect', con, False if len(ops) == 0 or any(e[2] == SELF for e in ops) else None, g.where,
                   f"{len(ops)} removals: " + ', '.join(m.show(e[4]) for e in ops))
            continue
        a = op_args(ops[0])
        P = ('item', key[0], key[1], 0)

        def part(v):
            return v[0] in ('f',) and v[1][:3] == P[:3]
        u, n = a.get('uuid', NONE), a.get('id_name', C(''))
        oku = part(u) and u[2] == m.UUID
        okn = n == C('') or part(n) and n[2] == m.ID
        if not (oku and okn):
            wrong = (u == NONE) or u == ('f', EL, m.UUID, 0) or (part(u) and u[2] != m.UUID) or (part(n) and n[2] != m.ID)
            ctx.ob('disconnect', con, False if wrong else None, g.where, f"removes by name {m.show(n)} and identifier {m.show(u)}")
        else:
            ctx.good('disconnect', con, g.where)
        v = ops[0][4]
        used = [e for e in s.events if e[0] == 'consume' and e[1] == v or e[0] == 'loop' and e[1].coll == v and e[2] is None and
                all(q.sig is None or q.sig[0] == 'raise' for q in e[1].paths)]
        part_used = [e for e in s.events if e[0] in ('next', 'yield') or e[0] == 'loop' and e[1].coll == v]
        ctx.ob('disconnect', con, bool(used) or (None if part_used else False), g.where,
               '' if used else 'the removal is not run' if not part_used else 'the removal may not be run to its end')
        okd = len(dels) == 1 and dels[0][1][:3] == key[0][:3] and dels[0][2] == key[1]
        if not okd and not dels:
            ctx.bad('disconnect', con, g.where, 'the port stays registered')
        else:
            ctx.ob('disconnect', con, okd or None, g.where, '' if okd else f"{len(dels)} registrations are deleted")
    if not done:
        ctx.bad('disconnect', con, g.where, 'never removes a port')


def typed_view(ctx, m, c, f, k, part):
    """yields exactly the children of a class (or one attribute of them), in the order of the children"""
    I = m.interp(implicit=False)
    st = m.start(c)
    r = I.entry(f, [], st, recv=SELF)
    con = f.qual
    for s, sig in r:
        if sig[0] == 'raise':
            ctx.bad('observers', con, f.where, f"raises {exc_name(sig)}")
            continue
        evs = s.events
        if not f.is_gen:
            evs = I_yields(I, s, sig[1])
            if evs is None:
                ctx.und('observers', con, f.where, 'result not understood')
                continue
        typed_stream(ctx, m, I, s, evs, con, f, k, part)


def I_yields(I, s, v):
    """the elements of a returned iterable as events"""
    s2 = s.fork()
    n = len(s2.events)
    try:
        from sa.interp import Frame
    except ImportError:
        return None
    return None


def typed_stream(ctx, m, I, s, evs, con, f, k, part, want=None, rule='observers'):
    loops = [e for e in evs if e[0] == 'loop' and any(x[0] == 'yield' for p in e[1].paths for x in flat(p.events))]
    top = [e for e in evs if e[0] == 'yield']
    if top or len(loops) != 1:
        if not loops and not top:
            ctx.bad(rule, con, f.where, 'yields nothing')
        else:
            ctx.und(rule, con, f.where, f"{len(loops)} loops")
        return
    lp, ex = loops[0][1], loops[0][2]
    src = m.loop_children_of(I, lp)
    if src != SELF:
        ctx.und(rule, con, f.where, f"goes through {m.show(lp.coll) if lp.coll else '?'}")
        return
    if ex is not None or any(q.sig is not None and q.sig[0] != 'raise' for q in lp.paths):
        ctx.bad(rule, con, f.where, 'stops before the last child')
        return
    el = next((t for t in (('elem', lp.lid, 0), ('elem', lp.lid, 1)) if m.child_of(I, s, t) is not None), ('elem', lp.lid, 0))
    for q in lp.paths:
        if q.sig is not None:
            continue
        ys = [e for e in flat(q.events) if e[0] == 'yield']
        ins = I.isinst(q.st, el, k)
        if want is not None and ins:
            w = want(q)
            if w is None:
                ctx.und(rule, con, f.where, 'condition not understood')
                continue
            ins = ins and w
        if ins is None:
            other = [a for a, _ in q.facts if a[0] == 'isinst' and a[1] == el]
            if ys and other:
                ctx.bad(rule, con, f.where, f"yields {', '.join(sorted({a[2].name for a in other}))} children, expected {k.name}")
            elif ys:
                ctx.bad(rule, con, f.where, f"yields children that need not be a {k.name}")
            elif other:
                ctx.bad(rule, con, f.where, f"leaves out children by {other[0][2].name}, expected {k.name}")
            else:
                ctx.und(rule, con, f.where, 'child type not decided')
            continue
        if not ins:
            ctx.ob(rule, con, not ys, f.where, 'yields a child it should not' if ys else '')
            continue
        if len(ys) != 1:
            ctx.bad(rule, con, f.where, f"a {k.name} child is yielded {len(ys)} times")
            continue
        v = ys[0][1]
        exp = el
        if part is not None:
            g = m.p.find(k, part)
            rr = I.entry(g, [], q.st.fork(), recv=el)
            vs = {x[1] for _, x in rr if x[0] == 'return'}
            exp = vs.pop() if len(vs) == 1 else None
        ctx.ob(rule, con, None if exp is None else v == exp, f.where, f"yields {m.show(v)}")


# ---------------------------------------------------------------------------------------------------------------- P10
ARROWS = {'<-': 'INWARDS', '->': 'OUTWARDS', '--': 'BIDIRECTIONAL'}


def vector(v):
    """constants of a numeric array value"""
    while v is not None and v[0] == 'call' and v[1] in ('numpy.array', 'numpy.copy', 'numpy.asarray', 'copy.copy', 'copy.deepcopy',
                                                        ('ext', 'numpy.array'), ('ext', 'numpy.copy'), ('ext', 'numpy.asarray')) and v[2]:
        v = v[2][0]
    if v is not None and v[0] == 'mcall' and v[2] in ('copy', 'tolist', 'astype'):
        return vector(v[1])
    if v is not None and v[0] in ('list', 'tup') and all(is_c(x) and isinstance(x[2], (int, float)) for x in v[1]):
        return tuple(float(x[2]) for x in v[1])
    return None


def p10(ctx):
    ctx.rule('distinct', 'the three directions are three different values')
    ctx.rule('sides', 'incoming relations are exactly the inward and bidirectional ones, outgoing exactly the outward and bidirectional ones')
    ctx.rule('incidence', 'the incidence value of a relation is (1,0) inward, (0,1) outward, (1,1) in both directions')
    ctx.rule('arrows', '<- is inward, -> outward and -- both, in reading and in writing; nothing else is accepted')
    ctx.rule('weights', 'without a weight a traversal uses the incidence of the direction')
    ctx.rule('factorisation', 'relations are sorted into the incoming and outgoing side by their direction')
    m = Model(ctx)
    p = ctx.prog
    K = dir_consts(p)
    vals = [K[d][3] for d in DIRS]
    vals = [v[0] if isinstance(v, tuple) and len(v) == 1 else v for v in vals]
    ctx.ob('distinct', 'EnumRelationDirection', len(set(map(str, vals))) == 3, p.cls('EnumRelationDirection').key, str(vals))
    REL, EDGE = p.cls('HypergraphRelation'), p.cls('HypergraphEdge')
    DIRF = m.field_of(REL, 'direction')
    # incidence
    f = p.find(REL, '__init__')
    names = [a.arg for a in f.node.args.args][1:]
    for D in DIRS:
        def inc(D=D):
            I = m.interp(implicit=False, contracts={'fn:add_element': rec_op, 'fn:connect': rec_op})
            args = {k: S(k) for k in names if k != 'parent'}
            args['direction'] = K[D]
            r = I.entry(f, [], m.start(REL), recv=SELF, kwargs=args)
            ctx.paths += len(r)
            for s, sig in r:
                if sig[0] == 'raise':
                    ctx.bad('incidence', D, f.where, f"raises {exc_name(sig)}")
                    continue
                g = p.find(REL, 'relation_incidence_value')
                if g is None:
                    raise AnalysisError('relation_incidence_value not found')
                for s2, sg in I.entry(g, [], s.fork(), recv=SELF):
                    v = vector(I.freeze(s2, sg[1])) if sg[0] == 'return' else None
                    ctx.ob('incidence', D, None if v is None and sg[0] == 'return' else v == INC[D], f.where,
                           f"incidence value {v}" if v else f"{m.show(sg[1]) if sg[0] == 'return' else 'raises'}")
        ctx.guard('incidence', D, inc, where=f.where)
    # sides
    for name, inn in (('get_incoming_relations', True), ('get_outgoing_relations', False)):
        g = p.method('HypergraphEdge', name)
        ctx.guard('sides', g.qual, side, ctx, m, EDGE, g, REL, DIRF, K, inn, where=g.where)
    # arrows
    rd = p.func('rei.format.mapping.cognilang_map_utility', 'dir_enum_relation')
    wr = p.func('rei.foundations.hierarchical_traversal_strategies', 'direction_to_text')

    def reading():
        for a in list(ARROWS) + ['<->', 'in', '']:
            I = m.interp(implicit=False)
            r = I.entry(rd, [C(a)], State())
            ctx.paths += len(r)
            for s, sig in r:
                if a in ARROWS:
                    ok = sig[0] == 'return' and sig[1] == K[ARROWS[a]]
                    und = sig[0] == 'return' and sig[1][0] not in ('enum', 'c')
                    ctx.ob('arrows', f"read '{a}'", None if und else ok, rd.where,
                           '' if ok else f"gives {m.show(sig[1]) if sig[0] == 'return' else exc_name(sig)}")
                else:
                    und = sig[0] == 'return' and sig[1][0] not in ('enum', 'c')
                    ctx.ob('arrows', f"read '{a}'", None if und else sig[0] == 'raise', rd.where, 'accepted' if sig[0] != 'raise' else '')
    ctx.guard('arrows', 'read', reading, where=rd.where)

    def writing():
        for a, D in ARROWS.items():
            I = m.interp(implicit=False)
            for s, sig in I.entry(wr, [K[D]], State()):
                ok = sig[0] == 'return' and sig[1] == C(a)
                und = sig[0] == 'return' and not is_c(sig[1])
                ctx.ob('arrows', f"write {D}", None if und else ok, wr.where, '' if ok else f"gives {m.show(sig[1]) if sig[0] == 'return' else 'an error'}")
    ctx.guard('arrows', 'write', writing, where=wr.where)
    ctx.minimum = 8
    from . import p_query
    for n in p_query.PAIRERS:
        c = p.cls(n)
        f = p.find(c, 'execute')
        if f is None:
            raise AnalysisError(f"{n}.execute not found")
        ctx.guard('factorisation', n, p_query.pairs, ctx, m, c, f, 'factorisation', True, where=f.where)
    from . import p_tensor
    ctx.guard('weights', 'HypergraphTraversal', p_tensor.weights, ctx, m)


def side(ctx, m, EDGE, g, REL, DIRF, K, inn):
    I = m.interp(implicit=False)
    r = I.entry(g, [], m.start(EDGE), recv=SELF)
    ctx.paths += len(r)
    want_d = {d for d in DIRS if INC[d][0 if inn else 1]}
    for s, sig in r:
        if sig[0] == 'raise':
            ctx.bad('sides', g.qual, g.where, f"raises {exc_name(sig)}")
            continue
        loops = [e for e in s.events if e[0] == 'loop' and e[1].paths and any(x[0] == 'yield' for p in e[1].paths for x in flat(p.events))]
        if not loops and not [e for e in s.events if e[0] == 'yield']:
            ctx.bad('sides', g.qual, g.where, 'yields nothing')
            continue
        if len(loops) != 1:
            ctx.und('sides', g.qual, g.where, f"{len(loops)} loops")
            continue
        lp = loops[0][1]
        if m.loop_children_of(I, lp) != SELF:
            ctx.und('sides', g.qual, g.where, f"goes through {m.show(lp.coll) if lp.coll else '?'}")
            continue
        if loops[0][2] is not None or any(q.sig is not None and q.sig[0] != 'raise' for q in lp.paths):
            ctx.bad('sides', g.qual, g.where, 'stops before the last relation')
            continue
        el = next((t for t in (('elem', lp.lid, 0), ('elem', lp.lid, 1)) if m.child_of(I, s, t) is not None), ('elem', lp.lid, 0))
        term = ('f', el, DIRF, 0)
        for D in DIRS:
            n = 0
            for q in lp.paths:
                if q.sig is not None:
                    continue
                ins = I.isinst(q.st, el, REL)
                ad = admits(q.facts, term, D, K)
                ys = [e[1] for e in flat(q.events) if e[0] == 'yield']
                if ins is False:
                    ctx.ob('sides', g.qual, not ys, g.where, 'yields a child that is no relation' if ys else '')
                    continue
                if ad is False:
                    continue
                if ad is None or ins is None:
                    ctx.und('sides', f"{g.qual} {D}", g.where, 'condition not understood')
                    continue
                n += 1
                ok = (ys == [el]) if D in want_d else not ys
                ctx.ob('sides', f"{g.qual} {D}", ok, g.where, '' if ok else f"yields {[m.show(y) for y in ys]}")
            if not n:
                ctx.und('sides', f"{g.qual} {D}", g.where, 'no path')


# ---------------------------------------------------------------------------------------------------------------- P11
def lin(v, eqs=()):
    """linear form over opaque terms: {term: coefficient}, constant under key 1; None when not linear"""
    if is_c(v) and isinstance(v[2], int) and not isinstance(v[2], bool):
        return {1: v[2]}
    if v[0] == 'len':
        x = v[1]
        while x[0] == 'coll':
            x = x[1]
        if x[0] == 'sliceof' and x[4] in (None, NONE):
            lo, hi = x[2], x[3]
            if lo in (None, NONE) and hi not in (None, NONE):
                return lin(hi)
            n = lin(('len', x[1]))
            l = {1: 0} if lo in (None, NONE) else lin(lo)
            h = n if hi in (None, NONE) else lin(hi)
            return add(h, l, -1) if l is not None and h is not None else None
        if x[0] == 'repeat':
            return lin(x[1])
        if x[0] in ('list', 'tup'):
            return {1: len(x[1])}
        if x[0] == 'rev':
            return lin(('len', x[1]))
        return {('len', x): 1}
    if v[0] == 'op' and len(v) == 4 and v[1] in ('+', '-'):
        a, b = lin(v[2]), lin(v[3])
        if a is None or b is None:
            return None
        return add(a, b, 1 if v[1] == '+' else -1)
    if v[0] in ('sym', 'f', 'item', 'mcall', 'call', 'elem', 'havoc'):
        return {v: 1}
    return None


def add(a, b, k=1):
    r = dict(a)
    for t, n in b.items():
        r[t] = r.get(t, 0) + k * n
    return {t: n for t, n in r.items() if n}


def same_lin(a, b, eqs=()):
    if a is None or b is None:
        return None
    d = add(a, b, -1)
    if not d:
        return True
    for e in eqs:
        for k in (1, -1):
            if not add(d, e, k):
                return True
    return False


def eqs_of(facts):
    """linear equations among the equalities a path has established"""
    out = []
    for a, pol in facts:
        if a[0] == 'eq' and pol:
            x, y = lin(a[1]), lin(a[2])
            if x is not None and y is not None:
                out.append(add(x, y, -1))
        if a[0] == 'empty' and pol:
            out.append({('len', a[1]): 1})
    return out


def stream(I, lp, v):
    """what a loop reads in its i-th turn: ('at', base, offset) means base[offset + i]; ('const', v); None"""
    if v[0] in ('c', 'sym', 'enum', 'o') or v == NONE:
        return ('const', v)
    if v[0] == 'item' and v[1][0] == 'sym' and is_c(v[2]):
        return ('const', v)
    src = sources(lp.coll)
    if src is None:
        return None
    if v[0] == 'elem' and v[1] == lp.lid:
        if v[2] >= len(src):
            return None
        return base(src[v[2]])
    if v[0] == 'item' and len(v) >= 3:
        ix = index(lp, src, v[2])
        if ix is not None:
            b = base(v[1])
            if b is not None and b[0] == 'at':
                return ('at', b[1], add(b[2], ix))
        inner = stream(I, lp, v[1])
        if inner is not None and inner[0] == 'at' and is_c(v[2]):
            return ('part', inner[1], inner[2], v[2][2])
    if v[0] == 'slice' and v[1][0] == 'elem':
        return None
    return None


def index(lp, src, t):
    """i + offset for an index term"""
    if t[0] == 'idx' and t[1][0] == 'elem' and t[1][1] == lp.lid:
        return {}
    if t[0] == 'elem' and t[1] == lp.lid and t[2] < len(src):
        s = src[t[2]]
        if s[0] == 'range':
            a = s[1]
            lo = lin(a[0]) if len(a) >= 2 else {1: 0}
            if len(a) == 3 and a[2] != C(1):
                return None
            return add(lo or {}, {}) if lo is not None else None
        if s[0] == 'count':
            return {}
        return None
    if t[0] == 'op' and len(t) == 4 and t[1] == '+':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            x = index(lp, src, a)
            y = lin(b)
            if x is not None and y is not None and not contains(b, lambda z: z[0] == 'elem'):
                return add(x, y)
    return None


def base(s):
    while s[0] in ('coll', 'iter'):
        s = s[1]
    if s[0] == 'repeat':
        v = s[2]
        if v[0] in ('list', 'tup') and len(v[1]) == 1:
            v = v[1][0]
        return ('const', v)
    if s[0] == 'sliceof':
        lo = {} if s[2] in (None, NONE) else lin(s[2])
        if s[4] not in (None, NONE) and s[4] != C(1):
            return ('stepped', s, {})
        b = base(s[1])
        if b is None or lo is None:
            return None
        if b[0] == 'at':
            return ('at', b[1], add(b[2], lo))
        return b
    if s[0] in ('sym', 'f'):
        return ('at', s, {})
    if s[0] == 'rev':
        return ('rev', s, {})
    return None


def sources(c):
    if c is None:
        return None
    while c[0] in ('iter',):
        c = c[1]
    if c[0] == 'zip':
        out = []
        for s in c[1]:
            out.append(s)
        return out
    if c[0] == 'enumerate':
        return [('count',), c[1]]
    return [c]


def length_of(src):
    x = src
    while x[0] in ('coll', 'iter'):
        x = x[1]
    if x[0] == 'range':
        a = x[1]
        if len(a) == 1:
            return lin(a[0])
        lo, hi = lin(a[0]), lin(a[1])
        return add(hi, lo, -1) if lo is not None and hi is not None else None
    if x[0] == 'count':
        return None
    return lin(('len', x))


BUILDERS = {
    'connect_nodes': (('container', 'edge_name', 'nodes', 'direction', 'values'),
                      [('nodes', ('dir', S('direction')), {})]),
    'connect_2factor_edges': (('container', 'edge_name', 'in_dir_nodes', 'out_dir_nodes', 'direction', 'values'),
                              [('in_dir_nodes', ('dir', ('item', S('direction'), C(0), 0)), {}),
                               ('out_dir_nodes', ('dir', ('item', S('direction'), C(1), 0)), {('len', S('in_dir_nodes')): 1})]),
    'connect_dir_edges': (('container', 'edge_name', 'in_dir_nodes', 'out_dir_nodes'),
                          [('in_dir_nodes', ('enum', 'INWARDS'), None), ('out_dir_nodes', ('enum', 'OUTWARDS'), None)]),
    'connect_tuple_nodes': (('container', 'edge_name', 'nodes'), [('nodes', ('part',), None)]),
}


def run_builder(ctx, m, name):
    p = ctx.prog
    cls = p.cls('HypergraphFactory')
    f = p.method('HypergraphFactory', name)
    EDGE = p.cls('HypergraphEdge')

    def newc(I, st, c, args, kwargs, fr, node):
        if not (isinstance(c, tuple) and c[0] == 'cls' or hasattr(c, 'name')):
            return None
        k = c[1] if isinstance(c, tuple) else c
        if m.H not in p.mro(k):
            return None
        v = I.alloc(st, 'obj', k)
        g = p.find(k, '__init__')
        b = I.bind(g, [v] + list(args), dict(kwargs), fr, st, node) if g else None
        st.events.append(('newobj', k, v, tuple((b[0] if b else {}).items()), I.loc(fr, node)))
        return [(st, v)]
    K = {'fn:unary_connect': rec_op, 'fn:generate_uid': rec_op, 'fn:add_element': rec_op, 'fn:remove_element': rec_op,
         'fn:connect': rec_op, 'new': newc}
    I = ctx.interp(contracts=K)
    st = State()
    st.types[SELF] = cls
    params = [a.arg for a in f.node.args.args][1:]
    st.vers['nonnull'] = (SELF, S('container'))
    I2 = I
    r = I2.entry(f, [], st, recv=SELF, kwargs={k: S(k) for k in params})
    ctx.paths += len(r)
    return I, r, f, EDGE, params


def builder_effects(m, I, s):
    return [f"{e[0]} {e[1].name if e[0] == 'newobj' else e[1]}" for e in flat(s.events)
            if e[0] == 'newobj' or e[0] == 'op' and e[1] != 'generate_uid' or e[0] in ('write', 'setitem', 'delitem') and e[1] == SELF]


def values_facts(I, s):
    d = I.decide(s, I.norm_atom(('is', S('values'), NONE)))
    return d


def p11(ctx):
    ctx.rule('one-edge', 'one edge is created, in the given container and under the given name, and returned')
    ctx.rule('connected', 'every node of a list is connected exactly once, in order, with the meant direction and its own value')
    ctx.rule('reject', 'exactly a number of values that differs from the number of nodes is rejected')
    m = Model(ctx)
    for name, (want, segs) in BUILDERS.items():
        f = ctx.prog.method('HypergraphFactory', name)
        ctx.guard('connected', name, builder, ctx, m, name, want, segs, where=f.where)
    g = ctx.prog.method('HypergraphFactory', 'create_hyperedge')
    ctx.minimum = 8


def builder(ctx, m, name, want, segs):
    I, r, f, EDGE, params = run_builder(ctx, m, name)
    w = f.where
    if not set(want) <= set(params):
        ctx.und('connected', name, w, f"parameters {params}")
        return
    total = {}
    for n, _, _ in segs:
        total = add(total, {('len', S(n)): 1})
    has_values = 'values' in want
    done = 0
    for s, sig in r:
        vn = values_facts(I, s) if has_values else True
        eqs = eqs_of(s.facts)
        if sig[0] == 'raise':
            if exc_name(sig) == 'ErrorInsufficientValues' and has_values:
                diff = [a for a, pol in s.facts if a[0] == 'eq' and not pol and
                        same_lin(lin(a[1]), lin(a[2]), [add({('len', S('values')): 1}, total, -1)]) and not same_lin(lin(a[1]), lin(a[2]))]
                lts = [a for a, pol in s.facts if a[0] == 'lt' and contains(a, lambda x: x == ('len', S('values')))]
                ok = vn is False and (bool(diff) or (None if lts else False))
                if vn is None:
                    tv = I.decide(s, ('truthy', S('values')))
                    ok = None
                ctx.ob('reject', name, ok, w, 'rejected although no values are given or their number fits' if ok is False else '')
            else:
                ctx.bad('connected', name, w, f"raises {exc_name(sig)}")
            continue
        done += 1
        if has_values and vn is not True:
            ok = same_lin({('len', S('values')): 1}, total, eqs)
            emp = I.decide(s, ('empty', S('values'), 0)) is True or I.decide(s, ('truthy', S('values'))) is False or \
                any(a[0] == 'empty' and a[1] == S('values') and pol for a, pol in s.facts)
            if not ok and emp:
                lens = all(any(a[0] == 'empty' and a[1] == S(n) and pol for a, pol in s.facts) for n, _, _ in segs)
                if not lens:
                    ctx.bad('reject', name, w, 'an empty list of values is accepted for any number of nodes')
                    continue
                ok = True
            if not ok:
                part = [a for a, pol in s.facts if a[0] in ('eq', 'lt') and contains(a, lambda x: x == ('len', S('values')))]
                if not part:
                    ctx.bad('reject', name, w, 'values are used without comparing their number with the number of nodes')
                elif all(a[0] == 'eq' for a in part) or len(part) == 1:
                    ctx.bad('reject', name, w, 'accepts a number of values that differs from the number of nodes')
                else:
                    ctx.und('reject', name, w, 'comparison of the numbers not understood')
                continue
            ctx.good('reject', name, w)
        builder_path(ctx, m, I, s, sig, name, f, segs, EDGE, vn, eqs)
    if has_values and not any(sig[0] == 'raise' and exc_name(sig) == 'ErrorInsufficientValues' for s, sig in r):
        ctx.bad('reject', name, w, 'a wrong number of values is not rejected')
    if not done:
        ctx.bad('connected', name, w, 'never completes')


def builder_path(ctx, m, I, s, sig, name, f, segs, EDGE, vn, eqs):
    w = f.where
    news = [e for e in flat(s.events) if e[0] == 'newobj' and EDGE in m.p.mro(e[1])]
    if len(news) != 1 or in_loop(s.events, lambda x: x[0] == 'newobj'):
        ctx.bad('one-edge', name, w, f"{len(news)} edges are created" if len(news) != 1 else 'an edge is created per node')
        return
    e = news[0]
    edge, a = e[2], dict(e[3])
    adds = [x for x in flat(s.events) if x[0] == 'op' and x[1] == 'add_element']
    mine = [x for x in adds if edge in [v for _, v in x[3]][1:]]
    if a.get('parent') == S('container'):
        okc = not mine
    elif a.get('parent', NONE) == NONE:
        okc = len(mine) == 1 and mine[0][2] == S('container')
    else:
        okc = False
    ctx.ob('one-edge', name, okc, w, '' if okc else f"the edge is placed in {m.show(a.get('parent', NONE))} and added {len(mine)} times")
    ctx.ob('one-edge', name, a.get('id_name') == S('edge_name'), w, f"named {m.show(a.get('id_name'))}" if 'id_name' in a else 'name not found')
    ctx.ob('one-edge', name, sig[0] == 'return' and sig[1] == edge, w, '' if sig[1] == edge else f"returns {m.show(sig[1])}")
    loops = [x for x in s.events if x[0] == 'loop' and any(y[0] == 'op' and y[1] == 'unary_connect' for q in x[1].paths for y in flat(q.events))]
    tops = [x for x in s.events if x[0] == 'op' and x[1] == 'unary_connect']
    if tops:
        ctx.und('connected', name, w, 'connects outside a loop')
        return
    live = [sg for sg in segs if not any(a[0] == 'empty' and a[1] == S(sg[0]) and pol for a, pol in s.facts)]
    if len(loops) != len(segs):
        if len(loops) < len(live):
            multi = [x for x in loops if sources(x[1].coll) is None or any(stream(I, x[1], ('elem', x[1].lid, k)) is None for k in (0,))]
            ctx.ob('connected', name, None if multi or len(segs) > 1 and len(loops) == 1 else False, w, f"{len(loops)} loops connect nodes of {len(segs)} lists")
            return
        if len(loops) > len(segs):
            ctx.und('connected', name, w, f"{len(loops)} loops connect nodes")
            return
        segs = live
    for x, (nodes, dirw, off) in zip(loops, segs):
        con = f"{name}: {nodes}"
        lp = x[1]
        if x[2] is not None or any(q.sig is not None and q.sig[0] != 'raise' for q in lp.paths):
            ctx.bad('connected', con, w, 'stops before the last node')
            continue
        src = sources(lp.coll)
        if src is None:
            ctx.und('connected', con, w, 'loop not understood')
            continue
        ok_len = True
        for sc in src:
            if sc[0] == 'count':
                continue
            same = same_lin(length_of(sc), {('len', S(nodes)): 1}, eqs)
            if same is None:
                ok_len = None if ok_len else ok_len
            elif not same:
                ok_len = False
        if ok_len is not True:
            ctx.ob('connected', con, ok_len, w, f"goes through {m.show(lp.coll)}: not as many turns as nodes")
            if ok_len is False:
                continue
        for q in lp.paths:
            if q.sig is not None:
                continue
            ops = [y for y in flat(q.events) if y[0] == 'op' and y[1] == 'unary_connect']
            if len(ops) != 1 or ops[0][2] != edge or any(y[0] == 'loop' and any(z in ops for qq in y[1].paths for z in flat(qq.events)) for y in q.events):
                ctx.bad('connected', con, w, f"a node is connected {len(ops)} times on some path" if len(ops) != 1 else 'connects something else')
                continue
            b = op_args(ops[0])
            judge(ctx, m, I, lp, con + ' endpoint', b.get('endpoint'), 'node', nodes, {}, w, dirw)
            judge_dir(ctx, m, I, lp, con + ' direction', b.get('direction'), dirw, nodes, w)
            if dirw[0] == 'part':
                judge_part(ctx, m, I, lp, con + ' weight', b.get('weight'), nodes, 2, w)
                judge_part(ctx, m, I, lp, con + ' semantic value', b.get('semantic_value_node'), nodes, 3, w)
            elif off is None or vn is True:
                ctx.ob('connected', con + ' value', b.get('weight') == NONE or (None if stream(I, lp, b['weight']) != ('const', NONE) else True),
                       w, m.show(b.get('weight')))
            else:
                judge(ctx, m, I, lp, con + ' value', b.get('weight'), 'value', 'values', off, w, dirw)


def judge(ctx, m, I, lp, con, v, what, basen, off, w, dirw):
    if what == 'node' and dirw[0] == 'part':
        return judge_part(ctx, m, I, lp, con, v, basen, 0, w)
    st = stream(I, lp, v) if v is not None else None
    if st is None:
        ctx.und('connected', con, w, f"{m.show(v)} not understood" if v else '')
        return
    if st[0] == 'at' and st[1] == S(basen):
        ok = same_lin(st[2], off)
        ctx.ob('connected', con, ok, w, '' if ok else f"turn i uses {basen}[i + {st[2]}], expected [i + {off}]")
    else:
        ctx.bad('connected', con, w, f"turn i uses {m.show(v)} = {st[0]} {m.show(st[1])}")


def judge_part(ctx, m, I, lp, con, v, nodes, k, w):
    st = None
    src = sources(lp.coll)
    if v is not None and v[0] == 'elem' and v[1] == lp.lid and src and len(src) == 1:
        st = ('part', S(nodes), {}, v[2]) if v[2] else None
    if st is None and v is not None:
        st = stream(I, lp, v)
    if v is not None and v[0] == 'item' and v[1] == ('elem', lp.lid, 0) and is_c(v[2]) and src and base(src[0]) == ('at', S(nodes), {}):
        st = ('part', S(nodes), {}, v[2][2])
    if st is None:
        ctx.und('connected', con, w, f"{m.show(v)} not understood" if v else '')
        return
    ok = st[0] == 'part' and st[1] == S(nodes) and st[3] == k
    ctx.ob('connected', con, ok, w, '' if ok else f"uses {m.show(v)}, expected part {k} of the entry")


def judge_dir(ctx, m, I, lp, con, v, want, nodes, w):
    if want[0] == 'part':
        return judge_part(ctx, m, I, lp, con, v, nodes, 1, w)
    exp = want[1] if want[0] == 'dir' else dir_consts(m.p)[want[1]]
    if v is None:
        ctx.und('connected', con, w, 'direction not found')
        return
    if v == exp or (v[0] == 'item' and exp[0] == 'item' and v[:3] == exp[:3]):
        ctx.good('connected', con, w)
    elif v[0] in ('item', 'enum', 'sym', 'c') or (v[0] == 'f'):
        ctx.bad('connected', con, w, f"uses {m.show(v)}, expected {m.show(exp)}")
    else:
        ctx.und('connected', con, w, f"uses {m.show(v)}")


def value_rejection(ctx, m, rule):
    """P03: a wrong number of values is rejected before anything is created"""
    for name, (want, segs) in BUILDERS.items():
        if 'values' not in want:
            continue
        f = ctx.prog.method('HypergraphFactory', name)

        def go(name=name, f=f):
            I, r, f_, EDGE, params = run_builder(ctx, m, name)
            n = 0
            for s, sig in r:
                if sig[0] != 'raise':
                    continue
                n += 1
                eff = builder_effects(m, I, s)
                ctx.ob(rule, name, not eff, f.where, '; '.join(eff)[:200])
            if not n:
                ctx.bad(rule, name, f.where, 'a wrong number of values is not rejected')
        ctx.guard(rule, name, go, where=f.where)
