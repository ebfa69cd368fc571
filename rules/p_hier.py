"""P01-P08: containment, removal, rejection, names, positions, timestamps, lookup, bulk operations."""
import ast
from sa.loader import AnalysisError, ClassInfo
from sa.interp import State, NONE, TRUE, FALSE, C, is_c, contains, subst
from .hier import Model, SELF, PURE_CALLS
from .base import *      # noqa: F401,F403

EL = ('sym', 'element')
NAME = ('sym', 'id_name')
UID = ('sym', 'uuid')


def where_of(loc):
    return f"{loc[0]}:{loc[1]} in {loc[2]}" if loc else ''


def removal_request(v):
    """('mcall', recv, 'remove_element', args, kwargs, id) -> recv, id_name term, uuid term"""
    args, kw = list(v[3]), dict(v[4])
    n = args[0] if args else kw.get('id_name', C(''))
    u = args[1] if len(args) > 1 else kw.get('uuid', NONE)
    return v[1], n, u


class Ops:
    """The add and remove operations of every class of the hierarchy, each analysed once."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.m = Model(ctx)
        self.p = ctx.prog
        self.add, self.rem = [], []

    def variants(self, name):
        seen, out = set(), []
        for c in self.m.family:
            f = self.p.find(c, name)
            if f is None or f.is_abstract:
                continue
            key = (f, tuple(self.p.find(c, n) for n in ('add_element', 'remove_element', 'update', 'get_subelements',
                                                        'connect', 'parent', 'uuid', 'id_name')))
            if key in seen:
                continue
            seen.add(key)
            out.append((c, f))
        return out

    def run_add(self, c, f, implicit=True, self_type=None):
        m = self.m

        def consume(I, st, v):
            if v[0] == 'mcall' and v[2] == 'remove_element':
                recv, n, u = removal_request(v)
                if m.cid(I, st, u) == ('uuid', EL) or u == ('f', EL, m.UUID, 0):
                    st.fields[(EL, m.PARENT)] = NONE
        I = m.interp(implicit=implicit, contracts={'consume': consume})
        st = m.start(c)
        st.types[EL] = m.H
        st.vers['nonnull'] = (SELF, EL)
        r = I.entry(f, [EL], st, recv=SELF)
        self.ctx.paths += len(r)
        return I, r

    def run_remove(self, c, f, kw=None):
        m = self.m
        I = m.interp()
        st = m.start(c)
        st.types[NAME] = 'str'
        st.vers['nonnull'] = (SELF, NAME)
        snaps = []

        def oy(s, v):
            s.events.append(('mark', len(snaps), None))
            snaps.append((s.fork(), v))
            return [(s, None)]
        r = I.entry(f, [NAME, UID], st, recv=SELF, on_yield=oy)
        self.ctx.paths += len(r)
        # only the hand-overs of the final (stable) loop rounds
        keep = {}
        for s, sig in r:
            for e in flat(s.events):
                if e[0] == 'mark':
                    keep[e[1]] = snaps[e[1]]
        return I, r, list(keep.values())


def net(entries):
    """plus/minus pairs of the same element cancel"""
    out = list(entries)
    for e in list(out):
        if e[0] == '+':
            o = ('-', e[1])
            if o in out and e in out:
                pass
    return tuple(out)


def fmt(m, es):
    return '{' + ', '.join(f"{e[0]} {m.show(e[1])}" for e in es) + '}'


def agree(o, I, s, S, rule, construct, where, strip=()):
    """All views of S have received the same changes on this path."""
    m, ctx = o.m, o.ctx
    ch = m.view_children(I, s, S, strip=strip)
    vs = {'children': ch}
    if m.IDX:
        vs['name index'] = m.view_index(I, s, S, strip=strip)
    if strip:
        # only the current iteration: everything before it is compared at the end of the loop
        pv = None
    else:
        vs['parent links'] = m.view_parents(I, s, S)
    if any(x[0] in ('?', 'iterpaths') for v in vs.values() for x in v):
        ctx.und(rule, construct, where, f"views not comparable: { {k: v for k, v in vs.items()} }"[:300])
        return ch
    for k, v in vs.items():
        v2 = tuple(e for e in v if e[0] != 'parent') if k == 'parent links' else v
        a, b = set(ch), set(v2)
        if sorted(ch, key=repr) != sorted(v2, key=repr):
            ctx.bad(rule, construct, where, f"children {fmt(m, ch)} but {k} {fmt(m, v)}")
            return ch
    if m.CNT is not None:
        d = m.open_count(I, s, S, strip) if strip else m.count_delta(I, s, S)
        want = m.expected_count(ch)
        if d is None or want is None:
            ctx.und(rule, construct, where, f"count {d} against {want}")
            return ch
        if d != want:
            ctx.bad(rule, construct, where, f"children {fmt(m, ch)} change by {want} but the count by {d}")
            return ch
    ctx.good(rule, construct, where, fmt(m, ch))
    return ch


def strip_open(I, s):
    closed = set()

    def walk(evs):
        for e in evs:
            if e[0] == 'loop':
                closed.add(e[1].lid)
                for p in e[1].paths:
                    walk(p.events)
    walk(s.events)
    op = set()
    for ops in s.ops.values():
        for x in ops:
            if x[0] == 'iter' and x[1] not in closed:
                op.add(x[1])
    for v in list(s.fields.values()):
        def h(v):
            if isinstance(v, tuple):
                if v and v[0] == 'havoc' and v[1] not in closed:
                    op.add(v[1])
                for x in v:
                    h(x)
        h(v)
    return op


# ---------------------------------------------------------------------------------------------------------------- P01
def p01(ctx):
    ctx.rule('add-agree', 'on every normal path of an addition the children, the name index, the count and the parent '
                          'link receive the same single element, and a former parent is made to remove it first')
    ctx.rule('remove-agree', 'at every element handed back and at every end of a removal the children, the name index, '
                             'the count and the parent links have lost the same elements')
    ctx.rule('birth', 'a new element has no children, count 0, and no parent unless the parent took it in')
    ctx.rule('writers', 'the state behind the views is changed only by addition and removal and helpers they alone use')
    ctx.rule('observers', 'the observers report the container state itself')
    o = Ops(ctx)
    m = o.m
    for c, f in o.variants('add_element'):
        con = f"{c.name}.add_element"

        def go():
            I, r = o.run_add(c, f)
            n = 0
            for s, sig in r:
                if sig[0] == 'raise':
                    continue
                n += 1
                w = f.where
                ch = agree(o, I, s, SELF, 'add-agree', con, w)
                want = (('+', ('uuid', EL), ('uuid', EL)),)
                if ch != want and not any(x[0] in ('?', 'iterpaths') for x in ch):
                    ctx.bad('add-agree', con, w, f"the element is not taken in exactly once: {fmt(m, ch)}")
                if s.fields.get((EL, m.PARENT)) != SELF:
                    ctx.bad('add-agree', con, w, f"parent of the element ends as {m.show(s.fields.get((EL, m.PARENT), 'unchanged'))}")
                old = ('f', EL, m.PARENT, 0)
                isnone = I.decide_raw(s, ('is', old, NONE))
                rem = [e for e in flat(s.events) if e[0] == 'consume' and e[1][0] == 'mcall' and e[1][2] == 'remove_element']
                if isnone is not True:
                    okr = False
                    for e in rem:
                        recv, nn, u = removal_request(e[1])
                        if recv == old and m.cid(I, s, u) == ('uuid', EL) and (nn == C('') or nn == ('f', EL, m.ID, 0)):
                            okr = True
                    dereg = [e for e in flat(s.events) if e[0] == 'mcall' and e[2] in ('deregister',) and e[1] == EL]
                    if dereg:
                        ctx.und('add-agree', con, w, 'former parent left through another operation')
                    elif not okr:
                        ctx.bad('add-agree', con, w, 'an element that already has a parent is not removed from it (the '
                                'removal by its identifier is missing or never run)')
                if any(removal_request(e[1])[0] == SELF for e in rem):
                    ctx.bad('add-agree', con, w, 'the removal runs on the new container')
            if not n:
                ctx.und('add-agree', con, f.where, 'no normal path')
        ctx.guard('add-agree', con, go, where=f.where)
    for c, f in o.variants('remove_element'):
        con = f"{c.name}.remove_element"

        def go():
            I, r, marks = o.run_remove(c, f)
            for s, v in marks:
                st = strip_open(I, s)
                agree(o, I, s, SELF, 'remove-agree', con + ' at handing back', f.where, strip=st)
            for s, sig in r:
                if sig[0] == 'raise':
                    continue
                ch = agree(o, I, s, SELF, 'remove-agree', con, f.where)
                if live_iteration(o, I, s):
                    ctx.bad('remove-agree', con, f.where, 'iterates a live view of the container it removes from')
        ctx.guard('remove-agree', con, go, where=f.where)
    births(ctx, o)
    writers(ctx, o)
    observers(ctx, o)
    ctx.minimum = 8


def flat(events):
    for e in events:
        yield e
        if e[0] == 'loop':
            for p in e[1].paths:
                yield from flat(p.events)


def live_iteration(o, I, s):
    """a loop directly over a live view whose body changes that very container"""
    for e in flat(s.events):
        if e[0] == 'loop':
            lp = e[1]
            c = lp.coll
            if c and c[0] in ('view', 'coll') and lp.lid not in I.copied:
                cont = c[2] if c[0] == 'view' else c[1]
                if cont[0] == 'o':
                    continue
                for p in lp.paths:
                    if p.sig is None and any(x[0] in ('set', 'del', 'clear') for x in I.path_ops(lp, p, cont)):
                        return True
    return False


def construct(ctx, m, c, parent):
    """interpret the constructor of c -> I, [(state, object)]"""
    from sa.interp import Frame
    init = m.p.find(c, '__init__')
    I = m.interp(implicit=False)
    st = State()
    kw = {}
    args = []
    a = init.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    for n in pos:
        v = ('sym', n)
        if n == 'parent':
            v = ('sym', 'parent') if parent else NONE
            if parent:
                st.types[v] = m.H
                st.vers['nonnull'] = (v,)
        args.append(v)
    fr = Frame(0, c.mod, None, init)
    I.raised.append([])
    st.frames[0] = {}
    res = I.instantiate(c, args, {}, st, fr, init.node)
    raised = I.raised.pop()
    ctx.paths += len(res)
    return I, res, raised


def births(ctx, o):
    m = o.m
    for c in m.family:
        if not m.p.is_concrete(c) and c not in (m.H, m.CI):
            continue
        init = m.p.find(c, '__init__')
        for par in (False, True):
            con = f"{c.name}({'with' if par else 'without'} parent)"

            def go():
                I, res, raised = construct(ctx, m, c, par)
                for s, v in res:
                    ob = s.heap[v[1]]
                    P = ob.fields.get(m.PARENT)
                    handed = [e for e in flat(s.events) if e[0] == 'mcall' and e[2] == 'add_element' and v in e[3]]
                    ok = P == NONE
                    ctx.ob('birth', con, ok, init.where, '' if ok else f"parent link starts as {P}, without the parent having taken the element in")
                    for fld, want in ((m.CH, 'empty'), (m.IDX, 'empty'), (m.CNT, 0)):
                        if fld is None:
                            continue
                        x = ob.fields.get(fld)
                        if x is None:
                            ctx.bad('birth', con, init.where, f"{fld} is never set")
                            continue
                        if want == 'empty':
                            okk = x[0] == 'o' and s.heap[x[1]].kind == 'dict' and not [q for q in s.ops.get(x, ()) if True] and s.heap[x[1]].data != 'shared'
                            if c is not m.H and any(q for q in s.ops.get(x, ())):
                                okk = None if 'add_element' in ast.dump(init.node) else False
                        else:
                            okk = x == C(want) or (s.ops.get(ob.fields.get(m.CH)) and None)
                        ctx.ob('birth', con, okk, init.where, '' if okk else f"{fld} starts as {m.show(x)}")
            ctx.guard('birth', con, go, where=init.where)


MUTATORS = {'pop', 'popitem', 'clear', 'update', 'setdefault', '__setitem__', '__delitem__', 'append', 'remove',
            'extend', 'insert', 'discard', 'add'}


def writers(ctx, o):
    """who may write the state behind the views"""
    m = o.m
    attrs = {m.CH, m.IDX, m.CNT} - {None}
    # functions reachable only from add_element / remove_element of the family
    funcs = {}
    for f in m.p.all_functions():
        hits = []
        me = f.node.args.args[0].arg if f.cls is not None and f.node.args.args and not f.is_static else None
        for nd in ast.walk(f.node):
            t = None
            if isinstance(nd, ast.Attribute):
                nm = f.cls._mangle(nd.attr) if f.cls else nd.attr
                if isinstance(nd.ctx, (ast.Store, ast.Del)) and nm in attrs | {m.PARENT, 'parent'}:
                    if nm in (m.PARENT, 'parent') and not family_attr(m, f, nd, me):
                        continue
                    hits.append((nm, nd))
            if isinstance(nd, ast.Subscript) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                b = base_attr(nd.value, f)
                if b in attrs:
                    hits.append((b, nd))
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in MUTATORS:
                b = base_attr(nd.func.value, f)
                if b in attrs:
                    hits.append((b, nd))
        if hits:
            funcs[f] = hits
    roots = set()
    for c, f in o.variants('add_element') + o.variants('remove_element'):
        roots.add(f)
    inits = {k.methods['__init__'] for k in m.family if '__init__' in k.methods}
    for f, hits in funcs.items():
        con = f"{f.qual} writes {', '.join(sorted({h[0] for h in hits}))}"
        if f in roots or f.name == '__init__' and f.cls is m.H or f.name in ('parent',):
            ctx.good('writers', con, f.where)
            continue
        if f.name == '__init__' and f.cls in m.family:
            ctx.good('writers', con, f.where, 'covered by the birth rule')
            continue
        callers = callers_of(m.p, f)
        if f.cls in m.family and callers and closed_under(m.p, f, roots | inits):
            ctx.good('writers', con, f.where, 'helper of addition, removal or construction')
            continue
        if f.cls in m.family and not f.setter_for and not f.is_static:
            # another operation: its own views must agree
            def go():
                I = m.interp()
                st = m.start(f.cls)
                args = [('sym', a.arg) for a in f.node.args.args[1:]]
                for s, sig in I.entry(f, args, st, recv=SELF):
                    if sig[0] != 'raise':
                        agree(o, I, s, SELF, 'writers', con, f.where)
            ctx.guard('writers', con, go, where=f.where)
            continue
        if set(h[0] for h in hits) <= {'parent', m.PARENT} and f.cls not in m.family:
            ctx.bad('writers', con, f.where, 'sets a parent link without the container taking the element in')
            continue
        ctx.bad('writers', con, f.where, 'changes the state behind the views outside addition and removal')


def family_attr(m, f, nd, me):
    """is the base of `x.parent = ...` possibly a hierarchy element? (self of an unrelated class is not)"""
    if isinstance(nd.value, ast.Name) and nd.value.id == me:
        return f.cls in m.family or f.cls is m.H
    return True


def base_attr(e, f):
    while True:
        if isinstance(e, ast.Subscript):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault'):
            e = e.func.value
        else:
            break
    if isinstance(e, ast.Attribute):
        return f.cls._mangle(e.attr) if f.cls else e.attr
    return None


def callers_of(p, f):
    out = set()
    for g in p.all_functions():
        for nd in ast.walk(g.node):
            if isinstance(nd, ast.Attribute) and (g.cls._mangle(nd.attr) if g.cls else nd.attr) == (f.cls._mangle(f.name) if f.cls else f.name):
                if g is not f:
                    out.add(g)
    return out


def closed_under(p, f, roots, seen=None):
    seen = seen or {f}
    for g in callers_of(p, f):
        if g in roots or g in seen:
            continue
        if g.name == '__init__':
            return False
        if not closed_under(p, g, roots, seen | {g}) or not callers_of(p, g):
            return False
    return True


def observers(ctx, o):
    m = o.m
    I, f, r = m.run(m.H, 'get_subelements', [('sym', 'flt')], I=m.interp())
    for s, sig in r:
        loops = [e[1] for e in s.events if e[0] == 'loop']
        ok = None
        for lp in loops:
            mem = m.loop_members(I, lp.lid)
            if mem != (SELF, ('children',)):
                continue
            ok = True
            for p in lp.paths:
                ys = [e for e in p.events if e[0] == 'yield']
                pol = None
                for a, b in p.facts:
                    if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('sym', 'flt') and a[1][2] == (('elem', lp.lid, 0),):
                        pol = b
                if pol is None or (len(ys) == 1 and ys[0][1] == ('elem', lp.lid, 0)) != pol or len(ys) > 1 or p.sig is not None:
                    ok = False
        ctx.ob('observers', 'get_subelements', ok, f.where,
               'every child accepted by the filter is given out once' if ok else 'does not give out exactly the children the filter accepts')
    I, f, r = m.run(m.H, 'parent')
    ctx.good('observers', 'parent', f.where)
    f = m.p.find(m.CI, 'cnt_subelements')
    if m.CNT is None:
        I, f, r = m.run(m.CI, 'cnt_subelements', I=m.interp())
        for s, sig in r:
            ok = sig[1][0] == 'len' and m.chf(SELF) in (sig[1][1], sig[1][1][2] if sig[1][1][0] == 'view' else None)
            ctx.ob('observers', 'cnt_subelements', True if ok else None, f.where, m.show(sig[1]))
    else:
        ctx.good('observers', 'cnt_subelements', f.where)


# ---------------------------------------------------------------------------------------------------------------- P02
def exc_name(sig):
    v = sig[1]
    if isinstance(v, tuple) and v[0] == 'exc':
        return v[1]
    if isinstance(v, tuple) and v[0] == 'cls':
        return getattr(v[1], 'name', str(v[1]))
    return '?'


def bool_of(I, s, atom):
    return I.decide_raw(s, atom)


def removal_cases(o, I, s):
    """(name given?, identifier given?) of a path; both values when the path does not decide"""
    ne = I.decide_raw(s, ('empty', NAME))
    if ne is None:
        for a, pol in s.facts:
            if a == I.norm_atom(('eq', NAME, C(''))):
                ne = pol
            if a == ('truthy', NAME):
                ne = not pol
    un = I.decide_raw(s, ('is', UID, NONE))
    if un is None:
        for a, pol in s.facts:
            if a == ('truthy', UID):
                un = not pol
            elif a[0] == 'in' and a[1] == UID and pol:
                un = False
    return ([True, False] if ne is None else [not ne]), ([True, False] if un is None else [not un])


def streams(events, loops=(), facts=()):
    """yielded values with the loops around them and the conditions inside those loops"""
    for e in events:
        if e[0] == 'yield':
            yield e[1], loops, facts
        elif e[0] == 'loop':
            for p in e[1].paths:
                yield from streams(p.events, loops + ((e[1], p),), facts + tuple(p.facts))


def view_yields(m, I, st, S, events):
    out = []
    for e in events:
        if e[0] == 'yield':
            out.append(('-', m.elem_id(I, st, e[1])))
        elif e[0] == 'loop':
            out += m.expand(I, S, e[1].lid, lambda l, p: view_yields(m, I, p.st, S, p.events))
    return m.norm(out)


def p02(ctx):
    ctx.rule('removed-set', 'on every path of a removal exactly the requested children leave: all of the bucket for a name, '
                            'the identified one for an identifier, the identified one that also carries the name for both')
    ctx.rule('handed-back', 'what a removal yields is what it removed, each once, with its parent link already cleared')
    ctx.rule('no-request', 'a request with neither name nor identifier raises ErrorInvalidQuery')
    ctx.rule('callers', 'deregistering and disconnecting run the removal of exactly the element or port in question')
    o = Ops(ctx)
    m = o.m
    for c, f in o.variants('remove_element'):
        con = f"{c.name}.remove_element"

        def go():
            I, r, marks = o.run_remove(c, f)
            for s, sig in r:
                names, uids = removal_cases(o, I, s)
                if sig[0] == 'raise':
                    if names == [False] and uids == [False]:
                        ctx.ob('no-request', con, exc_name(sig) == 'ErrorInvalidQuery', f.where, f"raises {exc_name(sig)}")
                    continue
                ch = m.view_children(I, s, SELF)
                ys = view_yields(m, I, s, SELF, s.events)
                if any(x[0] in ('?', 'iterpaths') for x in ch + ys):
                    ctx.und('removed-set', con, f.where, 'removed set not comparable')
                    continue
                for n in names:
                    for u in uids:
                        case = {(True, True): 'name and identifier', (True, False): 'name', (False, True): 'identifier',
                                (False, False): 'nothing'}[(n, u)]
                        cc = f"{con} by {case}"
                        if not n and not u:
                            ctx.bad('no-request', con, f.where, 'a request without name and identifier is accepted')
                            continue
                        if u and m.in_children(I, s, UID, SELF) is False:
                            if not ch and not ys:
                                continue            # nothing matches: the absent case belongs to the rejection rules
                        if not u:
                            want = (('iter', ('bucket', NAME), (('-', '*'),)),)
                            idx_in = [pol for a, pol in s.facts if a[0] == 'in' and a[1] == NAME and a[2] == m.idxf(SELF)]
                            emp = [pol for a, pol in s.facts if a[0] == 'empty' and m.is_bucket(a[1], SELF) and a[1][2] == NAME]
                            ok = ch == want or (not ch and (idx_in == [False] or True in emp))
                        else:
                            want = (('-', UID),)
                            ok = ch == want
                        if not ok:
                            alt = None
                            if u and n and ch == (('iter', ('bucket', NAME), (('-', '*'),)),):
                                alt = False
                            # elements selected by a filter inside a loop are not compared
                            if any(x[0] == 'iter' for x in ch) and not any(x[1] in (('bucket', NAME), ('children',)) for x in ch if x[0] == 'iter'):
                                alt = True
                            if alt:
                                ctx.und('removed-set', cc, f.where, f"removes {fmt(m, ch)}")
                            else:
                                ctx.bad('removed-set', cc, f.where, f"removes {fmt(m, ch)} instead of {fmt(m, want)}")
                            continue
                        if n and u:
                            inb = None
                            for a, pol in s.facts:
                                if a[0] == 'in' and m.is_bucket(a[2], SELF) and a[2][2] == NAME and m.cid(I, s, a[1]) == UID:
                                    inb = pol
                                if a[0] == 'eq' and NAME in a[1:]:
                                    x = a[1] if a[2] == NAME else a[2]
                                    if x[0] == 'f' and x[2] == m.ID and m.elem_id(I, s, x[1]) == UID:
                                        inb = pol
                            if inb is not True:
                                ctx.bad('removed-set', cc, f.where, 'an element that carries another name is removed')
                                continue
                        ctx.good('removed-set', cc, f.where, fmt(m, ch))
                        if sorted(ys, key=repr) == sorted(ch, key=repr):
                            ctx.good('handed-back', cc, f.where)
                        else:
                            unk = any(e[0] == 'consume' for e in flat(s.events))
                            ctx.ob('handed-back', cc, None if unk else False, f.where, f"removes {fmt(m, ch)} but yields {fmt(m, ys)}")
            for s, v in marks:
                K = m.elem_id(I, s, v)
                st = None
                for e in s.events:
                    if e[0] == 'write' and e[2] == m.PARENT and m.elem_id(I, s, e[1]) == K:
                        st = e[3]
                if st == NONE:
                    ctx.good('handed-back', con + ' detached', f.where)
                elif st is None and any(e[0] == 'loop' and any(x[0] == 'write' and x[2] == m.PARENT and x[3] == NONE for p in e[1].paths for x in p.events)
                                        for e in s.events):
                    ctx.good('handed-back', con + ' detached', f.where, 'detached by an earlier loop')
                elif v[0] in ('c', 'tup'):
                    ctx.bad('handed-back', con + ' detached', f.where, f"hands back {m.show(v)}")
                else:
                    ctx.bad('handed-back', con + ' detached', f.where, 'an element is handed back before its parent link is cleared')
        ctx.guard('removed-set', con, go, where=f.where)
    removal_callers(ctx, o)
    ctx.minimum = 8


def removal_callers(ctx, o):
    m = o.m
    seen = set()
    for c in m.family:
        f = m.p.find(c, 'deregister')
        if f is None or f in seen:
            continue
        seen.add(f)

        def go():
            I = m.interp(implicit=False)
            I, f2, r = m.run(c, 'deregister', I=I)
            PARENTF = ('f', SELF, m.PARENT, 0)
            for s, sig in r:
                con = f"{f.qual}"
                rem = [e[1] for e in flat(s.events) if e[0] == 'consume' and e[1][0] == 'mcall' and e[1][2] == 'remove_element']
                if I.decide_raw(s, ('is', PARENTF, NONE)) is True:
                    ctx.ob('callers', con + ' without parent', sig[0] != 'raise' and not rem, f.where)
                    continue
                if sig[0] == 'raise':
                    ctx.bad('callers', con, f.where, f"raises {exc_name(sig)}")
                    continue
                ok = len(rem) == 1
                d = 'the removal is not run' if not rem else ''
                for v in rem:
                    recv, n, u = removal_request(v)
                    if recv != PARENTF or u != ('f', SELF, m.UUID, 0) or n not in (C(''), ('f', SELF, m.ID, 0)):
                        ok, d = False, f"requests {m.show(recv)} to remove name {m.show(n)}, identifier {m.show(u)}"
                if not rem and any(e[0] == 'mcall' and e[2] == 'remove_element' for e in flat(s.events)):
                    nx = any(e[0] == 'next' for e in flat(s.events))
                    ok = True if nx else False
                ctx.ob('callers', con, ok, f.where, d)
        ctx.guard('callers', f.qual, go, where=f.where)


# ---------------------------------------------------------------------------------------------------------------- P03
def ancestor_loops(o, I, s):
    """loops of a path that compare the element with a walking variable"""
    out = []
    for e in flat(s.events):
        if e[0] != 'loop':
            continue
        lp = e[1]
        for p in lp.paths:
            if any(a[0] in ('is', 'eq') and EL in a[1:] and NONE not in a[1:] for a, _ in p.facts):
                out.append((lp, e[2]))
                break
    return out


def check_cycle_loop(o, I, s, lp, ex):
    """-> (True/False/None, reason): does the loop compare the element with self and every ancestor of self?"""
    m = o.m
    var = None
    for p in lp.paths:
        for a, pol in p.facts:
            if a[0] in ('is', 'eq') and EL in a[1:]:
                x = a[1] if a[2] == EL else a[2]
                base = x
                if x[0] == 'havoc':
                    var = x
                elif x[0] == 'f' and x[2] == m.PARENT and x[1][0] == 'havoc':
                    var = x[1]
                else:
                    return None, f"compares with {m.show(x)}"
    if var is None or var[1] != lp.lid:
        return None, 'walking variable not found'
    key = var[2]
    init = lp.init.get(key)
    nexts = [n.get(key) for n in lp.next]
    if not nexts:
        return False, 'the walk over the ancestors stops after the first'
    for n in nexts:
        if n != ('f', var, m.PARENT, 0):
            if n is not None and n[0] == 'f' and n[2] == m.PARENT:
                return False, f"the walk skips ancestors ({m.show(n)})"
            return None, f"walks to {m.show(n)}"
    for p in lp.paths:
        if p.sig is not None:
            continue
        tested = [x for a, pol in p.facts if a[0] in ('is', 'eq') and EL in a[1:] and not pol for x in a[1:] if x != EL]
        if var not in tested and ('f', var, m.PARENT, 0) not in tested:
            return False, 'an ancestor is passed without being compared'
        off = var not in tested
        # other ways to skip: extra conditions are fine as long as the comparison was made
    if off:
        first = [init]
        ok0 = any(a[0] in ('is', 'eq') and set(a[1:]) == {EL, init} and not pol for a, pol in s.facts)
        if not ok0:
            return False, 'the starting element itself is not compared'
    if init == SELF:
        pass
    elif init == ('f', SELF, m.PARENT, 0):
        if not any(a[0] in ('is', 'eq') and set(a[1:]) == {EL, SELF} and not pol for a, pol in s.facts):
            return False, 'the container itself is not compared with the element'
    else:
        return None, f"starts at {m.show(init)}"
    # the exit of the walk on this path
    if ex is not None:
        end = any(a[0] == 'is' and set(a[1:]) in ({var, NONE}, {('f', var, m.PARENT, 0), NONE}) and pol for a, pol in ex.facts) or \
            any(a == ('truthy', var) and not pol for a, pol in ex.facts)
        if not end and ex.sig is not None and ex.sig[0] in ('wexit', 'break', 'return'):
            return False, 'the walk can end before the topmost ancestor'
    return True, ''


def p03(ctx):
    ctx.rule('no-effect', 'no path that ends in a rejection has changed the container, the element or anything else before')
    ctx.rule('duplicate', 'an identifier already held raises ErrorDuplicateElement')
    ctx.rule('cycle', 'the element is compared with the container and all its ancestors and raises ErrorRecursiveHierarchy')
    ctx.rule('absent', 'removing an identifier that is not there is rejected')
    ctx.rule('port', 'a port is registered only after the containment has accepted it')
    ctx.rule('values', 'a wrong number of values is rejected before anything is created')
    o = Ops(ctx)
    m = o.m
    for c, f in o.variants('add_element'):
        con = f"{c.name}.add_element"

        def go():
            def connect(I, st, recv, args, kwargs, fr, node, fi):
                if recv == EL:
                    st.events.append(('mcall', recv, 'connect', tuple(args), {}, NONE, I.loc(fr, node)))
                    return [(st, NONE)]
                return None

            def consume(I, st, v):
                if v[0] == 'mcall' and v[2] == 'remove_element':
                    st.fields[(EL, m.PARENT)] = NONE
            I = m.interp(contracts={'consume': consume, 'fn:connect': connect})
            st = m.start(c)
            st.types[EL] = m.H
            st.vers['nonnull'] = (SELF, EL)
            r = I.entry(f, [EL], st, recv=SELF)
            ctx.paths += len(r)
            names = set()
            for s, sig in r:
                dup = any(a[0] == 'in' and a[1] == ('f', EL, m.UUID, 0) and a[2] == m.chf(SELF) and a[3] == 0 and pol for a, pol in s.facts)
                cyc = any(a[0] in ('is', 'eq') and EL in a[1:] and pol and any(x == SELF or x[0] == 'havoc' for x in a[1:]) for a, pol in s.facts)
                for e in flat(s.events):
                    if e[0] == 'loop' and e[2] is not None and any(
                            a[0] in ('is', 'eq') and EL in a[1:] and pol for a, pol in e[2].facts):
                        cyc = True
                if sig[0] == 'raise':
                    nm = exc_name(sig)
                    names.add(nm)
                    eff = m.effects(I, s.events)
                    ctx.ob('no-effect', f"{con} rejecting with {nm}", not eff, f.where, '; '.join(x for x, _ in eff)[:200])
                    if nm == 'KeyError':
                        continue
                    if dup and not cyc:
                        ctx.ob('duplicate', con, nm == 'ErrorDuplicateElement', f.where, f"raises {nm}")
                    elif cyc and not dup:
                        ctx.ob('cycle', con, nm == 'ErrorRecursiveHierarchy', f.where, f"raises {nm}")
                    continue
                if dup:
                    ctx.bad('duplicate', con, f.where, 'an identifier already held is accepted')
                nd = any(a[0] == 'in' and m.cid(I, s, a[1]) == ('uuid', EL) and a[2] == m.chf(SELF) and not pol for a, pol in s.facts)
                if not nd:
                    ctx.bad('duplicate', con, f.where, 'the element is taken in without a test whether its identifier is held')
                else:
                    ctx.good('duplicate', con + ' accepting', f.where)
                loops = ancestor_loops(o, I, s)
                if not loops:
                    rec = [e for e in flat(s.events) if e[0] in ('rec', 'vcall')]
                    worm = any(e[0] == 'loop' and any(a[0] in ('is', 'eq') and SELF in a[1:] and NONE not in a[1:] and
                                                      not any(x[0] == 'f' and x[2] == m.PARENT for x in a[1:])
                                                      for p in e[1].paths for a, _ in p.facts) for e in flat(s.events))
                    anyc = any(a[0] in ('in', 'truthy') and contains(a, lambda x: x == EL) and not (a[0] == 'in' and (a[2] in (m.chf(SELF), m.idxf(SELF)) or m.is_bucket(a[2])))
                               for a, _ in s.facts)
                    if rec or worm or anyc:
                        ctx.und('cycle', con, f.where, 'ancestor test not recognised')
                    else:
                        ctx.bad('cycle', con, f.where, 'the element is not compared with all ancestors of the container')
                else:
                    rs = [check_cycle_loop(o, I, s, lp, ex) for lp, ex in loops]
                    if any(x[0] is True for x in rs):
                        ctx.good('cycle', con + ' accepting', f.where)
                    elif any(x[0] is None for x in rs):
                        ctx.und('cycle', con, f.where, '; '.join(x[1] for x in rs))
                    else:
                        ctx.bad('cycle', con, f.where, '; '.join(x[1] for x in rs))
            ctx.ob('duplicate', con + ' rejects', True if 'ErrorDuplicateElement' in names else (None if not names else False), f.where,
                   '' if 'ErrorDuplicateElement' in names else f"only rejects with {sorted(names)}")
            ctx.ob('cycle', con + ' rejects', True if 'ErrorRecursiveHierarchy' in names else (None if not names else False), f.where,
                   '' if 'ErrorRecursiveHierarchy' in names else f"only rejects with {sorted(names)}")
        ctx.guard('no-effect', con, go, where=f.where)
    for c, f in o.variants('remove_element'):
        con = f"{c.name}.remove_element"

        def go():
            I, r, marks = o.run_remove(c, f)
            for s, sig in r:
                names, uids = removal_cases(o, I, s)
                if sig[0] == 'raise':
                    nm = exc_name(sig)
                    eff = m.effects(I, s.events)
                    ys = [e for e in flat(s.events) if e[0] == 'yield']
                    ctx.ob('no-effect', f"{con} rejecting with {nm}", not eff and not ys, f.where, '; '.join(x for x, _ in eff)[:200])
                    continue
                if uids == [True]:
                    absent = any(a[0] == 'in' and a[3] == 0 and not pol and m.cid(I, s, a[1]) == UID and
                                 (a[2] == m.chf(SELF) or (m.is_bucket(a[2], SELF) and a[2][2] == NAME)) for a, pol in s.facts)
                    ch = m.view_children(I, s, SELF)
                    if absent:
                        ctx.bad('absent', con, f.where, 'an identifier that is not there is accepted silently')
                    elif ch == (('-', UID),):
                        ctx.good('absent', con, f.where)
        ctx.guard('no-effect', con, go, where=f.where)
    reject_connect(ctx, o)
    reject_values(ctx, o)
    ctx.minimum = 8


def reject_connect(ctx, o):
    """connect(el): the registration of the port follows the containment's consent"""
    m = o.m
    seen = set()
    for c in m.family:
        f = m.p.find(c, 'connect')
        if f is None or f in seen or f.is_abstract or len(f.node.args.args) < 2:
            continue
        seen.add(f)
        con = f.qual

        def go():
            def add(I, st, recv, args, kwargs, fr, node, fi):
                s2 = st.fork()
                I.raised[-1].append((s2, ('raise', ('exc', 'ErrorDuplicateElement', 'containment'), I.loc(fr, node))))
                st.events.append(('accepted', args, I.loc(fr, node)))
                return [(st, NONE)]
            I = m.interp(contracts={'fn:add_element': add})
            st = m.start(c)
            E = ('sym', 'el')
            st.types[E] = m.H
            st.vers['nonnull'] = (SELF, E)
            r = I.entry(f, [E], st, recv=SELF)
            n = 0
            for s, sig in r:
                if sig[0] != 'raise':
                    continue
                n += 1
                eff = m.effects(I, s.events)
                ctx.ob('port', con, not eff, f.where, '; '.join(x for x, _ in eff)[:200])
            if not n:
                ctx.bad('port', con, f.where, 'the port is not added to the element')
        ctx.guard('port', con, go, where=f.where)


def reject_values(ctx, o):
    """functions that take nodes and values: the number is compared before an edge is created"""
    from rules import p_edges
    p_edges.value_rejection(ctx, o.m, 'values')


# ---------------------------------------------------------------------------------------------------------------- P04
def walk_loop(I, m, lid, start):
    """The loop walks from `start` upwards along the parent links. -> (key, True/False/None, reason)"""
    W = I.loops[I.origin.get(lid, lid)]
    for key, init in W.init.items():
        var = ('havoc', W.lid, key)
        if not W.next or any(n.get(key) is None for n in W.next):
            continue
        if not all(n[key] == ('f', var, m.PARENT, 0) for n in W.next):
            continue
        if init not in (start, ('f', start, m.PARENT, 0)):
            return key, None, f"walk starts at {m.show(init)}"
        for p in W.paths:
            if p.sig is None:
                continue
            top = [a for a, pol in p.facts if pol and a[0] == 'is' and set(a[1:]) in ({var, NONE}, {('f', var, m.PARENT, 0), NONE})]
            top += [a for a, pol in p.facts if not pol and a[0] == 'truthy' and a[1] in (var, ('f', var, m.PARENT, 0))]
            if not top and p.sig[0] != 'raise':
                return key, False, 'the walk to the topmost ancestor can stop early'
        return key, True, init
    return None, None, 'no walk along the parent links'


def name_form(I, m, s, v, who):
    """Is v the names from the topmost ancestor of `who` down to `who`, joined by slashes? -> (True/False/None, reason)"""
    PARENTF = ('f', who, m.PARENT, 0)
    par_none = I.decide_raw(s, ('is', PARENTF, NONE))
    if v == ('f', who, m.ID, 0):
        if par_none is True:
            return True, ''
        return False, 'the name of the element alone, whatever its ancestors'
    if v[0] == 'cat' or (v[0] == 'join' and v[2][0] == 'list' and all(x[0] not in ('each', 'splice', 'rev') for x in v[2][1])):
        parts = list(v[1]) if v[0] == 'cat' else [y for x in v[2][1] for y in (v[1], x)][1:]
        if len(parts) == 3 and parts[1] == C('/') and parts[2] == ('f', who, m.ID, 0):
            q = parts[0]
            if q in (('f', PARENTF, m.QUAL, 0), ('bound', PARENTF, 'qualified_name')):
                if par_none is not True:
                    return True, ''
        if parts and parts[-1] != ('f', who, m.ID, 0) and all(x[0] in ('f', 'c', 'bound') for x in parts):
            return False, f"composed as {' + '.join(m.show(x) for x in parts)}"
        return None, f"composed as {' + '.join(m.show(x) for x in parts)}"
    if v[0] != 'join':
        return None, m.show(v)
    if v[1] != C('/'):
        return False, f"joined by {m.show(v[1])}"
    seq = v[2]
    if seq[0] != 'list':
        return None, m.show(seq)
    segs = []

    def unfold(items, rev):
        for x in (items[::-1] if rev else items):
            if x[0] == 'rev' and x[1][0] == 'list':
                unfold(list(x[1][1]), not rev)
            elif x[0] == 'each':
                lp = I.loops[x[1]]
                r = rev
                c = lp.coll
                while c is not None and c[0] == 'rev':
                    r = not r
                    c = c[1]
                segs.append(('each', x[1], x[2], r))
            else:
                segs.append(('one', x))
    unfold(list(seq[1]), False)
    each = [x for x in segs if x[0] == 'each']
    ones = [x[1] for x in segs if x[0] == 'one']
    if len(each) != 1:
        if not each and ones:
            return (None if any(x[0] in ('splice', 'unk') for x in ones) else False), f"joins {', '.join(m.show(x) for x in ones)}"
        return None, 'several sequences'
    _, lid, cont, rev = each[0]
    key, ok, init = walk_loop(I, m, lid, who)
    if ok is not True:
        return ok, init
    L = I.loops[lid]
    var = ('havoc', lid, key)
    for p in L.paths:
        if p.sig is not None:
            continue
        added = [op for op in I.path_ops(L, p, cont) if op[0] in ('add', 'insert')]
        vals = [op[1] if op[0] == 'add' else op[2] for op in added]
        if vals != [('f', var, m.ID, 0)]:
            return (False, f"an ancestor contributes {', '.join(m.show(x) for x in vals) or 'nothing'}")
    W = I.loops[I.origin.get(lid, lid)]
    wvar = ('havoc', W.lid, key)
    exits = [p for p in W.paths if p.sig is not None and p.sig[0] != 'raise']
    at_none = all(any(pol and a[0] == 'is' and set(a[1:]) == {wvar, NONE} for a, pol in p.facts) or
                  any(not pol and a == ('truthy', wvar) for a, pol in p.facts) for p in exits)
    want = []
    if not at_none:
        want.append(('one', ('f', wvar, m.ID, 0)))       # the topmost one is added on leaving
    want.append('each')
    if init == ('f', who, m.PARENT, 0):
        want.append(('one', ('f', who, m.ID, 0)))
    got = ['each' if x[0] == 'each' else x for x in segs]
    if got == want and rev:
        return True, ''
    if got == want[::-1] and not rev:
        return False, 'the names come in the wrong order (from the element up)'
    if got == want and not rev and len(want) == 1:
        return False, 'the names come in the wrong order (from the element up)'
    if [g for g in got if g != 'each'] != [w for w in want if w != 'each'] and all(g == 'each' or g[1][0] in ('f', 'c') for g in got):
        return False, 'names are missing or repeated'
    return None, f"order of {got}"


def refresh_at(I, m, s, evs, i, K, parent):
    """Does event i of evs bring the element with identifier K and everything below it up to date?
    -> None (no refresh) or (True/False/None, reason)"""
    e = evs[i]
    if e[0] == 'loop' and e[1].kind == 'while':
        lp = e[1]
        for q, ops in lp.pre.ops.items():
            roots = [op for op in ops if op[0] in ('add', 'addleft')]
            hit = [op for op in roots if m.elem_id(I, lp.pre, op[1]) == K]
            if not hit:
                continue
            if not any(x[0] == 'take' for p in lp.paths if p.sig is None for x in I.path_ops(lp, p, q)):
                continue
            return worklist_refresh(I, m, lp, q)
        return None
    if e[0] == 'mcall' and e[2] == 'update' and m.elem_id(I, s, e[1]) == K:
        # a plain call: the subtree has to follow
        root = e[1]
        depth = [x for x in evs[:i] if x[0] == 'write' and x[2] == m.DEPTH and m.elem_id(I, s, x[1]) == K]
        for j in range(i + 1, len(evs)):
            if evs[j][0] == 'loop':
                c = m.loop_children_of(I, evs[j][1])
                if c is not None and m.elem_id(I, s, c) == K:
                    sub = evs[j][1]
                    if all(any(x[0] == 'rec' and any(v == ('elem', sub.lid, 0) for v in x[2].values()) for x in p.events)
                           for p in sub.paths if p.sig is None):
                        return True, 'recursive'
        return False, 'only the element itself is updated, not what lies below it'
    return None


def worklist_refresh(I, m, lp, q):
    n = 0
    for p in lp.paths:
        if p.sig is not None:
            if p.sig[0] == 'wexit' or p.sig[0] == 'break' and any(a[0] == 'empty' and pol for a, pol in p.facts):
                if any(a[0] == 'empty' and a[1] == q and pol for a, pol in p.facts) or \
                        any(a[0] == 'truthy' and not pol for a, pol in p.facts):
                    continue
                return False, 'the work list can be left before it is empty'
            if p.sig[0] == 'raise':
                continue
            return False, 'the work list can be left before it is empty'
        ops = I.path_ops(lp, p, q)
        takes = [x for x in ops if x[0] == 'take']
        if len(takes) != 1:
            return None, 'work list not recognised'
        x = takes[0][1]
        n += 1
        # update called
        upd = [i for i, e in enumerate(p.events) if (e[0] == 'mcall' and e[2] == 'update' and e[1] == x) or
               (e[0] == 'write' and e[2] == m.QUAL and e[1] == x)]
        if not upd:
            return False, 'an element of the subtree is not updated'
        if m.DEPTH:
            dep = [e for e in p.events if e[0] == 'write' and e[2] == m.DEPTH and e[1] == x]
            par = ('f', x, m.PARENT, 0)
            if not dep:
                return False, 'the depth of an element of the subtree is not set'
            d = dep[-1][3]
            isn = I.decide_raw(p.st, ('is', par, NONE))
            ok = None
            if d == C(0):
                ok = isn is True
                if isn is None and any(par in a[1:] for a, _ in p.facts):
                    ok = None
            elif d[0] == 'op' and d[1] == '+' and C(1) in d[2:]:
                b = d[2] if d[3] == C(1) else d[3]
                if b in (('f', par, m.DEPTH, 0), ('bound', par, 'depth')):
                    ok = isn is not True
                elif b[0] in ('bound', 'f') and b[2] in ('depth', m.DEPTH):
                    ok = False
                elif b[0] == 'havoc' and b[2][-1] == m.DEPTH:
                    ok = False
            elif d[0] in ('f', 'bound') or d[0] == 'op':
                ok = False
            if ok is not True:
                return ok, f"depth becomes {m.show(d)}"
        # children queued
        ch = ('f', x, m.CH, 0)
        put = None
        emp = I.decide_raw(p.st, ('empty', ch))
        for op in ops:
            if op[0] == 'splice' and m.view_of(op[1]) == ch:
                put = True
            if op[0] == 'iter':
                sub = I.loops[op[1]]
                if m.view_of(sub.coll) != ch and not (sub.coll and m.loop_children_of(I, sub) == x):
                    continue
                cond = False
                for sp in sub.paths:
                    if sp.sig is not None:
                        cond = True
                        continue
                    adds = [y for y in I.path_ops(sub, sp, q) if y[0] in ('add', 'addleft')]
                    if [y[1] for y in adds] != [('elem', sub.lid, 0)]:
                        cond = True
                put = not cond
            if op[0] in ('add', 'addleft'):
                return None, 'single elements are queued'
        if put is None and emp is True:
            put = True
        if put is None:
            return False, 'the children of an element are not queued'
        if put is False:
            return False, 'only some children of an element are queued'
    return (True, '') if n else (None, 'work list without iteration')


def refresh_rule(ctx, o, rule, kinds=('add', 'remove')):
    m = o.m

    def scan(I, s, evs, con, where, want_parent):
        """every parent link written in this list of events is followed by a refresh"""
        for i, e in enumerate(evs):
            if e[0] == 'loop':
                for p in e[1].paths:
                    if p.sig is None or p.sig[0] in ('break', 'return'):
                        scan(I, p.st, p.events, con, where, want_parent)
            if e[0] != 'write' or e[2] != m.PARENT or e[1][0] == 'o':
                continue
            K = m.elem_id(I, s, e[1])
            if any(x[0] == 'write' and x[2] == m.PARENT and m.elem_id(I, s, x[1]) == K for x in evs[i + 1:]):
                continue                            # not the final one
            res = [refresh_at(I, m, s, evs, j, K, e[3]) for j in range(i + 1, len(evs))]
            res = [x for x in res if x is not None]
            if any(x[0] is True for x in res):
                ctx.good(rule, con, where)
            elif any(x[0] is None for x in res):
                ctx.und(rule, con, where, '; '.join(str(x[1]) for x in res))
            elif res:
                ctx.bad(rule, con, where, '; '.join(str(x[1]) for x in res))
            else:
                before = [refresh_at(I, m, s, evs, j, K, e[3]) for j in range(i)]
                if any(before):
                    ctx.bad(rule, con, where, 'the subtree is brought up to date before the parent link is final')
                elif any(x[0] == 'mcall' and x[2] not in PURE_CALLS and contains(x[3], lambda y: y == e[1]) for x in evs[i + 1:]) or \
                        any(x[0] in ('rec', 'vcall') for x in flat(evs)):
                    ctx.und(rule, con, where, 'handed to another operation')
                else:
                    later = [x for x in flat(I_events(I, evs)) if x[0] == 'mcall' and x[2] == 'update']
                    ctx.bad(rule, con, where, 'the element and what lies below it are not brought up to date')
    if 'add' in kinds:
        for c, f in o.variants('add_element'):
            con = f"{c.name}.add_element"

            def go():
                I, r = o.run_add(c, f, implicit=False)
                for s, sig in r:
                    if sig[0] != 'raise':
                        scan(I, s, s.events, con, f.where, SELF)
            ctx.guard(rule, con, go, where=f.where)
    if 'remove' in kinds:
        for c, f in o.variants('remove_element'):
            con = f"{c.name}.remove_element"

            def go():
                I, r, marks = o.run_remove(c, f)
                for s, sig in r:
                    if sig[0] != 'raise':
                        scan(I, s, s.events, con, f.where, NONE)
            ctx.guard(rule, con, go, where=f.where)


def I_events(I, evs):
    return evs


def p04(ctx):
    ctx.rule('name', 'update sets the qualified name to the names from the topmost ancestor down, joined by slashes')
    ctx.rule('refresh', 'after the final parent link of an element is written, the element and everything below it get '
                        'depth (0 or parent + 1) and name anew, through a work list that misses no child')
    ctx.rule('birth', 'a new element starts with its own name and depth 0')
    ctx.rule('writers', 'names and depths are written by updates only')
    o = Ops(ctx)
    m = o.m
    seen = set()
    for c in m.family:
        f = m.p.find(c, 'update')
        if f is None or f.is_abstract:
            continue
        key = (f, m.p.find(c, 'update_qualified_name'))
        if key in seen:
            continue
        seen.add(key)
        con = f"{f.qual} for {c.name}"

        def go():
            I, f2, r = m.run(c, 'update', I=m.interp(implicit=False))
            ctx.paths += len(r)
            for s, sig in r:
                if sig[0] == 'raise':
                    continue
                v = s.fields.get((SELF, m.QUAL))
                if v is None:
                    ctx.bad('name', con, f.where, 'a path of update leaves the qualified name as it was')
                    continue
                ok, why = name_form(I, m, s, v, SELF)
                ctx.ob('name', con, ok, f.where, why)
        ctx.guard('name', con, go, where=f.where)
    refresh_rule(ctx, o, 'refresh')
    for c in m.family:
        if not m.p.is_concrete(c):
            continue
        init = m.p.find(c, '__init__')
        con = f"{c.name}()"

        def go():
            I, res, raised = construct(ctx, m, c, False)
            for s, v in res:
                ob = s.heap[v[1]]
                q = ob.fields.get(m.QUAL)
                ctx.ob('birth', con + ' name', True if q == ('sym', 'id_name') else (False if q is None or q[0] in ('sym', 'c') else None),
                       init.where, f"name starts as {m.show(q) if q else 'unset'}")
                if m.DEPTH:
                    d = ob.fields.get(m.DEPTH)
                    ctx.ob('birth', con + ' depth', d == C(0) if d is None or d[0] in ('c', 'sym') else None, init.where,
                           f"depth starts as {m.show(d) if d else 'unset'}")
        ctx.guard('birth', con, go, where=init.where)
    attr_writers(ctx, o, 'writers', {m.QUAL, m.DEPTH} - {None}, ('update', 'add_element', 'remove_element'))
    ctx.minimum = 8


def attr_writers(ctx, o, rule, attrs, roots_named, extra=()):
    """who stores into the given private attributes of elements"""
    m = o.m
    roots = set()
    for n in roots_named:
        for c in m.family:
            f = m.p.find(c, n)
            if f:
                roots.add(f)
    base = m.p.cls('IdentifiableItem')
    roots |= {k.methods['__init__'] for k in list(m.family) + [base] if '__init__' in k.methods}
    for f in m.p.all_functions():
        hits = set()
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                nm = f.cls._mangle(nd.attr) if f.cls else nd.attr
                if nm in attrs:
                    hits.add(nm)
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id == 'setattr' and len(nd.args) > 1 \
                    and isinstance(nd.args[1], ast.Constant) and nd.args[1].value in attrs:
                hits.add(nd.args[1].value)
        if not hits:
            continue
        me = f.node.args.args[0].arg if f.cls is not None and f.node.args.args else None
        own_only = all(isinstance(nd.value, ast.Name) and nd.value.id == me for nd in ast.walk(f.node)
                       if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, (ast.Store, ast.Del)) and
                       (f.cls._mangle(nd.attr) if f.cls else nd.attr) in attrs)
        con = f"{f.qual} writes {', '.join(sorted(hits))}"
        infam = f.cls is not None and (f.cls in m.family or f.cls is base)
        if not infam and own_only and f.cls is not None:
            continue                                    # state of another class that has the same name
        if f in roots or (f.name == '__init__' and infam) or f.setter_for or f in extra:
            ctx.good(rule, con, f.where)
        elif infam and callers_of(m.p, f) and closed_under(m.p, f, roots):
            ctx.good(rule, con, f.where, 'helper')
        else:
            ctx.bad(rule, con, f.where, 'written outside the operations that keep it right')


# ---------------------------------------------------------------------------------------------------------------- P05
def p05(ctx):
    ctx.rule('assign', 'a taken-in element gets the history counter as position, and the counter grows by exactly one')
    ctx.rule('keep', 'removal leaves the history counter as it is')
    ctx.rule('start', 'the counter starts at 0')
    ctx.rule('writers', 'nothing else writes positions or the counter')
    o = Ops(ctx)
    m = o.m
    hist = set()
    for c, f in o.variants('add_element'):
        con = f"{c.name}.add_element"

        def go():
            I, r = o.run_add(c, f, implicit=False)
            for s, sig in r:
                if sig[0] == 'raise':
                    continue
                ch = m.view_children(I, s, SELF)
                if not ch:
                    continue
                v = s.fields.get((EL, m.CID))
                if v is None:
                    ctx.bad('assign', con, f.where, 'no position is assigned')
                    continue
                if v[0] == 'f' and v[1] == SELF:
                    H = v[2]
                    hist.add(H)
                    h = s.fields.get((SELF, H))
                    if h is None:
                        ctx.bad('assign', con, f.where, f"{H} is not advanced")
                        continue
                    want = I.binop('+', v, C(1), s, None, None) if False else None
                    ok = h[0] == 'op' and h[1] == '+' and set(h[2:]) == {v, C(1)}
                    und = contains(h, lambda x: isinstance(x, tuple) and x and x[0] in ('unk', 'mcall', 'call', 'havoc'))
                    ctx.ob('assign', con, True if ok else (None if und else False), f.where, f"position {m.show(v)}, counter becomes {m.show(h)}")
                elif v[0] in ('c', 'op', 'len', 'sym') or (v[0] == 'f'):
                    ctx.bad('assign', con, f.where, f"position becomes {m.show(v)}")
                else:
                    ctx.und('assign', con, f.where, f"position becomes {m.show(v)}")
        ctx.guard('assign', con, go, where=f.where)
    for c, f in o.variants('remove_element'):
        con = f"{c.name}.remove_element"

        def go():
            I, r, marks = o.run_remove(c, f)
            for s, sig in r:
                for H in hist:
                    v = s.fields.get((SELF, H), ('f', SELF, H, 0))
                    ws = [e for e in flat(s.events) if e[0] == 'write' and e[2] == H and e[1] == SELF]
                    same = v == ('f', SELF, H, 0) and not any(e[3] != ('f', SELF, H, 0) for e in ws)
                    ctx.ob('keep', con, same, f.where, '' if same else f"{H} becomes {m.show(ws[-1][3]) if ws else m.show(v)}")
        ctx.guard('keep', con, go, where=f.where)
    for c in m.family:
        if not m.p.is_concrete(c):
            continue
        init = m.p.find(c, '__init__')
        con = f"{c.name}()"

        def go():
            I, res, raised = construct(ctx, m, c, False)
            for s, v in res:
                for H in hist:
                    h = s.heap[v[1]].fields.get(H)
                    ctx.ob('start', con, h == C(0) if h is None or h[0] in ('c', 'sym') else None, init.where, f"{H} starts as {m.show(h) if h else 'unset'}")
        ctx.guard('start', con, go, where=init.where)
    attr_writers(ctx, o, 'writers', {m.CID} | hist, ('add_element',))
    # positions set through the public setter
    for f in m.p.all_functions():
        st = [nd for nd in ast.walk(f.node) if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and nd.attr == 'cid']
        if not st:
            continue
        roots = {g for c, g in o.variants('add_element')}
        con = f"{f.qual} sets cid"
        if f in roots or (f.cls in m.family and closed_under(m.p, f, roots) and callers_of(m.p, f)):
            ctx.good('writers', con, f.where)
        elif f.cls is not None and f.cls not in m.family and all(isinstance(n.value, ast.Name) and n.value.id == 'self' for n in st):
            continue
        else:
            ctx.bad('writers', con, f.where, 'a position is set outside the addition')
    ctx.minimum = 6


# ---------------------------------------------------------------------------------------------------------------- P06
NS = {'time.time_ns': ('time', 'ns'), 'time.time': ('time', 's'), 'time.monotonic_ns': ('monotonic', 'ns'),
      'time.monotonic': ('monotonic', 's'), 'time.perf_counter_ns': ('perf_counter', 'ns'),
      'time.perf_counter': ('perf_counter', 's'), 'time.process_time_ns': ('process_time', 'ns'),
      'time.process_time': ('process_time', 's')}


def time_source(v):
    """-> (source, unit) of a clock reading, None when not understood"""
    if is_c(v):
        return ('const', v[2])
    if v[0] == 'call' and (isinstance(v[1], str) or v[1][0] == 'ext'):
        n = v[1] if isinstance(v[1], str) else v[1][1]
        if n in NS:
            return NS[n]
        if n in ('int', 'float', 'round') and v[2]:
            return time_source(v[2][0])
        return None
    if v[0] == 'op' and len(v) == 4:
        a, b = v[2], v[3]
        for x, y, op in ((a, b, v[1]), (b, a, v[1] if v[1] == '*' else '')):
            if is_c(y) and isinstance(y[2], (int, float)):
                t = time_source(x)
                if t is None:
                    return None
                if op == '/' and float(y[2]) == 1e9 and t[1] == 'ns':
                    return (t[0], 's')
                if op == '*' and abs(float(y[2]) - 1e-9) < 1e-20 and t[1] == 'ns':
                    return (t[0], 's')
                if op == '*' and float(y[2]) == 1e9 and t[1] == 's':
                    return (t[0], 'ns')
                return (t[0], f"{t[1]}{op}{y[2]}")
    return None


def p06(ctx):
    ctx.rule('reading', 'on creation and on every path of update the timestamp becomes the nanosecond reading of the own clock')
    ctx.rule('no-clock', 'without a clock creation and update are rejected')
    ctx.rule('refresh', 'attaching, moving and detaching updates the element and everything below it')
    ctx.rule('clock', 'both readings of a clock use one time source in the promised unit; the dummy clock reports zero')
    ctx.rule('writers', 'nothing else writes timestamps')
    o = Ops(ctx)
    m = o.m
    CLK = ('f', SELF, m.CLOCK, 0)
    clocked = [c for c in m.family if m.CI in m.p.mro(c)]
    seen = set()

    def reading(v, clk):
        return v is not None and v[0] == 'mcall' and v[1] == clk and v[2] == 'get_time_ns'
    for c in clocked:
        f = m.p.find(c, 'update')
        if f in seen or f.is_abstract:
            continue
        seen.add(f)
        con = f"{f.qual} for {c.name}"

        def go():
            I, f2, r = m.run(c, 'update', I=m.interp(implicit=False))
            ctx.paths += len(r)
            some = False
            for s, sig in r:
                none = I.decide_raw(s, ('is', CLK, NONE))
                if none is None:
                    none = any(a == ('truthy', CLK) and not pol for a, pol in s.facts) or None
                if sig[0] == 'raise':
                    if none is True:
                        some = True
                        ctx.ob('no-clock', con, exc_name(sig) == 'ErrorClockNotSet', f.where, f"raises {exc_name(sig)}")
                    continue
                if none is True:
                    ctx.bad('no-clock', con, f.where, 'an update without a clock is accepted')
                    continue
                v = s.fields.get((SELF, m.TS))
                if v is None:
                    ctx.bad('reading', con, f.where, 'a path of update does not refresh the timestamp')
                else:
                    ctx.ob('reading', con, True if reading(v, CLK) else (None if v[0] in ('unk', 'havoc', 'call') else False), f.where, f"timestamp becomes {m.show(v)}")
            if not some:
                # a missing clock surfaces as an attribute error: still rejected, but not by the matching error
                ctx.bad('no-clock', con, f.where, 'a missing clock is not rejected')
        ctx.guard('reading', con, go, where=f.where)
    for c in clocked:
        if not m.p.is_concrete(c):
            continue
        init = m.p.find(c, '__init__')
        con = f"{c.name}()"

        def go():
            I, res, raised = construct(ctx, m, c, False)
            for s, v in res:
                ob = s.heap[v[1]]
                clk = ob.fields.get(m.CLOCK)
                t = ob.fields.get(m.TS)
                ok = clk is not None and (clk[0] == 'sym' or clk[0] in ('f', 'bound', 'attr')) and reading(t, clk)
                ctx.ob('reading', con, True if ok else (None if t is not None and t[0] in ('unk', 'havoc') else False), init.where, f"timestamp starts as {m.show(t) if t else 'unset'}")
                pk = [a.arg for a in init.node.args.args]
                if 'clock' in pk:
                    ctx.ob('reading', con + ' own clock', clk == ('sym', 'clock'), init.where, f"clock is {m.show(clk) if clk else 'unset'}")
                if clk is not None and I.decide_raw(s, ('is', clk, NONE)) is True:
                    ctx.bad('no-clock', con, init.where, 'an element without clock is accepted')
            nc = [e for e in raised if e[1][0] == 'raise' and exc_name(e[1]) == 'ErrorClockNotSet']
            pk = [a.arg for a in init.node.args.args]
            if 'clock' in pk:
                ctx.ob('no-clock', con, bool(nc), init.where, '' if nc else 'creation without a clock is not rejected')
        ctx.guard('reading', con, go, where=init.where)
    refresh_rule(ctx, o, 'refresh')
    MC = m.p.cls('MetaClock')
    for c in [x for x in m.p.subclasses.get(MC, []) if m.p.is_concrete(x)]:
        con = c.name

        def go():
            got = {}
            for n in ('get_time_ns', 'get_time_sec'):
                I = ctx.interp()
                st = State()
                st.types[SELF] = c
                st.vers['exact'] = (SELF,)
                st.vers['nonnull'] = (SELF,)
                f = m.p.find(c, n)
                r = I.entry(f, [], st, recv=SELF)
                got[n] = [time_source(sig[1]) if sig[0] == 'return' else ('raise', '') for s, sig in r]
            f = m.p.find(c, 'get_time_ns')
            ns, sec = got['get_time_ns'], got['get_time_sec']
            if None in ns or None in sec:
                ctx.und('clock', con, f.where, 'time source not recognised')
                return
            if c.name.startswith('Dummy'):
                ctx.ob('clock', con, all(x == ('const', 0) for x in ns + sec), f.where, f"{ns} {sec}")
            else:
                ok = set(x[1] for x in ns) == {'ns'} and set(x[1] for x in sec) == {'s'} and len({x[0] for x in ns + sec}) == 1
                ctx.ob('clock', con, ok, f.where, f"nanoseconds from {ns}, seconds from {sec}")
        ctx.guard('clock', con, go, where=c.node.lineno)
    attr_writers(ctx, o, 'writers', {m.TS}, ('update', '__init__'))
    ctx.minimum = 8


# ---------------------------------------------------------------------------------------------------------------- P07
LNAME = ('sym', 'name')


def is_tokens(t):
    """the list of all names of the path"""
    while t[0] == 'coll':
        t = t[1]
    return t[0] == 'mcall' and t[1] == LNAME and t[2] == 'split' and t[3] == (C('/'),) and not t[4]


def is_head(t):
    if t[0] == 'item' and t[2] == C(0):
        b = t[1]
        if is_tokens(b):
            return True
        return b[0] == 'mcall' and b[1] == LNAME and b[2] in ('partition', 'split') and b[3][:1] == (C('/'),)
    return False


def is_rest(t):
    """all tokens but the first"""
    if t[0] == 'sliceof' and is_tokens(t[1]) and t[2] == C(1) and t[3] == NONE and t[4] in (NONE, C(1)):
        return True
    return t[0] == 'slice' and is_tokens(t[1]) and t[2] == 1


def is_tail(I, t):
    if t[0] == 'join' and t[1] == C('/'):
        q = t[2]
        if is_rest(q):
            return True
        if q[0] == 'list' and len(q[1]) == 1 and q[1][0][0] == 'each':
            lp = I.loops.get(q[1][0][1])
            return lp is not None and lp.coll is not None and is_rest(lp.coll if lp.coll[0] != 'coll' else lp.coll[1]) and \
                all(p.sig is None for p in lp.paths)
    if t[0] == 'item' and t[1][0] == 'mcall' and t[1][1] == LNAME:
        b = t[1]
        if b[2] == 'partition' and b[3] == (C('/'),) and t[2] == C(2):
            return True
        if b[2] == 'split' and b[3] == (C('/'), C(1)) and t[2] in (C(1), C(-1)):
            return True
    return False


def more_names(a, pol):
    """does the fact say that names follow the first one? -> True/False/None"""
    if a[0] == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x == C(1) and y[0] == 'len' and is_tokens(y[1]) and pol:
                return False
            if x == C(1) and y[0] == 'len' and is_tokens(y[1]):
                return True
            if x == C('') and y[0] == 'item' and y[1][0] == 'mcall' and y[1][2] == 'partition' and y[2] == C(1):
                return not pol
            if x == C('/') and y[0] == 'item' and y[1][0] == 'mcall' and y[1][2] == 'partition' and y[2] == C(1):
                return pol
    if a[0] == 'lt':
        if is_c(a[1]) and a[2][0] == 'len' and is_tokens(a[2][1]) and a[1][2] == 1:
            return pol
        if is_c(a[2]) and a[1][0] == 'len' and is_tokens(a[1][1]) and a[2][2] == 2:
            return not pol
    if a[0] in ('empty', 'truthy'):
        x = a[1]
        has = pol if a[0] == 'truthy' else not pol
        if is_rest(x):
            return has
        if x[0] == 'item' and x[1][0] == 'mcall' and x[1][1] == LNAME and x[1][2] == 'partition' and x[2] in (C(1), C(2)):
            return has
    if a[0] == 'in' and a[1] == C('/') and a[2] == LNAME:
        return pol
    return None


def p07(ctx):
    ctx.rule('lookup', 'inductive step of the lookup: exactly the children in the bucket of the first name are taken; without '
                       'further names they are yielded, otherwise what each of them finds for the remaining path is yielded')
    ctx.rule('silent', 'no path of the lookup raises')
    ctx.rule('kinds', 'every kind of element that can lie on the way offers the lookup')
    o = Ops(ctx)
    m = o.m
    seen = set()
    for c in m.family:
        f = m.p.find(c, 'get_element_by_id_name')
        if f is None:
            if m.p.is_concrete(c):
                ctx.bad('kinds', c.name, f"{c.mod.relpath}:{c.node.lineno}", 'cannot be searched: a path that leads through it fails')
            continue
        if m.p.is_concrete(c):
            ctx.good('kinds', c.name, f.where)
        if f in seen or f.is_abstract:
            continue
        seen.add(f)
        con = f"{f.qual} for {c.name}"

        def go():
            I = m.interp()
            st = m.start(c)
            st.types[LNAME] = 'str'
            st.vers['nonnull'] = (SELF, LNAME)
            r = I.entry(f, [LNAME], st, recv=SELF)
            ctx.paths += len(r)
            for s, sig in r:
                if sig[0] == 'raise':
                    ctx.bad('silent', con, f.where, f"a path of the lookup raises {exc_name(sig)}")
                    continue
                ctx.good('silent', con, f.where)
                lookup_path(ctx, o, I, s, con, f)
        ctx.guard('lookup', con, go, where=f.where)
    ctx.minimum = 6


def lookup_path(ctx, o, I, s, con, f):
    m = o.m
    found = [pol for a, pol in s.facts if a[0] == 'in' and a[2] == m.idxf(SELF) and is_head(a[1])]
    more = [x for x in (more_names(a, pol) for a, pol in s.facts) if x is not None]
    ys = list(streams(s.events))
    ys = [y for y in ys]
    if found and found[0] is False:
        ctx.ob('lookup', con + ' without match', not ys, f.where, 'yields although no child has the name' if ys else '')
        return
    if any(a[0] == 'empty' and pol and m.is_bucket(a[1]) for a, pol in s.facts) and not ys:
        ctx.good('lookup', con + ' with an empty bucket', f.where)
        return
    groups = {}
    for v, loops, facts in ys:
        groups.setdefault(loops[0][0].lid if loops else None, []).append((v, loops, facts))
    main = None
    for e in s.events:
        if e[0] == 'loop':
            mem = m.loop_members(I, e[1].lid)
            if mem is not None and mem[0] == SELF and mem[1][0] == 'bucket' and is_head(mem[1][1]):
                if any(x[0] in ('yield', 'consume', 'loop') for p in e[1].paths for x in p.events):
                    main = (e[1], e[2])
            elif mem is not None and any(x[0] in ('yield', 'consume') for p in e[1].paths for x in flat(p.events)):
                # a loop over other children
                if mem[1][0] == 'bucket':
                    ctx.bad('lookup', con, f.where, f"follows the children named {m.show(mem[1][1])} instead of the first name")
                else:
                    sel = [a for p in e[1].paths for a, _ in p.facts if a[0] == 'eq']
                    ctx.und('lookup', con, f.where, f"scans all children with {len(sel)} comparisons")
                return
    if main is None:
        opaque = [e for e in flat(s.events) if e[0] in ('vcall', 'consume', 'rec') or e[0] == 'loop']
        if not opaque:
            if found and found[0] is True:
                ctx.bad('lookup', con, f.where, 'yields nothing although children have the name')
            else:
                ctx.und('lookup', con, f.where, 'no loop over the children with the name')
            return
        part = [e for e in flat(s.events) if e[0] == 'loop' and e[1].coll and e[1].coll[0] == 'sliceof']
        if part:
            ctx.bad('lookup', con, f.where, 'only a part of the children with the name is followed')
            return
        ctx.und('lookup', con, f.where, 'no loop over the children with the name')
        return
    lp, ex = main
    for p in lp.paths:
        if p.sig is not None and p.sig[0] != 'raise':
            ctx.bad('lookup', con, f.where, 'the loop over the matching children can stop early')
            return
    if ex is not None:
        ctx.bad('lookup', con, f.where, 'the loop over the matching children can stop early')
        return
    el = ('elem', lp.lid, 0)
    for p in lp.paths:
        if p.sig is not None:
            continue
        mm = more + [x for x in (more_names(a, pol) for a, pol in p.facts) if x is not None]
        other = [a for a, pol in p.facts if more_names(a, pol) is None and contains(a, lambda x: x == el)]
        yy = list(streams(p.events))
        cons = [e[1] for e in p.events if e[0] == 'consume']
        if other and not yy:
            ctx.bad('lookup', con, f.where, 'a matching child is left out under a condition')
            continue
        if not mm:
            ctx.und('lookup', con, f.where, 'whether names follow is not decided on this path')
            continue
        if mm[0] is False:
            ok = len(yy) == 1 and yy[0][0] == el and not yy[0][1]
            ctx.ob('lookup', con + ' last name', True if ok else (None if cons else False), f.where, '' if ok else f"yields {len(yy)} things for a matching child")
        else:
            calls = [v for v in cons if rec_lookup(v)]
            if len(calls) != 1:
                ctx.ob('lookup', con + ' longer path', False if not cons and not any(e[0] in ('rec', 'vcall') for e in p.events) else None, f.where,
                       f"{len(calls)} lookups below a matching child")
                continue
            who, path = rec_lookup(calls[0])
            if who != el:
                ctx.bad('lookup', con + ' longer path', f.where, f"continues below {m.show(who)}")
                continue
            if not is_tail(I, path):
                dfn = path[0] in ('sliceof', 'item', 'sym', 'join') and not contains(path, lambda x: isinstance(x, tuple) and x and x[0] in ('unk', 'havoc'))
                ctx.ob('lookup', con + ' longer path', False if dfn else None, f.where, f"continues with {m.show(path)} instead of the remaining names")
                continue
            inner = [e for e in p.events if e[0] == 'loop' and e[1].coll == calls[0]]
            ok = len(inner) == 1 and all(ip.sig is None and [y[0] for y in streams(ip.events)] == [('elem', inner[0][1].lid, 0)] for ip in inner[0][1].paths)
            ctx.ob('lookup', con + ' longer path', ok, f.where, '' if ok else 'what the child finds is not yielded completely')


def rec_lookup(v):
    if v[0] == 'call' and isinstance(v[1], str) and v[1].endswith('get_element_by_id_name') and len(v[2]) == 2:
        return v[2]
    if v[0] == 'mcall' and v[2] == 'get_element_by_id_name':
        a = list(v[3]) + [x for _, x in v[4]]
        if len(a) == 1:
            return v[1], a[0]
    return None


# ---------------------------------------------------------------------------------------------------------------- P08
ELS = ('sym', 'elements')


def p08(ctx):
    ctx.rule('each', 'the awaited operation goes through the collection in order and runs the single operation on every '
                     'item exactly once and to its end')
    ctx.rule('nothing-left', 'no task, callback or unread generator stays behind')
    o = Ops(ctx)
    m = o.m
    seen = set()
    for c in m.family:
        for name, single_op in (('add_elements', 'add_element'), ('remove_elements', 'remove_element')):
            f = m.p.find(c, name)
            if f is None or f.is_abstract:
                continue
            key = (f, m.p.find(c, single_op))
            if key in seen:
                continue
            seen.add(key)
            con = f"{f.qual} for {c.name}"

            def go():
                def rec(I, st, recv, args, kwargs, fr, node, fi):
                    if recv != SELF:
                        return None
                    b = I.bind(fi, [recv] + list(args), kwargs, fr, st, node)
                    env = b[0] if b else {}
                    vals = tuple(env[k] for k in list(env)[1:]) if b else tuple(args)
                    v = ('mcall', recv, fi.name, vals, (), I.new())
                    st.events.append(('op', fi.name, vals, v, I.loc(fr, node)))
                    return [(st, v if fi.is_gen else NONE)]
                I = m.interp(implicit=False, contracts={'fn:' + single_op: rec})
                st = m.start(c)
                st.types[ELS] = 'list'
                st.vers['nonnull'] = (SELF, ELS)
                r = I.entry(f, [ELS], st, recv=SELF)
                ctx.paths += len(r)
                for s, sig in r:
                    bulk_path(ctx, o, I, s, sig, con, f, single_op, m.p.find(c, single_op).is_gen)
            ctx.guard('each', con, go, where=f.where)
    ctx.minimum = 2


def gathered(I, s, loops, src):
    """a collection made of the items first: True if of all of them in order, else what is lost (None: not known)"""
    if src[0] == 'call' and src[1] in (('ext', 'dict.fromkeys'), 'dict.fromkeys'):
        return 'repeated items are lost'
    while src[0] in ('view', 'coll', 'iter') or src[0] == 'list' and len(src[1]) == 1 and src[1][0][0] == 'splice':
        if src[0] == 'view' and src[1] == 'items':
            return None
        src = src[2] if src[0] == 'view' else src[1] if src[0] != 'list' else src[1][0][1]
    o = I.hobj(s, src)
    if o is None or o.kind not in ('dict', 'list'):
        return None
    made = [e[1] for e in loops if any(I.path_ops(e[1], p, src) for p in e[1].paths)]
    if len(made) != 1 or any(e[2] is not None for e in loops if e[1] is made[0]):
        return None
    lp = made[0]
    c = lp.coll
    while c is not None and c[0] in ('coll', 'iter'):
        c = c[1]
    if c != ELS or any(p.sig is not None for p in lp.paths):
        return None
    el = ('elem', lp.lid, 0)
    for p in lp.paths:
        ops = I.path_ops(lp, p, src)
        if o.kind == 'dict':
            if ops and all(x[0] == 'set' and x[2] == el for x in ops):
                return 'of items with the same key only one is left'
            return None
        if not ops:
            return 'some items are left out'
        if len(ops) != 1 or ops[0][0] != 'add' or ops[0][1] != el:
            return None
    return True


def bulk_path(ctx, o, I, s, sig, con, f, op, gen):
    m = o.m
    if sig[0] == 'raise':
        ctx.bad('each', con, f.where, f"raises {exc_name(sig)}")
        return
    bad_ev = [e for e in flat(s.events) if e[0] in ('scheduled', 'task') or (e[0] == 'vcall') or
              (e[0] == 'mcall' and e[2] in ('call_soon', 'call_later', 'create_task', 'run_in_executor', 'call_soon_threadsafe'))]
    if bad_ev:
        aw = [e for e in flat(s.events) if e[0] in ('await', 'gather')]
        if any(e[0] == 'mcall' and e[2].startswith('call_') for e in bad_ev):
            ctx.bad('nothing-left', con, f.where, 'the operation is only scheduled')
            return
        ctx.und('nothing-left', con, f.where, f"schedules {bad_ev[0][0]}")
        return
    ctx.good('nothing-left', con, f.where)
    loops = [e for e in s.events if e[0] == 'loop']
    top_ops = [e for e in s.events if e[0] == 'op']
    emp = any(a[0] == 'empty' and a[1] == ELS and pol or a == ('truthy', ELS) and not pol for a, pol in s.facts)
    cand = []
    for e in loops:
        lp = e[1]
        if any(x[0] == 'op' for p in lp.paths for x in flat(p.events)):
            cand.append(e)
    if not cand and not top_ops:
        if emp:
            ctx.good('each', con + ' empty', f.where)
            return
        ctx.bad('each', con, f.where, f"{op} is never run" if not lazy(sig) else f"{op} is only run when the result is read")
        return
    if len(cand) != 1 or top_ops:
        ctx.und('each', con, f.where, f"{len(cand)} loops")
        return
    lp, ex = cand[0][1], cand[0][2]
    c = lp.coll
    src = c
    while src is not None and src[0] in ('coll', 'iter'):
        src = src[1]
    if src is None:
        ctx.und('each', con, f.where, 'loop without a collection')
        return
    if src[0] == 'rev' or (src[0] == 'call' and src[1] == ('ext', 'reversed')):
        ctx.bad('each', con, f.where, 'goes through the collection backwards')
        return
    if src[0] == 'sliceof':
        ctx.bad('each', con, f.where, 'goes through a part of the collection')
        return
    if src != ELS:
        o2 = I.hobj(s, src)
        if (src[0] == 'call' and src[1] in (('ext', 'set'), ('ext', 'sorted'), ('ext', 'frozenset'))) or src[0] in ('set',) or (o2 is not None and o2.kind == 'set') or \
                (src[0] == 'call' and isinstance(src[1], tuple) and src[1][0] == 'ext' and src[1][1] in ('set', 'sorted', 'frozenset')):
            ctx.bad('each', con, f.where, f"goes through {m.show(src)}: order or repeated items are lost")
            return
        how = gathered(I, s, loops, src)
        if how is not True:
            if how:
                ctx.bad('each', con, f.where, f"goes through {m.show(src)}: {how}")
            else:
                ctx.und('each', con, f.where, f"goes through {m.show(src)}")
            return
    if ex is not None or any(p.sig is not None and p.sig[0] != 'raise' for p in lp.paths):
        ctx.bad('each', con, f.where, 'the loop over the items can stop early')
        return
    el = ('elem', lp.lid, 0)
    for p in lp.paths:
        if p.sig is not None:
            continue
        ops = [e for e in flat(p.events) if e[0] == 'op']
        nested = [e for e in p.events if e[0] == 'loop' and any(x[0] == 'op' for q in e[1].paths for x in flat(q.events))]
        if nested:
            ctx.und('each', con, f.where, 'nested loops')
            continue
        if len(ops) != 1:
            ctx.bad('each', con, f.where, f"{op} is run {len(ops)} times for an item on some path")
            continue
        vals = ops[0][2]
        if op == 'add_element':
            ctx.ob('each', con, vals[:1] == (el,), f.where, f"adds {m.show(vals[0]) if vals else 'nothing'}")
        else:
            def part(v, i):
                return v == ('elem', lp.lid, i) and False or v == ('item', el, C(i), 0) or v[0] == 'item' and v[1] == el and v[2] == C(i) or \
                    v == ('elem', lp.lid, i + 1) or (v[0] == 'unpack' and v[-1] == i)
            okv = len(vals) == 2 and part(vals[0], 0) and part(vals[1], 1)
            if not okv:
                sw = len(vals) == 2 and part(vals[0], 1) and part(vals[1], 0)
                ctx.ob('each', con, False if sw or len(vals) != 2 or vals[1] == NONE or vals[0] == C('') else None, f.where, f"removes by {', '.join(m.show(x) for x in vals)}")
                continue
            if gen:
                full = [e for e in p.events if e[0] == 'consume' and e[1] == ops[0][3]]
                inner = [e for e in p.events if e[0] == 'loop' and e[1].coll == ops[0][3]]
                stop = any(q.sig is not None and q.sig[0] != 'raise' for e in inner for q in e[1].paths) or any(e[2] is not None for e in inner)
                if not full and not inner:
                    ctx.bad('each', con, f.where, 'the removal of an item is not run to its end')
                    continue
                if stop:
                    ctx.bad('each', con, f.where, 'the removal of an item is stopped early')
                    continue
            ctx.good('each', con, f.where)


def lazy(sig):
    return sig[0] == 'return' and sig[1][0] in ('o', 'iter')
