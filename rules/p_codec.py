"""P24: reader and writer of graph messages agree (symbolic round trip).  P25: every message describes the current graph."""
from sa.interp import NONE, TRUE, FALSE, C, is_c, contains, Frame
from sa.loader import AnalysisError, ClassInfo
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from .p_query import emissions
from .p_runs import Runs, carried
from . import worklist as W

ONE, TWO = ('sym', 'start'), ('sym', 'start2')
INDEX = ('node', 'edge', 'val', 'ival', 'dim', 'depth')


def rec(name):
    """contract of a method: only its call is noted"""
    def f(I, st, recv, args, kw, fr, node, fi=None):
        vals = list(args)
        if fi is not None:
            names = [a.arg for a in fi.node.args.args][1:]
            vals += [kw[n] for n in names[len(args):] if n in kw]
        else:
            vals += list(kw.values())
        st.events.append(('do', name, recv, tuple(vals), I.loc(fr, node)))
        return [(st, NONE)]
    return f


def index_of(name):
    def f(I, st, recv, args, kw, fr, node, fi=None):
        a = tuple(list(args) + list(kw.values()))
        back = {'ival': 'val', 'dim': 'node', 'depth': 'edge'}.get(name)
        if back and len(a) == 1 and a[0][0] == 'mcall' and a[0][2] == back:
            return [(st, a[0][3][0])]                       # an index maps back to what it was made for (P21)
        return [(st, ('mcall', recv, name, a, ()))]
    return f


def encode(I, st, recv, args, kw, fr, node):
    v = ('mcall', recv, 'encode', tuple(args), tuple(sorted(kw.items())))
    st.types[v] = 'bytes'
    return [(st, v)]


def norm_codec(args, kw):
    d = dict(kw)
    c = args[0] if args else d.get('encoding', C('utf-8'))
    return c[2].lower().replace('_', '-').replace('utf8', 'utf-8') if is_c(c) and isinstance(c[2], str) else c


def decode(I, st, recv, args, kw, fr, node):
    if recv[0] == 'mcall' and recv[2] == 'encode' and norm_codec(recv[3], recv[4]) == norm_codec(args, tuple(kw.items())):
        return [(st, recv[1])]
    return [(st, ('mcall', recv, 'decode', tuple(args), tuple(sorted(kw.items()))))]


class Codec:
    """A message codec whose transport is left out: what is dumped is what will be loaded."""
    def __init__(self, ctx, m, cls, types=None, walk=False):
        p = m.p
        self.ctx, self.m, self.p = ctx, m, p
        self.N, self.E, self.R, self.V = (p.cls(k) for k in ('HypergraphNode', 'HypergraphEdge', 'HypergraphRelation', 'ValueNode'))
        self.H, self.T = p.cls('IndexHomomorphismGraphTensor'), p.cls('HypergraphTraversal')
        self.sent = []
        self.walks = []

        def dumps(I, st, args, kw, fr, node):
            self.sent.append(args[0])
            return [(st, ('msg', len(self.sent) - 1))]

        def loads(I, st, args, kw, fr, node):
            if args and args[0][0] == 'msg':
                return [(st, self.sent[args[0][1]])]
            return None

        def nothing(I, st, recv, args, kw, fr, node, fi):
            st.events.append(('do', 'index', recv, tuple(args), I.loc(fr, node)))
            return [(st, I.alloc(st, 'future', data=NONE, node=node))]

        def traverse(I, st, recv, args, kw, fr, node, fi):
            a = tuple(args) or tuple(kw.values())
            st.events.append(('do', 'walk', recv, a, I.loc(fr, node)))
            cur = [st]
            for v in ('B1', 'B2'):
                nxt = []
                for s in cur:
                    f = I.hobj(s, recv).fields.get(self.vfield) or s.fields.get((recv, self.vfield))
                    for s2, _ in I.call(f, [('sym', v)], {}, s, fr, node):
                        nxt.append(s2)
                cur = nxt
            return [(s, I.alloc(s, 'future', data=NONE, node=node)) for s in cur]
        con = {'ext:cbor2.dumps': dumps, 'ext:cbor2.loads': loads, 'm:encode': encode, 'm:decode': decode}
        for n in ('add_element', 'connect', 'unary_connect', 'update_values', 'register'):
            con['fn:' + n] = con['m:' + n] = rec(n)
        plain = con['fn:update_values']

        def update(I, st, recv, args, kw, fr, node, fi=None):
            if any(f.name == '__init__' and f.cls is not None and self.V in p.mro(f.cls) for f in I.stack):
                return None                  # part of the construction
            return plain(I, st, recv, args, kw, fr, node, fi)
        con['fn:update_values'] = update
        for n in INDEX:
            f = p.find(self.H, n)
            if f is None:
                raise AnalysisError(f"{self.H.name}.{n} not found")
            con[f] = con['m:' + n] = index_of(n)
        con[p.find(self.H, 'execute')] = nothing
        con[p.find(self.H, 'reset_from_bijection')] = rec('bijection')
        con[p.find(self.T, 'execute')] = traverse
        # the field in which a traversal keeps its visitor
        I0 = m.interp(implicit=False)
        st, names = W.construct(I0, m, self.T)
        fs = {v: a for (b, a), v in st[0].fields.items() if b == SELF}
        self.vfield, self.hfield, self.dfield = fs.get(('sym', 'visitor_func')), fs.get(('sym', 'homomorphism')), fs.get(('sym', 'depth'))
        self.runs = Runs(ctx, m, cls, types={'context': self.N, 'start': self.N, 'start2': self.N, **(types or {})}, contracts=con)
        self.I = self.runs.I

    def attr(self, st, obj, name, fi):
        """value of an attribute, property or getter of an element"""
        fr = Frame(0, fi.mod, fi.cls, fi)
        self.I.raised.append([])
        r = self.I.getattr(st.fork(), obj, name, fr, fi.node)
        self.I.raised.pop()
        if len(r) != 1:
            return None, st
        s, v = r[0]
        return v, s

    def got(self, st, obj, name, fi):
        """outcome of a getter without arguments"""
        v, s = self.attr(st, obj, name, fi)
        if v is None:
            return None, st
        fr = Frame(0, fi.mod, fi.cls, fi)
        self.I.raised.append([])
        r = self.I.call(v, [], {}, s, fr, fi.node)
        self.I.raised.pop()
        return (r[0][1], r[0][0]) if len(r) == 1 else (None, st)

    def owner(self, lid):
        """the element whose children a loop goes through"""
        lp = self.I.loops.get(lid)
        c = W.strip(lp.coll) if lp is not None and lp.coll is not None else None
        if c is not None and c[0] == 'view' and c[1] == 'values' and c[2][0] == 'f' and c[2][2] == '_sub_elements':
            return c[2][1]
        return None

    def canon(self, t):
        """children of X have X as their parent; an enumeration made from the value of a member is the member"""
        if not isinstance(t, tuple):
            return t
        t = tuple(self.canon(x) for x in t)
        if t[:1] == ('f',) and len(t) == 4 and t[2] == '_parent' and isinstance(t[1], tuple) and t[1][:1] == ('elem',):
            o = self.owner(t[1][1])
            if o is not None:
                return o
        if t[:1] == ('toenum',) and t[2][:1] == ('f',) and t[2][2] in ('value', '_value_'):
            return t[2][1]
        if t[:1] == ('toenum',) and t[2][:1] == ('call',) and t[2][1] == 'int' and len(t[2][2]) == 1:
            return t[2][2][0]
        if t[:1] == ('toenum',) and t[2][:1] in (('attr',),) and t[2][2] in ('value', '_value_'):
            return t[2][1]
        return t

    def fresh(self, t, chain):
        """elements of the loop that built a list, seen from the loop that reads it"""
        og = self.I.origin
        here = {lp.lid for lp, q in chain}
        back = {og.get(l, l): l for l in here}

        def go(x):
            if not isinstance(x, tuple):
                return x
            if x[:1] == ('elem',) and len(x) == 3 and x[1] not in here and og.get(x[1], x[1]) in back:
                return ('elem', back[og.get(x[1], x[1])], x[2])
            return tuple(go(y) for y in x)
        return go(t)

    def copied(self, st, v, depth=0):
        """what a list was copied from, item by item"""
        while depth < 8:
            depth += 1
            if v[0] == 'coll' or (v[0] == 'mcall' and v[2] == 'copy' and not v[3]) or (v[0] == 'sliceof' and all(x in (NONE, C(0)) for x in v[2:])):
                v = v[1]
                continue
            cont = None
            if v[0] == 'o':
                cont = v
            elif v[0] == 'list' and len(v[1]) == 1 and v[1][0][0] == 'each':
                lp = self.I.loops.get(v[1][0][1])
                cont = v[1][0][2]
                w = self.one_each(lp, cont)
                if w is None:
                    return v
                v = w
                continue
            elif v[0] == 'list' and len(v[1]) == 1 and v[1][0][0] == 'splice':
                v = v[1][0][1]
                continue
            if cont is None:
                return v
            ops = st.ops.get(cont, ())
            if len(ops) == 1 and ops[0][0] == 'iter':
                w = self.one_each(self.I.loops.get(ops[0][1]), cont)
                if w is None:
                    return v
                v = w
            elif len(ops) == 1 and ops[0][0] == 'splice':
                v = ops[0][1]
            else:
                return v
        return v

    def one_each(self, lp, cont):
        if lp is None or lp.coll is None or len(lp.paths) != 1 or lp.paths[0].facts or lp.paths[0].sig is not None:
            return None
        o = self.I.path_ops(lp, lp.paths[0], cont)
        if len(o) == 1 and o[0][0] == 'add' and o[0][1] in (('elem', lp.lid, 0), ('item', lp.coll, ('idx', ('elem', lp.lid, 0)), 0)):
            return lp.coll
        return None


def agree(v, want):
    """True / False / None (not understood)"""
    if v == want:
        return True
    if v is None or contains(v, lambda x: isinstance(x, tuple) and x[:1] in (('unk',), ('call',), ('havoc',), ('attrx',))):
        return None
    return False


def live(I, facts, env):
    """may all facts hold? env: atom -> truth or None; returns (possible, undetermined atoms)"""
    und = []
    for a, pol in facts:
        t = env(a)
        if t is None:
            und.append((a, pol))
        elif t != pol:
            return False, []
    return True, und


def p24(ctx):
    ctx.rule('fields', 'the reader builds each element with the identifier, name, qualified name, direction, endpoint and values the writer took from it')
    ctx.rule('links', 'every element is put into its parent once, every relation is connected to its endpoint once')
    ctx.rule('order', 'what an element refers to is there before it')
    ctx.rule('root', 'the decoded graph is the decoded context')
    ctx.rule('index', 'the decoded index holds the pairs of identifiers and numbers that were sent, in the right table')
    ctx.rule('values', 'an update of values reaches the value node it was sent for, with the values it had')
    m = Model(ctx)
    G = ctx.prog.cls('GraphTensorCbor')
    f = ctx.prog.find(G, 'create_graph')
    if f is None:
        raise AnalysisError('GraphTensorCbor.create_graph not found')
    ctx.guard('fields', G.name, roundtrip, ctx, m, G, f, where=f.where)
    ctx.minimum = 12


def all_paths(I, events, chain=()):
    """(events of one path through loops, chain, state) for the top level and every loop path"""
    yield events, chain
    for e in events:
        if e[0] == 'loop':
            for q in e[1].paths:
                yield from all_paths(I, q.events, chain + ((e[1], q),))


KINDS = ('HypergraphNode', 'HypergraphEdge', 'HypergraphRelation', 'ValueNode')


def roundtrip(ctx, m, G, f):
    cd = Codec(ctx, m, G)
    R, I, p = cd.runs, cd.I, m.p
    n = 0
    for s, ret in R.seq(R.states, [('update_context', [ONE]), ('update_coo', []), ('full_msg', [])]):
        msg = ret[-1][1]
        if msg[0] != 'msg':
            ctx.und('fields', G.name, f.where, f"the message is {m.show(msg)}")
            return
        base = s.fork()
        base.events = []
        for s2, sig in R.call(base, 'create_graph', [msg]):
            ctx.paths += 1
            if sig[0] != 'return':
                if impossible_exit(cd, s2):
                    continue
                ctx.bad('fields', G.name, f.where, f"decoding raises {exc_name(sig)}")
                continue
            n += 1
            decoded(ctx, m, cd, s2, sig[1], f)
            updated(ctx, m, cd, s2, G, f)
    if not n:
        ctx.und('fields', G.name, f.where, 'no path through encoding and decoding')


def impossible_exit(cd, s):
    """the path rests on a reference to an element that is not part of the message, or on a missing child"""
    return any(a[0] == 'in' and not pol for a, pol in s.facts)


def decoded(ctx, m, cd, s, out, f):
    I, p = cd.I, m.p
    # which container caches the elements by identifier
    built = {}                      # kind or 'context' -> [(object, subject, chain, state, events)]
    dels = set()

    def facts_live(facts):
        def env(a):
            if a[0] == 'isinst' and isinstance(a[2], ClassInfo):
                return None
            if a[0] == 'is' and NONE in a[1:3]:
                o = a[1] if a[2] == NONE else a[2]
                if o[0] in ('item', 'elem', 'o'):
                    return False
            if a[0] in ('in', 'eq') and contains(a, lambda x: x == ('f', ('f', ONE, '_parent', 0), '_uuid', 0)):
                return False           # the parent of the context is not part of the message
            if a[0] == 'in' and is_c(a[1]) and not isinstance(a[1][2], bytes):
                return False           # no identifier
            if a[0] == 'in' and a[2][0] == 'o' and s.heap.get(a[2][1]) is not None and s.heap[a[2][1]].kind == 'dict':
                return True            # references stay within the message; whether it is there in time is rule 'order'
            return None
        return live(I, facts, env)
    groups = []
    if not facts_live(s.facts)[0]:
        return
    for evs, chain in all_paths(I, s.events):
        fs = tuple(x for lp, q in chain for x in q.facts)
        ok, und = facts_live(fs)
        if not ok:
            continue
        groups.append((evs, chain, fs))
    news = []
    for evs, chain, fs in groups:
        st = chain[-1][1].st if chain else s
        for e in evs:
            if e[0] == 'new' and e[2].name in KINDS:
                news.append((e[1], e[2], chain, fs, st, evs, e[-1]))
    seen = {}
    for o, c, chain, fs, st, evs, loc in news:
        uid, _ = cd.attr(st, o, 'uuid', f)
        uid = cd.canon(uid) if uid is not None else None
        where = where_of(loc)
        con = f"{c.name} of the {'context' if not chain else 'children' if c.name != 'HypergraphRelation' else 'edges'}"
        if uid is None or uid[0] != 'f' or uid[2] != '_uuid':
            nm, _ = cd.attr(st, o, 'id_name', f)
            sw = uid is not None and not contains(uid, lambda x: isinstance(x, tuple) and x[:1] in (('call',), ('unk',), ('havoc',)))
            ctx.ob('fields', con + ' uuid', False if sw else None, where, f"the identifier is set to {m.show(uid) if uid else '?'}")
            continue
        X = uid[1]
        kind = kind_of(cd, X, fs)
        key = (X == ONE, c.name)
        seen.setdefault(key, []).append((o, X, chain, st))
        if kind is not None and kind is not c and not p.issub(kind, c):
            ctx.bad('fields', con, where, f"a {kind.name} is decoded as {c.name}")
            continue
        if X == ONE and chain:
            ctx.und('fields', con, where, 'the context is decoded in a loop')
            continue
        for a, b in (('id_name', 'id_name'), ('progenitor_qualified_name', 'qualified_name')):
            v, _ = cd.attr(st, o, a, f)
            w, _ = cd.attr(st, X, b, f)
            v, w = cd.canon(v) if v else v, cd.canon(w) if w else w
            ok = agree(v, w)
            ctx.ob('fields', f"{con} {b}", ok, where, '' if ok else f"{b} is set to {m.show(v) if v else '?'}")
        if c.name == 'HypergraphRelation':
            v, _ = cd.attr(st, o, 'direction', f)
            w, _ = cd.attr(st, X, 'direction', f)
            v, w = cd.canon(v) if v else v, cd.canon(w) if w else w
            ok = agree(v, w)
            ctx.ob('fields', con + ' direction', ok, where, '' if ok else f"direction is set to {m.show(v) if v else '?'}")
            v, _ = cd.attr(st, o, 'endpoint', f)
            w, _ = cd.attr(st, X, 'endpoint', f)
            ref(ctx, m, cd, 'fields', con + ' endpoint', v, w, st, where)
        if c.name == 'ValueNode':
            v, s3 = cd.got(st, o, 'get_values', f)
            w, s4 = cd.got(st, X, 'get_values', f)
            v = cd.copied(s3, v) if v else v
            w = cd.copied(s4, w) if w else w
            v = cd.fresh(v, chain) if v else v
            ok = agree(cd.canon(v) if v else v, cd.canon(w) if w else w)
            ctx.ob('fields', con + ' values', ok, where, '' if ok else f"values are set to {m.show(v)[:80] if v else '?'}")
        # ---- parent and connection
        puts = [e for e in evs if e[0] == 'do' and e[1] in ('add_element', 'register') and (e[3][:1] == (o,) if e[1] == 'add_element' else e[2] == o)]
        if X != ONE:
            w, _ = cd.attr(st, X, 'parent', f)
            if not puts:
                ctx.bad('links', con + ' parent', where, 'it is put nowhere')
            elif len(puts) > 1:
                ctx.bad('links', con + ' parent', where_of(puts[1][-1]), 'it is put twice')
            else:
                par = puts[0][2] if puts[0][1] == 'add_element' else puts[0][3][0]
                ref(ctx, m, cd, 'links', con + ' parent', par, cd.canon(w), st, where_of(puts[0][-1]))
                before(ctx, m, cd, con, par, st, s, X, chain, where)
            if c.name == 'HypergraphRelation':
                lk = [e for e in evs if e[0] == 'do' and e[1] == 'connect' and e[3][:1] == (o,)]
                if len(lk) != 1:
                    ctx.bad('links', con + ' endpoint', where, 'it is connected to nothing' if not lk else 'it is connected twice')
                else:
                    w, _ = cd.attr(st, X, 'endpoint', f)
                    ref(ctx, m, cd, 'links', con + ' endpoint', lk[0][2], w, st, where_of(lk[0][-1]))
                    before(ctx, m, cd, con + ' endpoint', lk[0][2], st, s, X, chain, where)
        elif puts:
            ctx.bad('links', con + ' parent', where, 'the context is put into an element of the message')
    for key in ((True, 'HypergraphNode'), (False, 'HypergraphNode'), (False, 'HypergraphEdge'), (False, 'HypergraphRelation'), (False, 'ValueNode')):
        l = seen.get(key, [])
        name = key[1] + (' of the context' if key[0] else '')
        loops = {tuple(lp.lid for lp, q in ch) for _, _, ch, _ in l}
        if not l:
            if not any(not k[0] and key[1] == k[1] for k in seen) and not any(c.name == key[1] for _, c, *_ in news):
                ctx.bad('fields', name, f.where, 'it is not decoded')
        elif len(loops) > 1:
            ctx.bad('fields', name, f.where, 'it is decoded twice')
    # ---- root and index
    if out[0] == 'tup' and len(out[1]) == 2:
        ra, rh = out[1]
    else:
        ctx.und('root', 'create_graph', f.where, m.show(out))
        return
    rv = resolve(cd, ra, facts_live)
    ctxo = [o for o, X, ch, st in seen.get((True, 'HypergraphNode'), [])]
    ctx.ob('root', 'create_graph', True if rv in ctxo else None if rv is None or rv[0] == 'havoc' else False, f.where,
           '' if rv in ctxo else f"gives {m.show(ra)}")
    bij = [e for e in flat(s.events) if e[0] == 'do' and e[1] == 'bijection']
    if len(bij) != 1:
        ctx.und('index', 'create_graph', f.where, f"{len(bij)} tables set up")
        return
    b = bij[0]
    ctx.ob('index', 'create_graph', b[2] == rh, f.where, '' if b[2] == rh else 'the index given back is not the one set up')
    rl = roles(m, cd.H)
    if rl is None:
        ctx.und('index', 'roles', f.where, 'reset_from_bijection')
        return
    for pos, acc in rl.items():
        L = b[3][pos] if pos < len(b[3]) else None
        kind = {'node': 'HypergraphNode', 'edge': 'HypergraphEdge', 'val': 'ValueNode'}[acc]
        got = {}
        if L is None or L[0] != 'o':
            ctx.und('index', f"table {acc}", f.where, m.show(L) if L else '?')
            continue
        for o, chain, facts in emissions(I, s.ops.get(L, ()), L):
            if not facts_live(facts)[0]:
                continue
            st = chain[-1][1].st if chain else s
            v = cd.canon(I.freeze(st, o[1])) if o[0] in ('add', 'sadd') else None
            if v is None or v[0] != 'tup' or len(v[1]) != 2 or v[1][0][0] != 'f' or v[1][0][2] != '_uuid':
                bad = v is not None and v[0] == 'tup' and not contains(v, lambda x: isinstance(x, tuple) and x[:1] in (('call',), ('unk',), ('havoc',)))
                ctx.ob('index', f"table {acc}", False if bad else None, f.where, f"entry {m.show(v) if v else o[0]}")
                continue
            X = v[1][0][1]
            i = v[1][1]
            k = kind_of(cd, X, facts)
            ok = i[0] == 'mcall' and i[2] == acc and i[3] == (v[1][0],) and (k is None or p.issub(k, p.cls(kind)))
            ctx.ob('index', f"table {acc}", ok, f.where, '' if ok else f"{m.show(v[1][0])} of a {k.name if k else '?'} gets {m.show(i)}")
            got[X == ONE] = got.get(X == ONE, 0) + 1
        want = {False, True} if acc == 'node' else {False}
        miss = want - set(got)
        if miss:
            ctx.bad('index', f"table {acc}", f.where, f"the {'context' if True in miss else kind} is left out")


def kind_of(cd, X, facts):
    if X in (ONE, TWO):
        return cd.N
    ks = [a[2] for a, pol in facts if pol and a[0] == 'isinst' and a[1] == X and isinstance(a[2], ClassInfo)]
    for k in ks:
        if all(cd.p.issub(k, j) for j in ks):
            return k
    return None


def ref(ctx, m, cd, rule, con, v, want, st, where):
    """v must be what the cache holds for the identifier of `want`"""
    if v is None or want is None:
        ctx.und(rule, con, where, 'not found')
        return
    v = cd.canon(v)
    want = cd.canon(want)
    if v[0] == 'item' and v[1][0] == 'o':
        k = v[2]
        ok = k == ('f', want, '_uuid', 0) or (k[0] == 'f' and k[2] == '_uuid' and k[1] == want)
        if not ok:
            ok = agree(k, want)
        ctx.ob(rule, con, ok, where, '' if ok else f"it is the element with identifier {m.show(k)}, not that of {m.show(want)}")
    elif v[0] == 'o':
        u, _ = cd.attr(st, v, 'uuid', next(iter(cd.N.methods.values())))
        u = cd.canon(u) if u else u
        ok = u is not None and u[0] == 'f' and u[2] == '_uuid' and u[1] == want
        ctx.ob(rule, con, ok if u is not None else None, where, '' if ok else f"it is the element with identifier {m.show(u) if u else '?'}")
    elif v == NONE:
        ctx.bad(rule, con, where, 'it is None')
    else:
        ctx.und(rule, con, where, m.show(v)[:100])


def before(ctx, m, cd, con, v, st, s, X, chain, where):
    """the cache has what is looked up by the time of the look-up"""
    if v[0] != 'item' or v[1][0] != 'o' or not chain:
        return
    D = v[1]
    k = cd.canon(v[2])
    if k[0] != 'f' or k[2] != '_uuid':
        return
    Y = k[1]
    have = chain[0][0].head.ops.get(D, ())
    # during the very loop only what earlier steps put is there
    if Y in (ONE,):
        ok = any(o[0] == 'set' and cd.canon(o[1]) == ('f', ONE, '_uuid', 0) for o in have)
        what = 'the context'
    else:
        kinds = ['HypergraphNode'] if con.endswith('endpoint') else ['HypergraphEdge']
        ok = False
        for o in have:
            if o[0] == 'iter':
                for e, ch, fs in emissions(cd.I, (o,), D):
                    if e[0] == 'set':
                        kk = cd.canon(e[1])
                        if kk[0] == 'f' and kk[2] == '_uuid':
                            t = kind_of(cd, kk[1], fs)
                            if t is not None and t.name in kinds:
                                ok = True
        what = 'its ' + ('endpoint' if con.endswith('endpoint') else 'edge')
    ctx.ob('order', con, ok, where, '' if ok else f"{what} is not in the cache by then")


def resolve(cd, v, facts_live):
    I = cd.I
    n = 0
    while v is not None and v[0] == 'havoc' and n < 10:
        n += 1
        lp = I.loops.get(v[1])
        if lp is None:
            return None
        vals = set()
        for q, nx in zip([q for q in lp.paths if q.sig is None], lp.next):
            if not facts_live(q.facts)[0]:
                continue
            vals.add(nx.get(v[2], v))
        vals.discard(v)
        if vals:
            return vals.pop() if len(vals) == 1 else v
        v = lp.init.get(v[2])
    return v


def roles(m, H):
    """position of the argument of reset_from_bijection -> accessor whose table it fills"""
    p = m.p
    f = p.find(H, 'reset_from_bijection')
    names = [a.arg for a in f.node.args.args][1:]
    I = m.interp(implicit=False)
    out = {}
    args = [('sym', 'arg%d' % i) for i in range(len(names))]
    for s, sig in I.entry(f, args, m.start(H), recv=SELF):
        if sig[0] != 'return':
            continue
        for acc in ('node', 'edge', 'val'):
            g = p.find(H, acc)
            for s2, sg in I.entry(g, [('sym', 'u')], s.fork(), recv=SELF):
                if sg[0] == 'return' and sg[1][0] == 'item':
                    D = sg[1][1]
                    for o in s2.ops.get(D, ()):
                        if o[0] == 'iter':
                            c = I.loops[o[1]].coll
                            c = W.strip(c) if c is not None else None
                            if c in args:
                                if out.get(args.index(c), acc) != acc:
                                    return None
                                out[args.index(c)] = acc
    return out if len(set(out.values())) == 3 else None


def updated(ctx, m, cd, s0, G, f):
    """values sent later reach the decoded value nodes"""
    I, p, R = cd.I, m.p, cd.runs
    g = p.find(G, 'from_msg_update_values')
    if g is None or p.find(G, 'msg_value_update') is None:
        raise AnalysisError('msg_value_update / from_msg_update_values not found')
    for s, ret in R.seq([s0.fork()], [('msg_value_update', [])]):
        msg = ret[-1][1]
        if msg[0] != 'msg':
            ctx.und('values', G.name, g.where, m.show(msg))
            continue
        base = s.fork()
        base.events = []
        for s2, sig in R.call(base, 'from_msg_update_values', [msg]):
            ctx.paths += 1
            if sig[0] != 'return':
                if not impossible_exit(cd, s2):
                    ctx.bad('values', G.name, g.where, f"raises {exc_name(sig)}")
                continue
            n = 0
            for evs, chain in all_paths(I, s2.events):
                fs = tuple(x for lp, q in chain for x in q.facts)
                ks = [(lp, q) for lp, q in chain if cd.owner(lp.lid) == ONE]
                isv = any(pol and a[0] == 'isinst' and a[2] is cd.V for a, pol in fs)
                ups = [e for e in evs if e[0] == 'do' and e[1] == 'update_values']
                if not ks or not isv:
                    if ups:
                        ctx.und('values', G.name, where_of(ups[0][-1]), 'values of what?')
                    continue
                if any(a[0] == 'in' and not pol for a, pol in fs):
                    continue
                X = ('elem', ks[0][0].lid, 0)
                n += 1
                if len(ups) != 1:
                    ctx.bad('values', G.name + ' receiver', g.where, 'a value node is not updated' if not ups else 'a value node is updated twice')
                    continue
                e = ups[0]
                st = chain[-1][1].st
                r = cd.canon(e[2])
                ok = None
                if r[0] == 'item':
                    ok = r[2] == ('f', X, '_uuid', 0)
                    if not ok:
                        ok = agree(r[2], ('f', X, '_uuid', 0))
                ctx.ob('values', G.name + ' receiver', ok, where_of(e[-1]), '' if ok else f"the values go to {m.show(r)}")
                v = cd.fresh(cd.copied(st, e[3][0]), chain) if e[3] else None
                w, s4 = cd.got(st, X, 'get_values', f)
                w = cd.copied(s4, w) if w else w
                ok = agree(v, w)
                ctx.ob('values', G.name + ' values', ok, where_of(e[-1]), '' if ok else f"the values are {m.show(v) if v else '?'}")
            if not n:
                ctx.und('values', G.name, g.where, 'no value node is reached')


# ---------------------------------------------------------------------------------------------------------------- P25
MESSAGES = ('node_index_list', 'edge_index_list', 'msg_relation_index_list', 'msg_value_nodes', 'msg_value_node_update',
            'msg_tensor_value_updates')


def p25(ctx):
    ctx.rule('sections', 'a message has one entry for the context and for each node, edge, relation and value node of it')
    ctx.rule('tensor', 'each weighted connection found by the walk is in each of the three lists once')
    ctx.rule('walk', 'the walk starts at the current context, with the current index and the depth asked for')
    ctx.rule('index', 'the index is made anew for the context given, with the context itself and everything below')
    ctx.rule('update', 'an update message has one entry for each value node')
    ctx.rule('fresh', 'nothing of an earlier context, update or message is met again')
    m = Model(ctx)
    p = ctx.prog
    G, T = p.cls('GraphTensorCbor'), p.cls('CoordinateObjectTransformer')
    for c, ns in ((G, ('update_context', 'update_coo', 'full_msg', 'msg_value_update')), (T, ('reset', 'execute') + MESSAGES)):
        for n in ns:
            if p.find(c, n) is None:
                raise AnalysisError(f"{c.name}.{n} not found")
    f = p.find(G, 'full_msg')
    ctx.guard('sections', G.name, full, ctx, m, G, f, where=f.where)
    f = p.find(T, 'execute')
    ctx.guard('fresh', T.name, fresh, ctx, m, T, f, where=f.where)
    f = p.find(G, 'full_msg')
    ctx.guard('fresh', G.name, fresh_cbor, ctx, m, G, f, where=f.where)
    ctx.minimum = 12


def items_of(I, s, v):
    o = I.hobj(s, v)
    if o is not None and o.kind == 'dict':
        return [x[2] for x in s.ops.get(v, ()) if x[0] == 'set']
    return I.known_items(s, v)


class Counter:
    """How often an element of a kind gets an entry in a list."""
    def __init__(self, cd, s):
        self.cd, self.I, self.p, self.s = cd, cd.I, cd.p, s

    def env(self, subj):
        def f(a):
            if a[0] == 'isinst' and isinstance(a[2], ClassInfo) and a[1] in subj:
                k = subj[a[1]]
                return self.p.issub(k, a[2])
            if a[0] == 'is' and NONE in a[1:3]:
                o = a[1] if a[2] == NONE else a[2]
                if o in subj or o[0] in ('elem',):
                    return False
            if a[0] == 'in' and a[2][0] == 'o':
                return True
            return None
        return f

    def entry(self, o, st, X):
        if o[0] not in ('add', 'sadd'):
            return None
        v = self.cd.canon(self.I.freeze(st, o[1]))
        if v[0] not in ('tup', 'list'):
            return None
        return any(x == ('f', X, '_uuid', 0) or x[0] == 'mcall' and x[3] == (('f', X, '_uuid', 0),) for x in v[1])

    def element(self, L, kinds):
        """outcomes for one element: [(count, undetermined facts, reason)]; kinds = kind of each level below the context"""
        return self.level(self.s.ops.get(L, ()), L, ONE, kinds, {}, self.s)

    def level(self, ops, L, owner, kinds, subj, st):
        tot = [(0, (), '')]
        for o in ops:
            if o[0] == 'iter':
                lp = self.I.loops[o[1]]
                res = self.loop(lp, L, owner, kinds, subj)
                if res is None:
                    res = self.made_first(lp, L, owner, kinds, subj, st)
                if res is None:
                    return None
                tot = [(a + b, fa + fb, ra or rb) for a, fa, ra in tot for b, fb, rb in res]
            elif o[0] == 'splice':
                return None
            elif o[0] not in ('add', 'sadd'):
                return None
            if len(tot) > 200:
                return None
        return tot

    def loop(self, lp, L, owner, kinds, subj):
        own = self.cd.owner(lp.lid)
        if own is None or own != owner:
            return None if self.emits(lp, L) else [(0, (), '')]
        X = ('elem', lp.lid, 0)
        sub = {**subj, X: kinds[0]}
        out = []
        for q in lp.paths:
            ok, und = live(self.I, q.facts, self.env(sub))
            if not ok:
                continue
            und = tuple(und)
            if q.sig is not None and q.sig[0] != 'continue':
                out.append((0, und, 'the loop is left early'))
                continue
            ops = self.I.path_ops(lp, q, L)
            if len(kinds) == 1:
                n = 0
                for o in ops:
                    if o[0] == 'iter':              # entries of something below this element
                        continue
                    e = self.entry(o, q.st, X)
                    if not e:
                        return None
                    n += 1
                out.append((n, und, ''))
            else:
                r = self.level([o for o in ops if o[0] == 'iter'], L, X, kinds[1:], sub, q.st)
                if r is None:
                    return None
                out += [(n, und + f, w) for n, f, w in r]
        return out

    def made_first(self, lp, L, owner, kinds, subj, st):
        """entries made from a collection that was filled with the elements before"""
        src = lp.coll
        while src is not None and (src[0] in ('view', 'coll', 'iter') or src[0] == 'list' and len(src[1]) == 1 and src[1][0][0] in ('splice', 'each')):
            if src[0] == 'view' and src[1] == 'items':
                return None
            src = src[2] if src[0] == 'view' else src[1] if src[0] != 'list' else src[1][0][1] if src[1][0][0] == 'splice' else ('loop', src[1][0][1])
        if src is None or src[0] != 'o':
            return None
        o = self.I.hobj(st, src)
        ops = st.ops.get(src, ())
        if o is None or o.kind not in ('dict', 'list', 'set') or len(ops) != 1 or ops[0][0] != 'iter':
            return None
        lp1 = self.I.loops[ops[0][1]]
        if self.cd.owner(lp1.lid) != owner:
            return None
        Y, X = ('elem', lp1.lid, 0), ('elem', lp.lid, 0)
        first = []
        for q in lp1.paths:
            ok, und = live(self.I, q.facts, self.env({**subj, Y: kinds[0]}))
            if not ok:
                continue
            if q.sig is not None and q.sig[0] != 'continue':
                first.append((0, tuple(und), 'the loop is left early'))
                continue
            n = 0
            for x in self.I.path_ops(lp1, q, src):
                if x[0] == 'set' and x[2] == Y:
                    if x[1] != ('f', Y, '_uuid', 0):
                        if contains(x[1], lambda t: isinstance(t, tuple) and t[:1] in (('unk',), ('call',), ('mcall',), ('havoc',))):
                            return None
                        first.append((0, tuple(und), 'of those with the same key all but one are left out'))
                        break
                    n += 1
                elif x[0] in ('add', 'sadd') and x[1] == Y:
                    n += 1
                else:
                    return None
            else:
                first.append((n, tuple(und), ''))
        if any(why for n, f, why in first):
            return first
        second = []
        for q in lp.paths:
            ok, und = live(self.I, q.facts, self.env({**subj, X: kinds[0]}))
            if not ok:
                continue
            if q.sig is not None and q.sig[0] != 'continue':
                second.append((0, tuple(und), 'the loop is left early'))
                continue
            lops = self.I.path_ops(lp, q, L)
            if len(kinds) > 1:
                r = self.level([x for x in lops if x[0] == 'iter'], L, X, kinds[1:], {**subj, X: kinds[0]}, q.st)
                if r is None:
                    return None
                second += [(n, tuple(und) + f, w) for n, f, w in r]
                continue
            if not all(self.entry(x, q.st, X) for x in lops if x[0] != 'iter'):
                return None
            second.append((sum(x[0] != 'iter' for x in lops), tuple(und), ''))
        return [(a * b, fa + fb, w) for a, fa, _ in first for b, fb, w in second]

    def emits(self, lp, L):
        return any(True for q in lp.paths for o in self.I.path_ops(lp, q, L) if o[0] != 'take')


def check_counts(ctx, m, rule, con, where, cnt, lists, kinds, want):
    tot = [(0, (), '')]
    for L in lists:
        r = cnt.element(L, kinds)
        if r is None:
            ctx.und(rule, con, where, 'how the list is built')
            return
        tot = [(a + b, fa + fb, ra or rb) for a, fa, ra in tot for b, fb, rb in r]
        if len(tot) > 400:
            ctx.und(rule, con, where, 'paths')
            return
    for n, fs, why in tot:
        ctx.paths += 1
        if n == want and not why:
            continue
        strange = [a for a, pol in fs if a[0] in ('is', 'unk') or contains(a, lambda x: isinstance(x, tuple) and x[:1] in (('unk',), ('call',)))]
        txt = why or ('it has no entry' if n == 0 else f"it has {n} entries")
        if fs:
            txt += f" when {m.show(fs[0][0])[:80]} is {fs[0][1]}"
        ctx.ob(rule, con, None if strange else False, where, txt)
        return
    ctx.good(rule, con, where, f"{len(tot)} paths")


def full(ctx, m, G, f):
    cd = Codec(ctx, m, G)
    R, I, p = cd.runs, cd.I, m.p
    n = 0
    for s, ret in R.seq(R.states, [('update_context', [ONE]), ('update_coo', []), ('full_msg', [])]):
        msg = ret[-1][1]
        secs = items_of(I, s, cd.sent[msg[1]]) if msg[0] == 'msg' else None
        if secs is None:
            ctx.und('sections', G.name, f.where, f"message {m.show(msg)}")
            continue
        n += 1
        cnt = Counter(cd, s)
        lists = [x for x in secs if x[0] == 'o']
        tens, sect = [], []
        for L in dict.fromkeys(lists):
            (tens if is_tensor(cd, s, L) else sect).append(L)
        dup = [L for L in lists if lists.count(L) > 1]
        if dup:
            ctx.bad('sections', G.name, f.where, 'one list is sent as two sections')
        if len(lists) != len(secs):
            ctx.und('sections', G.name, f.where, 'a section that is no list')
        # the context
        k = 0
        for L in sect:
            for o in s.ops.get(L, ()):
                if o[0] == 'add':
                    v = cd.canon(I.freeze(s, o[1]))
                    if v[0] in ('tup', 'list') and ('f', ONE, '_uuid', 0) in v[1]:
                        k += 1
        ctx.ob('sections', 'the context', k == 1, f.where, '' if k == 1 else f"it has {k} entries")
        for kinds, want in ((('HypergraphNode',), 1), (('HypergraphEdge',), 1), (('HypergraphEdge', 'HypergraphRelation'), 1),
                            (('ValueNode',), 1), (('HypergraphPort',), 0), (('SemanticValueNode',), 0)):
            check_counts(ctx, m, 'sections', kinds[-1], f.where, cnt, sect, [p.cls(x) for x in kinds], want)
        # ---- index used, walk
        evs = [e for e in flat(s.events) if e[0] == 'do']
        ix = [e for e in evs if e[1] == 'index']
        wk = [e for e in evs if e[1] == 'walk']
        if len(ix) != 1 or ix[0][3][:1] != (ONE,):
            ctx.bad('index', G.name, where_of(ix[0][-1]) if ix else f.where,
                    'no index is made' if not ix else 'several' if len(ix) > 1 else f"the index is made for {m.show(ix[0][3][0])}")
        else:
            H = ix[0][2]
            o = I.hobj(s, H)
            if o is None or o.kind != 'inst':
                ctx.und('index', G.name, where_of(ix[0][-1]), m.show(H))
            else:
                new = [e for e in flat(s.events) if e[0] == 'new' and e[1] == H]
                if new:
                    init = p.find(cd.H, '__init__')
                    names = [a.arg for a in init.node.args.args][1:]
                    d = dict(zip(names, new[0][3]))
                    d.update(dict(new[0][4]))
                    ig, dp = d.get('ignore_root', FALSE), d.get('depth')
                    ctx.ob('index', G.name + ' root', ig == FALSE if is_c(ig) else None, where_of(new[0][-1]), '' if ig == FALSE else 'the context has no number')
                    inf = dp is not None and (dp == ('ext', 'math.inf') or is_c(dp) and dp[2] == float('inf'))
                    ctx.ob('index', G.name + ' depth', inf or (None if dp is not None and not is_c(dp) else False), where_of(new[0][-1]),
                           '' if inf else f"limited to depth {m.show(dp) if dp else 'by default'}")
            used = [t for L in sect for t in mcalls(cd, s, L)]
            odd = [t for t in used if t[1] != H]
            ctx.ob('index', G.name + ' used', not odd, f.where, '' if not odd else f"numbers come from {m.show(odd[0][1])}")
            if len(wk) == 1:
                w = wk[0]
                ok = w[3][:1] == (ONE,)
                ctx.ob('walk', G.name + ' start', ok, where_of(w[-1]), '' if ok else f"starts at {m.show(w[3][0]) if w[3] else '?'}")
                for fld, want, what in ((cd.hfield, H, 'index'), (cd.dfield, None, 'depth')):
                    v = I.hobj(s, w[2]).fields.get(fld) or s.fields.get((w[2], fld)) if I.hobj(s, w[2]) is not None else None
                    if what == 'depth':
                        v0 = v
                        inf = v0 == ('ext', 'math.inf') or v0 == ('sym', 'repr_depth') or v0 is not None and is_c(v0) and v0[2] == float('inf')
                        ctx.ob('walk', G.name + ' depth', inf or (None if v0 is None or not is_c(v0) else False), where_of(w[-1]),
                               '' if inf else f"limited to {m.show(v0) if v0 else '?'}")
                    else:
                        ctx.ob('walk', G.name + ' index', v == want if v is not None else None, where_of(w[-1]), '' if v == want else 'uses another index')
            else:
                ctx.bad('walk', G.name, f.where, f"{len(wk)} walks")
        tensor(ctx, m, cd, s, tens, f)
        # ---- update
        for s2, r2 in R.seq([s.fork()], [('msg_value_update', [])]):
            mg = r2[-1][1]
            L = cd.sent[mg[1]] if mg[0] == 'msg' else None
            if L is None or L[0] != 'o':
                ctx.und('update', G.name, f.where, m.show(mg))
                continue
            c2 = Counter(cd, s2)
            for kind, want in (('ValueNode', 1), ('HypergraphNode', 0), ('HypergraphEdge', 0)):
                check_counts(ctx, m, 'update', kind, p.find(G, 'msg_value_update').where, c2, [L], [p.cls(kind)], want)
    if not n:
        ctx.bad('sections', G.name, f.where, 'no message is made')


def mcalls(cd, s, L):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if t[:1] == ('mcall',) and len(t) > 2 and t[2] in INDEX:
                out.append(t)
            for x in t:
                go(x)
    for o, chain, facts in emissions(cd.I, s.ops.get(L, ()), L):
        go(cd.I.freeze(chain[-1][1].st if chain else s, o[1]) if len(o) > 1 and isinstance(o[1], tuple) else ())
    return out


def is_tensor(cd, s, L):
    for o, chain, facts in emissions(cd.I, s.ops.get(L, ()), L):
        if any(batch(cd.I.loops[lp.lid].coll) for lp, q in chain):
            return True
        if any(lp.kind == 'while' for lp, q in chain):
            return True
    return False


def batch(c):
    c = W.strip(c) if c is not None else None
    return c if c is not None and (c in (('sym', 'B1'), ('sym', 'B2')) or c[0] == 'take') else None


def tensor(ctx, m, cd, s, tens, f):
    I = cd.I
    if len(tens) != 3:
        ctx.ob('tensor', 'lists', None, f.where, f"{len(tens)} lists are filled from the walk")
    for L in tens:
        arity = None
        total = {'B1': 0, 'B2': 0}
        ok = True
        why = ''
        for o in s.ops.get(L, ()):
            if o[0] != 'iter':
                ok, why = None, f"{o[0]}"
                continue
            lp = I.loops[o[1]]
            r = batches(cd, s, lp, L)
            if r is None:
                ok, why = None, 'how the list is filled'
                break
            if isinstance(r, str):
                ok, why = False, r
                break
            for b, n in r.items():
                total[b] += n
        if ok is True and any(n != 1 for n in total.values()):
            ok, why = False, f"a connection is entered {max(total.values(), key=lambda x: abs(x - 1))} times"
        ctx.ob('tensor', f"list {tens.index(L) + 1}", ok, f.where, why)


def batches(cd, s, lp, L, ops=None, per=None):
    """{batch: entries per item} | reason of a violation | None"""
    I = cd.I
    ops = ops or (lambda lp, q: I.path_ops(lp, q, L))
    per = per or (lambda lp: per_item(cd, lp, L))
    b = batch(lp.coll) if lp.coll is not None else None
    if b is not None and b[0] == 'sym':
        n = per(lp)
        return {b[1]: n} if isinstance(n, int) else n
    if lp.kind != 'while':
        return None
    res = None
    Q = None
    exits = []
    for q in lp.paths:
        if q.sig is not None and q.sig[0] != 'wexit':
            if q.sig[0] in ('break', 'return'):
                return 'the loop may be left before all is entered' if not any(a[0] == 'empty' and pol for a, pol in q.facts) else None
            return None
        if q.sig is not None:
            exits.append(q)
            continue
        takes = [(c, o) for c in q.st.ops for o in I.path_ops(lp, q, c) if o[0] == 'take']
        if len(takes) != 1 or takes[0][1][2] != 'front' and takes[0][1][2] != 'back':
            return None
        Q, t = takes[0][0], takes[0][1][1]
        n = 0
        for o in ops(lp, q):
            if o[0] != 'iter' or W.strip(I.loops[o[1]].coll) != t:
                return None
            k = per(I.loops[o[1]])
            if not isinstance(k, int):
                return k
            n += k
        if res is not None and res != n:
            return 'some connections are left out'
        res = n
    if Q is None:
        return None
    for q in exits:
        for n in (0, 1, 2, 3):
            r = []
            for a, pol in q.facts:
                t = n == 0 if a[0] == 'empty' and a[1] == Q else W.truth(a, {('len', Q): n})
                r.append(None if t is None else t == pol)
            if None in r and False not in r:
                return None
            if n and all(r):
                return f"the loop ends with {n} groups of connections left"
    put = [o[1] for o in s.ops.get(Q, ()) if o[0] in ('add', 'addleft')]
    if sorted(put) != [('sym', 'B1'), ('sym', 'B2')]:
        return None if any(o[0] == 'iter' for o in s.ops.get(Q, ())) and not put else f"{len(put)} of 2 groups of connections are kept"
    return {'B1': res, 'B2': res}


def per_item(cd, lp, L):
    ns = set()
    for q in lp.paths:
        if q.sig is not None and q.sig[0] != 'continue':
            return 'the loop over connections is left early'
        o = cd.I.path_ops(lp, q, L)
        if any(x[0] not in ('add', 'sadd') for x in o):
            return None
        ns.add(len(o))
    if len(ns) > 1:
        return 'some connections are left out'
    return ns.pop() if ns else None


def fresh(ctx, m, T, f):
    cd = Codec(ctx, m, T)
    msgs = [(n, []) for n in MESSAGES]
    keep = set()
    for s, r in cd.runs.seq([s.fork() for s in cd.runs.states], [('reset', [ONE])]):
        hs = [e[2] for e in flat(s.events) if e[0] == 'do' and e[1] == 'index']
        keep |= {a for (b, a), v in s.fields.items() if b == SELF and v in hs}
    cd = Codec(ctx, m, T)
    carried(cd.runs, T.name, [('reset', [ONE]), ('execute', [NONE])] + msgs, [('reset', [TWO]), ('execute', [NONE])] + msgs, 'fresh', where=f.where, keep=keep)
    cd = Codec(ctx, m, T)
    carried(cd.runs, T.name + ' tensor', [('reset', [ONE]), ('execute', [NONE])] + msgs, [('reset', [TWO])] + msgs, 'fresh', where=p_where(m, T, 'reset'), keep=keep)
    for n in MESSAGES[:-1]:
        cd = Codec(ctx, m, T)
        again(ctx, m, cd, T, n)
    cd = Codec(ctx, m, T)
    twice(ctx, m, cd, T, f)


def p_where(m, T, n):
    return m.p.find(T, n).where


def fresh_cbor(ctx, m, G, f):
    cd = Codec(ctx, m, G)
    a = [('update_coo', []), ('full_msg', [])]
    R = cd.runs
    # the transport keeps nothing, so what is sent is what the lists of the encoder hold
    for s0 in R.states:
        for s1, r1 in R.seq([s0], [('update_context', [ONE])] + a):
            for s2, r2 in R.seq([s1.fork()], [('update_context', [TWO])] + a):
                ctx.paths += 1
                new = list(flat(s2.events))[len(list(flat(s1.events))):]
                for kind, what in (('index', 'index'), ('walk', 'walk')):
                    es = [e for e in new if e[0] == 'do' and e[1] == kind]
                    ok = len(es) == 1 and es[0][3][:1] == (TWO,)
                    ctx.ob('fresh', f"{G.name} {what}", ok, where_of(es[0][-1]) if es else f.where,
                           '' if ok else f"a second update makes no {what}" if not es else f"the {what} of a second update is that of {m.show(es[0][3][0])}")
                one, two = r1[-1][1], r2[-1][1]
                if one[0] != 'msg' or two[0] != 'msg':
                    ctx.und('fresh', G.name, f.where, m.show(two))
                    continue
                v = R.I.freeze(s2, cd.sent[two[1]])
                old = deep_contains(cd, s2, cd.sent[two[1]], ONE)
                ctx.ob('fresh', G.name, not old, f.where, '' if not old else 'a message speaks of an earlier context')


def deep_contains(cd, s, v, mark, depth=0):
    """does a message list mention a term anywhere in its entries?"""
    I = cd.I
    seen = set()

    def go(t, d):
        if not isinstance(t, tuple) or d > 30:
            return False
        if t == mark:
            return True
        if len(t) == 2 and t[0] == 'o' and t not in seen:
            seen.add(t)
            for o, chain, facts in emissions(I, s.ops.get(t, ()), t):
                if any(go(x, d + 1) for x in o[1:]):
                    return True
                if any(lp.coll is not None and go(lp.coll, d + 1) for lp, q in chain):
                    return True
            return False
        return any(go(x, d + 1) for x in t)
    return go(v, 0)


def again(ctx, m, cd, T, name):
    """a message made twice has the same entries; the first one is not touched"""
    R, I = cd.runs, cd.I
    f = m.p.find(T, name)
    for s, r in R.seq(R.states, [('reset', [ONE]), ('execute', [NONE]), (name, [])]):
        L1 = r[-1][1]
        ops1 = s.ops.get(L1, ())
        for s2, r2 in R.seq([s.fork()], [(name, [])]):
            ctx.paths += 1
            L2 = r2[-1][1]
            if L2 == L1:
                same = s2.ops.get(L2, ()) == ops1
                ctx.ob('fresh', f"{name} again", same, f.where, '' if same else 'a second message adds to the entries of the first')
            else:
                n1, n2 = len([o for o in ops1 if o[0] != 'take']), len([o for o in s2.ops.get(L2, ()) if o[0] != 'take'])
                touched = s2.ops.get(L1, ()) != ops1
                ok = n1 == n2 and not touched
                ctx.ob('fresh', f"{name} again", True if ok else False if touched else None, f.where,
                       '' if ok else 'a second message changes the first' if touched else 'a second message is made differently')


def twice(ctx, m, cd, T, f):
    """two tensor updates of one context: the second gives the walk of the second only"""
    R, I = cd.runs, cd.I
    for s, r in R.seq(R.states, [('reset', [ONE]), ('execute', [NONE]), ('msg_tensor_value_updates', [])]):
        first = I.known_items(s, r[-1][1])
        if first is None:
            ctx.und('fresh', T.name + ' twice', f.where, m.show(r[-1][1]))
            return
        ops1 = {L: s.ops.get(L, ()) for L in first}
        for s2, r2 in R.seq([s.fork()], [('execute', [NONE]), ('msg_tensor_value_updates', [])]):
            ctx.paths += 1
            second = I.known_items(s2, r2[-1][1])
            bad = None
            for L in second or []:
                if L in ops1:
                    bad = 'a second update adds to what the first one gave'
                    o = s2.ops.get(L, ())
                    if o != ops1[L] and any(x[0] == 'clear' for x in o[len(ops1[L]):]):
                        bad = 'a second update changes the lists that the first one gave'
            touched = [L for L in first if s2.ops.get(L, ()) != ops1[L]]
            if touched and not bad:
                bad = 'a second update changes the lists that the first one gave'
            ctx.ob('fresh', T.name + ' twice', False if bad else True if second is not None else None, f.where, bad or '')
