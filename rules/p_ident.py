"""P13: identifiers depend on exactly who, where and when."""
from sa.interp import NONE, C, is_c, contains, State
from sa.loader import AnalysisError, ClassInfo
from .hier import Model, SELF
from .p_hier import flat, exc_name, where_of
from . import drive

LOSSY = {'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'replace', 'partition',
         'rpartition', 'removeprefix', 'removesuffix', '__len__', '__hash__', 'translate', 'expandtabs', 'count', 'find', 'index'}
LOSSY_F = {'len', 'hash', 'type', 'bool', 'int', 'round', 'abs', 'min', 'max', 'sum', 'id', 'sorted', 'set', 'frozenset'}
EXACT = {'encode', 'hex', '__str__', '__repr__'}
OTHER = ('random', 'secrets', 'uuid', 'os', 'time', 'datetime', 'threading', 'itertools', 'socket', 'getpass', 'platform')


def text(v):
    """flat parts of the text (or bytes) a term stands for"""
    if v[0] == 'cat':
        return [y for x in v[1] for y in text(x)]
    if v[0] == 'join' and v[2][0] in ('list', 'tup') and not any(x[0] in ('each', 'splice', 'rev') for x in v[2][1]):
        out = []
        for i, x in enumerate(v[2][1]):
            if i:
                out += text(v[1])
            out += text(x)
        return out
    if v[0] == 'mcall' and v[2] in EXACT:
        return text(v[1])
    if v[0] == 'call' and v[1] in ('str', 'bytes', 'bytearray', 'repr', 'binascii.hexlify') and v[2]:
        return text(v[2][0])
    if v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'f' and v[1][2] in EXACT:
        return text(v[1][1])
    if v[0] == 'str' and len(v) > 1 and isinstance(v[1], tuple):
        return text(v[1])
    if v[0] == 'op' and len(v) == 4 and v[1] == '+':
        return text(v[2]) + text(v[3])
    return [v]


SHARED = 'the hash object is older than the call and keeps what it was fed before'


def hashed(I, s, uid, events=None):
    """the text an identifier is the hash of: (parts, None) or (None, why)"""
    v = uid
    how = None
    if v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'f' and v[1][2] in ('digest', 'hexdigest'):
        H = v[1][1]
    elif v[0] == 'mcall' and v[2] in ('digest', 'hexdigest'):
        H = v[1]
    else:
        return None, 'no digest'
    events = list(flat(s.events)) if events is None else events
    made = [e for e in events if e[0] == 'ecall' and e[4] == H]
    if not made or not made[0][1].startswith('hashlib.'):
        if any(e[0] == 'mcall' and e[1] == H and e[2] == 'update' or e[0] == 'vcall' and e[1] == ('f', H, 'update', 0) for e in events) and H[0] in ('shared', 'sym', 'f'):
            return None, SHARED
        return None, 'unknown hash object'
    parts = []
    args = [a for a in made[0][2] if not (made[0][1] == 'hashlib.new' and a == made[0][2][0])]
    for a in args:
        parts += text(a)
    for e in events:
        if e[0] == 'mcall' and e[1] == H and e[2] == 'update':
            for a in e[3]:
                parts += text(I.freeze(s, a))
        elif e[0] == 'vcall' and e[1] == ('f', H, 'update', 0):
            for a in e[2]:
                parts += text(I.freeze(s, a))
    return merge(parts), None


def merge(parts):
    out = []
    for x in parts:
        if x[0] == 'c' and isinstance(x[2], (str, bytes)):
            t = x[2] if isinstance(x[2], str) else x[2].decode('latin1')
            if not t:
                continue
            if out and out[-1][0] == 'c':
                out[-1] = C(out[-1][2] + t)
            else:
                out.append(C(t))
        else:
            out.append(x)
    return out


def clock_time(x):
    return x[0] == 'mcall' and x[2] in ('get_time_ns', 'get_time') or \
        (x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] in ('get_time_ns', 'get_time'))


def foreign(x):
    """a value no rule of identifiers knows: certainly another source"""
    def hit(y):
        if not isinstance(y, tuple):
            return False
        if y[:1] == ('call',) and isinstance(y[1], str) and (y[1].split('.')[0] in OTHER or y[1] in ('id', 'hash')):
            return True
        return y[:1] == ('mcall',) and isinstance(y[1], tuple) and y[1][:1] == ('ext',) and y[1][1].split('.')[0] in OTHER
    return contains(x, hit)


def coarse(x):
    """does the part stand for less than the time in it?"""
    def hit(y):
        return isinstance(y, tuple) and (y[:1] == ('op',) and y[1] in ('//', '%', '>>', '/', '&') and contains(y[2], clock_time)
                                         or y[:1] == ('call',) and isinstance(y[1], str) and y[1] in LOSSY_F - {'int', 'abs'} and any(contains(a, clock_time) for a in y[2])
                                         or y[:1] == ('sliceof',) and contains(y[1], clock_time))
    return contains(x, hit)


STR = LOSSY | EXACT | {'join', 'format', 'decode', 'zfill', 'rjust', 'ljust', 'center'}


def closed(x):
    """is the term a function of nothing but the symbols in it?"""
    if not isinstance(x, tuple) or not x:
        return True
    if x[0] in ('c', 'sym'):
        return True
    if x[0] == 'f':
        return closed(x[1])
    if x[0] == 'mcall':
        return x[2] in STR and closed(x[1]) and all(closed(a) for a in x[3])
    if x[0] == 'call':
        if isinstance(x[1], tuple):
            return x[1][0] == 'f' and x[1][2] in STR and closed(x[1][1]) and all(closed(a) for a in x[2])
        return x[1] in LOSSY_F | {'str', 'bytes', 'repr'} and all(closed(a) for a in x[2])
    if x[0] in ('cat', 'list', 'tup'):
        return all(closed(y) for y in x[1])
    if x[0] in ('join', 'sliceof', 'op', 'str', 'item', 'len'):
        return all(closed(y) for y in x[1:] if isinstance(y, tuple))
    return False


def lossy(x, atom):
    """does the part stand for less than the atom?"""
    def hit(y):
        if not isinstance(y, tuple) or not contains(y, lambda z: z == atom):
            return False
        return (y[:1] == ('mcall',) and y[2] in LOSSY) or (y[:1] == ('call',) and isinstance(y[1], str) and y[1] in LOSSY_F) or y[:1] in (('sliceof',), ('len',)) or \
            (y[:1] == ('call',) and isinstance(y[1], tuple) and y[1][:1] == ('f',) and y[1][2] in LOSSY)
    return contains(x, hit)


def judge(ctx, m, rule_in, rule_sep, con, parts, need, allow, where):
    """need: [(what, atoms)] each of which must be among the parts; allow: further admissible atoms"""
    for what, atoms in need:
        if any(a in parts for a in atoms):
            ctx.good(rule_in, f"{con}: {what}", where)
            continue
        part = [x for x in parts if x[0] != 'c' and any(contains(x, lambda z, a=a: z == a) for a in atoms)]
        if not part:
            vague = [x for x in parts if not closed(x) and x[0] != 'elem' and not clock_time(x)]
            ctx.ob(rule_in, f"{con}: {what}", None if vague else False, where, f"the hashed text does not contain {what}")
        elif any(lossy(x, a) for x in part for a in atoms):
            ctx.bad(rule_in, f"{con}: {what}", where, f"only {m.show(part[0])[:80]} of {what} is hashed")
        else:
            ctx.und(rule_in, f"{con}: {what}", where, f"{m.show(part[0])[:80]} for {what}")
    known = [a for _, atoms in need for a in atoms] + list(allow)
    for x in parts:
        if x[0] == 'c' or x in known or clock_time(x):
            continue
        if any(contains(x, lambda z, a=a: z == a) for a in known) and not foreign(x):
            continue
        ctx.ob(rule_in, f"{con}: nothing else", False if foreign(x) or x[0] in ('sym', 'f', 'elem', 'havoc') else None, where, f"{m.show(x)[:80]} is hashed as well")
    if all(x[0] == 'c' or x in known or clock_time(x) for x in parts):
        ctx.good(rule_in, f"{con}: nothing else", where)
    prev = None
    for x in parts:
        if x[0] != 'c':
            if prev is not None:
                ctx.bad(rule_sep, con, where, f"{m.show(prev)[:60]} and {m.show(x)[:60]} are hashed without anything between them")
                return
            prev = x
        else:
            prev = None
    ctx.good(rule_sep, con, where)


def p13(ctx):
    ctx.rule('hash', 'an identifier is the digest of exactly the text the generation function gives for context and argument, computed anew each time')
    ctx.rule('inputs', 'the hashed text consists of the generating context, the path of the container, the name of the element and the time of the clock, and of nothing else')
    ctx.rule('separate', 'the parts of the hashed text are kept apart by separators')
    ctx.rule('ends', 'identifiers of relations and ports contain the identifier of their owner and that of the endpoint')
    m = Model(ctx)
    p = m.p
    G = p.cls('MetaUniqueIdentifierGenerator')
    if p.find(G, 'generate_uid') is None:
        raise AnalysisError('generate_uid not found')
    for c in [G] + p.subclasses.get(G, []):
        if p.is_concrete(c):
            f = p.find(c, 'generate_uid')
            ctx.guard('hash', c.name, generator, ctx, m, c, f, where=f.where)
    A = p.cls('AbstractElementFactory')
    for c in [A] + p.subclasses.get(A, []):
        for k in reversed(p.classes_of(c)):
            for n, f in k.methods.items():
                if f is None or n.startswith('_') or f.is_property or f.is_static or p.find(c, n) is not f:
                    continue
                if makes(p, f, m):
                    ctx.guard('inputs', f"{c.name}.{n}", factory, ctx, m, c, n, f, where=f.where)
    ends(ctx, m)
    ctx.rule('own', 'an element carries the identifier it was constructed with')
    from . import p_build
    p_build.own(ctx, p, p_build.world(ctx))
    ctx.minimum = 20


def makes(p, f, m):
    import ast
    names = {c.name for c in m.family}
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for n in ast.walk(f.node))


def generator(ctx, m, c, f):
    I = m.interp(implicit=False)
    fi = drive.program(c.mod, """
def client(K, clock, x1, x2, a, b):
    fn = lambda x, y: f"{x}|{y}|{clock.get_time_ns()}"
    g = K(x1, fn)
    h = K(x2, fn)
    return g.generate_uid(a), g.generate_uid(b), h.generate_uid(a), g.generate_uid(a)
""")
    st = State()
    sy = {n: ('sym', n) for n in ('x1', 'x2', 'a', 'b')}
    for v in sy.values():
        st.types[v] = 'str'
    sy['clock'] = ('sym', 'clock')
    want = [(sy['x1'], sy['a']), (sy['x1'], sy['b']), (sy['x2'], sy['a']), (sy['x1'], sy['a'])]
    for s, sig in drive.run(I, fi, st, K=('cls', c), **sy):
        ctx.paths += 1
        if sig[0] == 'raise':
            ctx.bad('hash', c.name, f.where, f"raises {exc_name(sig)}")
            continue
        events = list(flat(s.events))
        times = []
        for i, (u, w) in enumerate(zip(sig[1][1], want)):
            label = ('first', 'second', 'other context', 'again')[i]
            parts, why = hashed(I, s, u, events)
            if parts is None:
                ctx.ob('hash', f"{c.name} {label}", False if why is SHARED or closed(u) or foreign(u) else None, f.where, f"{why}: {m.show(u)[:80]}")
                continue
            exp = [w[0], C('|'), w[1], C('|')]
            ok = parts[:-1] == exp and clock_time(parts[-1])
            sure = all(closed(x) or clock_time(x) or foreign(x) for x in parts) or any(lossy(x, a) for x in parts for a in w)
            if ok and parts[-1] in times:
                ok, sure = False, True
            times += parts[-1:]
            ctx.ob('hash', f"{c.name} {label}", ok or (False if sure else None), f.where, '' if ok else f"hashed is {' + '.join(m.show(x)[:40] for x in parts)}")


def arg_of(I, fi, args, kwargs, name):
    names = [a.arg for a in fi.node.args.args][1:]
    kw = dict(kwargs)
    if name in kw:
        return kw[name]
    if name in names and names.index(name) < len(args):
        return args[names.index(name)]
    return None


def news(I, m, s):
    for e in flat(s.events):
        if e[0] == 'new' and isinstance(e[2], ClassInfo) and m.H in m.p.mro(e[2]):
            fi = m.p.find(e[2], '__init__')
            yield e, e[2], arg_of(I, fi, e[3], e[4], 'uuid'), arg_of(I, fi, e[3], e[4], 'id_name')


CONTAINER = ('container', 'parent')


def factory(ctx, m, c, name, f):
    p = m.p
    for held in (True, False):
        I = m.interp(implicit=False)

        def nothing(I, st, recv, args, kw, fr, node, fi=None):
            return [(st, NONE)]
        for n in ('add_element', 'unary_connect', 'connect', 'register', 'update'):
            I.contracts['fn:' + n] = nothing
            if n != 'update':
                I.contracts['m:' + n] = nothing
        st = State()
        a = f.node.args
        names = [x.arg for x in a.args][1:]
        nd = len(a.defaults)
        optional = set(names[len(names) - nd:]) if nd else set()
        box = next((n for n in CONTAINER if n in names), None)
        if box is None:
            box = next((x.arg for x in a.args[1:] if x.annotation is not None and 'HypergraphNode' == getattr(x.annotation, 'id', None)), None)
        if not held and (box is None or box not in optional) and not (box and 'None' in (f_ann(a, box) or '')):
            continue
        args, argv = [], {}
        for n in names:
            v = ('sym', n)
            if n == box:
                if not held:
                    argv[n] = NONE
                    continue
                st.types[v] = p.cls('HypergraphNode')
            elif n.endswith('name'):
                st.types[v] = 'str'
            argv[n] = v
        fi = drive.program(c.mod, f"def client(K, cname, clock, {', '.join(names)}):\n    return K(cname, clock).{name}({', '.join(names)})\n")
        st.types[('sym', 'cname')] = 'str'
        st.vers['nonnull'] = tuple(v for v in argv.values() if v != NONE) + (('sym', 'cname'), ('sym', 'clock'))
        con = f"{c.name}.{name}" + ('' if held else ' without container')
        seen = False
        for s, sig in drive.run(I, fi, st, K=('cls', c), cname=('sym', 'cname'), clock=('sym', 'clock'), **argv):
            ctx.paths += 1
            events = list(flat(s.events))
            for e, k, uid, idn in news(I, m, s):
                seen = True
                where = where_of(e[5]) if len(e) > 5 else f.where
                if uid is None:
                    ctx.und('inputs', f"{con} {k.name}", where, 'no identifier given')
                    continue
                parts, why = hashed(I, s, uid, events)
                if parts is None:
                    ctx.ob('inputs', f"{con} {k.name}", False if closed(uid) or foreign(uid) else None, where, f"the identifier is {m.show(uid)[:80]}")
                    continue
                need = [('the generating context', [('sym', 'cname')]), ('the name', [idn])] if idn is not None else [('the generating context', [('sym', 'cname')])]
                if idn is None:
                    ctx.und('inputs', f"{con} {k.name}: the name", where, 'no name given')
                if held and box:
                    B = ('sym', box)
                    need.append(('the path of the container', [('f', B, '_qualified_name', 0), ('f', B, 'qualified_name', 0)]))
                judge(ctx, m, 'inputs', 'separate', f"{con} {k.name}", parts, need, [], where)
                t = any(clock_time(x) for x in parts)
                part = [x for x in parts if coarse(x)]
                if not t and part:
                    ctx.bad('inputs', f"{con} {k.name}: the time", where, f"only {m.show(part[0])[:80]} of the time is hashed")
                    continue
                vague = any(not closed(x) and x[0] != 'elem' and not clock_time(x) for x in parts)
                ctx.ob('inputs', f"{con} {k.name}: the time", True if t else (None if vague else False), where, '' if t else 'the hashed text does not contain the time of the clock')
        if not seen:
            ctx.und('inputs', con, f.where, 'no element is made')


def f_ann(a, n):
    import ast
    for x in a.args:
        if x.arg == n and x.annotation is not None:
            return ast.unparse(x.annotation)
    return ''


def ends(ctx, m):
    """identifiers of relations and ports"""
    p = m.p
    E = p.cls('HypergraphElement')
    for c in [k for k in [E] + p.subclasses.get(E, []) if p.is_concrete(k)]:
        for op, made in (('connect', 'HypergraphPort'), ('unary_connect', 'HypergraphRelation')):
            f = p.find(c, op)
            if f is None:
                if op == 'connect' or c.name == 'HypergraphEdge':
                    raise AnalysisError(f"{c.name}.{op} not found")
                continue

            def go(c=c, op=op, made=made, f=f):
                I = m.interp(implicit=False)

                def nothing(I, st, recv, args, kw, fr, node, fi=None):
                    return [(st, NONE)]
                for n in ('add_element', 'register', 'update') + (('connect',) if op != 'connect' else ()):
                    I.contracts['fn:' + n] = nothing
                    if n != 'update':
                        I.contracts['m:' + n] = nothing
                extra = ', None' if op == 'unary_connect' else ''
                fi = drive.program(c.mod, f"def client(K, uid, clock, a, b, n):\n    o = K(n, uid, 'q', clock)\n    o.{op}(a{extra})\n    o.{op}(b{extra})\n")
                st = State()
                args = {x: ('sym', x) for x in ('uid', 'clock', 'a', 'b', 'n')}
                st.types[args['uid']] = 'bytes'
                st.types[args['n']] = 'str'
                for x in 'ab':
                    st.types[args[x]] = p.cls('HypergraphNode')
                st.vers['nonnull'] = tuple(args.values())
                con = f"{c.name}.{op}"
                for s, sig in drive.run(I, fi, st, K=('cls', c), **args):
                    ctx.paths += 1
                    if sig[0] == 'raise':
                        continue
                    events = list(flat(s.events))
                    got = [(e, uid) for e, k, uid, idn in news(I, m, s) if p.cls(made) in p.mro(k)]
                    if len(got) != 2:
                        ctx.und('ends', con, f.where, f"{len(got)} made")
                        continue
                    for (e, uid), x in zip(got, ('a', 'b')):
                        where = where_of(e[5]) if len(e) > 5 else f.where
                        parts, why = hashed(I, s, uid, events) if uid is not None else (None, 'no identifier')
                        if parts is None:
                            ctx.ob('ends', con, False if uid is not None and (closed(uid) or foreign(uid)) else None, where, why)
                            continue
                        X = args[x]
                        allow = [args['n']] + [('f', X, k, 0) for k in ('_id_name', '_qualified_name', 'id_name', 'qualified_name')]
                        judge(ctx, m, 'ends', 'separate', con, parts, [('the identifier of its owner', [args['uid']]),
                                                                       ('the identifier of the endpoint', [('f', X, '_uuid', 0), ('f', X, 'uuid', 0)])], allow, where)
            ctx.guard('ends', f"{c.name}.{op}", go, where=f.where)
