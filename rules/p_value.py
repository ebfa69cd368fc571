"""P26: value nodes own their values; semantic values own their attributes."""
from sa.interp import NONE, FALSE, C, is_c, contains, State, Limit
from .hier import Model
from .p_hier import exc_name
from . import drive

SIZES = (0, 1, 2, 3, 5)


def sure(v):
    """is the value fully known?"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ('tup', 'list'):
        return all(sure(x) for x in v[1])
    return v[0] in ('c', 'sym')


def agree(I, s, got, want):
    """True / False / None"""
    if got == want:
        return True
    if want[0] == 'list':
        if got[0] not in ('list', 'tup'):
            return False if got[0] == 'c' else None
        if not all(x[0] not in ('each', 'splice', 'rev') for x in got[1]):
            return None
        if got[0] == 'tup' or len(got[1]) != len(want[1]):
            return False
        rs = [agree(I, s, a, b) for a, b in zip(got[1], want[1])]
        return False if False in rs else None if None in rs else True
    if got[0] == 'item' and got[1][0] == 'call' and got[1][1] == 'sorted' and not got[1][3] and want[0] == 'sym':
        xs = got[1][2][0]
        if xs[0] == 'list' and len(set(xs[1])) > 1 and all(x[0] == 'sym' for x in xs[1]):
            return False       # the values come in their own order, not in ascending order
    if not sure(got):
        return None
    d = I.eq(s, got, want)
    if d is None and got[0] != want[0] and 'c' in (got[0], want[0]):
        d = I.decide(s, I.norm_atom(('is' if NONE in (got, want) else 'eq', got, want)))
    if d is None:
        d = I.decide(s, I.norm_atom(('eq', got, want)))
    if d is None and got[0] == 'sym' and want[0] == 'sym':
        d = False              # two unrelated symbols: some choice of them differs
    if d is None and {got[0], want[0]} == {'sym', 'c'}:
        d = False
    return d


def family(p, root):
    return [c for c in [root] + p.subclasses.get(root, []) if p.is_concrete(c)]


class Client:
    def __init__(self, ctx, I, mod, where):
        self.ctx, self.I, self.mod, self.where = ctx, I, mod, where

    def check(self, rule, con, src, wants, env, where=None):
        """run a client whose result is a tuple, compared with `wants` (a list of (label, value))"""
        ctx, I = self.ctx, self.I
        where = where or self.where

        def go():
            fi = drive.program(self.mod, src)
            st = State()
            for v in env.values():
                if v[0] == 'sym':
                    st.vers['nonnull'] = tuple(st.vers.get('nonnull', ())) + (v,)
            for s, sig in drive.run(I, fi, st, **env):
                ctx.paths += 1
                if sig[0] == 'raise':
                    ctx.bad(rule, con, where, f"fails: {exc_name(sig)} at line {sig[2][1]} of {sig[2][0]}" if len(sig) > 2 else f"fails: {exc_name(sig)}")
                    continue
                r = sig[1]
                if r[0] != 'tup' or len(r[1]) != len(wants):
                    ctx.und(rule, con, where, f"result {r}")
                    continue
                for (label, want), got in zip(wants, r[1]):
                    g = I.freeze(s, got)
                    ok = agree(I, s, g, want)
                    ctx.ob(rule, f"{con}: {label}", ok, where, '' if ok else f"{show(g)} instead of {show(want)}")
        ctx.guard(rule, con, go, where=where)


def show(v):
    if v[0] in ('list', 'tup'):
        return '[' + ', '.join(show(x) for x in v[1]) + ']'
    if v[0] == 'c':
        return repr(v[2])
    if v[0] == 'sym':
        return v[1]
    return str(v)[:80]


def p26(ctx):
    ctx.rule('own-copy', 'changing the list a value node was built or updated with, or a list read from it, changes nothing in the node')
    ctx.rule('dimension', 'the dimension is the number of values after building and after every kind of update')
    ctx.rule('iterate', 'iterating gives every value once, in order, also when iterations are nested or broken off')
    ctx.rule('one-value', 'writing one value changes that value only, and every reader sees it')
    ctx.rule('own-attributes', 'changing the dictionary a semantic value was built with changes nothing in it')
    ctx.rule('missing', 'an attribute that is not there reads as None, whatever its name; one that is there reads as its value')
    ctx.rule('attributes', 'setting or removing an attribute changes that attribute only; removing one that is not there does nothing')
    m = Model(ctx)
    p = m.p
    V = p.cls('ValueNode')
    for c in family(p, V):
        values(ctx, m, c)
    S = p.cls('SemanticValueNode')
    for c in family(p, S):
        semantic(ctx, m, c)
    factories(ctx, m)
    ctx.minimum = 60


def L(*xs):
    return ('list', tuple(xs))


def values(ctx, m, c):
    I = m.interp(implicit=True)
    I.unroll = True
    cl = Client(ctx, I, c.mod, f"{c.mod.relpath}:{c.node.lineno} {c.name}")
    N = c.name
    a, b = ('sym', 'a'), ('sym', 'b')
    MK = "n = K(uuid=b'1', id_name='n', progenitor_qualified_name='p', values=vs)"
    for n in SIZES:
        vs = [('sym', f"v{i}") for i in range(n)]
        ps = ', '.join(f"v{i}" for i in range(n))
        env = {'K': ('cls', c), 'a': a, 'b': b, **{f"v{i}": v for i, v in enumerate(vs)}}
        head = f"def client(K, a, b{', ' + ps if n else ''}):\n    vs = [{ps}]\n    {MK}\n"
        full = L(*vs)

        def t(rule, con, body, wants):
            cl.check(rule, f"{N} with {n} values, {con}", head + ''.join('    ' + x + '\n' for x in body), wants, env)
        t('own-copy', 'list changed after building', ['vs.append(a)'] + (['vs[0] = b'] if n else []) + ['return n.get_values(), n.dim, list(n)'],
          [('get_values', full), ('dim', C(n)), ('iteration', full)])
        t('own-copy', 'read list changed', ['r = n.get_values()', 'r.append(a)'] + (['r[0] = b'] if n else []) + ['return n.get_values(), n.dim, list(n)'],
          [('get_values', full), ('dim', C(n)), ('iteration', full)])
        t('own-copy', 'list changed after updating', ['n.update_values([a, b])', 'n.update_values(vs)', 'vs.append(a)'] + (['vs[0] = b'] if n else []) + ['return n.get_values(), n.dim, list(n)'],
          [('get_values', full), ('dim', C(n)), ('iteration', full)])
        t('own-copy', 'node changed, list kept', (['n.update_value(0, a)', f"n[{n - 1}] = b"] if n else []) + ['n.update_values([a])', 'return (vs,)'], [('list', full)])
        t('own-copy', 'updated with its own values', ['n.update_values(n.get_values())', 'n.update_values(n.val)', 'return n.get_values(), n.dim'],
          [('get_values', full), ('dim', C(n))])
        t('own-copy', 'two nodes from one list', ["k = K(uuid=b'2', id_name='k', progenitor_qualified_name='p', values=vs)"] + (['k.update_value(0, a)'] if n else []) +
          ['k.update_values([a, b])', 'return n.get_values(), n.dim, k.get_values()'], [('get_values', full), ('dim', C(n)), ('other', L(a, b))])
        t('dimension', 'updated', ['d0 = n.dim', 'n.update_values([a, b, a, b])', 'd1 = n.dim', 'x = n.get_values()', 'l1 = list(n)', 'n.update_values([a])', 'd2 = n.dim', 'l2 = list(n)',
                                   'n.update_values([])', 'd3 = n.dim', 'l3 = list(n)', 'return d0, d1, d2, d3, x, l1, l2, l3'],
          [('at first', C(n)), ('four', C(4)), ('one', C(1)), ('none', C(0)), ('values', L(a, b, a, b)), ('iteration of four', L(a, b, a, b)),
           ('iteration of one', L(a)), ('iteration of none', L())])
        t('iterate', 'twice', ['return [x for x in n], [x for x in n], list(n)'], [('first', full), ('second', full), ('third', full)])
        if n:
            t('iterate', 'nested', ['r = []', 'for x in n:', '    for y in n:', '        r.append(y)', '    r.append(x)', 'return (r,)'],
              [('order', L(*[z for x in vs for z in vs + [x]]))])
            t('iterate', 'broken off', ['for x in n:', '    break', 'return list(n), x'], [('iteration', full), ('first', vs[0])])
            t('iterate', 'after next', ['i = iter(n)', 'x = next(i)', 'return list(n), x'], [('iteration', full), ('first', vs[0])])
        if n < 5:
            for i in range(n):
                new = L(*[a if j == i else v for j, v in enumerate(vs)])
                rd = [(f"n[{j}]", a if j == i else v) for j, v in enumerate(vs)]
                rest = f"return n.get_values(), n.dim, list(n), {', '.join(f'n[{j}]' for j in range(n))}, {', '.join(f'n.get_value({j})' for j in range(n))}"
                W = [('get_values', new), ('dim', C(n)), ('iteration', new)] + rd + [(f"get_value({j})", a if j == i else v) for j, v in enumerate(vs)]
                t('one-value', f"update_value({i})", [f"n.update_value({i}, a)", rest], W)
                t('one-value', f"n[{i}]", [f"n[{i}] = a", rest], W)
                t('one-value', f"value {i} twice", [f"n[{i}] = b", f"n.update_value({i}, a)", rest], W)
    head = "def client(K, a, b, x, y):\n"
    env = {'K': ('cls', c), 'a': a, 'b': b, 'x': ('sym', 'x'), 'y': ('sym', 'y')}
    cl.check('dimension', f"{N} without values", head + "    n = K(uuid=b'1', id_name='n', progenitor_qualified_name='p')\n    return n.get_values(), n.dim, list(n)\n",
             [('get_values', L()), ('dim', C(0)), ('iteration', L())], env)
    odd = [NONE, C(0), C(0.0), C(''), FALSE, C(1.5), NONE]
    cl.check('iterate', f"{N} with values that are nothing", head + "    vs = [None, 0, 0.0, '', False, 1.5, None]\n    n = K(uuid=b'1', id_name='n', progenitor_qualified_name='p', values=vs)\n"
             "    k = K(uuid=b'2', id_name='k', progenitor_qualified_name='p', values=[x])\n    k.update_values(vs)\n    k[5] = None\n    k.update_value(4, None)\n"
             "    return n.get_values(), n.dim, list(n), k.get_values(), k.dim, list(k)\n",
             [('get_values', L(*odd)), ('dim', C(7)), ('iteration', L(*odd)), ('updated', L(*odd[:4], NONE, NONE, NONE)), ('dim of the updated', C(7)),
              ('iteration of the updated', L(*odd[:4], NONE, NONE, NONE))], env)
    cl.check('one-value', f"{N} from a tuple", head + "    n = K(uuid=b'1', id_name='n', progenitor_qualified_name='p', values=(x, y))\n    n.update_value(0, a)\n"
             "    n.update_values((x, y))\n    n[1] = b\n    return n.get_values(), n.dim\n", [('get_values', L(('sym', 'x'), b)), ('dim', C(2))], env)


def params(m, c):
    """source of the constructor arguments a semantic class needs besides the common ones"""
    fi = m.p.find(c, '__init__')
    names = [x.arg for x in fi.node.args.args][1:] if fi is not None else []
    out = []
    for n in names:
        if n in ('uuid', 'id_name', 'progenitor_qualified_name', 'parent', 'attr'):
            continue
        out.append(f"{n}=None")
    return ''.join(', ' + x for x in out)


def semantic(ctx, m, c):
    I = m.interp(implicit=True)
    I.unroll = True
    cl = Client(ctx, I, c.mod, f"{c.mod.relpath}:{c.node.lineno} {c.name}")
    N = c.name
    a, b, x, y, k = (('sym', t) for t in 'abxyk')
    a, b, x, y, k = ('sym', 'a'), ('sym', 'b'), ('sym', 'x'), ('sym', 'y'), ('sym', 'k')
    env = {'K': ('cls', c), 'a': a, 'b': b, 'x': x, 'y': y, 'k': k}
    mk = lambda d: f"K(uuid=b'1', id_name='n', progenitor_qualified_name='p', parent=None, attr={d}{params(m, c)})"

    def t(rule, con, body, wants, first="d = {'p': x, 'q': y}"):
        src = "def client(K, a, b, x, y, k):\n" + ''.join('    ' + z + '\n' for z in [first, 'n = ' + mk('d')] + body)
        cl.check(rule, f"{N}, {con}", src, wants, env)
    t('own-attributes', 'dictionary changed after building', ["d['p'] = a", "d['r'] = b", "del d['q']", "return n['p'], n['q'], n['r']"],
      [('changed', x), ('removed', y), ('added', NONE)])
    t('own-attributes', 'node changed, dictionary kept', ["n.add_named_attribute('p', a)", "n.add_named_attribute('r', a)", "n.remove_named_attribute('q')",
                                                          "return d['p'], d['q'], True if 'r' in d else False"], [('changed', x), ('removed', y), ('added', C(False))])
    t('own-attributes', 'two nodes from one dictionary', ['o = ' + mk('d'), "o.add_named_attribute('p', a)", "o.remove_named_attribute('q')", "return n['p'], n['q'], o['p'], o['q']"],
      [('changed', x), ('removed', y), ('other changed', a), ('other removed', NONE)])
    t('missing', 'absent', ["return n['r'], n['p'], n['q']"], [('absent', NONE), ('first', x), ('second', y)])
    t('missing', 'no attributes', ["return n['r'], n[k]"], [('absent', NONE), ('any name', NONE)], "d = {}")
    for lit in ('0', "''", 'False', '[]'):
        want = {'0': C(0), "''": C(''), 'False': C(False), '[]': L()}[lit]
        t('missing', f"value {lit}", ["return (n['p'],)"], [('present', want)], f"d = {{'p': {lit}}}")
    t('attributes', 'added', ["n.add_named_attribute('r', a)", "return n['r'], n['p'], n['q'], n['s']"], [('added', a), ('first', x), ('second', y), ('absent', NONE)])
    t('attributes', 'set again', ["n.add_named_attribute('p', a)", "return n['p'], n['q']"], [('set', a), ('other', y)])
    t('attributes', 'removed', ["n.remove_named_attribute('p')", "return n['p'], n['q']"], [('removed', NONE), ('other', y)])
    t('attributes', 'absent removed', ["n.remove_named_attribute('r')", "return n['p'], n['q'], n['r']"], [('first', x), ('second', y), ('absent', NONE)])
    t('attributes', 'removed and added', ["n.remove_named_attribute('p')", "n.remove_named_attribute('p')", "n.add_named_attribute('p', b)", "return n['p'], n['q']"], [('set', b), ('other', y)])
    if m.p.find(c, 'setup') is not None:
        t('attributes', 'named', ["n.setup(a)", "return n['name'], n['p'], n['q']"], [('name', a), ('first', x), ('second', y)])
        t('attributes', 'renamed', ["n.setup(a)", "n.setup(b)", "return (n['name'],)"], [('name', b)], "d = {'name': x}")


def factories(ctx, m):
    F = m.p.cls('HypergraphFactory')
    f = m.p.find(F, 'create_value')
    if f is None:
        return
    I = m.interp(implicit=True)
    I.unroll = True
    cl = Client(ctx, I, F.mod, f.where)
    env = {'K': ('cls', F), 'clock': ('sym', 'clock'), 'a': ('sym', 'a'), 'x': ('sym', 'x'), 'y': ('sym', 'y')}
    src = ("def client(K, clock, a, x, y):\n    vs = [x, y]\n    f = K('f', clock)\n    n = f.create_value({}, 'v', vs)\n    vs.append(a)\n    vs[0] = a\n"
           "    n.update_value(1, a)\n    return n.get_values(), n.dim, vs\n")
    W = [('get_values', L(('sym', 'x'), ('sym', 'a'))), ('dim', C(2)), ('list', L(('sym', 'a'), ('sym', 'y'), ('sym', 'a')))]
    cl.check('own-copy', 'created without a container', src.format('None'), W, env)
    src = src.replace("    n = f.create_value", "    h = f.generate_node('h')\n    n = f.create_value")
    cl.check('own-copy', 'created in a container', src.format('h'), W, env)
