"""Containment model: the roles of the hierarchy's private state (found through its public observers), the effect of a
path on each view of a container, and the comparison of those views."""
from sa.loader import AnalysisError, ClassInfo
from sa.interp import State, NONE, C, is_c, contains, subst
from .base import *      # noqa: F401,F403

SELF = ('sym', 'self')

PURE_CALLS = {'get_subelements', 'get_element_by_id_name', 'update_qualified_name', 'get_time_ns', 'get_time_sec',
              'generate_uid', 'hex', 'encode', 'digest', 'items', 'values', 'keys', 'get', 'copy',
              'get_qualified_name', 'get_stamped_qualified_name', 'get_incoming_relations', 'get_outgoing_relations',
              'get_value', 'get_values'}


def single(vals):
    vals = list(dict.fromkeys(vals))
    return vals[0] if len(vals) == 1 else None


class Model:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.prog
        self.H = self.p.cls('HierarchicalElement')
        self.CI = self.p.cls('ConceptualItem')
        self.family = [self.H] + [c for c in self.p.subclasses.get(self.H, [])]
        self.PARENT = self.field_of(self.H, 'parent')
        self.UUID = self.field_of(self.H, 'uuid')
        self.ID = self.field_of(self.H, 'id_name')
        self.QUAL = self.field_of(self.H, 'qualified_name')
        self.DEPTH = self.field_of(self.H, 'depth', need=False)
        self.CID = self.field_of(self.H, 'cid')
        self.CNT = self.field_of(self.CI, 'cnt_subelements', need=False)
        self.TS = self.field_of(self.CI, 'timestamp')
        self.CLOCK = self.field_of(self.CI, 'clock')
        self.CH = self.find_children()
        self.IDX = self.find_index()
        t = ctx.prog.__dict__.setdefault('_x', {})

    # ------------------------------------------------------------------ roles
    def run(self, cls, fname, args=(), I=None, st=None, recv=SELF, **kw):
        f = self.p.find(cls, fname)
        if f is None:
            raise AnalysisError(f"{cls.name}.{fname} not found")
        I = I or self.ctx.interp()
        st = st or self.start(cls)
        return I, f, I.entry(f, list(args), st, recv=recv, **kw)

    def start(self, cls, recv=SELF):
        st = State()
        st.types[recv] = cls
        st.vers['nonnull'] = (recv,)
        st.vers['exact'] = (recv,)
        return st

    def field_of(self, cls, prop, need=True):
        I, f, r = self.run(cls, prop)
        v = single([s[1] for _, s in r if s[0] == 'return'])
        if v is not None and v[0] == 'f' and v[1] == SELF:
            return v[2]
        if need:
            raise AnalysisError(f"{cls.name}.{prop} is not a plain state observer any more")
        return None

    def find_children(self):
        I, f, r = self.run(self.H, 'get_subelements', [('sym', 'flt')])
        found = set()
        for lp in I.loops.values():
            c = lp.coll
            if c and c[0] == 'view' and c[1] in ('values', 'items') and c[2][0] == 'f' and c[2][1] == SELF:
                found.add(c[2][2])
        if len(found) != 1:
            raise AnalysisError(f"children container not recognised: {found}")
        return found.pop()

    def find_index(self):
        I, f, r = self.run(self.CI, 'get_element_by_id_name', [('sym', 'name')])
        found = set()

        def scan(v):
            if isinstance(v, tuple):
                if v and v[0] == 'f' and len(v) == 4 and v[1] == SELF and v[2] != self.CH:
                    found.add(v[2])
                for x in v:
                    scan(x)
        for lp in I.loops.values():
            if lp.coll:
                scan(lp.coll)
        for s, _ in r:
            for a, _p in s.facts:
                if a[0] == 'in':
                    scan(a)
        if len(found) > 1:
            raise AnalysisError(f"name index not recognised: {found}")
        return found.pop() if found else None

    # ------------------------------------------------------------------ interpretation
    def interp(self, implicit=True, contracts=None, **kw):
        I = self.ctx.interp(implicit=implicit, invariants=[self.inv], contracts=contracts or {}, **kw)
        I.value_types = self.value_types
        return I

    def value_types(self, I, st, cont):
        if cont[0] == 'f':
            if cont[2] == self.CH:
                return self.H
            if cont[2] == self.IDX:
                return 'dict'
        if cont[0] == 'item' and cont[1][0] == 'f' and cont[1][2] == self.IDX:
            return self.H
        return None

    def chf(self, s):
        return ('f', s, self.CH, 0)

    def idxf(self, s):
        return ('f', s, self.IDX, 0)

    def is_bucket(self, cont, s=None):
        return cont[0] == 'item' and cont[1][0] == 'f' and cont[1][2] == self.IDX and (s is None or cont[1][1] == s)

    def child_of(self, I, st, t):
        """(container S, canonical id) when t denotes a child of S at entry (representation invariant)"""
        if t[0] == 'item':
            if t[1][0] == 'f' and t[1][2] == self.CH:
                return t[1][1], self.cid(I, st, t[2])
            if self.is_bucket(t[1]):
                return t[1][1][1], self.cid(I, st, t[2])
        if t[0] == 'elem' and t[2] == 0:
            b = self.loop_members(I, t[1])
            if b is not None:
                return b[0], ('uuid', t)
        return None

    def loop_members(self, I, lid):
        """(S, ('children',)) or (S, ('bucket', name)) when the loop runs over children of S"""
        lp = I.loops.get(lid)
        c = lp.coll if lp is not None else None
        while c is not None and c[0] in ('coll', 'iter'):
            c = c[1]
        if c is None:
            return None
        if c[0] == 'list' and len(c[1]) == 1 and c[1][0][0] == 'each':
            return self.loop_members(I, c[1][0][1])
        if c[0] == 'each':
            return self.loop_members(I, c[1])
        if c[0] == 'splice':
            c = c[1]
        if c[0] == 'view':
            c = c[2]
        if c[0] == 'f' and c[2] == self.CH:
            return c[1], ('children',)
        if self.is_bucket(c):
            return c[1][1], ('bucket', c[2])
        return None

    def view_of(self, c):
        """the container a view or collection term shows"""
        while c is not None and c[0] in ('coll', 'iter', 'view', 'splice'):
            c = c[2] if c[0] == 'view' else c[1]
        return c

    def loop_children_of(self, I, lp):
        """S when the loop goes through all children of S"""
        m = self.loop_members(I, lp.lid)
        return m[0] if m is not None and m[1] == ('children',) else None

    def cid(self, I, st, k):
        """canonical identifier of a key term"""
        if k[0] == 'f' and k[2] == self.UUID:
            t = self.child_of(I, st, k[1])
            if t is not None:
                return t[1]
            return ('uuid', k[1])
        if k[0] == 'elem' and k[2] == 1:
            if self.loop_members(I, k[1]) is not None:
                return ('uuid', ('elem', k[1], 0))
        return k

    def elem_id(self, I, st, t):
        """canonical identifier of an element term"""
        c = self.child_of(I, st, t)
        return c[1] if c is not None else ('uuid', t)

    def in_children(self, I, st, K, S):
        """is the element with canonical id K known to be (not) a child of S at entry?"""
        if K[0] == 'uuid':
            c = self.child_of(I, st, K[1])
            if c is not None and c[0] == S:
                return True
            for f, pol in st.facts:
                if f[0] == 'is' and pol and set(f[1:]) == {('f', K[1], self.PARENT, 0), S}:
                    return True
        for f, pol in st.facts:
            if f[0] == 'in' and f[3] == 0 and self.cid(I, st, f[1]) == K:
                if f[2] == self.chf(S):
                    return pol
                if pol and self.is_bucket(f[2], S):
                    return True
        return None

    def inv(self, I, st, atom):
        """Consequences of the representation invariant (which add/remove are shown to preserve)."""
        if atom[0] == 'in':
            _, k, cont, ver = atom
            if cont[0] == 'f' and cont[2] == self.CH:
                if ver and not self.only_own_iters(I, st, cont, ver, k):
                    return None
                return self.in_children(I, st, self.cid(I, st, k), cont[1])
            if cont[0] == 'f' and cont[2] == self.IDX and k[0] == 'f' and k[2] == self.ID:
                c = self.child_of(I, st, k[1])
                if c is not None and c[0] == cont[1] and not [o for o in st.ops.get(cont, ())[:ver] if o[0] != 'iter']:
                    return True
            if self.is_bucket(cont):
                S = cont[1][1]
                K = self.cid(I, st, k)
                if ver and not self.only_own_iters(I, st, cont, ver, k):
                    return None
                ic = self.in_children(I, st, K, S)
                if ic is False:
                    return False
                n = cont[2]
                if ic:
                    if n[0] == 'f' and n[2] == self.ID and self.elem_id(I, st, n[1]) == K:
                        return True
                    if K[0] == 'uuid' and K[1][0] == 'elem':
                        m = self.loop_members(I, K[1][1])
                        if m == (S, ('bucket', n)):
                            return True
        elif atom[0] == 'is':
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if x[0] == 'f' and x[2] == self.PARENT and x[3] == 0:
                    K = self.elem_id(I, st, x[1])
                    if y != NONE:
                        r = self.in_children(I, st, K, y)
                        if r is not None and st.fields.get((x[1], self.PARENT), x) == x:
                            return r
                    else:
                        c = self.child_of(I, st, x[1])
                        if c is not None:
                            return False
        return None

    def only_own_iters(self, I, st, cont, ver, k):
        """the history before `ver` only holds earlier iterations of the loop the key is the element of: distinct
        elements of one container have distinct identifiers"""
        K = self.cid(I, st, k)
        for op in st.ops.get(cont, ())[:ver]:
            if op[0] == 'iter' and K[0] == 'uuid' and K[1][0] == 'elem' and K[1][1] == op[1]:
                continue
            return False
        return True

    # ------------------------------------------------------------------ views of one container
    def open_loops(self, I, st):
        done = set()

        def walk(evs):
            for e in evs:
                if e[0] == 'loop':
                    done.add(e[1].lid)
                    for p in e[1].paths:
                        walk(p.events)
        walk(st.events)
        return done

    def canon_members(self, I, lid, S):
        m = self.loop_members(I, lid)
        if m is not None and m[0] == S:
            return m[1]
        return ('loop', lid)

    def star(self, entries, lid):
        return tuple(sorted((subst(e, {('uuid', ('elem', lid, 0)): '*'}) for e in entries), key=repr))

    def expand(self, I, S, lid, per_path):
        """entries of a finished loop; per_path(p) -> entries or None"""
        lp = I.loops[lid]
        res = set()
        for p in lp.paths:
            if p.sig is not None and p.sig[0] not in ('break', 'return'):
                continue
            e = self.star(per_path(lp, p), lid)
            if p.sig is not None and not e:
                continue
            res.add(e)
        res.discard(())
        if not res:
            return []
        if len(res) == 1:
            es = res.pop()
            return [('iter', self.canon_members(I, lid, S), es)]
        return [('iterpaths', lid, tuple(sorted(res, key=repr)))]

    def view_children(self, I, st, S, ops=None, strip=()):
        cont = self.chf(S)
        ops = st.ops.get(cont, ()) if ops is None else ops
        out = []
        for op in ops:
            if op[0] == 'set':
                out.append(('+', self.cid(I, st, op[1]), self.elem_id(I, st, op[2])))
            elif op[0] == 'del':
                out.append(('-', self.cid(I, st, op[1])))
            elif op[0] == 'iter':
                if op[1] in strip:
                    continue
                out += self.expand(I, S, op[1], lambda lp, p: self.view_children(
                    I, p.st, S, I.path_ops(lp, p, cont), strip))
            else:
                out.append(('?', op[0]))
        return self.norm(out)

    def view_index(self, I, st, S, base=None, strip=()):
        """entries of the name index; base = loop head state for a path of a loop"""
        idx = self.idxf(S)
        out = []

        def delta(cont):
            a = base.ops.get(cont, ()) if base is not None else ()
            return st.ops.get(cont, ())[len(a):]
        conts = [c for c in st.ops if c == idx or self.is_bucket(c, S)]
        fresh = {}
        dels = []
        for op in delta(idx):
            if op[0] == 'set':
                fresh[op[2]] = op[1]
            elif op[0] == 'del':
                dels.append(op[1])
            elif op[0] == 'iter':
                if op[1] in strip:
                    continue
                out += self.expand(I, S, op[1], lambda lp, p: self.view_index(I, p.st, S, lp.head, strip))
            else:
                out.append(('?', op[0]))

        def bucket_ops(ops, name):
            for op in ops:
                if op[0] == 'set':
                    out.append(('+', self.cid(I, st, op[1]), self.elem_id(I, st, op[2]), name))
                elif op[0] == 'del':
                    out.append(('-', self.cid(I, st, op[1])))
                elif op[0] == 'iter':
                    if op[1] in strip:
                        continue
                    if ('done', op[1]) in out:
                        continue
                    if any(o[0] == 'iter' and o[1] == op[1] for o in delta(idx)):
                        continue
                    got = self.expand(I, S, op[1], lambda lp, p: self.view_index(I, p.st, S, lp.head, strip))
                    for g in got:
                        if g not in out:
                            out.append(g)
                elif op[0] == 'clear':
                    out.append(('iter', ('bucket', name), (('-', '*'),)))
                else:
                    out.append(('?', op[0]))
        for c in conts:
            if c != idx:
                bucket_ops(delta(c), c[2])
        for d, name in fresh.items():
            bucket_ops(st.ops.get(d, ()), name)
        for c in list(st.ops):
            # nested: bucket that a fresh object replaced
            if c[0] == 'item' and c[1] in fresh:
                pass
        for name in dels:
            full = ('iter', ('bucket', name), (('-', '*'),))
            if full in out:
                continue
            b = ('item', idx, name, 0)
            emp = any(f[0] == 'empty' and pol and (f[1] == b or (self.is_bucket(f[1], S) and f[1][2] == name))
                      for f, pol in st.facts)
            if not emp:
                out.append(full)
        # names under which elements were registered
        res = []
        for e in out:
            if e[0] == '+' and len(e) == 4:
                n = e[3]
                if n[0] == 'f' and n[2] == self.ID and self.elem_id(I, st, n[1]) == e[1]:
                    res.append(e[:3])
                else:
                    res.append(('+name', e[1], e[2], n))
            else:
                res.append(e)
        return self.norm(res)

    def view_parents(self, I, st, S, events=None, strip=()):
        out = []
        for e in (st.events if events is None else events):
            if e[0] == 'write' and e[2] == self.PARENT:
                k = self.elem_id(I, st, e[1])
                if e[3] == NONE:
                    c = self.child_of(I, st, e[1])
                    if e[1][0] == 'o' and (c is None or c[0] != S):
                        continue            # a new object states that it has no parent yet
                    out.append(('-', k))
                elif e[3] == S:
                    out.append(('+', k, k))
                else:
                    out.append(('parent', k, e[3]))
            elif e[0] == 'loop':
                lp = e[1]
                out += self.expand(I, S, lp.lid, lambda l, p: self.view_parents(I, p.st, S, p.events, strip))
        return self.norm(out)

    def norm(self, es):
        """net effect: an addition undone later is nothing"""
        out = []
        for e in es:
            if e[0] == '+' and ('-', e[1]) in out:
                pass
            out.append(e)
        return tuple(sorted(set(out), key=repr)) if len(set(out)) == len(out) else tuple(sorted(out, key=repr))

    def count_delta(self, I, st, S, v=None, depth=0):
        """number of children according to the counter, as {unit: n}; None when not understood"""
        if self.CNT is None:
            return 'derived'
        if v is None:
            v = st.fields.get((S, self.CNT), ('f', S, self.CNT, 0))
        return self.linear(I, v, ('f', S, self.CNT, 0), S, ('fld', S, self.CNT))

    def linear(self, I, v, base, S, key):
        if v == base:
            return {}
        if v[0] == 'op' and v[1] in '+-' and len(v) == 4:
            for a, b, sg in ((v[2], v[3], 1 if v[1] == '+' else -1), (v[3], v[2], 1)) if v[1] == '+' else ((v[2], v[3], -1),):
                l = self.linear(I, a, base, S, key)
                if l is None:
                    continue
                l = dict(l)
                if is_c(b) and isinstance(b[2], int):
                    l['one'] = l.get('one', 0) + sg * b[2]
                    return {k: n for k, n in l.items() if n}
                if b[0] == 'len':
                    u = self.len_unit(I, b[1], S)
                    if u is not None:
                        l[u] = l.get(u, 0) + sg
                        return {k: n for k, n in l.items() if n}
            return None
        if v[0] == 'havoc':
            lp = I.loops.get(v[1])
            if lp is None or v[2] not in lp.init:
                return None
            l = self.linear(I, lp.init[v[2]], base, S, key)
            if l is None:
                return None
            ds = set()
            for nx in lp.next:
                d = self.linear(I, nx[v[2]], v, S, key)
                if d is None:
                    return None
                ds.add(tuple(sorted(d.items(), key=repr)))
            if len(ds) != 1:
                return None
            d = dict(ds.pop())
            if set(d) - {'one'}:
                return None
            l = dict(l)
            u = ('iter', self.canon_members(I, v[1], S))
            if d.get('one'):
                l[u] = l.get(u, 0) + d['one']
            return {k: n for k, n in l.items() if n}
        return None

    def len_unit(self, I, x, S):
        while x[0] in ('view', 'splice', 'coll'):
            x = x[2] if x[0] == 'view' else x[1]
        if x[0] == 'list' and len(x[1]) == 1:
            y = x[1][0]
            if y[0] == 'each':
                return ('iter', self.canon_members(I, y[1], S))
            if y[0] == 'splice':
                return self.len_unit(I, y[1], S)
        if self.is_bucket(x, S):
            return ('iter', ('bucket', x[2]))
        if x == self.chf(S):
            return ('iter', ('children',))
        return None

    def expected_count(self, entries):
        d = {}
        for e in entries:
            if e[0] == '+':
                d['one'] = d.get('one', 0) + 1
            elif e[0] == '-':
                d['one'] = d.get('one', 0) - 1
            elif e[0] == 'iter':
                n = sum(1 if x[0] == '+' else -1 if x[0] == '-' else 0 for x in e[2])
                u = ('iter', e[1])
                d[u] = d.get(u, 0) + n
            else:
                return None
        return {k: n for k, n in d.items() if n}

    def open_count(self, I, st, S, strip):
        """counter relative to the head of the loops in progress"""
        v = st.fields.get((S, self.CNT), ('f', S, self.CNT, 0))
        base = ('f', S, self.CNT, 0)

        def has(v):
            if v[0] == 'havoc' and v[1] in strip:
                return v
            if v[0] == 'op':
                for x in v[2:]:
                    r = has(x)
                    if r:
                        return r
            return None
        h = has(v)
        return self.linear(I, v, h or base, S, None)

    # ------------------------------------------------------------------ effects visible from outside
    def effects(self, I, events, skip=()):
        out = []
        for e in events:
            k = e[0]
            if k == 'write':
                if e[1][0] != 'o':
                    out.append((f"writes {self.show(e[1])}.{e[2]}", e[-1]))
            elif k in ('setitem', 'delitem', 'mapupdate', 'mapclear'):
                if e[1][0] != 'o':
                    out.append((f"changes {self.show(e[1])}", e[-1]))
            elif k == 'mcall':
                root = e[1]
                while root[0] in ('mcall', 'f', 'item', 'attr'):
                    root = root[1]
                if root[0] in ('call', 'ext', 'c', 'cat', 'join'):
                    continue                # a local object of a foreign library
                if e[2] not in PURE_CALLS and e[2] not in skip:
                    # what an element not yet linked anywhere does to itself is invisible
                    out.append((f"calls {self.show(e[1])}.{e[2]}", e[-1]))
            elif k == 'consume':
                v = e[1]
                if not (v[0] in ('mcall', 'call') and (v[2] in PURE_CALLS if v[0] == 'mcall' else True)):
                    out.append((f"runs {self.show(v)}", e[-1]))
            elif k == 'loop':
                for p in e[1].paths:
                    out += self.effects(I, p.events, skip)
        return out

    def show(self, t, depth=0):
        if not isinstance(t, tuple) or not t or depth > 5:
            return str(t) if not isinstance(t, tuple) else '...' if t else '()'
        k = t[0]
        if k == 'sym':
            return str(t[1])
        if k == 'f':
            return f"{self.show(t[1], depth + 1)}.{t[2]}"
        if k == 'item':
            return f"{self.show(t[1], depth + 1)}[{self.show(t[2], depth + 1)}]"
        if k == 'c':
            return repr(t[2])
        if k == 'elem':
            return 'element'
        if k == 'uuid':
            return f"uuid of {self.show(t[1], depth + 1)}"
        if k == 'mcall':
            return f"{self.show(t[1], depth + 1)}.{t[2]}(...)"
        if k == 'o':
            return 'new object'
        return '(' + ' '.join(self.show(x, depth + 1) for x in t) + ')'
