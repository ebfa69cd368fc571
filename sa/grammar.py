"""ANTLR4 grammars: rules, the parse-tree classes the generator makes of them for Python, and a parser for sentences."""
import re

# names the Python target of the generator writes with a trailing underscore
RESERVED = set('abs all and any apply as assert bin bool break buffer bytearray callable chr class classmethod coerce compile complex continue def del '
               'delattr dict dir divmod elif else enumerate eval except execfile file filter finally float for format from frozenset getattr global '
               'globals hasattr hash help hex id if import in input int intern is isinstance issubclass iter lambda len list locals map max min '
               'memoryview next nonlocal not object oct open or ord pass pow print property raise range raw_input reduce reload repr return reversed '
               'round set setattr slice sorted staticmethod str sum super try tuple type unichr unicode vars while with yield zip __import__ True '
               'False None rule parserRule'.split())


def escape(n):
    return n + '_' if n in RESERVED else n


class GrammarError(Exception):
    pass


TOKEN = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_]\w*)|(?P<op>->|\+=|[:;|()?*+=.,~\#{}@])""", re.S)


def lex(text):
    i, out = 0, []
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise GrammarError(f"cannot read grammar at {text[i:i + 20]!r}")
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


class Rule:
    def __init__(self, name, body, file, skip=False, fragment=False):
        self.name, self.body, self.file, self.skip, self.fragment = name, body, file, skip, fragment


# body nodes: ('alt', [..]) ('seq', [..]) ('rep', x, '?*+') ('ref', name) ('tok', name) ('lit', text) ('set', chars) ('dot',) ('label', name, x)


class Grammar:
    def __init__(self, texts, root):
        """texts: {grammar name: (file, source)}"""
        self.rules, self.lexer, self.order = {}, {}, []
        self.literals = []
        self._load(texts, root, [])

    def _load(self, texts, name, seen):
        if name in seen:
            return
        seen.append(name)
        if name not in texts:
            raise GrammarError(f"grammar {name} not found")
        file, src = texts[name]
        imports = self._parse(lex(src), file)
        for i in imports:
            self._load(texts, i, seen)

    def _parse(self, ts, file):
        pos = 0
        imports = []

        def peek(k=0):
            return ts[pos + k] if pos + k < len(ts) else ('end', '')

        def take(v=None):
            nonlocal pos
            t = peek()
            if v is not None and t[1] != v:
                raise GrammarError(f"{v} expected, {t[1]!r} found in {file}")
            pos += 1
            return t

        def alternatives():
            out = [sequence()]
            while peek()[1] == '|' and peek()[0] == 'op':
                take()
                out.append(sequence())
            return out[0] if len(out) == 1 else ('alt', out)

        def sequence():
            out = []
            while not (peek()[0] == 'op' and peek()[1] in '|;)' or peek()[1] == '->' or peek()[0] == 'end'):
                if peek()[1] == '#':
                    raise GrammarError('labelled alternatives are not modelled')
                out.append(element())
            return out[0] if len(out) == 1 else ('seq', out)

        def element():
            label = None
            if peek()[0] == 'id' and peek(1)[1] in ('=', '+='):
                label = take()[1]
                if take()[1] == '+=':
                    raise GrammarError('list labels are not modelled')
            kind, v = take()
            if kind == 'lit':
                x = ('lit', re.sub(r'\\(.)', r'\1', v[1:-1]))
            elif kind == 'set':
                x = ('set', v[1:-1])
            elif kind == 'id':
                x = ('tok', v) if v[0].isupper() else ('ref', v)
            elif v == '.':
                x = ('dot',)
            elif v == '(':
                x = alternatives()
                take(')')
            else:
                raise GrammarError(f"unexpected {v!r} in {file}")
            if label:
                x = ('label', label, x)
            while peek()[0] == 'op' and peek()[1] in '?*+':
                x = ('rep', x, take()[1])
                if peek()[1] == '?' and x[2] in '*+':
                    take()
            return x

        if peek()[1] in ('parser', 'lexer'):
            take()
        take('grammar')
        take()
        take(';')
        while peek()[0] != 'end':
            if peek()[1] == 'import':
                take()
                while True:
                    imports.append(take()[1])
                    if take()[1] == ';':
                        break
                continue
            fragment = peek()[1] == 'fragment'
            if fragment:
                take()
            name = take()[1]
            take(':')
            body = alternatives()
            skip = False
            if peek()[1] == '->':
                take()
                skip = take()[1] == 'skip'
            take(';')
            table = self.lexer if name[0].isupper() else self.rules
            if name not in table:
                table[name] = Rule(name, body, file, skip, fragment)
        return imports

    # ---------------------------------------------------------------------------------------------------- parse-tree classes
    def parts(self, name):
        """({part name: 0/1/2 how often at most}, {label: 'token' or rule name}) of a rule"""
        count, labels = {}, {}

        def merge(a, b, f):
            return {k: min(2, f(a.get(k, 0), b.get(k, 0))) for k in set(a) | set(b)}

        def walk(x):
            t = x[0]
            if t in ('ref', 'tok'):
                return {x[1]: 1}
            if t == 'label':
                inner = x[2]
                labels[x[1]] = inner[1] if inner[0] == 'ref' else 'token'
                return walk(inner)
            if t == 'rep':
                c = walk(x[1])
                return c if x[2] == '?' else {k: 2 for k in c}
            if t == 'seq':
                c = {}
                for y in x[1]:
                    c = merge(c, walk(y), lambda a, b: a + b)
                return c
            if t == 'alt':
                c = {}
                for y in x[1]:
                    c = merge(c, walk(y), max)
                return c
            return {}
        count = walk(self.rules[name].body)
        return count, labels

    @staticmethod
    def context(name):
        return name[0].upper() + name[1:] + 'Context'

    def parser_source(self):
        out = ['class Token:', '    def __init__(self, text):', '        self.text = text', '',
               'class TerminalNode:', '    def __init__(self, symbol, text):', '        self.symbol = symbol', '        self.text = text',
               '    def getText(self):', '        return self.text', '    def __str__(self):', '        return self.text',
               '    def getSymbol(self):', '        return self.symbol',
               '    def accept(self, visitor):', '        return visitor.visitTerminal(self)', '',
               'class ParserRuleContext:', '    def __init__(self):', '        self.parentCtx = None', '        self.children = []',
               '        self.start = None', '        self.stop = None',
               '    def getChildCount(self):', '        return len(self.children)', '    def getChild(self, i):', '        return self.children[i]',
               '    def getChildren(self):', '        for c in self.children:', '            yield c',
               '    def getText(self):', "        return ''.join([c.getText() for c in self.children])", '',
               ]
        for n in self.rules:
            out += self.context_source(n)
        out += ['class CogniLangParser:']
        for i, t in enumerate([n for n, r in self.lexer.items() if not r.fragment]):
            out.append(f"    {t} = {i + 1}")
        for i, n in enumerate(self.rules):
            out.append(f"    RULE_{n} = {i}")
        for n in self.rules:
            out.append(f"    {self.context(n)} = {self.context(n)}")
        return '\n'.join(out) + '\n'

    def context_source(self, n):
        count, labels = self.parts(n)
        out = [f"class {self.context(n)}(ParserRuleContext):", '    def __init__(self):', '        super().__init__()']
        out += [f"        self.{escape(l)} = None" for l in labels]
        out += [f"        self._p_{c} = []" for c in count]
        for c, k in count.items():
            m = escape(c) if c[0].islower() else c
            if k > 1:
                out += [f"    def {m}(self, i=None):", '        if i is None:', f"            return self._p_{c}",
                        f"        return self._p_{c}[i] if i < len(self._p_{c}) else None"]
            else:
                out += [f"    def {m}(self):", f"        return self._p_{c}[0] if len(self._p_{c}) > 0 else None"]
        return out + ['    def getRuleIndex(self):', f"        return CogniLangParser.RULE_{n}",
                      '    def accept(self, visitor):', f"        return visitor.visit{n[0].upper() + n[1:]}(self)"]

    def visitor_source(self, parser_module):
        out = ['class ParseTreeVisitor:', '    def visit(self, tree):', '        return tree.accept(self)', '    def visitChildren(self, node):',
               '        result = None', '        for c in node.children:', '            result = c.accept(self)', '        return result',
               '    def visitTerminal(self, node):', '        return None', '    def visitErrorNode(self, node):', '        return None', '',
               'class CogniLangVisitor(ParseTreeVisitor):']
        for n in self.rules:
            out += [f"    def visit{n[0].upper() + n[1:]}(self, ctx):", '        return self.visitChildren(ctx)']
        return '\n'.join(out) + '\n'

    # ---------------------------------------------------------------------------------------------------- sentences
    def ends(self, x, text, i):
        """positions after which the lexical element x can end when it starts at i"""
        t = x[0]
        if t == 'lit':
            return {i + len(x[1])} if text.startswith(x[1], i) else set()
        if t == 'set':
            return {i + 1} if i < len(text) and re.fullmatch('[' + x[1] + ']', text[i]) else set()
        if t == 'dot':
            return {i + 1} if i < len(text) else set()
        if t in ('tok', 'ref'):
            return self.ends(self.lexer[x[1]].body, text, i) if x[1] in self.lexer else set()
        if t == 'label':
            return self.ends(x[2], text, i)
        if t == 'seq':
            cur = {i}
            for y in x[1]:
                cur = {e for c in cur for e in self.ends(y, text, c)}
            return cur
        if t == 'alt':
            return {e for y in x[1] for e in self.ends(y, text, i)}
        if t == 'rep':
            done = set() if x[2] == '+' else {i}
            todo = {i}
            while todo:
                nxt = {e for c in todo for e in self.ends(x[1], text, c) if e != c} - done
                done |= nxt
                todo = nxt if x[2] != '?' else set()
            return done
        return set()

    def all_literals(self):
        if not self.literals:
            def walk(x):
                if x[0] == 'lit':
                    if x[1] not in self.literals:
                        self.literals.append(x[1])
                elif x[0] == 'label':
                    walk(x[2])
                elif x[0] == 'rep':
                    walk(x[1])
                elif x[0] in ('seq', 'alt'):
                    for y in x[1]:
                        walk(y)
            for r in self.rules.values():
                walk(r.body)
            # a lexer rule that is one literal gives its name to that literal
            self.named = {r.body[1]: n for n, r in self.lexer.items() if r.body[0] == 'lit'}
        return self.literals

    def tokenize(self, text):
        """[(kind, text)]: kind is the literal itself or the name of the lexer rule; `$name` stands for any FLOAT"""
        out, i = [], 0
        lits = self.all_literals()
        while i < len(text):
            m = re.compile(r'\$(\w+)').match(text, i)
            if m:
                out.append(('FLOAT', m.group()))
                i = m.end()
                continue
            best = (0, None)
            for l in lits:
                if text.startswith(l, i) and len(l) > best[0]:
                    best = (len(l), ('lit', l))
            for n, r in self.lexer.items():
                if r.fragment:
                    continue
                e = max(self.ends(r.body, text, i), default=i)
                if e - i > best[0]:
                    best = (e - i, ('skip' if r.skip else 'rule', n))
            if not best[0]:
                raise GrammarError(f"no token at {text[i:i + 20]!r}")
            s = text[i:i + best[0]]
            if best[1][0] == 'lit':
                out.append((best[1][1], s))
            elif best[1][0] == 'rule':
                out.append((best[1][1], s))
            i += best[0]
        return out

    def parse(self, rule, text):
        """parse tree ('node', rule, [(child, label)...]) with leaves ('leaf', token kind, text); the first tree found"""
        ts = self.tokenize(text)
        far = [0]
        used = set()
        memo = {}

        def run(x, i, key):
            """yields (end, children, uses)"""
            t = x[0]
            if t == 'lit' or t == 'tok':
                if i < len(ts):
                    far[0] = max(far[0], i)
                    k = ts[i][0]
                    ok = k == x[1] if t == 'lit' else k == x[1] or self.lexer.get(x[1]) is not None and self.lexer[x[1]].body == ('lit', k)
                    if ok:
                        yield i + 1, [(('leaf', x[1] if t == 'tok' else None, ts[i][1]), None)], []
            elif t == 'ref':
                for e, n, u in node(x[1], i):
                    yield e, [(n, None)], u
            elif t == 'label':
                for e, cs, u in run(x[2], i, key):
                    yield e, ([(cs[0][0], x[1])] if len(cs) == 1 else cs), u
            elif t == 'seq':
                def go(j, k):
                    if k == len(x[1]):
                        yield j, [], []
                        return
                    for e, cs, u in run(x[1][k], j, key + (k,)):
                        for e2, cs2, u2 in go(e, k + 1):
                            yield e2, cs + cs2, u + u2
                yield from go(i, 0)
            elif t == 'alt':
                for k, y in enumerate(x[1]):
                    for e, cs, u in run(y, i, key + (k,)):
                        yield e, cs, u + [(key, f"alternative {k + 1}")]
            elif t == 'rep':
                hi = 1 if x[2] == '?' else 10 ** 6

                def more(j, n):
                    if n < hi:
                        for e, cs, u in run(x[1], j, key + ('r',)):
                            if e > j:
                                for e2, cs2, u2 in more(e, n + 1):
                                    yield e2, cs + cs2, u + u2
                    if n or x[2] != '+':
                        yield j, [], [(key, 'absent' if n == 0 else 'present' if hi == 1 else 'once' if n == 1 else 'more than once')]
                yield from more(i, 0)

        def node(name, i):
            if (name, i) not in memo:
                memo[(name, i)] = [(e, ('node', name, cs), u) for e, cs, u in run(self.rules[name].body, i, (name,))] if name in self.rules else []
            return memo[(name, i)]
        for e, n, u in node(rule, 0):
            if e == len(ts):
                return n, set(u)
        raise GrammarError(f"no sentence of {rule}: {text!r} at {ts[far[0]:far[0] + 4]}")

    def choices(self, rule, stop=()):
        """choice points [(key, option)] reachable from a rule"""
        out, seen = set(), set()

        def walk(x, key):
            t = x[0]
            if t == 'ref':
                rule_(x[1])
            elif t == 'label':
                walk(x[2], key)
            elif t == 'seq':
                for k, y in enumerate(x[1]):
                    walk(y, key + (k,))
            elif t == 'alt':
                for k, y in enumerate(x[1]):
                    out.add((key, f"alternative {k + 1}"))
                    walk(y, key + (k,))
            elif t == 'rep':
                out.update((key, o) for o in {'?': ('absent', 'present'), '*': ('absent', 'once', 'more than once'), '+': ('once', 'more than once')}[x[2]])
                walk(x[1], key + ('r',))

        def rule_(n):
            if n in seen or n in stop or n not in self.rules:
                return
            seen.add(n)
            walk(self.rules[n].body, (n,))
        rule_(rule)
        return out
