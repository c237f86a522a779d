"""Invisible XML: grammars generated as trees, spelled as text, and an own parser that counts and builds every derivation."""
import unicodedata, json
# factor: ('nt', mark, name, alias) ('lit', tmark, text, spelled) ('set', tmark, exclude, parts) ('ins', text, spelled) ('grp', alts)
# part: ('s', text) ('r', from, to) ('h', code) ('c', class)
# term: (factor, op, separator factor or None) op in '', '?', '*', '+', '**', '++';  alt: [term];  rule: [mark, name, alias, [alt]]

CLASSES = ['L', 'Lu', 'Ll', 'Lo', 'N', 'Nd', 'P', 'Po', 'Ps', 'Pe', 'S', 'Sm', 'Sc', 'Z', 'Zs', 'Nl', 'M', 'Mn', 'LC', 'Pd', 'So']

def in_class(ch, c):
    k = unicodedata.category(ch)
    if c == 'LC': return k in ('Lu', 'Ll', 'Lt')
    return k == c or (len(c) == 1 and k[0] == c)

def in_set(ch, f):
    inside = False
    for p in f[3]:
        if p[0] == 's': inside |= ch in p[1]
        elif p[0] == 'r': inside |= p[1] <= ord(ch) <= p[2]
        elif p[0] == 'h': inside |= ord(ch) == p[1]
        else: inside |= in_class(ch, p[1])
    return inside != f[2]

class TooMany(Exception): pass

class Parser:
    """Productions: nonterminal id -> list of item lists. Item: ('N', id, (mark, name, alias) or None) ('C', predicate, tmark) ('I', text)."""
    def __init__(self, rules):
        self.prods = []; self.names = {}; self.info = []
        self.undefined = set(); self.chars = set()
        for r in rules:
            if r[1] not in self.names: self.names[r[1]] = self.new((r[0], r[1], r[2]))
        for r in rules:
            for a in r[3]: self.prods[self.names[r[1]]].append(self.seq(a))
        self.start = self.names[rules[0][1]]
        self.nullable()

    def new(self, info=None):
        self.prods.append([]); self.info.append(info); return len(self.prods) - 1

    def seq(self, alt):
        o = []
        for t in alt: o += self.term(t)
        return o

    def factor(self, f):
        k = f[0]
        if k == 'nt':
            if f[2] not in self.names: self.names[f[2]] = self.new(('', f[2], None)); self.undefined.add(f[2])
            return [('N', self.names[f[2]], (f[1], f[3]))]
        if k == 'lit':
            return [('C', (lambda ch, c=c: ch == c), f[1]) for c in f[2]]
        if k == 'set': return [('C', (lambda ch, f=f: in_set(ch, f)), f[1])]
        if k == 'ins': return [('I', f[1])]
        g = self.new()
        for a in f[1]: self.prods[g].append(self.seq(a))
        return [('N', g, None)]

    def term(self, t):
        f, op, sep = t
        x = self.factor(f)
        if op == '': return x
        n = self.new(); me = ('N', n, None)
        if op == '?': self.prods[n] = [x, []]
        elif op == '*': self.prods[n] = [[], [me] + x]
        elif op == '+': self.prods[n] = [x, [me] + x]
        else:
            self.prods[n] = [x, [me] + self.factor(sep) + x]
            if op == '**':
                m = self.new(); self.prods[m] = [[me], []]; me = ('N', m, None)
        return [me]

    def nullable(self):
        self.null = [False] * len(self.prods); ch = True
        while ch:
            ch = False
            for n, ps in enumerate(self.prods):
                if not self.null[n] and any(all(self.inull(i) for i in p) for p in ps): self.null[n] = ch = True
        # a nonterminal that derives itself
        un = [set() for _ in self.prods]
        for n, ps in enumerate(self.prods):
            for p in ps:
                for j, i in enumerate(p):
                    if i[0] == 'N' and all(self.inull(x) for q, x in enumerate(p) if q != j): un[n].add(i[1])
        self.loops = False
        for n in range(len(self.prods)):
            seen = set(); todo = list(un[n])
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += un[x]
            if n in seen: self.loops = True
        # nonterminals that derive nothing
        prod = [False] * len(self.prods); ch = True
        while ch:
            ch = False
            for n, ps in enumerate(self.prods):
                if not prod[n] and any(all(i[0] != 'N' or prod[i[1]] for i in p) for p in ps): prod[n] = ch = True
        self.productive = prod

    def inull(self, i): return i[0] == 'I' or (i[0] == 'N' and self.null[i[1]])

    def parse(self, text, steps=200000):
        """Number of derivations of the whole text."""
        self.t = text; self.memo = {}; self.smemo = {}; self.steps = steps
        self.nul = {}
        return self.count(self.start, 0, len(text))

    def count(self, n, i, j):
        k = (n, i, j)
        if k not in self.memo:
            self.memo[k] = sum(self.cseq(n, p, 0, i, j) for p in range(len(self.prods[n])))
        return self.memo[k]

    def cseq(self, n, p, pos, i, j):
        rhs = self.prods[n][p]
        if pos == len(rhs): return int(i == j)
        k = (n, p, pos, i, j)
        r = self.smemo.get(k)
        if r is not None: return r
        self.steps -= 1
        if self.steps < 0: raise TooMany()
        it = rhs[pos]
        if it[0] == 'I': r = self.cseq(n, p, pos + 1, i, j)
        elif it[0] == 'C': r = self.cseq(n, p, pos + 1, i + 1, j) if i < j and it[1](self.t[i]) else 0
        else:
            r = 0
            rn = all(self.inull(x) for x in rhs[pos + 1:])
            for m in range(i, j + 1):
                if m == j and not rn: continue
                if m == i and not self.null[it[1]]: continue
                c = self.cseq(n, p, pos + 1, m, j)
                if c: r += c * self.count(it[1], i, m)
        self.smemo[k] = r
        return r

    def prefix(self, text):
        """(length of the longest prefix that some text of the language continues, is the whole text in the language). Grammars may loop."""
        pr = [[x for x in ps if all(i[0] != 'N' or self.productive[i[1]] for i in x)] for ps in self.prods]
        if not self.productive[self.start]: return -1, False
        sets = []; cur = [(self.start, a, 0, 0) for a in range(len(pr[self.start]))]
        for k in range(len(text) + 1):
            seen = set(cur); todo = list(cur); scan = []
            def add(x):
                if x not in seen: seen.add(x); todo.append(x)
            sets.append(seen)
            while todo:
                n, a, d, o = todo.pop(); rhs = pr[n][a]
                if d == len(rhs):
                    for m, b, e, q in list(sets[o]):
                        r = pr[m][b]
                        if e < len(r) and r[e][0] == 'N' and r[e][1] == n: add((m, b, e + 1, q))
                    continue
                i = rhs[d]
                if i[0] == 'I': add((n, a, d + 1, o))
                elif i[0] == 'N':
                    for b in range(len(pr[i[1]])): add((i[1], b, 0, k))
                    if self.null[i[1]]: add((n, a, d + 1, o))
                elif k < len(text) and i[1](text[k]): scan.append((n, a, d + 1, o))
            whole = k == len(text) and any(n == self.start and o == 0 and d == len(pr[n][a]) for n, a, d, o in seen)
            if k == len(text): return k, whole
            if not scan: return k, False
            cur = scan

    # derivations: (nonterminal, production, [children]); a child is a derivation, a character index or None
    def trees(self, n, i, j):
        if not self.count(n, i, j): return
        for p in range(len(self.prods[n])):
            for c in self.tseq(n, p, 0, i, j): yield (n, p, c)

    def tseq(self, n, p, pos, i, j):
        rhs = self.prods[n][p]
        if pos == len(rhs):
            if i == j: yield []
            return
        if not self.cseq(n, p, pos, i, j): return
        it = rhs[pos]
        if it[0] == 'I':
            for r in self.tseq(n, p, pos + 1, i, j): yield [None] + r
        elif it[0] == 'C':
            for r in self.tseq(n, p, pos + 1, i + 1, j): yield [i] + r
        else:
            rn = all(self.inull(x) for x in rhs[pos + 1:])
            for m in range(i, j + 1):
                if m == j and not rn: continue
                if m == i and not self.null[it[1]]: continue
                if not self.cseq(n, p, pos + 1, m, j) or not self.count(it[1], i, m): continue
                for r in self.tseq(n, p, pos + 1, m, j):
                    for x in self.trees(it[1], i, m): yield [x] + r

    def all_trees(self, limit=500):
        o = []
        for t in self.trees(self.start, 0, len(self.t)):
            o.append(t)
            if len(o) > limit: return None
        return o

    def content(self, d, text=False):
        """What is built inside: list of ('t', text) ('a', name, value) ('e', name, children)."""
        n, p, kids = d; o = []
        for it, k in zip(self.prods[n][p], kids):
            if it[0] == 'I': o.append(('t', it[1]))
            elif it[0] == 'C':
                if it[2] != '-': o.append(('t', self.t[k]))
            else:
                info = self.info[it[1]]
                if info is None: o += self.content(k, text); continue
                rm, name, alias = info
                mark = it[2][0] or rm or '^'; name = it[2][1] or alias or name
                c = self.content(k)
                if mark == '-': o += c
                elif mark == '@': o.append(('a', name, flat(k, self)))
                else: o.append(('e', name, c))
        return o

    def document(self, d):
        """(name, attributes, children) of the root, or None when the marks give no document."""
        rm, name, alias = self.info[self.start]
        if rm in ('-', '@'): return None
        return shape(('e', alias or name, self.content(d)))

def flat(d, g):
    n, p, kids = d; o = ''
    for it, k in zip(g.prods[n][p], kids):
        if it[0] == 'I': o += it[1]
        elif it[0] == 'C': o += g.t[k] if it[2] != '-' else ''
        else: o += flat(k, g)
    return o

def shape(e):
    """['e', name, sorted attributes, children with texts merged]; None when an attribute is given twice."""
    at = []; kids = []
    for c in e[2]:
        if c[0] == 'a': at.append([c[1], c[2]])
        elif c[0] == 't':
            if not c[1]: continue
            if kids and kids[-1][0] == 't': kids[-1] = ['t', kids[-1][1] + c[1]]
            else: kids.append(['t', c[1]])
        else:
            s = shape(c)
            if s is None: return None
            kids.append(s)
    if len({a[0] for a in at}) != len(at): return None
    return ['e', e[1], sorted(at), kids]

def u8(s): return s.encode('latin-1').decode('utf-8', 'replace')

def dom(dump):
    """The same shape from a document dump (list of top nodes); None when it is not one element."""
    def one(n):
        if n[0] == 't': return ['t', u8(n[1])]
        if n[0] != 'e': return [n[0]]
        kids = []
        for k in n[6]:
            x = one(k)
            if x[0] == 't':
                if not x[1]: continue
                if kids and kids[-1][0] == 't': kids[-1] = ['t', kids[-1][1] + x[1]]; continue
            kids.append(x)
        return ['e', u8(((n[1] + ':') if n[1] else '') + n[2]), sorted([u8(a[1]), u8(''.join(c[1] for c in a[3]))] for a in n[5]), kids]
    if len(dump) != 1 or dump[0][0] != 'e': return None
    return one(dump[0])

# ---------------------------------------------------------------- generation
ALPHA = ['a', 'b', 'c', 'x', '1', '2', ',', ' ', '\n', '\u00e5', '\u20ac', '\U0001f600', '-', '"', "'", ';', 'A', 'Z', '(', '+']
NAMES = ['S', 'a', 'b', 'c', 'item', 'list', 'x1', 'A_b', 'w-1', 'ws', 'end', 'B', 'expr', 'error', 'L', 'Nd', 'ixml', 'version', '_q']

class Gen:
    def __init__(self, rng, deep=False, simple=False, marks=True):
        self.rng = rng
        self.alpha = rng.sample(ALPHA[:5], rng.choice([1, 2, 2, 3])) + (rng.sample(ALPHA, rng.choice([0, 1, 2])) if not simple else [])
        self.simple = simple; self.marks = marks; self.deep = deep

    def mark(self, p=0.3):
        if not self.marks or self.rng.random() > p: return ''
        return self.rng.choice(['-', '-', '@', '^'])
    def tmark(self):
        if not self.marks or self.rng.random() > 0.25: return ''
        return self.rng.choice(['-', '-', '^'])

    def lit(self):
        rng = self.rng
        n = rng.choice([1, 1, 1, 1, 2, 2, 3])
        if rng.random() < 0.2: n = 1; sp = '#'
        else: sp = rng.choice('"\'')
        return ('lit', self.tmark(), ''.join(rng.choice(self.alpha) for _ in range(n)), sp)

    def cset(self):
        rng = self.rng; ps = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 0] if not self.simple else [1])):
            k = rng.random()
            if k < 0.4: ps.append(('s', ''.join(rng.choice(self.alpha) for _ in range(rng.choice([1, 1, 2, 3])))))
            elif k < 0.6:
                a, b = sorted((rng.choice(self.alpha), rng.choice(self.alpha))); ps.append(('r', ord(a), ord(b)))
            elif k < 0.75: ps.append(('h', ord(rng.choice(self.alpha))))
            else: ps.append(('c', rng.choice(CLASSES)))
        return ('set', self.tmark(), rng.random() < 0.25, ps)

    def ins(self):
        rng = self.rng
        if rng.random() < 0.3: return ('ins', rng.choice(self.alpha), '#')
        return ('ins', ''.join(rng.choice(self.alpha + ['<', '&', 'I']) for _ in range(rng.choice([1, 2, 3]))), rng.choice('"\''))

    def factor(self, depth, me):
        rng = self.rng; k = rng.random()
        if k < 0.38: return self.lit()
        if k < 0.5: return self.cset()
        if k < 0.55 and not self.simple: return self.ins()
        if k < 0.65 and depth < 2: return ('grp', self.alts(depth + 1, me))
        later = self.names[self.names.index(me) + 1:]
        if later and rng.random() < 0.75: n = rng.choice(later)
        else: n = rng.choice(self.names) if rng.random() < 0.5 else None
        if n is None: return self.lit()
        self.used.add(n)
        return ('nt', self.mark(0.25), n, rng.choice(['al', 'other', 'z9']) if rng.random() < 0.06 and not self.simple else None)

    def term(self, depth, me):
        rng = self.rng
        f = self.factor(depth, me); k = rng.random()
        if k < 0.62 or f[0] == 'ins': return (f, '', None)
        op = rng.choice(['?', '*', '+', '**', '++'])
        sep = None
        if len(op) == 2:
            sep = self.factor(depth + 1, me)
        return (f, op, sep)

    def alts(self, depth, me):
        rng = self.rng; o = []
        for _ in range(rng.choice([1, 1, 2, 2, 3] if depth else [1, 1, 2, 2, 3, 4])):
            a = [self.term(depth, me) for _ in range(rng.choice([1, 1, 2, 2, 3, 0] if not self.simple else [1, 2, 3]))]
            if a not in o: o.append(a)
        return o

    def grammar(self):
        rng = self.rng
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6] if not self.deep else [3, 4, 5, 6, 8])
        self.names = rng.sample(NAMES, n); self.used = {self.names[0]}
        rules = []
        for x in self.names:
            mark = self.mark(0.3)
            if not rules and mark in ('-', '@'): mark = ''
            al = self.alts(0, x)
            # the next rule is used somewhere
            rules.append([mark, x, rng.choice(['al', 'top', 'y']) if rng.random() < 0.07 and not self.simple else None, al])
        for i, x in enumerate(self.names):
            if x not in self.used:
                a = rng.choice(rules[rng.randrange(i)][3])
                a.insert(rng.randrange(len(a) + 1), (('nt', self.mark(0.2), x, None), rng.choice(['', '', '', '?', '*']), None)); self.used.add(x)
        for r in rules:
            o = []
            for a in r[3]:
                if a not in o: o.append(a)
            r[3] = o
        return rules

    # a sentence of the grammar, or None
    def sentence(self, rules, size=12):
        rng = self.rng; byname = {r[1]: r[3] for r in rules}; budget = [60]
        def alts(al, d):
            a = min(rng.sample(al, len(al)), key=weight) if d > 5 else rng.choice(al)
            return ''.join(term(t, d) for t in a)
        def weight(a): return sum(1 + (t[0][0] == 'nt') * 3 + (t[0][0] == 'grp') for t in a if t[1] not in ('?', '*', '**'))
        def factor(f, d):
            budget[0] -= 1
            if budget[0] < 0: raise TooMany()
            if f[0] == 'lit': return f[2]
            if f[0] == 'ins': return ''
            if f[0] == 'set':
                c = [x for x in self.alpha + ALPHA[:6] if in_set(x, f)]
                if not c: raise TooMany()
                return rng.choice(c)
            if f[0] == 'grp': return alts(f[1], d + 1)
            if f[2] not in byname: raise TooMany()
            return alts(byname[f[2]], d + 1)
        def term(t, d):
            f, op, sep = t
            if op == '': return factor(f, d)
            n = {'?': rng.choice([0, 1]), '*': rng.choice([0, 0, 1, 2, 3]), '**': rng.choice([0, 1, 2, 3]), '+': rng.choice([1, 1, 2, 3]), '++': rng.choice([1, 2, 3])}[op]
            if d > 4: n = 0 if op in '?***' else 1
            o = ''
            for i in range(n):
                if i and sep: o += factor(sep, d)
                o += factor(f, d)
            return o
        try: s = alts(byname[rules[0][1]], 0)
        except (TooMany, RecursionError): return None
        return s if len(s) <= size else None

    def inputs(self, rules, n):
        """Sentences, damaged sentences and random short texts."""
        rng = self.rng; o = []
        for _ in range(n):
            s = self.sentence(rules)
            k = rng.random()
            if s is None or k < 0.15: s = ''.join(rng.choice(self.alpha) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
            elif k < 0.4:
                s = list(s)
                for _ in range(rng.choice([1, 1, 2])):
                    q = rng.random(); i = rng.randrange(len(s) + 1)
                    if q < 0.4 or not s: s.insert(i, rng.choice(self.alpha + ['q']))
                    elif q < 0.7: del s[min(i, len(s) - 1)]
                    else: s[min(i, len(s) - 1)] = rng.choice(self.alpha)
                s = ''.join(s)
            if s not in o: o.append(s)
        return o

# ---------------------------------------------------------------- spelling
class Spell:
    def __init__(self, rng, plain=False): self.rng = rng; self.plain = plain
    def s(self, must=False):
        rng = self.rng
        if self.plain or rng.random() < 0.6: return ' ' if must else ''
        return ''.join(rng.choice([' ', ' ', '\n', '\t', '{c}', '{ a {nested} "q }', '{}', '\r\n']) for _ in range(rng.choice([1, 1, 2])))  or (' ' if must else '')
    def q(self, t, sp):
        if sp == '#': return '#%x' % ord(t) if self.rng.random() < 0.5 else '#%04X' % ord(t)
        return sp + t.replace(sp, sp + sp) + sp
    def part(self, p):
        rng = self.rng
        if p[0] == 's': return self.q(p[1], rng.choice('"\''))
        if p[0] == 'r': return self.ch(p[1]) + self.s() + '-' + self.s() + self.ch(p[2])
        if p[0] == 'h': return '#%x' % p[1]
        return p[1]
    def ch(self, c): return self.q(chr(c), self.rng.choice('"\'#'))
    def factor(self, f):
        rng = self.rng; k = f[0]
        if k == 'nt': return (f[1] + self.s() if f[1] else '') + f[2] + (self.s() + '>' + self.s() + f[3] if f[3] else '')
        if k == 'lit': return (f[1] + self.s() if f[1] else '') + self.q(f[2], f[3])
        if k == 'set':
            return (f[1] + self.s() if f[1] else '') + ('~' + self.s() if f[2] else '') + '[' + self.s() + (self.s() + rng.choice(';|') + self.s()).join(self.part(p) for p in f[3]) + self.s() + ']'
        if k == 'ins': return '+' + self.s() + self.q(f[1], f[2])
        return '(' + self.s() + self.alts(f[1]) + self.s() + ')'
    def term(self, t):
        f, op, sep = t
        o = self.factor(f)
        if op: o += self.s() + op
        if sep: o += self.s() + self.factor(sep)
        return o
    def alts(self, al):
        return (self.s() + self.rng.choice(';|') + self.s()).join((self.s() + ',' + self.s()).join(self.term(t) for t in a) for a in al)
    def rule(self, r):
        return (r[0] + self.s() if r[0] else '') + r[1] + (self.s() + '>' + self.s() + r[2] if r[2] else '') + self.s() + self.rng.choice(':=') + self.s() + self.alts(r[3]) + self.s() + '.'
    def grammar(self, rules):
        rng = self.rng; o = self.s()
        if rng.random() < 0.1: o += 'ixml' + (self.s(True)) + 'version' + self.s(True) + '"1.0"' + self.s() + '.' + self.s()
        return o + ''.join(self.rule(r) + rng.choice(['\n', ' ', '{x}', '\n\n  ']) for r in rules) + self.s()
