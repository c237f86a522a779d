"""Random documents and random spellings of them. All strings are latin-1 coded bytes (one char = one byte)."""
import re
from ref import E

def u(s): return s.encode('utf-8').decode('latin-1')

UNI = [u(x) for x in ('å', 'ö', 'ß', '\u00a0', '\u00ad', 'я', '中', '\u2003', '\u200b', '\u2028', '\ufeff', '\ufffd', '€', '😀', '\U0010fffd', 'e\u0301', '\u202e', '\u0085')]
NAMES = ['a', 'b', 'c', 'alfa', 'beta', 'x1', '_u', 'A', 'Z9', 'long-name', 'with.dot', 'with_us', 'car', 'div', 'p', 'x-', 'n0', 'longer-element-name-here']
PREFIXES = ['n', 'm', 'x-y', 'ns.1', 'Q']
HREFS = ['http://a.b/c', 'urn:x', 'http://x/y?z=1', 'u', 'http://long.example.org/some/where/else#frag']
PINAMES = ['pi', 'xml-stylesheet', 'php', 'x']
ENTS = ['amp', 'lt', 'gt', 'quot', 'apos', 'nbsp', 'alfa', 'copy', 'x-y']
SPECIAL = ["'", "''", "'''", "''''", '"', '&', '&amp;', '&#10;', '<', '>', '=', '(', ')', '{', '}', '//', '/*', '*/', '*///*', '/', '*', '#', ';', ':', '!', '?', ']]>', '--', '<!--', '-->', '<?', '?>', '\\', '\\n', '%s', '%n', '$x', '`', ',', '.', '-', '_', '0', '-1', '1e5', 'true', 'null', '[', ']', '@', '~', '|', '^', '+']
WSP = [' ', '  ', '    ', '\n', '\n\n', '\t', '\n  ', ' \n', '\n\n\n', '   \n   ', '\t\n', '\n\t']

def word(rng):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABC0123456789') for _ in range(rng.randint(1, 8)))

def text(rng, cr=True, nl=True, uni=True, maxn=7):
    """A text an XML document can hold."""
    r = rng.random()
    if r < 0.03: return ''
    if r < 0.25: return word(rng)
    if r < 0.30: return rng.choice(SPECIAL)
    if r < 0.34: return rng.choice(WSP + ([rng.choice(UNI)] if uni else [])) if nl else rng.choice([' ', '  ', 'x '])
    if r < 0.37: return "'" * rng.randint(1, 9)
    n = rng.randint(1, maxn) if rng.random() < 0.95 else rng.randint(10, 60)
    style = rng.random()
    out = []
    for _ in range(n):
        x = rng.random()
        if style < 0.25: out.append(word(rng) if x < 0.55 else ' ' if x < 0.9 else rng.choice(SPECIAL)); continue
        if style < 0.4 and nl:   # lines
            out.append(' ' * rng.choice([0, 0, 1, 2, 4, 8]) + (word(rng) if x < 0.8 else '') + (rng.choice(SPECIAL) if x > 0.6 else '') + (' ' if x > 0.93 else '') + '\n'); continue
        if x < 0.35: out.append(word(rng))
        elif x < 0.6: out.append(rng.choice(SPECIAL))
        elif x < 0.8: out.append(rng.choice(WSP) if nl else ' ')
        elif x < 0.92 and uni: out.append(rng.choice(UNI))
        elif x < 0.95 and cr and nl: out.append(rng.choice(['\r', '\r\n', '\r\r']))
        else: out.append(word(rng))
    s = ''.join(out)
    if style < 0.4 and style >= 0.25 and rng.random() < 0.6: s = s.rstrip('\n')
    return s

class Doc:
    """Document generator with options."""
    def __init__(self, rng, ns=True, ents=True, pis=True, comments=True, doctype=True, names=None, mixed=True, size=14, text=text, attrs=True, chars=True, multi=False, depth=5):
        self.__dict__.update(locals()); self.left = 0
    def name(self):
        return self.rng.choice(self.names or NAMES) if self.rng.random() < 0.9 else self.rng.choice('abcXYZ_') + word(self.rng)
    def doc(self):
        rng = self.rng; self.left = rng.randint(1, self.size)
        out = []
        if self.doctype and rng.random() < 0.1: out.append(('d', rng.choice(['html', 'svg', 'alfa'])))
        while self.comments and rng.random() < 0.12: out.append(('c', self.comment()))
        while self.pis and rng.random() < 0.06: out.append(self.pi())
        out.append(self.elem(0, {}))
        if self.multi and rng.random() < 0.1: out.append(self.elem(0, {}))
        while self.comments and rng.random() < 0.1: out.append(('c', self.comment()))
        while self.pis and rng.random() < 0.05: out.append(self.pi())
        return out
    def comment(self):
        rng = self.rng; t = self.text(rng)
        while rng.random() < 0.25:
            i = rng.randint(0, len(t)); t = t[:i] + rng.choice(['*/', '**/', '***///', '/*', '//', '/**', '*//*', '**', '*', '/', '**//*/']) + t[i:]
        t = t.replace('\r', '').replace('\t', ' ')
        t = re.sub('-+', '-', t).strip('- \n') 
        t = '\n'.join(l.rstrip(' ') for l in t.split('\n'))
        return t
    def pi(self):
        rng = self.rng
        if rng.random() < 0.3: return ('p', rng.choice(PINAMES), None)
        c = re.sub(r'[ \t\r\n]+', ' ', self.text(rng, cr=False, nl=False)).replace('?>', '').strip()
        c = c.strip("' ")
        return ('p', rng.choice(PINAMES), c or 'x')
    def value(self):
        """Text and entity references."""
        rng = self.rng; out = []
        for _ in range(rng.choice([1, 1, 1, 1, 2, 3]) if self.ents else 1):
            if self.ents and rng.random() < 0.15: out.append(('r', rng.choice(ENTS)))
            else: out.append(('t', self.text(rng)))
        return out
    def elem(self, depth, env):
        rng = self.rng; self.left -= 1
        el = E(None, self.name())
        env = dict(env)
        if self.ns:
            while rng.random() < 0.12:
                p = rng.choice([None] + PREFIXES)
                if any(x[0] == p for x in el.ns): break
                h = rng.choice(HREFS)
                el.ns.append((p, h)); env[p] = h
            ps = [p for p in env if p]
            if ps and rng.random() < 0.4: el.prefix = rng.choice(ps)
        if self.attrs:
            seen = set()
            while rng.random() < 0.3 and len(seen) < 6:
                p = None
                if self.ns and rng.random() < 0.2:
                    ps = [p for p in env if p] + ['xml']
                    p = rng.choice(ps)
                n = self.name() if p != 'xml' else rng.choice(['lang', 'space', 'id'])
                if n == 'xmlns' or n in seen: continue
                seen.add(n)
                el.attrs.append((p, n, self.value()))
        r = rng.random()
        if r < 0.15: return el
        if r < 0.5 or depth >= self.depth or self.left <= 0:
            el.kids = self.value(); return el
        n = rng.randint(1, 4)
        for _ in range(n):
            x = rng.random()
            if x < 0.6 and self.left > 0: el.kids.append(self.elem(depth + 1, env))
            elif x < 0.75 and self.mixed: el.kids += self.value()
            elif x < 0.83 and self.comments: el.kids.append(('c', self.comment()))
            elif x < 0.88 and self.pis: el.kids.append(self.pi())
            elif self.left > 0: el.kids.append(self.elem(depth + 1, env))
        return el

# ------------------------------------------------------------------------------------------------ spelling
def char_ent(rng, ch):
    cp = ord(ch.encode('latin-1').decode('utf-8'))
    return ('&#%d;' % cp) if rng.random() < 0.6 else ('&#x%x;' % cp if rng.random() < 0.7 else '&#x%X;' % cp)

def chars(s):
    """The utf8 characters of a latin-1 coded string."""
    return re.findall('[\x00-\x7f\x80-\xbf]|[\xc0-\xff][\x80-\xbf]*', s)

class Speller:
    """Writes a document in a random valid spelling."""
    def __init__(self, rng, style=None):
        self.rng = rng; self.o = []; self.n = 0
        self.dense = rng.random() < 0.3 if style is None else style
        self.nlend = rng.choice(['\n', '\n', '\n', '\r\n'])
    def w(self, s):
        self.o.append(s)
    def text(self): return ''.join(self.o)
    def col(self):
        s = ''.join(self.o[-40:]) if len(self.o) > 40 and '\n' in ''.join(self.o[-40:]) else ''.join(self.o)
        s = s[s.rfind('\n') + 1:]
        return sum(1 for c in s if (ord(c) & 0xc0) != 0x80)
    def last(self):
        for x in reversed(self.o):
            if x: return x[-1]
        return '\n'
    def ws(self, need=False):
        rng = self.rng
        if not need and rng.random() < (0.8 if self.dense else 0.3): return
        r = rng.random()
        if r < 0.5: self.w(' ')
        elif r < 0.8: self.w(self.nlend + ' ' * rng.choice([0, 1, 2, 4, 7, 11]))
        elif r < 0.9: self.w(' ' * rng.randint(1, 5))
        elif r < 0.95: self.w(rng.choice([' \n', '\r', '\n\n', '\r\n ', '\n \n']))
        else: self.w(rng.choice([' ', '\n']) + u(rng.choice('\u00a0\u2000\u2001\u2002\u2003')) + rng.choice(['', ' ']))
    def quote_marks(self, t):
        rng = self.rng
        if "'" not in t: return "'" if rng.random() < 0.7 else "'" * rng.choice([3, 3, 4, 5, 7])
        m = max(len(x) for x in re.findall("'+", t))
        return "'" * max(3, m + rng.choice([1, 1, 1, 2, 3]))
    def can_quote(self, t):
        return t[:1] != "'" and t[-1:] != "'"
    def quote(self, t, single=False):
        """Writes one quote holding t, if there is a direct way. Returns False if not."""
        rng = self.rng
        if t == '': self.w("''"); return True
        if not self.can_quote(t) or '\r' in t: return False
        if '\n' not in t:
            q = self.quote_marks(t)
            if rng.random() < 0.04 and t.strip(' \t') == t and not single:   # a line of its own
                ind = ' ' * rng.choice([0, 1, 3, 4, 9])
                self.w(q + '\n' + ind + t + '\n' + ' ' * rng.choice([0, 2, 4, 12]) + q); return True
            self.w(q + t + q); return True
        if single: return False
        lines = t.split('\n')
        if any(re.search(r'[ \t]\Z', l) for l in lines): return False
        q = self.quote_marks(t)
        r = rng.random()
        nb = [l for l in lines if l]
        if not nb:
            # Only line ends: the first and the last line are dropped.
            self.w(q + '\n' + ''.join(' ' * rng.choice([0, 0, 2]) + '\n' for _ in range(len(lines) - 1)) + ' ' * rng.choice([0, 3]) + q); return True if False else self._undo_quote()
        if lines[0] and lines[-1] and r < 0.5:
            col = self.col() + len(q)
            self.w(q + lines[0] + ''.join(self.nl() + (' ' * col + l if l else ' ' * rng.choice([0, 0, 1, col])) for l in lines[1:]) + q)
            return True
        if min(len(l) - len(l.lstrip(' \t')) for l in nb) == 0:
            ind = ' ' * rng.choice([0, 1, 2, 4, 8, 13])
            self.w(q + ' ' * rng.choice([0, 0, 2]) + self.nl() + self.nl().join(ind + l if l else ' ' * rng.choice([0, 0, 1]) for l in lines) + self.nl() + ' ' * rng.choice([0, 4, 1]) + q)
            return True
        return False
    def nl(self): return self.nlend
    def _undo_quote(self):
        self.o.pop(); return False
    def pieces(self, t, single=False):
        """Splits t in spellable pieces and writes them with separators."""
        rng = self.rng
        if t == '': self.sep(); self.quote(''); return
        i = 0; cs = chars(t)
        if len(cs) > 4 and rng.random() < 0.5:
            k = rng.randint(1, len(cs) - 1)
            if rng.random() < 0.5: self.pieces(''.join(cs[:k])); self.pieces(''.join(cs[k:])); return
        self.sep()
        if rng.random() < 0.75 and self.quote(t): return
        # character by character, with runs of plain ones quoted
        run = ''
        def flush():
            nonlocal run
            if run:
                self.sep(); ok = self.quote(run, True); assert ok
                run = ''
        for c in cs:
            if c in "'\n\r" or rng.random() < 0.08:
                flush(); self.ws(); self.w(char_ent(rng, c))
            else: run += c
        flush()
    def sep(self):
        if self.last() == "'": self.ws(True)
        else: self.ws()
    TEXTV = re.compile(r'[^\'"(){}\s]+\Z')
    def textual(self, t):
        if not t or not self.TEXTV.match(t) or t[0] in '=&' or t[:2] in ('//', '/*'): return False
        for w in ('\xc2\xa0', '\xe2\x80\x80', '\xe2\x80\x81', '\xe2\x80\x82', '\xe2\x80\x83'):
            if w in t: return False
        return '\x85' not in t and '\xa0' not in t and '\x1c' not in t
    def value(self, v):
        """What follows the equals sign."""
        rng = self.rng
        self.ws()
        if len(v) == 1 and v[0][0] == 't':
            t = v[0][1]
            if self.textual(t) and rng.random() < 0.6: self.w(t); return
            if rng.random() < 0.7 and self.quote(t): return
        if len(v) == 1 and v[0][0] == 'r' and rng.random() < 0.6: self.w('&%s;' % v[0][1]); return
        if len(v) == 1 and v[0][0] == 't' and len(chars(v[0][1])) == 1 and rng.random() < 0.3: self.w(char_ent(rng, v[0][1])); return
        self.w('(')
        for x in v:
            if x[0] == 'r': self.ws(); self.w('&%s;' % x[1])
            else: self.pieces(x[1])
        self.ws()
        self.w(')')
    def sepname(self):
        """Before something starting with a name character."""
        if re.match(r'[A-Za-z0-9\-_.:#*/?]', self.last()): self.ws(True)
        else: self.ws()
    def nodes(self, kids):
        for i, k in enumerate(kids): self.node(k)
    def node(self, k):
        rng = self.rng
        if isinstance(k, E): return self.elem(k)
        if k[0] == 't':
            self.after_text(); self.pieces(k[1])
        elif k[0] == 'r':
            self.after_text(); self.w('&%s;' % k[1])
        elif k[0] == 'c': self.comment(k[1])
        elif k[0] == 'p':
            self.after_text(); self.w('?' + k[1])
            if k[2] is not None:
                self.ws(); self.w('='); self.pival(k[2])
            else: self.pend = True
        elif k[0] == 'd':
            self.after_text(); self.w('!DOCTYPE'); self.ws(); self.w('='); self.pival(k[1])
    pend = False
    def after_text(self):
        """After a text value (or a name) more text would be taken as part of it."""
        if self.last() not in ' \n\r(){}' : self.ws(True)
        else: self.ws()
    def pival(self, t):
        self.ws()
        if self.textual(t) and self.rng.random() < 0.6: self.w(t); return
        assert self.quote(t, True), t
    def comment(self, t):
        rng = self.rng
        self.after_text()
        runs = [len(x) for x in re.findall(r'(?<=\*)/+', t)]
        ok1 = '\n' not in t and t[:1] not in ('/', '*', ' ') and t[-1:] != ' ' and t != ''
        if ok1 and rng.random() < 0.5:
            self.w('//' + rng.choice(['', '/', '//']) * (t[:1] != ' ') + rng.choice(['', ' ']) + t + rng.choice(['', '', '  ']) + '\n'); return
        n = max(runs + [0]) + rng.choice([1, 1, 2, 3])
        lines = t.split('\n')
        if len(lines) == 1:
            self.w('/' * n + '* ' + t + ' *' + '/' * n)
        elif lines[0] and lines[-1] and lines[0][0] not in ' \t' and rng.random() < 0.6:
            col = self.col() + n + 2
            self.w('/' * n + '* ' + lines[0] + ''.join('\n' + (' ' * col + l if l else '') for l in lines[1:]) + ' *' + '/' * n)
        else:
            # one comment per line: continuations are joined with line ends
            self.w('/' * n)
            for l in lines: self.w('* ' + l + ' *' + '/' * n)
        self.ws(True)
    def elem(self, el):
        rng = self.rng
        self.after_text()
        self.w((el.prefix + ':' if el.prefix else '') + el.name)
        if el.ns or el.attrs or rng.random() < 0.05:
            self.ws(); self.w('(')
            order = [('n', x) for x in el.ns] + [('a', x) for x in el.attrs]
            if len(el.ns) and rng.random() < 0.3:
                # declarations may stand anywhere among the attributes
                nss = [('n', x) for x in el.ns]; rest = [('a', x) for x in el.attrs]
                order = []
                while nss or rest:
                    order.append(nss.pop(0) if nss and (not rest or rng.random() < 0.5) else rest.pop(0))
            for kind, x in order:
                if self.last() not in "('": self.ws(True)
                elif self.last() == "'": self.ws(True)
                else: self.ws()
                if kind == 'n':
                    p, h = x
                    self.w('xmlns' + (':' + p if p else '')); self.ws(); self.w('='); self.value([('t', h)])
                else:
                    p, n, v = x[:3]
                    self.w((p + ':' if p else '') + n)
                    if all(y == ('t', '') for y in v) and rng.random() < 0.5: continue
                    self.ws(); self.w('='); self.value(v)
            self.ws(); self.w(')')
        kids = el.kids
        if not kids and rng.random() < 0.8: return
        if kids and all(not isinstance(k, E) and k[0] in 'tr' for k in kids) and rng.random() < 0.85:
            self.ws(); self.w('='); self.value(kids)
        elif len(kids) == 0 and rng.random() < 0.4:
            self.ws(); self.w('='); self.ws(); self.w("''")
        else:
            self.ws(); self.w('{'); self.nodes(kids); self.after_name(); self.w('}')
    def after_name(self): self.ws()

def spell(rng, doc, dense=None):
    sp = Speller(rng, dense)
    if rng.random() < 0.3: sp.w('\n') if rng.random() < 0.5 else sp.w('  ')
    sp.nodes(doc)
    if rng.random() < 0.5: sp.w('\n')
    return sp.text().encode('latin-1')

# ------------------------------------------------------------------------------------------------ free spellings
FRAG = ["a", "b", "x:y", "p:", ":q", "=", "=x", "= 'x'", "='", "'", "''", "'''", "''''", "'a'", "'a\n  b'", "'\n  a\n    b\n  '", '(', ')', '{', '}', '()', '{}', '(a=1)', '(a b=c)', "(xmlns=u)", "(xmlns:x=u)", '&amp;', '&x;', '&#10;', '&#x41;', '&#0;', '&#xd800;', '&#;', '&;', '&', '& ', '&a', '//c\n', '// c', '/*c*/', '/* a */* b */', '//* c *//', '/*', '*/', '/', '*', '///', ' ', '\n', '\t', '\r', '\r\n', '\xc2\xa0', '\xe2\x80\x83', '\xef\xbb\xbf', '?pi', '?pi=x', "?pi='a b'", '?', '!DOCTYPE=html', '!DOCTYPE', '!', '"', '#', ';', '.', '-', '1', '\xc3\xa5', '\xe4\xb8\xad', '\xff', '\x80', '\x01', '<', '>', '[', ',', '=(', "=('a' &b; 'c')", "= ('a')", "=&x;", "xmlns", "a-b", "_", "=''", "= //", "=/*c*/", "==", "a{b=1 c=2}", "a(b c)d"]

def soup(rng, n=None):
    return ''.join(rng.choice(FRAG) for _ in range(n or rng.randint(1, 12))).encode('latin-1')

def mutate(rng, b, pool=None):
    """A few random edits of a text."""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        n = len(b); r = rng.random(); i = rng.randrange(n + 1)
        if r < 0.3: b[i:i] = rng.choice(FRAG).encode('latin-1')
        elif r < 0.5: del b[i:i + rng.choice([1, 1, 1, 2, 5, 20])]
        elif r < 0.6 and n:
            j = rng.randrange(n); k = min(n, j + rng.randint(1, 30)); b[i:i] = b[j:k]
        elif r < 0.7 and n: b[i:i + 1] = bytes([rng.choice(b"'\"(){}=&/*:;#!? \n\t\rabc0" if rng.random() < 0.9 else range(1, 256))])
        elif r < 0.75: del b[i:]
        elif r < 0.85 and pool:
            o = rng.choice(pool); j = rng.randrange(len(o) + 1); b[i:i] = o[j:j + rng.randint(1, 60)]
        else: b[i:i] = rng.choice([b' ', b'\n', b'\n  ', b"'", b'//', b'\t'])
    return bytes(b)

def raw_quote(rng):
    """A quote with arbitrary layout."""
    n = rng.choice([1, 1, 3, 4]); q = "'" * n
    out = []
    for _ in range(rng.randint(1, 5)):
        ind = rng.choice(['', '', ' ', '  ', '    ', '     ', '        ', '         ', '\t', ' \t', '\t ', '            ', '\t\t'])
        body = rng.choice(['', '', 'x', 'abc', 'a b', 'y ', '\xc3\xa5', 'z\t', '  ', 'q  r'])
        out.append(ind + body)
    return q + rng.choice(['\n', '\n', '\n', '\r\n']).join(out) + q

def layout_doc(rng):
    """A document whose quotes and comments are laid out arbitrarily; only the reference model knows its content."""
    out = []
    def pad(): return rng.choice(['', '', ' ', '\n', '\n  ', '\n        ', '\n\n   ', '\n             '])
    def val():
        r = rng.random()
        if r < 0.6: return raw_quote(rng)
        if r < 0.8:
            return '(' + ' '.join(pad() + (raw_quote(rng) if rng.random() < 0.7 else '&#%d;' % rng.choice([10, 32, 39, 229])) for _ in range(rng.randint(1, 4))) + pad() + ')'
        return 'v'
    def node(d):
        r = rng.random()
        if r < 0.3: return rng.choice(['a', '\xc3\xa5' and 'bb', 'ccc']) + rng.choice(['', ' ']) + '=' + pad() + val() + ' '
        if r < 0.45: return pad() + raw_quote(rng) + ' '
        if r < 0.6:
            n = '/' * rng.choice([1, 1, 2])
            body = raw_quote(rng).strip("'")
            c = n + '*' + rng.choice(['', ' ']) + body + rng.choice(['', ' ']) + '*' + n
            while rng.random() < 0.2: c += '*' + rng.choice(['', ' ']) + raw_quote(rng).strip("'") + '*' + n
            return pad() + c + ' '
        if r < 0.7: return pad() + '//' + rng.choice(['', ' ', '  ', '/']) + rng.choice(['', 'x', 'a b ', 'c  ', 'x\t']) + '\n'
        if r < 0.8 : return 'd(' + rng.choice(['', 'k=', 'k = ']) + (raw_quote(rng) if rng.random() < 0.5 else 'k') .replace('k', 'k') + ')' if False else 'd(k=' + pad() + val() + ' l)' 
        if d < 3: return pad() + 'e' + pad() + '{' + ''.join(node(d + 1) for _ in range(rng.randint(0, 3))) + '}'
        return 'f '
    s = 'r{' + ''.join(node(0) for _ in range(rng.randint(1, 4))) + pad() + '}'
    if rng.random() < 0.3: s = s.replace('\n', '\r\n')
    return s.encode('latin-1')

# ------------------------------------------------------------------------------------------------ corpus
_corpus = None
def corpus(exts=None, limit=20000):
    """Files that come with the project and this framework's own samples."""
    import os, build
    global _corpus
    if _corpus is None:
        _corpus = []
        for top in ('/tests', '/doc', '/web'):
            for root, dirs, files in os.walk(build.REPO + top):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if os.path.getsize(p) <= 200000:
                        _corpus.append((p, open(p, 'rb').read()))
    return [(p, b) for p, b in _corpus if len(b) <= limit and (exts is None or p.endswith(exts))]

# ------------------------------------------------------------------------------------------------ XML
def xtext(rng, t, attr=False):
    """Text as XML character data in a random spelling."""
    out = []; cs = chars(t); i = 0
    while i < len(cs):
        c = cs[i]
        if not attr and rng.random() < 0.03:
            j = min(len(cs), i + rng.randint(1, 8)); seg = ''.join(cs[i:j])
            if ']]' not in seg and '\r' not in seg and seg[-1] != ']' and seg[0] != '>': out.append('<![CDATA[' + seg + ']]>'); i = j; continue
        i += 1
        if c == '&': out.append(rng.choice(['&amp;', '&#38;', '&#x26;']))
        elif c == '<': out.append(rng.choice(['&lt;', '&#60;']))
        elif c == '>' : out.append(rng.choice(['&gt;', '&#62;', '&gt;', '>' if not attr and not ''.join(out[-2:]).endswith(']]') and False else '&gt;']))
        elif c == '"' and attr: out.append(rng.choice(['&quot;', '&#34;']))
        elif c == '\r' or (attr and c in '\n\t'): out.append('&#%d;' % ord(c) if rng.random() < 0.5 else '&#x%X;' % ord(c))
        elif rng.random() < 0.02: out.append(char_ent(rng, c))
        else: out.append(c)
    return ''.join(out)

class XmlWriter:
    shuffle = True
    def __init__(self, rng, xent=None): self.rng = rng; self.xent = xent
    def sp(self, need=True):
        r = self.rng.random()
        if r < 0.85: return ' ' if need else ''
        return self.rng.choice([' ', '  ', '\n', '\n  ', '\t'])
    def val(self, v, attr):
        out = []
        for x in v:
            if isinstance(x, E): out.append(self.elem(x))
            elif x[0] == 't': out.append(xtext(self.rng, x[1], attr))
            elif x[0] == 'r': out.append('&%s;' % x[1])
            elif x[0] == 'c': out.append('<!--%s-->' % x[1])
            elif x[0] == 'p': out.append('<?%s%s?>' % (x[1], ' ' + x[2] if x[2] else ''))
            elif x[0] == 'd': out.append('<!DOCTYPE %s%s>' % (x[1], self.xent or '')); self.xent = None
        return ''.join(out)
    def elem(self, el):
        n = (el.prefix + ':' if el.prefix else '') + el.name
        out = ['<' + n]
        ats = [('xmlns' + (':' + p if p else ''), xtext(self.rng, h, True)) for p, h in el.ns] + [((a[0] + ':' if a[0] else '') + a[1], self.val(a[2], True)) for a in el.attrs]
        if self.rng.random() < 0.2 and self.shuffle: 
            k = len(el.ns); self.rng.shuffle(ats) if not el.attrs or not el.ns else None
        for a, v in ats: out.append(self.sp() + '%s%s=%s"%s"' % (a, self.sp(False), self.sp(False), v))
        out.append(self.sp(False))
        if not el.kids and self.rng.random() < 0.7: return ''.join(out) + '/>'
        return ''.join(out) + '>' + self.val(el.kids, False) + '</%s%s>' % (n, self.sp(False))
    def doc(self, d):
        rng = self.rng
        out = []
        if rng.random() < 0.4: out.append('<?xml version="1.0"%s?>' % rng.choice(['', ' encoding="UTF-8"', ' encoding="utf-8"', ' standalone="yes"']))
        if self.xent and not any(not isinstance(k, E) and k[0] == 'd' for k in d):
            root = [k for k in d if isinstance(k, E)][0]
            d = [('d', (root.prefix + ':' if root.prefix else '') + root.name)] + d
        for k in d:
            if rng.random() < 0.4: out.append('\n') if out else None
            out.append(self.val([k], False))
        if rng.random() < 0.5: out.append('\n')
        return ''.join(out)

def xml(rng, d, entities=(), shuffle=True):
    """A generated document as well-formed XML."""
    xent = ' [' + ''.join('<!ENTITY %s "%s">' % (e, e + '-value') for e in entities) + ']' if entities else None
    w = XmlWriter(rng, xent); w.shuffle = shuffle
    return w.doc(d).encode('latin-1')
