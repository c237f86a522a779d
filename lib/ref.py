"""Reference model of the XMQ language, written from its definition (doc/xmq.tex, README): a parser giving the
document tree, the tokens with their positions and the verdict. Works on latin-1 coded bytes (one char = one byte)."""
import re
XMLNS = 'http://www.w3.org/XML/1998/namespace'

class Reject(Exception):
    def __init__(self, why, pos): self.why, self.pos = why, pos

WS2 = ('\xc2\xa0', '\xe2\x80\x80', '\xe2\x80\x81', '\xe2\x80\x82', '\xe2\x80\x83')
NAME = re.compile(r'[A-Za-z0-9\-_.:#]*')
def wslen(s, i, tab=True):
    """Length of the whitespace character at i, or 0."""
    c = s[i:i+1]
    if c in ' \n\r' and c: return 1
    if c == '\t': return 1 if tab else 0
    for w in WS2:
        if s.startswith(w, i): return len(w)
    return 0

# ---------------------------------------------------------------- quotes
def split_lines(t):
    """Lines with their line end; a line end is \\n, \\r or \\r\\n. Returns (text, ended)."""
    out = []
    for m in re.finditer(r'([^\n\r]*)(\r\n|\n|\r|\Z)', t):
        if m.group(2) == '' and m.group(1) == '' : break
        out.append((m.group(1), m.group(2) != ''))
    return out

def width(line):
    n = 0
    for c in line:
        if c == ' ': n += 1
        elif c == '\t': n += 8
        else: break
    return n

def dedent(t, col):
    """The content of quote text t whose first character stands col positions from the left margin."""
    if '\n' not in t and '\r' not in t: return t
    lines = split_lines(t)
    tail = ''
    # A trailing line holding nothing but whitespace is dropped, every blank line before it is kept as a line end.
    m = re.search(r'[ \t\r\n]*\Z', t)
    if '\n' in m.group(0):
        tail = '\n' * (m.group(0).count('\n') - 1)
        t = t[:m.start()]
    if t == '': return tail
    head = ''; first_is_special = True
    m = re.match(r'[ \t\r\n]*', t)
    if '\n' in m.group(0):
        # The first line is blank: it is dropped, further blank lines are kept as line ends.
        first_is_special = False
        a = split_lines(t)
        n = len(a[0][0]) + (2 if t[len(a[0][0]):].startswith('\r\n') else 1)
        # blank lines after the first, up to the line with the first character
        rest = t[n:m.end()]
        k = rest.rfind('\n') + 1
        head = '\n' * rest[:k].count('\n')
        t = t[n + k:]
    lines = split_lines(t)
    inc = col if first_is_special else None
    seen_first = False
    for l, e in lines:
        if l.rstrip(' \t') == '' : continue
        if not seen_first:
            seen_first = True
            if first_is_special: continue
        w = width(l)
        if inc is None or w < inc: inc = w
    if inc is None: inc = 0
    out = []
    for k, (l, e) in enumerate(lines):
        blank = l.rstrip(' \t') == ''
        if k == 0 and first_is_special: body = l; pre = ' ' * (col - inc)
        else:
            # drop the incidental indentation
            n = inc; i = 0
            while n > 0 and i < len(l):
                c = l[i]; i += 1
                if c == ' ': n -= 1
                elif c == '\t':
                    if n >= 8: n -= 8
                    else: break
            body = l[i:]; pre = ''
        if e: body = body.rstrip(' \t') + '\n' if not blank else '\n'
        out.append(pre + body)
    # The first line's own indentation goes first, before the kept blank lines there can not be any.
    return head + ''.join(out) + tail

def unquote(q, col):
    """q: the whole quote; col: 0-based column of its first quote mark."""
    j = 0
    while j < len(q) - j and q[j] == "'" and q[len(q)-j-1] == "'": j += 1
    return dedent(q[j:len(q)-j], col + j)

def uncomment(c, col):
    i = 0
    while i < len(c) and c[i] == '/': i += 1
    if i == len(c): return dedent(c[2:], col)
    if c[i] != '*':
        s = c[i:]
        if s[:1] == ' ': s = s[1:]
        s = s.rstrip(' ')
        return dedent(s, col)
    j = 0
    while c[j] == '/' and c[len(c)-j-1] == '/': j += 1
    s = c[j+1:len(c)-j-1]; col += j + 1
    if s[:1] == ' ': s = s[1:]; col += 1
    if s[-1:] == ' ': s = s[:-1]
    return dedent(s, col)

# ---------------------------------------------------------------- nodes
class E:
    __slots__ = ('prefix', 'name', 'ns', 'attrs', 'kids', 'href', 'xmlns_value')
    def __init__(self, prefix, name): self.prefix, self.name, self.ns, self.attrs, self.kids, self.href = prefix, name, [], [], [], None
# other nodes: ('t', s) ('r', name) ('c', s) ('p', name, content) ('d', text)

class Parser:
    def __init__(self, text, merge=True):
        self.s = text; self.i = 0; self.merge = merge
        self.tokens = []; self.top = []; self.doctype = False
        self.line_starts = [0] + [m.end() for m in re.finditer('\n', text)]
        self.raw_last = None
    # positions
    def linecol(self, p):
        import bisect
        l = bisect.bisect_right(self.line_starts, p)
        st = self.line_starts[l-1]
        return l, 1 + sum(1 for c in self.s[st:p] if (ord(c) & 0xc0) != 0x80)
    def col0(self, p): return self.linecol(p)[1] - 1
    def tok(self, kind, a, b, suffix=None): self.tokens.append((kind, a, b))
    def pk(self, k=0): return self.s[self.i+k:self.i+k+1]
    def bad(self, why): raise Reject(why, self.i)

    def ws(self):
        """Optional separating whitespace, which must start with a plain one."""
        if self.pk() and self.pk() in ' \n\r':
            a = self.i
            while True:
                n = wslen(self.s, self.i, tab=False)
                if not n: break
                self.i += n
            self.tok('whitespace', a, self.i)
    def parse(self):
        self.nodes(self.top, 0)
        if self.i < len(self.s): self.bad('closing brace')
        scope(self.top, {'xml': XMLNS})
        return self.top

    def nodes(self, kids, depth):
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in ' \n\r': self.ws()
            elif c == "'": self.quote(kids, 'quote')
            elif c == '&': self.entity(kids, 'entity')
            elif c == '/' and self.pk(1) and self.pk(1) in '/*': self.comment(kids)
            elif re.match('[A-Za-z_]', c): self.element(kids, depth)
            elif c == '!' and re.match(r'!DOCTYPE[= \t\n\r]', s[self.i:self.i+9]): self.doctype_(kids, depth)
            elif c == '?' : self.pi(kids)
            elif c == '}': return
            else: self.bad('char')

    def add_text(self, kids, t):
        if self.merge and kids and not isinstance(kids[-1], E) and kids[-1][0] == 't':
            kids[-1] = ('t', kids[-1][1] + t)
        else: kids.append(('t', t))

    def quote(self, kids, kind, store=True):
        s = self.s; a = self.i
        n = len(re.match("'*", s[a:]).group(0))
        if n == 2: b = a + 2
        else:
            i = a + n
            while True:
                m = re.search("'+", s[i:])
                if not m: self.i = len(s); self.bad('quote not closed')
                k = len(m.group(0)); i += m.end()
                if k == n: break
                if k > n: self.bad('too many quotes')
            b = i
        self.i = b
        self.tok(kind, a, b)
        t = unquote(s[a:b], self.col0(a))
        if store: self.add_text(kids, t)
        return t

    def entity(self, kids, kind, store=True):
        s = self.s; a = self.i
        m = re.match(r'&([A-Za-z0-9\-_.:#]+);', s[a:])
        if not m: self.bad('entity')
        name = m.group(1); t = None
        if name[0] == '#':
            mm = re.match(r'#(?:x([0-9a-fA-F]+)|([0-9]+))\Z', name)
            if not mm: self.bad('char entity')
            v = int(mm.group(1), 16) if mm.group(1) else int(mm.group(2))
            if not (0 < v <= 0x10ffff) or 0xd800 <= v <= 0xdfff: self.bad('char entity')
            t = chr(v).encode('utf-8').decode('latin-1')
        self.i = a + m.end()
        self.tok(kind, a, self.i)
        if store:
            if t is None: kids.append(('r', name))
            elif self.merge: self.add_text(kids, t)
            else: kids.append(('r', name))
        return name, t

    def comment(self, kids):
        s = self.s; a = self.i
        n = len(re.match('/*', s[a:]).group(0))
        if s[a+n:a+n+1] != '*':
            e = s.find('\n', a)
            e = len(s) if e < 0 else e + 1
            self.i = e; self.tok('comment', a, e)
            kids.append(('c', uncomment(s[a:e], self.col0(a))))
            return
        first = True; i = a + n
        while True:
            i += 1   # the asterisk
            while True:
                k = s.find('*/', i)
                if k < 0: self.bad('comment not closed')
                m = len(re.match('/*', s[k+1:]).group(0))
                if m < n: i = k + 1; continue
                if m > n: self.bad('too many slashes')
                break
            e = k + 1 + n
            self.i = e
            more = s[e:e+1] == '*'
            if first:
                self.tok('comment', a, e)
                kids.append(('c', uncomment(s[a:e], self.col0(a))))
            else:
                self.tok('comment_continuation', a, e)
                kids[-1] = ('c', kids[-1][1] + '\n' + uncomment('/' * n + s[a:e], self.col0(a)))
            if not more: return
            first = False; a = e; i = e

    def name(self, attr=False):
        s = self.s; a = self.i
        e = a + NAME.match(s[a:]).end()
        full = s[a:e]
        k = full.rfind(':')
        prefix = full[:k] if k >= 0 else None
        local = full[k+1:]
        self.i = e
        if local == '' or prefix == '': self.bad('empty name')
        return a, e, prefix, local

    def next_is_equal(self):
        i = self.i
        while wslen(self.s, i): i += wslen(self.s, i)
        return self.s[i:i+1] == '='

    def element(self, kids, depth):
        a, e, prefix, local = self.name()
        k = 'element_key' if self.next_is_equal() else 'element_name'
        if prefix is not None:
            b = a + len(prefix)
            self.tok('element_ns', a, b); self.tok('ns_colon', b, b + 1); a = b + 1
        self.tok(k, a, e)
        el = E(prefix, local); kids.append(el)
        self.ws()
        if self.pk() == '(':
            self.tok('apar_left', self.i, self.i + 1); self.i += 1
            self.attributes(el)
            self.ws()
            if self.pk() != ')': self.bad('attributes not closed')
            self.tok('apar_right', self.i, self.i + 1); self.i += 1
        self.ws()
        if self.pk() == '=':
            self.tok('equals', self.i, self.i + 1); self.i += 1
            self.value(el.kids, 'element')
            return
        if self.pk() == '{':
            self.tok('brace_left', self.i, self.i + 1); self.i += 1
            self.nodes(el.kids, depth + 1)
            if self.pk() != '}': self.bad('body not closed')
            self.tok('brace_right', self.i, self.i + 1); self.i += 1

    def attributes(self, el):
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in ' \n\r': self.ws()
            elif c == ')': return
            elif c in '\'"({}/=&': return
            else: self.attribute(el)

    def attribute(self, el):
        a, e, prefix, local = self.name(True)
        ns = False
        if prefix is None:
            if local == 'xmlns': self.tok('ns_declaration', a, e); ns = True
            else: self.tok('attr_key', a, e)
        else:
            b = a + len(prefix)
            if prefix == 'xmlns':
                ns = True
                self.tok('ns_declaration', a, b); self.tok('ns_colon', b, b + 1); self.tok('attr_ns', b + 1, e)
            else:
                self.tok('attr_ns', a, b); self.tok('ns_colon', b, b + 1); self.tok('attr_key', b + 1, e)
        self.ws()
        v = []
        has = False
        if self.pk() == '=':
            has = True
            self.tok('equals', self.i, self.i + 1); self.i += 1
            self.value(v, 'attr', ns)
        if ns: el.ns.append((local if prefix else None, ''.join(x[1] for x in v) if has else None))
        else: el.attrs.append((prefix, local, v))

    def value(self, kids, kind, ns=False):
        self.ws()
        c = self.pk(); s = self.s
        if c == "'": self.quote(kids, kind + '_value_quote')
        elif c == '&': self.ent_value(kids, kind + '_value_entity', ns)
        elif c == '(':
            self.tok('cpar_left', self.i, self.i + 1); self.i += 1
            while self.i < len(s):
                c = s[self.i]
                if c in ' \n\r': self.ws()
                elif c == ')': break
                elif c == "'": self.quote(kids, kind + '_value_compound_quote')
                elif c == '&': self.ent_value(kids, kind + '_value_compound_entity', ns)
                else: self.bad('compound')
            if self.pk() != ')': self.bad('compound not closed')
            self.tok('cpar_right', self.i, self.i + 1); self.i += 1
        else: self.text(kids, kind + '_value_text')
    def ent_value(self, kids, kind, ns):
        n, t = self.entity(kids, kind, store=not ns)
        if ns:
            if t is None:
                t = PREDEF.get(n)
                if t is None: self.bad('entity in namespace')
            self.add_text(kids, t)
    def text(self, kids, kind):
        s = self.s; a = self.i
        if self.pk() in ('=', '&') or (self.pk() == '/' and self.pk(1) in ('/', '*') and self.pk(1)): self.bad('value start')
        i = a
        while i < len(s) and s[i] not in '()\'"{}' and not wslen(s, i): i += 1
        if i == a: self.bad('missing value')
        self.i = i
        self.tok(kind, a, i)
        self.add_text(kids, s[a:i])
        return s[a:i]

    def doctype_(self, kids, depth):
        a = self.i
        self.i += len('!DOCTYPE')
        if self.doctype or depth > 0 or not self.next_is_equal(): self.bad('doctype')
        self.doctype = True
        self.tok('element_key', a, self.i)
        self.ws()
        if self.pk() in ('(', '{'): self.bad('doctype')
        if self.pk() != '=': self.bad('doctype')
        self.tok('equals', self.i, self.i + 1); self.i += 1
        self.ws()
        if self.pk() in ('&', '('): self.bad('doctype')
        v = []
        if self.pk() == "'": self.quote(v, 'element_value_quote')
        else: self.text(v, 'element_value_text')
        kids.append(('d', v[0][1]))

    def pi(self, kids):
        a = self.i
        self.i += 1
        m = NAME.match(self.s[self.i:])
        self.i += m.end()
        if m.end() == 0: self.bad('pi')
        eq = self.next_is_equal()
        self.tok('element_key' if eq else 'element_name', a, self.i)
        self.ws()
        if self.pk() in ('(', '{'): self.bad('pi')
        if self.pk() == '=':
            self.tok('equals', self.i, self.i + 1); self.i += 1
            self.ws()
            if self.pk() in ('&', '('): self.bad('pi')
            v = []
            if self.pk() == "'": self.quote(v, 'element_value_quote')
            else: self.text(v, 'element_value_text')
            c = v[0][1]
            # The content of <?x 'y' ?> would lose its quotes.
            if c[:1] == "'": c = ' ' + c
            if c[-1:] == "'": c = c + ' '
            kids.append(('p', m.group(0), c))
        else: kids.append(('p', m.group(0), None))

PREDEF = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'", 'nbsp': '\xc2\xa0'}
PRE5 = {k: PREDEF[k] for k in ('amp', 'lt', 'gt', 'quot', 'apos')}

def scope(kids, env):
    """Resolves prefixes to namespaces."""
    for k in kids:
        if not isinstance(k, E): continue
        e = env
        for p, h in k.ns:
            if p != 'xml':
                if e is env: e = dict(env)
                e[p] = h or ''
        k.href = e.get(k.prefix) or None
        k.attrs = [(p, n, v, (e.get(p) or None) if p else None) for p, n, v in k.attrs]
        scope(k.kids, e)

def parse(text, merge=True):
    """text: bytes. Returns (top nodes, tokens, parser) or raises Reject. Decides by the language definition."""
    s = text.decode('latin-1')
    if s.startswith('\xef\xbb\xbf'): s = s[3:]
    p = Parser(s, merge)
    return p.parse(), p.tokens, p

# ---------------------------------------------------------------- normal forms
def _norm_text(kids, resolve, keep_empty=False):
    """Adjacent text merges, character and predefined entity references are the characters they stand for."""
    out = []
    for k in kids:
        if k[0] == 'r' and resolve:
            n = k[1]
            if n.startswith('#'):
                v = int(n[2:], 16) if n[1] in 'xX' else int(n[1:])
                k = ('t', chr(v).encode('utf-8').decode('latin-1'))
            elif n in PRE5: k = ('t', PRE5[n])
        if k[0] == 't':
            if k[1] == '' : continue
            if out and out[-1][0] == 't': out[-1] = ('t', out[-1][1] + k[1]); continue
        out.append(k)
    return out

def norm_ref(kids, resolve=True, doctype=True):
    """Normal form of a reference tree."""
    return _norm_text([x for x in (_nr(k, resolve, doctype) for k in kids) if x], resolve)
def _nr(k, resolve, doctype):
    if isinstance(k, E):
        ns = sorted(set((p or '', h) for p, h in k.ns if h is not None and p != 'xml'))
        at = [(p or '', n, h or '', tuple(_norm_text([x for x in v], resolve))) for p, n, v, h in k.attrs]
        return ('e', k.prefix or '', k.name, k.href or '', tuple(ns), tuple(at), tuple(norm_ref(k.kids, resolve, doctype)))
    if k[0] == 'd': return ('d',) if doctype else None
    if k[0] == 'p': return ('p', k[1], k[2] or '')
    return k

def norm_dump(kids, resolve=True, doctype=True, cdata=True):
    """Normal form of a tree dumped by the op server."""
    out = []
    for k in kids:
        t = k[0]
        if t == 'e':
            ns = sorted(set((p or '', h) for p, h in k[4] if h is not None))
            at = [(p or '', n, h or '', tuple(_norm_text([tuple(x) if x[0] != 'x' else ('t', x[1]) for x in (v or [])], resolve))) for p, n, h, v in k[5]]
            out.append(('e', k[1] or '', k[2], k[3] or '', tuple(ns), tuple(at), tuple(norm_dump(k[6], resolve, doctype))))
        elif t == 'd':
            if doctype: out.append(('d',))
        elif t == 'p': out.append(('p', k[1], k[2] or ''))
        elif t == 'x': out.append(('t', k[1] or ''))
        elif t == 't': out.append(('t', k[1] or ''))
        elif t == 'c': out.append(('c', k[1] or ''))
        else: out.append(tuple(k))
    return _norm_text(out, resolve)

def first_diff(a, b, path='/'):
    """A short description of the first difference of two normal forms."""
    a, b = list(a), list(b)
    for i in range(max(len(a), len(b))):
        if i >= len(a): return '%s[%d]: only right: %.200r' % (path, i, b[i])
        if i >= len(b): return '%s[%d]: only left: %.200r' % (path, i, a[i])
        x, y = a[i], b[i]
        if x == y: continue
        if x[0] == 'e' and y[0] == 'e' and x[1:6] == y[1:6]: return first_diff(x[6], y[6], path + x[2] + '/')
        if x[0] == 'e' and y[0] == 'e': return '%s[%d]: %.400r != %.400r' % (path, i, x[:6], y[:6])
        return '%s[%d]: %.300r != %.300r' % (path, i, x, y)
    return 'equal'

def diff_kind(a, b):
    """What kind of thing differs, for violation keys."""
    a, b = list(a), list(b)
    for i in range(max(len(a), len(b))):
        if i >= len(a): return 'extra-' + b[i][0]
        if i >= len(b): return 'missing-' + a[i][0]
        x, y = a[i], b[i]
        if x == y: continue
        if x[0] != y[0]: return '%s-for-%s' % (y[0], x[0])
        if x[0] == 'e':
            for j, n in ((1, 'prefix'), (2, 'name'), (3, 'namespace'), (4, 'nsdecl'), (5, 'attrs')):
                if x[j] != y[j]: return 'e-' + n
            return diff_kind(x[6], y[6])
        return x[0] + '-content'
    return 'equal'
