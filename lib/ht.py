"""HTML workload and an independent view of HTML texts (Python's html.parser)."""
import re, html
from html.parser import HTMLParser
import gen
VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr'}

class V(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True); self.ev = []
    def handle_starttag(self, t, at): self.ev.append(['<', t, sorted((k, v or '') for k, v in at)])
    def handle_startendtag(self, t, at): self.handle_starttag(t, at)
    def handle_endtag(self, t):
        if t not in VOID: self.ev.append(['>', t])
    def handle_data(self, d):
        if self.ev and self.ev[-1][0] == 't': self.ev[-1][1] += d
        else: self.ev.append(['t', d])
    def handle_comment(self, c): self.ev.append(['c', c])
    def handle_decl(self, d): self.ev.append(['d', d.lower()])
    def handle_pi(self, d): self.ev.append(['p', d])

def view(b):
    """Events of an HTML text; white space directly inside html and head, and between them, does not count."""
    v = V(); v.feed(b.decode('utf-8')); v.close()
    out = []; st = []
    for e in v.ev:
        if e[0] == '<' and e[1] not in VOID: st.append(e[1])
        elif e[0] == '>' and st and st[-1] == e[1]: st.pop()
        if e[0] == 't' and (not st or st[-1] in ('html', 'head')) and not e[1].strip(): continue
        out.append(e)
    return out

INLINE = ['b', 'i', 'em', 'span', 'a', 'code', 'strong', 'small', 'sub']
BLOCK = ['div', 'section', 'p', 'ul', 'table', 'pre', 'h1', 'blockquote', 'article', 'main', 'form', 'dl']
PIECES = ['a', 'word', 'Hello there', ' ', '  ', '\n', '\n  ', "'", "''", "'''", '"', '&', '<', '>', '{', '}', '=', '(', '//', '/*', '\\', '&amp;', '&#10;', '\u00a0', 'å', '日本', '𝄞', '\t', ';', 'x=1', '-->', ']]>', '\u200b', 'é']
def text(rng):
    return ''.join(rng.choice(PIECES) if rng.random() < 0.6 else gen_word(rng) for _ in range(rng.choice([1, 1, 2, 3, 6])))
def gen_word(rng): return ''.join(rng.choice('abcxyzABC019.') for _ in range(rng.randint(1, 6)))

NAMED = {'\u00a0': '&nbsp;', 'å': '&aring;', 'é': '&eacute;', '<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;'}
def esc(rng, t, attr=False):
    o = []
    for i, c in enumerate(t):
        r = rng.random()
        if c == '&' or c == '<' or (attr and c == '"'): o.append(NAMED[c] if r < 0.8 else '&#%d;' % ord(c))
        elif c == '>' : o.append('&gt;' if r < 0.7 else '>')
        elif c in NAMED and r < 0.4: o.append(NAMED[c])
        elif r < 0.03 and ord(c) > 32: o.append('&#x%x;' % ord(c))
        else: o.append(c)
    return ''.join(o)

class G:
    def __init__(self, rng, size=25): self.rng = rng; self.left = size; self.o = []
    def attrs(self, extra=()):
        rng = self.rng; s = ''
        for k in rng.sample(['class', 'id', 'title', 'lang', 'data-x', 'style', 'onclick', 'data-y.z', 'aria-label'], rng.choice([0, 0, 0, 1, 1, 2, 3])):
            v = rng.choice(['', 'x', 'a b', 'foo']) if rng.random() < 0.5 else text(rng)
            s += ' %s="%s"' % (k, esc(rng, v, True))
        for k in extra:
            if rng.random() < 0.4: s += ' ' + k
        return s
    def comment(self):
        c = self.rng.choice(['x', ' x ', 'a b', 'one\ntwo', ' [if IE]>x<![endif]', "it's", '{', '*/', '/*', ' // x'])
        self.o.append('<!--%s-->' % c)
    def inline(self, d, no=()):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 3])):
            self.left -= 1; r = rng.random()
            if r < 0.5 or d > 7 or self.left < 0: self.o.append(esc(rng, text(rng)))
            elif r < 0.75:
                n = rng.choice([x for x in INLINE if x not in no])
                self.o.append('<%s%s>' % (n, self.attrs() + (' href="%s"' % esc(rng, rng.choice(['x', 'http://a/b?c=d&e=f', '#y', "j'k", 'a%20b']), True) if n == 'a' else '')))
                self.inline(d + 1, no + (n,)); self.o.append('</%s>' % n)
            elif r < 0.82: self.o.append(rng.choice(['<br>', '<img src="a.png" alt="%s">' % esc(rng, text(rng), True), '<wbr>']))
            elif r < 0.9: self.o.append('<input%s>' % self.attrs(('disabled', 'checked', 'required')))
            elif r < 0.94: self.comment()
            else: self.o.append('<button%s>' % self.attrs(('disabled',))); self.o.append(esc(rng, gen_word(rng))); self.o.append('</button>')
    def ws(self):
        self.o.append(self.rng.choice(['', '', '', '\n', '\n  ', ' ']))
    def block(self, d):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 3])):
            self.left -= 1; r = rng.random()
            if d > 6 or self.left < 0: n = 'p'
            else: n = rng.choice(BLOCK)
            if n == 'form' and d: n = 'div'
            self.o.append('<%s%s>' % (n, self.attrs()))
            if n in ('p', 'h1', 'pre'):
                # a newline first in pre is dropped by html
                k = len(self.o); self.inline(d)
                if n == 'pre' and ''.join(self.o[k:])[:1] in '\n\r': self.o[k:k] = ['x']
            elif n == 'ul':
                for _ in range(rng.choice([1, 2, 3])): self.o.append('<li%s>' % self.attrs()); self.inline(d + 1); self.o.append('</li>')
            elif n == 'dl': self.o.append('<dt>'); self.inline(d + 1); self.o.append('</dt><dd>'); self.inline(d + 1); self.o.append('</dd>')
            elif n == 'table':
                self.o.append('<tbody>')
                for _ in range(rng.choice([1, 2])):
                    self.o.append('<tr>')
                    for _ in range(rng.choice([1, 2])): self.o.append('<td%s>' % self.attrs()); self.inline(d + 1); self.o.append('</td>')
                    self.o.append('</tr>')
                self.o.append('</tbody>')
            elif rng.random() < 0.5: self.inline(d + 1)
            else: self.block(d + 1)
            self.o.append('</%s>' % n)
            if rng.random() < 0.1: self.comment()
    def doc(self):
        rng = self.rng
        if rng.random() < 0.8: self.o.append('<!DOCTYPE html>' + rng.choice(['', '\n']))
        self.o.append('<html%s><head>' % rng.choice(['', ' lang="en"']))
        if rng.random() < 0.5: self.o.append('<meta charset="utf-8">')
        self.o.append('<title>%s</title>' % esc(rng, text(rng) if rng.random() < 0.5 else 'T'))
        if rng.random() < 0.3: self.o.append('<style>%s</style>' % rng.choice(['h1{color:red;}', 'a > b { x: "y" }\n.c{}', "p::before{content:'q'}", 'a{}\n  b{}\n', 'a::b{content:"åß世"}']))
        if rng.random() < 0.3: self.o.append('<script%s>%s</script>' % (rng.choice(['', ' src="a.js"', ' async']), rng.choice(['', 'var x = 1;', 'if (a < b && c > d) { e("f"); }', "x='y'; // z\n", 'f("\tå\u65e5\U0001d11e");', '\n\n  if (a) {\n\tb(\'\');\n  }\n\n', '\n  let a = `b`;\n  c();\n'])))
        if rng.random() < 0.3: self.o.append('<link rel="stylesheet" href="x.css">')
        self.o.append('</head><body%s>' % self.attrs()); self.block(0); self.o.append('</body></html>')
        return ''.join(self.o).encode('utf-8')

def doc(rng, size=25): return G(rng, size).doc()

def loose(ev):
    """Without white space in text (HTML printers add line breaks around blocks), except in script and style."""
    out = []; raw = False
    for e in ev:
        if e[0] == '<': raw = e[1] in ('script', 'style')
        elif e[0] == '>': raw = False
        if e[0] == 't' and not raw:
            t = re.sub(r'[ \t\r\n]+', '', e[1])
            if t: out.append(['t', t])
        else: out.append(e)
    return out
