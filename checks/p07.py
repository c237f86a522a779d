"""JSON in, JSON out: the value denoted, judged by an independent decoder."""
import json
from wk import *
from decimal import Decimal

class Num(str): pass
def value(b):
    """(kind, value) trees with the order of keys and the exact numbers; raises ValueError."""
    def bad(x): raise ValueError(x)
    return json.loads(b.decode('utf-8'), object_pairs_hook=lambda p: ('o', p), parse_float=num, parse_int=num, parse_constant=bad)
def num(s):
    d = Decimal(s)
    return ('n', str(d.normalize()) if d else '0')
def norm(v):
    """Values are compared with the keys given as attributes ("_key") before the others: XML attributes come first."""
    if isinstance(v, list): return [norm(x) for x in v]
    if isinstance(v, tuple) and v[0] == 'o':
        p = [(k, norm(x)) for k, x in v[1]]
        return ('o', sorted((x for x in p if x[0][:1] == '_'), key=lambda x: x[0]) + [x for x in p if x[0][:1] != '_'])
    return v

STR = ['', 'a', 'A', 'abc', ' ', '  ', ' x', 'x ', '\n', 'a\nb', '\n\n', '\t', '\r', '\r\n', "'", "''", "'''", '"', '\\', '/', '\\n', '{', '}', '[', ']', '(', ')', '=', '&', '&amp;', '<', '>', '<a>', ']]>', '//x', '/*x*/', '*/',
       '1', '-1', '1.5', '1e5', '01', 'true', 'false', 'null', 'True', '\u20ac', '\u00e5\u00e4', '\U0001f600', '\u00a0', '\u2028', '\ufeff', '\u0301', '\x7f', '\x80', '_', '__', '#', '%', '&#10;', 'xmlns', 'x:y', 'a b', '--', '-', '?', '!', ';', ',', '0', '-0', 'A', 'S', 'B']
KEY = ['a', 'b', 'c', 'key', 'x y', '', ' ', '1', '12', 'a:b', ':', 'x:', ':x', '\n', "'", '"', '&', '<', '=', '(', 'true', 'null', '\u00e5', '\u20ac', '\U0001f600', 'a.b', 'a-b', '-a', '.a', 'a/b', '\\', '\t', 'xmlns:', 'xml', 'div', 'html', 'h1', '{', '}', '[', ']', 'a=b', '//', 'id', 'class', 'long_key_with_things']
AKEY = ['_a', '_b', '_key', '_1', '_x y', '_a:b', '_xmlns', '_xmlns:a', '_', '__', '__a', '_true', '_\u00e5', '_id', '_:', '_x:', '_?', '_xmlnsx', '_1:a', '_a:1', '_a.b', '_-']
NUMS = ['0', '1', '-1', '12', '-12', '1.5', '-0.5', '0.25', '1e5', '1E5', '1e+5', '1e-5', '1.5e10', '-0', '0.0', '123456789012345678901234567890', '1.7976931348623157e308', '4.9e-324', '3.141592653589793238462643383279', '0e0', '10', '100']
# Keys by which libxmq itself names the parts of an XML document which JSON lacks: element names, text, comments.
EX_KEY = {'_', '__', '_A', '_S', '|', '_//', '!DOCTYPE'}

class J:
    """Writes a random value as JSON text in a random spelling."""
    def __init__(self, rng, akeys=True, hard=True):
        self.r = rng; self.akeys = akeys; self.hard = hard; self.n = rng.choice([1, 3, 8, 20, 50])
    def ws(self):
        return self.r.choice(['', '', '', ' ', '\n', '  ', '\t', '\r\n', ' \n '])
    def string(self, s=None):
        r = self.r
        if s is None:
            s = r.choice(STR) if r.random() < 0.5 else ''.join(r.choice(STR) for _ in range(r.randint(0, 4)))
            if r.random() < 0.03: s = (s or 'x') * r.choice([10, 100, 600])
            if r.random() < 0.05: s += chr(r.choice([1, 2, 8, 11, 12, 14, 27, 31, 127]))
        o = []
        for ch in s:
            c = ord(ch); x = r.random()
            if ch in '"\\' or c < 32:
                sh = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}.get(ch)
                o.append(sh if sh and x < 0.8 else '\\u%04x' % c)
            elif ch == '/' and x < 0.3: o.append('\\/')
            elif x < 0.07:
                if c < 0x10000: o.append(('\\u%04x' if r.random() < .5 else '\\u%04X') % c)
                else: c -= 0x10000; o.append('\\u%04x\\u%04x' % (0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)))
            else: o.append(ch)
        return '"' + ''.join(o) + '"'
    def key(self, used):
        r = self.r
        for _ in range(50):
            k = r.choice(AKEY) if self.akeys and r.random() < 0.2 else r.choice(KEY) if r.random() < 0.8 else r.choice(STR) + r.choice(KEY)
            if k in EX_KEY or re.match(r'^_?\[', k) or k in used: continue
            used.add(k); return k
        k = 'k%d' % len(used); used.add(k); return k
    def val(self, depth=0, attr=False):
        r = self.r; self.n -= 1; x = r.random()
        if attr: return self.string() if x < .5 else r.choice(NUMS) if x < .8 else r.choice(['true', 'false', 'null'])
        if depth < 6 and self.n > 0 and x < 0.55:
            return self.obj(depth) if r.random() < .6 else self.arr(depth)
        if x < 0.75: return self.string()
        if x < 0.9: return r.choice(NUMS) if r.random() < .7 else str(r.randint(-10**r.randint(1, 25), 10**9))
        return r.choice(['true', 'false', 'null'])
    def obj(self, depth):
        used = set(); w = self.ws; o = []
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 5])):
            k = self.key(used); o.append(w() + self.string(k) + w() + ':' + w() + self.val(depth + 1, k[:1] == '_') + w())
        return '{' + (','.join(o) or w()) + '}'
    def arr(self, depth):
        w = self.ws; o = [w() + self.val(depth + 1) + w() for _ in range(self.r.choice([0, 1, 1, 2, 3, 5]))]
        return '[' + (','.join(o) or w()) + ']'
    def text(self):
        x = self.r.random()
        v = self.obj(0) if x < .6 else self.arr(0) if x < .85 else self.val(9)
        return (self.ws() + v + self.ws()).encode()

ROUTES = ['pretty', 'compact', 'again', 'xmq', 'xmqc', 'xmqn7', 'xml']
def route(r, ty):
    js = ('print', 'd', 'of=json')
    if r == 'pretty': return [js]
    if r == 'compact': return [('print', 'd', 'of=json,compact=1')]
    if r == 'again': return [js, ('reparse', 'd', JSON, 0, '', 'z'), js]
    if r == 'xmq': return [('print', 'd', 'of=xmq'), ('reparse', 'd', XMQ, 0, '', 'z'), js]
    if r == 'xmqc': return [('print', 'd', 'of=xmq,compact=1'), ('reparse', 'd', XMQ, 0, '', 'z'), js]
    if r == 'xmqn7': return [('print', 'd', 'of=xmq,n7=1'), ('reparse', 'd', XMQ, 0, '', 'z'), js]
    if r == 'xml': return [('print', 'd', 'of=xml'), ('reparse', 'd', XML, TRIM_NONE, '', 'z'), js]

def run(ctx):
    ctx.rule = 'a JSON text through one route; distinct by text; non-trivial if it holds an object or array with members or a string which needs escaping'
    rng = ctx.rng; n = ctx.scale(40000, 800000)
    texts = []
    for p, b in gen.corpus(('.json',), 20000):
        try: value(b)
        except (ValueError, UnicodeDecodeError, RecursionError): continue
        texts.append(b)
    ctx.count('corpus', len(texts))
    while len(texts) < n: texts.append(J(rng).text())
    jobs = []
    for i, t in enumerate(texts):
        v = norm(value(t))
        if excluded(v): ctx.count('excluded'); continue
        rs = [ROUTES[i % len(ROUTES)]] if i > 300 else ROUTES
        for ro in rs:
            if ro == 'xml' and not via_xml(v): ro = 'compact'
            if ro[:3] == 'xmq' and not via_xmq(v): ro = 'again'
            jobs.append((t, v, ro, [('parse', 'd', JSON, 0, '', rng.choice('zze'), t)] + route(ro, JSON)))
    for lo in range(0, len(jobs), 20000):
        part = jobs[lo:lo + 20000]
        for (t, v, ro, req), r in zip(part, ctx.srv.run([j[3] for j in part])):
            if ctx.bad(r, req): continue
            rep = {'request': jreq(req)}
            ctx.case(t if len(t) > 8 else None, '%s: %r' % (ro, t[:300])); ctx.count('route-' + ro)
            fail = [x for x in r['r'] if isinstance(x, dict) and not x['ok']]
            if fail: ctx.violation('rejected:%s:%s' % (ro, 'input' if fail[0] is r['r'][0] else 'printed'), '%r %s %r' % (t[:500], fail[0], r['r']), rep); continue
            out = lat(r['r'][-1])
            if out is None: ctx.violation('null:' + ro, repr(t), rep); continue
            try: w = norm(value(out))
            except (ValueError, UnicodeDecodeError) as e: ctx.violation('invalid:' + ro, '%r -> %r %s' % (t[:1000], out[:1000], e), rep); continue
            if w != v: ctx.violation('value:%s:%s' % (ro, kind(v, w)), '%r -> %r' % (t[:1000], out[:1000]) + (' via %r' % r['r'][1][:1000] if len(r['r']) > 2 else ''), rep)

URI = re.compile(r'^[a-z][a-z0-9:/.]*$')
def walk(v, f, key=None):
    f(key, v)
    if isinstance(v, list):
        for x in v: walk(x, f)
    elif isinstance(v, tuple) and v[0] == 'o':
        for k, x in v[1]: walk(x, f, k)
def excluded(v):
    bad = []
    def f(k, x):
        if isinstance(x, tuple) and x[0] == 'o':
            ks = [k for k, _ in x[1]]
            if len(set(ks)) != len(ks) or any(k in EX_KEY or re.match(r'^_?\[', k) for k in ks): bad.append(1)
            # Namespace declarations with a proper name.
            for k, y in x[1]:
                if (k == '_xmlns' or k.startswith('_xmlns:')) and (y is None or isinstance(y, str)) and not (isinstance(y, str) and URI.match(y)): bad.append(1)
    walk(v, f)
    return bool(bad)
def via_xmq(v):
    """An attribute without value and one with an empty value are the same in XMQ, the outer whitespace of a comment is not kept."""
    bad = []
    def f(k, x):
        if k and k[0] == '_' and x == '': bad.append(1)
        if k == '//' and isinstance(x, str) and not re.match(r'^\w+( \w+)*$', x): bad.append(1)
    walk(v, f)
    return not bad
def via_xml(v):
    """XML itself can not tell an empty string from nothing and can not hold control characters."""
    bad = []
    def f(k, x):
        if k and k[0] == '_' and x is None: bad.append(1)
        if isinstance(x, str) and (x == '' or (k == '//' and not re.match(r'^\w+( \w+)*$', x)) or re.search('[\x00-\x08\x0b-\x1f\x7f\ufffe\uffff]', x)): bad.append(1)
    walk(v, f)
    return not bad
def kind(a, b):
    if type(a) != type(b): return '%s-%s' % (tn(a), tn(b))
    if isinstance(a, list):
        if len(a) != len(b): return 'array-length'
        for x, y in zip(a, b):
            if x != y: return kind(x, y)
    if isinstance(a, tuple):
        if a[0] != b[0]: return '%s-%s' % (tn(a), tn(b))
        if a[0] == 'o':
            if [k for k, _ in a[1]] != [k for k, _ in b[1]]: return 'keys'
            for (k, x), (_, y) in zip(a[1], b[1]):
                if x != y: return kind(x, y)
    return tn(a)
def tn(x): return {'o': 'object', 'n': 'number'}[x[0]] if isinstance(x, tuple) else type(x).__name__
