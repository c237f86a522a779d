"""Text and content line output against the tree."""
from wk import *
import fuzz, ht

def cref(n):
    """The character of a numeric or predefined entity name, None for other names."""
    if n.startswith('#x'): v = int(n[2:], 16) if re.fullmatch('[0-9a-fA-F]+', n[2:]) else None
    elif n.startswith('#'): v = int(n[1:]) if re.fullmatch('[0-9]+', n[1:]) else None
    else: return {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'", 'nbsp': '\u00a0'}.get(n)
    if v is None or v > 0x10ffff or 0xd800 <= v < 0xe000 or v == 0: return None
    return chr(v)

def text(kids, names):
    o = []
    for k in kids:
        if k[0] in 'tx': o.append(utf(k[1]))
        elif k[0] == 'r':
            c = cref(utf(k[1]))
            if c is None: names.append(k[1]); c = '<ENTITY>' + utf(k[1])
            o.append(c)
        elif k[0] == 'e': o.append(text(k[6], names))
    return ''.join(o)

def lines(kids, path, o, names):
    """(path, value) in document order."""
    for k in kids:
        if k[0] == 'e':
            p = path + '/' + ((k[1] + ':') if k[1] else '') + k[2]
            for a in k[5]:
                v = []
                for c in a[3]:
                    if c[0] == 't': v.append(utf(c[1]))
                    elif c[0] == 'r':
                        x = cref(utf(c[1]))
                        if x is None: names.append(c[1]); x = '&%s;' % utf(c[1])
                        v.append(x)
                o.append((p + '/@' + ((a[0] + ':') if a[0] else '') + a[1], ''.join(v)))
            if k[6]: lines(k[6], p, o, names)
            else: o.append((p, ''))
        elif k[0] in 'tx': o.append((path, utf(k[1])))
        elif k[0] == 'r':
            x = cref(utf(k[1]))
            if x is None: names.append(k[1]); x = '&%s;' % utf(k[1])
            o.append((path, x))

ESC = {'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r', '\\': '\\', '"': '"'}
def unc(s):
    if len(s) < 2 or s[0] != '"' or s[-1] != '"': return None
    i = 1; o = []
    while i < len(s) - 1:
        c = s[i]
        if c == '"': return None
        if c == '\\':
            if s[i + 1] == 'x': o.append(chr(int(s[i + 2:i + 4], 16))); i += 4; continue
            if s[i + 1] not in ESC or i + 1 >= len(s) - 1: return None
            o.append(ESC[s[i + 1]]); i += 2; continue
        o.append(c); i += 1
    return ''.join(o)

def run(ctx):
    ctx.rule = 'a document printed as text and as content lines; distinct by its tree; non-trivial if it has at least two values'
    ctx.assumptions = ['texts are valid UTF-8', 'a named entity without a definition is shown by its name', 'neighbouring texts may share or have lines of their own']
    rng = ctx.rng
    ins = doc_inputs(ctx, ctx.scale(16000, 300000))
    for i in range(ctx.scale(2000, 30000)): ins.append((JSON, 0, fuzz.jsontext(rng)) if i % 2 else (HTML, rng.choice([0, TRIM_NONE]), fuzz.htmltext(rng)))
    reqs = [[('parse', '0', str(ty), str(fl), '', 'e', t), ('dump', '0'), ('print', '0', 'of=text'), ('print', '0', 'of=clines'), ('dump', '0')] for ty, fl, t in ins if is_utf8(t)]
    for (ty, fl, t), q, r in zip([x for x in ins if is_utf8(x[2])], reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']; rp = {'request': jreq(q)}
        if not rs[0]['ok']: ctx.count('not-a-document'); continue
        names = []; want = text(rs[1], names); got = utf(rs[2]) or ''
        ls = []; lines(rs[1], '', ls, [])
        ctx.case(json.dumps(rs[1]) if len(ls) > 1 else None, '%.300r' % got)
        ctx.count('type-%d' % ty); ctx.count('characters', len(want)); ctx.count('values', len(ls))
        if names: ctx.count('named-entities')
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            ctx.violation('text:type%d' % ty, 'text differs at %d: printed %r, document has %r: %.400r' % (i, got[i-20:i + 40], want[i-20:i + 40], t), rp)
        out = utf(rs[3]) or ''
        if out and out[-1] != '\n': ctx.violation('clines:last-line', 'last line not ended: %r' % out[-80:], rp); continue
        gl = []
        for l in out.split('\n')[:-1]:
            i = l.find('="')
            v = unc(l[i + 1:]) if i >= 0 else None
            if v is None: ctx.violation('clines:line', 'not a content line: %r of %.400r' % (l, t), rp); gl = None; break
            gl.append((l[:i], v))
        if gl is None: continue
        a, b = join(gl), join(ls)
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
            ctx.violation('clines:%s' % ('missing' if x is None else 'extra' if y is None else 'path' if x[0] != y[0] else 'value'), 'line %d is %r, document has %r: %.400r' % (i, x, y, t), rp)
        if rs[4] != rs[1]: ctx.violation('changed', 'printing changed the document: %.400r' % t, rp)

def join(ls):
    """Neighbouring text values of the same element as one."""
    o = []
    for p, v in ls:
        if o and o[-1][0] == p and '/@' not in p and v and o[-1][1]: o[-1] = (p, o[-1][1] + v)
        else: o.append((p, v))
    return o
