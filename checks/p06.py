"""Trimming on import: what is left of a document with each trim setting, against the document read without trimming
and (for XML) against an independent reader."""
from wk import *
import xo, ht

SETTINGS = [('default', 0), ('heuristic', TRIM_HEUR), ('exact', TRIM_EXACT)]
W = ' \t\r\n'
def squeeze(nf):
    """White space between nodes and around texts dropped; the lines of each text keep their order and inner spacing."""
    out = []
    for k in nf:
        if k[0] == 'e': out.append(k[:6] + (squeeze(k[6]),))
        elif k[0] in 'tc':
            l = [x.strip(W) for x in re.split(r'[\r\n]', k[1])]; l = tuple(x for x in l if x)
            if l: out.append((k[0], l))
        else: out.append(k)
    return tuple(out)

def bare(nf):
    """No white space at all."""
    out = []
    for k in nf:
        if k[0] == 'e': out.append(k[:6] + (bare(k[6]),))
        elif k[0] in 'tc':
            t = re.sub(r'[ \t\r\n]', '', k[1])
            if t and k[0] == 't' and out and out[-1][0] == 't': out[-1] = ('t', out[-1][1] + t)
            elif t: out.append((k[0], t))
        else: out.append(k)
    return tuple(out)
def blank_text(nf): return any((k[0] == 't' and not k[1].strip(W)) or (k[0] == 'e' and blank_text(k[6])) for k in nf)
def blank_comment(nf): return any((k[0] == 'c' and not k[1].strip(W)) or (k[0] == 'e' and blank_comment(k[6])) for k in nf)

def indents(nf):
    """For each text of more than two lines: the lines after the first, with their relative indentation."""
    out = []
    for k in nf:
        if k[0] == 'e': out += indents(k[6])
        elif k[0] == 't' and k[1].strip(W):
            if re.search(r'[\t\r]', k[1]): out.append(None); continue
            ind = [len(x) - len(x.lstrip(' ')) for x in k[1].strip(W).split('\n')[1:] if x.strip(W)]
            out.append(tuple(i - min(ind) for i in ind))
    return out

def u8(s):
    try: return s.encode('latin-1').decode('utf-8')
    except UnicodeError: return s

def run(ctx):
    ctx.rule = 'a document read with a trim setting; distinct by text and setting; non-trivial if trimming changed the tree'
    ctx.assumptions = ['a comment of white space only may disappear', 'white space between two nodes may disappear (trimming is a heuristic, documented as such)']
    rng = ctx.rng; n = ctx.scale(9000, 150000); docs = []
    for exts, ty in ((('.xml', '.xsd', '.xslt', '.xsl'), XML), (('.html', '.htm'), HTML), (('.xmq',), XMQ)):
        for p, b in gen.corpus(exts, 30000):
            if b'\0' not in b: docs.append((ty, b))
    for i in range(n):
        k = i % 6
        if k in (0, 1): docs.append((XML, gen.xml(rng, gen.Doc(rng, ents=False, doctype=False).doc())))
        elif k == 2: docs.append((XML, indented(rng)))
        elif k == 3: docs.append((HTML, ht.doc(rng, rng.choice([8, 20, 40]))))
        elif k == 4: docs.append((XMQ, gen.spell(rng, gen.Doc(rng).doc())))
        else: docs.append((rng.choice([XML, HTML]), gen.mutate(rng, rng.choice(docs)[1]).replace(b'\0', b'')))
    for lo in range(0, len(docs), 8000):
        part = docs[lo:lo + 8000]; reqs = []
        for ty, t in part:
            reqs.append([x for f in [TRIM_NONE] + [s[1] for s in SETTINGS] for x in (('parse', '0', ty, f, '', rng.choice('ze'), t), ('dump', '0'))])
        for (ty, t), req, r in zip(part, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            judge(ctx, ty, t, req, r['r'])

def judge(ctx, ty, t, req, a):
    rp = {'request': jreq(req)}; T = {XMQ: 'xmq', XML: 'xml', HTML: 'html'}[ty]
    if not a[0]['ok']:
        ctx.count('rejected')
        return
    none = ref.norm_dump(a[1])
    if ty == XML:
        w, info = xo.parse(t)
        if w is not None and not info['entities']:
            ctx.count('independent-reader')
            x = exact(w); y = exactd(none)
            if x != y: ctx.violation('none-not-exact', '%r %s' % (t[:1500], pdiff(x, y)), rp)
    base = squeeze(none); ind = indents(none)
    for i, (nm, f) in enumerate(SETTINGS):
        v, d = a[2 + 2 * i], a[3 + 2 * i]
        if not v['ok']: ctx.violation('rejected:%s:%s' % (T, nm), '%r %s' % (t[:1500], v['err']), rp); continue
        d = ref.norm_dump(d)
        changed = d != none
        ctx.case(b'%d%d' % (ty, f) + t if changed else None, '%s %s %r' % (T, nm, t[:300])); ctx.count('%s-%s' % (T, nm)); ctx.count('changed', changed)
        if ty == XMQ and f == 0:
            if changed: ctx.violation('xmq-trimmed', '%r %s' % (t[:1500], ref.first_diff(none, d)), rp)
            continue
        if bare(d) != bare(none): ctx.violation('characters:%s:%s:%s' % (T, nm, ref.diff_kind(bare(none), bare(d))), '%s %r' % (ref.first_diff(bare(none), bare(d)), t[:1500]), rp); continue
        if ty in (XML, HTML) and blank_text(d): ctx.violation('blank-left:%s:%s' % (T, nm), '%r' % (t[:1500]), rp)
        if ty == XMQ or blank_comment(none): continue
        got = squeeze(d); ctx.count('lines-compared')
        if got != base: ctx.violation('content:%s:%s:%s' % (T, nm, ref.diff_kind(base, got)), '%s %r' % (ref.first_diff(base, got), t[:1500]), rp)
        elif any(x is not None and x != y for x, y in zip(ind, indents(d))): ctx.violation('indentation:%s:%s' % (T, nm), '%r %r %r' % (ind, indents(d), t[:1500]), rp)

def exact(w):
    out = []
    for k in w:
        if k[0] == 'e': out.append(('e', k[1][1], k[1][0])); out += exact(k[4]); out.append(('/',))
        elif k[0] == 'p': out.append(('p', k[1]))
        else: out.append((k[0], k[1]))
    return out
def exactd(nf):
    out = []
    for k in nf:
        if k[0] == 'e': out.append(('e', u8(k[2]), u8(k[3]))); out += exactd(k[6]); out.append(('/',))
        elif k[0] in 'tc': out.append((k[0], u8(k[1])))
        elif k[0] == 'p': out.append(('p', u8(k[1])))
        elif k[0] == 'd': pass
        else: out.append(k)
    return out
def pdiff(x, y):
    for p, q in zip(x, y):
        if p != q: return '%r != %r' % (p, q)
    return 'lengths %d %d' % (len(x), len(y))

def indented(rng):
    """Indented XML as editors write it: texts of several lines with their own indentation."""
    o = []
    def el(d):
        ind = rng.choice(['  ', '    ', '\t']) * d
        n = rng.choice(['a', 'para', 'item', 'x'])
        r = rng.random()
        o.append('%s<%s>' % (ind, n))
        if d < 4 and r < 0.4:
            o.append('\n')
            for _ in range(rng.choice([1, 2, 3])): el(d + 1)
            o.append(ind)
        else:
            k = rng.choice([1, 1, 2, 3, 5])
            for i in range(k):
                if i or rng.random() < 0.5: o.append('\n' + ind + ' ' * rng.choice([0, 1, 2, 4, 4, 8]))
                o.append(rng.choice(['text', 'two  words', 'x &lt; y', '', ' lead', 'trail ', "it's", 'a\tb', '&#160;x', 'å', '&#13;', '<!-- c -->', '<![CDATA[ raw ]]>', '<b>bold</b>']))
            if rng.random() < 0.5: o.append('\n' + ind)
        o.append('</%s>\n' % n)
    el(0)
    return ''.join(o).encode('utf-8')
