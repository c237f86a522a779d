"""XML -> XMQ -> XML (and XML -> XML), judged by an independent XML parser."""
from wk import *
import xo

def rep(nf, compact):
    """Comments and processing instructions which XMQ can carry unchanged (outer whitespace is not significant there)."""
    for k in nf:
        if k[0] == 'e':
            if not rep(k[4], compact): return False
        elif k[0] == 'c':
            c = k[1]
            if c != c.strip(WS) or '\r' in c or re.search(r'[ \t]\n', c): return False
            if compact and re.search(r'\n ', c): return False
        elif k[0] == 'p':
            c = k[2] or ''
            if c != c.strip(WS + "'") or re.search(r'[\x00-\x1f]', c): return False
    return True
def urisok(nf):
    """libxml2 prints namespace names with whitespace, quotes or markup in them without escaping."""
    for k in nf:
        if k[0] == 'e':
            if any(re.search(r'[\x00-\x20<>&"]', u) for _, u in k[2]): return False
            if not urisok(k[4]): return False
    return True

ROUTES = {'xml': [('print', 'd', 'of=xml')],
          'omit': [('print', 'd', 'of=xml,omit=1')],
          'xmq': [('print', 'd', 'of=xmq'), ('reparse', 'd', XMQ, 0, '', 'z'), ('print', 'd', 'of=xml')],
          'compact': [('print', 'd', 'of=xmq,compact=1'), ('reparse', 'd', XMQ, 0, '', 'z'), ('print', 'd', 'of=xml')],
          'indent0': [('print', 'd', 'of=xmq,indent=0'), ('reparse', 'd', XMQ, 0, '', 'z'), ('print', 'd', 'of=xml')],
          'n7': [('print', 'd', 'of=xmq,n7=1,nl=1,tab=1'), ('reparse', 'd', XMQ, 0, '', 'z'), ('print', 'd', 'of=xml')],
          'twice': [('print', 'd', 'of=xmq'), ('reparse', 'd', XMQ, 0, '', 'z'), ('print', 'd', 'of=xml'), ('reparse', 'd', XML, TRIM_NONE, '', 'z'), ('print', 'd', 'of=xmq,compact=1'), ('reparse', 'd', XMQ, 0, '', 'z'), ('print', 'd', 'of=xml')]}
NAMES = list(ROUTES)

def run(ctx):
    ctx.rule = 'a well-formed XML document through one route; distinct by text and route; non-trivial if it has attributes or mixed content'
    ctx.assumptions = ['no entity declarations', 'comments and PIs on the XMQ routes: no outer whitespace, no line ends in PIs', 'namespace names without whitespace and markup characters']
    rng = ctx.rng; n = ctx.scale(16000, 300000)
    docs = [b for p, b in gen.corpus(('.xml', '.xsd', '.xslt', '.xsl'), 20000)]
    ctx.count('corpus', len(docs))
    for i in range(n):
        D = gen.Doc(rng, ents=False, size=rng.choice([14, 14, 14, 40, 100]))
        docs.append(gen.xml(rng, D.doc()))
    from_xmq(ctx, ctx.scale(8000, 150000))
    jobs = []
    for i, t in enumerate(docs):
        nf, info = xo.parse(t)
        if nf is None: ctx.count('not-wellformed'); continue
        if info['entities'] or not urisok(nf) or (info['doctype'] or ('',))[0].lower() == 'html': ctx.count('excluded'); continue
        for ro in (NAMES if i < 150 else [NAMES[i % len(NAMES)]]):
            if ro not in ('xml', 'omit') and not rep(nf, ro in ('compact', 'twice')): ro = 'xml'
            jobs.append((t, nf, ro, [('parse', 'd', XML, TRIM_NONE, '', 'z', t)] + ROUTES[ro]))
    for lo in range(0, len(jobs), 20000):
        part = jobs[lo:lo + 20000]
        for (t, nf, ro, req), r in zip(part, ctx.srv.run([j[3] for j in part])):
            if ctx.bad(r, req): continue
            rp = {'request': jreq(req)}
            ctx.case(ro.encode() + t if len(nf[-1]) > 4 or len(t) > 60 else None, '%s: %r' % (ro, t[:300])); ctx.count('route-' + ro)
            bad = [x for x in r['r'] if isinstance(x, dict) and not x['ok']]
            if bad: ctx.violation('rejected:%s:%s' % (ro, 'input' if bad[0] is r['r'][0] else 'printed'), '%r %s' % (t[:1500], bad[0]['err']), rp); continue
            out = lat(r['r'][-1])
            if out is None: ctx.violation('null:' + ro, repr(t), rp); continue
            if ro == 'omit' and re.match(rb'\s*<\?xml[ \t\r\n]', out): ctx.violation('declaration', '%r -> %r' % (t, out), rp)
            w, info = xo.parse(out)
            if w is None: ctx.violation('not-wellformed:' + ro, '%r -> %r' % (t[:1500], out[:1500]), rp); continue
            if w != nf: ctx.violation('differs:%s:%s' % (ro, xo.diff(nf, w)), '%r -> %r via %r' % (t[:1500], out[:1500], r['r'][1][:1500]), rp)

def from_xmq(ctx, n):
    """XMQ documents printed as XML and read as XML: the same tree."""
    rng = ctx.rng; docs = []
    for p, b in gen.corpus(('.xmq',), 20000): docs.append(b)
    for i in range(n // 8): docs.append(undeclared(rng).encode())
    for i in range(n): docs.append(gen.spell(rng, gen.Doc(rng, ents=False, size=rng.choice([14, 14, 40])).doc()) if i % 4 else gen.layout_doc(rng))
    for lo in range(0, len(docs), 10000):
        part = docs[lo:lo + 10000]
        reqs = [[('parse', 'd', XMQ, 0, '', 'z', t), ('dump', 'd'), ('print', 'd', 'of=xml'), ('reparse', 'd', XML, TRIM_NONE, '', 'z'), ('dump', 'd')] for t in part if b'\0' not in t]
        for req, r in zip(reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            a = r['r']; t = req[0][6]
            if not a[0]['ok']: ctx.count('back-not-parsed'); continue
            d = ref.norm_dump(a[1]); rp = {'request': jreq(req)}
            if sum(1 for k in d if k[0] == 'e') != 1 or any(k[0] in 'tr' for k in d) or refs(d) or controls(d) or not is_utf8(t): ctx.count('back-not-xml'); continue
            out = lat(a[2])
            if out is None: ctx.violation('back-null', repr(t[:1500]), rp); continue
            why = outside(d)
            if why: ctx.count('back-outside-' + why); continue
            if any('html' in (x or '').lower() for x in doctypes(a[1])): ctx.count('back-html'); continue
            ctx.case(b'back' + t, 'back: %r' % t[:300]); ctx.count('route-back')
            if not a[3]['ok']: ctx.violation('back-rejected', '%r -> %r %s' % (t[:1500], out[:1500], a[3]['err']), rp); continue
            e = qual(ref.norm_dump(a[4])); d = qual(d)
            if e != d: ctx.violation('back:' + ref.diff_kind(d, e), '%s %r -> %r' % (ref.first_diff(d, e), t[:1500], out[:1500]), rp)
            elif doctypes(a[1]) != doctypes(a[4]): ctx.violation('back-doctype', '%r -> %r' % (t[:1500], out[:1500]), rp)

def refs(nf): return any(k[0] == 'r' or (k[0] == 'e' and (refs(k[6]) or any(refs(a[3]) for a in k[5]))) for k in nf)
def outside(nf):
    """What XML can not carry: comments with -- or a - at the end, PIs with ?>, the same attribute twice, odd namespace names."""
    for k in nf:
        if k[0] == 'e':
            if len({(a[2], a[1]) if a[2] else (a[0], a[1]) for a in k[5]}) < len(k[5]): return 'attribute'
            if any(re.search(r'[\x00-\x20<>&"]', h) for _, h in k[4]): return 'uri'
            if any(not h for p, h in k[4] if p): return 'empty-uri'
            w = outside(k[6])
            if w: return w
        elif k[0] == 'c' and ('--' in k[1] or k[1].endswith('-') or '\r' in k[1]): return 'comment'
        elif k[0] == 'p' and ('?>' in (k[2] or '') or (k[2] or '') != (k[2] or '').strip(WS) or '\r' in (k[2] or '')): return 'pi'
    return None

def undeclared(rng, d=0):
    """Prefixes without a declaration are legal XMQ (and printed as they are)."""
    nm = lambda: rng.choice(['', 'x:', 'y:', 'long-one:']) + rng.choice(['a', 'b', 'name'])
    at = [nm() for _ in range(rng.choice([0, 0, 1, 2]))]
    s = nm() + ('(' + ' '.join(dict.fromkeys(a + "=" + rng.choice(['1', "'x y'", "''"]) for a in {a.split(':')[-1]: a for a in at}.values())) + ')' if at else '')
    if d < 3 and rng.random() < 0.6: return s + ' { ' + ' '.join(undeclared(rng, d + 1) for _ in range(rng.choice([1, 2, 3]))) + ' }'
    return s + rng.choice(['', ' = 1', " = 'two words'", ''])

def qual(nf):
    """A prefix without declaration is part of the name."""
    q = lambda p, n, h: (p, n) if h or not p else ('', p + ':' + n)
    return tuple((k[0],) + q(k[1], k[2], k[3]) + (k[3], k[4], tuple(q(a[0], a[1], a[2]) + tuple(a[2:]) for a in k[5]), qual(k[6])) if k[0] == 'e' else k for k in nf)
