"""The detected format against the format the document was written in; undeclared reading against declared; wrong declarations refused."""
from wk import *
import p07, ht, fuzz

NAMES = {XMQ: 'xmq', XML: 'xml', HTML: 'html', JSON: 'json'}
EXPECTED = {XMQ: 19, HTMQ: 20, XML: 21, HTML: 22, JSON: 23}
WS = [' ', '\n', '\t', '\r\n', '  \n ', '\n\n\n']

def space(rng): return ''.join(rng.choice(WS) for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))).encode()
def comments(rng, body=None):
    o = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        b = rng.choice([' c ', '', ' html ', '<html>', ' <a> ', '{', ' \n two lines \n', '>', ' - ', '<!DOCTYPE html>', '?xml', ' é中 ', '<!', 'x' * rng.choice([1, 10, 300])])
        o.append('<!--' + b + '-->' + rng.choice(['', '', '\n', ' ', '\n\n  ']))
    return ''.join(o).encode()

ROOTS = ['a', 'b', 'xml2', 'htm', 'htmlx', 'html5', 'html-page', 'html_a', 'html.b', 'html:p', 'xhtml', 'htmlé', 'head', 'body', 'h', 'doctype', 'H', 'a:b', '_', 'é', 'ht-ml', 'x.html']
def docs(ctx, n):
    """(text, format)"""
    rng = ctx.rng; out = []
    for exts, ty in ((('.xmq',), XMQ), (('.xml', '.xsd', '.xslt'), XML), (('.json',), JSON)):
        for p, b in gen.corpus(exts, 20000):
            if b'\0' not in b: out.append((b, ty, 'corpus'))
    for i in range(n):
        k = i % 4
        if k == 0:
            d = gen.Doc(rng).doc(); t = space(rng).replace(b'\t', b' ') + gen.spell(rng, d); out.append((t, XMQ, 'xmq'))
            if rng.random() < 0.3: out.append((rng.choice([b'', b' ', b'\n', b'// c\n', b'/* c */', b'// <html>\n', b'/* { */ ']) + rng.choice([b'true=1', b'nullx', b'falsey{}', b'true_', b'true{}', b'null(a=b)', b'truely', b'true false', b'null /*c*/', b'n', b'tru', b'f', b'html', b'xml', b'html{}', b"a='<html>'", b"_", b'?x=y a', b'!DOCTYPE=html a', b'', b'// only\n', b'nul', b'tr\n', b'fals ', b'null null', b"'text'", b'&x;', b'(&x;)' ]), XMQ, 'xmq-words'))
        elif k == 1:
            if rng.random() < 0.5:
                t = gen.xml(rng, gen.Doc(rng, ents=False, doctype=False).doc()); out.append((t, XML, 'xml'))
            else:
                r = rng.choice(ROOTS); decl = rng.random() < 0.3
                t = (b'<?xml version="1.0"?>' + rng.choice([b'', b'\n']) if decl else space(rng)) + comments(rng) + (b'<?pi html?>' if rng.random() < .2 else b'')
                if rng.random() < 0.2: t += ('<!DOCTYPE %s>' % r).encode() + rng.choice([b'', b'\n'])
                ns = b''.join(b' xmlns:%s="u"' % r.split(':')[0].encode() for _ in [0] if ':' in r)
                t += b'<' + r.encode() + ns + rng.choice([b'', b' ', b'\n', b' c="html"']) + rng.choice([b'/>', b'>x</' + r.encode() + b'>']) + space(rng) + comments(rng)
                out.append((t, XML, 'xml-words'))
        elif k == 2:
            tag = rng.choice(['html', 'html', 'HTML', 'Html'])
            head = space(rng) + comments(rng); dt = rng.choice(['', '', '<!DOCTYPE html>', '<!doctype html>', '<!DOCTYPE HTML>', '<!DOCTYPE\nhtml>', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">', '<!DocType  html >']).encode()
            t = head + dt + (rng.choice([b'', b'\n', b' ']) + comments(rng) if dt else b'')
            body = rng.choice(['<p>x</p>', 'text', '', '<br>', '<b>a</b> <i>b</i>', '<!-- c -->x'])
            if dt and rng.random() < 0.2: t += body.encode() or b'<p>x'
            else: t += ('<%s%s><head></head><body>%s</body></%s>' % (tag, rng.choice(['', ' ', '\n', ' lang="en"']), body, tag)).encode()
            out.append((t, HTML, 'html'))
        else:
            t = space(rng) + rng.choice([fuzz.jsontext(rng), rng.choice([b'true', b'false', b'null', b'1', b'-1', b'0', b'"x"', b'""', b'[]', b'{}', b'-0.5e3', b'"<html>"', b'"//"', b'["a"]']) + space(rng)])
            out.append((t, JSON, 'json'))
    return out

def run(ctx):
    ctx.rule = 'a document with the format its generator wrote it in; distinct by text; non-trivial if something stands before the first name or bracket'
    rng = ctx.rng
    ds = docs(ctx, ctx.scale(16000, 400000))
    reqs = []
    for t, ty, k in ds:
        fl = rng.choice([0, 0, TRIM_NONE]) if ty in (XML, HTML) else 0
        q = [('detect', t), ('parse', '0', '1', str(fl), '', 'e', t), ('dump', '0'), ('free', '0'), ('parse', '0', str(ty), str(fl), '', 'e', t), ('dump', '0'), ('free', '0')]
        for w in (XMQ, HTMQ, XML, HTML, JSON): q += [('parse', '0', str(w), str(fl), '', 'e', t), ('free', '0')]
        reqs.append(q)
    for (t, ty, kind), q, r in zip(ds, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']; rp = {'request': jreq(q)}
        declared = rs[4]
        bare = t.strip(b' \t\r\n') in (b'true', b'false', b'null')
        if bare: ty = JSON
        ctx.count(kind); ctx.case(t if t[:1] in b' \t\r\n<' else None, '%s %.150r' % (kind, t))
        if rs[0] != ty: ctx.violation('detected:%s-as-%s' % (NAMES[ty], NAMES.get(rs[0], rs[0])), '%s document detected as %s: %.600r' % (NAMES[ty], NAMES.get(rs[0], rs[0]), t), rp); continue
        if bare: ctx.count('bare-word'); continue
        u = rs[1]
        if not declared['ok']:
            # Not a valid document: then at least the verdicts agree.
            ctx.count('invalid-%s' % NAMES[ty])
            if kind.startswith('html') or kind == 'json' or kind == 'xml-words': ctx.violation('declared-refused:' + NAMES[ty], 'refused when declared: %r %.300r' % (declared['err'], t), rp)
        if (u['ok'], u['errno']) != (declared['ok'], declared['errno']) or u['ok'] and rs[2] != rs[5]:
            ctx.violation('undeclared:' + NAMES[ty], 'undeclared reading gives %r, declared %r: %.300r' % (u, declared, t), rp)
        if u['ok'] and u['ct'] != ty: ctx.violation('content-type:' + NAMES[ty], 'original content type %r: %.300r' % (u['ct'], t), rp)
        for j, w in enumerate((XMQ, HTMQ, XML, HTML, JSON)):
            v = rs[7 + 2 * j]
            if w == ty or (w, ty) in ((HTMQ, XMQ), (HTML, XML)): continue
            ctx.count('wrongly-declared')
            if v['ok']: ctx.violation('wrong-accepted:%s-as-%s' % (NAMES[ty], w), '%s accepted when declared as %s: %.300r' % (NAMES[ty], NAMES.get(w, 'htmq'), t), rp)
            elif not v['errno'] or not v['err']: ctx.violation('wrong-no-error:%s-as-%s' % (NAMES[ty], w), 'no error for %s declared as %s: %.300r' % (NAMES[ty], w, t), rp)
