"""Hostile workload through the whole API for the memory safety properties: the sanitizers, the exit trap and the CPU limit are the oracle."""
import random
from wk import *
import ht, fuzz

OUTS = ['xmq', 'xmq', 'xmq', 'htmq', 'xml', 'html', 'json', 'text', 'clines']
def print_settings(rng, json=False):
    s = {'of': 'json' if json and rng.random() < .5 else rng.choice(OUTS)}
    for k, p in (('compact', .35), ('nl', .2), ('tab', .2), ('n7', .25), ('omit', .2), ('dark', .3), ('raw', .25)):
        if rng.random() < p: s[k] = 1
    if rng.random() < .3: s['indent'] = rng.choice([0, 1, 2, 3, 4, 8, 17])
    r = rng.choice(['0', '0', 'terminal', 'html', 'tex', '5'])
    if r != '0': s['render'] = r
    if rng.random() < .5: s['color'] = 1
    if rng.random() < .15: s['theme'] = rng.choice(['darkbg', 'lightbg'])
    if rng.random() < .1: s['id'] = 'i'; s['class'] = 'c'
    return settings(**s)

QUERIES = ['/*', '//x', '//@*', '//text()', '/a/b', '//a[1]', 'count(//*)', '/', '//comment()', '..', ']', '//*[', '//namespace::*', '@x', '']
def big(rng, kind):
    """A large text of one shape."""
    n = rng.choice([1000, 5000, 20000]); deep = rng.choice([90, 250, 300, 1000, 20000, 60000])
    if kind == 'xmq':
        return rng.choice([lambda: "a='" + 'x' * n + "'", lambda: "a='" + 'x\n' * n + "'", lambda: 'a{' + 'b ' * n + '}', lambda: 'a(' + ' '.join('k%d=v' % i for i in range(n // 10)) + ')',
                           lambda: 'a=' + "'" * (n // 10 | 1) + 'x' + "'" * (n // 10 | 1), lambda: 'a{' + '/*x*/' * (n // 5) + '}', lambda: 'a{' + '&x;' * (n // 5) + '}', lambda: "'" * n,
                           lambda: 'a=' + '(' * n, lambda: '//' + '/' * n, lambda: '/' * n + '*' * n, lambda: 'a=(' + "'x'&#10;" * (n // 20) + ')', lambda: ' ' * n, lambda: '\n' * n + 'a', lambda: "a='\n" + ' ' * n + "x\n'",
                           lambda: 'x' * n + '=' + 'y' * n, lambda: 'a{' * 90 + 'x' * n + '}' * 90, lambda: 'a{' * deep + '}' * deep])().encode()
    if kind == 'json':
        return rng.choice([lambda: '"' + 'x' * n + '"', lambda: '[' + '1,' * n + '1]', lambda: '{' + ','.join('"k%d":1' % i for i in range(n // 10)) + '}', lambda: '"' + '\\n' * n + '"', lambda: '"' + '\\u00e5' * n + '"',
                           lambda: '9' * n, lambda: '-0.' + '1' * n + 'e-' + '3' * n, lambda: '[' * deep + '1' + ']' * deep, lambda: '{"a":' * deep + '1' + '}' * deep, lambda: '{"' + 'k' * n + '":1}', lambda: ' ' * n + '{}', lambda: '[' + '"a' * n])().encode()
    return rng.choice([lambda: '<a>' + 'x' * n + '</a>', lambda: '<a>' + '\n' * n + '</a>', lambda: '<a>' + '<b/>' * (n // 3) + '</a>', lambda: '<a ' + ' '.join('k%d="v"' % i for i in range(n // 20)) + '/>', lambda: '<a><!--' + 'x\n' * n + '--></a>',
                       lambda: '<p>' * 90 + 'x' * n, lambda: '<div>' * deep + 'x' + '</div>' * deep, lambda: '<a>' + '&#10;' * (n // 4) + '</a>', lambda: '<a><![CDATA[' + ']' * n + ']]></a>', lambda: ' ' * n + '<a/>', lambda: '<a>' + "'" * n + '</a>', lambda: '<a>' + ' \n' * n + "'" * 50 + '</a>'])().encode()

def texts(ctx, kind, n):
    rng = ctx.rng; out = []
    if kind == 'xmq':
        for k, t, nf in xmq_texts(ctx, n, (2, 3, 4, 2)): out.append(t)
    elif kind == 'json':
        pool = [b for p, b in gen.corpus(('.json',), 20000)] + [s for p, s in fuzz.test_sections() if s.strip()[:1] in b'[{"']
        out += pool
        for i in range(n):
            t = fuzz.jsontext(rng)
            out.append(t if i % 3 == 0 else jmut(rng, t if i % 3 == 1 else rng.choice(pool)))
    else:
        pool = [b for p, b in gen.corpus(('.xml', '.html', '.htm', '.xsd', '.xslt'), 20000)]
        out += pool
        for i in range(n):
            t = gen.xml(rng, gen.Doc(rng).doc()) if i % 2 else ht.doc(rng, rng.choice([6, 12, 25]))
            if i % 5 > 1: t = xmut(rng, t if i % 5 < 4 else rng.choice(pool))
            out.append(t)
    for i in range(max(20, n // 60)): out.append(big(rng, kind))
    for i in range(n // 20): out.append(bytes(rng.choice(b'\0\x01\x7f\x80\xc2\xe2\xf0\xff\'"<>{}()[]=&;:/*!?- \n\tax1') for _ in range(rng.randint(0, 40))))
    return out

def splice(rng, t, frags):
    b = bytearray(t)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        n = len(b); r = rng.random(); i = rng.randrange(n + 1)
        if r < .4: b[i:i] = rng.choice(frags)
        elif r < .6: del b[i:i + rng.choice([1, 1, 2, 5, 20])]
        elif r < .7 and n: j = rng.randrange(n); b[i:i] = b[j:j + rng.randint(1, 40)]
        elif r < .8: del b[i:]
        elif n: b[rng.randrange(n)] = rng.choice([rng.randrange(256), rng.choice(b'"\'{}[]<>&;\\/:,')])
    return bytes(b)
JF = [x.encode() for x in ['"', '\\', '\\u', '\\u0', '\\ud83d', '\\ude00', '\\u0000', '{', '}', '[', ']', ',', ':', 'null', 'nul', 'true', '-', '1e', '1e+', '0x', '01', '.5', '"_":"x",', '"|":"t",', '"_//":"c",', '"?p":"x",', '"!DOCTYPE":"html",', '"_a":{}', '"_xmlns":"u",', '""', '"":1,', '"a b":2', '"x:y":1', '/*c*/', '//c\n', '&x;', "'", '[0]']] + [b'\xff', b'\xc3', b'\xe2\x82', b'\0', b'\x01', b'\xef\xbb\xbf']
XF = [x.encode() for x in ['<', '>', '</', '/>', '<a>', '</a>', '<a/>', '<!--', '-->', '--', '<!-->', '<?', '?>', '<?xml ', '<![CDATA[', ']]>', '<!DOCTYPE ', '<!DOCTYPE html>', '<!ENTITY x "y">', '<!DOCTYPE a [<!ENTITY x "y&#10;"> <!ELEMENT a ANY>]>', '&', '&x;', '&lt;', '&#10;', '&#0;', '&#xD800;', '&#x110000;', '&#99999999999;', '&;', '&nbsp;', ' xmlns="u"', ' xmlns:x="u"', ' x:y="1"', '="', "'", '"', '<script>', '</script>', '<style>', '<pre>', '<html>', '<p>', '<br>', '<table>', '<svg>', '<x:y>', ':', ' a', ' a=b', '\n', '\t', '   ']] + [b'\xff', b'\xc3', b'\xe2\x82', b'\0', b'\xc2\xa0', b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff']
def jmut(rng, t): return splice(rng, t, JF)
def xmut(rng, t): return splice(rng, t, XF)

FLAGS = [0, TRIM_NONE, TRIM_HEUR, TRIM_EXACT, NOMERGE, NOMERGE | TRIM_NONE, NOMERGE | TRIM_EXACT]
def request(rng, kind, t):
    if kind == 'xmq': ty = rng.choice([XMQ, XMQ, HTMQ, DETECT])
    elif kind == 'json': ty = rng.choice([JSON, JSON, JSON, DETECT])
    else: ty = rng.choice([XML, XML, HTML, HTML, DETECT])
    root = rng.choice(['', '', '', 'r', 'a:b', 'rot'])
    q = []
    if rng.random() < .2: q.append(('srcname', '0', 'name'))
    q.append(('parse', '0', str(ty), str(rng.choice(FLAGS)), root, rng.choice('zzee') if kind != 'xml' else rng.choice('ze'), t))
    r = rng.random()
    for _ in range(rng.choice([1, 1, 2])): q.append(('printq', '0', print_settings(rng, kind == 'json')))
    if r < .25: q += [('reparse', '1', rng.choice([str(DETECT), str(XMQ), str(JSON), str(XML)]), '0', '', 'z'), ('printq', '1', print_settings(rng))]
    if rng.random() < .15: q.append(('trim', '0', str(rng.choice([0, 1, 2, 4])))); q.append(('printq', '0', print_settings(rng)))
    if rng.random() < .15:
        for k in ('string', 'count', 'int', 'double', 'long'): q.append((k, '0', rng.choice(QUERIES)))
    if kind == 'xmq' and rng.random() < .4:
        s = {}
        if rng.random() < .5: s['color'] = 1
        k = rng.randrange(5)
        if k > 1: s['render'] = ['terminal', 'html', 'tex'][k - 2]
        q.append(('tok', str(k), settings(**s), rng.choice('ze'), t))
    if t.count(b'{') + t.count(b'[') > 3000: q = [x if x[0] != 'printq' else x[:2] + ('of=xmq,compact=1',) for x in q]   # indentation alone would be huge
    q.append(('free', '0'))
    return q

def workload(ctx, kind, n):
    ts = texts(ctx, kind, n)
    for lo in range(0, len(ts), 8000):
        part = ts[lo:lo + 8000]
        reqs = [request(ctx.rng, kind, t) for t in part]
        for t, q, r in zip(part, reqs, ctx.srv.run(reqs)):
            if isinstance(r, Crash):
                ctx.crash(r, q); continue
            ctx.case(t, repr(t[:200]))
            a = [x for x in r['r'] if isinstance(x, dict) and 'ok' in x]
            ctx.count('accepted' if a and a[0]['ok'] else 'rejected')
            ctx.count('api-actions', len(q))
