"""Any document printed as JSON: strict decoding, unique keys, nothing lost."""
import json, html
from wk import *

def decode(b):
    def bad(x): raise ValueError(x)
    return json.loads(b.decode('utf-8'), object_pairs_hook=lambda p: ('o', p), parse_constant=bad, parse_float=str, parse_int=str)

def strings(v, key=None):
    """Every scalar of the decoded value, with its key (without index suffix)."""
    if isinstance(v, list):
        for x in v: yield from strings(x, None)
    elif isinstance(v, tuple):
        for k, x in v[1]: yield from strings(x, k)
    else: yield (key, {True: 'true', False: 'false', None: 'null'}.get(v, v) if not isinstance(v, str) else v)
def dup(v):
    if isinstance(v, list): return next((d for d in map(dup, v) if d is not None), None)
    if isinstance(v, tuple):
        ks = [k for k, _ in v[1]]
        ks = [k for k in ks if k[:1] != '?']   # processing instructions are not elements
        if len(set(ks)) != len(ks): return next(k for k in ks if ks.count(k) > 1)
        return next((d for d in (dup(x) for _, x in v[1]) if d is not None), None)
    return None

def expect(nf, out, isarr=False):
    """Counts the texts, attribute values, comments and pis a document holds."""
    for k in nf:
        if k[0] == 'e':
            arr = any(a[1] == 'A' and a[0] == '' for a in k[5])
            if not arr:
                for a in k[5]:
                    if a[1] not in ('A', 'S', '_'): out.append(('a', flat(a[3])))
            if k[6] and all(x[0] in 'tr' for x in k[6]): out.append(('t', flat(k[6])))
            else: expect(k[6], out)
        elif k[0] in 'tx': out.append(('t', flat([('t', k[1])])))
        elif k[0] == 'r': out.append(('r', ('&%s;' % k[1],) + flat([k])))
        elif k[0] == 'c': out.append(('c', flat([('t', k[1])])))
        elif k[0] == 'p': out.append(('p', flat([('t', k[2] or '')])))
    return out
def flat(kids):
    """The spellings which hold the text: named entity references may be printed as such or decoded."""
    c = ['']
    for x in kids:
        if x[0] != 'r': o = [x[1]]
        elif x[1][:1] == '#': o = [gen.u(html.unescape('&%s;' % x[1])) if x[1][1:] not in ODD else gen.u(chr(ODD[x[1][1:]]))]
        else: o = sorted({'&%s;' % x[1], gen.u(html.unescape('&%s;' % x[1]))})
        c = [p + q for p in c for q in o][:64]
    return tuple(p.encode('latin-1').decode('utf-8') for p in c)
ODD = {f % n: n for n in list(range(128, 160)) + [13] for f in ('%d', 'x%x', 'x%X')}
def domain(nf, top=True):
    """One root. The names _, A, S and keys ending with an index are what libxmq itself uses to represent JSON."""
    if top and sum(k[0] == 'e' for k in nf) != 1: return False
    for k in nf:
        if k[0] == 'e':
            if k[2] == '_' or any(a[1] in ('A', 'S', '_') for a in k[5]): return False
            if k[1] == '_' : return False
            if len(set((a[0], a[1]) for a in k[5])) != len(k[5]): return False   # two attributes with the same name
            if not domain(k[6], False): return False
        elif top and k[0] not in 'cpde': return False
    return True

def run(ctx):
    ctx.rule = 'a document printed as JSON; distinct by input; non-trivial if it has attributes, mixed content or repeated names'
    rng = ctx.rng; n = ctx.scale(12000, 250000)
    docs = [(ty, f, t) for ty, f, t in doc_inputs(ctx, n)]
    rep_names(ctx, docs, ctx.scale(4000, 60000))
    for lo in range(0, len(docs), 20000):
        part = docs[lo:lo + 20000]
        reqs = [[('parse', 'd', ty, f, '', 'z', t), ('dump', 'd'), ('print', 'd', 'of=json'), ('print', 'd', 'of=json,compact=1'), ('dump', 'd')] for ty, f, t in part]
        for (ty, f, t), req, r in zip(part, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            if not r['r'][0]['ok']: ctx.count('rejected'); continue
            rep = {'request': jreq(req)}
            raw = r['r'][1]; d = ref.norm_dump(raw)
            if not any(k[0] == 'e' for k in d): ctx.count('no-root'); continue
            utf = is_utf8(t)
            for i, w in ((2, 'pretty'), (3, 'compact')):
                b = lat(r['r'][i])
                if b is None: ctx.violation('null:' + w, repr(t)[:600], rep); continue
                if not utf: ctx.count('not-utf8'); continue
                if sum(k[0] == 'e' for k in d) != 1 or any(k[0] not in 'cpde' for k in raw): ctx.count('no-single-root'); continue
                try: v = decode(b)
                except (ValueError, UnicodeDecodeError) as e: ctx.violation('invalid:' + w, '%r -> %r %s' % (t[:1500], b[:1500], e), rep); continue
                ctx.count('decoded')
                if not domain(d): ctx.count('own-names'); continue
                x = dup(v)
                if x is not None: ctx.violation('overwritten:' + w, 'key %r: %r -> %r' % (x, t[:1500], b[:1500]), rep)
                want = {}
                for k, c in expect(raw, []): want.setdefault(c, []).append(k)
                ctx.case(t if len(want) > 1 or dup_names(d) else None, '%r -> %r' % (t[:300], b[:300]))
                got = {}
                for k, s in strings(v): got[s] = got.get(s, 0) + 1
                for c, ks in want.items():
                    if not b.startswith(b'{'): ks = [k for k in ks if k == 't']    # a document with a single value is just that value
                    if c == ('',): ks = [k for k in ks if k == 't']                # an attribute without value
                    if ks and sum(got.get(s, 0) for s in c) < len(ks):
                        ctx.violation('lost:%s:%s' % (ks[0], w), '%r (%d): %r -> %r' % (c, len(ks), t[:1500], b[:1500]), rep); break
def dup_names(d):
    for k in d:
        if k[0] == 'e':
            n = [(x[1], x[2]) for x in k[6] if x[0] == 'e']
            if len(set(n)) != len(n) or dup_names(k[6]): return True
    return False

def rep_names(ctx, docs, n):
    """Documents with many siblings of the same name, mixed with texts, comments and attributes of the same name."""
    rng = ctx.rng; names = ['a', 'b', 'p:a', '_a', 'a_0', 'A', 'div', 'true']
    def el(d):
        q = rng.choice(names); at = ''.join(' %s="%s"' % (a, rng.choice(['', '1', 'x&quot;', '\\', 'true', '&#10;'])) for a in rng.sample(['a', 'b', 'p:a', '_a', 'c'], rng.randint(0, 2)))
        kids = ''.join(rng.choice([lambda: el(d + 1), lambda: rng.choice(['t', ' ', '1', '"', '\\', '\n', 'true', '&amp;', '&#9;']), lambda: '<!--%s-->' % rng.choice(['c', '"', ' ']), lambda: '<?pi x?>', lambda: '<![CDATA[<]]>'])() for _ in range(rng.choice([0, 1, 2, 4]))) if d < 4 else ''
        return '<%s%s>%s</%s>' % (q, at, kids, q)
    for _ in range(n):
        docs.append((XML, rng.choice([TRIM_NONE, 0]), ('<r xmlns:p="u:p">%s</r>' % ''.join(el(0) for _ in range(rng.randint(1, 4)))).encode()))
