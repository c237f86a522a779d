"""Log lines: one line, valid, reads back as exactly the keys and values that were given."""
from wk import *
import p09

NAMES = ['car', 'xmq.cli', 'a', 'x-y', 'ns:e', 'log']

def value(rng):
    r = rng.random()
    if r < 0.35: return gen.text(rng).encode('latin-1')
    if r < 0.7: return b''.join(rng.choice(p09.HARD) for _ in range(rng.randint(0, 5)))
    if r < 0.8: return rng.choice([b'x} b=1 {', b"' evil='1", b'1 b=2', b'}', b'\n}evil{', b"'''}\nevil='''", b'%n%s%d', b'; rm', b')', b'a)b=(c'])
    if r < 0.9:
        n = rng.choice([1020, 1022, 1023, 1024, 1025, 2047, 2048, 5000])
        u = rng.choice([b'x', b"'", b'\n', b'a b', b' ', '\u20ac'.encode()])
        return (u * n)[:n - n % len(u)]
    return str(rng.randint(-10**6, 10**6)).encode()

def run(ctx):
    ctx.rule = 'a log line; distinct by name, keys and values; non-trivial if a value needs quoting'
    ctx.assumptions = ['names and keys are element names', 'values are valid UTF-8 without NUL']
    rng = ctx.rng; n = ctx.scale(12000, 250000); jobs = []
    def ok(b):
        try: b.decode('utf-8'); return b'\0' not in b
        except UnicodeDecodeError: return False
    def val():
        while True:
            v = value(rng)
            if ok(v): return v
    for i in range(n):
        name = rng.choice(NAMES); k = rng.random()
        if k < 0.7:
            kv = [(rng.choice(['a', 'b', 'key', 'x.y', 'long_key_name']), val()) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
            req = [('line', 0, name + '{') + tuple(x for a, v in kv for x in (a + '=', v))]
            want = (name, kv)
        elif k < 0.85:
            i1, s1, z, s2 = rng.randint(-10**9, 10**9), val(), rng.randint(0, 10**6), val()
            # in the fixed format: i=%d s=%s f=%.2f:%s:%d z=%zu|%c|%s
            req = [('linefmt', 0, name + '{', i1, s1, z, s2)]
            want = (name, [('i', b'%d' % i1), ('s', s1), ('f', b'%.2f:' % (z / 4.0) + s2 + b':%d' % i1), ('z', b'%d|c|' % z + s1)])
        else:
            v = val(); req = [('line1', 0, name + '=', v)]; want = (name, v)
        jobs.append((req, want))
    lines = []
    for (req, want), r in zip(jobs, ctx.srv.run([j[0] for j in jobs])):
        if ctx.bad(r, req): continue
        l = lat(r['r'][0])
        if l is None: ctx.violation('null', repr(want)[:300], {'request': jreq(req)}); continue
        if b'\n' in l or b'\r' in l: ctx.violation('lines', '%r -> %r' % (want, l), {'request': jreq(req)})
        lines.append((want, l, req))
    reqs = [[('parse', 'd', XMQ, 0, '', 'z', l), ('dump', 'd')] for _, l, _ in lines]
    for (want, l, req0), req, r in zip(lines, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, req): continue
        rep = {'request': jreq(req0)}; name, w = want
        kv = w if isinstance(w, list) else None
        ctx.case(repr(want) if any(re.search(rb'[^a-zA-Z0-9]', v) for v in ([x[1] for x in kv] if kv else [w] if not kv and kv != [] else [])) else None, '%r -> %r' % (want, l[:300]))
        ctx.count('keys', len(kv) if kv is not None else 1)
        if len(l) > 1024: ctx.count('longer-than-1k')
        if not r['r'][0]['ok']: ctx.violation('unreadable:%s' % r['r'][0]['errno'], '%r -> %r %s' % (want, l[:1500], r['r'][0]['err']), rep); continue
        d = ref.norm_dump(r['r'][1])
        check(ctx, 'reads', d, name, w, l, rep)
        tree, rej = ref_parse(l)
        if rej == 'deep': continue
        if rej is not None: ctx.violation('invalid', '%r -> %r %s' % (want, l[:1500], rej), rep); continue
        check(ctx, 'model', ref.norm_ref(tree), name, w, l, rep)
    # documents as lines
    docs = [(XMQ, gen.spell(rng, gen.Doc(rng, pis=False).doc())) for _ in range(ctx.scale(1500, 30000))]
    reqs = [[('parse', '0', ty, 0, '', 'z', t), ('dump', '0'), ('linedoc', '0')] for ty, t in docs]
    second = []
    for (ty, t), req, r in zip(docs, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, req): continue
        if not r['r'][0]['ok']: continue
        d = ref.norm_dump(r['r'][1]); l = lat(r['r'][2])
        if not representable(d, True) or not any(k[0] == 'e' for k in d): continue
        ctx.count('documents'); rep = {'request': jreq(req)}
        if l is None or b'\n' in l or b'\r' in l: ctx.violation('doc-lines', '%r -> %r' % (t, l), rep); continue
        tree, rej = ref_parse(l)
        if rej == 'deep': continue
        if rej is not None: ctx.violation('doc-invalid', '%r -> %r %s' % (t, l, rej), rep)
        elif ref.norm_ref(tree) != d: ctx.violation('doc-model:' + ref.diff_kind(d, ref.norm_ref(tree)), '%r -> %r %s' % (t, l, ref.first_diff(d, ref.norm_ref(tree))), rep)

def flat(kids): return b''.join((k[1] if k[0] == 't' else '\0?').encode('latin-1') for k in kids)
def check(ctx, where, d, name, w, l, rep):
    if len(d) != 1 or d[0][0] != 'e' or ((d[0][1] + ':' if d[0][1] else '') + d[0][2]) != name:
        ctx.violation(where + ':element', '%r -> %r -> %.500r' % (w, l[:1500], d), rep); return
    kids = d[0][6]
    if isinstance(w, list):
        got = [(((k[1] + ':' if k[1] else '') + k[2]) if k[0] == 'e' else k[0], flat(k[6]) if k[0] == 'e' else repr(k)) for k in kids]
        if got != w: ctx.violation(where + ':values', '%.800r -> %.1500r -> %.800r' % (w, l, got), rep)
    elif flat(kids) != w: ctx.violation(where + ':value', '%.800r -> %.1500r -> %.800r' % (w, l, kids), rep)
