"""Token streams against the bytes of the input and the tokens of the language definition."""
from wk import *
from p09 import unc

TOK = re.compile(rb'\[([a-z_]+)( SIM)? ("(?:[^"\\]|\\.)*") (\d+):(\d+)\]', re.S)
CON = re.compile(rb'\{(value|quote|comment) ("(?:[^"\\]|\\.)*")\}', re.S)

def scan(rx, b):
    """All records of the stream, None if something else stands between them."""
    out, i = [], 0
    if b is None: return [], None
    while i < len(b):
        m = rx.match(b, i)
        if not m: return (out, b[i:i + 80]) if b[i:] != b'\n' else (out, None)
        out.append(m.groups()); i = m.end()
    return out, None

def run(ctx):
    ctx.rule = 'a text and its token stream; distinct by text; non-trivial if it has at least five tokens'
    ctx.assumptions = ['the texts of quoted tokens are read with the rules of C strings']
    rng = ctx.rng; inputs = list(xmq_texts(ctx, ctx.scale(24000, 400000)))
    for lo in range(0, len(inputs), 10000):
        part = inputs[lo:lo + 10000]
        reqs = []
        for k, t, nf in part:
            if rng.random() < 0.03: t = b'\xef\xbb\xbf' + t
            reqs.append([('tok', '0', '', rng.choice('ze'), t), ('tok', '1', '', 'z', t)])
        for (k, _, nf), req, r in zip(part, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            judge(ctx, k, req[0][4], req, r['r'])

def judge(ctx, k, t, req, a):
    rp = {'request': jreq(req)}
    try: tree, tokens, ps = ref.parse(t)
    except ref.Reject: ctx.count('invalid'); rej = True
    except RecursionError: ctx.count('deep'); return
    else: rej = False
    s = t[3:] if t.startswith(b'\xef\xbb\xbf') else t
    out = lat(a[0]['out']) or b''
    recs, junk = scan(TOK, out)
    if rej:
        # what was reported before the error is still a prefix of the input
        if a[0]['ok']: ctx.count('tokenized-invalid')
        b = b''.join(unc(x[2]) for x in recs)
        if junk is None and not s.startswith(b): ctx.violation('prefix', '%r -> %r' % (t[:1500], out[:1500]), rp)
        return
    if ref.parse and not a[0]['ok']: ctx.violation('rejected:errno%s' % a[0]['errno'], '%r %s' % (t[:1500], a[0]['err']), rp); return
    ctx.case(t if len(tokens) > 4 else None, '%r' % t[:300]); ctx.count('tokens', len(tokens)); ctx.count('origin-' + k)
    if junk is not None: ctx.violation('stream', '%r -> %r' % (t[:1500], junk), rp); return
    recs = [(x[0].decode(), unc(x[2]), int(x[3]), int(x[4])) for x in recs if not x[1]]
    b = b''.join(x[1] for x in recs)
    if b != s: ctx.violation('bytes', '%r -> %r' % (t[:1500], recs), rp); return
    want = []
    for kind, i, j in tokens:
        l, c = ps.linecol(i); want.append((kind, lat(ps.s[i:j]), l, c)); ctx.count(kind)
    if want != recs:
        for w, g in zip(want, recs):
            if w != g: break
        what = 'bytes' if w[1] != g[1] else 'position' if w[2:] != g[2:] else 'kind:%s-%s' % (w[0], g[0])
        if what == 'position': what += ':line' if w[2] != g[2] else ':column'
        ctx.violation('token:' + what, 'wanted %r got %r in %r' % (w, g, t[:1500]), rp)
    # the contents
    recs, junk = scan(CON, lat(a[1]['out']) or b'')
    if junk is not None: ctx.violation('content-stream', '%r -> %r' % (t[:1500], junk), rp); return
    want = []
    for kind, i, j in tokens:
        x = ps.s[i:j]; c = ps.col0(i)
        if kind.endswith('value_text'): want.append((b'value', lat(x)))
        elif kind.endswith('quote'): want.append((b'quote', lat(ref.unquote(x, c))))
        elif kind == 'comment': want.append((b'comment', lat(ref.uncomment(x, c))))
    got = [(x[0], unc(x[1])) for x in recs]
    if want != got: ctx.violation('content', '%r %r in %r' % (want, got, t[:1500]), rp)
