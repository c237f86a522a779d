"""Verdicts on near-valid and invalid texts against the reference model; the error must be located."""
from wk import *
NEAR = {4: "'", 8: '{', 9: '(', 14: '='}

def run(ctx):
    ctx.rule = 'a text with a verdict of the reference model; distinct by text; non-trivial if it is invalid or was derived by mutation'
    ctx.assumptions = ['columns are judged in valid UTF-8 only', 'no NUL byte in the text', 'a doctype which libxml2 can not parse is not judged']
    cases = list(xmq_texts(ctx, ctx.scale(30000, 600000), mix=(1, 1, 6, 3)))
    # Every prefix and every single deletion and insertion of short valid texts.
    rng = ctx.rng
    for _ in range(ctx.scale(25, 400)):
        t = gen.spell(rng, gen.Doc(rng, size=4).doc())
        if len(t) > 200: continue
        for i in range(len(t)): cases.append(('prefix', t[:i], None)); cases.append(('delete', t[:i] + t[i+1:], None))
        for i in range(0, len(t), 3): cases.append(('insert', t[:i] + bytes([rng.choice(b"'\"(){}=&/*:;#!?, \n\t")]) + t[i:], None))
    for lo in range(0, len(cases), 20000):
        part = cases[lo:lo + 20000]
        modes = [rng.choice('zzze') for _ in part]
        reqs = [[('parse', 'd', XMQ, 0, '', m, t), ('srcname',)][:1] for (k, t, d), m in zip(part, modes)]
        for (kind, t, d), req, r in zip(part, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            judge(ctx, kind, t, req, r['r'][0])

def judge(ctx, kind, t, req, v):
    tree, rej = ref_parse(t)
    if rej == 'deep': return
    rp = {'request': jreq(req)}
    ctx.count('accepted' if v['ok'] else 'rejected')
    ctx.case(t if rej is not None or kind in ('mutate', 'soup', 'delete', 'insert') else None, '%s %r: %r' % (kind, t[:200], v['err']))
    if v['ok']:
        if rej is not None: ctx.violation('accepted:' + rej.why, 'invalid text accepted (%s at %d): %r' % (rej.why, rej.pos, t), rp)
        if v['errno'] or v['err']: ctx.violation('ok-with-error', 'accepted with error %r' % v, rp)
        return
    if rej is None:
        if v['errno'] == 17 and has_doctype(tree): ctx.count('odd-doctype'); return
        ctx.violation('rejected:errno%s' % v['errno'], 'valid text rejected: %r %r' % (v['err'], t), rp); return
    if not v['errno']: ctx.violation('no-errno', 'rejected with error number 0: %r' % t, rp)
    err = utf(v['err'])
    if not err: ctx.violation('no-message:errno%s' % v['errno'], 'rejected without a message: %r' % t, rp); return
    if v['errno'] == 23: ctx.count('refused-as-other-format'); return
    m = re.search(r'^(.*?):(\d+):(\d+): error: (.+)', err, re.M)
    if not m: ctx.violation('no-location:errno%s' % v['errno'], 'no location in message %r for %r' % (err, t), rp); return
    ctx.count('errno-%s' % v['errno'])
    try: t.decode('utf-8')
    except UnicodeDecodeError: ctx.count('broken-utf8-location-not-judged'); return
    s = t.decode('latin-1')
    if s.startswith('\xef\xbb\xbf'): s = s[3:]
    p = ref.Parser(s)
    at = p.linecol(rej.pos); got = (int(m.group(2)), int(m.group(3)))
    if v['errno'] == 17: ctx.count('doctype-errors'); return
    if rej.why == 'pi' and got == (at[0], at[1] - 1): ctx.count('located-exactly'); return
    if got > at or got[0] < 1 or got[1] < 1:
        ctx.violation('location-after:errno%s' % v['errno'], 'located at %r but the text stops being valid at %r: %r %r' % (got, at, err, t), rp); return
    if got == at: ctx.count('located-exactly'); return
    # Something not closed is located where it starts, a missing value at the equals sign.
    lines = s.split('\n')
    ch = None
    if got[0] <= len(lines):
        cs = gen.chars(lines[got[0] - 1])
        if got[1] <= len(cs): ch = cs[got[1] - 1]
    if ch is None: ctx.violation('location-outside:errno%s' % v['errno'], 'located at %r, which is not inside the text: %r %r' % (got, err, t), rp); return
    if v['errno'] in NEAR:
        ctx.count('located-at-start')
        if ch != NEAR[v['errno']]: ctx.violation('location-start:errno%s' % v['errno'], 'located at %r (%r): %r %r' % (got, ch, err, t), rp)
    else: ctx.violation('location-before:errno%s' % v['errno'], 'located at %r but the text is valid up to %r: %r %r' % (got, at, err, t), rp)
