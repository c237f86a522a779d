"""Incidental indentation: content of laid out quotes and comments against the reference rules, and invariance under shifting."""
from wk import *

def shifted(t, k):
    """The quote text with all its continuation lines moved k positions to the right."""
    return t.replace('\n', '\n' + ' ' * k)

def run(ctx):
    ctx.rule = 'a laid out quote or comment; distinct by text; non-trivial if it spans several lines'
    ctx.assumptions = ['shifting is done with spaces']
    rng = ctx.rng
    n = ctx.scale(12000, 200000)
    # 1. layouts against the model
    cases = [gen.layout_doc(rng) for _ in range(n)]
    for lo in range(0, n, 20000):
        part = cases[lo:lo + 20000]
        reqs = [[('parse', 'd', XMQ, 0, '', 'z', t), ('dump', 'd')] for t in part]
        for t, req, r in zip(part, reqs, ctx.srv.run(reqs)):
            tree, rej = ref_parse(t)
            if rej is not None: ctx.count('invalid-skipped'); continue
            if ctx.bad(r, req): continue
            if not r['r'][0]['ok']: ctx.violation('rejected', 'valid text rejected: %r %r' % (r['r'][0]['err'], t), {'request': jreq(req)}); continue
            got = ref.norm_dump(r['r'][1]); model = ref.norm_ref(tree)
            ctx.case(t if b'\n' in t else None, repr(t[:300])); ctx.count('layouts')
            if got != model: ctx.violation('layout:' + ref.diff_kind(model, got), 'model left: %s\n%r' % (ref.first_diff(model, got), t), {'request': jreq(req)})
    # 2. the same quote at different columns, in different places
    groups = []
    for _ in range(ctx.scale(3000, 40000)):
        q = gen.raw_quote(rng)
        if '\n' not in q: continue
        if rng.random() < 0.25: q = q.replace('\r\n', '\n').replace('\n', '\r\n')
        pre = rng.choice(['r{', 'r{a=', 'r{a=(', 'r{a(k=', 'r{a(k=('])
        post = {'r{': '}', 'r{a=': '}', 'r{a=(': ')}', 'r{a(k=': ')}', 'r{a(k=(': '))}'}[pre]
        if q.startswith("''''") : pass
        lead = pre + '\n'
        base = rng.choice([0, 0, 3])
        texts = []
        for k in (0, 1, 2, 4, rng.randint(5, 30), 8, 16):
            if '\t' in q and k % 8: continue    # a tab counts as eight spaces
            texts.append((lead + ' ' * (base + k) + shifted(q, k) + post).encode('latin-1'))
        # any indentation of the lines, whatever their own whitespace: same lines, same place
        groups.append((q, texts))
    reqs = [[('parse', 'd', XMQ, 0, '', 'z', t), ('dump', 'd'), ] for _, ts in groups for t in ts]
    out = iter(zip(reqs, ctx.srv.run(reqs)))
    for q, ts in groups:
        first = None
        for t in ts:
            req, r = next(out)
            if ctx.bad(r, req): continue
            v = r['r'][0]
            d = ref.norm_dump(r['r'][1]) if v['ok'] else ('rejected', v['errno'])
            ctx.count('shifts')
            if first is None: first = (t, d)
            elif d != first[1]:
                ctx.violation('shift', 'shifting changes the content: %r -> %r, %r -> %r' % (first[0], first[1], t, d), {'request': jreq(req), 'base': repr(first[0])})
            ctx.case('%r' % q, repr(t))
