"""Spelling -> document: DOM observed through libxml2 against the reference model and against the generated tree."""
from wk import *

def run(ctx):
    ctx.rule = 'a text accepted by the reference model; distinct by text; non-trivial if the document has at least one element with content'
    ctx.assumptions = ['no NUL byte in the text', 'a doctype which libxml2 can not parse is not judged']
    cases = list(xmq_texts(ctx, ctx.scale(30000, 600000)))
    flags = [ctx.rng.choice([0, 0, 0, 0, TRIM_NONE, NOMERGE]) for _ in cases]
    modes = [ctx.rng.choice('zzzem') for _ in cases]
    for lo in range(0, len(cases), 20000):
        part = list(zip(cases, flags, modes))[lo:lo + 20000]
        reqs = [[('parse', 'd', ctx.rng.choice([XMQ, XMQ, HTMQ]) if k == 'spell' and f == 0 else XMQ, f, '', m, t), ('dump', 'd')] for (k, t, d), f, m in part]
        judge(ctx, part, reqs, ctx.srv.run(reqs))

def judge(ctx, part, reqs, out):
    for ((kind, t, want), f, m), req, r in zip(part, reqs, out):
        tree, rej = ref_parse(t)
        if rej is not None:
            ctx.count('invalid-skipped'); continue
        if ctx.bad(r, req): continue
        v = r['r'][0]
        if not v['ok']:
            if v['errno'] == 17 and has_doctype(tree) and want is None: ctx.count('odd-doctype'); continue
            ctx.violation('rejected:errno%s' % v['errno'], 'valid text rejected: %r %r' % (v['err'], t), {'request': jreq(req)}); ctx.case(); continue
        got = ref.norm_dump(r['r'][1])
        model = ref.norm_ref(tree)
        feats = kinds_in(model)
        for x in feats: ctx.count('with-' + x)
        ctx.count('kind-' + kind)
        ctx.case(t if len(feats) > 1 else None, '%s: %r' % (kind, t[:300]))
        if got != model:
            ctx.violation('model:' + ref.diff_kind(model, got), 'model and document differ (model left) %s\n%r' % (ref.first_diff(model, got), t), {'request': jreq(req)})
        elif want is not None and got != want:
            ctx.violation('tree:' + ref.diff_kind(want, got), 'spelled tree and document differ (tree left) %s\n%r' % (ref.first_diff(want, got), t), {'request': jreq(req)})
