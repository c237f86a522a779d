"""The document built by a grammar driven parse against the marks of the only derivation."""
from ixck import *

def clean(text): return all(c in '\t\n\r' or ord(c) >= 32 for c in text)

def run(ctx):
    ctx.rule = 'a grammar and an input with exactly one derivation; the document must be the one the marks ask for; distinct by grammar and input; non-trivial if the document has more than one node'
    ctx.assumptions = ['the start rule gives a visible element', 'no attribute twice on one element', 'aliases on references are ignored by the library']
    cs = []
    for c in list(cases(ctx, ctx.scale(3000, 60000), 6)) + list(cases(ctx, ctx.scale(1000, 20000), 6, True)):
        if 'alias' in features(c[0]): continue
        keep = []
        for t in c[3]:
            try:
                if c[2].parse(t) != 1: continue
                want = c[2].document(c[2].all_trees(4)[0])
            except (ixml.TooMany, RecursionError): continue
            if want is None: ctx.count('no-document'); continue
            keep.append((t, want))
        if keep: cs.append((c[0], c[1], keep))
    reqs = [request(gt, [t for t, _ in k]) for _, gt, k in cs]
    for (rules, gt, keep), q, r in zip(cs, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']
        if not rs[0]['ok']: ctx.count('grammar-rejected'); continue    # decided by P27
        for f in features(rules): ctx.count(f)
        it = iter([(x, a) for x, a in zip(rs, q) if a[0] in ('ixml', 'dump')])
        for t, want in keep:
            (v, _), (d, _) = next(it), next(it)
            if not v['ok']: ctx.count('refused'); continue
            ctx.case(gt + '\0' + t if want[2] or want[3] else None, '%.500r %r' % (gt, t))
            got = ixml.dom(d)
            ctx.count('attributes' if 'a' in str(want) and want[2] else 'elements')
            if got != want:
                ctx.violation('tree', 'document %.300r instead of %.300r for %r: %.600r' % (got if got else d, want, t, gt), {'request': jreq(request(gt, [t]))})
