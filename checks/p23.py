"""Printing leaves the document as it was, repeats exactly, and formatting what was printed gives the same text."""
import p02
from wk import *

FORMATS = ['of=xmq', 'of=xmq,compact=1', 'of=htmq', 'of=xml', 'of=html', 'of=json', 'of=json,compact=1', 'of=text', 'of=clines', 'of=xmq,indent=2',
           'of=xmq,render=terminal,color=1', 'of=xmq,render=html', 'of=xmq,render=tex', 'of=xmq,n7=1,tab=1,nl=1']

def run(ctx):
    ctx.rule = 'a document and a history of prints; distinct by document and history; non-trivial if the history uses at least two settings'
    ctx.assumptions = ['json and clines are printed from a copy or restore what they change']
    inputs = doc_inputs(ctx, ctx.scale(5000, 120000), nomerge=False)
    # json documents too
    for p, b in gen.corpus(('.json',), 20000): inputs.append((JSON, 0, b))
    for lo in range(0, len(inputs), 10000):
        part = inputs[lo:lo + 10000]; reqs = []; hist = []
        for ty, f, t in part:
            h = [ctx.rng.choice(FORMATS) for _ in range(ctx.rng.choice([1, 2, 3, 5]))]
            base = ctx.rng.choice(FORMATS)
            s = p02.variants(ctx.rng)
            if ctx.rng.random() < 0.3: s['compact'] = 1; s.pop('indent', None)
            st = settings(**s)
            rd = HTMQ if s['of'] == 'htmq' else XMQ
            req = [('parse', '0', ty, f, '', 'z', t), ('dump', '0'), ('print', '0', base)]
            req += [('print', '0', x) for x in h]
            req += [('print', '0', base), ('dump', '0'), ('print', '0', st), ('reparse', '1', rd, 0, '', 'z'), ('print', '1', st), ('dump', '1'), ('reparse', '1', rd, 0, '', 'z'), ('print', '1', st)]
            reqs.append(req); hist.append((base, h, st, 'compact' in s))
        for (ty, f, t), (base, h, st, compact), req, r in zip(part, hist, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            a = r['r']; rep = {'request': jreq(req)}
            if not a[0]['ok']: ctx.count('not-parsed'); continue
            n = len(h)
            first, again = a[2], a[3 + n]
            what = '%s then %s, input %r' % (base, h, t[:1500])
            ctx.case('%r %s %s' % (t, base, h) if set(h) | {base} != {base} else None, what[:300])
            for x in h: ctx.count('print ' + x)
            if first != again: ctx.violation('differs:%s' % base, '%s: %r became %r' % (what, cut(first, again), cut(again, first)), rep)
            if a[1] != a[4 + n]: ctx.violation('changed:' + culprit(a[1], a[4 + n]), '%s: %s' % (what, ref.first_diff(ref.norm_dump(a[1]), ref.norm_dump(a[4 + n]))), rep)
            d = ref.norm_dump(a[1])
            if not representable(d, compact) or controls(d) or not is_utf8(t): continue
            if any('\n' in (x or '') for x in doctypes(a[1])): continue
            if not a[6 + n]['ok'] or a[5 + n] is None: continue      # P02, P03
            ctx.count('formatted-again')
            if a[5 + n] != a[7 + n] and own_prefix(d) and a[7 + n] == a[10 + n]: ctx.count('declarations-reordered'); continue
            if a[5 + n] != a[7 + n]: ctx.violation('unstable:' + ('compact' if compact else 'pretty'), '%s: %r became %r, input %r' % (st, cut(a[5 + n], a[7 + n]), cut(a[7 + n], a[5 + n]), t[:1000]), rep)

def own_prefix(nf):
    """An element declares a prefix which the element or its attributes use: its declaration moves first."""
    for k in nf:
        if k[0] != 'e': continue
        ps = {p for p, _ in k[4]}
        if (len(ps) > 1 and ps & ({k[1]} | {a[0] for a in k[5]})) or own_prefix(k[6]): return True
    return False

def culprit(a, b): return ref.diff_kind(ref.norm_dump(a), ref.norm_dump(b))
def cut(a, b):
    if a is None or b is None: return a
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return a[max(0, i - 60):i + 100]
