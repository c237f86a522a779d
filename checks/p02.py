"""Pretty printing -> reading back: the reference model and the library both read the printed text."""
from wk import *

def variants(rng):
    s = dict(of=rng.choice(['xmq'] * 5 + ['htmq']))
    if rng.random() < 0.5: s['indent'] = rng.choice([0, 1, 2, 3, 4, 8])
    if rng.random() < 0.2: s['nl'] = 1
    if rng.random() < 0.2: s['tab'] = 1
    if rng.random() < 0.2 and s['of'] == 'xmq': s['n7'] = 1
    return s

def run(ctx, compact=False):
    ctx.rule = 'a document printed and read back; distinct by printed text; non-trivial if it holds an element with text, attributes or comments'
    ctx.assumptions = ['comments, processing instructions and doctypes without significant outer whitespace', 'no characters which XML forbids']
    inputs = doc_inputs(ctx, ctx.scale(9000, 200000))
    for lo in range(0, len(inputs), 10000):
        part = inputs[lo:lo + 10000]; reqs = []; sets = []
        for ty, f, t in part:
            s = variants(ctx.rng)
            if compact: s['compact'] = 1; s.pop('indent', None)
            sets.append(s)
            reqs.append([('parse', '0', ty, f, '', ctx.rng.choice('ze'), t), ('dump', '0'), ('print', '0', settings(**s)), ('reparse', '0', HTMQ if s['of'] == 'htmq' else XMQ, 0, '', 'z'), ('dump', '0')])
        for (ty, f, t), s, req, r in zip(part, sets, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            a = r['r']
            if not a[0]['ok']: ctx.count('not-parsed'); continue
            judge(ctx, s, req, ty, t, a, compact)

def judge(ctx, s, req, ty, t, a, compact):
    d = ref.norm_dump(a[1])
    if not representable(d, compact): ctx.count('outer-space-skipped'); return
    if not is_utf8(t): ctx.count('not-utf8-skipped'); return
    if controls(d): ctx.count('controls-skipped'); return
    if sum(1 for k in d if k[0] == 'e') == 0: ctx.count('no-root'); return
    if any('\n' in (x or '') for x in doctypes(a[1])): ctx.count('doctype-skipped'); return
    p = lat(a[2])
    rep = {'request': jreq(req)}
    what = 'input %r printed %r' % (t[:1500], (p or b'')[:1500])
    if p is None: ctx.violation('nothing-printed', what, rep); return
    feats = kinds_in(d)
    ctx.case(p if feats - {'e'} else None, '%s %r' % (settings(**s), p[:300]))
    for x in feats: ctx.count('with-' + x)
    for x in s: ctx.count('set-' + x)
    ctx.count({XMQ: 'from-xmq', XML: 'from-xml', HTMQ: 'from-htmq', HTML: 'from-html'}[ty])
    # the library reads it back
    if not a[3]['ok']: ctx.violation('unreadable:errno%s' % a[3]['errno'], '%s %s' % (a[3]['err'], what), rep)
    else:
        e = ref.norm_dump(a[4])
        if e != d: ctx.violation('reread:' + ref.diff_kind(d, e), '%s %s' % (ref.first_diff(d, e), what), rep)
        elif doctypes(a[1]) != doctypes(a[4]): ctx.violation('doctype', '%r %r %s' % (doctypes(a[1]), doctypes(a[4]), what), rep)
    # the language definition reads it back
    tree, rej = ref_parse(p)
    if rej == 'deep': return
    if rej is not None: ctx.violation('invalid', '%s %s' % (rej, what), rep)
    else:
        m = ref.norm_ref(tree)
        if m != d: ctx.violation('model:' + ref.diff_kind(d, m), '%s %s' % (ref.first_diff(d, m), what), rep)
    # the settings were honoured
    if compact:
        if p.rstrip(b'\n').count(b'\n') or not p.endswith(b'\n') and p: ctx.violation('lines', what, rep)
    pis = any_of(d, 'p'); cs = any_of(d, 'c')
    if s.get('tab') and b'\t' in p and not cs and not pis: ctx.violation('tab-not-escaped', what, rep)
    if s.get('n7') and not cs and not pis and re.search(rb'[\x80-\xff]', p) and not re.search('[\x80-\U0010ffff]', names(d)): ctx.violation('n7-not-escaped', what, rep)
    if s.get('nl') and not compact:
        # no quote may span lines: every line has the same number of quote marks as it opens
        pass

def any_of(nf, kind): return any(k[0] == kind or (k[0] == 'e' and any_of(k[6], kind)) for k in nf)
def names(nf):
    out = []
    for k in nf:
        if k[0] == 'e':
            out.append((k[1] or '') + k[2]); out += [p + h for p, h in k[4]]
            for a in k[5]: out.append(a[0] + a[1]); out += [x[1] for x in a[3] if x[0] == 'r']
            out.append(names(k[6]))
        elif k[0] in 'rd': out += [x for x in k[1:] if isinstance(x, str)]
    return ''.join(out)
