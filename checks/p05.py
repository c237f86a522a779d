"""HTML -> HTMQ -> HTML: the library's own trees, the language definition of HTMQ and an independent HTML reader judge."""
from wk import *
import ht
from html.entities import html5

VARIANTS = ['', ',compact=1', ',indent=0', ',indent=2', ',n7=1', ',tab=1,nl=1']

def run(ctx):
    ctx.rule = 'an HTML document through HTMQ; distinct by text and print variant; non-trivial if it has attributes or nested elements'
    ctx.assumptions = ['comments without significant outer whitespace', 'names without colon', 'no characters XML forbids']
    rng = ctx.rng; n = ctx.scale(9000, 150000)
    docs = [('corpus', b) for p, b in gen.corpus(('.html', '.htm'), 60000)]
    pool = [b for _, b in docs]
    for i in range(n):
        if i % 4 == 3: docs.append(('mutated', gen.mutate(rng, rng.choice(pool) if rng.random() < 0.3 else ht.doc(rng, 12))))
        else: docs.append(('valid', ht.doc(rng, rng.choice([6, 12, 25, 60]))))
    jobs = []
    for i, (o, t) in enumerate(docs):
        if b'\0' in t: continue
        for v in (VARIANTS if o == 'corpus' else [VARIANTS[i % len(VARIANTS)]]):
            jobs.append((o, v, t, [('parse', '0', HTML, TRIM_NONE, '', 'z', t), ('dump', '0'), ('print', '0', 'of=htmq' + v), ('reparse', '1', HTMQ, 0, '', 'z'), ('dump', '1'),
                                   ('print', '1', 'of=html'), ('print', '0', 'of=html')]))
    for lo in range(0, len(jobs), 10000):
        part = jobs[lo:lo + 10000]
        for (o, v, t, req), r in zip(part, ctx.srv.run([j[3] for j in part])):
            if ctx.bad(r, req): continue
            judge(ctx, o, v, t, req, r['r'])

def judge(ctx, o, v, t, req, a):
    rp = {'request': jreq(req)}
    if not a[0]['ok']:
        ctx.count('rejected')
        if o == 'valid': ctx.violation('rejected', repr(t), rp)
        return
    q, h1, h0 = lat(a[2]), lat(a[5]), lat(a[6])
    what = '%r -> %r -> %r (direct %r)' % (t[:1500], (q or b'')[:1500], (h1 or b'')[:1500], (h0 or b'')[:800])
    # the document printed directly as HTML
    if o == 'valid':
        want = ht.loose(ht.view(t))
        ctx.case(v.encode() + t, '%s %r' % (v, t[:300])); ctx.count('valid-direct')
        if h0 is None or not is_utf8(h0): ctx.violation('null-direct', what, rp)
        else:
            got = ht.loose(ht.view(h0))
            if not any(x[0] == 'd' for x in want): got = [x for x in got if x[0] != 'd']
            if got != want: ctx.violation('direct:' + kind(want, got), '%s %s' % (first(want, got), what), rp)
    d = ref.norm_dump(a[1])
    compact = 'compact' in v
    if not representable(d, compact) or controls(d): ctx.count('outer-space-skipped'); return
    if not is_utf8(t): ctx.count('not-utf8-skipped'); return
    if sum(1 for k in d if k[0] == 'e') == 0: ctx.count('no-root'); return
    if any(not re.sub(r'<!DOCTYPE|>', '', x or '').strip() or re.search(r'[\n\']', x or '') for x in doctypes(a[1])): ctx.count('doctype-skipped'); return
    if not plain_names(d): ctx.count('names-skipped'); return
    if q is None: ctx.violation('nothing-printed', what, rp); return
    ctx.case(v.encode() + t, '%s %r' % (v, t[:300])); ctx.count('through-htmq'); ctx.count('origin-' + o)
    if not a[3]['ok']: ctx.violation('unreadable:errno%s' % a[3]['errno'], '%s %s' % (a[3]['err'], what), rp); return
    e = ref.norm_dump(a[4])
    e, d = dec(e), dec(d)
    if e != d: ctx.violation('tree:' + ref.diff_kind(d, e), '%s %s' % (ref.first_diff(d, e), what), rp); return
    tree, rej = ref_parse(q)
    if rej is not None and rej != 'deep': ctx.violation('invalid', '%s %s' % (rej, what), rp)
    elif rej is None and dec(ref.norm_ref(tree)) != d: ctx.violation('model:' + ref.diff_kind(d, dec(ref.norm_ref(tree))), what, rp)
    if h0 != h1:
        ctx.count('html-bytes-differ')
        if h0 is None or h1 is None or not is_utf8(h0) or not is_utf8(h1): ctx.violation('html-null:' + o, what, rp)
        elif o == 'valid':
            x, y = ht.loose(ht.view(h0)), ht.loose(ht.view(h1))
            if x != y: ctx.violation('html:' + kind(x, y), '%s %s' % (first(x, y), what), rp)

NAME = re.compile(r'^[A-Za-z_][A-Za-z0-9_.-]*$')
def plain_names(d):
    for k in d:
        if k[0] == 'e':
            if not NAME.match(k[2]) or k[1] or k[4] or any(not NAME.match(a[1]) or a[0] or a[1] == 'xmlns' for a in k[5]): return False
            if len({a[1] for a in k[5]}) < len(k[5]) or not plain_names(k[6]): return False
    return True
def dec(nf):
    """Named character references of HTML and the characters they stand for are the same content."""
    out = []
    for k in nf:
        if k[0] == 'e': k = (k[0], k[1], k[2], k[3], k[4], tuple(tuple(a[:3]) + (dec(a[3]),) for a in k[5]), dec(k[6]))
        elif k[0] == 'r' and k[1] + ';' in html5: k = ('t', html5[k[1] + ';'].encode('utf-8').decode('latin-1'))
        if k[0] == 't' and out and out[-1][0] == 't': out[-1] = ('t', out[-1][1] + k[1])
        else: out.append(k)
    return tuple(out)
def kind(a, b):
    for x, y in zip(a, b):
        if x != y: return '%s-%s' % (x[0], y[0])
    return 'length'
def first(a, b):
    for x, y in zip(a, b):
        if x != y: return '%r / %r' % (x, y)
    return '%d / %d' % (len(a), len(b))
