"""The same bytes from memory ranges, files, pipes and standard input in chunks, with and without a byte order mark."""
from wk import *
import json
import p07, safe, fuzz, ht, ixck

BOM = b'\xef\xbb\xbf'
def inputs(ctx, n):
    rng = ctx.rng; out = []
    for k, t, d in xmq_texts(ctx, n): out.append((rng.choice([XMQ, XMQ, HTMQ, 1]), 0, t))
    for i in range(n):
        k = i % 5
        if k == 0: out.append((rng.choice([JSON, 1]), 0, fuzz.jsontext(rng)))
        elif k == 1: out.append((JSON, 0, safe.jmut(rng, fuzz.jsontext(rng))))
        elif k == 2: out.append((rng.choice([XML, 1]), rng.choice([0, TRIM_NONE]), gen.xml(rng, gen.Doc(rng, ents=False, doctype=False).doc())))
        elif k == 3: out.append((rng.choice([XML, HTML, 1]), rng.choice([0, TRIM_NONE]), safe.xmut(rng, gen.xml(rng, gen.Doc(rng, ents=False, doctype=False).doc()))))
        else: out.append((rng.choice([HTML, 1]), 0, fuzz.htmltext(rng)))
    # Sizes around the blocks in which files and pipes are read.
    for _ in range(ctx.scale(120, 3000)):
        base = rng.choice([1024, 1024, 2048, 4096, 8192, 10000, 10000, 20000, 65536, 1024 * rng.randint(1, 40)]) + rng.choice([-1, 0, 0, 1, -2, 2, rng.randint(-40, 40)])
        k = rng.randrange(4)
        if k == 0:
            t = b"a='"; m = base - len(t) - 1; body = bytes(rng.choice(b'ab c\n(') for _ in range(m)); t = t + body.replace(b"'", b'x') + b"'"; out.append((XMQ, 0, t))
        elif k == 1: out.append((JSON, 0, b'["' + bytes(rng.choice(b'abc ') for _ in range(base - 4)) + b'"]'))
        elif k == 2: out.append((XML, 0, b'<a>' + bytes(rng.choice(b'abc \n') for _ in range(base - 7)) + b'</a>'))
        else: out.append((XMQ, 0, gen.mutate(rng, (b'a{' + b'b=c ' * (base // 4))[:base])))
    return out

def ways(rng, t):
    w = [('Z', ()), ('e', ()), ('m', ()), ('f', ()), ('s', (rng.choice([1, 2, 3, 5, 7, 64]) if len(t) < 3000 else rng.choice([100, 1000, 1023, 1024, 1025, 5000]),)), ('s', (0,)), ('s', (1 << 20,)), ('q', (rng.choice([0, 13, 1000, 9999, 10000, 65536]),))]
    if b'\0' not in t: w.append(('z', ()))
    return w

def norm(r, mode):
    v, dump = r[0], r[1]
    e = lat(v['err'])
    if e is not None:
        e = re.sub(rb'/\S*/(in|fifo)', b'', e)
        if mode == 's': e = re.sub(rb'(^|\n|: )-:', rb'\1:', e)
        e = re.sub(rb'[ :]+', b' ', e)
        # In memory there is no name to show.
        e = e.replace(b'(null)', b'').strip()
    return {'ok': v['ok'], 'errno': v['errno'], 'ct': v['ct'], 'size': v['size'], 'message': None if e is None else e.decode('latin-1'), 'document': dump if v['ok'] else None}

def run(ctx):
    ctx.rule = 'a text with format and flags, delivered in 8 to 12 ways; distinct by text; non-trivial if every way was compared'
    rng = ctx.rng
    ins = inputs(ctx, ctx.scale(2600, 60000))
    reqs = []; meta = []
    for i, (ty, fl, t) in enumerate(ins):
        ws = [(m, x, t) for m, x in ways(rng, t)]
        if not t.startswith((BOM, b'\xfe\xff', b'\xff\xfe', b'\xef')) : ws += [(m, x, BOM + t) for m, x in rng.sample(ways(rng, t), 2)]
        root = rng.choice(['', '', 'root'])
        q = []
        for m, x, tt in ws: q += [('parse', '0', str(ty), str(fl), root, m, tt) + tuple(str(y) for y in x), ('dump', '0'), ('free', '0')]
        reqs.append(q); meta.append((ty, fl, t, ws))
    for (ty, fl, t, ws), q, r in zip(meta, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']; first = None
        for j, (m, x, tt) in enumerate(ws):
            n = norm(rs[3 * j:3 * j + 2], m)
            v = rs[3 * j]
            ctx.count('delivered-%s%s' % (m, '-bom' if tt is not t else ''))
            if m == 's' and v['src'] != '-' or m in 'fq' and not (v['src'] or '').endswith(('/in', '/fifo')): ctx.violation('source-name', '%s delivered %s is named %r' % (t[:80], m, v['src']), {'request': jreq(q[3 * j:3 * j + 3])})
            if first is None: first = n; continue
            if n != first:
                k = [k for k in n if n[k] != first[k]]
                ctx.violation('differs:%s:%s%s' % (k[0], m, '-bom' if tt is not t else ''), 'delivered as %s%r: %s is %.300r, from a memory range %.300r: %.200r' % (m, x, k[0], n[k[0]], first[k[0]], t), {'request': jreq(q[:3] + q[3 * j:3 * j + 3])})
        ctx.case(t, '%d ways: %.200r -> ok %s' % (len(ws), t, first['ok']))
        ctx.count('accepted' if first['ok'] else 'rejected')
    # The tokenizer.
    reqs = []; meta = []
    for k, t, d in xmq_texts(ctx, ctx.scale(800, 20000)):
        q = [('tok', '0', '', m, t) for m in ('Zef' + ('' if b'\0' in t else 'z'))]
        reqs.append(q); meta.append(t)
    for t, q, r in zip(meta, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        o = [dict(x, err=re.sub(r'/\S*/in', '', x['err'] or '').replace('(null)', '').replace('-:', ':') if re.search(r':\d+:\d+:', x['err'] or '') else bool(x['err'])) for x in r['r']]
        ctx.count('tokenized')
        for x in o[1:]:
            if x != o[0]: ctx.violation('tokens-differ', '%.300r: %.300r %.300r' % (t, o[0], x), {'request': jreq(q)}); break
    # Grammars and what is parsed with them.
    reqs = []; meta = []
    for _ in range(ctx.scale(500, 20000)):
        st = ixck.steps(rng, 0, 8)
        gt = st[0][6]; ins = [a for a in st if a[0] == 'ixml']
        q = []
        for gm in rng.sample('Zzemf', 3) + ['e']:
            if b'\0' in gt and gm == 'z': gm = 'e'
            q.append(('parse', 8, IXML, 0, '', gm, gt))
            for a in ins:
                for m in 'ezf': q += [('ixml', 0, 8, a[3], m, a[5]), ('dump', 0)]
        reqs.append(q); meta.append((gt, ins))
    for (gt, ins), q, r in zip(meta, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']; n = 6 * len(ins) + 1
        def norm_i(x): return re.sub(r'/\S*/in:', ':', json.dumps(x)).replace('(null)', '')
        ref0 = None
        for k in range(4):
            part = rs[k * n:(k + 1) * n]
            g = (part[0]['ok'], part[0]['errno'])
            per = []
            for i in range(len(ins)):
                o = [norm_i(part[1 + 6 * i + 2 * j:3 + 6 * i + 2 * j]) for j in range(3)]
                if any(x != o[0] for x in o): ctx.violation('ixml-input', '%.200r parsed with %.400r from memory and from a file differ: %.400s' % (ins[i][5], gt, o), {'request': jreq(q)})
                per.append(o[0])
            if ref0 is None: ref0 = (g, per)
            elif ref0 != (g, per): ctx.violation('ixml-grammar', 'grammar %.400r delivered as %s and %s: %.600s' % (gt, q[0][5], q[k * n][5], [ref0, (g, per)]), {'request': jreq(q)})
        ctx.case(gt, 'grammar and inputs in several ways'); ctx.count('grammars-delivered')
