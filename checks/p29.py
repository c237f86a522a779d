"""The same operations give the same results whatever happened before, whatever else is open, and whatever unused memory contains."""
import os
from wk import *
import p07, p22, p23, safe, fuzz, ht, ixck

PATHS = ['/*', '//*', '//@*', '//text()', '/*/*[1]', '//*[@a]', '/*/@*', '/a/b', '//comment()', 'count(//*)', '//*[', '/nosuch']

def text_in(rng, pool):
    """(type, flags, text): valid and broken, of every format."""
    k = rng.randrange(10)
    if k < 3: return rng.choice([XMQ, XMQ, HTMQ, 1]), rng.choice([0, 0, NOMERGE]), gen.spell(rng, gen.Doc(rng).doc())
    if k == 3: return XMQ, 0, gen.mutate(rng, gen.spell(rng, gen.Doc(rng).doc())).replace(b'\0', b'')
    if k == 4: return rng.choice([JSON, 1]), 0, fuzz.jsontext(rng)
    if k == 5: return JSON, 0, safe.jmut(rng, fuzz.jsontext(rng)).replace(b'\0', b'')
    if k == 6: return XML, rng.choice([0, TRIM_NONE, TRIM_HEUR]), gen.xml(rng, gen.Doc(rng, ents=False, doctype=False).doc())
    if k == 7: return rng.choice([XML, 1]), 0, safe.xmut(rng, gen.xml(rng, gen.Doc(rng, ents=False, doctype=False).doc())).replace(b'\0', b'')
    if k == 8: return HTML, rng.choice([0, TRIM_NONE]), fuzz.htmltext(rng).replace(b'\0', b'')
    return rng.choice([XMQ, XML, HTML, JSON, TEXT, CLINES, 1]), 0, rng.choice(pool)

def operation(rng, pool, d, threads=False):
    """Steps on one document (slot d), and what they are called."""
    if rng.random() < 0.12: return ixck.steps(rng, d, d + 8, threads)
    k = rng.randrange(13)
    if k == 0: return [('tok', rng.choice([0, 1, 2, 3]), rng.choice(['', 'color=1', 'render=html', 'render=tex']), rng.choice('zZe'), text_in(rng, pool)[2])]
    if k == 1: return [('quote', gen.text(rng) if hasattr(gen, 'text') else 'a b')]
    if k == 2: return [('detect', text_in(rng, pool)[2])]
    if k == 3: return [('line', rng.choice([0, 1]), 'el{', 'key1=', rng.choice(['x', 'a b', "'", '', 'x\ny', 'å']), 'k2=', 'y' * rng.randrange(200))]
    ty, f, t = text_in(rng, pool)
    q = [('parse', d, ty, f, rng.choice(['', '', '', 'root']), rng.choice('zZemf'), t)]
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(10)
        if k < 4: q.append(('print', d, rng.choice(p23.FORMATS)))
        elif k == 4: q.append(('dump', d))
        elif k == 5: q.append(('links', d))
        elif k == 6: q.append((rng.choice(['int', 'long', 'double', 'string', 'count']), d, rng.choice(PATHS)))
        elif k == 7: q.append(('each', d, rng.choice(PATHS), rng.choice([0, 1, 2])))
        elif k == 8: q.append(('trim', d, rng.choice([TRIM_NONE, TRIM_HEUR])))
        else: q.append(('linedoc', d))
    if rng.random() < 0.3: q.append(('free', d))
    return q

def slot(step, d):
    if step[0] in ('tok', 'quote', 'detect', 'line'): return step
    if step[0] == 'ixml': return (step[0], d, d + 8) + step[3:]
    return (step[0], step[1] + d) + step[2:]

SCRATCH = re.compile(r'/\S*?/s/(?:\d+/)?(?=in\b|fifo\b)')
def plain(x):
    """The response without the name of the scratch directory."""
    if isinstance(x, str): return SCRATCH.sub('', x)
    if isinstance(x, list): return [plain(y) for y in x]
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    return x

def run(ctx):
    ctx.rule = 'a history (interleaved operations on several documents after other operations); distinct by its operations; non-trivial if at least two operations are interleaved'
    rng = ctx.rng; pool = xmq_pool()
    nops = ctx.scale(5000, 40000)
    ops = [operation(rng, pool, 0) for _ in range(nops)]
    alone = ctx.srv.run(ops, batch=1)
    good = []
    for q, r in zip(ops, alone):
        if ctx.bad(r, q, 'alone'): continue
        good.append((q, plain(r['r'])))
    ctx.count('operations-alone', len(good))
    # Any order, several open at once, each many times.
    hist = []
    for _ in range(ctx.scale(8000, 100000)):
        k = rng.choice([1, 2, 2, 3, 4, 5])
        sel = [rng.randrange(len(good)) for _ in range(k)]
        if rng.random() < 0.2: sel = [sel[0]] * k
        todo = [list(enumerate(good[s][0])) for s in sel]
        req = []; exp = []
        while any(todo):
            i = rng.choice([i for i in range(k) if todo[i]])
            j, st = todo[i].pop(0)
            req.append(slot(st, i)); exp.append((good[sel[i]][1][j], sel[i]))
        hist.append((req, exp, k))
    for (req, exp, k), r in zip(hist, ctx.srv.run([h[0] for h in hist])):
        if ctx.bad(r, req, 'history'): continue
        ctx.case('%r' % (req,) if k > 1 else None, '%d interleaved: %s' % (k, [s[0] for s in req]))
        ctx.count('steps', len(req)); ctx.count('open-%d' % k)
        for i, (x, (e, o)) in enumerate(zip(plain(r['r']), exp)):
            if x != e:
                ctx.violation('history:%s' % (req[i][0],), 'step %d %.200r of %r gives %.400r, alone it gives %.400r' % (i, req[i], [s[0] for s in req], x, e), {'request': jreq(req), 'alone': jreq(good[o][0])})
                break
    # A grammar used for many inputs, in any order, gives what a new copy of it gives.
    fresh = []; reused = []
    for _ in range(ctx.scale(700, 20000)):
        x = ixck.ixml.Gen(rng, simple=rng.random() < .5); rules = x.grammar(); ins = x.inputs(rules, 5)
        if not ins: continue
        gt = ixck.ixml.Spell(rng, plain=rng.random() < .3).grammar(rules)
        fl = [rng.choice([0, 0, 0, 1 << 4]) for _ in ins]; ins = [t[:4] if len(t) > 6 else t for t in ins]
        fresh.append([st for t, f in zip(ins, fl) for st in (('parse', 0, IXML, 0, '', 'e', gt), ('ixml', 1, 0, f, 'e', t), ('dump', 1))])
        order = [rng.randrange(len(ins)) for _ in range(8)]
        reused.append((order, [('parse', 0, IXML, 0, '', 'e', gt)] + [st for i in order for st in (('ixml', 1, 0, fl[i], 'e', ins[i]), ('dump', 1))]))
    for q, r, (order, q2), r2 in zip(fresh, ctx.srv.run(fresh, batch=1), reused, ctx.srv.run([x[1] for x in reused])):
        if ctx.bad(r, q, 'fresh grammar') or ctx.bad(r2, q2, 'reused grammar'): continue
        ctx.case(repr(q2), 'grammar reused for %d inputs' % len(order)); ctx.count('grammar-reused', len(order))
        for n, i in enumerate(order):
            a = plain(r['r'][3 * i + 1:3 * i + 3]); b = plain(r2['r'][1 + 2 * n:3 + 2 * n])
            if a != b: ctx.violation('grammar-reuse', 'use %d of a grammar: %.300r gives %.300r, with a new copy %.300r' % (n, q2[1 + 2 * n], b, a), {'request': jreq(q2), 'alone': jreq(q)}); break
    # Whatever unused memory and variables contain.
    variants = [('freed-memory-zero', Server(fill=0)), ('freed-memory-other', Server(fill=0x41))]
    for name, flag, mp in (('variables-pattern', 'pattern', '165'), ('variables-zero', 'zero', '90')):
        b = build.build_extra('xh', ['clang', '-O1', '-g', '-w', '-ftrivial-auto-var-init=' + flag, '-DVERSION="x"'])
        variants.append((name, Server(binary=b, extra_env={'MALLOC_PERTURB_': mp})))
    for name, s in variants:
        for (q, e), r in zip(good, s.run([g[0] for g in good])):
            if ctx.bad(r, q, name): continue
            ctx.count(name); ctx.case()
            o = plain(r['r'])
            if o != e:
                i = [i for i in range(len(e)) if o[i] != e[i]][0]
                ctx.violation('%s:%s' % ('memory' if 'memory' in name else 'variables', q[i][0]), '%s: step %.300r gives %.400r and %.400r' % (name, q[i], o[i], e[i]), {'request': jreq(q)})
