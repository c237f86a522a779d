"""Memory and open files before and after operation sequences, repeated in one process."""
from wk import *
import safe, fuzz, p22, p18, ixck

def more(rng, q, kind, t):
    """Adds what the other workloads do not do."""
    q = list(q[:-1])
    r = rng.random()
    if r < .3:
        for _ in range(rng.randint(1, 3)): q.append((rng.choice(['each', 'count', 'string', 'int', 'long', 'double', 'rel']), '0', rng.choice(safe.QUERIES + ['//*', '/*/*']), rng.choice(['0', '1', '//x', '@*', ']'])))
    elif r < .4: q.append(('quote', t.replace(b'\0', b'')))
    elif r < .5:
        n = rng.randint(0, 4); q.append(('line', str(rng.randrange(2)), rng.choice(['a{', 'x{']),) + tuple(x for i in range(n) for x in ('k%d=' % i, t[:200].replace(b'\0', b'') or 'v')))
    elif r < .55: q.append(('line1', str(rng.randrange(2)), 'a=', t[:300].replace(b'\0', b'')))
    elif r < .6: q.append(('linedoc', '0'))
    elif r < .7: q.append(('srcname', '2', 'one')); q.append(('srcname', '2', 'two')); q.append(('free', '2'))
    elif r < .8: q.append(('parse', '3', str(rng.choice([XMQ, XML, JSON, HTML, 1])), '0', rng.choice(['', 'r']), rng.choice('fsq'), t, str(rng.choice([0, 7, 1000]))))
    elif r < .85: q.append(('parse', '3', '1', '0', '', 'p', rng.choice(['/nonexistent/file', '/', '/dev/null', ''])))
    elif r < .95: q.append(('tok', str(rng.randrange(5)), rng.choice(['', 'color=1', 'render=html', 'render=tex']), rng.choice('zef'), t))
    q.append(('free', '0'))
    return q

def run(ctx):
    ctx.rule = 'an operation sequence run three times in one process, everything freed at its end; distinct by sequence; non-trivial if it contains a document'
    ctx.assumptions = ['allocations made on first use and kept for the process (libxml2 tables) are recognised by repetition: the third run may keep nothing']
    rng = ctx.rng; reqs = []
    for kind in ('xmq', 'json', 'xml'):
        for t in safe.texts(ctx, kind, ctx.scale(2600, 60000)):
            if len(t) > 30000: continue
            q = safe.request(rng, kind, t); q = more(rng, q, kind, t) if rng.random() < .5 else q
            reqs.append(q)
    for i in range(ctx.scale(900, 20000)):
        if i % 2: reqs.append([tuple(str(x) if isinstance(x, int) else x for x in a) for a in ixck.steps(rng, 0, 8)] + [('free', '0'), ('free', '8')])
    for g, t, k in p18.pairs(ctx, ctx.scale(600, 20000)): reqs.append(p18.request(rng, g, t, k))
    rng.shuffle(reqs)
    flat = [q for q in reqs for _ in range(3)]
    out = ctx.srv.run(flat, batch=600)
    found = []
    for i, q in enumerate(reqs):
        rs = out[3 * i:3 * i + 3]
        if any(ctx.bad(r, q) for r in rs): continue
        oks = [x['ok'] for x in rs[2]['r'] if isinstance(x, dict) and 'ok' in x]
        ctx.count('all-ok' if all(oks) else 'with-failure'); ctx.count('operations', 3 * len(q))
        ctx.case(repr(q), '%.200r live %s fds %s' % (q, [r['live'] for r in rs], [r['fds'] for r in rs]))
        if rs[2]['live'] > 0 or any(r['fds'] for r in rs): found.append(q)
        elif rs[2]['live'] < 0: ctx.count('freed-earlier-blocks')
    found.sort(key=lambda q: len(repr(q)))
    for q in found[:60] + found[60::max(1, len(found) // 60)]:
        k, f, q = reduce(ctx, q)
        if k is None: ctx.count('not-repeated'); continue
        ctx.violation('%s:%s' % ('memory' if k > 0 else 'files', '+'.join(sig(a) for a in q)), '%d blocks kept, %d files left open by %.1500r' % (k, f, q), {'request': jreq(q)})

def left(ctx, q):
    r = ctx.srv.run([q] * 3, batch=3)
    if any(isinstance(x, Crash) for x in r): return None, None
    if r[2]['live'] > 0 or r[2]['fds']: return r[2]['live'], r[2]['fds']
    return None, None

def reduce(ctx, q):
    """The operations and print settings it takes."""
    k, f = left(ctx, q)
    if k is None: return None, None, q
    i = 0
    while i < len(q):
        t = q[:i] + q[i + 1:]
        if t and left(ctx, t)[0] is not None: q = t
        else: i += 1
    for i, a in enumerate(q):
        if a[0] in ('print', 'printq', 'tok') and '=' in str(a[2]):
            ps = a[2].split(',')
            for p in list(ps):
                t = [x for x in ps if x != p]; tq = q[:i] + [a[:2] + (','.join(t),) + a[3:]] + q[i + 1:]
                if left(ctx, tq)[0] is not None: ps = t; q = tq
    k, f = left(ctx, q)
    return k, f, q

def sig(a):
    if a[0] == 'parse': return 'parse%s%s' % (a[2], a[5])
    if a[0] in ('print', 'printq', 'tok'): return '%s[%s]' % (a[0], a[2])
    return a[0]
