"""The statistics command against an independent count."""
from wk import *
import cli, ht
KEYS = ['num_elements', 'size_element_names', 'num_text_nodes', 'size_text_nodes', 'num_attributes', 'size_attribute_names', 'size_attribute_content', 'num_comments', 'size_comments', 'num_entities', 'size_entities', 'size_doctype', 'num_cdata_nodes', 'size_cdata_nodes']
def count(kids, c, inattr=False):
    for k in kids:
        t = k[0]
        if t == 'e':
            c['num_elements'] += 1; c['size_element_names'] += len(k[2])
            for p, n, h, v in k[5]:
                c['num_attributes'] += 1; c['size_attribute_names'] += len(n); count(v or [], c, True)
            count(k[6], c)
        elif t == 't':
            if inattr: c['size_attribute_content'] += len(k[1] or '')
            else: c['num_text_nodes'] += 1; c['size_text_nodes'] += len(k[1] or '')
        elif t == 'c': c['num_comments'] += 1; c['size_comments'] += len(k[1] or '')
        elif t == 'x': c['num_cdata_nodes'] += 1; c['size_cdata_nodes'] += len(k[1] or '')
        elif t == 'r': c['num_entities'] += 1; c['size_entities'] += len(k[1])
        elif t == 'd': c['size_doctype'] += len(re.match(r'<!DOCTYPE\s*([^\s>\[]*)', k[1]).group(1))
    return c

def cdata(rng, x):
    """XML with some sections."""
    for _ in range(rng.randint(0, 4)):
        t = gen.text(rng).encode('latin-1').replace(b']]>', b'').replace(b'\r', b'') if rng.random() < 0.9 else b''
        i = [m.end() for m in re.finditer(b'<[a-z][^>/?!]*>', x)]
        if i and not re.search(rb'[\x00-\x08\x0b\x0c\x0e-\x1f]', t): k = rng.choice(i); x = x[:k] + b'<![CDATA[' + t + b']]>' + x[k:]
    return x

def run(ctx):
    ctx.rule = 'a document; distinct by its text; non-trivial if it has elements'
    ctx.assumptions = ['the tree that is counted is the one the loader builds (decided by other properties)']
    rng = ctx.rng; jobs = []; reqs = []; texts = []
    for i in range(ctx.scale(6000, 60000)):
        r = rng.random()
        if r < 0.45: ty = XMQ; t = gen.spell(rng, gen.Doc(rng, size=rng.choice([5, 20, 80]), multi=True).doc()); name = 'in.xmq'
        elif r < 0.75: ty = XML; t = cdata(rng, gen.xml(rng, gen.Doc(rng, ents=False, doctype=False, size=rng.choice([5, 20, 80])).doc())); name = 'in.xml'
        else: ty = HTML; t = ht.doc(rng); name = 'in.html'
        f = rng.choice([0, 0, TRIM_NONE, NOMERGE])
        opt = {XMQ: '--xmq', XML: '--xml', HTML: '--html'}[ty]
        jobs.append({'args': [opt] + {0: [], TRIM_NONE: ['--trim=none'], NOMERGE: ['--no-merge']}[f] + [name, 'statistics', 'to-xmq'], 'files': {name: t}})
        reqs.append([('parse', '0', str(ty), str(f), '', 'e', t), ('dump', '0')]); texts.append(t)
    for job, q, t, r, x in zip(jobs, reqs, texts, cli.run(jobs), ctx.srv.run(reqs)):
        rp = cli.jjob(job)
        if r.crash: ctx.crash(r.crash, [('cli', str(job['args']))], 'cli'); continue
        if ctx.bad(x, q, 'load'): continue
        if not x['r'][0]['ok']:
            ctx.count('not-loaded')
            if r.rc == 0: ctx.violation('accepted', 'statistics of a rejected document %r' % t, rp)
            continue
        c = count(x['r'][1], dict.fromkeys(KEYS, 0))
        want = {k: v for k, v in c.items() if v}
        want['size_source'] = len(t); want['sum_text'] = c['size_text_nodes']
        want['sum_meta'] = c['size_element_names'] + c['size_attribute_names'] + c['size_attribute_content'] + c['size_doctype']
        m = re.match(rb'\s*statistics\s*\{(.*)\}\s*\Z', r.out, re.S)
        got = {a.decode(): int(b) for a, b in re.findall(rb'([a-z_]+)\s*=\s*(\d+)', m.group(1))} if m else None
        ctx.case(t if c['num_elements'] else None, '%.200r: %s' % (t, want))
        for k, v in c.items(): ctx.count(k, v)
        if r.rc != 0 or got is None: ctx.violation('failed', 'exit %s: %s %s' % (r.rc, r.err[-200:], t), rp); continue
        for k in sorted(set(want) | set(got)):
            if got.get(k) != want.get(k): ctx.violation(k, '%s is %s, should be %s: %.1500r' % (k, got.get(k), want.get(k), t), rp)
