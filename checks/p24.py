"""Editing commands against their meaning on the tree."""
from wk import *
import xpath, cmds, cli
NAMES = ['a', 'b', 'c', 'item', 'd']
ENT = ['alfa', 'beta', 'amp', 'copy', 'nbsp', '#10', '#x41', '#233', '#xA']

class D(gen.Doc):
    def name(self): return self.rng.choice(NAMES)

def sequence(rng, d, nomerge, ns):
    """Runs random commands on the model d. Returns the arguments, files, kinds."""
    args = []; files = {}; kinds = []; judged = True
    for step in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        cmds.number(d)
        r = rng.random()
        if r < 0.55:
            c = 'delete' if r < 0.33 else 'select'
            for _ in range(8):
                t, ev = xpath.random(rng, NAMES, NAMES + ['x1'], ['x', '5', 'alfa'], True, 3)
                if any(p for _, tt, p in ev.path if tt in ('text()', 'node()')) or (any(p[0] == 'eq' for _, _, ps in ev.path for p in ps)): continue
                if any(tt == 'text()' and ax != 'child' for ax, tt, _ in ev.path): continue
                sel = ev(d)
                if sel or rng.random() < 0.1: break
            else: t, ev = '//item', None; sel = xpath.steps(d, [('descendant-or-self', 'node()', []), ('child', 'item', [])])
            if rng.random() < 0.04: t, sel = rng.choice([('//text()', lambda n: n.k == 't'), ('//comment()', lambda n: n.k == 'c'), ('//@*', lambda n: n.k == 'a'), ('//*', lambda n: n.k == 'e'), ('/', lambda n: n.k == 'doc'), ('//processing-instruction()', lambda n: n.k == 'p')]); sel = allof(d, sel)
            args += [c, t]; kinds.append((c, ''.join(sorted(set(n.k for n in sel))), len(sel)))
            (cmds.delete if c == 'delete' else cmds.select)(d, sel)
        elif r < 0.66:
            g = D(rng, ns=ns, doctype=False, size=rng.choice([2, 5])).doc()
            t = gen.spell(rng, g)
            if b'\0' in t or t[:1] == b'-' or t[:3] == b'\xef\xbb\xbf': continue
            args += ['add', t]; cmds.add(d, ref_parse(t)[0]); kinds.append(('add', '', 1))
        elif r < 0.74:
            n = rng.choice(NAMES + ['root', 'x-y', '_'])
            args += ['add-root', n]; cmds.add_root(d, n); kinds.append(('add-root', '', 1))
        elif r < 0.80:
            n = pick(rng, d); args += ['delete-entity', n]; kinds.append(('delete-entity', '', sum(cmds.count_entities(d, n))))
            cmds.entities(d, lambda k: [] if k.name == n else [k])
        elif r < 0.92:
            n = pick(rng, d); c = cmds.count_entities(d, n); how = rng.random()
            if how < 0.5:
                v = gen.text(rng); v = v.replace('\0', '')
                if v[:2] == '--' or not v: v = 'v' + v
                args += ['replace-entity', n, v.encode('latin-1')]; fn = lambda k: [cmds.text(v)] if k.name == n else [k]
            elif how < 0.75:
                v = gen.text(rng); f = 't%d.txt' % step; files[f] = v.encode('latin-1'); v = v.replace('\r\n', '\n') if False else v
                args += ['replace-entity', '--with-text-file=' + f, n] if rng.random() < 0.5 else ['replace-entity', n, '--with-text-file=' + f]; fn = lambda k: [cmds.text(v)] if k.name == n else [k]
            else:
                if c[1] or ns: continue
                g = D(rng, ns=False, doctype=False, size=rng.choice([1, 4]), multi=True).doc(); t = gen.spell(rng, g); f = 'w%d.xmq' % step; files[f] = t
                g2 = ref_parse(t)[0]
                if not g2: continue
                args += ['replace-entity', '--with-file=' + f, n]; fn = lambda k: cmds.tree(g2).kids if k.name == n else [k]
            cmds.entities(d, fn); kinds.append(('replace-entity', 'text' if how < 0.75 else 'file', sum(c)))
        elif r < 0.96:
            n = pick(rng, d); args += ['substitute-entity', n]; kinds.append(('substitute-entity', n, sum(cmds.count_entities(d, n)))); cmds.substitute(d, n)
        else:
            args += ['substitute-char-entities']; cmds.substitute(d, None); kinds.append(('substitute-char-entities', '', 1))
    return args, files, kinds
def pick(rng, d):
    p = sorted(set(n.name for n in allof(d, lambda n: n.k == 'r') if '/' not in n.name))
    p += sorted(set(x.name for n in allof(d, lambda n: n.k == 'a') for x in n.kids if x.k == 'r'))
    return rng.choice(p) if p and rng.random() < 0.85 else rng.choice(ENT)
def allof(n, f):
    o = [n] if f(n) else []
    for a in n.attrs: o += allof(a, f) if n.k != 'a' else []
    for k in n.kids: o += [] if n.k == 'a' else allof(k, f)
    return o

def make(rng):
    nomerge = rng.random() < 0.3; ns = rng.random() < 0.15
    ents = rng.random() < 0.6
    g = D(rng, ns=ns, ents=ents, doctype=False, size=rng.choice([6, 14, 30]), multi=True)
    old = gen.ENTS[:]
    gen.ENTS[:] = ENT
    try: t = gen.spell(rng, g.doc())
    finally: gen.ENTS[:] = old
    p = ref_parse(t, not nomerge)
    if p[0] is None: return None
    d = cmds.tree(p[0])
    args, files, kinds = sequence(rng, d, nomerge, ns)
    if not kinds: return None
    files['in.xmq'] = t
    compact = rng.random() < 0.5
    a = (['--no-merge'] if nomerge else []) + ['in.xmq'] + args + ['to-xmq'] + (['--compact'] if compact else [])
    want = cmds.back(d)
    return {'args': a, 'files': files}, want, kinds, compact, t

def run(ctx):
    ctx.rule = 'a document and a sequence of editing commands; distinct by both; non-trivial if the commands name something'
    ctx.assumptions = ['paths of the generated kinds; no doctypes; element content only for entities outside attributes', 'comments and instructions whose content XMQ carries']
    rng = ctx.rng; jobs = []; meta = []
    while len(jobs) < ctx.scale(7000, 60000):
        m = make(rng)
        if m is None: ctx.count('not-made'); continue
        jobs.append(m[0]); meta.append(m[1:])
    for job, (want, kinds, compact, t), r in zip(jobs, meta, cli.run(jobs)): judge(ctx, job, want, kinds, compact, t, r)

def nodecl(nf):
    """Selected nodes carry the declarations they need: only the names are compared."""
    return tuple(k if k[0] != 'e' else k[:4] + ((),) + k[5:6] + (nodecl(k[6]),) for k in nf)

def judge(ctx, job, want, kinds, compact, t, r):
    rp = cli.jjob(job); rp['want'] = repr(want)[:2000]
    name = '+'.join(sorted(set(k[0] + (':' + k[1] if k[0] in ('delete', 'select') else '') for k in kinds)))
    if r.crash: ctx.crash(r.crash, [('cli', str(job['args']))], 'cli'); return
    wn = ref.norm_ref(want)
    if not representable(wn, compact) or controls(wn): ctx.count('not-representable'); return
    for k in kinds: ctx.count('%s%s' % (k[0], '' if k[2] else '-nothing')); ctx.count('nodes-named', k[2])
    ctx.case(repr((job['args'], t)) if any(k[2] for k in kinds) else None, '%s on %.300r' % (' '.join(map(str, job['args'])), t))
    if r.rc != 0: ctx.violation('failed:' + name, 'exit %s, %s: %s on %r' % (r.rc, r.err[-300:], job['args'], t), rp); return
    p = ref_parse(r.out)
    if p[0] is None: ctx.violation('output:' + name, 'output is no XMQ: %r: %s on %r' % (r.out, job['args'], t), rp); return
    got = ref.norm_ref(p[0])
    if any(k[0] == 'select' for k in kinds): wn, got = nodecl(wn), nodecl(got)
    if got != wn: ctx.violation(name, '%s: %s on %r gives %r' % (ref.first_diff(wn, got), job['args'], t, r.out), rp)
