"""Grammar driven parsing against the reference parser of lib/ixml.py."""
from drv import *
import ixml

def cases(ctx, n, per, deep=False, loops=False):
    """(rules, grammar text, parser, inputs)."""
    rng = ctx.rng
    while n > 0:
        g = ixml.Gen(rng, deep=deep, simple=rng.random() < 0.3, marks=rng.random() < 0.8)
        rules = g.grammar()
        p = ixml.Parser(rules)
        if p.loops and (not loops or rng.random() > 0.15): ctx.count('grammars-with-a-loop-skipped'); continue
        ins = g.inputs(rules, per)
        if not ins: continue
        n -= 1
        yield rules, ixml.Spell(rng, plain=rng.random() < 0.2).grammar(rules), p, ins

def request(gt, inputs, flags=0, reuse=False):
    q = [('parse', '0', str(IXML), '0', '', 'e', gt.encode())]
    for i, t in enumerate(inputs):
        if i and not reuse: q.append(('parse', '0', str(IXML), '0', '', 'e', gt.encode()))
        q.append(('ixml', '1', '0', str(flags), 'e', t.encode())); q.append(('dump', '1'))
    return q

def steps(rng, d, g, threads=False):
    """A grammar read into slot g and used for up to three inputs into slot d."""
    while True:
        x = ixml.Gen(rng, simple=rng.random() < .4); rules = x.grammar(); ins = x.inputs(rules, rng.choice([1, 2, 3]))
        if ins: break
    gt = ixml.Spell(rng, plain=rng.random() < .3).grammar(rules).encode()
    if rng.random() < .15: gt = gt[:rng.randrange(len(gt))] + rng.choice([b'', b'!', b'"', b')']) + gt[rng.randrange(len(gt)):]
    q = [('parse', g, IXML, 0, '', rng.choice('Zem' + ('' if threads else 'f')), gt)]
    for t in ins:
        q.append(('ixml', d, g, rng.choice([0, 0, 0, 1 << 4]), 'e' if threads else rng.choice('zef'), (t[:4] if len(t) > 6 else t).encode()))
        q.append((rng.choice(['dump', 'links']), d))
        if rng.random() < .3: q.append(('print', d, rng.choice(['of=xmq', 'of=xml', 'of=json'])))
    if rng.random() < .5: q += [('free', d), ('free', g)]
    return q

def features(rules):
    o = set()
    def alt(al):
        for a in al:
            if not a: o.add('empty-alternative')
            for f, op, sep in a:
                if op: o.add('op' + op)
                for x in (f, sep):
                    if not x: continue
                    o.add({'nt': 'reference', 'lit': 'literal', 'set': 'set', 'ins': 'insertion', 'grp': 'group'}[x[0]])
                    if x[0] == 'grp': alt(x[1])
                    if x[0] == 'set':
                        if x[2]: o.add('excluded-set')
                        for q in x[3]: o.add('set-' + q[0])
                    if x[0] in ('nt', 'lit', 'set') and x[1]: o.add('mark' + x[1])
                    if x[0] == 'nt' and x[3]: o.add('alias')
                    if x[0] == 'lit' and x[3] == '#': o.add('encoded')
    for r in rules:
        if r[0]: o.add('rule-mark' + r[0])
        if r[2]: o.add('rule-alias')
        alt(r[3])
    return o
