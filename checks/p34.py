"""Inputs with several derivations: the document is one of them, the same every time and announced; all parses are true parses."""
from collections import Counter
from itertools import product
from ixck import *

def key(s): return json.dumps(s)

def norm(kids):
    o = []
    for k in kids:
        if k[0] == 't' and o and o[-1][0] == 't': o[-1] = ['t', o[-1][1] + k[1]]
        else: o.append(k)
    return o

def expand(e, limit):
    """Every document that a document with AMBIGUOUS elements stands for."""
    if e[0] == 't': return [e]
    if e[1] == 'AMBIGUOUS':
        o = []
        for k in e[3]: o += expand(k, limit)
        if len(o) > limit: raise ixml.TooMany()
        return o
    parts = [expand(k, limit) for k in e[3]]
    n = 1
    for p in parts: n *= len(p)
    if n > limit: raise ixml.TooMany()
    return [['e', e[1], e[2], norm(c)] for c in product(*parts)]

def ambig_nodes(e):
    if e[0] != 'e': return []
    return ([e] if e[1] == 'AMBIGUOUS' else []) + [x for k in e[3] for x in ambig_nodes(k)]

def visible(rules):
    """No hidden, attribute or generated nonterminals: all alternatives are elements of their own."""
    f = features(rules)
    return not (f & {'group', 'alias', 'mark@', 'rule-mark-', 'rule-mark@', 'op?', 'op*', 'op+', 'op**', 'op++'}) and not any(
        t[0][0] == 'nt' and t[0][1] == '-' for r in rules for a in r[3] for t in a)

def plain_cases(ctx, n):
    rng = ctx.rng
    while n > 0:
        g = ixml.Gen(rng, simple=True, marks=False)
        g.alpha = rng.sample('ab', rng.choice([1, 1, 2]))
        names = g.names = rng.sample(['S', 'A', 'B', 'C', 'D'], rng.choice([1, 2, 2, 3, 4]))
        rules = []
        for x in names:
            al = []
            for _ in range(rng.choice([2, 2, 3, 4])):
                a = []
                for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 0])):
                    k = rng.random()
                    if k < 0.45: f = ('lit', rng.choice(['', '', '', '-']), rng.choice(g.alpha) * rng.choice([1, 1, 1, 2]), '"')
                    elif k < 0.52: f = ('set', rng.choice(['', '-']), False, [('s', rng.choice(g.alpha))])
                    elif k < 0.56: f = ('ins', rng.choice('+*'), '"')
                    else: f = ('nt', rng.choice(['', '', '^']), rng.choice(names), None)
                    a.append((f, '', None))
                if a not in al: al.append(a)
            rules.append(['', x, None, al])
        p = ixml.Parser(rules)
        if p.loops: continue
        ins = []
        for _ in range(8):
            s = g.sentence(rules, 8)
            if s is not None and s not in ins: ins.append(s)
        if not ins: continue
        n -= 1
        yield rules, ixml.Spell(rng, plain=True).grammar(rules), p, ins

def run(ctx):
    ctx.rule = 'a grammar and an input parsed twice for one parse and once for all parses; distinct by grammar and input; non-trivial if the input has more than one derivation'
    ctx.assumptions = ['no nonterminal derives itself', 'the start rule gives a visible element',
                       'the content of all parses is judged for grammars where only elements can be ambiguous']
    cs = []
    for kind, c in [('g', c) for c in cases(ctx, ctx.scale(1200, 40000), 5)] + [('p', c) for c in plain_cases(ctx, ctx.scale(1200, 40000))]:
        if 'alias' in features(c[0]): continue
        keep = []
        for t in c[3]:
            try:
                n = c[2].parse(t)
                if not n or n > 300: continue
                docs = [c[2].document(d) for d in c[2].all_trees(400)]
            except (ixml.TooMany, RecursionError): ctx.count('too-many'); continue
            if len(docs) != n: ctx.count('too-many'); continue
            if None in docs: ctx.count('no-document'); continue
            keep.append((t, docs))
        if keep: cs.append((kind, c[0], c[1], keep))
    reqs = []
    for _, _, gt, keep in cs:
        q = []
        for t, _ in keep:
            for fl in (0, 0, ALL_PARSES): q += request(gt, [t], fl)
        reqs.append(q)
    for (kind, rules, gt, keep), q, r in zip(cs, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']; vis = visible(rules)
        for i, (t, docs) in enumerate(keep):
            g = rs[i * 9:i * 9 + 9]
            if not g[0]['ok']: ctx.count('grammar-rejected'); continue
            if not (g[1]['ok'] and g[4]['ok'] and g[7]['ok']): ctx.count('refused'); continue   # decided by P27
            many = len(docs) > 1
            ctx.case(gt + '\0' + t if many else None, '%d derivations: %.400r %r' % (len(docs), gt, t))
            ctx.count('ambiguous' if many else 'single')
            def bad(k, what): ctx.violation(k, '%s for %r: %.700r' % (what, t, gt), {'request': jreq(q[i * 9:i * 9 + 9])})
            said = 'ambiguous' in g[1]['said']
            if said != many: bad('announced', 'an input with %d derivations was %sannounced as ambiguous' % (len(docs), '' if said else 'not ')); continue
            a = ixml.dom(g[2]); b = ixml.dom(g[5]); al = ixml.dom(g[8])
            want = Counter(key(d) for d in docs)
            if a is None or key(a) not in want: bad('not-a-parse', 'the document %.300r is none of the %d parses' % (a or g[2], len(docs))); continue
            if a != b: bad('different', 'two parses of the same gave %.200r and %.200r' % (a, b)); continue
            if al is None: bad('all', 'all parses gave %.300r' % (g[8],)); continue
            if not many:
                if al != a: bad('all-single', 'all parses gave %.300r for the single parse %.300r' % (al, a))
                continue
            if not vis: ctx.count('all-parses-not-judged'); continue
            for x in ambig_nodes(al):
                if len(x[3]) < 2: bad('all-one', 'an ambiguity with one alternative %.300r' % (x,)); break
            try: got = Counter(key(d) for d in expand(al, 3000))
            except ixml.TooMany: ctx.count('too-many'); continue
            ctx.count('all-parses-judged'); ctx.count('parses-reported', sum(got.values()))
            if set(got) - set(want): bad('all-false', 'a reported parse %.300s is none of the %d parses' % (sorted(set(got) - set(want))[0], len(docs))); continue
            if got - want: bad('all-twice', 'parse %.300s is reported %d times, there are %d' % (sorted(got - want)[0], got[sorted(got - want)[0]], want[sorted(got - want)[0]])); continue
            if want - got: bad('all-lost', '%d of %d parses are reported, not %.300s' % (sum(got.values()), len(docs), sorted(want - got)[0]))
