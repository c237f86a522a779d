"""A small evaluator of location paths on dumped trees, written from the XPath recommendation."""
class N:
    __slots__ = ('k', 'name', 'prefix', 'uri', 'text', 'kids', 'attrs', 'up', 'ord')
    def __init__(s, k, name=None, prefix=None, uri=None, text=None):
        s.k, s.name, s.prefix, s.uri, s.text, s.kids, s.attrs, s.up = k, name, prefix, uri, text, [], [], None

def build(dump):
    """dump: list of nodes as written by the op server -> document node"""
    doc = N('doc'); c = [0]
    def add(parent, d):
        k = d[0]
        if k == 'e': n = N('e', d[2], d[1], d[3])
        elif k in 'tx': n = N('t', 'text', text=d[1])
        elif k == 'c': n = N('c', 'comment', text=d[1])
        elif k == 'p': n = N('p', d[1], text=d[2] or '')
        else: n = N(k, d[1])
        n.up = parent; n.ord = c[0]; c[0] += 1
        if k == 'e':
            c[0] += len(d[4])
            for p, a, h, ks in d[5]:
                m = N('a', a, p, h); m.up = n; m.ord = c[0]; c[0] += 1
                for x in ks: m.kids.append(add(m, x))
                n.attrs.append(m)
            for x in d[6]: n.kids.append(add(n, x))
        return n
    doc.ord = -1
    for d in dump: doc.kids.append(add(doc, d))
    return doc

def string(n):
    if n.k in 'tcp': return n.text
    return ''.join(string(k) for k in n.kids if k.k in ('e', 't')) if n.k in ('e', 'doc') else ''.join(k.text or '' for k in n.kids)

def desc(n):
    for k in n.kids: yield k; yield from (desc(k) if k.k == 'e' else ())

def axis(n, ax):
    if ax == 'child': return list(n.kids) if n.k in ('e', 'doc') else []
    if ax == 'attribute': return list(n.attrs) if n.k == 'e' else []
    if ax == 'parent': return [n.up] if n.up is not None else []
    if ax == 'self': return [n]
    if ax == 'descendant-or-self': return [n] + (list(desc(n)) if n.k in ('e', 'doc') else [])
    if ax == 'descendant': return list(desc(n)) if n.k in ('e', 'doc') else []
    if ax == 'ancestor':
        o = []; n = n.up
        while n is not None: o.append(n); n = n.up
        return o
    if ax in ('following-sibling', 'preceding-sibling'):
        if n.up is None or n.k == 'a': return []
        i = next(i for i, x in enumerate(n.up.kids) if x is n)
        return n.up.kids[i + 1:] if ax[0] == 'f' else n.up.kids[:i][::-1]
    raise KeyError(ax)

def test(n, t, ax):
    if t == 'node()': return n.k not in ('r', 'd')
    if t == 'text()': return n.k == 't'
    if t == 'comment()': return n.k == 'c'
    if t == '*': return n.k == ('a' if ax == 'attribute' else 'e')
    return n.k == ('a' if ax == 'attribute' else 'e') and n.name == t and n.uri is None

def steps(n, path):
    """path: list of (axis, test, [predicate]); predicates: ('pos', i) ('last',) ('eq', value) ('has', axis, test) ('lname', name)"""
    cur = [n]
    for ax, t, preds in path:
        out = []; seen = set()
        for c in cur:
            xs = [x for x in axis(c, ax) if test(x, t, ax)]
            for p in preds:
                if p[0] == 'pos': xs = xs[p[1] - 1:p[1]]
                elif p[0] == 'last': xs = xs[-1:]
                elif p[0] == 'eq': xs = [x for x in xs if string(x) == p[1]]
                elif p[0] == 'lname': xs = [x for x in xs if x.k in 'ea' and x.name == p[1]]
                else: xs = [x for x in xs if any(test(y, p[2], p[1]) for y in axis(x, p[1]))]
            for x in xs:
                if id(x) not in seen: seen.add(id(x)); out.append(x)
        cur = out
    return sorted(cur, key=lambda x: x.ord)

def root(n):
    while n.up is not None: n = n.up
    return n

AX = {'child': '', 'attribute': '@'}
def write(path, absolute):
    o = []
    for ax, t, preds in path:
        if ax == 'attribute': s = '@' + t
        elif ax == 'child': s = t
        elif ax == 'parent' and t == 'node()' and not preds: s = '..'
        elif ax == 'self' and t == 'node()' and not preds: s = '.'
        else: s = ax + '::' + t
        for p in preds:
            if p[0] == 'pos': s += '[%d]' % p[1]
            elif p[0] == 'last': s += '[last()]'
            elif p[0] == 'eq': s += '[.=' + ("'%s'" % p[1] if "'" not in p[1] else '"%s"' % p[1]) + ']'
            elif p[0] == 'lname': s += "[local-name()='%s']" % p[1]
            else: s += '[%s%s]' % ('@' if p[1] == 'attribute' else '' if p[1] == 'child' else p[1] + '::', p[2])
        o.append(s)
    t = '/'.join(o)
    t = t.replace('descendant-or-self::node()/', '/') if absolute else t
    return ('/' if absolute else '') + t

def random(rng, names, anames, values, absolute, depth=3):
    """(text, evaluator): a location path and what it selects from a node."""
    path = []
    for i in range(rng.randint(1, depth)):
        r = rng.random()
        last = False
        if r < 0.12 and i and path[-1][0] != 'attribute': st = (rng.choice(['parent', 'self']), 'node()', [])
        elif r < 0.30: path.append(('descendant-or-self', 'node()', [])); st = ('child', rng.choice(names + ['*']), [])
        elif r < 0.42: st = ('attribute', rng.choice(anames + ['*']), []); last = True
        elif r < 0.50: st = ('child', rng.choice(['text()', 'text()', 'comment()', 'node()']), []); last = rng.random() < 0.7
        elif r < 0.56: st = (rng.choice(['following-sibling', 'preceding-sibling', 'ancestor', 'descendant']), rng.choice(names + ['*', 'node()']), [])
        else: st = ('child', rng.choice(names * 2 + ['*']), [])
        while rng.random() < 0.25 and st[1] != 'node()':
            p = rng.random()
            st[2].append(('pos', rng.randint(1, 3)) if p < 0.4 else ('last',) if p < 0.5 else ('eq', rng.choice(values)) if p < 0.65 else ('lname', rng.choice(names)) if p < 0.75 and st[1] == '*' else ('has', rng.choice(['child', 'attribute']), rng.choice(anames + names + ['*'])))
        path.append(st)
        if last: break
    txt = write(path, absolute)
    def ev(n):
        return steps(root(n) if absolute else n, path)
    ev.path = path
    if rng.random() < 0.08 and depth > 1:
        t2, e2 = random(rng, names, anames, values, absolute, 2)
        def both(n):
            seen = {}
            for x in ev(n) + e2(n): seen[id(x)] = x
            return sorted(seen.values(), key=lambda x: x.ord)
        both.path = path + e2.path
        return txt + rng.choice(['|', ' | ']) + t2, both
    return txt, ev
