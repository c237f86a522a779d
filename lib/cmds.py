"""What the editing commands mean, on trees of xpath.N nodes."""
import xpath, ref, gen
from xpath import N
from ref import E

def tree(kids):
    """reference tree -> document node"""
    def conv(k):
        if isinstance(k, E):
            n = N('e', k.name, k.prefix, k.href); n.text = list(k.ns)
            for p, a, v, h in k.attrs:
                m = N('a', a, p, h); put(m, [conv(x) for x in v]); m.up = n; n.attrs.append(m)
            put(n, [conv(x) for x in k.kids]); return n
        if k[0] == 't': return N('t', 'text', text=k[1])
        if k[0] == 'c': return N('c', 'comment', text=k[1])
        if k[0] == 'p': return N('p', k[1], text=k[2])
        return N(k[0], k[1])
    d = N('doc'); put(d, [conv(k) for k in kids]); number(d); return d
def put(n, kids):
    n.kids = kids
    for k in kids: k.up = n
def number(d):
    c = [0]
    def go(n):
        n.ord = c[0]; c[0] += 1
        for a in n.attrs: go(a)
        for k in n.kids: go(k)
    go(d)
def back(d):
    def conv(n):
        if n.k == 'e':
            e = E(n.prefix, n.name); e.ns = list(n.text or []); e.href = n.uri
            e.attrs = [(a.prefix, a.name, [conv(x) for x in a.kids], a.uri) for a in n.attrs]
            e.kids = [conv(x) for x in n.kids]; return e
        if n.k == 'p': return ('p', n.name, n.text)
        if n.k in 'tc': return (n.k, n.text)
        return (n.k, n.name)
    return [conv(k) for k in d.kids]

def unlink(n):
    l = n.up.attrs if n.k == 'a' else n.up.kids
    for i, x in enumerate(l):
        if x is n: del l[i]; break

def delete(d, sel):
    for n in sel:
        if n.k == 'doc': n.kids = []
        else: unlink(n)
def select(d, sel):
    """The named nodes become the top level nodes, in document order; a node inside another named one is taken out of it."""
    out = []
    if any(n.k == 'doc' for n in sel):
        inner = [n for n in sel if n.k != 'doc']
    else: inner = sel
    t = []
    for n in inner:
        if n.k == 'a': n = n.up
        if not any(n is x for x in t): t.append(n)
    t.sort(key=lambda n: n.ord)
    for n in t: unlink(n)
    if len(inner) != len(sel): out = d.kids
    put(d, out + t)
def add(d, kids): put(d, d.kids + tree(kids).kids)
def add_root(d, name):
    r = N('e', name); r.text = []; put(r, d.kids); put(d, [r])
def entities(d, fn):
    """fn(entity node) -> list of nodes instead"""
    def go(n, inattr):
        for a in n.attrs: go(a, True)
        o = []
        for k in n.kids:
            if k.k == 'r': o += fn(k)
            else: go(k, inattr); o.append(k)
        put(n, o)
    go(d, False)
def text(s): return N('t', 'text', text=s)
def decode(name):
    if name[0] == '#': return chr(int(name[2:], 16) if name[1] in 'xX' else int(name[1:])).encode('utf-8', 'surrogatepass').decode('latin-1')
    return ref.PRE5.get(name)
def substitute(d, which):
    """which: None for all character references, or a name"""
    def fn(k):
        if (k.name[0] == '#' if which is None else k.name == which) and decode(k.name) is not None: return [text(decode(k.name))]
        return [k]
    entities(d, fn)
def count_entities(d, name):
    c = [0, 0]
    def go(n, a):
        if n.k == 'r' and n.name == name: c[a] += 1
        for x in n.attrs: go(x, 1)
        for x in n.kids: go(x, a)
    go(d, 0); return c
