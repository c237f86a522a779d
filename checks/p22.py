"""Getters and iterations against an independent evaluation of the path on the tree."""
from wk import *
import xpath, xo, ht

NAMES = ['a', 'b', 'c', 'item']
ANAMES = ['id', 'k', 'a']
INTS = ['0', '1', '-1', '5', '42', '+7', '2147483647', '-2147483648', '0x10', '0xff', '0x7fffffff', '010', '0777', '00', '12 ', '7x', '-0', '100000', '9', '08x', '1.5', '1e3', '-12.75', '0.1', '3.14159265358979', '.5', '5.', '1e-300', '1.7976931348623157e308', 'x', '', '-', 'abc', 'true', '٣', '1,5', "it's", ' 3', '\n4']
LONGS = ['9223372036854775807', '-9223372036854775808', '4294967296', '0x7fffffffffffffff', '0x100000000', '0777777777777777777777', '2147483648', '-2147483649', '123456789012']

def value(rng): return rng.choice(INTS if rng.random() < 0.8 else LONGS) if rng.random() < 0.8 else ' '.join(gen.word(rng) for _ in range(rng.randint(1, 4)))

def tree(rng, depth, budget):
    """XML text of an element."""
    n = rng.choice(NAMES); at = rng.sample(ANAMES, rng.choice([0, 0, 1, 2])); s = '<' + n
    for a in at: s += ' %s="%s"' % (a, esc(value(rng)))
    r = rng.random()
    if depth == 0 or budget[0] <= 0 or r < 0.45: return s + ('/>' if r < 0.08 else '>' + esc(value(rng)) + '</%s>' % n)
    s += '>'
    for _ in range(rng.randint(1, 5)):
        budget[0] -= 1; k = rng.random()
        if k < 0.75: s += tree(rng, depth - 1, budget)
        elif k < 0.85: s += esc(value(rng))
        elif k < 0.92: s += '<!--' + value(rng).replace('-', '') + '-->'
        elif k < 0.96: s += '<?pi x?>'
        else: s += '<p:%s xmlns:p="urn:p">%s</p:%s>' % (n, esc(value(rng)), n)
    return s + '</%s>' % n
def esc(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\n', '&#10;').replace('\r', '&#13;')

def content(n):
    """(judged, content): what is stored at a node, where that is one text."""
    if n.k in 'tc': return True, n.text
    if n.k in 'ea':
        if not n.kids: return True, None
        if len(n.kids) == 1 and n.kids[0].k == 't': return True, n.kids[0].text
        if n.k == 'e' and n.kids[0].k == 'e': return True, None
        return False, None
    return False, None

def integer(s, bits):
    """(judged, number)"""
    if s is None: return True, 0
    m = re.match(r'([+-]?)(0x[0-9a-fA-F]+|0[0-7]*|[0-9]+)?(.?)', s, re.S)
    if s[:1] in ' \n\t\r\v\f': return False, 0
    if m.group(2) is None: return True, 0
    if m.group(1) and m.group(2)[0] == '0' and len(m.group(2)) > 1: return False, 0
    if m.group(2) == '0' and (m.group(3) == 'x'): return False, 0
    v = int(m.group(2), 16 if m.group(2)[:2] == '0x' else 8 if m.group(2)[0] == '0' else 10) * (-1 if m.group(1) == '-' else 1)
    return -(1 << bits - 1) <= v < 1 << bits - 1, v
def real(s):
    if s is None: return True, 0.0
    m = re.match(r'[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?', s)
    if s[:1] in ' \n\t\r\v\f' or re.match(r'[+-]?(0x|inf|nan)', s, re.I): return False, 0
    return True, float(m.group(0)) if m else 0.0

def run(ctx):
    ctx.rule = 'a document and a path; distinct by the pair; non-trivial if the path selects something'
    ctx.assumptions = ['paths of the generated kinds: all common axes, names, tests, positions, values, unions', 'numbers out of range, with blanks before or with signs before a base prefix are not judged', 'content is judged where it is a single text']
    rng = ctx.rng
    n = ctx.scale(1800, 60000)
    reqs = []; meta = []
    for i in range(n):
        x = tree(rng, rng.choice([1, 2, 3, 4]), [rng.choice([3, 10, 40])])
        how = rng.choice(['xml', 'xml', 'xmq'])
        q = [('parse', '0', str(XML), str(TRIM_NONE), '', 'e', x), ('dump', '0')]
        if how == 'xmq': q += [('printq', '0', 'of=xmq,compact=%d' % rng.randrange(2)), ('reparse', '0', str(XMQ), '0', '', 'e'), ('dump', '0')]
        ps = []
        vals = ['5', '42', 'x', '1', '']
        for _ in range(8):
            t, ev = xpath.random(rng, NAMES, ANAMES, vals, True)
            q += [('string', '0', t), ('int', '0', t), ('long', '0', t), ('double', '0', t), ('each', '0', t, '0'), ('each', '0', t, str(rng.randint(1, 4))), ('count', '0', t)]
            ps.append(('abs', t, ev, q[-2][3]))
        for _ in range(4):
            t, ev = xpath.random(rng, NAMES, ANAMES, vals, True); t2, ev2 = xpath.random(rng, NAMES, ANAMES, vals, rng.random() < 0.1)
            q += [('rel', '0', t, t2)]; ps.append(('rel', (t, t2), ev, ev2))
        t2, ev2 = xpath.random(rng, NAMES, ANAMES, vals, False)
        q += [('relroot', '0', t2)]; ps.append(('root', t2, None, ev2))
        bad = rng.choice(['', '/', '//', '///', '[', ']', 'a[', 'count(//a)', 'string(/a)', '1', "'x'", 'true()', '/a/@', '$x', 'p:a', '/p:a', '(', 'a b', '/..', '//namespace::*', 'id("x")', '/*/namespace::node()', '&', '-', '//a[foo()]', '//a[1', '.', '/.', '@', 'é', '\x01'])
        q += [('string', '0', bad), ('int', '0', bad), ('double', '0', bad), ('each', '0', bad, '0'), ('count', '0', bad), ('rel', '0', '//a', bad), ('dump', '0')]
        ps.append(('bad', bad, None, None))
        reqs.append(q); meta.append((x, how, ps))
    for (x, how, ps), q, r in zip(meta, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q, 'query'): continue
        rs = r['r']; rp = {'request': jreq(q)}
        i = 5 if how == 'xmq' else 2
        if not rs[i - 2]['ok']: ctx.count('not-parsed'); ctx.violation('parse:' + how, '%r %s' % (rs[i - 2], x), rp); continue
        doc = xpath.build(rs[i - 1])
        for kind, t, ev, z in ps:
            if kind == 'abs':
                got = rs[i:i + 7]; i += 7
                sel = ev(doc); judge(ctx, x, t, sel, got[:4], rp)
                ctx.case((x + '\0' + t) if sel else None, '%s in %.200s selects %d' % (t, x, len(sel))); ctx.count('selected', len(sel)); ctx.count('paths')
                each(ctx, x, t, sel, got[4], len(sel), rp); each(ctx, x, t, sel, got[5], int(z), rp)
                if got[6] != len(sel): ctx.violation('count', 'counting %s gives %r, selected %d: %s' % (t, got[6], len(sel), x), rp)
            elif kind == 'rel':
                got = rs[i]; i += 1; sel = ev(doc)
                if got['ret'] != len(sel) or len(got['nodes']) != len(sel): ctx.violation('rel-outer', '%s: %r selects %d: %s' % (t, got['ret'], len(sel), x), rp); continue
                for s, g in zip(sel, got['nodes']): relative(ctx, x, t, s, z(s), g, rp)
                ctx.count('relative', len(sel))
            elif kind == 'root':
                got = rs[i]; i += 1; root = next(k for k in doc.kids if k.k == 'e')
                if got is None: ctx.violation('no-root', 'no root node: %s' % x, rp); continue
                relative(ctx, x, ('(root)', t), root, z(root), got, rp); ctx.count('from-root')
            else:
                if rs[-1] != rs[4 if how == 'xmq' else 1]: ctx.violation('changed', 'queries changed the document %s' % x, rp)
                ctx.count('odd-paths')

def judge(ctx, x, t, sel, got, rp):
    j, c = content(sel[0]) if sel else (True, None)
    if not j: ctx.count('content-not-judged'); return
    s = None if got[0] is None else utf(got[0])
    c = None if c is None else utf(c)
    if s != c: ctx.violation('string:%s' % (sel[0].k if sel else 'none'), '%s: string %r, stored %r: %s' % (t, s, c, x), rp)
    for nm, (jj, v), g in (('int', integer(c, 32), got[1]), ('long', integer(c, 64), got[2]), ('double', real(c), float.fromhex(got[3]))):
        if not jj: ctx.count('number-not-judged'); continue
        ctx.count(nm + '-judged')
        if g != v: ctx.violation('%s:%s' % (nm, sel[0].k if sel else 'none'), '%s: %s %r of %r should be %r: %s' % (t, nm, g, c, v, x), rp)

def shown(n):
    j, c = content(n); return (n.name, j, c)

def same(sel, nodes):
    if len(sel) != len(nodes): return False
    for n, (name, c) in zip(sel, nodes):
        nm, j, cc = shown(n)
        if n.k in 'ea' and name != nm or j and c != cc: return False
    return True

def each(ctx, x, t, sel, got, stop, rp):
    if got['ret'] != len(sel): ctx.violation('each-return', 'iterating %s returns %r, selected %d: %s' % (t, got['ret'], len(sel), x), rp)
    if not same(sel[:stop] if stop else sel, got['nodes']):
        ctx.violation('each', 'iterating %s (stop at %d) visits %r, selected %r: %s' % (t, stop, got['nodes'], [shown(n) for n in sel], x), rp)

def relative(ctx, x, t, node, sel, g, rp):
    judge(ctx, x, t, sel, g[:4], rp)
    if g[5] != len(sel) or not same(sel, g[4]): ctx.violation('rel-each', '%r visits %r (%r), selected %r: %s' % (t, g[4], g[5], [shown(n) for n in sel], x), rp)
    if not same([node], [g[6]]): ctx.violation('rel-node', '%r node is %r, selected %r: %s' % (t, g[6], shown(node), x), rp)
