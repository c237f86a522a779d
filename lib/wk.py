"""Workloads and oracles shared by the checks."""
import re, ref, gen
from drv import *

def xmq_pool(limit=6000):
    return [b for p, b in gen.corpus(('.xmq', '.htmq'), limit) if b'\0' not in b]

def ref_parse(t, merge=True):
    """(tree, rejection) by the language definition."""
    try: return ref.parse(t, merge)[0], None
    except ref.Reject as e: return None, e
    except RecursionError: return None, 'deep'

def scoped(doc):
    """Normal form of a generated document."""
    ref.scope(doc, {'xml': ref.XMLNS})
    return ref.norm_ref(doc)

def valid_pi(kids):
    """Processing instructions and doctypes whose content both formats can carry."""
    for k in kids:
        if isinstance(k, ref.E):
            if not valid_pi(k.kids): return False
        elif k[0] == 'p' and k[2] and ('?>' in k[2]): return False
    return True

def has_doctype(kids): return any(not isinstance(k, ref.E) and k[0] == 'd' for k in kids)

def xmq_texts(ctx, n, mix=(4, 3, 2, 1)):
    """Texts with the normal form of their document where the generator knows it (else None): spelled documents,
    arbitrary layouts, mutations of spelled documents and of the project's own samples, token soup."""
    rng = ctx.rng; pool = xmq_pool()
    kinds = ['spell'] * mix[0] + ['layout'] * mix[1] + ['mutate'] * mix[2] + ['soup'] * mix[3]
    for p in pool: yield 'corpus', p, None
    for i in range(n):
        k = kinds[i % len(kinds)]
        if k == 'spell':
            d = gen.Doc(rng).doc(); yield k, gen.spell(rng, d), scoped(d)
        elif k == 'layout': yield k, gen.layout_doc(rng), None
        elif k == 'soup': yield k, gen.soup(rng).replace(b'\0', b''), None
        else:
            r = rng.random()
            if r < 0.5: t = gen.mutate(rng, rng.choice(pool), pool)
            elif r < 0.8: t = gen.mutate(rng, gen.spell(rng, gen.Doc(rng).doc()), pool)
            else: t = gen.mutate(rng, gen.layout_doc(rng))
            yield k, t.replace(b'\0', b''), None

def kinds_in(nf, acc=None):
    """Which features a normal form contains (for evidence)."""
    if acc is None: acc = set()
    for k in nf:
        acc.add(k[0])
        if k[0] == 'e':
            if k[1]: acc.add('prefix')
            if k[4]: acc.add('nsdecl')
            if k[5]: acc.add('attr')
            kinds_in(k[6], acc)
        elif k[0] == 't':
            if '\n' in k[1]: acc.add('multiline')
            if "'" in k[1]: acc.add('quotes')
            if '\r' in k[1]: acc.add('cr')
            if k[1] != k[1].strip(): acc.add('outer-space')
    return acc

# ---------------------------------------------------------------- documents to print
def doc_inputs(ctx, n, html=True, nomerge=True):
    """(type, flags, text) of documents of every origin."""
    rng = ctx.rng; pool = xmq_pool(); out = []
    for exts, ty in ((('.xmq',), XMQ), (('.htmq',), HTMQ), (('.xml', '.xsd', '.xslt', '.xsl'), XML), (('.html', '.htm'), HTML)):
        if ty == HTML and not html: continue
        for p, b in gen.corpus(exts, 20000):
            if b'\0' in b: continue
            for f in (0, TRIM_NONE): out.append((ty, f, b))
    for i in range(n):
        k = i % 8
        if k in (0, 1, 2): out.append((XMQ, rng.choice([0, 0, NOMERGE]) if nomerge else 0, gen.spell(rng, gen.Doc(rng).doc())))
        elif k in (3, 4):
            D = gen.Doc(rng, ents=False, doctype=False); out.append((XML, rng.choice([TRIM_NONE, TRIM_NONE, 0, TRIM_HEUR]), gen.xml(rng, D.doc())))
        elif k == 5: out.append((XMQ, 0, gen.layout_doc(rng)))
        elif k == 6:
            D = gen.Doc(rng, size=rng.choice([30, 60, 120])); out.append((XMQ, 0, gen.spell(rng, D.doc())))
        else: out.append((XMQ, 0, gen.mutate(rng, rng.choice(pool), pool).replace(b'\0', b'')))
    return out

WS = ' \t\r\n'
def representable(nf, compact=False, top=True):
    """Comments, processing instructions and doctypes whose content the printed form can carry: their outer whitespace
    is not significant in XMQ, they can not hold entities, and compact comments lose one leading space of each line
    (the project's own tests fix this)."""
    for k in nf:
        if k[0] == 'e':
            if ':' in k[1] or ':' in k[2] or any(':' in a[0] + a[1] for a in k[5]): return False
            if not representable(k[6], compact, False): return False
        elif k[0] == 'c':
            c = k[1]
            if c != c.strip(WS) or '\r' in c or re.search(r'[ \t]\n', c): return False
            if compact and re.search(r'\n ', c): return False
            if re.search(r'[\x00-\x08\x0b-\x1f]', c): return False
        elif k[0] == 'p':
            c = k[2] or ''
            if c != c.strip(WS + "'") or re.search(r'[\x00-\x1f]', c): return False
        elif k[0] == 'x': return False
    return True

def controls(nf):
    """Characters which no XML document can hold (only reachable with broken texts)."""
    for k in nf:
        if k[0] == 'e':
            if controls(k[6]) or any(controls(a[3]) for a in k[5]): return True
        elif len(k) > 1 and isinstance(k[1], str) and re.search(r'[\x00-\x08\x0b\x0c\x0e-\x1f]', k[1]): return True
    return False

def is_utf8(b):
    try: b.decode('utf-8'); return True
    except UnicodeDecodeError: return False

def doctypes(dump):
    return [k[1] for k in dump if k[0] == 'd']

def settings(**kw): return ','.join('%s=%s' % kv for kv in kw.items())
