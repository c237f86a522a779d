"""Coloured renderings (terminal, HTML, TeX) and coloured tokenizing, decoded independently and compared with plain text."""
from wk import *

def utf8(b):
    try: b.decode('utf-8'); return True
    except UnicodeDecodeError: return False

class Broken(Exception): pass

def terminal(b, color):
    if not color: return b
    out = re.sub(rb'\x1b\[[0-9;]*m', b'', b)
    if b'\x1b' in out: raise Broken('escape sequence')
    return out

TAG = re.compile(rb'<(/?)(xmq[A-Z]+)>')
ENT = {b'&amp;': b'&', b'&lt;': b'<', b'&gt;': b'>', b'&quot;': b'"', b'&#39;': b"'", b'&apos;': b"'"}
def html_text(b):
    """Characters between balanced xmq elements; anything else that looks like markup is a break out."""
    out = bytearray(); st = []; i = 0
    while i < len(b):
        c = b[i:i+1]
        if c == b'<':
            m = TAG.match(b, i)
            if not m: raise Broken('element %r' % b[i:i+40])
            if m[1]:
                if not st or st.pop() != m[2]: raise Broken('unbalanced %r' % m[0])
            else: st.append(m[2])
            i = m.end()
        elif c == b'&':
            m = re.match(rb'&[a-z#0-9]+;', b[i:i+10])
            if not m or m[0] not in ENT: raise Broken('entity %r' % b[i:i+10])
            out += ENT[m[0]]; i += len(m[0])
        elif c == b'>': raise Broken('>')
        else: out += c; i += 1
    if st: raise Broken('unclosed %r' % st)
    return bytes(out)

HEAD = re.compile(rb'<!DOCTYPE html>\n<html>\n<head>(.*?)</head><body( id="[^"<>]*")?( class="[^"<>]*")?>', re.S)
PRE = re.compile(rb'<pre( id="[^"<>]*")?( class="[^"<>]*")?>')
def html_doc(b, raw):
    if not raw:
        m = HEAD.match(b)
        if not m: raise Broken('head')
        i = m.end(); tail = b'</pre></body></html>'
    else: i = 0; tail = b'</pre>'
    if not b.rstrip(b'\n').endswith(tail): raise Broken('end %r' % b[-40:])
    m = PRE.match(b, i)
    if not m: raise Broken('pre %r' % b[i:i+60])
    return html_text(b.rstrip(b'\n')[m.end():-len(tail)])

TX = [(b'\\textbackslash{}', b'\\'), (b'\\textasciicircum{}', b'^'), (b'\\textasciitilde{}', b'~'), (b'\\linebreak\n', b'\n'), (b'\\xmqI ', b' '), (b"{'}", b"'"),
      (b'\\&', b'&'), (b'\\#', b'#'), (b'\\$', b'$'), (b'\\%', b'%'), (b'\\{', b'{'), (b'\\}', b'}'), (b'\\_', b'_')]
CMD = re.compile(rb'\\xmq[A-Z]+\{')
def tex_text(b):
    out = bytearray(); depth = 0; i = 0
    while i < len(b):
        for a, r in TX:
            if b.startswith(a, i): out += r; i += len(a); break
        else:
            m = CMD.match(b, i)
            if m: depth += 1; i = m.end(); continue
            c = b[i:i+1]
            if c == b'}' and depth: depth -= 1; i += 1; continue
            if c in b'\\{}$&#^_~%': raise Broken('tex %r' % b[max(0, i-10):i+20])
            out += c; i += 1
    if depth: raise Broken('tex braces')
    return bytes(out)
BEG, END = b'\\texttt{\\flushleft\\noindent ', b'\n}\n'
def tex_doc(b, raw):
    if not raw:
        i = b.find(b'\\begin{document}\n')
        if not b.startswith(b'\\documentclass') or i < 0: raise Broken('tex head')
        j = b.rfind(b'\\end{document}')
        if j < 0: raise Broken('tex end')
        b = b[i + 17:j].rstrip(b'\n') + b'\n'
    if not b.startswith(BEG): raise Broken('tex start %r' % b[:40])
    b = b.rstrip(b'\n') + b'\n'
    if not b.endswith(END): raise Broken('tex stop %r' % b[-40:])
    return tex_text(b[len(BEG):-len(END)])

THEMES = [None, None, 'darkbg', 'lightbg']
def decode(kind, b, color, raw):
    if b is None: raise Broken('nothing')
    if kind == 'terminal': return terminal(b, color)
    if kind == 'html': return html_doc(b, raw)
    return tex_doc(b, raw)

def run(ctx):
    ctx.rule = 'a document or text and one rendering; distinct by text and rendering; non-trivial if markup was removed'
    ctx.assumptions = ['documents without escape characters', 'line ends at the very end of the text do not count', 'white space in TeX source stands for itself']
    rng = ctx.rng; n = ctx.scale(9000, 160000)
    docs = [x for x in doc_inputs(ctx, n, nomerge=False) if b'\x1b' not in x[2] and utf8(x[2])]
    for i in range(n // 6): docs.append((XMQ, 0, special(rng)))
    for lo in range(0, len(docs), 8000):
        part = docs[lo:lo + 8000]; reqs = []; sets = []
        for ty, f, t in part:
            k = rng.choice(['terminal', 'html', 'html', 'tex'])
            s = {}
            if rng.random() < 0.5: s['indent'] = rng.choice([0, 1, 2, 4, 8])
            if rng.random() < 0.15: s['compact'] = 1; s.pop('indent', None)
            if rng.random() < 0.15: s['n7'] = 1
            if rng.random() < 0.15: s['tab'] = 1
            if rng.random() < 0.15: s['nl'] = 1
            q = dict(s, of='xmq', render=k, color=1 if k != 'terminal' else rng.choice([0, 1, 1, 1]), dark=rng.choice([0, 1]))
            th = rng.choice(THEMES)
            if th: q['theme'] = th
            if k != 'terminal' and rng.random() < 0.4: q['raw'] = 1
            if k == 'html' and rng.random() < 0.2: q['id'] = 'id1'
            if k == 'html' and rng.random() < 0.2: q['class'] = 'cls'
            ts = {x: q[x] for x in ('color', 'dark', 'theme', 'render') if x in q}
            sets.append((k, q, ts))
            req = [('parse', '0', ty, f, '', 'z', t), ('print', '0', settings(of='xmq', **s)), ('print', '0', settings(**q))]
            if ty == XMQ: req.append(('tok', {'terminal': '2', 'html': '3', 'tex': '4'}[k], settings(**ts), rng.choice('ze'), t))
            reqs.append(req)
        for (ty, f, t), (k, q, ts), req, r in zip(part, sets, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            a = r['r']; rp = {'request': jreq(req)}
            if not a[0]['ok']: ctx.count('not-parsed'); continue
            plain, col = lat(a[1]), lat(a[2])
            if plain is None or any(k == 'c' for k in ()) : ctx.count('nothing-printed'); continue
            if b'\x1b' in plain: continue
            if not plain.strip(b'\n'): ctx.count('empty'); continue
            ctx.count('render-' + k); st = settings(**q)
            try:
                got = decode(k, col, q['color'], q.get('raw'))
                ctx.case(st.encode() + t if got != col else None, '%s %r' % (st, t[:300]))
                if got.rstrip(b'\n') != plain.rstrip(b'\n'):
                    i = next((i for i in range(min(len(got), len(plain))) if got[i] != plain[i]), min(len(got), len(plain)))
                    ctx.violation('text:' + k, '%s %r: plain %r shown %r' % (st, t[:800], plain[max(0, i-40):i+60], got[max(0, i-40):i+60]), rp)
            except Broken as e: ctx.violation('markup:%s:%s' % (k, str(e).split(' ')[0]), '%s %s %r -> %r' % (e, st, t[:800], col and col[-1500:]), rp)
            if len(a) > 3:
                b = a[3]; out = lat(b['out'])
                if not b['ok']: ctx.count('not-tokenized'); continue
                s = t[3:] if t.startswith(b'\xef\xbb\xbf') else t
                if b'\x1b' in s: continue
                ctx.count('tokenize-' + k)
                try:
                    got = tok_decode(k, out, ts['color'])
                    ctx.case(b'tok' + settings(**ts).encode() + t if got != out else None)
                    if got != s: 
                        i = next((i for i in range(min(len(got), len(s))) if got[i] != s[i]), min(len(got), len(s)))
                        ctx.violation('tokens:' + k, '%s %r: text %r shown %r' % (settings(**ts), t[:800], s[max(0, i-40):i+60], got[max(0, i-40):i+60]), rp)
                except Broken as e: ctx.violation('token-markup:%s:%s' % (k, str(e).split(' ')[0]), '%s %s %r -> %r' % (e, settings(**ts), t[:800], out and out[-1500:]), rp)

def tok_decode(k, b, color):
    if b is None: raise Broken('nothing')
    if k == 'terminal':
        return terminal(b, color)
    if k == 'html':
        i = b.find(b'<pre')
        m = PRE.match(b, i) if i >= 0 else None
        if not m: raise Broken('pre')
        if not b.endswith(b'</pre>'): raise Broken('end %r' % b[-30:])
        return html_text(b[m.end():-6])
    i = b.find(BEG)
    if i < 0 or not b.endswith(END): raise Broken('tex frame %r' % b[-40:])
    return tex_text(b[i + len(BEG):-len(END)])

def special(rng):
    """Texts full of the markup characters of the three formats, everywhere content can stand."""
    ch = ['<', '>', '&amp', '"', '\\', '{', '}', '$', '%', '#', '^', '~', '_', '</pre>', '</xmqQ>', '<xmqQ>', '<script>', '\\end{document}', '\\linebreak', '\\input{x}', '{}', '[0m', '\u00a0', '\u2003', 'å', '-->', ' ', 'x']
    tx = lambda: ''.join(rng.choice(ch) for _ in range(rng.choice([1, 2, 3, 6]))).replace("'", '').strip() or 'x'
    o = []
    def el(d):
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.2: o.append("// %s\n" % tx())
            elif r < 0.3: o.append("/* %s\n   %s */" % (tx().replace('*', '').replace('/', ''), tx().replace('*', '').replace('/', '')))
            elif r < 0.45: o.append("'%s'" % tx())
            elif r < 0.6: o.append("a_b%s(x_y='%s' %s)='%s\n  %s'" % (rng.choice(['', '-c', '.d']), tx(), rng.choice(['', 'xmlns=u', 'xmlns:p_q=v']), tx(), tx()))
            elif r < 0.7: o.append("?pi='%s'" % tx().replace('\u00a0', '').replace('\u2003', ''))
            elif r < 0.8: o.append('&%s;' % rng.choice(['lt', 'nbsp', '#10', 'a_b', 'x-y']))
            elif d < 3: o.append('e_%d {' % d); el(d + 1); o.append('}')
            o.append(' ')
    o.append('root_1 { '); el(0); o.append('}')
    return ''.join(o).encode('utf-8')
