"""Memory safety and termination of the IXML side: grammars read, expanded for an input, and the input parsed with them."""
import glob
from wk import *
import safe, fuzz, ixml
IXML_ALL, IXML_RECOVER = 1 << 4, 1 << 5

GF = [x.encode() for x in [':', '=', '.', ',', ';', '|', '-', '^', '@', '+', '*', '?', '**', '++', '~', '~[', '[', ']', '(', ')', '()', '{', '}', '{x}', '"', "'", '""', "''", '"a"', "'a'", '"é"', '"a""b"',
    '#', '#a', '#0', '#d800', '#10ffff', '#110000', '#fffffffff', '+#41', '+"x"', '+', '[L]', '[Lu;Nd]', '[Zs]', '[X]', '[Zzz]', "['a'-'z']", "[#0-#10ffff]", "['z'-'a']", '~[]', '[]', '[""]', 'a', 'S', 'a:', 'S=',
    ' > b', '>', 'ixml version "1.0".', 'ixml', 'version', 'a = .', 'a = a.', 'a = a, a.', 'a = b. b = a.', 'a: b?, b*.', ' ', '\n', '\t', '\r', '\xa0', '|+x', '_a', 'a-b', 'a.b', 'xmlns', '\xff', '\0', '!', '%', '\\', '\U0001f600', '\ufeff']] + [b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80']

def samples():
    """(grammar, input or None) of the project's own."""
    o = []
    for f in sorted(glob.glob(build.REPO + '/tests/ixml/correct/*.ixml')):
        g = open(f, 'rb').read(); i = f[:-5] + '.inp'
        t = open(i, 'rb').read() if os.path.exists(i) else b''
        if len(g) < 6000 and len(t) < 4000: o.append((g, t))
    for f in sorted(glob.glob(build.REPO + '/grammars/**/*.ixml', recursive=True)):
        g = open(f, 'rb').read()
        if len(g) < 12000: o.append((g, b'x y'))
    return o

def pairs(ctx, n):
    rng = ctx.rng; pool = samples(); out = []
    for g, t in pool: out += [(g, t, 'sample'), (g, g[:300], 'sample')]
    for _ in range(n):
        r = rng.random()
        if r < 0.3: g, t = rng.choice(pool); k = 'sample'
        elif r < 0.85:
            x = ixml.Gen(rng, deep=rng.random() < .2, simple=rng.random() < .3); rules = x.grammar()
            g = ixml.Spell(rng, plain=rng.random() < .2).grammar(rules).encode(); ins = x.inputs(rules, 1)
            t = (ins[0] if ins else '').encode(); k = 'generated'
        else:
            g = b''.join(rng.choice(GF) for _ in range(rng.randint(1, 14))); t = rng.choice([b'', b'a', b'aa', b'x y']); k = 'soup'
            if rng.random() < .7: g = b'S=' + g + b'.'
        r = rng.random()
        if r < .55: g = safe.splice(rng, g, GF); k += '-edited'
        if rng.random() < .3: t = safe.splice(rng, t, [b'a', b'b', b'"', b'\n', b' ', b'\xc3\xa9', b'\xff', b'\0', b'\xf0\x9f\x98\x80', b'\xed\xa0\x80', b'1', b'{', b'}'])
        out.append((g, t[:4000], k))
    return out

def big(ctx, n):
    """Large grammars and inputs whose parsing is linear by the grammar."""
    rng = ctx.rng; o = []
    lin = ['S = [L]*.', 'S = a*. a = ["a"-"z"].', 'S = ["a"-"z"], S | .', 'S = S, ["a"-"z"] | .', 'S = -["a"-"z"]*.', 'S = (["a"-"z"], (["a"-"z"])?)*.', '@S=["a"-"z"]*.', 'S = +"x", ["a"-"z"]+.', 'S = ["a"-"z"]++().', 'S = @b. b = ["a"-"z"]*.', 'S = ~[]*.', '-S = a. a = -b. b = ["a"-"z"]*.']
    for i in range(n):
        c = rng.choice(['a', 'ab', 'aé', 'a' * 80 + '\n', 'abcdefghijklmnopqrstuvwxyz', '\u4e00', '1'])
        m = rng.choice([1000, 5000, 20000, 20000])
        g = lin[i % len(lin)] if i % 2 else rng.choice([lambda: 'S = ' + ', '.join(['"a"'] * (m // 4)) + '.', lambda: 'S = ' + '|'.join('"%d"' % j for j in range(m // 20)) + '.', lambda: 'S = "' + c * (m // 10) + '".', lambda: 'S = a0.' + ''.join('a%d = a%d.' % (j, j + 1) for j in range(m // 20)) + 'a%d = "a".' % (m // 20),
                lambda: 'S = ' + '(' * m + '"a"' + ')' * m + '.', lambda: 'S = ' + '(' * 200 + '"a"' + ')' * 200 + '.', lambda: '{' * m + 'x' + '}' * m + 'S="a".', lambda: 'S = [' + ';'.join("'%s'" % chr(0x400 + j) for j in range(m // 20)) + ']*.', lambda: 'S' * m + ' = "a".', lambda: 'S = "a"' + ' ' * m + '.', lambda: 'S = ' + '#61' * 1 + ', #61' * (m // 20) + '.',
                lambda: 'S = ' + 'b, ' * (m // 100) + 'b. b = "a"?.', lambda: 'S = ' + '~[' * m, lambda: 'S = ' + '+' * m, lambda: 'S = "' + '""' * m + '".', lambda: 'S = "a' + 'b' * m])()
        o.append((g.encode(), (c * (m // len(c))).encode() if rng.random() < .8 else b'a' * rng.choice([0, 1, m // 4]), 'large'))
    return o

def request(rng, g, t, kind):
    q = [('parse', '0', str(IXML), '0', '', rng.choice('ze'), g)]
    fl = rng.choice([0, 0, 0, IXML_RECOVER, IXML_ALL]) if kind != 'large' else 0
    if fl == IXML_ALL: t = t[:6]
    if kind == 'large': q.append(('ixml', '1', '0', str(fl), 'e', t)); q.append(('printq', '1', settings(of='xmq', compact=1))); return q + [('free', '0'), ('free', '1')]
    for i in range(rng.choice([1, 1, 2, 3])):
        q.append(('ixml', '1', '0', str(fl), rng.choice('ze') if b'\0' not in t else 'e', t[:len(t) if i == 0 else rng.randint(0, len(t))]))
        q.append(('printq', '1', safe.print_settings(rng)))
    if rng.random() < .1: q.append(('parse', '0', str(IXML), '0', '', 'e', g)); q.append(('ixml', '1', '0', '0', 'e', t))
    return q + [('free', '0'), ('free', '1')]

def seeds(rng, n, pool):
    out = [fuzz.hdr(rng) + g + b'\xfe' + t for g, t in pool if len(g) < 1200]
    for i in range(n):
        x = ixml.Gen(rng, simple=rng.random() < .5); rules = x.grammar(); ins = x.inputs(rules, 1)
        out.append(fuzz.hdr(rng) + ixml.Spell(rng, plain=rng.random() < .5).grammar(rules).encode() + b'\xfe' + (ins[0] if ins else '').encode())
    return out

def run(ctx):
    ctx.rule = 'a grammar and an input through grammar reading, parsing and printing; distinct by grammar, input and flags, and for the guided part by corpus entry with new coverage'
    ctx.assumptions = ['libxml2 itself is not instrumented', 'inputs up to 4000 characters for arbitrary grammars (parsing is cubic by design), up to 20000 where the grammar makes it linear', 'all parses asked only for inputs of up to 6 characters: their number is exponential by nature']
    ps = pairs(ctx, ctx.scale(8000, 200000)) + big(ctx, ctx.scale(48, 400))
    for lo in range(0, len(ps), 8000):
        part = ps[lo:lo + 8000]
        reqs = [request(ctx.rng, *p) for p in part]
        for p, q, r in zip(part, reqs, ctx.srv.run(reqs)):
            if isinstance(r, Crash): ctx.crash(r, q); continue
            ctx.case((p[0], p[1]), repr(p[0][:200]))
            a = [x for x in r['r'] if isinstance(x, dict) and 'ok' in x]
            ctx.count('grammar-accepted' if a and a[0]['ok'] else 'grammar-refused')
            for x in a[1:]: ctx.count('input-accepted' if x['ok'] else 'input-refused')
            ctx.count(p[2])
    fuzz.run(ctx, 4, seeds(ctx.rng, 300, samples()), ctx.scale(60000, 3000000), max_len=900)

def replay(rp): fuzz.replay(rp)
