"""Quoting functions: the compact quote reads back as the text, C quoting is inverted by C unquoting."""
from wk import *
import cli

HARD = [b"'", b"''", b"'''", b'\n', b'\r', b'\r\n', b'\t', b' ', b'  ', b'\\', b'"', b'=', b'/', b'//', b'/*', b'&', b'&#10;', b'(', b')', b'{', b'}', b'\x01', b'\x1b', b'\x7f', b'x', b'a1', b'0', b'f',
        'å'.encode(), '\u00a0'.encode(), '\u200b'.encode(), '\U0001f600'.encode(), b'%s', b'\\n', b'\\x41', b'\\"', b'?', b'<', b'#', b'xx yy']
BROKEN = [b'\xff', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\x80', b'\xc0\x80']

def texts(rng, n, broken):
    yield b''
    for h in HARD: yield h
    pool = HARD + (BROKEN if broken else [])
    for i in range(n):
        r = i % 4
        if r == 0: yield gen.text(rng).encode('latin-1')
        elif r == 1: yield b''.join(rng.choice(pool) for _ in range(rng.randint(1, 6)))
        elif r == 2: yield b''.join(rng.choice(pool) for _ in range(rng.choice([2, 12, 40, 300])))
        else: yield bytes(rng.choice(b" '\n\"\\=&ab") for _ in range(rng.randint(1, 9)))

def unc(b):
    """Independent reading of a C string literal."""
    if len(b) < 2 or b[:1] != b'"' or b[-1:] != b'"': return None
    out = bytearray(); i = 1; n = len(b) - 1
    esc = {ord('n'): 10, ord('a'): 7, ord('b'): 8, ord('t'): 9, ord('v'): 11, ord('f'): 12, ord('r'): 13, ord('"'): 34, ord('\\'): 92}
    while i < n:
        c = b[i]
        if c == 92:
            i += 1
            if i >= n: return None
            if b[i] == ord('x'):
                try: out.append(int(b[i+1:i+3], 16))
                except ValueError: return None
                i += 3; continue
            if b[i] not in esc: return None
            out.append(esc[b[i]]); i += 1
        elif c == 34 or c < 32: return None
        else: out.append(c); i += 1
    return bytes(out)

def run(ctx):
    ctx.rule = 'a text quoted and read back; distinct by text; non-trivial if it needs quoting'
    ctx.assumptions = ['no NUL byte', 'the compact quote is given valid UTF-8']
    ts = [t for t in texts(ctx.rng, ctx.scale(20000, 400000), False) if b'\0' not in t]
    ok = []
    for t in ts:
        try: t.decode('utf-8'); ok.append(t)
        except UnicodeDecodeError: pass
    reqs = [[('quote', t)] for t in ok]
    second = []
    for t, req, r in zip(ok, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, req): continue
        q = lat(r['r'][0])
        if q is None: ctx.violation('null', repr(t), {'request': jreq(req)}); continue
        if b'\n' in q or b'\r' in q: ctx.violation('lines', '%r -> %r' % (t, q), {'request': jreq(req)})
        second.append((t, q))
    for pre, post, get in ((b'a=', b'', 'e'), (b'a(k=', b')', 'a'), (b'x{a=', b' b=1}', 'c')):
        reqs = [[('parse', 'd', XMQ, 0, '', 'z', pre + q + post), ('dump', 'd')] for t, q in second]
        for (t, q), req, r in zip(second, reqs, ctx.srv.run(reqs)):
            if ctx.bad(r, req): continue
            ctx.case(t if q != t else None, '%r -> %r' % (t, q)); ctx.count('read-back-' + get)
            rep = {'request': jreq(req)}
            if not r['r'][0]['ok']: ctx.violation('unreadable:%s' % r['r'][0]['errno'], '%r -> %r %s' % (t, q, r['r'][0]['err']), rep); continue
            try:
                d = ref.norm_dump(r['r'][1])
                el = d[0] if get != 'c' else d[0][6][0]
                v = el[6] if get != 'a' else el[5][0][3]
                v = b''.join((x[1] if x[0] == 't' else '?').encode('latin-1') for x in v)
            except (IndexError, TypeError) as ex: v = repr(ex).encode()
            if v != t: ctx.violation('value:' + get, '%r -> %r -> %r' % (t, q, v), rep)
            tree, rej = ref_parse(pre + q + post)
            if rej is not None and rej != 'deep': ctx.violation('invalid', '%r -> %r %s' % (t, q, rej), rep)
            elif tree is not None and ref.norm_ref(tree) != d: ctx.violation('model', '%r -> %r %s' % (t, q, ref.first_diff(ref.norm_ref(tree), d)), rep)
    # C quoting through the command line tool
    ts = [t for t in texts(ctx.rng, ctx.scale(300, 6000), True) if b'\0' not in t]
    jobs = []
    for t in ts:
        jobs.append({'args': ['--text', 'f', 'quote-c', 'to-text'], 'files': {'f': t}})
        jobs.append({'args': ['--text', 'f', 'quote-c', 'unquote-c', 'to-text'], 'files': {'f': t}})
    rs = cli.run(jobs)
    for k, t in enumerate(ts):
        q, u = rs[2 * k], rs[2 * k + 1]
        for r, j in ((q, jobs[2 * k]), (u, jobs[2 * k + 1])):
            if r.crash: ctx.violation('c:' + r.crash.key, r.crash.text[-1000:], cli.jjob(j))
        if q.crash or u.crash: continue
        ctx.case(b'c' + t, 'C %r -> %r' % (t, q.out)); ctx.count('c-quoted')
        if t == b'' : continue
        if q.rc != 0 or unc(q.out) != t: ctx.violation('c-quote', '%r -> %r' % (t, q), cli.jjob(jobs[2 * k]))
        if u.rc != 0 or u.out != t: ctx.violation('c-unquote', '%r -> %r' % (t, u), cli.jjob(jobs[2 * k + 1]))
