"""Acceptance by a grammar driven parse against the language of the grammar."""
import unicodedata, re
from ixck import *

AT = re.compile(r'^ixml:(\d+):(\d+): syntax error', re.M)
def position(t, k):
    """Line and column of character k as text."""
    return str(t.count('\n', 0, k) + 1), str(k - t.rfind('\n', 0, k))

def run(ctx):
    ctx.rule = 'a grammar and an input parsed by the library and by the reference parser; distinct by grammar and input; non-trivial if the grammar is not a single literal'
    ctx.assumptions = ['grammars where a nonterminal derives itself may be refused as such', 'every used rule is defined']
    cs = list(cases(ctx, ctx.scale(1400, 60000), 8, loops=True)) + list(cases(ctx, ctx.scale(250, 15000), 8, True, loops=True))
    reqs = [request(gt, ins) for _, gt, _, ins in cs]
    for (rules, gt, p, ins), q, r in zip(cs, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        rs = r['r']
        if not rs[0]['ok']:
            ctx.violation('grammar-rejected', 'grammar rejected: %.300r: %r' % (rs[0]['err'], gt[:600]), {'request': jreq(q[:1])}); continue
        for f in features(rules): ctx.count(f)
        rr = [x for x, a in zip(rs, q) if a[0] == 'ixml']
        for t, v in zip(ins, rr):
            rp = {'request': jreq(request(gt, [t]))}; said = v['said'] or ''
            if 'grammar with loops' in said:
                ctx.case(gt + '\0' + t, '%.500r %r' % (gt, t)); ctx.count('refused-for-its-loops')
                if not p.loops or v['ok']: ctx.violation('loops', 'grammar said to have loops: %.800r (%.200r)' % (gt, said), rp)
                continue
            at, whole = p.prefix(t)
            ctx.case(gt + '\0' + t, '%.500r %r' % (gt, t))
            ctx.count('accepted' if whole else 'refused')
            if p.loops: ctx.count('parsed-with-loops')
            if whole != v['ok']:
                ctx.violation('accepts' if v['ok'] else 'refuses', 'text %r %s the language, library says %s (%.200r): %.800r' % (t, 'is in' if whole else 'is not in', v['ok'], said, gt), rp)
            elif not whole:
                m = AT.search(said)
                if not m: ctx.violation('unexplained', 'text %r refused without a position (%.200r): %.800r' % (t, said, gt), rp); continue
                if not all(p.productive): ctx.count('position-not-judged'); continue
                ctx.count('positions')
                if (m[1], m[2]) != position(t, at):
                    ctx.violation('position', 'text %r stops being possible at %s:%s, library says %s:%s: %.800r' % ((t,) + position(t, at) + (m[1], m[2], gt)), rp)
    classes(ctx)

def members(c):
    # 0295 and 1171E have different classes in different versions of Unicode, unassigned ones get assigned.
    return [ch for ch in map(chr, range(1, 0x110000)) if unicodedata.category(ch) == c and ord(ch) not in (0x295, 0x1171e)]

def classes(ctx):
    """Every character class: its members are taken, the members of the others are not."""
    rng = ctx.rng
    cats = ['Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Mn', 'Mc', 'Me', 'Nd', 'Nl', 'No', 'Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'Sm', 'Sc', 'Sk', 'So', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Co']
    mem = {c: members(c) for c in cats}
    groups = {c: [c] for c in cats}
    groups['LC'] = ['Lu', 'Ll', 'Lt']
    for c in 'LMNPSZC': groups[c] = [x for x in cats if x[0] == c]
    todo = []
    for name, parts in groups.items():
        ins = [ch for p in parts for ch in mem[p]]; pool = set(parts)
        rest = [c for c in cats if c not in pool]
        k = ctx.scale(1500, 60000)
        pick = ins if len(ins) <= k else rng.sample(ins, k)
        for i in range(0, len(pick), 300): todo.append(('s=[%s]*.' % name, ''.join(pick[i:i+300]), True))
        for ch in rng.sample(ins, min(len(ins), 3)): todo.append(('s=~[%s]*.' % name, ch, False))
        for _ in range(ctx.scale(12, 400)):
            ch = rng.choice(mem[rng.choice(rest)]); ok = rng.choice(ins)
            todo.append(('s=[%s]*.' % name, ok + ch, False)); todo.append(('s=~[%s]*.' % name, ch, True))
        # neighbours of members are where a table goes wrong
        near = [chr(ord(ch) + d) for ch in rng.sample(ins, min(len(ins), ctx.scale(20, 400))) for d in (-1, 1) if 0 < ord(ch) + d < 0x110000]
        for ch in near:
            k = unicodedata.category(ch)
            if k in ('Cn', 'Cs') or ord(ch) in (0x295, 0x1171e): continue
            todo.append(('s=[%s].' % name, ch, k in pool))
    reqs = [request(g, [t]) for g, t, _ in todo]
    for (g, t, want), q, r in zip(todo, reqs, ctx.srv.run(reqs)):
        if ctx.bad(r, q): continue
        ctx.case(g + '\0' + t, '%s %.80r' % (g, t)); ctx.count('class-in' if want else 'class-out')
        if not r['r'][0]['ok']:
            ctx.violation('class-rejected', 'grammar rejected: %.200r: %s' % (r['r'][0]['err'], g), {'request': jreq(q)}); continue
        if r['r'][1]['ok'] != want:
            ctx.violation('class', 'text %.60r %s %s, library says %s' % (t, 'matches' if want else 'does not match', g, r['r'][1]['ok']), {'request': jreq(q)})
