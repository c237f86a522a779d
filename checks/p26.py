"""For-each: the values that reach the shell against the text of the named nodes."""
from wk import *
import xpath, cmds, cli
NAMES = ['a', 'b', 'c-d', 'c_d', 'c.d', 'item', 'x-y.z', 'E']
HOST = ['$(touch pwned)', '`touch pwned`', '"; touch pwned; "', "'; touch pwned; '", '; touch pwned', '| touch pwned', '&& touch pwned', '\n touch pwned\n', '${HOME}', '$HOME', '$$', '*', '~', '?', '[a-z]*', '\\', '\\n', '\\0', '\\$', '"', "'", '%s%n', '-n', '--', '!', '{a,b}', '$((1+1))', '<(x)', '> pwned', '>pwned', '#', '=', 'a=b', '\t', '  two  spaces  ', '\nlead', 'trail\n', 'trail\n\n', 'EOF', 'E_O_F\n', '\x7f', '${a}', '${b:-x}', '$1', '$@', '"$(touch pwned)"', "'$(touch pwned)'", '\\$(touch pwned)', '$\\(', '"\\"', gen.u('å$(touch pwned)é'), 'a\rb', '() { :;}; touch pwned', '$(', '`', '${', '"$', '\\"$(touch pwned)']

def value(rng):
    r = rng.random()
    if r < 0.5: return rng.choice(HOST)
    if r < 0.8: return ''.join(rng.choice(HOST + [gen.word(rng)]) for _ in range(rng.randint(1, 4)))
    return gen.text(rng)
class D(gen.Doc):
    def name(self): return self.rng.choice(NAMES)
    def comment(self): return 'k'

def alltext(n):
    if n.k == 't': return n.text
    if n.k == 'r': return cmds.decode(n.name) if cmds.decode(n.name) is not None else '\xc2\xa0' if n.name == 'nbsp' else '&%s;' % n.name
    return ''.join(alltext(k) for k in n.kids) if n.k == 'e' else ''
def named(n, name):
    if name == '..': return n.name
    if name == '.': return alltext(n)
    return ''.join(alltext(k) for c in n.kids if c.k == 'e' and c.name == name for k in c.kids if k.k != 'e')

def command(rng, names):
    """A shell command that shows the values, each ended by a zero byte."""
    o = []
    use = [rng.choice((names or NAMES) * 3 + ['.', '..'] + NAMES[:2]) for _ in range(rng.randint(1, 4))]
    for i, n in enumerate(use):
        v = '${%s}' % n; r = rng.random()
        if r < 0.5: o.append("printf '%%s\\0' \"%s\"" % v)
        elif r < 0.65: o.append("v%d=%s; printf '%%s\\0' \"$v%d\"" % (i, v, i))
        elif r < 0.75: o.append("printf '%%s%%s%%s\\0' '' \"%s\" ''" % v)
        elif r < 0.85: o.append("f() { printf '%%s\\0' \"$1\"; }; f \"%s\"" % v)
        elif r < 0.93: o.append("case \"%s\" in *) printf '%%s\\0' \"%s\";; esac" % (v, v))
        else: o.append("for q in \"%s\"; do printf '%%s\\0' \"$q\"; done" % v)
    return use, '; '.join(o) + "; printf '\\1\\n'"

def run(ctx):
    ctx.rule = 'a document, a path and a command; distinct by all; non-trivial if a value with a character that is special to the shell was delivered'
    ctx.assumptions = ['values shorter than the environment allows', 'names the shell itself keeps (IFS, PWD, PPID, OPTIND) are not used']
    rng = ctx.rng; jobs = []; meta = []
    while len(jobs) < ctx.scale(5000, 60000):
        ents = rng.random() < 0.5
        g = D(rng, ns=rng.random() < 0.1, ents=ents, doctype=False, text=lambda r, **kw: value(r), size=rng.choice([4, 10, 20]), multi=False)
        old = gen.ENTS[:]; gen.ENTS[:] = ['amp', 'lt', 'gt', 'quot', 'apos', 'nbsp']
        try: t = gen.spell(rng, g.doc())
        finally: gen.ENTS[:] = old
        p = ref_parse(t)
        if p[0] is None: ctx.count('not-made'); continue
        d = cmds.tree(p[0])
        for _ in range(6):
            tx, ev = xpath.random(rng, NAMES, NAMES, ['x'], True, 2)
            if any(tt in ('text()', 'node()') and ps for _, tt, ps in ev.path) or any(p[0] == 'eq' for _, _, ps in ev.path for p in ps): continue
            sel = ev(d)
            if sel: break
        else: tx = '//*'; sel = xpath.steps(d, [('descendant', '*', [])])
        el = []
        for n in sel:
            while n is not None and n.k != 'e': n = n.up
            if n is not None: el.append(n)
        use, cmd = command(rng, [c.name for n in el for c in n.kids if c.k == 'e'])
        want = b''.join(b''.join(named(n, u).encode('latin-1') + b'\0' for u in use) + b'\1\n' for n in el)
        if len(want) > 60000: continue
        jobs.append({'args': ['in.xmq', 'for-each', tx, '--shell=' + cmd], 'files': {'in.xmq': t}, 'keep': ['pwned'], 'env': {'c_d': 'outside', 'a': 'outside'} if rng.random() < 0.3 else {}})
        meta.append((t, tx, cmd, want, len(el)))
    # A value that does not fit: its command can not run, the others run once.
    for big in (140000, 300000):
        t = b'r{i{v=' + b'x' * big + b'}i{v=ok}i{v=ok2}}'
        jobs.append({'args': ['in.xmq', 'for-each', '/r/i', "--shell=printf '%s\\0' \"${v}\""], 'files': {'in.xmq': t}, 'keep': ['pwned']}); meta.append((t[:50], '/r/i', 'big', b'ok\0ok2\0', 3))
    for job, (t, tx, cmd, want, k), r in zip(jobs, meta, cli.run(jobs)):
        rp = cli.jjob(job)
        if r.crash: ctx.crash(r.crash, [('cli', str(job['args']))], 'cli'); continue
        ctx.case(repr((t, tx, cmd)) if re.search(rb'[$`\\"\';&|<>*?~# \n\t]', want.replace(b'\1\n', b'')) else None, '%s %s on %.300r' % (tx, cmd, t))
        ctx.count('commands-run', k); ctx.count('values', want.count(b'\0')); ctx.count('value-bytes', len(want))
        if r.files.get('pwned') is not None: ctx.violation('executed', 'a value was executed: %s on %r' % (job['args'], t), rp)
        if r.rc != 0: ctx.violation('exit', 'exit %s: %s %s on %r' % (r.rc, r.err[-300:], job['args'], t), rp); continue
        if r.out != want:
            i = next((i for i in range(min(len(want), len(r.out))) if want[i] != r.out[i]), min(len(want), len(r.out)))
            ctx.violation('value:' + ('times' if want.count(b'\1') != r.out.count(b'\1') else 'content'), 'got %r, should be %r at %d: %s on %r' % (r.out[max(0, i - 20):i + 60], want[max(0, i - 20):i + 60], i, job['args'], t), rp)
