"""The tool's exit code, messages and output under faults."""
from wk import *
import cli, ht, signal, resource, tempfile, shutil, os
from drv import tmpdir
ODD = ['%s%n', '%d', 'a b', "q'q", '$x', '`x`', gen.u('å€'), '%', '\\n', '*', '"', '%1$s']
TO = [['to-xmq'], ['to-xmq', '--compact'], ['to-xml'], ['to-html'], ['to-htmq'], ['to-json'], ['to-text'], ['to-clines'], ['render-terminal'], ['render-terminal', '--color'], ['render-html'], ['render-tex'], ['statistics', 'to-xmq'], []]
XSD = b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="n" type="xs:integer"/></xs:schema>'
XSLT = b'<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"><xsl:template match="/"><o><xsl:copy-of select="."/></o></xsl:template></xsl:stylesheet>'
STOP = XSLT.replace(b'<o>', b'<xsl:message terminate="yes">stop</xsl:message><o>')

def doc(rng): return gen.spell(rng, gen.Doc(rng, doctype=False, size=rng.choice([3, 10, 40])).doc())
def broken(rng):
    """(name, option, text, text the message must show)"""
    k = rng.randrange(4)
    if k == 0:
        for _ in range(30):
            t = gen.mutate(rng, doc(rng)).replace(b'\0', b'')
            tree, e = ref_parse(t)
            if tree is None and e != 'deep': return 'bad.xmq', '--xmq', t, b'bad.xmq:'
        return 'bad.xmq', '--xmq', b'a=(', b'bad.xmq:'
    if k == 1:
        w = rng.choice(ODD).encode('latin-1'); w = w.replace(b"'", b'')
        return 'bad.xmq', '--xmq', rng.choice([b'', b'b=1\n', b'x\n\n']) + b'a = ( ' + w + b' )', b'a = ( ' + w
    if k == 2:
        return 'bad.json', '--json', b'{"a":[1,2,{"b":"' + gen.word(rng).encode() + rng.choice([b'"}', b'', b'"}]', b'"}]} }', b'"}]}%s']), b''
    return 'bad.xml', '--xml', b'<a><b>' + gen.word(rng).encode() + rng.choice([b'</a>', b'', b'</b>', b'</b></a><', b'</b></a></c>', b'&;</b></a>']), b''

def scenario(rng, k):
    """dict(args, ..., fail: None|'any'|bytes which the message must show, target: name of the file that must not appear)"""
    t = doc(rng); files = {'in.xmq': t}; to = list(rng.choice(TO)); ed = []
    if rng.random() < 0.3: ed = rng.choice([['add', 'z=1'], ['delete', '//a'], ['add-root', 'r'], ['select', '//b'], ['delete-entity', 'x'], ['replace-entity', 'x', 'y'], ['substitute-char-entities']])
    src = rng.choice(['file', 'file', 'stdin', 'arg'])
    j = {'files': files}
    odd = rng.choice(ODD).encode('latin-1')
    def inp(name, opt=None):
        o = [opt] if opt else ['--xmq']
        if src == 'stdin': j['stdin'] = files[name]; return o + ['-']
        if src == 'arg' and files[name] and files[name][:1] != b'-' and len(files[name]) < 50000: return o + ['-i', files[name]]
        return o + [name]
    save = rng.random() < 0.4
    out = ['save-to', 'out'] if save else []
    kinds = ['ok', 'ok', 'broken', 'broken', 'missing', 'dir', 'full', 'save-full', 'save-nodir', 'save-dir', 'limit', 'save-limit', 'closed-out', 'closed-in', 'xpath', 'add', 'text-file', 'with-file', 'xslt-missing', 'xslt-bad', 'xslt-stop', 'xslt-ok', 'xsd-missing', 'xsd-bad', 'xsd-ok', 'xsd-fail', 'args', 'unknown-cmd', 'unknown-opt', 'unknown-opt2', 'pipe', 'empty', 'read-error', 'second', 'two-to', 'help', 'no-output']
    kind = kinds[k % len(kinds)]; j['kind'] = kind; j['fail'] = None; j['keep'] = ['out']
    if kind == 'ok': j['args'] = inp('in.xmq') + ed + to + out; j['same'] = True
    elif kind == 'broken':
        n, o, b, msg = broken(rng); files[n] = b
        if src != 'file' and msg.startswith(b'bad.xmq'): msg = b''
        j['args'] = inp(n, o) + ed + to + out; j['fail'] = msg
    elif kind == 'missing': n = b'no-' + odd; j['args'] = [n] + ed + to + out; j['fail'] = n
    elif kind == 'dir': files['dir/x'] = b''; j['args'] = ['dir'] + ed + to + out; j['fail'] = b'dir'
    elif kind == 'full': j['args'] = inp('in.xmq') + ['to-xml']; j['stdout'] = '/dev/full'; j['fail'] = b''
    elif kind == 'save-full': j['args'] = inp('in.xmq') + ['to-xml', 'save-to', '/dev/full']; j['fail'] = b'/dev/full'
    elif kind == 'save-nodir': n = b'no-' + odd + b'/x'; j['args'] = inp('in.xmq') + to + ['save-to', n]; j['fail'] = n
    elif kind == 'save-dir': files['dir/x'] = b''; j['args'] = inp('in.xmq') + to + ['save-to', 'dir']; j['fail'] = b'dir'
    elif kind in ('limit', 'save-limit'):
        lim = rng.choice([1, 10, 512, 4096, 4097, 8192, 20000]); files['in.xmq'] = b'r{' + b' '.join(b"a='%s'" % gen.word(rng).encode() for _ in range(lim // 8 + 30)) + b'}'
        src = 'file'
        def pre(lim=lim):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        j['preexec'] = pre; j['limit'] = lim
        j['args'] = ['in.xmq', 'to-xml'] + (['save-to', 'out'] if kind == 'save-limit' else []); j['fail'] = b''
        if kind == 'limit': j['outname'] = True
        j['partial'] = True
    elif kind == 'closed-out':
        j['args'] = ['in.xmq', 'to-xml']; j['preexec'] = lambda: os.close(1); j['fail'] = b''
    elif kind == 'closed-in':
        j['args'] = ['-'] + to + out; j['preexec'] = lambda: os.close(0); j['fail'] = b''
    elif kind == 'xpath': x = rng.choice([b'//a[', b'(', b'a b', b'//' + odd + b'(', b']', b'$x', b'q:a']); j['args'] = inp('in.xmq') + [rng.choice(['select', 'delete', 'for-each']), x]; j['fail'] = x; j['args'] += ['--shell=echo never'] if j['args'][-2] == 'for-each' else to + out
    elif kind == 'add': x = b'a=(' + odd.replace(b"'", b''); j['args'] = inp('in.xmq') + ['add', x] + to + out; j['fail'] = x
    elif kind == 'text-file': n = b'no-' + odd; j['args'] = inp('in.xmq') + ['replace-entity', 'e', rng.choice([b'--with-text-file=', b'--with-file=']) + n] + to + out; j['fail'] = n
    elif kind == 'with-file': n, o, b, msg = broken(rng); n, b = ('bad.xmq', b) if n == 'bad.xmq' else ('bad.xml', b'<a>'); files[n] = b; j['args'] = inp('in.xmq') + ['replace-entity', 'e', '--with-file=' + n] + to + out; j['fail'] = b''
    elif kind == 'xslt-missing': n = b'no-' + odd; j['args'] = inp('in.xmq') + ['transform', n] + to + out; j['fail'] = n
    elif kind == 'xslt-bad': files['s.xslt'] = rng.choice([b'<a/>', b'<x', XSLT.replace(b'</o>', b''), XSLT.replace(b'select="."', b'select="//["'), b'', XSLT.replace(b'copy-of', b'coppy-of').replace(b'/><', b'><')]); j['args'] = inp('in.xmq') + ['transform', 's.xslt'] + to + out; j['fail'] = b''
    elif kind == 'xslt-stop': files['s.xslt'] = STOP; files['in.xmq'] = b'n=5'; src = 'file'; j['args'] = inp('in.xmq') + ['transform', 's.xslt'] + to + out; j['fail'] = b'stop'
    elif kind == 'xslt-ok': files['s.xslt'] = XSLT; files['in.xmq'] = b'n=5'; src = 'file'; j['args'] = inp('in.xmq') + ['transform', 's.xslt', 'to-xml'] + out; j['same'] = True
    elif kind == 'xsd-missing': n = b'no-' + odd; j['args'] = inp('in.xmq') + ['validate', n] + to + out; j['fail'] = n
    elif kind == 'xsd-bad': files['s.xsd'] = rng.choice([b'<a/>', b'<x', XSD.replace(b'xs:integer', b'xs:nothing'), b'', XSD[:-5]]); j['args'] = inp('in.xmq') + ['validate', 's.xsd'] + to + out; j['fail'] = b''
    elif kind in ('xsd-ok', 'xsd-fail'):
        files['s.xsd'] = XSD; files['in.xmq'] = b'n=5' if kind == 'xsd-ok' else rng.choice([b'n=x', b'm=5', b'n(a=1)=5', b'n{m=5}', b"n='%s%n'"]); src = 'file'
        quiet = rng.random() < 0.3
        j['args'] = inp('in.xmq') + ['validate'] + (['--silent'] if quiet else []) + ['s.xsd'] + to + out
        if kind == 'xsd-fail': j['fail'] = b''; j['silent'] = quiet; j['verdict'] = True
        else: j['same'] = True
    elif kind == 'args': j['args'] = inp('in.xmq') + rng.choice([['select'], ['delete'], ['add'], ['add-root'], ['for-each'], ['for-each', '//a'], ['replace-entity'], ['replace-entity', 'x'], ['delete-entity'], ['substitute-entity'], ['transform'], ['validate'], ['to-xmq', 'save-to']]); j['fail'] = b''
    elif kind == 'unknown-cmd': n = b'zz-' + odd; j['args'] = inp('in.xmq') + [n] + to + out; j['fail'] = n
    elif kind == 'unknown-opt': n = b'--zz-' + odd; j['args'] = [n] + inp('in.xmq') + to + out; j['fail'] = n
    elif kind == 'unknown-opt2': n = b'--zz-' + odd; j['args'] = inp('in.xmq') + ['to-xml', n] + out; j['fail'] = n
    elif kind == 'pipe': j['args'] = inp('in.xmq') + ['select', '//a', 'delete', '//b'] + to + out; j['same'] = True
    elif kind == 'empty': files['in.xmq'] = rng.choice([b'', b' \n', b'// only\n']); src = 'file'; j['args'] = inp('in.xmq') + to + out; j['same'] = True
    elif kind == 'read-error': j['args'] = ['/proc/self/mem'] + to + out; j['fail'] = b'/proc/self/mem'
    elif kind == 'second': n, o, b, msg = broken(rng); files[n] = b; j['args'] = inp('in.xmq') + ['load', n if n != 'bad.xmq' else 'no-such.xmq'] + to + out; j['fail'] = b''
    elif kind == 'two-to': j['args'] = inp('in.xmq') + ['to-xml', 'to-json'] + out; j['fail'] = b''
    elif kind == 'help': n = rng.choice(['select', 'delete', 'load', 'zz-%s']); j['args'] = ['help', n]; j['fail'] = None if n[0] != 'z' else b'zz-%s'; j['nosave'] = True; save = False
    else: j['args'] = inp('in.xmq') + ['no-output']; j['quietout'] = True; save = False
    j['save'] = save and out and j['args'][-2:] == out
    j['args'] = [a if isinstance(a, bytes) else a.encode('latin-1') for a in j['args']]
    if src != 'stdin' and kind != 'closed-in': j.setdefault('stdin', None)
    return j

def run(ctx):
    ctx.rule = 'a command line with its files and an input or output fault; distinct by the command line and files; non-trivial if something fails or output is delivered'
    ctx.assumptions = ['the verdict of a validation is reported on either stream (fixed by the project\'s tests)', 'being ended by a signal for a closed pipe counts as failure', 'read errors: directory, closed descriptor, /proc/self/mem; write errors: /dev/full, file size limit, closed descriptor, missing folder']
    rng = ctx.rng
    jobs = [scenario(rng, k) for k in range(ctx.scale(4000, 60000))]
    # What is delivered to a file and to the standard output is the same.
    twins = []
    for j in jobs:
        if j.get('same') and j['save']: twins.append(dict(j, args=j['args'][:-2]))
    base = tempfile.mkdtemp(dir=tmpdir())
    for i, j in enumerate(jobs):
        if j.get('outname'): j['stdout'] = '%s/%d' % (base, i)
    try:
        res = cli.run(jobs); tres = iter(cli.run(twins))
        for j, r in zip(jobs, res): judge(ctx, j, r, next(tres) if j.get('same') and j['save'] else None)
    finally: shutil.rmtree(base, ignore_errors=True)

def judge(ctx, j, r, tw):
    rp = cli.jjob(dict(j, args=[a.decode('latin-1') for a in j['args']])); kind = j['kind']
    what = '%s (files %.600r)' % (j['args'], j['files'])
    if r.crash: ctx.crash(r.crash, [('cli', str(j['args']))], 'cli:' + kind); return
    ctx.count(kind); ctx.case(repr((j['args'], j['files'], kind)), '%s: exit %s, message %.200r: %.300s' % (kind, r.rc, r.err, what))
    if j['fail'] is None:
        if r.rc != 0: ctx.violation(kind + ':failed', 'exit %s: %s: %s' % (r.rc, r.err[-500:], what), rp); return
        if j['save'] and r.files['out'] is None: ctx.violation(kind + ':not-saved', what, rp)
        if j['save'] and r.out: ctx.violation(kind + ':printed-and-saved', '%r %s' % (r.out, what), rp)
        if tw is not None and tw.out != r.files['out']: ctx.violation(kind + ':saved-differs', 'printed %r, saved %r: %s' % (tw.out, r.files['out'], what), rp)
        if tw is not None: ctx.count('output-bytes', len(tw.out))
        if j.get('quietout') and r.out: ctx.violation(kind + ':printed', '%r %s' % (r.out, what), rp)
        return
    ctx.count('faults')
    if r.rc == 0: ctx.violation(kind + ':exit-0', 'exit 0 (message %r, output %.200r): %s' % (r.err, r.out, what), rp)
    msg = r.err + (r.out if j.get('verdict') else b'')
    if not msg.strip() and not j.get('silent'): ctx.violation(kind + ':silent', 'exit %s without a message: %s' % (r.rc, what), rp)
    elif j['fail'] not in msg and not j.get('silent'): ctx.violation(kind + ':message', 'the message %r does not show %r: %s' % (msg, j['fail'], what), rp)
    if not j.get('verdict') and not j.get('partial') and not j.get('stdout') and r.out: ctx.violation(kind + ':output', 'output %r although it failed: %s' % (r.out, what), rp)
    if not j.get('partial') and r.files['out'] is not None: ctx.violation(kind + ':saved', 'saved %r although it failed: %s' % (r.files['out'], what), rp)
