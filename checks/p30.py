"""Threads with documents of their own, under a race detector; each thread must get what it gets when run alone."""
import os, subprocess, tempfile, json
from wk import *
import p29

def tsan_run(binary, reqs, threads, seed, wall=300):
    """(responses, info, reports, rc)"""
    d = tempfile.mkdtemp(dir=tmpdir())
    try:
        os.mkdir(d + '/s')
        with open(d + '/req', 'wb') as f:
            for r in reqs: f.write(enc_req(r))
        e = env(); e.update(XH_SCRATCH=d + '/s', XH_THREADS=str(threads), XH_SEED=str(seed),
                            TSAN_OPTIONS='halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:report_bugs=1')
        with open(d + '/err', 'wb') as ef:
            try: rc = subprocess.run(['setarch', '-R', binary, d + '/req', d + '/resp', '100000'], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, cwd=d, timeout=wall).returncode
            except subprocess.TimeoutExpired: rc = 'wall'
        res = [json.loads(l.decode('ascii')) for l in open(d + '/resp', 'rb').read().split(b'\n')[:-1]] if os.path.exists(d + '/resp') else []
        err = open(d + '/err', 'rb').read()[-400000:].decode(errors='replace')
        return res, err, rc
    finally: shutil.rmtree(d, ignore_errors=True)

def reports(err):
    """Race reports that involve the library: {key: text}."""
    out = {}
    for m in re.finditer(r'WARNING: ThreadSanitizer: (.*?) \(pid.*?\n(.*?)(?=\n==================)', err, re.S):
        fr = re.findall(r'#\d+ (\S+) (\S+?):\d+', m.group(2))
        loc = re.search(r"Location is global '([^']*)'", m.group(2))
        fs = []
        for f, src in fr:
            if '/src/main/c/' in src or '/parts/' in src:
                if f not in fs: fs.append(f)
        if loc and not fs: fs = [loc.group(1)]
        out['race:' + m.group(1) + ':' + (loc.group(1) if loc else '<'.join(fs[:3]))] = m.group(0)
    return out

def run(ctx):
    ctx.rule = 'a schedule: the order in which the operations of all threads started; distinct by that order; non-trivial if operations of different threads alternate'
    rng = ctx.rng; pool = xmq_pool()
    b = build.build_extra('xh', build.TSAN, extra=['-DHAVE_THREADS'])
    for rnd in range(ctx.scale(40, 600)):
        n = rng.choice([160, 320, 480]); threads = rng.choice([2, 4, 8, 8, 16])
        if rng.random() < 0.4:
            # The same operations in all threads at the same time.
            ops = [p29.operation(rng, pool, 0, True) for _ in range(n // threads)]
            reqs = [q for q in ops for _ in range(threads)]
        else: reqs = ops = [p29.operation(rng, pool, 0, True) for _ in range(n)]
        alone = ctx.srv.run(ops)
        exp = [r for r in alone for _ in range(len(reqs) // len(ops))]
        ok = [i for i in range(len(reqs)) if not isinstance(exp[i], Crash)]
        reqs = [reqs[i] for i in ok]; exp = [unsaid(exp[i]['r']) for i in ok]
        res, err, rc = tsan_run(b, reqs, threads, ctx.seed * 1000 + rnd)
        for k, t in reports(err).items(): ctx.violation(k, t[:3000], {'requests': [jreq(q) for q in reqs], 'threads': threads})
        if rc == 'wall': ctx.inconclusive['wall-clock'] = ctx.inconclusive.get('wall-clock', 0) + 1; continue
        if len(res) != len(reqs) + 1:
            ctx.violation('died:%s' % (crash_key(err) or rc), err[-3000:], {'requests': [jreq(q) for q in reqs], 'threads': threads}); continue
        info = res.pop()
        ctx.count('switches', info['switches']); ctx.count('operations', info['actions']); ctx.count('threads-%d' % threads); ctx.extra.setdefault('schedules', []).append(info['order'])
        ctx.case(info['order'] if info['switches'] > threads else None, '%d threads, %d operations, %d switches between threads' % (threads, info['actions'], info['switches']), k=len(reqs))
        for q, r, e in zip(reqs, res, exp):
            o = unsaid(r['r'])
            if o != e:
                i = [i for i in range(len(e)) if o[i] != e[i]][0]
                ctx.violation('differs:%s' % (q[i][0],), 'in a thread step %.300r gives %.300r, alone %.300r' % (q[i], o[i], e[i]), {'requests': [jreq(q) for q in reqs], 'threads': threads})

from p29 import plain
def unsaid(x):
    """Without what went to standard error, which is one for all threads."""
    x = plain(x)
    for y in x:
        if isinstance(y, dict): y.pop('said', None)
    return x

def replay(rp):
    b = build.build_extra('xh', build.TSAN, extra=['-DHAVE_THREADS'])
    for s in range(5):
        res, err, rc = tsan_run(b, [unjreq(q) for q in rp['requests']], rp['threads'], s)
        print('rc', rc); print('\n'.join(list(reports(err).values()))[:3000])
