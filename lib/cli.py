"""Runs the instrumented command line tool in scratch folders and watches what it does."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import build
from drv import tmpdir, env, crash_key, Crash, NCPU, HarnessError

class Res:
    __slots__ = ('rc', 'out', 'err', 'crash', 'files')
    def __repr__(self): return 'rc=%s out=%.300r err=%.300r crash=%s' % (self.rc, self.out, self.err, self.crash)

def run1(job):
    """job: dict(args, files={name: bytes}, stdin=bytes|None|'closed'|'/path', stdout='/path'|None, env={}, keep=[names], timeout)"""
    d = tempfile.mkdtemp(dir=tmpdir())
    try:
        for n, b in (job.get('files') or {}).items():
            os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
            with open(d + '/' + n, 'wb') as f: f.write(b)
        e = env(0xbe, dict(job.get('env') or {}))
        e['TMPDIR'] = d; e['HOME'] = d
        sin = job.get('stdin'); kw = {}
        if sin is None: kw['stdin'] = subprocess.DEVNULL
        elif isinstance(sin, bytes): kw['input'] = sin
        outf = job.get('stdout')
        fh = open(outf, 'wb') if outf else subprocess.PIPE
        r = Res(); r.crash = None; r.files = {}
        pre = None
        if job.get('preexec'): pre = job['preexec']
        try:
            for attempt in (1, 2):
                try:
                    p = subprocess.run([job.get('exe') or build.build_cli()] + job['args'], cwd=d, env=e, stdout=fh, stderr=subprocess.PIPE, timeout=job.get('timeout', 60) * attempt, preexec_fn=pre, **kw)
                    r.rc, r.out, r.err = p.returncode, p.stdout or b'', p.stderr
                    break
                except subprocess.TimeoutExpired as ex:
                    r.rc, r.out, r.err = 'timeout', ex.stdout or b'', ex.stderr or b''
            if r.rc == 'timeout': r.crash = Crash('hang', 'hang', '')
            elif r.rc == 99 or r.rc in (-6, -11, -8, -4, -7, 134, 139) or b'ERROR: AddressSanitizer' in r.err or re.search(rb':\d+:\d+: runtime error:', r.err):
                t = r.err.decode(errors='replace')
                r.crash = Crash('crash', crash_key(t) or 'died:%s' % r.rc, t)
        finally:
            if outf: fh.close()
        for n in job.get('keep', ()):
            try:
                with open(d + '/' + n, 'rb') as f: r.files[n] = f.read()
            except OSError: r.files[n] = None
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(jobs):
    build.build_cli()
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(run1, jobs))

def jjob(job):
    j = {'args': job['args'], 'stdin': None if job.get('stdin') is None else job['stdin'].decode('latin-1')}
    j['files'] = {n: b.decode('latin-1') for n, b in (job.get('files') or {}).items()}
    return {'cli': j}
