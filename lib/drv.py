"""Driver: sends requests to instrumented processes, attributes crashes to requests, records evidence, reports."""
import os, sys, json, struct, subprocess, tempfile, shutil, re, time, random, hashlib, atexit, base64, threading, signal
from concurrent.futures import ThreadPoolExecutor
import build
VERIF = build.VERIF
NCPU = min(8, os.cpu_count() or 1)
XMQ, HTMQ, XML, HTML, JSON, IXML, TEXT, CLINES, DETECT = 2, 3, 4, 5, 6, 7, 8, 9, 1
TRIM_NONE, TRIM_HEUR, TRIM_EXACT, NOMERGE, ALL_PARSES = 1, 2, 4, 8, 16

ASAN = ('abort_on_error=0:exitcode=99:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:hard_rss_limit_mb=3000:'
        'max_allocation_size_mb=2048:detect_stack_use_after_return=1:strict_string_checks=0:malloc_fill_byte=%d:max_malloc_fill_size=4096:'
        'symbolize=1:print_legend=0:check_initialization_order=0:quarantine_size_mb=64')
UBSAN = 'print_stacktrace=1:halt_on_error=1:exitcode=99'

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='xmqv.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

# Instrumented stack frames are several times larger than normal ones.
import resource
try: resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
except (ValueError, OSError): pass
threading.stack_size(16 << 20)

class HarnessError(Exception): pass

def env(fill=0xbe, extra=None):
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8', 'TERM': 'xterm',
         'ASAN_OPTIONS': ASAN % fill, 'UBSAN_OPTIONS': UBSAN}
    if extra: e.update(extra)
    return e

def B(x):
    if isinstance(x, bytes): return x
    if isinstance(x, str): return x.encode('utf-8', 'surrogateescape')
    return str(int(x)).encode()

def enc_req(req):
    """req: list of actions, action: tuple of str/bytes/int."""
    out = [struct.pack('<I', len(req))]
    for a in req:
        out.append(struct.pack('<I', len(a)))
        for x in a:
            b = B(x); out.append(struct.pack('<I', len(b))); out.append(b)
    return b''.join(out)

LIB_FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)')
def crash_key(err):
    """Stable identification of a sanitizer report: kind and innermost library functions."""
    m = re.search(r'Assertion [`\'](.*?)\' failed', err)
    fr = []
    seen_stack = False
    for l in err.split('\n'):
        mm = LIB_FRAME.search(l)
        if mm:
            seen_stack = True
            if '/src/main/c/' in mm.group(2) or '/parts/' in mm.group(2) or 'xmq' in mm.group(2): fr.append(mm.group(1))
        elif seen_stack and l.strip() == '' : break
    fr = [f for f in fr if f not in ('run', 'main', 'act_parse', 'act_print', 'act_tok', 'act_ixml')][:3]
    fr = [re.sub(r'\.(constprop|isra|part|cold).*$', '', f) for f in fr]
    if m: return 'assert:' + m.group(1)[:60] + ':' + (fr[0] if fr else '?')
    m = re.search(r'ERROR: AddressSanitizer:? ([A-Za-z0-9_\- ]+?)( on| \(|:|\n| 0x|$)', err)
    if m:
        k = m.group(1).strip().replace(' ', '-')
        if k == 'stack-overflow': return 'asan:stack-overflow:' + (fr[0] if fr else '?')
        if 'ABRT' in k or k.startswith('ABRT'): return 'abort:' + '<'.join(fr)
        return 'asan:' + k + ':' + '<'.join(fr)
    m = re.search(r'runtime error: (.*)', err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+", 'N', m.group(1))
        return 'ubsan:' + t[:80] + ':' + '<'.join(fr)
    if 'hard rss limit' in err: return 'memory-limit'
    return None

class Crash:
    def __init__(self, kind, key, text): self.kind, self.key, self.text = kind, key, text
    def __repr__(self): return 'Crash(%s)' % self.key

class Server:
    """Runs requests in xh processes."""
    def __init__(self, binary=None, cpu=20, fill=0xbe, extra_env=None, wall=600):
        self.bin = binary or build.build_xh(); self.cpu = cpu; self.fill = fill; self.extra = extra_env; self.wall = wall
        self.executed = 0

    def _proc(self, reqs, cpu):
        """Runs a batch; returns list of responses (len <= len(reqs)) and, if it ended early, a Crash for the next one."""
        d = tempfile.mkdtemp(dir=tmpdir())
        try:
            os.mkdir(d + '/s')
            with open(d + '/req', 'wb') as f:
                for r in reqs: f.write(enc_req(r))
            e = env(self.fill, self.extra); e['XH_SCRATCH'] = d + '/s'
            with open(d + '/err', 'wb') as ef:
                try:
                    p = subprocess.run([self.bin, d + '/req', d + '/resp', str(cpu)], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, cwd=d + '/s', timeout=self.wall)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 'wall'
            res = []
            if os.path.exists(d + '/resp'):
                with open(d + '/resp', 'rb') as f:
                    for l in f.read().split(b'\n')[:-1]: res.append(json.loads(l.decode('ascii')))
            if rc == 0 and len(res) == len(reqs): return res, None
            with open(d + '/err', 'rb') as f: err = f.read()[-60000:].decode(errors='replace')
            if os.path.exists(d + '/cap'):   # died with its output captured
                with open(d + '/cap', 'rb') as f: err += f.read()[-60000:].decode(errors='replace')
            if rc == 95 or rc == 0: raise HarnessError('op server: rc=%s %s' % (rc, err[-2000:]))
            if rc == 'wall': return res, Crash('inconclusive', 'wall-clock', err[-2000:])
            if rc == 96: return res, Crash('exit', 'exit-called:' + err.strip()[-200:].split('\n')[0][:80], err)
            if rc == 97: return res, Crash('hang', 'hang', err)
            k = crash_key(err)
            if k is None:
                if isinstance(rc, int) and rc < 0: k = 'signal:%d' % -rc
                else: k = 'died:%s' % rc
                if rc == -9: return res, Crash('inconclusive', 'killed', err)
            return res, Crash('crash', k, err)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _batch(self, reqs):
        out = []
        while len(out) < len(reqs):
            res, crash = self._proc(reqs[len(out):], self.cpu)
            out += res
            if crash is None: break
            req = reqs[len(out)]
            # Attribute to the request: run it alone, with more time.
            res1, c1 = self._proc([req], self.cpu * 3 if crash.kind in ('hang', 'inconclusive') else self.cpu)
            if c1 is None:
                if crash.kind in ('hang', 'inconclusive'): out.append(res1[0])   # only slow
                else: crash.key = 'history:' + crash.key; out.append(crash)      # needs what ran before it
            else: out.append(c1)
            crash.batch = None
        self.executed += len(out)
        return out

    def run(self, reqs, batch=None):
        reqs = list(reqs)
        if not reqs: return []
        n = batch or max(1, min(400, (len(reqs) + NCPU - 1) // NCPU))
        chunks = [reqs[i:i + n] for i in range(0, len(reqs), n)]
        with ThreadPoolExecutor(NCPU) as ex:
            out = []
            for r in ex.map(self._batch, chunks): out += r
        return out

def jreq(req):
    """A request as JSON-able object for a replay file."""
    return [[B(x).decode('latin-1') for x in a] for a in req]
def unjreq(j): return [tuple(x.encode('latin-1') for x in a) for a in j]

def lat(s): return None if s is None else s.encode('latin-1')
def utf(s): return None if s is None else s.encode('latin-1').decode('utf-8', 'surrogateescape')

class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('%s/%d' % (pid, seed))
        self.t0 = time.time()
        self.viol = {}; self.known_seen = {}
        self.n = {}; self.distinct = set(); self.samples = []; self.evals = 0; self.inconclusive = {}
        self.rule = ''; self.assumptions = []; self.extra = {}
        kf = VERIF + '/known_findings.json'
        self.known = [k for k in (json.load(open(kf))['findings'] if os.path.exists(kf) else []) if k['property'] == pid]
        self.kmap = {k['key']: k for k in self.known}
        self._srv = None
        self.min_evals = 1; self.min_distinct = 2
    @property
    def srv(self):
        if self._srv is None: self._srv = Server()
        return self._srv
    @property
    def thorough(self): return self.tier == 'thorough'
    def scale(self, quick, thorough): return thorough if self.thorough else quick
    def count(self, name, k=1): self.n[name] = self.n.get(name, 0) + k
    def case(self, key=None, sample=None, k=1):
        """One evaluation by the oracle. key: what makes the case distinct (None: trivial)."""
        self.evals += k
        if key is not None:
            h = hashlib.blake2b(key if isinstance(key, bytes) else str(key).encode('utf-8', 'surrogateescape'), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and (len(self.samples) < 4 or (len(self.samples) < 12 and len(self.distinct) % 97 == 0)):
                    self.samples.append(sample if len(str(sample)) < 1500 else str(sample)[:1500])
    def violation(self, key, what, replay):
        key = key[:200]
        if key in self.kmap: self.known_seen.setdefault(key, what); return
        for k in self.known:
            if k.get('match') and re.search(k['match'], key): self.known_seen.setdefault(k['key'], what); return
        if key not in self.viol or len(str(what)) < len(str(self.viol[key][0])): self.viol[key] = (what, replay)
        self.count('violating_cases')
    def crash(self, c, req, where=''):
        """Routes a Crash: inconclusive ones are only counted."""
        if c.kind == 'inconclusive': self.inconclusive[c.key] = self.inconclusive.get(c.key, 0) + 1; return
        self.violation((where + ':' if where else '') + c.key, c.text[-1500:] if os.environ.get('XMQ_LIVE') is None else c.text[:1500], {'request': jreq(req)})
    def bad(self, r, req, where=''):
        """True (and reported) if the response is a crash."""
        if isinstance(r, Crash): self.crash(r, req, where); return True
        return False
    def finish(self):
        wall = time.time() - self.t0
        rc = 0
        rdir = VERIF + '/replays/' + self.id
        if self.viol:
            os.makedirs(rdir, exist_ok=True)
            for key, (what, replay) in sorted(self.viol.items()):
                fn = '%s/%s.json' % (rdir, hashlib.sha1(key.encode('utf-8', 'surrogateescape')).hexdigest()[:12])
                with open(fn, 'w') as f: json.dump({'property': self.id, 'seed': self.seed, 'tier': self.tier, 'key': key, 'what': what, 'replay': replay}, f, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.id, fn))
                if os.environ.get('XMQ_LIVE'): print('  !!', key, '::', str(what)[:3000].replace('\n', '|'), flush=True); continue
                print('  key: %s' % key); print('  %s' % str(what)[:2000].replace('\n', '\n  '))
            rc = 1
        for k in self.known:
            if k['key'] in self.known_seen: print('KNOWN-FINDING: property=%s %s' % (self.id, k['what']))
        tot = self.evals
        cov = dict(evaluations=tot, distinct_nontrivial=len(self.distinct), rule=self.rule or 'generated', samples=self.samples or ['none'],
                   observed=self.n, inconclusive=self.inconclusive, known_findings_seen=sorted(self.known_seen), **self.extra)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level='exploration', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(wall, 2), violations=len(self.viol))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.id, 'w') as f: json.dump(ev, f, indent=1, default=repr)
        print('%s %s seed=%d: %d evaluations, %d distinct, observed %s, inconclusive %s, %.1fs' % (self.id, self.tier, self.seed, tot, len(self.distinct), str(self.n)[:int(os.environ.get('XMQ_W', 2000))], self.inconclusive, wall))
        if rc == 0 and (self.evals < self.min_evals or len(self.distinct) < self.min_distinct):
            print('ERROR: the run observed too little to decide anything'); return 3
        ninc = sum(self.inconclusive.values())
        if rc == 0 and ninc > max(5, tot // 20):
            print('ERROR: too many inconclusive cases'); return 4
        return rc

def main(argv):
    import importlib
    if argv[0] == 'replay':
        j = json.load(open(argv[1])); print('property', j['property'], 'key', j['key'])
        rp = j['replay']
        if 'request' in rp:
            r = Server().run([unjreq(rp['request'])])[0]
            for a in unjreq(rp['request']): print('  action', a)
            print(r if not isinstance(r, Crash) else r.text)
        else:
            print(json.dumps(rp, indent=1))
            m = importlib.import_module(j['property'].lower())
            if hasattr(m, 'replay'): m.replay(rp)
        return 0
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1: tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, VERIF + '/checks')
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module(pid.lower())
    mod.run(ctx)
    return ctx.finish()

if __name__ == '__main__':
    sys.modules['drv'] = sys.modules['__main__']
    try: rc = main(sys.argv[1:])
    except build.BuildError as e: print('BUILD FAILED', e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
