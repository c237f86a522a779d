"""Builds the instrumented binaries from /repo's working tree. Everything lands in /verif/.build/<hash>."""
import os, subprocess, hashlib, sys, glob, fcntl, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XMQ_REPO', '/repo')
SRC = REPO + '/src/main/c'
BUILD = os.environ.get('XMQ_BUILD', VERIF + '/.build')
INC = ['-I' + SRC, '-I/usr/include/libxml2']

class BuildError(Exception): pass

def _sources():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.c', '.h', '.sh', '.xmq', '.xslt', '.htmq', '.css')):
                out.append(os.path.join(root, f))
    return out

_hash = None
def src_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in _sources():
            h.update(f[len(SRC):].encode() + b'\0')
            with open(f, 'rb') as fd: h.update(fd.read())
        _hash = h.hexdigest()[:20]
    return _hash

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')

def srcdir(d):
    """The include directory to compile against. yaep.c/.h are generated from yaep/src by the project's own
    build (the project's build script regenerates them whenever yaep/src differs); do the same here."""
    gen = d + '/yaepgen'
    sh = SRC + '/yaep/build_single_yaep_source_file.sh'
    ydir = SRC + '/yaep'
    base = open(VERIF + '/lib/yaep.baseline').read().split() if os.path.exists(VERIF + '/lib/yaep.baseline') else []
    h = yaep_src_hash()
    if h in base or not os.path.exists(sh): return [SRC]
    # yaep/src was edited: use what the project's build would generate from it.
    if not os.path.exists(gen + '/done'):
        shutil.rmtree(gen, ignore_errors=True)
        shutil.copytree(SRC, gen + '/src')
        _run(['bash', './build_single_yaep_source_file.sh'], cwd=gen + '/src/yaep')
        open(gen + '/done', 'w').close()
    return [gen + '/src']

def yaep_src_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SRC + '/yaep/src/*')):
        h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

GCC_SAN = ['gcc', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DVERSION="x"']
CLANG_SAN = ['clang', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DVERSION="x"']
TSAN = ['clang', '-O1', '-g', '-w', '-fsanitize=thread', '-fno-omit-frame-pointer', '-DVERSION="x"']
PLAIN = ['gcc', '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-DVERSION="x"']

def _locked(name, fn):
    h = hashlib.sha256((src_hash() + name).encode())
    for f in sorted(glob.glob(VERIF + '/harness/*')): h.update(open(f, 'rb').read())
    d = BUILD + '/' + h.hexdigest()[:16]
    os.makedirs(d, exist_ok=True)
    with open(d + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + '/ok'):
            fn(d)
            open(d + '/ok', 'w').close()
    # Forget builds of other trees.
    keep = sorted(glob.glob(BUILD + '/*/ok'), key=os.path.getmtime)
    for k in keep[:-12]:
        if os.path.dirname(k) != d: shutil.rmtree(os.path.dirname(k), ignore_errors=True)
    return d

def _split_compile(base, d, src, extra=()):
    inc = [('-I' + x) for x in srcdir(d)] + INC[1:]
    main = srcdir(d)[0]
    return base + list(extra) + inc + ['-c', main + '/' + src, '-o', d + '/' + src.replace('.c', '.o')]

def build_xh():
    """Op server: library with AddressSanitizer and UndefinedBehaviorSanitizer."""
    def go(d):
        inc = ['-I' + x for x in srcdir(d)] + INC[1:]
        _run(_split_compile(GCC_SAN, d, 'xmq.c'))
        _run(GCC_SAN + ['-DHAVE_ASAN'] + inc + [VERIF + '/harness/xh.c', d + '/xmq.o', '-o', d + '/xh', '-lxml2', '-lz', '-lpthread', '-lm'])
    return _locked('xh', go) + '/xh'

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'strlen', 'strdup', 'strndup', 'realloc', 'malloc'))]
def build_work():
    """Op server that counts the work done by the library."""
    return build_extra('xh', ['clang', '-O1', '-g', '-w', '-fno-builtin', '-DVERSION="x"'], libs=WRAP, extra=['-DHAVE_WORK'], libextra=['-fsanitize-coverage=trace-pc-guard'])

def build_cli():
    """The command line tool, instrumented."""
    def go(d):
        inc = ['-I' + x for x in srcdir(d)] + INC[1:]
        ps = [subprocess.Popen(_split_compile(GCC_SAN, d, s), stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for s in ('xmq.c', 'xmq-cli.c')]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode: raise BuildError(o.decode(errors='replace')[-4000:])
        _run(GCC_SAN + inc + [d + '/xmq.o', d + '/xmq-cli.o', '-o', d + '/xmq', '-lxslt', '-lxml2', '-lz', '-lpthread', '-lm'])
    return _locked('cli', go) + '/xmq'

def build_extra(name, base, libs=(), extra=(), lib=True, libextra=()):
    """A harness NAME.c linked with its own build of the library (lib=False: harness includes what it needs)."""
    def go(d):
        inc = ['-I' + x for x in srcdir(d)] + INC[1:]
        objs = []
        if lib:
            _run(_split_compile(base, d, 'xmq.c', libextra)); objs = [d + '/xmq.o']
        _run(base + list(extra) + inc + [VERIF + '/harness/' + name + '.c'] + objs + ['-o', d + '/' + name, '-lxml2', '-lz', '-lpthread', '-lm'] + list(libs))
    return _locked(name + ' '.join(base) + ' '.join(extra) + ' '.join(libextra), go) + '/' + name

if __name__ == '__main__':
    if sys.argv[1:] == ['yaephash']: print(yaep_src_hash())
    else:
        t = time.time(); print(build_xh(), time.time() - t); t = time.time(); print(build_cli(), time.time() - t)
