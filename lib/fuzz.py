"""Coverage guided workloads (libFuzzer with AddressSanitizer and UndefinedBehaviorSanitizer), by number of executions."""
import base64, re as _re, os, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
import build, drv, gen, ht
from drv import *

SAN = ['clang', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize=function,pointer-overflow,alignment', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer', '-DVERSION="x"', '-DCOMMIT="x"']
def binary(mode):
    return build.build_extra('fz', SAN, libs=['-lxslt'], extra=['-fsanitize=fuzzer', '-DFZ_MODE=%d' % mode], libextra=['-fsanitize=fuzzer-no-link'])

DICT = {1: ["'", "''", "'''", "/*", "*/", "//", "///*", "*///", "&#x41;", "&#10;", "&nbsp;", "!DOCTYPE", "?pi", "xmlns", "xmlns:x", "=(", "(a=b)", "{}", "\\x0a", "\\x0a    ", "\\xc2\\xa0", "\\xef\\xbb\\xbf", "a:b", "= 'x'", "\\xe2\\x80\\x83"],
        2: ['"', '\\"', '\\\\u0041', '\\\\ud83d', '\\\\ude00', '{', '}', '[', ']', ',', ':', 'null', 'true', 'false', '-1.5e+10', '"_"', '"|"', '"_//"', '"!DOCTYPE"', '"?x"', '"_xmlns"', '"a:b"', '{"_":"x"', '"_a":"b"', '[[', ']]', '\\\\n'],
        3: ['<a>', '</a>', '<a/>', '<!--', '-->', '<?', '?>', '<![CDATA[', ']]>', '<!DOCTYPE', 'html', '<!ENTITY', '&lt;', '&#10;', '&#xA;', '&nbsp;', 'xmlns', 'xmlns:x', '="', "='", '<script>', '</script>', '<style>', '<pre>', '<html>', '<body>', '<p>', '<br>', '<?xml version=', 'encoding=', 'xml:space="preserve"', ' ', '\\x0a'],
        4: ['::', ':', '=', '.', ',', ';', '|', '-', '^', '@', '+', '*', '?', '**', '++', '~[', '[', ']', '(', ')', '{', '}', '"', "'", '#a', '#10', '[L]', '["a"-"z"]', '>', 'ixml version "1.0".', '\\xfe', ' ', '\\x0a']}

def hdr(rng): return bytes(rng.randrange(256) for _ in range(3))

def run(ctx, mode, seeds, runs, jobs=NCPU, max_len=1500, env_extra=None, tag='', limit=30):
    """runs executions spread over jobs; every crash is a violation (keyed by kind and innermost library functions)."""
    bin_ = binary(mode)
    root = tempfile.mkdtemp(dir=tmpdir())
    os.mkdir(root + '/seeds')
    for i, s in enumerate(seeds):
        with open('%s/seeds/%05d' % (root, i), 'wb') as f: f.write(s)
    with open(root + '/dict', 'w') as f:
        for d in DICT[mode]: f.write('"%s"\n' % d.replace('"', '\\"').replace('\\\\"', '\\"'))
    e0 = env(0xbe, env_extra)
    def one(job):
        res = dict(execs=0, cov=0, ft=0, corp=0, crashes=[], inconclusive=[], stats={})
        left = runs // jobs; tries = 0
        while left > 0 and tries < 4:
            d = '%s/j%d_%d' % (root, job, tries); os.makedirs(d + '/c'); os.mkdir(d + '/s'); os.mkdir(d + '/a')
            e = dict(e0); e['FZ_STATS'] = d + '/stats'
            cmd = [bin_, '-seed=%d' % (ctx.seed * 1000 + job * 10 + tries + 1), '-runs=%d' % left, '-max_len=%d' % max_len, '-timeout=%d' % limit, '-rss_limit_mb=3000',
                   '-detect_leaks=0', '-print_final_stats=1', '-dict=' + root + '/dict', '-artifact_prefix=' + d + '/a/', d + '/c', root + '/seeds']
            try: p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=d + '/s', timeout=3000)
            except subprocess.TimeoutExpired: res['inconclusive'].append('wall'); break
            err = p.stderr.decode(errors='replace')
            m = _re.search(r'stat::number_of_executed_units:\s*(\d+)', err)
            n = int(m[1]) if m else max([int(x) for x in _re.findall(r'^#(\d+)', err, _re.M)] or [0])
            res['execs'] += n; left -= max(n, 1)
            for m in _re.finditer(r'cov: (\d+) ft: (\d+) corp: (\d+)', err): pass
            if m: res['cov'], res['ft'], res['corp'] = int(m[1]), int(m[2]), int(m[3])
            if os.path.exists(d + '/stats'):
                for l in open(d + '/stats'):
                    for k, v in json.loads(l).items(): res['stats'][k] = res['stats'].get(k, 0) + v
            arts = sorted(os.listdir(d + '/a'))
            if p.returncode == 0 and not arts: shutil.rmtree(d, ignore_errors=True); break
            if not arts:
                if 'Sanitizer' in err or 'runtime error' in err: res['crashes'].append((drv.crash_key(err) or 'died:%d' % p.returncode, err, b''))
                else: raise drv.HarnessError('fuzzer: rc=%s %s' % (p.returncode, err[-1500:]))
            for a in arts:
                data = open(d + '/a/' + a, 'rb').read()
                if a.startswith('slow-unit'): continue
                k, txt = confirm(bin_, data, e0, d)
                if k is None: res['inconclusive'].append(a.split('-')[0])
                else: res['crashes'].append((k, txt, data))
            shutil.rmtree(d, ignore_errors=True); tries += 1
        return res
    with ThreadPoolExecutor(jobs) as ex: out = list(ex.map(one, range(jobs)))
    shutil.rmtree(root, ignore_errors=True)
    for r in out:
        ctx.count(tag + 'guided-executions', r['execs'])
        for k, v in r['stats'].items(): ctx.count(tag + 'guided-' + k, v)
        for k, txt, data in r['crashes']: ctx.violation(k, '%s on %r' % (txt[-1800:], data[:600]), {'fuzz': mode, 'input': data.decode('latin-1'), 'env': env_extra})
        for x in r['inconclusive']: ctx.inconclusive[x] = ctx.inconclusive.get(x, 0) + 1
    ctx.extra[tag + 'guided_edges_covered'] = max([r['cov'] for r in out] or [0]); ctx.extra[tag + 'guided_features'] = max([r['ft'] for r in out] or [0])
    n = sum(r['execs'] for r in out)
    ctx.case(k=n)
    for i in range(sum(r['corp'] for r in out)): ctx.distinct.add((tag, mode, i))
    return n

def confirm(bin_, data, e, d):
    """(key, report) of one input alone, with three times the time limit; (None, _) if it passes."""
    fn = d + '/one'; open(fn, 'wb').write(data)
    try: p = subprocess.run([bin_, '-timeout=90', '-rss_limit_mb=3000', '-detect_leaks=0', fn], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=d, timeout=200)
    except subprocess.TimeoutExpired: return 'hang', 'no end within 200 s'
    err = p.stderr.decode(errors='replace')
    if p.returncode == 0: return None, ''
    k = drv.crash_key(err)
    if 'ALARM' in err or 'libFuzzer: timeout' in err: k = 'hang'
    elif 'out-of-memory' in err: k = 'memory:' + (k or '')
    return k or 'died:%d' % p.returncode, err[-6000:] if k == 'hang' else err[:6000]

def replay(rp):
    d = tempfile.mkdtemp(dir=tmpdir())
    print(confirm(binary(rp['fuzz']), rp['input'].encode('latin-1'), env(0xbe, rp.get('env')), d))

# ------------------------------------------------------------------------------------------------ seeds
def test_sections():
    for p, b in gen.corpus(('.test',), 60000):
        for s in _re.split(rb'(?m)^[A-Z]{3,}\n', b):
            if s.strip() and len(s) < 3000: yield p, s

def seeds_xmq(rng, n):
    out = [hdr(rng) + b for p, b in gen.corpus(('.xmq', '.htmq'), 3000)]
    out += [hdr(rng) + s for p, s in test_sections() if s.strip()[:1] not in b'<[{"']
    for i in range(n): out.append(hdr(rng) + (gen.spell(rng, gen.Doc(rng).doc()) if i % 2 else gen.layout_doc(rng) if i % 4 else gen.soup(rng)))
    return out
def seeds_json(rng, n):
    out = [hdr(rng) + b for p, b in gen.corpus(('.json',), 3000)]
    out += [hdr(rng) + s for p, s in test_sections() if s.strip()[:1] in b'[{"']
    for i in range(n): out.append(hdr(rng) + jsontext(rng))
    return out
def jsontext(rng):
    import p07
    return p07.J(rng).text()
def seeds_xml(rng, n):
    out = [hdr(rng) + b for p, b in gen.corpus(('.xml', '.html', '.htm', '.xslt', '.xsd'), 3000)]
    out += [hdr(rng) + s for p, s in test_sections() if s.strip()[:1] == b'<']
    for i in range(n): out.append(hdr(rng) + (gen.xml(rng, gen.Doc(rng).doc()) if i % 2 else htmltext(rng)))
    return out
def htmltext(rng):
    return ht.doc(rng, rng.choice([3, 8, 20]))
