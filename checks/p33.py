"""Containers next to the standard ones; UTF-8 against the Unicode table of well-formed byte sequences."""
import subprocess
from drv import *

def binary():
    def go(d):
        inc = ['-I' + x for x in build.srcdir(d)] + build.INC[1:]
        build._run(build._split_compile(build.GCC_SAN, d, 'xmq.c'))
        build._run(['g++' if x == 'gcc' else x for x in build.GCC_SAN] + ['-fpermissive'] + inc + [VERIF + '/harness/ct.cc', d + '/xmq.o', '-o', d + '/ct', '-lxml2', '-lz', '-lpthread', '-lm'])
    return build._locked('ct', go) + '/ct'

def run(ctx):
    ctx.rule = 'a sequence of operations on one container (distinct by operations and arguments), or a byte sequence or code point'
    ctx.assumptions = ['containers are used within their contracts: no element taken from an empty one, no null values or zero sizes in the map, no change while iterating', 'code points 0 to 10FFFF except surrogates']
    b = binary(); n = ctx.scale(4000, 200000)
    jobs = [(k, s) for k in ('map', 'stack', 'vector', 'buffer') for s in (2 * ctx.seed, 2 * ctx.seed + 1)] + [('utf8', ctx.seed)]
    def one(j):
        return j, subprocess.run([b, j[0], str(j[1]), str(n if j[0] != 'utf8' else n * 200)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=1500)
    with ThreadPoolExecutor(NCPU) as ex:
        for (k, s), p in ex.map(one, jobs):
            out = p.stdout.decode(errors='replace'); err = p.stderr.decode(errors='replace')
            rp = {'command': [k, str(s), str(n)]}
            m = re.search(r'^BAD (\S+): (.*)', out, re.M)
            if m: ctx.violation(m.group(1), m.group(2)[:1500], rp)
            elif p.returncode != 0 or not out.startswith('ok'): ctx.violation('crash:%s:%s' % (k, crash_key(err) or p.returncode), err[-1500:], rp)
            else:
                f = out.split(); ctx.case(k=int(f[2])); ctx.count(k + '-operations', int(f[3])); ctx.count(k + '-largest', 0); ctx.n[k + '-largest'] = max(ctx.n[k + '-largest'], int(f[4]))
                for i in range(int(f[5]) if k != 'utf8' else 0): ctx.distinct.add('%s%d-%d' % (k, s, i))
                if k == 'utf8': ctx.distinct.add('utf8')
                ctx.samples.append(out.strip()) if len(ctx.samples) < 12 else None

def replay(rp): print(subprocess.run([binary()] + rp['command'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env()).stdout.decode(errors='replace')[-4000:])
