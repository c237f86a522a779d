"""Memory safety and termination of the xml side of the library."""
from wk import *
import safe, fuzz, work

def run(ctx):
    ctx.rule = 'a byte string through parse, print in several formats, queries and freeing; distinct by text, and for the guided part by corpus entry with new coverage'
    ctx.assumptions = ['libxml2 itself is not instrumented', 'inputs of the guided part up to 1500 bytes, of the direct part up to 40 kB']
    safe.workload(ctx, 'xml', ctx.scale(6000, 120000))
    work.run(ctx, 'xml')
    fuzz.run(ctx, 3, fuzz.seeds_xml(ctx.rng, 300), ctx.scale(400000, 8000000))

def replay(rp): fuzz.replay(rp)
