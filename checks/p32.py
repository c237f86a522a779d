"""The transform and validate commands against the XSLT and XSD processors used directly on the equivalent XML."""
from wk import *
from ref import E
import cli, xo
XSL = 'http://www.w3.org/1999/XSL/Transform'; XS = 'http://www.w3.org/2001/XMLSchema'
NM = ['a', 'b', 'c', 'item']
AN = ['x', 'id', 'n']

def el(p, name, attrs=(), kids=()):
    e = E(p, name); e.attrs = [(None, k, [('t', v)]) for k, v in attrs]; e.kids = list(kids); return e
def x(name_, kids=(), **at): return el('xsl', name_, [(k.rstrip('_').replace('_', '-'), v) for k, v in at.items()], kids)
def txt(rng):
    """Text for people; the interesting whitespace included."""
    return rng.choice(['x', ' ', 'one two', '\n', ' : ', ', ', gen.u('å€'), "it's", '"', '<&>', '- ', ' \n  z', '\t', '\u00a0'.encode().decode('latin-1'), 'A\nB', '  ', '{', '}', "''", '&#10;', '\n\n', 'x=1', '(a)', '//', '/*'])

class Sheet:
    def __init__(self, rng, xml=False): self.rng = rng; self.xml = xml; self.named = []; self.left = rng.choice([10, 25, 50]); self.vars = []
    def rel(self):
        return self.rng.choice(['*', 'a', 'b', 'item', '@*', '@x', '@id', 'text()', 'node()', './/b', './/item', 'a/b', '*[2]', 'a[@x]', 'b[last()]', "*[.='x']", 'comment()', 'processing-instruction()', 'a|b', '@*|node()', '*[position()<3]', 'descendant::c', '*/@id', './/text()', 'text()[1]', '*[text()]', '*[count(node())>1]', 'n:a', '*[namespace-uri()]'])
    def any(self): return self.rng.choice([self.rel(), self.rel(), '.', '..', 'ancestor::*', '//a', '/*', 'following-sibling::*', 'preceding::text()', 'namespace::*', "key('k','x')", '/a/b/c', '.'])
    def val(self):
        rng = self.rng; a = self.any()
        vs = ['$' + v for v in self.vars] or ['$p1']
        return rng.choice([a, a, a, 'position()', 'last()', 'name()', 'local-name()', 'namespace-uri()', 'count(%s)' % a, 'sum(//@n)', 'string-length(.)', 'normalize-space(.)', "concat(name(),'-',.)", "translate(.,'abc','ABC')", "substring(.,2,3)", "string(%s)" % a, 'number(@n)*2', "format-number(count(//*),'000.0')", 'count(//text())', 'count(//node())', "'lit'", '"d q"', '1 div 3', "contains(.,'x')", 'boolean(%s)' % a, "current()/@id", 'system-property("xsl:version")', rng.choice(vs), rng.choice(vs), "count(document('d.xml')//*)", "document('d.xml')/*", "count(document('d.xml')//text())", "string(document('d.xml'))", "string(document('d%20e.xml'))", "count(document('d%20e.xml')//node())", "count(document('in.x')//node())", *(["count(document('in.x',/)//node())", "count(document('',/)//node())", "count(document('')//node())"] if self.xml else []), "unparsed-entity-uri('x')", "function-available('document')"])
    def test(self): return self.rng.choice(['@x', 'position()=1', 'position()!=last()', '*', 'text()', "@id='x'", 'count(*)>1', 'not(*)', '$p1', "string-length(.)>3", "normalize-space(.)=''", 'self::a', "$p1='x'", 'true()', '. < 5', "name()='a' or @n"])
    def avt(self): return self.rng.choice(['{@x}', 'v', 'p{position()}', '{name()}-{.}', '{{}}', '{count(//*)}', 'a b', 'x{$p1}', "{concat('<',.)}", ' ', '{//text()}', ''])
    def sort(self):
        rng = self.rng
        return [x('sort', select=rng.choice(['.', '@n', 'name()', '@id', 'position()']), **({'data_type': 'number'} if rng.random() < 0.4 else {}), **({'order': 'descending'} if rng.random() < 0.4 else {}))] if rng.random() < 0.3 else []
    def params(self): return [x('with-param', name=self.rng.choice(['p1', 'w']), select=self.val()) for _ in range(self.rng.choice([0, 0, 1, 2]))][:1]
    def body(self, d=0):
        rng = self.rng; out = []; depth = len(self.vars)
        if rng.random() < 0.2: out.append(x('attribute', [('t', txt(rng))] if rng.random() < 0.5 else [x('value-of', select=self.val())], name=rng.choice(['id', 'q', 'x{position()}', 'n:z']) ))
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            self.left -= 1; r = rng.random(); deep = d < 4 and self.left > 0
            if r < 0.13: out.append(('t', txt(rng)))
            elif r < 0.2: out.append(x('text', [('t', txt(rng))]))
            elif r < 0.35: out.append(x('value-of', select=self.val()))
            elif r < 0.42: out.append(x('copy-of', select=self.val()))
            elif r < 0.52:
                e = el(rng.choice([None, None, None, 'n']), rng.choice(['out', 'row', 'p', 'td']), [(rng.choice(['k', 'class']), self.avt())] if rng.random() < 0.4 else [], self.body(d + 1) if deep else [])
                out.append(e)
            elif r < 0.6 and deep: out.append(x('apply-templates', self.sort() + self.params(), select=self.rel(), **({'mode': 'm'} if rng.random() < 0.2 else {})) if rng.random() < 0.7 else x('apply-templates'))
            elif r < 0.68 and deep: out.append(x('for-each', self.sort() + self.body(d + 1), select=self.any()))
            elif r < 0.73 and deep: out.append(x('if', self.body(d + 1), test=self.test()))
            elif r < 0.78 and deep: out.append(x('choose', [x('when', self.body(d + 1), test=self.test()) for _ in range(rng.choice([1, 2]))] + ([x('otherwise', self.body(d + 1))] if rng.random() < 0.6 else [])))
            elif r < 0.83:
                v = 'v%d' % len(self.vars)
                out.append(x('variable', name=v, select=self.val()) if rng.random() < 0.6 or not deep else x('variable', self.body(d + 1), name=v)); self.vars.append(v)
            elif r < 0.87 and deep: out.append(x('copy', self.body(d + 1)))
            elif r < 0.9 and deep: out.append(x('element', self.body(d + 1), name=rng.choice(['e', 'e{position()}', '{name()}', 'n:e', 'bad name'])))
            elif r < 0.92: out.append(x('comment', [('t', 'c '), x('value-of', select=rng.choice(['name()', '@id']))]))
            elif r < 0.93: out.append(x('processing-instruction', [('t', 'pi text')], name='pi'))
            elif r < 0.95: out.append(x('number', **({'level': 'any', 'count': '*'} if rng.random() < 0.5 else {})))
            elif r < 0.97 and self.named: out.append(x('call-template', self.params(), name=rng.choice(self.named)))
            elif deep and r < 0.98: out.append(x('apply-imports'))
            elif r < 0.985: out.append(x('message', [('t', 'note')], **({'terminate': 'yes'} if rng.random() < 0.2 else {})))
            else: out.append(('t', txt(rng)))
        del self.vars[depth:]
        return out
    def sheet(self, includes=()):
        rng = self.rng
        root = el('xsl', rng.choice(['stylesheet', 'transform']), [('version', '1.0')] + ([('exclude-result-prefixes', 'n')] if rng.random() < 0.3 else []))
        root.ns = [('xsl', XSL), ('n', 'urn:x')] + ([(None, 'u')] if rng.random() < 0.1 else [])
        K = root.kids
        for k, f in includes: K.append(x(k, href=f))
        K.sort(key=lambda e: e.name != 'import')
        if rng.random() < 0.4: K.append(x('output', method=rng.choice(['xml', 'html', 'text', 'xml']), **rng.choice([{}, {'indent': 'yes'}, {'omit_xml_declaration': 'yes'}, {'doctype_system': 'about:legacy'}, {'encoding': 'iso-8859-1'}, {'cdata_section_elements': 'out'}])))
        if rng.random() < 0.2: K.append(x('strip-space', elements=rng.choice(['*', 'a b'])))
        if rng.random() < 0.1: K.append(x('preserve-space', elements='a'))
        K.append(x('key', name='k', match=rng.choice(['a', '*']), use=rng.choice(['@id', '.', '@x'])))
        K.append(x('param', name='p1', select="'dflt'") if rng.random() < 0.6 else x('param', [('t', 'tree')], name='p1'))
        if rng.random() < 0.3: K.append(x('variable', self.body(3), name='g'))
        if rng.random() < 0.15: K.append(x('attribute-set', [x('attribute', [('t', 'S')], name='set')], name='as'))
        if rng.random() < 0.4:
            self.named = ['t1']; nm = self.named; self.named = []
            K.append(x('template', [x('param', name='w', select="'w'")] + self.body(2), name='t1')); self.named = nm
        root_t = rng.random()
        if root_t < 0.5: K.append(x('template', [el(None, 'out', [], self.body() + ([x('apply-templates')] if rng.random() < 0.7 else []))], match='/'))
        elif root_t < 0.6: K.append(x('template', self.body(), match='/'))
        seen = set()
        for _ in range(rng.randint(0, 4)):
            m = rng.choice(['a', 'b', 'c', 'item', '*', '@*', 'text()', 'comment()', 'a/b', 'a[@x]', 'item[1]', '@id', 'n:a', 'a|b', '/*', "key('k','x')", 'processing-instruction()', 'node()'])
            if m in seen: continue
            seen.add(m); K.append(x('template', self.body(1), match=m, **rng.choice([{}, {}, {}, {'mode': 'm'}, {'priority': '2'}])))
        if rng.random() < 0.4: K.append(x('template', [x('copy', [x('apply-templates', select='@*|node()')])], match='@*|node()', priority='-5'))
        if rng.random() < 0.2: rng.shuffle(K); K.sort(key=lambda e: e.name != 'import')
        if rng.random() < 0.3: K.insert(rng.randint(0, len(K)), ('c', 'about'))
        if rng.random() < 0.3:
            # White space between the parts, as in a file written by hand.
            root.kids = [y for k in K for y in (('t', '\n    '), k)] + [('t', '\n')]
        return root

def doc(rng):
    return gen.Doc(rng, ents=False, doctype=False, names=NM, size=rng.choice([5, 14, 30])).doc()
def attrs(rng, d):
    """Attribute names the stylesheets ask for."""
    for k in d:
        if isinstance(k, E):
            if rng.random() < 0.4: k.attrs = [a for a in k.attrs if a[1] not in AN] + [(None, n, [('t', rng.choice(['x', '1', '22', '-3', 'x y', ' ', 'é'.encode().decode('latin-1')]))]) for n in rng.sample(AN, rng.randint(1, 3))]
            attrs(rng, k.kids)
    return d

def write(rng, d, form): return gen.spell(rng, d) if form == 'xmq' else gen.xml(rng, d, shuffle=False)

def tcase(rng, xml):
    """Files in other folders and references to the stylesheet itself only when all is XML: the location of an XMQ stylesheet is not its base."""
    d = attrs(rng, doc(rng)); inc = []; docs = {}
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        f = rng.choice(['i1.xslt', 'lib/i2.xslt' if xml else 'i2.xslt', 'i3.xslq', 'my lib.xslt', 'x%y.xslq'])
        if f not in docs: docs[f] = [Sheet(rng, xml).sheet()]; inc.append((rng.choice(['include', 'import']), f.replace('%', '%25').replace(' ', '%20')))
    s = Sheet(rng, xml).sheet(inc)
    main = rng.choice(['s.xslt', 's.xslq', 'sub/s.xslt' if xml else 'z.xslt', 'Sheet one.xslt'])
    base = 'sub/' if main.startswith('sub/') else ''
    docs = {base + f: v for f, v in docs.items()}
    docs[main] = [s]; docs[base + 'd e.xml'] = attrs(rng, doc(rng)); docs['in.x'] = d; docs[base + 'd.xml'] = attrs(rng, doc(rng))
    ps = []; rp = []
    for n in rng.sample(['p1', 'zz', 'n'], rng.choice([0, 0, 1, 2])):
        if rng.random() < 0.5:
            v = rng.choice(['x', '', 'two words', "it's", 'say "hi"', '1=2', 'åä', '--x', '<&>', '{', '$p1'])
            ps.append('--stringparam=%s=%s' % (n, v)); rp += [n, ('"%s"' if "'" in v else "'%s'") % v]
        else:
            v = rng.choice(["'x'", '1+2', '//a', 'count(//*)', '/*/@id', "'a=b'", '"q"', 'true()'])
            ps.append('--param=%s=%s' % (n, v)); rp += [n, v]
    return docs, main, ps, rp

def schema(rng):
    """A schema and documents around it."""
    X = lambda name_, kids=(), **at: el('xs', name_, [(k, v) for k, v in at.items()], kids)
    names = NM + ['row', 'v']
    simple = ['string', 'integer', 'date', 'boolean', 'decimal', 'token', 'NMTOKEN', 'positiveInteger', 'anyURI']
    good = {'string': ['x', '', ' a b '], 'integer': ['1', '-7', ' 3 ', '007'], 'date': ['2024-01-31'], 'boolean': ['true', '0'], 'decimal': ['1.5', '.5', '3'], 'token': ['a b', 'x'], 'NMTOKEN': ['a-b', '1'], 'positiveInteger': ['5'], 'anyURI': ['http://a/b', 'x'], 'enum': ['red', 'green'], 'pat': ['ab12', 'z9'], 'short': ['abc', 'å'.encode().decode('latin-1')], 'num': ['3', '9']}
    junk = ['x', '1', '', 'true', '2024-13-01', 'red ', 'abcd', '10', 'ab', '1.5', '- 1', '\n', 'a b', '   ']
    target = rng.random() < 0.3
    def st():
        r = rng.random()
        if r < 0.7: t = rng.choice(simple); return t, 'xs:' + t, []
        t = rng.choice(['enum', 'pat', 'short', 'num'])
        f = {'enum': [X('enumeration', value='red'), X('enumeration', value='green')], 'pat': [X('pattern', value='[a-z]+[0-9]+')], 'short': [X('maxLength', value='3')], 'num': [X('minInclusive', value='3'), X('maxInclusive', value='9')]}[t]
        return t, None, [X('simpleType', [X('restriction', f, base='xs:integer' if t == 'num' else 'xs:string')])]
    def at(tag):
        t, ty, kids = st(); a = X('attribute', kids, name=tag)
        if ty: a.attrs.append((None, 'type', [('t', ty)]))
        use = rng.choice(['required', 'optional', None])
        if use: a.attrs.append((None, 'use', [('t', use)]))
        return a, t, use == 'required'
    def elem(name, d):
        """Declaration and a maker of content: -> (attrs, kids)."""
        e = X('element', name=name)
        if d >= 3 or rng.random() < 0.35:
            t, ty, kids = st()
            if ty: e.attrs.append((None, 'type', [('t', ty)]))
            e.kids = kids
            return e, lambda bad: ([], [('t', rng.choice(junk if rng.random() < bad else good[t]))])
        ats = [at(n) for n in rng.sample(AN, rng.choice([0, 0, 1, 2]))]
        kind = rng.choice(['sequence', 'sequence', 'choice', 'all'])
        parts = []
        for n in rng.sample(names, rng.randint(1, 3)):
            k, mk = elem(n, d + 1)
            lo, hi = rng.choice([(1, 1), (0, 1), (1, 1)] + ([(0, 3), (1, 99), (2, 2)] if kind != 'all' else []))
            if lo != 1: k.attrs.append((None, 'minOccurs', [('t', str(lo))]))
            if hi != 1: k.attrs.append((None, 'maxOccurs', [('t', 'unbounded' if hi == 99 else str(hi))]))
            parts.append((n, k, mk, lo, min(hi, 4)))
        mixed = rng.random() < 0.15
        ct = X('complexType', [X(kind, [p[1] for p in parts])] + [a[0] for a in ats])
        if mixed: ct.attrs.append((None, 'mixed', [('t', 'true')]))
        e.kids = [ct]
        def make(bad):
            A = []
            for a, t, req in ats:
                if req and rng.random() > bad or rng.random() < 0.5: A.append((None, a.attrs[0][2][0][1], [('t', rng.choice(junk if rng.random() < bad else good[t]))]))
            if rng.random() < bad: A.append((None, 'odd', [('t', '1')]))
            out = []
            ps = list(parts)
            if kind == 'choice': ps = [rng.choice(ps)]
            if kind == 'all' or rng.random() < bad: rng.shuffle(ps)
            for n, k, mk, lo, hi in ps:
                for _ in range(rng.randint(lo, hi) if rng.random() > bad else rng.randint(0, 4)):
                    c = E(None, n if rng.random() > bad / 3 else 'odd'); c.attrs, c.kids = mk(bad); out.append(c)
                    if mixed and rng.random() < 0.5 or rng.random() < bad / 3: out.append(('t', rng.choice(['text', ' ', '\n', 'x'])))
            if rng.random() < 0.1: out.insert(0, ('c', 'note'))
            return A, out
        return e, make
    top = rng.choice(names); e, mk = elem(top, 0)
    root = X('schema', [e]); root.ns = [('xs', XS)]
    if target: root.attrs = [(None, 'targetNamespace', [('t', 'urn:t')]), (None, 'elementFormDefault', [('t', 'qualified')])]; root.ns.append((None, 'urn:t'))
    if rng.random() < 0.3: root.kids.insert(0, X('annotation', [X('documentation', [('t', 'Some text')])]))
    bad = rng.choice([0, 0, 0, 0.1, 0.3])
    d = E(None, top if rng.random() > bad / 3 else 'odd'); d.attrs, d.kids = mk(bad)
    if target and rng.random() > bad: d.ns = [(None, 'urn:t')]
    if rng.random() < 0.02: root.kids.append(X('element', name=top))
    return [root], [d]

def xtree(b):
    nf, info = xo.parse(b)
    return nf, info

def run(ctx):
    ctx.rule = 'a document with a stylesheet and parameters, or a schema, in one combination of formats; distinct by the texts; non-trivial if something was produced or judged'
    ctx.assumptions = ['libxslt and libxml2 are the processors', 'XML documents loaded without trimming', 'messages not compared']
    rng = ctx.rng
    xt = build.build_extra('xt', build.PLAIN, libs=['-lxslt', '-lxml2'], extra=['-I/usr/include/libxml2'], lib=False)
    jobs = []; refs = []; meta = []
    for i in range(ctx.scale(2600, 30000)):
        xml = i % 3 == 0; docs, main, ps, rp = tcase(rng, xml)
        form = {f: 'xml' if xml else rng.choice(['xmq', 'xml']) for f in docs}
        equiv = {f: gen.xml(rng, d, shuffle=False) for f, d in docs.items()}
        if any(xo.parse(b)[0] is None for b in equiv.values()): ctx.count('not-xml'); continue
        files = {f: (equiv[f] if form[f] == 'xml' else write(rng, d, form[f])) for f, d in docs.items()}
        args = ['--trim=none', 'in.x', 'transform'] + ps + [main]
        to = rng.choice(['to-xml', 'to-xml', 'to-xml', 'to-text', 'to-xmq'])
        if form['in.x'] == 'xmq': args[0] = rng.choice(['--trim=none', '--xmq'])
        jobs.append({'args': args + ['to-xml'], 'files': files}); jobs.append({'args': args + ['to-text'], 'files': files}); refs.append({'exe': xt, 'args': ['t', main, 'in.x'] + rp, 'files': equiv}); meta.append(('t', form, main))
    nv = ctx.scale(2000, 24000)
    for i in range(nv):
        s, d = schema(rng); form = {'s.xsd': rng.choice(['xmq', 'xml']), 'in.x': rng.choice(['xmq', 'xml'])}
        equiv = {'s.xsd': gen.xml(rng, s, shuffle=False), 'in.x': gen.xml(rng, d, shuffle=False)}
        files = {f: (equiv[f] if form[f] == 'xml' else gen.spell(rng, {'s.xsd': s, 'in.x': d}[f])) for f in form}
        args = ['--trim=none', 'in.x', 'validate'] + rng.choice([[], ['--silent']]) + ['s.xsd']
        jobs.append({'args': args + ['to-xml'], 'files': files}); jobs.append({'args': ['--trim=none', 'in.x', 'to-xml'], 'files': files}); refs.append({'exe': xt, 'args': ['v', 's.xsd', 'in.x'], 'files': equiv}); meta.append(('v', form, 's.xsd'))
    res = cli.run(jobs); rres = cli.run(refs)
    for k, (kind, form, main) in enumerate(meta):
        judge(ctx, kind, form, main, jobs[2 * k], res[2 * k], res[2 * k + 1], refs[k], rres[k])

def judge(ctx, kind, form, main, j, r, r2, rj, rr):
    rp = cli.jjob(j); rp['reference'] = {f: b.decode('latin-1') for f, b in rj['files'].items()}
    what = '%s forms %s: %.1500s' % (j['args'], form, '; '.join('%s: %r' % (f, b) for f, b in j['files'].items()))
    for q in (r, r2):
        if q.crash: ctx.violation('cli:%s:%s' % (kind, q.crash.key), q.crash.text[-1500:], rp); return
    if rr.crash or rr.rc != 0: ctx.count('reference-failed'); return
    fm = 'doc-%s:%s-%s' % (form['in.x'], kind, form[main]); ctx.count(fm)
    head, _, rest = rr.out.partition(b'\n')
    if head[:1] == b'P': ctx.count('reference-not-xml'); return
    ctx.case(repr(j), '%s: reference %s, tool exit %s: %.300s' % (fm, head[:3], r.rc, what))
    if kind == 'v':
        ctx.count('verdict-' + head.decode()); want = head == b'V'
        if (r.rc == 0) != want: ctx.violation('verdict:%s:%s' % (head.decode(), fm), 'processor %s, tool exit %s %r %r: %s' % (head, r.rc, r.out[-300:], r.err[-300:], what), rp)
        elif want and r.out != r2.out: ctx.violation('validated-document:' + fm, '%r %r: %s' % (r.out, r2.out, what), rp)
        return
    ctx.count('state-' + head.decode()); want = head == b'S0'
    if (r.rc == 0) != want: ctx.violation('outcome:%s:%s' % (head.decode(), fm), 'processor %s, tool exit %s %r: %s' % (head, r.rc, r.err[-600:], what), rp); return
    if not want: return
    dt = None
    if rest.startswith(b'D'): dt, _, rest = rest[1:].partition(b'\n'); dt = tuple(dt.decode('latin-1').split('\x1f'))
    nf, _ = xo.parse(rest)
    if nf is None: ctx.count('result-not-xml'); return
    top = nf[0][4]
    roots = [t for t in top if t[0] == 'e']; texts = [t for t in top if t[0] == 't']
    ctx.count('result-roots-%d%s' % (min(2, len(roots)), '-text' if texts else ''))
    if len(roots) == 1 and not texts:
        w, info = xo.parse(r.out)
        if w is None: ctx.violation('not-xml:' + fm, '%r: %s' % (r.out[:600], what), rp); return
        if w != top: ctx.violation('result:%s:%s' % (fm, xo.diff(top, w)), 'processor %r, tool %r: %s' % (rest[:800], r.out[:800], what), rp)
        d = info['doctype']
        if (dt is None) != (d is None) or dt and (d[0].encode().decode('latin-1'), (d[2] or ''), (d[1] or '')) != dt: ctx.violation('doctype:' + fm, 'processor %r, tool %r: %s' % (dt, d, what), rp)
    elif not roots and not any(t[0] != 't' for t in top):
        s = ''.join(t[1] for t in top)
        if r2.rc != 0: ctx.violation('text-outcome:' + fm, 'exit %s %r: %s' % (r2.rc, r2.err, what), rp)
        elif r2.out.decode('utf-8', 'replace').rstrip('\n') != s.rstrip('\n'): ctx.violation('text:' + fm, 'processor %r, tool %r: %s' % (s, r2.out, what), rp)
