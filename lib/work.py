"""Time and memory proportionate to the input: the control flow edges executed and the bytes moved, scanned or allocated by the
library are counted while one shape of text grows; twice the text may cost about twice the work, not four times."""
from wk import *
import safe

def shapes(kind):
    """(name, text of size n): every construct repeated, in every place it can stand."""
    X = {}
    if kind == 'xmq':
        for nm, f in {'quote-one-line': lambda n: "a='" + 'x y' * n + "'", 'quote-lines': lambda n: "a='" + 'xy\n   ' * n + "'", 'quote-blank-lines': lambda n: "a='" + 'x\n\n' * n + "y'", 'siblings': lambda n: 'a{' + 'b ' * n + '}',
                'keys': lambda n: 'a{' + 'b=c\n' * n + '}', 'keys-varied': lambda n: 'a{' + ''.join('k%d=v%d\n' % (i, i) for i in range(n)) + '}', 'texts': lambda n: 'a{' + "b 'x' " * n + '}', 'comments': lambda n: 'a{' + '/*x*/' * n + '}',
                'line-comments': lambda n: 'a{' + '// c\n' * n + '}', 'entities': lambda n: 'a{' + '&x; b ' * n + '}', 'joined-entities': lambda n: 'a=(' + "&x;'b'" * n + ')', 'char-entities': lambda n: 'a=(' + "&#10;'b'" * n + ')',
                'comment-lines': lambda n: 'a /*' + ' x\n' * n + '*/', 'apostrophes': lambda n: 'a=' + "'" * (n + 3) + ' x ' + "'" * (n + 3), 'slashes': lambda n: '/' * (n + 1) + '* x *' + '/' * (n + 1), 'token': lambda n: 'a=' + 'x' * n, 'name': lambda n: 'x' * n + '=1',
                'blank': lambda n: 'a{' + ' ' * n + '}', 'newlines': lambda n: 'a{' + '\n' * n + '}', 'unicode': lambda n: "a='" + 'å中😀' * n + "'", 'pis': lambda n: '?x=y ' * n + 'a', 'nbsp': lambda n: "a='" + '\u00a0 ' * n + "'", 'cr': lambda n: "a='" + 'x\r\n' * n + "'",
                'trailing-blank': lambda n: "a='" + 'x   \n' * n + "'", 'short-quotes': lambda n: 'a{' + "'x'\n" * n + '}', 'tabs': lambda n: "a='" + '\t' * n + "x'", 'quote-in-quote': lambda n: "a='''''" + "x''''" * n + "'''''", 'ml-keys': lambda n: 'a{' + "b='x\n   y'\n" * n + '}',
                'attrs-one-each': lambda n: 'a{' + 'b(c=d) ' * n + '}', 'prefixed': lambda n: 'a(xmlns:p=u){' + 'p:b ' * n + '}', 'unclosed': lambda n: "a='" + 'x\n' * n, 'error-at-end': lambda n: 'a{' + 'b\n' * n + ')', 'error-long-line': lambda n: 'a{' + 'b ' * n + ')'}.items():
            X[nm] = f
    elif kind == 'json':
        X = {'string': lambda n: '"' + 'xy' * n + '"', 'escapes': lambda n: '"' + '\\n\\t' * n + '"', 'unicode-escapes': lambda n: '"' + '\\u00e5' * n + '"', 'array': lambda n: '[' + '1,' * n + '1]', 'strings': lambda n: '[' + '"ab",' * n + '1]', 'objects': lambda n: '[' + '{"a":1},' * n + '1]',
             'keys': lambda n: '{' + ','.join('"k%d":%d' % (i, i) for i in range(n)) + '}', 'digits': lambda n: '1' * n, 'blank': lambda n: '[' + ' ' * n + ']', 'arrays': lambda n: '[' + '[],' * n + '[]]', 'literals': lambda n: '[' + 'true,null,' * n + '1]', 'long-key': lambda n: '{"' + 'k' * n + '":1}',
             'unclosed': lambda n: '["' + 'x' * n, 'error-at-end': lambda n: '[' + '1,\n' * n + '}', 'multiline': lambda n: '{"a":"' + 'x\\n' * n + '"}', 'quotes': lambda n: '{"a":"' + "'" * n + '"}'}
    else:
        X = {'text': lambda n: '<a>' + 'xy ' * n + '</a>', 'lines': lambda n: '<a>' + 'xy\n  ' * n + '</a>', 'siblings': lambda n: '<a>' + '<b/>' * n + '</a>', 'mixed': lambda n: '<a>' + 'x<b/>' * n + '</a>', 'comments': lambda n: '<a>' + '<!--x-->' * n + '</a>', 'char-refs': lambda n: '<a>' + '&#10;x' * n + '</a>',
             'entities': lambda n: '<a>' + '&lt;x' * n + '</a>', 'indented': lambda n: '<a>\n' + '  <b>c</b>\n' * n + '</a>', 'comment': lambda n: '<a><!--' + 'x\n' * n + '--></a>', 'apostrophes': lambda n: '<a>' + "'" * n + '</a>', 'blank': lambda n: '<a> ' + ' \n' * n + '</a>', 'pis': lambda n: '<a>' + '<?x y?>' * n + '</a>',
             'cdata': lambda n: '<a><![CDATA[' + 'x\n' * n + ']]></a>', 'cdatas': lambda n: '<a>' + '<![CDATA[x]]><b/>' * n + '</a>', 'attr-value': lambda n: '<a b="' + 'xy ' * n + '"/>', 'attr-newlines': lambda n: '<a b="' + 'x&#10;' * n + '"/>', 'unicode': lambda n: '<a>' + 'å中😀' * n + '</a>', 'lead': lambda n: ' ' * n + '<a/>',
             'lead-comments': lambda n: '<!--x-->' * n + '<a/>', 'prefixed': lambda n: '<a xmlns:p="u">' + '<p:b/>' * n + '</a>', 'nbsp': lambda n: '<a>' + '\u00a0 ' * n + '</a>', 'html-p': lambda n: '<html><body>' + '<p>x</p>\n' * n + '</body></html>', 'html-pre': lambda n: '<html><body><pre>' + 'x\n ' * n + '</pre></body></html>'}
    return X
OPS = {'xmq': ['of=xmq', 'of=xmq,compact=1', 'of=xmq,render=html', 'of=xmq,render=tex,n7=1', 'of=xmq,render=terminal,color=1,nl=1', 'of=xml', 'of=json', 'of=text', 'of=clines', 'of=html']}
# shapes whose cost is known to grow faster
def run(ctx, kind):
    srv = Server(build.build_work(), cpu=200)
    N = ctx.scale(3000, 10000)
    reqs = []; meta = []
    for nm, f in shapes(kind).items():
        tys = {'xmq': [(XMQ, 0), (HTMQ, 0)], 'json': [(JSON, 0)], 'xml': [(XML, 0), (XML, TRIM_NONE), (HTML, 0)]}[kind]
        for ty, fl in tys:
            ops = OPS['xmq']
            tok = kind == 'xmq' and ty == XMQ
            for n in (N, 2 * N, 4 * N):
                t = f(n)
                q = [('parse', '0', str(ty), str(fl), '', 'e', t), ('work',)]
                for o in ops: q += [('printq', '0', o), ('work',)]
                if tok: q += [('tok', '0', '', 'e', t), ('work',), ('tok', '3', 'render=html', 'e', t), ('work',)]
                q += [('free', '0'), ('work',)]
                reqs.append(q); meta.append((nm, ty, fl, n, ['parse'] + ops + (['tokenize', 'tokenize-html'] if tok else []) + ['free']))
    out = srv.run(reqs, batch=3)
    for i in range(0, len(reqs), 3):
        nm, ty, fl, n, ops = meta[i]
        if any(isinstance(out[i + k], Crash) for k in range(3)):
            for k in range(3): ctx.bad(out[i + k], reqs[i + k], 'growing')
            continue
        w = [[x for x in out[i + k]['r'] if isinstance(x, list) and len(x) == 2 and all(isinstance(y, int) for y in x)] for k in range(3)]
        for j, o in enumerate(ops):
            e = [sum(w[k][j]) for k in range(3)]
            d1, d2 = e[1] - e[0], e[2] - e[1]
            ctx.count('growth-measured')
            ctx.case('%s %s %d %d %s' % (kind, nm, ty, fl, o))
            # linear: d2 = 2 d1; buffers that double add jumps
            if e[2] > 60 * 4 * N and d2 > 3.2 * max(d1, e[0]):
                ctx.violation('growth:%s:%s:%s' % (kind, nm, o), '%s type %d flags %d, %s: sizes %s cost %s' % (nm, ty, fl, o, [n, 2 * n, 4 * n], e), {'request': jreq([reqs[i + 2][0]] + [x for x in reqs[i + 2] if x[0] == 'printq' and x[2] == o])})
