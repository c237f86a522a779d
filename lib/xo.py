"""Independent view of XML texts: expat."""
import xml.parsers.expat as X

def parse(b, comments=True):
    """Normal form of an XML text as expat sees it; None if it is not namespace well-formed."""
    p = X.ParserCreate(namespace_separator='\x01'); p.namespace_prefixes = True; p.buffer_text = True
    p.ordered_attributes = True
    top = []; st = [top]; ns = []; info = {'doctype': None, 'entities': False}
    def name(n):
        q = n.split('\x01')
        return (q[0], q[1], q[2] if len(q) > 2 else '') if len(q) > 1 else ('', q[0], '')
    def start(n, at):
        kids = []
        st[-1].append(['e', name(n), sorted(ns), sorted((name(at[i]), at[i + 1]) for i in range(0, len(at), 2)), kids]); ns.clear(); st.append(kids)
    def end(n): st.pop()
    def text(t):
        if len(st) == 1: return
        if st[-1] and st[-1][-1][0] == 't': st[-1][-1][1] += t
        else: st[-1].append(['t', t])
    p.StartElementHandler = start; p.EndElementHandler = end; p.CharacterDataHandler = text
    p.CommentHandler = lambda c: st[-1].append(['c', c]) if not info.get('indtd') else None
    p.ProcessingInstructionHandler = lambda t, d: st[-1].append(['p', t, d]) if not info.get('indtd') else None
    p.StartNamespaceDeclHandler = lambda pr, uri: ns.append((pr or '', uri or ''))
    def sd(*a): info['doctype'] = a; info['indtd'] = True
    def ed(*a): info['indtd'] = False
    p.StartDoctypeDeclHandler = sd; p.EndDoctypeDeclHandler = ed
    def ent(*a): info['entities'] = True
    p.EntityDeclHandler = ent; p.AttlistDeclHandler = ent; p.ElementDeclHandler = ent; p.NotationDeclHandler = ent
    p.SkippedEntityHandler = ent
    try: p.Parse(b, True)
    except X.ExpatError: return None, info
    return top, info

def diff(a, b, path=''):
    """Kind of the first difference."""
    if len(a) != len(b): 
        for x, y in zip(a, b):
            if x[0] != y[0]: return 'kind:%s-%s' % (x[0], y[0])
            if x != y: return diff([x], [y])
        return 'count'
    for x, y in zip(a, b):
        if x == y: continue
        if x[0] != y[0]: return 'kind:%s-%s' % (x[0], y[0])
        if x[0] == 'e':
            if x[1] != y[1]: return 'name'
            if x[2] != y[2]: return 'nsdecl'
            if x[3] != y[3]: return 'attributes'
            return diff(x[4], y[4])
        return {'t': 'text', 'c': 'comment', 'p': 'pi'}[x[0]]
    return 'none'
