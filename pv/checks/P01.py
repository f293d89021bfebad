"""Pretty-printing changes white space between elements and nothing else."""
import copy
import io
import os
import re
import xml.etree.ElementTree as ET
from .. import real, spec
from ..core import Violation
from ..docs import Content, Style, attr_xml, compare, excerpt, reader_args, render, text_xml
from .R05 import NAMES

XML = u'{http://www.w3.org/XML/1998/namespace}'
WS = u' \t\n\r'
TEXTS = [u'text', u' padded ', u'two\nlines', u'a & b < c > d', u'\u00e9\u20ac\u6f22\U0001F600', u'&amp;', u']]>', u'"quoted" \'x\'', u'0', u'None', u' x\n ', u'-', u'--', u'.', u'\\', u'_', u'\u200b', u'\ufeff', u'x' * 3000, u'\n-\n']
SPACE = [u'', u'', u' ', u'\n', u'\n    ', u'\t', u'\n\n']


def blank(t):
    return not t or not t.strip()


def tree(rng, depth, width, mixed, tag=None):
    e = ET.Element(tag or rng.choice([u'a', u'b', u'{urn:x}c', u'{http://iec.ch/TC57/2010/CIM-schema-cim15#}Terminal', u'{http://www.w3.org/1999/02/22-rdf-syntax-ns#}RDF']))
    for k in rng.sample([u'k', u'{urn:y}q', u'{http://www.w3.org/1999/02/22-rdf-syntax-ns#}ID', u'z'], rng.randint(0, 3)):
        e.set(k, rng.choice(TEXTS).replace(u'\n', u' '))
    # attributes XML itself knows; the printer leaves them as they are, and takes no instructions from them but
    # those it always follows
    if rng.random() < 0.1:
        e.set(XML + u'space', rng.choice([u'default', u'preserve']))
    if rng.random() < 0.05:
        e.set(XML + rng.choice([u'lang', u'base', u'id']), rng.choice([u'en', u'de-CH', u'', u'x']))
    # width 0: a single line of descent down to the depth given
    n = (rng.randint(0, width) if width else rng.choice([1, 1, 1, 2])) if depth else 0
    if n == 0:
        # text of an element without children is its value, blank or not
        e.text = rng.choice(TEXTS + SPACE)
    else:
        e.text = rng.choice(TEXTS) if rng.random() < mixed else rng.choice(SPACE)
    for j in range(n):
        k = tree(rng, depth - 1 if width or not j else 0, width, mixed)
        k.tail = rng.choice(TEXTS) if rng.random() < mixed else rng.choice(SPACE)
        e.append(k)
    return e


def spelled(e, rng, style, scope=None):
    """The tree as text, under prefixes of all kinds, bound anywhere."""
    scope = dict(scope or {})
    new = {}

    def prefix(uri, attr):
        # '' is the default namespace; attributes have to have a prefix
        have = [p for p, u in scope.items() if u == uri and (p or not attr)]
        if not have or rng.random() < 0.1:
            p = rng.choice([u'p', u'q', u'cim', u'rdf', u'ns0', u'ns1', u'x-y', u'_', u'\u00e9'] + [u''] * 3 * (not attr))
            if p in new:
                p = next(q for q in (u'm%d' % k for k in range(99)) if q not in new)
            new[p] = scope[p] = uri
            return p
        return rng.choice(have)

    def split(t):
        return t[1:].split(u'}') if t[0] == u'{' else [u'', t]
    uri, tag = split(e.tag)
    if uri:
        p = prefix(uri, False)
    else:
        p = u''
        if scope.get(u''):
            new[u''] = scope[u''] = u''
    tag = (p + u':' if p else u'') + tag
    attrs = []
    for k, v in e.attrib.items():
        u, k = split(k)
        if u == XML[1:-1]:
            k = u'xml:' + k
        elif u:
            if not any(q and w == u for q, w in scope.items()):
                q = next(q for q in [u'q%d' % n for n in range(99)] + [u'p'] if q not in scope)
                new[q] = scope[q] = u
            k = rng.choice([q for q, w in scope.items() if q and w == u]) + u':' + k
        attrs.append((k, v))
    attrs += [(u'xmlns:' + q if q else u'xmlns', w) for q, w in new.items()]
    rng.shuffle(attrs)
    out = [u'<' + tag + u''.join(u' ' + attr_xml(k, v, style) for k, v in attrs)]
    kids = list(e)
    if not kids and not e.text and rng.random() < 0.5:
        return out[0] + u'/>'
    out.append(u'>' + text_xml(e.text or u'', style))
    for k in kids:
        out.append(spelled(k, rng, style, scope))
        out.append(text_xml(k.tail or u'', style))
    out.append(u'</%s>' % tag)
    return u''.join(out)


def canon(e, level=0):
    """Everything but white space between elements."""
    kids = list(e)
    t = (e.text or u'')
    if kids and blank(t):
        t = u''
    return (e.tag, tuple(sorted(e.attrib.items())), t,
            tuple((canon(k), u'' if blank(k.tail) else k.tail) for k in kids))


def laid_out(e, level=0, path=''):
    """Children without text around them stand on lines of their own, two blanks per level."""
    kids = list(e)
    path += '/' + e.tag
    inner, outer = u'\n' + (level + 1) * u'  ', u'\n' + level * u'  '
    if kids:
        if blank(e.text) and e.text != inner:
            raise Violation('%s: %r before the first child' % (path, e.text))
        for i, k in enumerate(kids):
            if blank(k.tail):
                want = outer if i == len(kids) - 1 else inner
                if k.tail != want:
                    raise Violation('%s: %r after child %d, not %r' % (path, k.tail, i, want))
            laid_out(k, level + 1, path)


def size(e):
    return 1 + sum(size(k) for k in e)


def judge(ctx, data, source, what):
    from PyCIM.PrettyPrintXML import xmlpp
    out = xmlpp(source)
    raw = out if isinstance(out, bytes) else out.encode('utf-8')
    before, after = ET.fromstring(data), ET.fromstring(raw)
    if canon(before) != canon(after):
        raise Violation('%s: pretty-printing changed the content' % what, before=excerpt(data, 1500), after=excerpt(raw, 1500))
    try:
        laid_out(after)
    except Violation as v:
        v.detail['after'] = excerpt(raw, 1500)
        raise
    again = xmlpp(io.BytesIO(raw))
    again = again if isinstance(again, bytes) else again.encode('utf-8')
    if again != raw:
        raise Violation('%s: pretty-printing twice differs from once' % what, once=excerpt(raw, 1500), twice=excerpt(again, 1500))
    ctx.count('elements', size(before))
    ctx.count('evaluations')
    ctx.seen('nontrivial', data)
    return raw


def one(ctx, i):
    from PyCIM.PrettyPrintXML import indent
    rng = ctx.rng(i)
    deep = i % 10 == 0
    mixed = rng.choice([0.0, 0.0, 0.3, 0.8])
    if deep:
        t = tree(rng, rng.choice([10, 25, 60, 150]), 0, mixed)
    elif i % 10 == 1:
        t = tree(rng, 1, 200, mixed)
    else:
        t = tree(rng, rng.randint(0, 4), rng.randint(1, 5), mixed)
    if deep or rng.random() < 0.5:
        data = ET.tostring(t, encoding=rng.choice(['utf-8', 'us-ascii', 'utf-16', 'iso-8859-1']))
    else:
        style = Style(rng)
        style.encoding = 'utf-8'
        data = spelled(t, rng, style).encode('utf-8')
        if canon(ET.fromstring(data)) != canon(t):
            raise AssertionError('the tree is misspelled')
        ctx.count('free_spellings')
    path = os.path.join(ctx.tmp(), rng.choice(NAMES) % i if i % 3 == 0 else 'p.xml')
    with open(path, 'wb') as f:
        f.write(data)
    k = rng.choice(['path', 'memory', 'file'])
    if k == 'path':
        raw = judge(ctx, data, path, k)
    elif k == 'memory':
        raw = judge(ctx, data, io.BytesIO(data), k)
    else:
        with open(path, 'rb') as f:
            raw = judge(ctx, data, f, k)
    with open(path, 'rb') as f:
        if f.read() != data:
            raise Violation('pretty-printing changed its source')
    # in place, on a tree of the caller
    a = ET.fromstring(data)
    r = indent(a)
    b = ET.fromstring(raw)
    if ET.tostring(a).strip() != ET.tostring(b).strip():
        raise Violation('indent() and the pretty-printed text differ', indent=ET.tostring(a)[:1500].decode(), text=ET.tostring(b)[:1500].decode())
    if i < 2:
        ctx.sample({'before': excerpt(data, 300), 'after': excerpt(raw, 300)})


def plain_style(rng):
    s = Style(plain=True)
    s.nl = rng.choice([u'', u'\n', u'  \n\t'])
    return s


def model(ctx, root, i):
    """The model in the document stays the same."""
    from PyCIM import cimread
    rng = ctx.rng('model', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([1, 5, 20]), links=1.5)
    for n in c.nodes:       # the standard serialiser does not keep carriage returns
        for j, (kind, q, p) in enumerate(n.stmts):
            if kind == 'text' and u'\r' in p:
                n.stmts[j] = (kind, q, p.replace(u'\r', u'_'))
                a = q.split('.')[1]
                n.obj.attrs[a] = n.stmts[j][2]
    data = render(c.nodes, root.ns, plain_style(rng))
    raw = judge(ctx, data, io.BytesIO(data), root.name)
    # the printer may choose other prefixes, so the model is named explicitly
    d = cimread(io.BytesIO(raw), *reader_args(root, True))
    compare(ctx, root, c.w.objs, d, what='after pretty-printing: ')
    ctx.count('models')


def utility(ctx, name):
    with open(real.DATA + name, 'rb') as f:
        data = f.read()
    judge(ctx, data, real.DATA + name, name)
    ctx.count('real_documents')


def run(ctx):
    ctx.rule = ('one case = a seeded element tree (with and without mixed content, blank texts, up to 150 levels) or a model document, '
                'pretty-printed from a path, a file or memory and compared with the original apart from white space between elements, '
                'with the published layout, and with its own second application; model documents are also read back and compared '
                'with their graph; non-trivial = compared; distinct = by document')
    ctx.assumptions = ['comments and processing instructions are not content', 'no carriage returns in texts',
                       'white space between elements is blank, tab, line feed and carriage return']
    n = ctx.size(16000, 80000)
    ctx.pmap(lambda sub, i: sub.case('tree %d' % i, one, sub, i), range(n))
    roots = spec.load()
    items = [(r.name, i) for r in roots.values() for i in range(ctx.size(60, 300))]
    ctx.pmap(lambda sub, it: sub.case('model %s %d' % it, model, sub, roots[it[0]], it[1]), items)
    ctx.pmap(lambda sub, it: sub.case('real %s' % it, utility, sub, it), [f for f, rt in real.FILES])
    ok = not ctx.violations
    ctx.need('free_spellings', 2000 if ok else 0)
    ctx.need('models', 200 if ok else 0)
    ctx.need('real_documents', 6 if ok else 0)
