"""Abstract CIM documents, an independent serialiser, and the reading oracle.

A document is a list of nodes; a node is a class name, an identifier and
statements.  `render` writes it in one of very many equivalent XML forms;
`expect` says, from the published model alone, which objects, values and links
a reader has to produce; `compare` checks what it did produce.
"""
import importlib
import random
from decimal import Decimal

from . import spec
from .core import Violation
from .world import Obj, World, usable, value, pyclass
from .gen import candidates, grow, impedance_conflict


class Node(object):
    def __init__(self, name, ident, cls=None, obj=None):
        self.name, self.id, self.cls, self.obj = name, ident, cls, obj
        self.stmts = []     # (kind, qualified name, payload)
        self.foreign = False


class Style(object):
    """One way of writing XML down."""
    def __init__(self, rng=None, plain=False):
        self.plain = plain or rng is None
        self.rng = rng or random.Random(0)
        if self.plain:
            self.encoding, self.bom, self.about, self.noise = 'utf-8', False, 0.0, 0.0
            self.nl, self.cdata, self.comments, self.charrefs, self.entities = u'\n', 0.0, 0.0, 0.0, False
            self.decl = True
            self.local = 0.0
            self.late = False
            self.cim, self.rdf = 'cim', 'rdf'
        else:
            self.encoding = rng.choice(['utf-8'] * 5 + ['utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig'])
            self.about = rng.choice([0.0, 0.0, 0.5, 1.0])
            self.noise = rng.choice([0.0, 0.3, 0.8])
            self.nl = rng.choice([u'\n', u'\r\n', u'', u' \n\t'])
            self.cdata = rng.choice([0.0, 0.0, 0.4])
            self.comments = rng.choice([0.0, 0.0, 0.3])
            self.charrefs = rng.choice([0.0, 0.0, 0.3])
            self.entities = rng.random() < 0.15
            self.local = rng.choice([0.0, 0.0, 0.0, 0.4])   # prefixes bound on inner elements
            self.decl = rng.random() < 0.8 or self.encoding not in ('utf-8', 'utf-8-sig', 'utf-16')
            self.cim, self.rdf = 'cim', 'rdf'
            self.late = rng.random() < 0.08     # the namespace is bound by each object, not by the root

    def describe(self):
        return dict((k, v) for k, v in vars(self).items() if k not in ('rng', 'plain'))

    def p(self, x):
        return x and self.rng.random() < x


def esc_text(s, style):
    out = []
    for ch in s:
        if ch in u'&<>':
            out.append({u'&': u'&amp;', u'<': u'&lt;', u'>': u'&gt;'}[ch])
        elif ch == u'\r' or style.p(style.charrefs):
            out.append(u'&#%d;' % ord(ch) if style.plain or style.rng.random() < 0.5 else u'&#x%X;' % ord(ch))
        else:
            out.append(ch)
    return u''.join(out)


def text_xml(s, style):
    """Character data in one of its spellings."""
    if not s or style.plain:
        return esc_text(s, style)
    parts, i = [], 0
    rng = style.rng
    while i < len(s):
        n = rng.randint(1, max(1, len(s) - i))
        piece = s[i:i + n]
        i += n
        if style.p(style.cdata) and u']]>' not in piece and u'\r' not in piece and encodable(piece, style):
            parts.append(u'<![CDATA[' + piece + u']]>')
        else:
            parts.append(esc_text(piece, style))
        if style.p(style.comments):
            parts.append(rng.choice([u'<!-- c -->', u'<!--x-->', u'<?pi data?>']))
    return u''.join(parts)


def encodable(s, style):
    enc = 'utf-8' if style.encoding == 'utf-8-sig' else style.encoding
    try:
        s.encode(enc)
        return True
    except UnicodeError:
        return False


def attr_xml(name, val, style):
    q = u'"'
    if not style.plain and style.rng.random() < 0.4:
        q = u"'"
    v = val.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(q, u'&quot;' if q == u'"' else u'&apos;')
    v = v.replace(u'\t', u'&#9;').replace(u'\n', u'&#10;').replace(u'\r', u'&#13;')
    eq = u'='
    if not style.plain and style.p(0.1):
        eq = style.rng.choice([u' =', u'= ', u' = '])
    return u'%s%s%s%s%s' % (name, eq, q, v, q)


def tag_ws(style):
    if style.plain or not style.p(0.3):
        return u' '
    return style.rng.choice([u'  ', u'\n', u' \t', u'\n  '])


def filler(style):
    if style.plain:
        return u''
    out = style.nl
    if style.p(style.comments):
        out += style.rng.choice([u'<!-- a comment with <cim:Fake rdf:ID="z"/> in it -->', u'<!---->', u'<?app keep?>'])
        out += style.nl
    return out


def local_prefixes(style, first, ns, decls):
    """Prefixes for one element and what is inside of it; the usual ones may
    mean something else there, once the document has bound them."""
    rng = style.rng
    c, r = rng.choice([u'c', u'c', u'loc', u'']), rng.choice([u'r', u'loc2'])
    decls.append((u'xmlns:' + c if c else u'xmlns', ns + u'#'))
    decls.append((u'xmlns:' + r, spec.RDF))
    for p in ('cim', 'rdf'):
        # a prefix that the root element does not bind is left alone in the
        # first element: nothing tells it from the prefix of the document
        if (p in (style.cim, style.rdf) or p == 'rdf' or not first) and rng.random() < 0.4:
            decls.append((u'xmlns:' + p, rng.choice([u'urn:x-other:%s' % p, u'http://example.com/%s#' % p])))
    return (lambda n: u'%s:%s' % (c, n) if c else n), r


def render(nodes, ns, style, extra_ns=(), root_noise=True):
    """The document as bytes."""
    rng = style.rng
    cim, rdf = style.cim, style.rdf
    cq = lambda n: u'%s:%s' % (cim, n) if cim else n
    cdecl = u'xmlns:' + cim if cim else u'xmlns'
    root_cq, root_rdf = cq, rdf
    w = []
    enc = {'utf-8-sig': 'utf-8'}.get(style.encoding, style.encoding)
    if style.decl:
        q = u'"' if style.plain or rng.random() < 0.7 else u"'"
        w.append(u'<?xml version=%s1.0%s' % (q, q))
        if enc != 'utf-8' or (not style.plain and rng.random() < 0.7):
            w.append(u' encoding=%s%s%s' % (q, enc.upper() if style.plain or rng.random() < 0.5 else enc, q))
        w.append(u'?>' + u'\n')
    late = style.late and bool(nodes) and not nodes[0].foreign
    local = 0.0 if late else style.local
    nsdecl = [(u'xmlns:' + rdf, spec.RDF)] + ([] if late else [(cdecl, ns + u'#')])
    entities = style.entities and not late and u'%' not in ns      # which is a reference of its own there
    if entities:
        w.append(u'<!DOCTYPE %s:RDF [\n<!ENTITY cimns "%s#">\n]>\n' % (rdf, ns))
    nsdecl += [(u'xmlns:' + p, u) for p, u in extra_ns]
    if not style.plain:
        if rdf != u'rdf' and cim != u'rdf' and u'rdf' not in dict(extra_ns) and style.p(0.2):
            nsdecl.append((u'xmlns:rdf', rng.choice([u'urn:x-other:rdf', u'http://example.com/rdf#'])))
        rng.shuffle(nsdecl)
        if style.p(0.3):
            nsdecl.append((u'xml:base', u'http://example.org/model'))
    w.append(u'<%s:RDF' % rdf)
    for k, v in nsdecl:
        if entities and k == cdecl:
            w.append(tag_ws(style) + u'%s="&cimns;"' % k)
        else:
            w.append(tag_ws(style) + attr_xml(k, v, style))
    w.append(u'>')
    for n in nodes:
        w.append(filler(style))
        cq, rdf = root_cq, root_rdf
        name = n.name if n.foreign else cq(n.name)
        attrs = []
        if late:
            attrs.append((cdecl, ns + u'#'))
        if style.p(local):
            cq, rdf = local_prefixes(style, n is nodes[0], ns, attrs)
            name = n.name if n.foreign else cq(n.name)
        if n.id is not None:
            if style.about and rng.random() < style.about:
                attrs.append((u'%s:about' % rdf, u'#' + n.id))
            else:
                attrs.append((u'%s:ID' % rdf, n.id))
        if not style.plain and style.p(0.1):
            attrs.insert(rng.randint(0, len(attrs)), (u'xml:lang', rng.choice([u'en', u'de', u'fr', u'pt-BR'])))
        w.append(u'<' + name + u''.join(tag_ws(style) + attr_xml(k, v, style) for k, v in attrs))
        if not n.stmts and (style.plain or rng.random() < 0.5):
            w.append(u'/>')
            continue
        w.append(u'>')
        ncq, nrdf = cq, rdf
        for kind, q, payload in n.stmts:
            w.append(filler(style))
            cq, rdf, decls = ncq, nrdf, []
            if kind != 'raw' and style.p(local):
                cq, rdf = local_prefixes(style, n is nodes[0], ns, decls)
            if kind != 'raw' and u':' not in q:
                q = cq(q)
            elif decls:
                cq, rdf, decls = ncq, nrdf, []
            if kind != 'raw' and not style.plain and style.p(0.1):
                # attributes that XML and RDF allow on any statement of its kind
                decls.append(rng.choice([(u'xml:lang', rng.choice([u'de', u'fr', u'en-GB', u'zh-Hant', u'', u'x-none'])), (u'xml:space', u'preserve'), (u'xml:space', u'default')] +
                                        ([(u'%s:datatype' % rdf, u'http://www.w3.org/2001/XMLSchema#string')] if kind == 'text' else [])))
            decls = u''.join(tag_ws(style) + attr_xml(k, v, style) for k, v in decls)
            if kind == 'raw':
                w.append(payload)
            elif kind == 'text':
                t = text_xml(payload, style)
                if t == u'' and (style.plain or rng.random() < 0.5):
                    w.append(u'<%s%s/>' % (q, decls))
                else:
                    w.append(u'<%s%s>%s</%s%s>' % (q, decls, t, q, u' ' if style.p(0.1) else u''))
            else:
                a = attr_xml(u'%s:resource' % rdf, payload, style)
                if entities and kind == 'enum' and payload.startswith(ns + u'#'):
                    a = u'%s:resource="&cimns;%s"' % (rdf, payload[len(ns) + 1:])
                if not style.plain and style.p(0.2):
                    w.append(u'<%s%s%s%s></%s>' % (q, decls, tag_ws(style), a, q))
                else:
                    w.append(u'<%s%s%s%s%s/>' % (q, decls, tag_ws(style), a, u'' if style.plain else rng.choice([u'', u' ', u'\n'])))
        w.append(filler(style))
        w.append(u'</' + name + u'>')
    rdf = root_rdf
    w.append(filler(style))
    w.append(u'</%s:RDF>' % rdf)
    if not style.plain and style.p(0.3):
        w.append(u'\n<!-- end -->\n')
    s = u''.join(w)
    if enc in ('us-ascii', 'iso-8859-1'):
        return s.encode(enc, 'xmlcharrefreplace')
    return s.encode(style.encoding)


# -- lexical forms ----------------------------------------------------------

def float_forms(rng, v):
    r = repr(v)
    if v != v or v in (float('inf'), float('-inf')):
        return r
    forms = [r, r, u'%.17g' % v, u'%.17e' % v, (u'%.17E' % v), u' ' + r, r + u'\n ', u'\n\t' + r + u'\n']
    if not r.startswith('-'):
        forms += [u'+' + r, u'0' + r]
    if v == int(v) and abs(v) < 1e15:
        forms += [u'%d' % v, u'%d.' % v, u'%d.000' % v]
    if 0 < v < 1 and 'e' not in r:
        forms += [r[1:]]
    return rng.choice(forms)


def int_forms(rng, v):
    forms = [u'%d' % v, u' %d' % v, u'%d\n' % v, u'\t%d ' % v]
    if v >= 0:
        forms += [u'+%d' % v, u'00%d' % v]
    return rng.choice(forms)


def bool_forms(rng, v):
    f = rng.choice([u'true', u'True', u'TRUE', u'1', u'true', u' true ', u'\ntrue\n'] if v else
                   [u'false', u'False', u'FALSE', u'0', u'false', u' false', u'false\n'])
    return f


def lexical(rng, a, v, exact=False):
    if a.type == 'float':
        return repr(v) if exact else float_forms(rng, v)
    if a.type == 'int':
        return u'%d' % v if exact else int_forms(rng, v)
    if a.type == 'bool':
        return (u'true' if v else u'false') if exact else bool_forms(rng, v)
    return v


HOSTILE = [u'', u' ', u'\n', u' lead', u'trail ', u'a\tb', u'two\nlines', u'carriage\rreturn', u'a&b', u'<tag>', u'a]]>b',
           u'"q"', u"it's", u'None', u'True', u'0', u'#frag', u'a.b.c', u'caf\u00e9', u'\u0416\u0443\u043a', u'\u6f22\u5b57',
           u'\U0001F600', u'e\u0301', u'\u00a0nb', u'\u2028ls', u'%20', u'&amp;', u'&#65;', u'cim:Terminal', u'-', u'\\', u'{}', u'%s']


def string_value(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice(HOSTILE)
    if k < 0.9:
        return u''.join(rng.choice(u'abcXYZ 0123456789-_.&<>"\'\u00e9\u20ac\n#') for _ in range(rng.randint(1, 30)))
    if k < 0.98:
        return u'w' * rng.choice([100, 1000, 5000])
    return rng.choice([u'long text ', u'\u00e9\u20ac', u'&<']) * rng.choice([2000, 9000])


def doc_value(rng, a):
    if a.type == 'str' and not a.enum:
        return string_value(rng)
    if a.type == 'float' and rng.random() < 0.2:
        return rng.choice([0.0, -1.0, 1e-300, 1e300, 5e-324, 1.7976931348623157e308, 3.141592653589793, 1e22, 123456789012345.0, float('inf'), float('-inf')])
    if a.type == 'int' and rng.random() < 0.1:
        return rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 40, 10 ** 15, 10 ** 16 + 1, 2 ** 53 + 1, 2 ** 63, -2 ** 63 - 1, 10 ** 30 + 7])
    return value(rng, a)


IDS = [u'_%d', u'id-%d', u'x%d.y', u'%d', u'_\u00e9%d', u'NS_%d_a', u'_a0c1e3d4-77b2-4d0f-%012d', u'a%dA', u'A%da', u'urn:uuid:%d', u'a b%d', u'a%%20b%d', u'x#%d', u'%d/y?z=1', u'~%d+', u'e\u0301%d', u' %d ',
       u'Terminal%d', u'_%d_' + u'l' * 300, u'"%d\'', u'<%d&>', u'#%d', u'##_%d']


def ident(rng, i, mix=True):
    return (rng.choice(IDS) if mix else IDS[0]) % i


# -- random content -----------------------------------------------------------

class Content(object):
    """A consistent object graph by the published model, and its statements."""
    def __init__(self, root, ctx, rng):
        self.root, self.rng, self.ctx = root, rng, ctx
        self.w = World(root, ctx, rng)
        self.nodes = []
        self.by_id = {}

    def new(self, cls, ident):
        o = Obj(cls, None, ident)
        self.w.objs.append(o)
        n = Node(cls.name, ident, cls, o)
        self.nodes.append(n)
        self.by_id[ident] = n
        return n

    def attr(self, n, a, v, exact=False):
        if v is None:
            return
        n.obj.attrs[a.name] = v
        q = u'%s.%s' % (a.cls.name, a.name)
        if a.enum:
            n.stmts.append(('enum', q, u'%s#%s.%s' % (self.root.ns, a.enum, v)))
        else:
            n.stmts.append(('text', q, lexical(self.rng, a, v, exact)))

    def link(self, n, r, m, sides=None):
        """n -r-> m, stated from either or both ends."""
        self.w.m_link(n.obj, r, m.obj)
        sides = sides or (self.rng.choice(['near', 'far', 'both']) if r.inv is not None else 'near')
        if sides in ('near', 'both'):
            n.stmts.append(('ref', u'%s.%s' % (r.cls.name, r.name), u'#' + m.id))
        if sides in ('far', 'both'):
            m.stmts.append(('ref', u'%s.%s' % (r.inv.cls.name, r.inv.name), u'#' + n.id))

    def linkable(self, n, r, m):
        """Linking them keeps the graph consistent, whatever the order."""
        if n is m and r.inv is not None and not r.many and not r.inv.many:
            return False
        if r.many:
            if m.obj in n.obj.many[r.name]:
                return False
        elif n.obj.one[r.name] is not None:
            return False
        q = r.inv
        if q is not None:
            if not usable(m.cls, q) or q.cls not in m.cls.chain or impedance_conflict(m.obj, q):
                return False
            if q.many:
                if n.obj in m.obj.many[q.name]:
                    return False
            elif m.obj.one[q.name] is not None:
                return False
        return True

    def populate(self, n, start=None, p_attr=0.4, links=2.0, mix_ids=True, exact=False, fmt=None):
        rng = self.rng
        for i, c in enumerate(grow(rng, self.root, n, start)):
            self.new(c, fmt % i if fmt else ident(rng, i, mix_ids))
        for node in self.nodes:
            for a in node.cls.all_attrs:
                a = node.cls.by_attr[a.name]
                if rng.random() < p_attr:
                    self.attr(node, a, doc_value(rng, a), exact)
        tries = int(links * n)
        for _ in range(tries):
            node = rng.choice(self.nodes)
            rs = [r for r in node.cls.all_refs if usable(node.cls, r) and not impedance_conflict(node.obj, r)]
            rng.shuffle(rs)
            for r in rs:
                t = self.root.C[r.target]
                ms = [m for m in self.nodes if t in m.cls.chain and self.linkable(node, r, m)]
                if ms:
                    self.link(node, r, rng.choice(ms))
                    break
        return self

    def shuffle(self):
        for n in self.nodes:
            self.rng.shuffle(n.stmts)
        self.rng.shuffle(self.nodes)


# -- the oracle ---------------------------------------------------------------

def same(got, want):
    if type(got) is not type(want):
        if not (isinstance(want, str) and isinstance(got, str)) or type(want) is bool:
            return False
    return got == want or (got != got and want != want)


def compare(ctx, root, objs, d, what='', keys=None):
    """The dictionary returned by a reader against the expected objects."""
    want_ids = set(o.id for o in objs) if keys is None else set(keys)
    if set(d) != want_ids:
        raise Violation('%sread identifiers differ: missing %r, unexpected %r' % (
            what, sorted(want_ids - set(d))[:5], sorted(set(d) - want_ids)[:5]))
    name = {id(r): k for k, r in d.items()}
    if len(name) != len(d):
        raise Violation('%sone object is returned under two identifiers' % what)
    n = 0
    for o in objs:
        real = d[o.id]
        if type(real) is not pyclass(o.cls):
            raise Violation('%sobject %r was read as %s.%s' % (what, o, type(real).__module__, type(real).__name__))
        if real.UUID != o.uuid:
            raise Violation('%sobject %r has identifier %r' % (what, o, real.UUID))
        for k, want in o.attrs.items():
            n += 1
            got = getattr(real, k, ctx)
            if not same(got, want):
                raise Violation('%s%r.%s should be %s but is %s' % (what, o, k, repr(want)[:120], repr(got)[:120] if got is not ctx else 'missing'), attribute='%s.%s' % (o.cls, k))
        for k, want in o.one.items():
            n += 1
            got = getattr(real, k, ctx)
            if got is not (d[want.id] if want is not None else None):
                raise Violation('%s%r.%s should be %r but is %r' % (what, o, k, want, name.get(id(got), repr(got)[:80])), reference='%s.%s' % (o.cls, k))
        for k, want in o.many.items():
            n += 1
            got = getattr(real, k, ())
            if len(got) == len(want) == 0:
                continue
            if sorted(map(id, got)) != sorted(id(d[x.id]) for x in want):
                raise Violation('%s%r.%s should be %r but is %r' % (what, o, k, want, [name.get(id(g), repr(g)[:40]) for g in got]), reference='%s.%s' % (o.cls, k))
    ctx.count('comparisons', n)


def reader_args(root, explicit=None):
    """packageMap/nsURI arguments to read a profile; none for a full model."""
    if '.' in root.name or explicit:
        return (importlib.import_module(root.name).packageMap, root.ns)
    return ()


def excerpt(data, n=900):
    return data[:n].decode('utf-8', 'replace')


# -- real objects and written documents -----------------------------------------

def realize(content):
    """Real objects for the nodes, built through the public interface."""
    real = {n.id: pyclass(n.cls)(UUID=n.id) for n in content.nodes}
    for n in content.nodes:
        for k, v in n.obj.attrs.items():
            if v != n.cls.by_attr[k].default:
                setattr(real[n.id], k, v)
        for k, v in n.obj.one.items():
            if v is not None and getattr(real[n.id], k) is not real[v.id]:
                setattr(real[n.id], k, real[v.id])
        for k, vs in n.obj.many.items():
            for v in vs:
                if not any(x is real[v.id] for x in getattr(real[n.id], k)):
                    (getattr(real[n.id], 'add' + k, None) or getattr(real[n.id], 'add_' + k))(real[v.id])
    return real


class Given(str):
    """A text of the caller's own type."""


class Measured(float):
    """A number of the caller's own type."""


def loosen(rng, objs, reals, p=0.2):
    """Some values are replaced by equal values of other types, as callers assign them: returns how many."""
    n = 0
    for o in objs:
        real = reals[o.id]
        for k, v in o.attrs.items():
            a = o.cls.by_attr[k]
            if a.enum or v is None or rng.random() > p:
                continue
            if a.type == 'float':
                if v != v or v in (float('inf'), float('-inf')):
                    continue
                t = rng.choice([int, int, Decimal, Measured])
                if t is int:
                    v = float(rng.choice([int(v) if abs(v) < 1e15 else 1, 1, 0, -3, 10 ** 6, 2 ** 40]))
                    o.attrs[k] = v
                u = t(repr(v)) if t is Decimal else t(v)
            elif a.type == 'str':
                u = Given(v)
            else:
                continue
            setattr(real, k, u)
            n += 1
    return n


def one_sided(objs):
    """The same objects without links between two lists: (copies, links left out)."""
    out, lost = [], 0
    copies = {id(o): Obj(o.cls, None, o.id) for o in objs}
    for o in objs:
        c = copies[id(o)]
        c.attrs = dict(o.attrs)
        c.one = {k: copies[id(v)] if v is not None else None for k, v in o.one.items()}
        for k, vs in o.many.items():
            if o.cls.by_ref[k].kind in ('n:m', 'uni-many'):
                lost += len(vs)
                c.many[k] = []
            else:
                c.many[k] = [copies[id(v)] for v in vs]
        out.append(c)
    return out, lost


class Parsed(object):
    """What a written document says, read with the standard library alone."""
    def __init__(self, data):
        import xml.etree.ElementTree as ET
        R = '{%s}' % spec.RDF
        top = ET.fromstring(data)
        self.root = top.tag
        self.nodes = []
        for e in top:
            ns, _, name = e.tag[1:].partition('}')
            attrs = dict(e.attrib)
            ident = attrs.pop(R + 'ID', None)
            if attrs:
                raise Violation('unexpected XML attributes %r on %s' % (attrs, e.tag))
            st = []
            for s in e:
                sns, _, q = s.tag[1:].partition('}')
                a = dict(s.attrib)
                res = a.pop(R + 'resource', None)
                if a or len(s):
                    raise Violation('unexpected content in %s: %r' % (s.tag, ET.tostring(s)[:200]))
                if sns != ns:
                    raise Violation('%s is in namespace %s inside of %s' % (q, sns, e.tag))
                st.append((q, res, s.text))
            if e.text and e.text.strip():
                raise Violation('stray text %r in %s' % (e.text[:50], e.tag))
            self.nodes.append((ns, name, ident, st))


def expected_text(a, v, text):
    text = text or u''
    if a.type == 'float':
        return float(text) == v or (v != v and text.lower() == 'nan')
    if a.type == 'int':
        return int(text) == v
    if a.type == 'bool':
        return text in ((u'true', u'1') if v else (u'false', u'0'))
    return text == v
