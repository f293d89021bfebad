"""Property values are decoded according to their published type."""
import io
from .. import spec
from ..core import Violation
from ..docs import (Content, Style, Node, render, compare, reader_args, excerpt, ident, doc_value, lexical,
                    HOSTILE, string_value)

FLOATS = [(u'1', 1.0), (u'-0.5', -0.5), (u'+2.5', 2.5), (u'1e3', 1000.0), (u'1E-3', 0.001), (u' 4.25 ', 4.25), (u'\n7\n', 7.0),
          (u'.5', 0.5), (u'5.', 5.0), (u'0', 0.0), (u'-0', 0.0), (u'1e400', float('inf')), (u'12345678901234567890', 12345678901234567890.0),
          (u'0.1', 0.1), (u'1.7976931348623157e308', 1.7976931348623157e308), (u'5e-324', 5e-324), (u'007', 7.0), (u'3', 3.0)]
INTS = [(u'1', 1), (u'-7', -7), (u'+3', 3), (u' 12 ', 12), (u'\n0\n', 0), (u'2147483648', 2147483648), (u'-9223372036854775809', -9223372036854775809), (u'0042', 42)]
BOOLS = [(u'true', True), (u'false', False), (u'True', True), (u'False', False), (u'TRUE', True), (u'FALSE', False), (u'1', True),
         (u'0', False), (u' true ', True), (u' false\n', False), (u'\ttrue', True), (u'\n1\n', True)]


def values(rng, a, n):
    if a.enum:
        lits = list(a.literals)
        rng.shuffle(lits)
        return [(None, x) for x in lits[:n]]
    t = {'float': FLOATS, 'int': INTS, 'bool': BOOLS}.get(a.type)
    if t:
        # every run sees both truth values and a fresh selection of forms
        if a.type == 'bool':
            t = rng.sample([x for x in t if x[1]], 2) + rng.sample([x for x in t if not x[1]], 2)
            rng.shuffle(t)
            return t[:max(n, 2)]
        return rng.sample(t, min(n, len(t)))
    return [(s, s) for s in rng.sample(HOSTILE, min(n, len(HOSTILE)))] + [(s, s) for s in [string_value(rng)]]


def one_class(ctx, root, cls, n, plain):
    """Each published property of a class, own and inherited, on its own object."""
    rng = ctx.rng(repr(cls), plain)
    c = Content(root, ctx, rng)
    i = 0
    for a in cls.all_attrs:
        a = cls.by_attr[a.name]
        for lex, v in values(rng, a, n):
            node = c.new(cls, ident(rng, i))
            i += 1
            if lex is None:
                c.attr(node, a, v)
            else:
                node.obj.attrs[a.name] = v
                node.stmts.append(('text', u'%s.%s' % (a.cls.name, a.name), lex))
            ctx.count('values_' + ('enum' if a.enum else a.type))
            ctx.seen('properties', '%s.%s' % (cls, a.name))
            ctx.seen('nontrivial', (repr(cls), a.name, lex, v))
    # and everything at once
    for k in range(2):
        node = c.new(cls, ident(rng, i + k))
        for a in cls.all_attrs:
            a = cls.by_attr[a.name]
            c.attr(node, a, doc_value(rng, a))
        rng.shuffle(node.stmts)
    c.shuffle()
    read(ctx, root, c, Style(plain=True) if plain else Style(rng))


def read(ctx, root, c, style):
    from PyCIM import cimread
    data = render(c.nodes, root.ns, style)
    d = cimread(io.BytesIO(data), *reader_args(root))
    try:
        compare(ctx, root, c.w.objs, d)
    except Violation as v:
        v.detail['style'] = style.describe()
        v.detail['bytes'] = len(data)
        v.detail['document'] = excerpt(data)
        raise
    ctx.count('evaluations')
    ctx.count('document_bytes', len(data))
    if len(data) > 65536:
        ctx.count('documents_over_64k')


def empties(ctx, root, cls):
    """Empty string values; others are unaffected by an empty element."""
    rng = ctx.rng(repr(cls), 'empty')
    strs = [cls.by_attr[a.name] for a in cls.all_attrs if cls.by_attr[a.name].type == 'str' and not cls.by_attr[a.name].enum]
    if not strs:
        return
    c = Content(root, ctx, rng)
    n = c.new(cls, u'_1')
    for a in strs:
        c.attr(n, a, u'')
        ctx.count('empty_strings')
    read(ctx, root, c, Style(rng))


def nested_compound(ctx, root):
    """Known finding: values of compound type are written as nested elements."""
    from PyCIM import cimread
    cls = root.C['Organisation']
    data = render([Node('Organisation', u'_1')], root.ns, Style(plain=True)).replace(
        b'<cim:Organisation rdf:ID="_1"/>',
        b'<cim:Organisation rdf:ID="_1"><cim:Organisation.phone1><cim:TelephoneNumber><cim:TelephoneNumber.cityCode>030'
        b'</cim:TelephoneNumber.cityCode></cim:TelephoneNumber></cim:Organisation.phone1></cim:Organisation>')
    d = cimread(io.BytesIO(data))
    p = getattr(d['_1'], 'phone1', None)
    ctx.count('compound_probes')
    if getattr(p, 'cityCode', None) != '030':
        ctx.violation('a nested compound value is not read: Organisation.phone1 is %r' % (p,), key='nested-compound')


def run(ctx):
    ctx.rule = ('one case = one (class, property, lexical form) triple, read from a document in a seeded spelling and '
                'compared by value and type, all other properties of the object being compared with their defaults; '
                'every own and inherited property of every published class is covered; non-trivial = a value was '
                'stated; distinct = by class, property and lexical form')
    roots = spec.load()
    items = [(r.name, c.name) for r in roots.values() for c in r.elements]

    def one(sub, it):
        root = roots[it[0]]
        cls = root.C[it[1]]
        sub.case('values of %s' % cls, one_class, sub, root, cls, sub.size(6, 16), False)
        sub.case('values of %s, plain' % cls, one_class, sub, root, cls, sub.size(6, 16), True)
        sub.case('empty values of %s' % cls, empties, sub, root, cls)
    ctx.pmap(one, items)
    nested_compound(ctx, roots['CIM15'])
    n = sum(len(roots[r].C[c].all_attrs) for r, c in items)
    ctx.notes['properties_published'] = n
    ctx.need('properties', int(n * 0.9) if not ctx.violations else 1)
    ctx.sample({'class': 'CIM15.Breaker', 'lexical_forms': {'bool': [x[0] for x in BOOLS], 'float': [x[0] for x in FLOATS]}})
