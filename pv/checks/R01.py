"""One object of the right class per described element."""
import importlib
import io
import logging
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt, ident


def unknown_name(rng, root, classes):
    """The name of no class of the model, often close to that of one."""
    while True:
        n = rng.choice([u'NoSuchClass', u'FullModel', u'Foo-Bar', None, None])
        if n is None:
            c = rng.choice(classes).name
            n = rng.choice([u'Vendor.%s', u'%s.Vendor', u'%s.%s', u'%s2', u'x%s', u'%s_', u'_%s', u'%s-', u'Inf%s', u'%s.', u'Core.%s', u'lower', u'upper', u'cut'])
            n = {u'lower': c[0].lower() + c[1:], u'upper': c.upper(), u'cut': c[:-1]}.get(n) or n.replace(u'%s', c)
        if n not in root.C and n != u'Element':
            return n


def doc(ctx, root, rng, classes, style):
    c = Content(root, ctx, rng)
    for i, cls in enumerate(classes):
        c.new(cls, ident(rng, i))
    skipped = []
    for i in range(rng.randint(0, 3)):
        k = Node(unknown_name(rng, root, classes), u'_skip%d' % i)
        k.stmts = [('text', u'IdentifiedObject.name', u'n'), ('ref', u'NoSuchClass.x', u'#_skip0')][:rng.randint(0, 2)]
        c.nodes.insert(rng.randint(0, len(c.nodes)), k)
        skipped.append(k.name)
    data = render(c.nodes, root.ns, style)
    from PyCIM import cimread
    d = cimread(io.BytesIO(data), *reader_args(root))
    try:
        compare(ctx, root, c.w.objs, d)
    except Violation as v:
        v.detail['document'] = excerpt(data)
        raise
    ctx.count('evaluations')
    ctx.count('objects', len(classes))
    ctx.count('skipped_unknown', len(skipped))
    ctx.seen('nontrivial', data)
    for cls in classes:
        ctx.seen('classes', repr(cls))
    if len(classes) > 1:
        ctx.sample({'root': root.name, 'document': excerpt(data, 500)})


def large(ctx, root, rng, n):
    """Many objects of few classes: well past the parser's buffering."""
    cs = [rng.choice(root.elements) for _ in range(3)]
    doc(ctx, root, rng, [rng.choice(cs) for _ in range(n)], Style(rng))
    ctx.count('large_documents')


def compounds(ctx, root):
    """Known finding: value classes that are not elements cannot be read."""
    from PyCIM import cimread
    for cls in root.classes:
        if cls.element:
            continue
        data = render([Node(cls.name, u'_1')], root.ns, Style(plain=True))
        try:
            d = cimread(io.BytesIO(data))
            ok = list(d) == ['_1'] and d['_1'].UUID == '_1'
            err = 'not read with its identifier'
        except TypeError as e:
            ok, err = False, 'raises TypeError'
        ctx.count('compound_probes')
        if not ok:
            ctx.violation('an identified %s element %s' % (cls, err), key='compound-node:%s' % cls.name)


def run(ctx):
    ctx.rule = ('one case = a seeded document (random classes of one model or profile, identifiers, XML spelling, '
                'interspersed unknown classes) read and compared with the expected identifier -> class map; '
                'non-trivial = at least one known element; distinct = by document bytes')
    roots = spec.load()
    items = []
    rng = ctx.rng('plan')
    for root in roots.values():
        for rep in range(ctx.size(14, 60)):
            els = list(root.elements)
            rng.shuffle(els)
            while els:
                k = rng.choice([1, 1, 2, 5, 12, 30])
                part, els = els[:k], els[k:]
                part += [rng.choice(part) for _ in range(rng.choice([0, 0, 1, 5]))]
                items.append(('doc', root.name, rep, tuple(c.name for c in part)))
        for i in range(ctx.size(6, 16)):
            items.append(('large', root.name, i, rng.choice([300, 1500, 4000])))

    def one(sub, it):
        root = roots[it[1]]
        r = sub.rng(*it)
        if it[0] == 'doc':
            sub.case('%s document of %s' % (root.name, ', '.join(it[3])[:200]), doc, sub, root, r, [root.C[n] for n in it[3]], Style(r))
        else:
            sub.case('large %s document' % root.name, large, sub, root, r, it[3])
    ctx.pmap(one, items)
    compounds(ctx, roots['CIM15'])
    ctx.need('classes', 1600 if not ctx.violations else 1)
    ctx.need('large_documents', 10 if not ctx.violations else 0)
