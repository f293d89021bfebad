"""Equivalent XML spellings of a document give the same model."""
import io
from .. import spec
from ..core import Violation
from ..docs import Content, Style, render, compare, reader_args, excerpt


def one(ctx, root, i):
    from PyCIM import cimread
    rng = ctx.rng(root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([2, 5, 10, 30]), links=1.5)
    axes = set()
    for k in range(ctx.size(6, 10)):
        style = Style(plain=True) if k == 0 else Style(rng)
        args = reader_args(root)
        if k and rng.random() < 0.35:
            # With an explicit namespace the prefixes are free.
            style.cim = rng.choice(['x', 'iec', 'CIM', '', 'cim15', 'rdf2'])
            style.rdf = rng.choice(['rdf', 'r', 'RDF'])
            args = reader_args(root, True)
        if k:
            c.shuffle()
        data = render(c.nodes, root.ns, style)
        try:
            d = cimread(io.BytesIO(data), *args)
            compare(ctx, root, c.w.objs, d)
        except Violation as v:
            v.detail['style'] = style.describe()
            v.detail['document'] = excerpt(data, 1500)
            raise
        except Exception as e:
            raise Violation('%s while reading: %s' % (type(e).__name__, e), style=style.describe(), document=excerpt(data, 1500))
        ctx.count('evaluations')
        ctx.seen('nontrivial', data)
        ctx.seen('styles', repr(sorted((a, str(b)) for a, b in style.describe().items())))
        ctx.count('encoding_' + style.encoding)
    if i == 0:
        ctx.sample({'root': root.name, 'style': style.describe(), 'document': excerpt(data, 500)})


def run(ctx):
    ctx.rule = ('one case = one seeded object graph written in one of several XML spellings (encoding, byte-order mark, '
                'prefixes, default namespace, quoting, white space, comments, processing instructions, CDATA, character and '
                'internal entity references, rdf:ID or rdf:about, empty-element form, statement and element order), read and '
                'compared with the graph; non-trivial = document read; distinct = by document bytes')
    roots = spec.load()
    items = [(r.name, i) for r in roots.values() for i in range(ctx.size(160, 800))]
    ctx.pmap(lambda sub, it: sub.case('graph %s %d' % it, one, sub, roots[it[0]], it[1]), items)
    ctx.need('nontrivial', len(items) * 3 if not ctx.violations else 0)
    ctx.need('styles', 100)
