"""A text that is no number never becomes the value of a numeric property."""
import io
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt, lexical, doc_value

JUNK = [u'abc', u'1,5', u'1.2.3', u'--1', u'0x10', u'1 2', u'12kV', u'1e', u'e5', u'.', u'-', u'+', u'#1', u'1.5.', u'true', u'None', u'\u00bd', u'1/2',
        u'5%', u'~3', u'1-2', u'$7', u'9\u00b0', u'', u' ', u'\n', u'\u221e', u'1\u00a0000', u'(3)', u'<3>', u'1;2', u'1_000', u'1_5', u'2e1_0', u'_1', u'1_']
NOT_INT = [u'1.5', u'0.0', u'1e3', u'3.', u'1E0', u'-2.75']


def one(ctx, root, cls):
    from PyCIM import cimread
    rng = ctx.rng(repr(cls))
    nums = [cls.by_attr[a.name] for a in cls.all_attrs if cls.by_attr[a.name].type in ('float', 'int')]
    for a in nums:
        bads = rng.sample(JUNK, ctx.size(6, 12)) + (rng.sample(NOT_INT, 2) if a.type == 'int' else [])
        for bad in bads:
            c = Content(root, ctx, rng)
            n = c.new(cls, u'_n')
            others = [cls.by_attr[x.name] for x in cls.all_attrs if x.name != a.name]
            for x in rng.sample(others, min(2, len(others))):
                c.attr(n, x, doc_value(rng, x))
            before = rng.random() < 0.5
            if before:      # a readable value comes first
                c.attr(n, a, doc_value(rng, a))
            n.stmts.append(('text', u'%s.%s' % (a.cls.name, a.name), bad))
            start = {}
            if before and rng.random() < 0.5:   # in a document of its own
                last = n.stmts.pop()
                cimread(io.BytesIO(render(c.nodes, root.ns, Style(rng))), start_dict=start, *reader_args(root))
                n.stmts = [last]
                ctx.count('in_a_later_document')
            data = render(c.nodes, root.ns, Style(rng))
            try:
                d = cimread(io.BytesIO(data), start_dict=start, *reader_args(root))
            except Exception as e:
                ctx.count('refused')
                ctx.seen('errors', type(e).__name__)
                got = getattr(start['_n'], a.name) if '_n' in start else None
            else:
                ctx.count('left_out')
                got = getattr(d['_n'], a.name)
                # silently reading on is only right if nothing else is lost
                compare(ctx, root, c.w.objs, d)
            if got is not None and got not in (a.default, n.obj.attrs[a.name]):
                raise Violation('%s.%s: the text %r became the value %r' % (cls, a.name, bad, got), document=excerpt(data))
            ctx.count('evaluations')
            ctx.seen('nontrivial', (repr(cls), a.name, bad))
        ctx.seen('properties', '%s.%s' % (cls, a.name))
    if nums and rng.random() < 0.01:
        ctx.sample({'class': repr(cls), 'property': a.name, 'texts': bads})
    # and reading goes on normally afterwards
    c = Content(root, ctx, rng)
    n = c.new(cls, u'_ok')
    for a in nums:
        c.attr(n, a, doc_value(rng, a))
    compare(ctx, root, c.w.objs, cimread(io.BytesIO(render(c.nodes, root.ns, Style(rng))), *reader_args(root)), what='afterwards: ')


def run(ctx):
    ctx.rule = ('one case = one (class, numeric property, text that is no number of its type) triple: the read must fail or leave the '
                'property at its default or earlier value; every numeric property of every published class is covered; non-trivial = '
                'judged; distinct = by triple')
    roots = spec.load()
    items = [(r.name, c.name) for r in roots.values() for c in r.elements]
    ctx.pmap(lambda sub, it: sub.case('%s.%s' % it, one, sub, roots[it[0]], roots[it[0]].C[it[1]]), items)
    ctx.need('properties', 1500 if not ctx.violations else 0)
    ctx.need('refused', 1000 if not ctx.violations else 0)
