"""Writing a model and reading it back gives the same model."""
import io
import os
from .. import real, spec
from ..core import Violation
from ..docs import Content, compare, reader_args, excerpt, loosen, realize, one_sided
from ..world import pyclass

MANY = 'many-to-many'


def write(ctx, d, rng, encoding):
    """(bytes or text written, function that reads it back)"""
    from PyCIM import cimread, cimwrite
    k = rng.random()
    if k < 0.4:
        out = io.StringIO()
        ok = cimwrite(d, out, encoding)
        text = out.getvalue()
        return ok, text, lambda *a: cimread(io.StringIO(text), *a)
    path = os.path.join(ctx.tmp(), 'out.xml')
    if k < 0.5:
        with open(path, 'w', encoding=encoding, errors='xmlcharrefreplace') as f:
            ok = cimwrite(d, f, encoding)
    else:
        ok = cimwrite(d, path, encoding)
    return ok, path, lambda *a: cimread(path, *a)


def check(ctx, root, objs, d, rng, encoding, what=''):
    ok, written, back = write(ctx, d, rng, encoding)
    if ok is not True:
        raise Violation('%swriting reports %r' % (what, ok))
    got = back(*reader_args(root))
    less, lost = one_sided(objs)
    try:
        compare(ctx, root, objs, got, what=what)
        if lost:
            ctx.count('many_to_many_links_kept', lost)
    except Violation as v:
        if not lost:
            v.detail['document'] = text(written)
            raise
        try:
            compare(ctx, root, less, got, what=what)
        except Violation as v2:
            v2.detail['document'] = text(written)
            raise v2
        ctx.count('many_to_many_links_lost', lost)
        ctx.violation('links between two lists are not in the written document: %s' % v.what, key=MANY, **v.detail)
    return got


def text(w):
    if os.path.exists(w):
        with open(w, 'rb') as f:
            return excerpt(f.read(), 2500)
    return w[:2500]


def generated(ctx, root, i):
    rng = ctx.rng(root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([0, 1, 4, 10, 25, 60]) or 1, links=rng.choice([0.5, 2.0, 4.0]), p_attr=rng.choice([0.1, 0.5, 1.0]))
    c.shuffle()
    d = realize(c)
    objs = c.w.objs
    compare(ctx, root, objs, d, what='before writing: ')
    if rng.random() < 0.4:
        ctx.count('values_of_other_types', loosen(rng, objs, d))
    keys = rng.choice(['own', 'own', 'other'])
    if keys == 'other':         # the dictionary's keys are the caller's business
        d = {'key %d' % j: o for j, o in enumerate(d.values())}
    got = check(ctx, root, objs, d, rng, rng.choice(['utf-8', 'us-ascii']))
    # a second generation, from what was read
    less, lost = one_sided(objs)
    if rng.random() < 0.3 and not lost:
        check(ctx, root, objs, got, rng, 'utf-8', 'second generation: ')
        ctx.count('second_generations')
    ctx.count('evaluations')
    ctx.count('objects', len(objs))
    ctx.seen('nontrivial', '%s/%d' % (root.name, i))
    for o in objs:
        ctx.seen('classes', repr(o.cls))
    if i == 0:
        ctx.sample({'root': root.name, 'objects': [repr(o) for o in objs[:6]]})


def chain(ctx, root, i):
    """Thousands of objects, each linked with the next."""
    from .R03 import long_chain
    rng = ctx.rng('chain', root.name, i)
    c = long_chain(ctx, root, rng, rng.choice([700, 1500]))
    c.shuffle()
    check(ctx, root, c.w.objs, realize(c), rng, rng.choice(['utf-8', 'us-ascii']), 'a long chain: ')
    ctx.count('evaluations')
    ctx.count('objects', len(c.w.objs))
    ctx.count('chains')
    ctx.seen('nontrivial', 'chain %s/%d' % (root.name, i))


def every(ctx, root, name):
    """One object of a class with every attribute set, and every single reference."""
    from ..docs import doc_value
    rng = ctx.rng('every', root.name, name)
    cls = root.C[name]
    c = Content(root, ctx, rng)
    n = c.new(cls, u'_all')
    for a in cls.all_attrs:
        a = cls.by_attr[a.name]
        for _ in range(20):
            v = doc_value(rng, a)
            if v is not None and v != a.default:
                c.attr(n, a, v)
                break
        ctx.seen('attributes', '%s.%s.%s' % (root.name, a.cls.name, a.name))
    from ..world import usable
    from ..gen import impedance_conflict
    used = 0
    for r in cls.all_refs:
        if not usable(cls, r) or impedance_conflict(n.obj, r) or not root.C[r.target].element:
            continue
        ts = [t for t in root.targets(r) if t.element and t.name != 'Element']
        if r.inv is not None:
            ts = [t for t in r.inv.cls.subs if t.element and usable(t, r.inv)]
        if not ts:
            continue
        m = c.new(rng.choice(ts), u'_t%d' % used)
        if c.linkable(n, r, m):
            c.link(n, r, m)
            used += 1
            if r.kind not in ('n:m', 'uni-many'):
                ctx.seen('references', r.key)
    d = realize(c)
    if rng.random() < 0.4:
        ctx.count('values_of_other_types', loosen(rng, c.w.objs, d, 0.5))
    check(ctx, root, c.w.objs, d, rng, 'utf-8')
    ctx.count('evaluations')
    ctx.seen('nontrivial', '%s.%s' % (root.name, name))


def utility(ctx, name, rt):
    from PyCIM import cimread
    root = spec.load()[rt]
    with open(real.DATA + name, 'rb') as f:
        reading = real.Reading(root, ctx).add(f.read())
    d = cimread(real.DATA + name)
    compare(ctx, root, reading.w.objs, d, what='as read: ')
    check(ctx, root, reading.w.objs, d, ctx.rng('real', name), 'utf-8', name + ': ')
    ctx.count('real_objects', len(d))
    ctx.count('evaluations')


def empty(ctx):
    from PyCIM import cimread, cimwrite
    out = io.StringIO()
    if cimwrite({}, out) is not True or cimread(io.StringIO(out.getvalue())) != {}:
        raise Violation('an empty model does not survive: %r' % out.getvalue())
    ctx.count('evaluations')


def compound(ctx):
    """A value of a compound class (CIM15), which is no element of its own."""
    from PyCIM import cimread, cimwrite
    root = spec.load()['CIM15']
    pairs = [(r, c) for c in root.elements for r in c.refs if not r.many and not root.C[r.target].element]
    for r, c in pairs:
        o = pyclass(c)(UUID='_o')
        setattr(o, r.name, pyclass(root.C[r.target])())
        ctx.count('compound_references')
        try:
            out = io.StringIO()
            cimwrite({'_o': o}, out)
            d = cimread(io.StringIO(out.getvalue()))
            got = getattr(d['_o'], r.name)
            if type(got) is not pyclass(root.C[r.target]):
                raise Violation('read back as %r' % (got,))
        except Exception as e:
            ctx.violation('%s with a %s: %s: %s' % (r.key, r.target, type(e).__name__, e), key='compound-value')


def run(ctx):
    ctx.rule = ('one case = a seeded object graph built through the public interface (every class, attribute, enumeration and '
                'single reference of all 16 models and profiles once, random graphs, chains of thousands of objects, the real data sets) written to a path, a '
                'text file or memory, read back, and compared object by object, value by value and link by link; non-trivial '
                '= compared; distinct = by graph')
    roots = spec.load()
    items = [('real', f, rt) for f, rt in real.FILES] + [('empty',), ('compound',)]
    items += [('chain', n, i) for n in ('CIM14', 'CIM15') for i in range(ctx.size(6, 40))]
    for r in roots.values():
        for i in range(ctx.size(300, 1500) if '.' not in r.name else ctx.size(60, 300)):
            items.append(('graph', r.name, i))
        items += [('every', r.name, c.name) for c in r.elements]

    def one(sub, it):
        if it[0] == 'real':
            sub.case('real %s' % it[1], utility, sub, it[1], it[2])
        elif it[0] == 'chain':
            sub.case('chain %s %d' % it[1:], chain, sub, roots[it[1]], it[2])
        elif it[0] == 'empty':
            sub.case('empty', empty, sub)
        elif it[0] == 'compound':
            sub.case('compound', compound, sub)
        elif it[0] == 'every':
            sub.case('every %s.%s' % it[1:], every, sub, roots[it[1]], it[2])
        else:
            sub.case('graph %s %d' % it[1:], generated, sub, roots[it[1]], it[2])
    ctx.pmap(one, items)
    ok = not ctx.violations
    ctx.need('classes', 500 if ok else 0)
    ctx.need('attributes', 1500 if ok else 0)
    ctx.need('references', 500 if ok else 0)
    ctx.need('real_objects', 10000 if ok else 0)
    ctx.need('values_of_other_types', 1000 if ok else 0)
