"""Writing and the XML writer hold on to a bounded part of the document."""
import gc
import os
import tracemalloc
from .. import spec
from ..core import Violation
from ..world import pyclass, value


class Count(object):
    """Takes everything and keeps nothing; notes how far behind the document is."""
    def __init__(self):
        self.n, self.most, self.calls = 0, 0, 0

    def write(self, s):
        self.n += len(s)
        self.calls += 1
        self.most = max(self.most, len(s))


def peak(f):
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        keep = f()
        gc.collect()
        after, most = tracemalloc.get_traced_memory()
        return most - max(before, after)    # what the result takes is not counted
    finally:
        tracemalloc.stop()


def model(root, rng, n, shape):
    d = {}
    kinds = [k for k in root.elements if 'name' in k.by_attr]
    kinds = rng.sample(kinds, min(8, len(kinds)))
    pairs = [(r, q) for r, q in root.assocs() if r.kind == 'n:1' and r.cls.element and q.cls.element and 'name' in r.cls.by_attr]
    r, q = rng.choice(pairs)
    classes = [pyclass(k) for k in kinds]
    hubs = [pyclass(q.cls)(UUID=u'_h%d' % i) for i in range(n // 50 + 1)] if shape == 'links' else []
    for i in range(n):
        u = u'_%d' % i
        if shape == 'links':
            d[u] = pyclass(r.cls)(UUID=u, name=u'n%d ' % i + u'x' * 700, **{r.name: hubs[i // 50]})
        elif shape == 'escapes':
            d[u] = classes[i % len(classes)](UUID=u, name=u'n%d <&>' % i + u'\u20ac' * 160 + u'"' * 160)
        elif shape == 'alike':
            d[u] = classes[0](UUID=u'_', name=u'x' * 700)
        else:
            k = kinds[i % len(kinds)]
            kw = {a.name: value(rng, k.by_attr[a.name]) for a in rng.sample(k.all_attrs, min(3, len(k.all_attrs)))}
            kw['name'] = u'n%d ' % i + u'text ' * 140
            d[u] = classes[i % len(classes)](UUID=u, **kw)
    return d


def one(ctx, root, shape, i):
    from PyCIM import cimwrite
    rng = ctx.rng(root.name, shape, i)
    n = ctx.size(8000, 40000)
    d = model(root, rng, n, shape)
    enc = rng.choice(['utf-8', 'us-ascii', 'iso-8859-15'] if shape != 'escapes' else ['utf-8', 'us-ascii'])
    cimwrite(dict(list(d.items())[:20]), Count(), enc)      # whatever is set up at the first use
    if i % 3 == 2:
        path = os.path.join(ctx.tmp(), 'out.xml')
        p = peak(lambda: cimwrite(d, path, enc))
        size, how = os.path.getsize(path), 'path'
    elif i % 3 == 1:
        path = os.path.join(ctx.tmp(), 'out.xml')
        with open(path, 'w', encoding=enc, errors='xmlcharrefreplace') as f:
            p = peak(lambda: cimwrite(d, f, enc))
        size, how = os.path.getsize(path), 'file'
    else:
        c = Count()
        p = peak(lambda: cimwrite(d, c, enc))
        size, how = c.n, 'stream'
        ctx.count('calls_of_write', c.calls)
    judge(ctx, 'writing (%s, %s, %s, %d)' % (root.name, shape, how, n), p, n, size)


def judge(ctx, what, p, n, size):
    # a list of the objects is no copy of the document
    allowed = 400000 + 128 * n
    if size < 2 * allowed:
        raise AssertionError('the document of %d bytes is too short to tell' % size)
    ctx.count('evaluations')
    ctx.count('bytes_written', size)
    ctx.seen('peaks', '%s: %d of %d KB' % (what[8:44], p >> 10, size >> 10))
    ctx.seen('nontrivial', what)
    ctx.sample({'what': what, 'held at most (bytes)': p, 'document (bytes)': size})
    if p > allowed:
        raise Violation('%s: %d KB of memory are held at once for a document of %d KB' % (what, p >> 10, size >> 10), allowed=allowed)


def calls(ctx, shape, i):
    """The XML writer by itself."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    n = ctx.size(20000, 100000)

    def go(c):
        w = XMLWriter(c, 'utf-8')
        top = w.start(u'top')
        for k in range(n):
            if shape == 'elements':
                w.element(u'e', u'text ' * 30, {u'k': u'v' * 50}, more=u'x' * 20)
            elif shape == 'comments':
                w.comment(u'comment ' * 40)
            elif shape == 'siblings':
                w.start(u'e%d' % (k % 10), {u'a': u'b' * 100})
                w.data(u'one ' * 20)
                w.data(u'two ' * 20)
                w.end()
            else:
                e = w.start(u'e', a=u'b' * 100)
                w.start(u'f')
                w.data(u'x' * 50)
                w.start(u'g', {u'long': u'y' * 50})
                w.close(e)
        w.close(top)
        w.flush()
    c = Count()
    p = peak(lambda: go(c))
    judge(ctx, 'calls of the XML writer (%s)' % shape, p, 0, c.n)


def run(ctx):
    ctx.rule = ('one case = a model of thousands of objects written to a stream, an open file or a path, or tens of thousands of calls of the XML writer, while the peak of the memory allocated '
                'in between is measured; more than 400 KB and 128 bytes per object is a violation (the documents are many times that); distinct = by use')
    ctx.assumptions = ['memory is what the allocator of the interpreter accounts for']
    roots = spec.load()
    items = [(one, n, s, i) for n in ('CIM14', 'CIM15') for s in ('plain', 'links', 'escapes', 'alike') for i in range(ctx.size(3, 9))]
    items += [(calls, s, 0) for s in ('elements', 'comments', 'siblings', 'closed')]

    def go(sub, it):
        sub.case(' '.join(map(str, it[1:])), it[0], sub, *([roots[it[1]]] + list(it[2:]) if it[0] is one else it[1:]))
    ctx.pmap(go, items)
    ctx.notes['observed'] = sorted(ctx.sets['peaks'])[:40]
    ctx.need('nontrivial', 20 if not ctx.violations else 0)
