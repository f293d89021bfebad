"""Reading holds on to a bounded part of the document, however long it is."""
import gc
import io
import os
import xml.etree.ElementTree as ET
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt
from ..world import usable
from . import W06

BOUND = 8000        # elements; one parser chunk is a few hundred to about 2000


def held():
    return sum(1 for o in gc.get_objects() if type(o) is ET.Element)


class Watched(object):
    """Counts, at some of its reads, the parsed elements that are still alive."""
    def __init__(self, data, every):
        self.b, self.size, self.every, self.n, self.peak, self.samples = io.BytesIO(data), len(data), every, 0, 0, 0

    def read(self, n=-1):
        self.n += 1
        if self.n % self.every == 0:
            self.peak = max(self.peak, held())
            self.samples += 1
        return self.b.read(n)

    def seek(self, *a):
        return self.b.seek(*a)


class Collected(object):
    """The same for a document read by its path: counts when the garbage
    collector runs, which it does whenever many objects are being kept."""
    def __init__(self):
        self.n, self.peak, self.samples = 0, 0, 0

    def __call__(self, phase, info):
        self.n += 1
        if phase == 'start' and (self.n < 20 or self.n % 16 == 0):
            self.peak = max(self.peak, held())
            self.samples += 1

    def __enter__(self):
        gc.callbacks.append(self)
        return self

    def __exit__(self, *a):
        gc.callbacks.remove(self)


def other(shape, i):
    x = Node({'notes': u'ext:Note', 'unknown': u'NoSuchClass', 'anonymous': u'Terminal'}[shape], u'_f%d' % i if shape == 'unknown' else None)
    x.foreign = shape == 'notes'
    x.stmts = [('text', u'ext:a' if x.foreign else u'IdentifiedObject.name', u'1'), ('text', u'ext:b', u'2')]
    return x


def document(ctx, root, rng, n, shape):
    """A long document of many small objects, and its expected graph."""
    c = Content(root, ctx, rng)
    cls = [x for x in root.elements if any(a.type == 'float' for a in x.all_attrs)]
    hub = None
    kinds = rng.sample(cls, min(len(cls), 6))
    pair = [(r, q) for r, q in root.assocs() if r.kind == 'n:1' and r.cls.element and q.cls.element and usable(r.cls, r) and usable(q.cls, q)]
    r, q = rng.choice(pair)
    if shape == 'star':
        hub = c.new(q.cls, u'_hub')
    for i in range(n if shape in ('plain', 'star', 'foreign', 'dangling', 'odd') else n // 4 if shape == 'again' else 40):
        k = r.cls if shape == 'star' else rng.choice(kinds)
        o = c.new(k, u'_%d' % i)
        for a in rng.sample(k.all_attrs, min(2, len(k.all_attrs))):
            a = k.by_attr[a.name]
            if a.type == 'float':
                c.attr(o, a, float(i), True)
            elif a.type == 'str' and not a.enum:
                c.attr(o, a, u'v%d' % i, True)
        if shape == 'dangling':
            ref = rng.choice(k.all_refs) if k.all_refs else None
            if ref is not None:
                o.stmts.append(('ref', u'%s.%s' % (ref.cls.name, ref.name), u'#_no%d' % i))
        if shape == 'odd':
            o.stmts.append(('text', u'%s.noSuch%d' % (k.name, i % 50), u'?'))
            o.stmts.append(('text', u'ext:odd', u'?'))
        if hub is not None:
            # linked directly: checking consistency pairwise would be quadratic
            o.obj.one[r.name] = hub.obj
            o.stmts.append(('ref', u'%s.%s' % (r.cls.name, r.name), u'#_hub'))
    if hub is not None:
        hub.obj.many[q.name] = [o.obj for o in c.nodes[1:]]
    nodes = list(c.nodes)
    if shape == 'foreign':
        for i in range(n // 2):
            x = Node(u'ext:Thing' if i % 2 else u'NoSuchClass', u'_f%d' % i)
            x.foreign = bool(i % 2)
            x.stmts = [('text', u'ext:a', u'1'), ('text', u'ext:b', u'2')]
            nodes.insert(rng.randint(0, len(nodes)), x)
    if shape == 'again':
        # the same objects described over and over
        for i in range(n):
            o = rng.choice(c.nodes)
            x = Node(o.name, o.id)
            x.stmts = list(o.stmts)
            nodes.append(x)
    if shape in ('notes', 'unknown', 'anonymous'):
        # a long stretch without a single known object
        at = rng.randint(0, len(nodes))
        nodes[at:at] = [other(shape, i) for i in range(n)]
    return c, render(nodes, root.ns, Style(), [(u'ext', u'http://example.com/x#')])


def one(ctx, root, shape, n, i):
    from PyCIM import cimread
    rng = ctx.rng(root.name, shape, n, i)
    c, data = document(ctx, root, rng, n, shape)
    gc.collect()
    before = held()
    if i % 2:
        src = Collected()
        path = os.path.join(ctx.tmp(), 'long.xml')
        with open(path, 'wb') as f:
            f.write(data)
        with src:
            d = cimread(path, *reader_args(root))
        ctx.count('by_path')
    else:
        src = Watched(data, max(1, len(data) // 65536 * 3 // 24))
        d = cimread(src, *reader_args(root))
    peak = src.peak - before
    compare(ctx, root, c.w.objs, d)
    total = data.count(b'</') + data.count(b'/>')
    ctx.count('evaluations')
    ctx.count('heap_samples', src.samples)
    ctx.count('elements_read', total)
    ctx.seen('peaks', '%s %d elements: %d alive' % (shape, total, peak))
    if src.samples >= 5:
        ctx.seen('nontrivial', data)
    ctx.sample({'shape': shape, 'elements': total, 'bytes': len(data), 'peak elements alive': peak, 'samples': src.samples})
    if peak > BOUND:
        raise Violation('%d of %d elements are alive at once while reading (bound %d)' % (peak, total, BOUND), shape=shape, root=root.name)
    del d
    gc.collect()
    left = held() - before
    if left > 100:
        raise Violation('%d parsed elements stay alive after reading' % left)


MARK = b'@@@@@@@@'      # stands for a number which is another one in each repetition


class Made(object):
    """A long document that is made while it is being read, so that none of it is there before."""
    def __init__(self, head, part, times, tail):
        self.head, self.part, self.times, self.tail = head, part, times, tail
        self.seek(0)

    def parts(self):
        return (self.part.replace(MARK, b'%08d' % i) for i in range(1, self.times + 1))

    def seek(self, *a):
        self.i, self.rest = 0, b''

    def read(self, n=-1):
        if n is None or n < 0:      # all of it is asked for
            self.seek()
            self.i = self.times + 2
            return self.head + b''.join(self.parts()) + self.tail
        while len(self.rest) < n and self.i < self.times + 2:
            self.rest += self.head if self.i == 0 else self.part.replace(MARK, b'%08d' % self.i) if self.i <= self.times else self.tail
            self.i += 1
        out, self.rest = self.rest[:n], self.rest[n:]
        return out


def memory(ctx, root, shape, i):
    """Not only the elements: what is allocated at once while a long document with few objects is read."""
    from PyCIM import cimread
    rng = ctx.rng('memory', root.name, shape, i)
    c = Content(root, ctx, rng).populate(rng.choice([1, 10, 40]), mix_ids=False)
    ns = [(u'ext', u'http://example.com/x#')]
    for n in c.nodes:
        for a, v in n.obj.attrs.items():
            if isinstance(v, type(u'')) and len(v) > 500:       # no megabytes in a single text
                n.obj.attrs[a] = u'x'
                n.stmts = [('text', q, u'x') if k == 'text' and q.endswith(u'.' + a) else (k, q, t) for k, q, t in n.stmts]
    head, tail = render(c.nodes, root.ns, Style(), ns).rsplit(b'</rdf:RDF>', 1)
    if shape == 'again':
        more = []
        for k in range(100):
            o = rng.choice(c.nodes)
            x = Node(o.name, o.id)
            x.stmts = [st for st in o.stmts if st[0] != 'ref']
            more.append(x)
    elif shape == 'dangling':
        more = []
        for k in range(100):
            x = Node(c.nodes[0].name, c.nodes[0].id)
            ref = [r for r in c.nodes[0].cls.all_refs if not r.many]
            x.stmts = [('ref', u'%s.%s' % (ref[0].cls.name, ref[0].name), u'#_absent@@@@@@@@-%d' % k)] if ref else []
            more.append(x)
    else:
        more = [other(shape, k) for k in range(100)]
        for k, x in enumerate(more):
            x.id = x.id and u'_f@@@@@@@@-%d' % k
            x.stmts = [(t, q, u'text %d @@@@@@@@' % k) for t, q, v in x.stmts]
    whole = render(more, root.ns, Style(), ns)
    inside = whole[whole.index(b'>', whole.index(b'RDF')) + 1:whole.rindex(b'</')]
    times = ctx.size(5000000, 20000000) // len(inside)
    tail = b'</rdf:RDF>' + tail
    args = reader_args(root)
    cimread(Made(head, inside, 1, tail), *args)       # whatever is set up at the first use
    source = Made(head, inside, times, tail)
    if i % 2:
        path = os.path.join(ctx.tmp(), 'made.xml')
        with open(path, 'wb') as f:
            f.write(head)
            f.writelines(source.parts())
            f.write(tail)
        source = rng.choice([path, open(path, 'rb')])
    box = []
    def go():
        box.append(cimread(source, *args))
        return box
    p = W06.peak(go)
    compare(ctx, root, c.w.objs, box[0])
    if hasattr(source, 'close'):
        source.close()
    ctx.count('evaluations')
    ctx.count('memory_peaks')
    size = len(head) + times * len(inside) + len(tail)
    ctx.seen('memory', '%s %s: %d of %d KB' % (root.name, shape, p >> 10, size >> 10))
    ctx.seen('nontrivial', (root.name, shape, i, size))
    if p > 1500000:
        raise Violation('%d KB of memory are held at once to read a document of %d KB with %d objects (%s)' % (p >> 10, size >> 10, len(c.nodes), shape), root=root.name)


def run(ctx):
    ctx.rule = ('one case = a generated document of 20 000 objects or more (independent objects, one hub referred to by all, interspersed '
                'with unknown and foreign elements, objects that state unresolved references or unknown properties, objects described again and again, or few objects next to a long stretch of foreign, unknown or unidentified elements), read while the parsed elements alive on the heap are counted at '
                'sampled reads of the stream or, when read by path, when the collector runs; or a document of megabytes with at most 40 objects, that comes from a stream which makes it as it is read or from a file, while the peak of the memory allocated meanwhile is measured; non-trivial = at least five heap samples; distinct = by document')
    ctx.assumptions = ['parsed elements are instances of the standard library element type, as far as any are kept',
                       'no single object has thousands of statements of its own']
    roots = spec.load()
    items = []
    for name in ('CIM14', 'CIM15'):
        for shape in ('plain', 'star', 'foreign', 'notes', 'unknown', 'anonymous', 'dangling', 'odd', 'again'):
            for i in range(ctx.size(2, 6)):
                items.append((name, shape, ctx.size(20000, 60000), i))
    ctx.pmap(lambda sub, it: sub.case('%s %s %d %d' % it, one, sub, roots[it[0]], it[1], it[2], it[3]), items)
    ctx.pmap(lambda sub, it: sub.case('memory %s %s %d' % it, memory, sub, roots[it[0]], it[1], it[2]),
             [(name, shape, i) for name in ('CIM14', 'CIM15') for shape in ('notes', 'unknown', 'anonymous', 'again', 'dangling') for i in range(ctx.size(2, 6))])
    ctx.notes['memory'] = sorted(map(str, ctx.sets['memory']))
    ctx.need('memory_peaks', 16 if not ctx.violations else 0)
    ctx.notes['bound'] = BOUND
    ctx.notes['observed'] = sorted(ctx.sets['peaks'])[:12]
    ctx.need('nontrivial', 4 if not ctx.violations else 0)
