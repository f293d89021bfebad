"""The work done grows in proportion to the size of what is handled."""
import gc
import io
import os
import signal
import time
from .. import spec
from ..core import Violation
from ..docs import Content, Node, Style, compare, reader_args, render
from ..world import pyclass
from . import R11
from .R10 import NAMES

FACTOR = 12         # how much larger the larger one is
ALLOWED = 36        # how much more work that may take; in proportion: 12, as the square: 144
LEAST = 0.4         # seconds; less is not judged
MOST = 1.0          # seconds that the smaller one may take


class Null(object):
    def write(self, s):
        pass


class Enough(BaseException):
    pass


def enough(*args):
    raise Enough()


def best(f, times=2, limit=None):
    """The least processor time that f takes; None if it is beyond the limit."""
    b = None
    for _ in range(times):
        gc.collect()
        gc.disable()        # how often the collector runs depends on what else is there
        old = signal.signal(signal.SIGPROF, enough)
        try:
            if limit:
                signal.setitimer(signal.ITIMER_PROF, limit)
            t = time.process_time()
            f()
            t = time.process_time() - t
        except Enough:
            return b
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            gc.enable()
        b = t if b is None or t < b else b
    return b


def judge(ctx, what, make, n):
    """make(k)() does the same with k things."""
    if stopped(ctx):
        return
    # few enough for the least to take little, also where it takes far more than it should
    while True:
        small = make(n)
        a = best(small, 1, 2 * MOST)
        if a is not None and a <= MOST or n < 40:
            break
        n //= 3
    large = make(FACTOR * n)
    worst = []
    for attempt in range(3):
        a = best(small, 3)
        b = best(large, 1 if attempt == 0 else 2, max(LEAST, 1.3 * ALLOWED * a))
        if b is not None and b < LEAST:
            worst = None
            break
        worst.append(b / a if b is not None else 1.3 * ALLOWED)
        if worst[-1] <= ALLOWED:
            break
    else:
        stopped(ctx, True)
        raise Violation('%s: %d times as much takes %s times the work' % (what, FACTOR, ', '.join('%.0f' % x for x in worst)), sizes=[n, FACTOR * n])
    ctx.count('evaluations')
    if worst:
        ctx.count('judged')
        ctx.seen('ratios', '%s: %.1f' % (what, worst[-1]))
    else:
        ctx.count('too_quick_to_judge')
        ctx.seen('ratios', '%s: under %.1f s' % (what, LEAST))
    ctx.seen('nontrivial', (what, n))


def stopped(ctx, now=False):
    """Whether something was found, by any of the processes: the rest could take very long."""
    if now:
        open(ctx.flag, 'w').close()
    return os.path.exists(ctx.flag)


def documents(ctx, root, rng, n, shape):
    if shape in ('plain', 'foreign', 'notes', 'unknown', 'anonymous', 'dangling', 'odd', 'again'):
        c, data = R11.document(ctx, root, rng, n, shape)
        return data
    c = Content(root, ctx, rng)
    kinds = [k for k in root.elements if k.name != 'Element' and k.all_attrs]
    names = [k for k in kinds if 'name' in k.by_attr and k.by_attr['name'].type == 'str']
    if shape == 'names':                # ever new unknown properties
        for i in range(n):
            c.new(rng.choice(kinds), u'_%d' % i).stmts.append(('text', u'IdentifiedObject.other%d' % i, u'x'))
    elif shape == 'classes':            # ever new unknown classes
        nodes = []
        for i in range(n):
            x = Node(u'Thing%d' % i, u'_%d' % i)
            x.stmts = [('text', u'Thing%d.name' % i, u'x')]
            nodes.append(x)
        return render(nodes, root.ns, Style())
    elif shape == 'pairs':              # each refers to one that comes later
        pairs = [(r, q) for r, q in root.assocs() if r.kind == '1:1' and r.cls.element and q.cls.element] or \
                [(r, q) for r, q in root.assocs() if r.kind == 'n:1' and r.cls.element and q.cls.element]
        first, second = [], []
        for i in range(n // 2):
            r, q = rng.choice(pairs)
            first.append(Node(r.cls.name, u'_a%d' % i))
            first[-1].stmts = [('ref', u'%s.%s' % (r.cls.name, r.name), u'#_b%d' % i)]
            second.append(Node(q.cls.name, u'_b%d' % i))
        return render(first + second, root.ns, Style())
    elif shape == 'text':               # one long text
        c.new(rng.choice(names), u'_0').stmts.append(('text', u'IdentifiedObject.name', u'a long <text>\n' * n * 20))
    elif shape == 'statements':         # all in one object
        o = c.new(rng.choice(names), u'_0')
        o.stmts = [('text', u'IdentifiedObject.name', u'x%d' % i) for i in range(n * 4)]
    elif shape == 'comments':           # next to nothing but comments and instructions
        c.new(rng.choice(names), u'_0')
        return render(c.nodes, root.ns, Style()).replace(b'</rdf:RDF>', b'<!-- nothing -->\n<?no thing?>\n' * n * 4 + b'</rdf:RDF>')
    return render(c.nodes, root.ns, Style())


def reading(ctx, root, shape, n):
    from PyCIM import cimread
    rng = ctx.rng(root.name, shape)
    args = reader_args(root)

    def make(k):
        data = documents(ctx, root, rng, k, shape)
        return lambda: cimread(io.BytesIO(data), *args)
    judge(ctx, 'reading (%s, %s)' % (shape, root.name), make, n)


def path(ctx, root, shape, n):
    """The same by path, and into a dictionary that is there already."""
    from PyCIM import cimread
    rng = ctx.rng('path', root.name, shape)
    args = reader_args(root)

    def make(k):
        f = os.path.join(ctx.tmp(), 'scale%d.xml' % k)
        with open(f, 'wb') as h:
            h.write(documents(ctx, root, rng, k, shape))
        given = {u'k%d' % i: pyclass(root.elements[-1])(UUID=u'k%d' % i) for i in range(k)}
        return lambda: cimread(f, start_dict=given, *args)
    judge(ctx, 'reading by path (%s, %s)' % (shape, root.name), make, n)


def writing(ctx, root, shape, n):
    from PyCIM import cimread, cimwrite
    rng = ctx.rng('w', root.name, shape)
    args = reader_args(root)
    kept = {}       # one model is written in both encodings

    def model(m):
        if m not in kept:
            if shape == 'text':
                k = [x for x in root.elements if 'name' in x.by_attr][-1]
                kept[m] = {u'_': pyclass(k)(UUID=u'_', name=u'a long <text>\n\u20ac' * m * 60)}
            else:
                kept[m] = cimread(io.BytesIO(documents(ctx, root, rng, m, shape)), *args)
        return kept[m]

    def make(m, enc):
        d = model(m)
        return lambda: cimwrite(d, Null(), enc)
    for enc in ('utf-8', 'us-ascii'):
        judge(ctx, 'writing (%s, %s, %s)' % (shape, enc, root.name), lambda m: make(m, enc), n)


def pretty(ctx, root, shape, n):
    from PyCIM.PrettyPrintXML import xmlpp
    rng = ctx.rng('p', root.name, shape)

    def make(k):
        data = documents(ctx, root, rng, k, shape)
        return lambda: xmlpp(io.BytesIO(data))
    judge(ctx, 'pretty-printing (%s)' % shape, make, n)


def building(ctx, root, shape, n):
    from PyCIM.SimpleXMLWriter import XMLWriter

    def go(n):
        w = XMLWriter(Null(), 'utf-8')
        top = w.start(u'top')
        if shape == 'elements':
            for i in range(n):
                w.element(u'e', u'text %d' % i, {u'k': u'v'}, more=u'x')
        elif shape == 'data':
            for i in range(n):
                w.data(u'a piece of text & more ')
        elif shape == 'nested':
            for i in range(n):
                w.start(u'e')
                w.data(u'x')
        elif shape == 'nested, ended':
            for i in range(n):
                w.start(u'e%d' % i)
            for i in reversed(range(n)):
                w.end(u'e%d' % i)
        elif shape == 'comments':
            for i in range(n):
                w.comment(u'comment %d' % i)
        w.close(top)
    judge(ctx, 'the XML writer (%s)' % shape, lambda k: lambda: go(k), n)


def population(ctx, root, shape, n):
    """Many separate objects and pairs: what is done with one does not depend on how many there are."""
    rng = ctx.rng('pop', root.name)
    kinds = [pyclass(k) for k in rng.sample([k for k in root.elements if k.name != 'Element'], 12)]
    pairs = [(pyclass(r.cls), r.name, pyclass(q.cls)) for r, q in root.assocs() if r.kind in ('1:1', 'n:1') and r.cls.element and q.cls.element]
    pairs = rng.sample(pairs, min(12, len(pairs)))

    def go(n):
        keep = []
        for i in range(n):
            keep.append(kinds[i % len(kinds)](UUID=u'_%d' % i))
            a, name, b = pairs[i % len(pairs)]
            x, y = a(), b()
            setattr(x, name, y)
            setattr(x, name, None)
            setattr(x, name, y)
            keep.append(x)
    judge(ctx, 'building objects (%s)' % root.name, lambda k: lambda: go(k), n)


def run(ctx):
    ctx.rule = ('one case = one kind of use (reading documents of fourteen shapes, by stream or by path into a full dictionary; writing; pretty-printing; the XML writer by itself; building and linking objects) '
                'done with n and with %d n things while the processor time of the process is measured; a ratio beyond %d in three measurements running is a violation; '
                'non-trivial = measured; distinct = by use and shape' % (FACTOR, ALLOWED))
    ctx.assumptions = ['objects have a bounded number of links each (membership in a list of partners is looked up by going through it)', 'processor time is measured to within a factor of three']
    roots = spec.load()
    items = []
    n = ctx.size(4000, 10000)
    for name in ('CIM14', 'CIM15'):
        for shape in ('plain', 'foreign', 'notes', 'unknown', 'anonymous', 'dangling', 'odd', 'again', 'names', 'classes', 'pairs', 'text', 'statements', 'comments'):
            items.append((reading, name, shape, n))
        items += [(path, name, 'plain', n), (path, name, 'dangling', n), (writing, name, 'plain', 2 * n), (writing, name, 'pairs', 2 * n), (writing, name, 'text', 2 * n), (population, name, '', 2 * n)]
    items += [(pretty, 'CIM15', s, 2 * n) for s in ('plain', 'notes', 'text', 'statements', 'comments')]
    items += [(building, 'CIM15', s, 10 * n) for s in ('elements', 'data', 'nested', 'nested, ended', 'comments')]
    flag = os.path.join(ctx.tmp(), 'found')

    def one(sub, it):
        sub.flag = flag
        sub.case('%s %s %s' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2], it[3])
    ctx.pmap(one, items, procs=6)
    ctx.notes['ratios'] = sorted(ctx.sets['ratios'])
    ctx.need('judged', 12 if not ctx.violations else 0)
