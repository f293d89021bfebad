"""Nothing is retained of a document read, a model written, or a failed attempt."""
import collections
import gc
import io
import os
import random
import shutil
import tracemalloc
import weakref
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, compare, ident, reader_args, realize, render
from ..world import pyclass
from .M09 import holders
from .R10 import EXT, foreign_statement, misfit, near, noise_node, reserved


LONG = 4000     # characters of each name, identifier and text that is new each time


class Dict(collections.OrderedDict):
    pass        # can be referred to weakly


class Source(io.BytesIO):
    def __init__(self, data, fail=None):
        io.BytesIO.__init__(self, data)
        self.fail, self.n = fail, 0

    def read(self, n=-1):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            raise OSError(5, 'Input/output error')
        return io.BytesIO.read(self, min(n, 2000) if n and n > 0 else n)


class Target(object):
    def __init__(self, fail=None):
        self.fail, self.n, self.parts = fail, 0, []

    def write(self, s):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            raise OSError(28, 'No space left on device')
        self.parts.append(s)


def descriptors():
    return set(os.listdir('/proc/self/fd'))


def document(ctx, root, rng, tag, noisy):
    c = Content(root, ctx, rng).populate(rng.choice([2, 5, 12]), fmt='_%d' + tag)
    nodes, extra = list(c.nodes), ()
    if noisy:
        extra = EXT + near(root)
        ids = [n.id for n in nodes]
        for n in c.nodes:
            if rng.random() < 0.5:
                n.stmts.append(foreign_statement(rng, ids, n.cls))
                n.stmts.append(('text', u'%s.noSuch%s' % (n.name, tag), u'value' + tag))
                n.stmts.append(('ref', u'IdentifiedObject.nope', u'#gone' + tag))
                for r in rng.sample(n.cls.all_refs, min(3, len(n.cls.all_refs))):
                    n.stmts.append(('ref', u'%s.%s' % (r.cls.name, r.name), u'#gone' + tag))
                n.stmts.append(('text', u'%s.%s' % (n.name, rng.choice(reserved(pyclass(n.cls)))), u'value' + tag))
                for a in rng.sample(n.cls.all_attrs, min(3, len(n.cls.all_attrs))):
                    if a.type != 'str':     # says nothing: the value stays
                        n.stmts.append(('text', u'%s.%s' % (a.cls.name, a.name), u''))
                if n.cls.all_attrs + n.cls.all_refs:
                    n.stmts.append(misfit(rng, root, n.cls, ids)[1])
        for k in range(rng.randint(1, 4)):
            nodes.insert(rng.randint(0, len(nodes)), noise_node(rng, k, ids, u'Unknown' + tag))
    style = Style(rng, plain=not noisy)
    if style.encoding == 'utf-16':
        style.encoding = 'utf-8'
    return c, render(nodes, root.ns, style, extra)


MODES = ['path', 'stream', 'into', 'malformed', 'malformed path', 'failing', 'absent', 'write', 'write path', 'failing write', 'pretty', 'builder']


def attempt(ctx, root, rng, mode, tag, base, watch):
    """One use of the library; watch(name, object) for what has to vanish."""
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    from PyCIM.SimpleXMLWriter import XMLWriter
    c, data = document(ctx, root, rng, tag, rng.random() < 0.5)
    args = reader_args(root)
    path = os.path.join(base, 'doc.xml')
    fds = descriptors()
    held = []
    bad = 'malformed' in mode
    if bad:
        data = data[:rng.randint(len(data) // 3, len(data) - 8)]
    if 'path' in mode or mode == 'pretty':
        with open(path, 'wb') as f:
            f.write(data)
    failed = False
    try:
        if mode in ('path', 'malformed path'):
            d = cimread(path, *args)
            held.append(d)
        elif mode == 'absent':
            d = {}
            cimread(os.path.join(base, 'absent'), start_dict=d, *args)
        elif mode in ('stream', 'malformed', 'failing'):
            src = Source(data, rng.randint(1, 9) if mode == 'failing' else None)
            watch('the stream', src)
            d = cimread(src, *args)
            if src.closed:
                raise Violation('the stream given by the caller is closed')
            held.append(d)
        elif mode == 'into':
            d = Dict()
            mine = pyclass(rng.choice(c.nodes).cls)(UUID=u'mine' + tag)
            d[u'mine' + tag] = mine
            watch('the dictionary', d)
            watch('an object of the caller', mine)
            del mine
            src = Source(data)
            watch('the stream', src)
            cimread(src, start_dict=d, *args)
            held.append(d)
        else:
            d = realize(c)
            if mode == 'write':
                t = Target()
                watch('the target', t)
                cimwrite(d, t, rng.choice(['utf-8', 'us-ascii']))
            elif mode == 'failing write':
                t = Target(rng.randint(1, 30))
                watch('the target', t)
                cimwrite(d, t)
            elif mode == 'write path':
                cimwrite(d, path)
            elif mode == 'pretty':
                xmlpp(path)
            else:
                t = Target()
                w = XMLWriter(t, 'utf-8')
                watch('the target', t)
                watch('the XML writer', w)
                w.declaration()
                at = {u'k' + tag: u'v' + tag}
                top = w.start(u'e' + tag, at)
                for k in range(3):
                    w.element(u'x' + tag, u'text' + tag, at)
                w.comment(u'c' + tag)
                if rng.random() < 0.5:
                    w.close(top)
                del w
            held.append(d)
        for o in d.values():
            watch('an object', o)
    except Violation:
        raise
    except Exception as e:
        if mode not in ('malformed', 'malformed path', 'failing', 'failing write', 'absent'):
            raise
        failed = True
        e.__traceback__ = None
    more = descriptors() - fds
    if more and not failed:
        raise Violation('%d file(s) stay open after: %s' % (len(more), mode), mode=mode)
    return failed


def vanish(ctx, root, i):
    rng = ctx.rng('vanish', root.name, i)
    mode = MODES[i % len(MODES)]
    refs = []
    fds = descriptors()

    def watch(name, o):
        refs.append((name, type(o).__name__, weakref.ref(o)))
    failed = attempt(ctx, root, rng, mode, 'v%d' % i, ctx.tmp(), watch)
    del watch
    gc.collect()
    more = descriptors() - fds
    if more:
        raise Violation('%d file(s) stay open after: %s' % (len(more), mode))
    for name, kind, r in refs:
        if r() is not None:
            raise Violation('%s (%s) stays alive after: %s%s; held by %r' % (name, kind, mode, ', which failed' if failed else '', holders(r())))
        ctx.count('vanished')
    ctx.count('evaluations')
    ctx.count('mode_' + mode.replace(' ', '_'))
    ctx.count('failed_attempts', failed)
    ctx.seen('nontrivial', (root.name, i, len(refs)))


def kept(ctx, root, i):
    """The same again and again, each time with other names, identifiers, texts
    and paths, all of them long: the heap does not grow with the number of times."""
    n = ctx.size(160, 400)
    mode = MODES[i % len(MODES)]
    where = os.path.join(ctx.tmp(), 'k%s%d' % (root.name, i))

    def round_(k):
        # the same course each time
        rng = random.Random('%s %s %d' % (ctx.seed, mode, i))
        base = os.path.join(where, *['%06d' % k + 'x' * 200] * 14)
        os.makedirs(base)
        attempt(ctx, root, rng, mode, 'k%06d' % k + 'x' * LONG, base, lambda *a: None)
        shutil.rmtree(where)
    for k in range(10):
        round_(k)
    tracemalloc.start()
    try:
        for k in range(10):
            round_(50 + k)
        gc.collect()
        before, size = len(gc.get_objects()), tracemalloc.get_traced_memory()[0]
        for k in range(n):
            round_(100 + k)
        gc.collect()
        more, msize = len(gc.get_objects()) - before, tracemalloc.get_traced_memory()[0] - size
    finally:
        tracemalloc.stop()
    ctx.count('evaluations')
    ctx.count('repetitions', n)
    ctx.seen('nontrivial', (root.name, i, 'kept'))
    ctx.seen('growth', '%s: %d objects, %d bytes after %d times' % (mode, more, msize, n))
    if more >= n // 2 or msize >= n * 2000:
        raise Violation('after %d times of: %s, %d more objects and %d more bytes of memory are in use' % (n, mode, more, msize), mode=mode)


def run(ctx):
    ctx.rule = ('one case = one seeded use of the library (documents read by path, from a stream, into the caller\'s dictionary; malformed, absent or failing ones; '
                'models written to a path, a target, a failing target; pretty-printing; the XML writer by itself), after which every object, dictionary, stream, target and '
                'writer involved is dropped: weak references tell whether each is freed, the process\'s table of descriptors whether each file is closed; or one such use repeated '
                'under ever new names, identifiers and texts, the heap compared before and after; non-trivial = at least one thing watched; distinct = by case')
    roots = spec.load()
    import PyCIM            # once, so that only what reading and writing keeps is counted
    for name in ('CIM14', 'CIM15'):
        for c in roots[name].classes:
            pyclass(c)
    for r in roots.values():
        reader_args(r, True)
    gc.collect()
    gc.freeze()
    items = []
    for r in roots.values():
        full = '.' not in r.name
        items += [(vanish, r.name, i) for i in range(ctx.size(360 if full else 36, 2400 if full else 240))]
        if full:
            items += [(kept, r.name, i) for i in range(ctx.size(1, 4) * len(MODES))]
    ctx.pmap(lambda sub, it: sub.case('%s %s %d' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2]), items)
    ctx.notes['growth'] = sorted(ctx.sets['growth'])[:24]
    ok = not ctx.violations
    ctx.need('vanished', 2000 if ok else 0)
    ctx.need('failed_attempts', 100 if ok else 0)
    ctx.need('repetitions', 500 if ok else 0)
