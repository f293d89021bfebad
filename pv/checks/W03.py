"""Writing changes nothing, depends on nothing else, and is stable."""
import codecs
import contextlib
import gzip
import hashlib
import io
import os
import pathlib
import subprocess
import sys
import tempfile
from .. import real, spec
from ..core import Violation, Ctx, setup_path, REPO, VERIF
from ..docs import Content, Style, compare, excerpt, realize, reader_args, render
from .R05 import NAMES
from .W02 import judge
from ..docs import Parsed


def write(d, encoding='utf-8'):
    from PyCIM import cimwrite
    out = io.StringIO()
    cimwrite(d, out, encoding)
    if out.closed:
        raise Violation('writing closed the caller\'s stream')
    return out.getvalue()


def same(what, a, b):
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation('%s: output differs at character %d: %r against %r' % (what, i, a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80]))


def snapshot(o, real):
    """Everything observable, lists in their order, objects by identity."""
    return ([(k, repr(getattr(real, k))) for k in o.attrs] + [(k, id(getattr(real, k))) for k in o.one] +
            [(k, [id(x) for x in getattr(real, k)]) for k in o.many] + [real.UUID])


class OnlyWrite(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)


@contextlib.contextmanager
def elsewhere(path):
    """A name relative to the current directory."""
    yield os.path.relpath(path)


def plain(path):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def unzipped(path):
    with gzip.open(path, 'rt', encoding='utf-8', newline='') as f:
        return f.read()


@contextlib.contextmanager
def temporary(path):
    """A file with a wrapper around it."""
    with tempfile.NamedTemporaryFile('w', encoding='utf-8', newline='', dir=os.path.dirname(path)) as f:
        yield f
        f.flush()
        os.link(f.name, path)


@contextlib.contextmanager
def spooled(path):
    with tempfile.SpooledTemporaryFile(100, 'w+', encoding='utf-8', newline='') as f:
        yield f
        f.seek(0)
        with open(path, 'w', encoding='utf-8', newline='') as g:
            g.write(f.read())


@contextlib.contextmanager
def piped(path):
    """Somebody reads while the document is written."""
    r, w = os.pipe()
    with open(path, 'wb') as f:
        cat = subprocess.Popen(['cat'], stdin=r, stdout=f)
    os.close(r)
    with open(w, 'w', encoding='utf-8', newline='') as f:
        yield f
    cat.wait()


TARGETS = [('a path object', lambda p: contextlib.nullcontext(pathlib.Path(p)), plain), ('a path of bytes', lambda p: contextlib.nullcontext(os.fsencode(p)), plain),
           ('a relative path', elsewhere, plain), ('a text file', lambda p: open(p, 'w', encoding='utf-8', newline=''), plain),
           ('a line-buffered file', lambda p: open(p, 'w', encoding='utf-8', newline='', buffering=1), plain),
           ('a codec', lambda p: codecs.open(p, 'w', 'utf-8'), plain), ('a compressed file', lambda p: gzip.open(p, 'wt', encoding='utf-8', newline=''), unzipped),
           ('a temporary file', temporary, plain), ('a spooled file', spooled, plain), ('a pipe', piped, plain)]


class Frozen(dict):
    """A dictionary that notices being changed."""
    def _no(self, *a, **k):
        raise Violation('writing changed the dictionary')
    __setitem__ = __delitem__ = pop = popitem = clear = update = setdefault = _no


def one(ctx, root, i):
    from PyCIM import cimread, cimwrite
    rng = ctx.rng(root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([1, 5, 15, 40]), links=rng.choice([1.0, 3.0]))
    c.shuffle()
    live = realize(c)
    d = Frozen(live)
    order, objs = list(d), list(d.values())
    by_id = {n.id: n.obj for n in c.nodes}
    snaps = [snapshot(by_id[o.UUID], o) for o in objs]
    first = write(d)
    compare(ctx, root, c.w.objs, d, what='after writing: ')
    for o, x in zip(objs, snaps):
        if snapshot(by_id[o.UUID], o) != x:
            raise Violation('writing changed what %s %r holds' % (type(o).__name__, o.UUID))
    if list(d) != order or any(x is not y for x, y in zip(d.values(), objs)):
        raise Violation('writing changed the dictionary')
    got = [n[2] for n in Parsed(first.encode('utf-8')).nodes]
    if got != [o.UUID for o in objs]:
        raise Violation('objects are not written in the order of the dictionary: %r' % got[:5])
    same('written again', first, write(d))
    # other models written in between make no difference
    other = spec.load()['CIM14' if root.name.startswith('CIM15') else 'CIM15']
    write(realize(Content(other, ctx, rng).populate(3)))
    same('after writing another model', first, write(d))
    out = OnlyWrite()
    cimwrite(d, out)
    same('to an object with only write()', first, u''.join(out.parts))
    path = os.path.join(ctx.tmp(), rng.choice(NAMES) % i)       # any name
    cimwrite(d, path)
    with open(path, encoding='utf-8', newline='') as f:
        same('to a path', first.replace('\n', os.linesep), f.read())
    kind, target, text = rng.choice(TARGETS)
    os.unlink(path)
    with target(path) as t:
        cimwrite(d, t)
    same('to %s' % kind, first, text(path))
    ctx.count('target_' + kind.replace(' ', '_'))
    # what was read from the output is written the same way again
    again = cimread(io.StringIO(first), *reader_args(root))
    same('second generation', first, write(again))
    ctx.count('evaluations')
    ctx.seen('nontrivial', first)
    ctx.seen('outputs', hashlib.md5(first.encode('utf-8', 'surrogatepass')).hexdigest())
    if i == 0:
        ctx.sample({'root': root.name, 'objects': len(d), 'output': first[:300]})


def odd(ctx, root, i):
    """Objects without an identifier, and keys that are not identifiers."""
    from PyCIM import cimwrite
    rng = ctx.rng('odd', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([1, 5, 12]), links=2.0)
    live = realize(c)
    pairs = [(n.obj, live[n.id]) for n in c.nodes]
    if rng.random() < 0.8:
        for o, x in pairs:
            if rng.random() < 0.5:
                x.UUID = rng.choice([u'', u'', u'same', u'x y'])
    keys = rng.choice([list(live), list(range(len(pairs))), [None] + ['k%d' % k for k in range(1, len(pairs))]])
    rng.shuffle(keys)
    d = Frozen(zip(keys, [x for o, x in pairs]))
    order = list(d)
    snaps = [snapshot(o, x) for o, x in pairs]
    first = write(d)
    same('written again', first, write(d))
    path = os.path.join(ctx.tmp(), rng.choice(NAMES) % i)       # any name
    cimwrite(d, path)
    with open(path, encoding='utf-8', newline='') as f:
        same('to a path', first.replace('\n', os.linesep), f.read())
    for (o, x), was in zip(pairs, snaps):
        if snapshot(o, x) != was:
            raise Violation('writing changed what %r holds' % o)
    if list(d) != order or any(x is not y for x, (o, y) in zip(d.values(), pairs)):
        raise Violation('writing changed the dictionary')
    ctx.count('evaluations')
    ctx.count('odd_identifiers')
    ctx.seen('nontrivial', first)


def nothing(ctx, root, i):
    first = write(Frozen())
    same('written again', first, write({}))
    ctx.count('evaluations')


def utility(ctx, name):
    from PyCIM import cimread
    d = cimread(real.DATA + name)
    first = write(d)
    same(name + ' written again', first, write(d))
    same(name + ' second generation', first, write(cimread(io.StringIO(first))))
    ctx.count('evaluations')
    ctx.seen('nontrivial', name)


def digest(seed, n):
    """Runs in a process of its own: digests of what is written for fixed graphs."""
    setup_path()
    from PyCIM import cimread
    roots = spec.load()
    ctx = Ctx('W03', 'quick', seed)
    out = []
    for i in range(n):
        rng = ctx.rng('process', i)
        root = roots[sorted(roots)[i % len(roots)]]
        c = Content(root, ctx, rng).populate(12, links=2.0)
        c.shuffle()
        first = write(realize(c))
        data = render(c.nodes, root.ns, Style())
        second = write(cimread(io.BytesIO(data), *reader_args(root)))
        out.append(hashlib.md5(repr([(n.name, n.id, n.stmts) for n in c.nodes]).encode()).hexdigest() + ' ' +
                   hashlib.md5((first + second).encode('utf-8')).hexdigest())
    sys.stdout.write('\n'.join(out))


def processes(ctx):
    """The same graphs in processes with different hash seeds and memory layouts."""
    n = ctx.size(32, 160)
    runs = {}
    procs = []
    for h in ['0', '1', '77', '4294967295', 'random', 'random'][:ctx.size(4, 6)]:
        env = dict(os.environ, PYTHONHASHSEED=h, PYCIM_REPO=REPO, PYTHONPATH=VERIF)
        procs.append((h, subprocess.Popen([sys.executable, '-B', '-c', 'from pv.checks.W03 import digest; digest(%d, %d)' % (ctx.seed, n)],
                                          env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    base = None
    for h, p in procs:
        o, e = p.communicate()
        if p.returncode:
            raise Violation('process with hash seed %s failed: %s' % (h, e.decode()[-500:]))
        lines = o.decode().split('\n')
        if base is None:
            base = lines
        for i, (x, y) in enumerate(zip(base, lines)):
            if x.split()[0] != y.split()[0]:
                raise RuntimeError('generator depends on the hash seed')
            if x != y:
                raise Violation('the output for graph %d depends on the hash seed' % i)
        ctx.count('processes')
        ctx.count('evaluations', len(lines))


def run(ctx):
    ctx.rule = ('one case = a seeded object graph written several times, to several kinds of target, with other models written in '
                'between, and again after reading it back: all outputs must be identical, objects and dictionary must be unchanged '
                '(complete observable state), elements in dictionary order; further the same graphs in processes with '
                'different hash seeds; non-trivial = compared; distinct = by output')
    roots = spec.load()
    items = [('real', f) for f, rt in real.FILES] + [('nothing', 'CIM15', 0)]
    for r in roots.values():
        items += [('graph', r.name, i) for i in range(ctx.size(250, 1500) if '.' not in r.name else ctx.size(60, 300))]
        items += [('odd', r.name, i) for i in range(ctx.size(100, 600) if '.' not in r.name else ctx.size(25, 120))]
    kinds = {'graph': one, 'odd': odd, 'nothing': nothing}

    def go(sub, it):
        if it[0] == 'real':
            sub.case('real %s' % it[1], utility, sub, it[1])
        else:
            sub.case('%s %s %d' % it, kinds[it[0]], sub, roots[it[1]], it[2])
    ctx.pmap(go, items)
    ctx.case('processes', processes, ctx)
    ok = not ctx.violations
    ctx.need('outputs', 200 if ok else 0)
    ctx.need('odd_identifiers', 100 if ok else 0)
    ctx.need('processes', 4 if ok else 0)
