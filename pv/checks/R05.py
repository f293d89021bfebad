"""Where a document comes from makes no difference, and reading leaves it alone."""
import gc
import gzip
import hashlib
import io
import os
import pathlib
import tempfile
from .. import spec
from ..core import Violation
from ..docs import Content, Style, render, compare, reader_args, excerpt


# Any name of a file is one.
NAMES = [u'doc %d \u00e9.xml', u'%d.xml ', u' %d', u'~%d', u'$HOME%d', u'${PATH}%d.xml', u'%%41%d.xml', u'%d.gz', u'%d.zip', u'%d', u'-%d', u'file:%d.xml', u'http:%d',
         u'*%d', u'[a]%d?.xml', u'line\nbreak%d', u'tab\t%d', u'back\\slash%d', u'#%d', u'%d;x', u'"%d\'', u'e\u0301%d', u'\U0001F600%d', u'<cim%d>', u'{%d}', u'%%s%%d%d', u'.%d',
         u'CIM15%d', u'n' * 200 + u'%d', u'\udc80%d']


def encodable(n):
    try:
        return os.fsencode(n)
    except UnicodeError:    # not a name in this locale
        return None


NAMES = [n for n in NAMES if encodable(n)]


class Stingy(io.RawIOBase):
    """A seekable stream that returns as little as it likes."""
    def __init__(self, data, rng, most):
        io.RawIOBase.__init__(self)
        self.b, self.rng, self.most, self.reads = io.BytesIO(data), rng, most, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()

    def read(self, n=-1):
        self.reads += 1
        k = self.rng.randint(1, self.most)
        return self.b.read(k if n is None or n < 0 else min(k, n))


class Minimal(object):
    """Only what a file-like object must have: read and seek."""
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)

    def seek(self, pos, whence=0):
        return self.b.seek(pos, whence)


def open_fds(path):
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == path:
                n += 1
        except OSError:
            pass
    return n


def one(ctx, root, i):
    from PyCIM import cimread
    rng = ctx.rng(root.name, i)
    big = i % 5 == 4
    c = Content(root, ctx, rng).populate(rng.choice([60, 120]) if big else rng.choice([3, 8, 15]), links=1.5)
    style = Style(rng)
    if i % 3 == 0:
        style = Style(plain=True)
    data = render(c.nodes, root.ns, style)
    text = style.plain
    args = reader_args(root)
    place = os.path.realpath(ctx.tmp())
    name = 'doc%d.xml' % i if i % 4 else rng.choice(NAMES) % i
    path = os.path.join(place, name)
    with open(path, 'wb') as f:
        f.write(data)
    mode = rng.choice([0o444, 0o644])
    os.chmod(path, mode)
    before = os.stat(path)
    sources = [('path', lambda: path), ('path object', lambda: pathlib.Path(path)), ('path of bytes', lambda: os.fsencode(path)), ('BytesIO', lambda: io.BytesIO(data)),
               ('binary file', lambda: open(path, 'rb')), ('unbuffered file', lambda: open(path, 'rb', buffering=0)),
               ('1-byte reads', lambda: Stingy(data[:], rng, 1) if len(data) < 20000 else Stingy(data, rng, 7)),
               ('short reads', lambda: Stingy(data, rng, 600)), ('minimal object', lambda: Minimal(data)),
               ('spooled file', lambda: spooled(data)), ('relative path', lambda: os.path.relpath(path)), ('bare name', lambda: None)]
    if text:
        sources += [('StringIO', lambda: io.StringIO(data.decode('utf-8'))),
                    ('text file', lambda: open(path, 'r', encoding='utf-8', newline='')),
                    # the file is what the caller says it is
                    ('text file in another encoding', lambda: recoded(path + '.txt', data, rng))]
    gz = path + '.gz'
    with gzip.open(gz, 'wb') as f:
        f.write(data)
    sources.append(('gzip file', lambda: gzip.open(gz, 'rb')))
    rng.shuffle(sources)
    if ctx.quick:
        sources = sources[:7]
    seen = {}
    for name, make in sources:
        src = make()
        if name == 'bare name':
            src = os.path.basename(path)
            here = os.getcwd()
            os.chdir(place)
            try:
                d = cimread(src, *args)
            finally:
                os.chdir(here)
        else:
            d = cimread(src, *args)
        try:
            compare(ctx, root, c.w.objs, d, what='from %s: ' % name)
        except Violation as v:
            v.detail['document'] = excerpt(data)
            raise
        for k, o in d.items():      # successive reads share nothing
            if id(o) in seen:
                raise Violation('from %s: object %r is shared with an earlier read' % (name, k))
        for o in d.values():
            seen[id(o)] = o         # keeps them alive, so ids stay unique
        if hasattr(src, 'closed') and src.closed:
            raise Violation('reading closed the caller\'s %s' % name)
        if hasattr(src, 'close'):
            src.close()
        del src
        ctx.count('source_' + name.replace(' ', '_'))
        ctx.count('evaluations')
        ctx.seen('nontrivial', (name, hashlib.md5(data).hexdigest()))
    gc.collect()
    n = open_fds(path)
    if n:
        raise Violation('%d descriptors of the document are left open' % n)
    after = os.stat(path)
    if open(path, 'rb').read() != data or after.st_mtime_ns != before.st_mtime_ns or after.st_mode != before.st_mode:
        raise Violation('reading changed the document')
    # mutating one result does not touch another
    first = cimread(io.BytesIO(data), *args)
    second = cimread(io.BytesIO(data), *args)
    for o in first.values():
        for ref in getattr(type(o), '_many_refs', []):
            try:
                setattr(o, ref, [])
            except Exception:
                pass
    first.clear()
    compare(ctx, root, c.w.objs, second, what='after another result was emptied: ')
    os.unlink(path)
    os.unlink(gz)
    if os.path.exists(path + '.txt'):
        os.unlink(path + '.txt')
    ctx.count('documents')


def recoded(path, data, rng):
    text = data.decode('utf-8')
    for enc in rng.sample(['latin-1', 'cp1252', 'iso-8859-15', 'utf-16', 'utf-16-be', 'utf-32', 'utf-8-sig', 'cp037', 'utf-7'], 9):
        try:
            raw = text.encode(enc)
        except UnicodeError:
            continue
        with open(path, 'wb') as f:
            f.write(raw)
        return open(path, 'r', encoding=enc, newline='')


def spooled(data):
    f = tempfile.SpooledTemporaryFile(max_size=1000)
    f.write(data)
    f.seek(0)
    return f


def run(ctx):
    ctx.rule = ('one case = one seeded document read from one kind of source (path, path object, relative path, in-memory, '
                'buffered/unbuffered/text/compressed/spooled files, streams returning 1..k bytes per read, objects with only '
                'read and seek), compared with the expected graph, with the state of the source afterwards, and for sharing '
                'with earlier results; non-trivial = read; distinct = by source kind and document')
    roots = spec.load()
    items = [(r.name, i) for r in roots.values() for i in range(ctx.size(40, 200))]
    ctx.pmap(lambda sub, it: sub.case('document %s %d' % it, one, sub, roots[it[0]], it[1]), items)
    ctx.sample({'sources': sorted(k[7:] for k in ctx.counts if k.startswith('source_'))})
    ctx.need('documents', len(items) if not ctx.violations else 0)
