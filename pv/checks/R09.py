"""A document that cannot be read completely is an error, never a partial model."""
import io
import os
import xml.parsers.expat
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt, realize


def wellformed(data):
    p = xml.parsers.expat.ParserCreate(namespace_separator='}')
    try:
        p.Parse(data, True)
        return True
    except xml.parsers.expat.ExpatError:
        return False
    except (LookupError, ValueError):
        return False


class Boom(Exception):
    pass


class Failing(object):
    """Raises the given exception at the n-th call of read or seek."""
    def __init__(self, data, n, exc, size, op='read'):
        self.b, self.n, self.exc, self.size, self.op, self.calls = io.BytesIO(data), n, exc, size, op, 0

    def hit(self, op):
        if op == self.op:
            self.calls += 1
            if self.calls == self.n:
                raise self.exc

    def read(self, n=-1):
        self.hit('read')
        return self.b.read(self.size)

    def seek(self, *a):
        self.hit('seek')
        return self.b.seek(*a)


class OneWay(object):
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)


def prepared(ctx, root, rng):
    """Caller's objects with values and links, under identifiers of the document too."""
    c = Content(root, ctx, rng).populate(rng.randint(3, 8), fmt=u'_mine%d', links=1.5)
    real = realize(c)
    compare(ctx, root, c.w.objs, real, what='prepared: ')
    return c, real


class Case(object):
    """One document, with a caller's dictionary it would extend and change."""
    def __init__(self, ctx, root, rng, n, style=None):
        self.ctx, self.root, self.rng = ctx, root, rng
        self.args = reader_args(root)
        self.content = Content(root, ctx, rng).populate(n, links=1.5)
        self.style = style or Style(rng)
        self.data = render(self.content.nodes, root.ns, self.style)

    def attack(self, data, what):
        """data is malformed: it must be refused, without touching the caller's objects."""
        from PyCIM import cimread
        ctx = self.ctx
        c, mine = self.mine
        d = dict(mine)
        try:
            got = cimread(io.BytesIO(data), *self.args, start_dict=d)
        except Exception as e:
            ctx.seen('errors', type(e).__name__)
        else:
            raise Violation('%s: a malformed document is read as %d objects without an error' % (what, len(got) - len(mine)),
                            document=excerpt(data, 1500), end=data[-300:].decode('latin-1'))
        for k, o in mine.items():
            if d.get(k) is not o:
                raise Violation('%s: a malformed document displaced object %r of the caller' % (what, k), document=excerpt(data, 1500))
        try:
            compare(ctx, self.root, c.w.objs, mine, what='%s: objects of the caller after a malformed document: ' % what)
        except Violation as v:
            v.detail['document'] = excerpt(data, 1500)
            raise
        ctx.count('refused')
        ctx.count('evaluations')

    def intact(self):
        from PyCIM import cimread
        compare(self.ctx, self.root, self.content.w.objs, cimread(io.BytesIO(self.data), *self.args), what='the intact document: ')


def redescribe(case):
    """Makes the document speak about the caller's objects as well, first thing."""
    c, mine = case.mine
    nodes = []
    for n in c.nodes:
        x = Node(n.name, n.id)
        for a in n.cls.all_attrs:
            a = n.cls.by_attr[a.name]
            if a.type == 'float':
                x.stmts.append(('text', u'%s.%s' % (a.cls.name, a.name), u'98765.5'))
            elif a.type == 'str' and not a.enum:
                x.stmts.append(('text', u'%s.%s' % (a.cls.name, a.name), u'overwritten'))
        nodes.append(x)
    return nodes


def truncations(ctx, root, i):
    rng = ctx.rng('cut', root.name, i)
    case = Case(ctx, root, rng, rng.randint(1, 4))
    case.mine = prepared(ctx, root, rng)
    data = render(redescribe(case) + case.content.nodes, root.ns, case.style)
    step = 1 if len(data) < (1500 if ctx.quick else 6000) else rng.choice([3, 5, 7])
    n = 0
    for cut in range(0, len(data), step):
        if not wellformed(data[:cut]):
            case.attack(data[:cut], 'cut at byte %d of %d' % (cut, len(data)))
            n += 1
    ctx.seen('nontrivial', data)
    ctx.count('truncations', n)
    case.intact()
    if i == 0:
        ctx.sample({'document': excerpt(data, 400), 'cuts': n})


def corruptions(ctx, root, i):
    rng = ctx.rng('bad', root.name, i)
    big = i % 4 == 0
    case = Case(ctx, root, rng, 250 if big else rng.randint(2, 12), Style(plain=True))
    case.mine = prepared(ctx, root, rng)
    nodes = redescribe(case) + case.content.nodes
    data = render(nodes, root.ns, case.style)
    tried = set()
    spots = [m for m in range(len(data)) if data[m:m + 1] in b'<>/="&']
    for k in range(12 if big else 30):
        m = rng.choice(spots)
        kind = rng.choice(['drop', 'dup', 'char', 'entity', 'close', 'utf8', 'attr', 'nul', 'prefix', 'end', 'root'])
        if kind == 'drop':
            bad = data[:m] + data[m + 1:]
        elif kind == 'dup':
            bad = data[:m] + data[m:m + 1] + data[m:]
        elif kind == 'char':
            bad = data[:m] + bytes([rng.choice(b'<>&"\'/ =')]) + data[m + 1:]
        elif kind == 'entity':
            m = data.index(b'>', m) if b'>' in data[m:] else len(data)
            bad = data[:m + 1] + b'&nosuch;' + data[m + 1:]
        elif kind == 'close':
            at = [x for x in range(len(data)) if data.startswith(b'</', x)]
            x = rng.choice(at)
            bad = data[:x] + data[data.index(b'>', x) + 1:]
        elif kind == 'utf8':
            m = rng.randrange(len(data))
            bad = data[:m] + rng.choice([b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xfe']) + data[m:]
        elif kind == 'attr':
            at = [x for x in range(len(data)) if data.startswith(b' rdf:ID="', x)]
            x = rng.choice(at)
            bad = data[:x] + b' rdf:ID="twice"' + data[x:]
        elif kind == 'nul':
            m = rng.randrange(len(data))
            bad = data[:m] + rng.choice([b'\0', b'\x01', b'\x0b']) + data[m:]
        elif kind == 'prefix':
            at = [x for x in range(len(data)) if data.startswith(b'<cim:', x)]
            x = rng.choice(at)
            bad = data[:x + 1] + b'nope' + data[x + 4:]
        elif kind == 'end':
            bad = data + rng.choice([b'<', b'x', b'</rdf:RDF>', b'&amp;', b'<!--'])
        else:
            bad = data + b'<cim:Terminal/>'
        if not wellformed(bad):
            case.attack(bad, '%s at byte %d' % (kind, m))
            tried.add(kind)
            ctx.count('corruption_' + kind)
    # names of entities that nothing defines, or nothing that is read
    spots = [m for m in range(len(data)) if data.startswith((b'</cim:', b'<cim:'), m)]
    for k in range(3 if big else 6):
        m = rng.choice(spots)
        name = rng.choice([b'nosuch', b'nbsp', b'eacute', b'auml', b'copy', b'euro', b'Amp', b'LT', b'xa9', b'_'])
        doctype = rng.choice([b'', b'<!DOCTYPE rdf:RDF SYSTEM "cim.dtd">', b'<!DOCTYPE rdf:RDF PUBLIC "-//CIM//DTD//EN" "http://localhost/cim.dtd">',
                              b'<!DOCTYPE rdf:RDF [<!ENTITY other "x">]>', b'<!DOCTYPE rdf:RDF SYSTEM "cim.dtd" [<!ENTITY other "x">]>'])
        at = data.index(b'<rdf:RDF')
        case.attack(data[:at] + doctype + data[at:m] + b'&' + name + b';' + data[m:], 'undefined entity %s at byte %d, %s' % (name.decode(), m, doctype.decode()))
        ctx.count('undefined_entities')
    ctx.seen('nontrivial', data)
    ctx.count('corruptions')
    case.intact()


def io_faults(ctx, root, i):
    """The stream fails at every single read and seek in turn."""
    from PyCIM import cimread
    rng = ctx.rng('io', root.name, i)
    case = Case(ctx, root, rng, rng.choice([2, 5, 20]))
    size = rng.choice([40, 300, 4000])
    size = max(size, len(case.data) // 40)
    for op in ('read', 'seek'):
        n = 0
        while True:
            n += 1
            exc = rng.choice([OSError(5, 'Input/output error'), Boom('stream'), EOFError('gone'), TimeoutError('slow'), KeyError('k'), TypeError('t'), StopIteration('s')])
            src = Failing(case.data, n, exc, size, op)
            try:
                d = cimread(src, *case.args)
            except Exception as e:
                e.__traceback__ = None
                x = e
                chain = []
                while x is not None and x not in chain:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                if src.calls < n:
                    raise Violation('reading raised %s: %s although the stream did not fail' % (type(e).__name__, e), document=excerpt(case.data))
                if exc not in chain:
                    raise Violation('the failure %r of the stream surfaced as %r' % (exc, e))
                ctx.count('faults_' + op)
            else:
                if src.calls >= n:
                    raise Violation('the stream failed with %r at its %s number %d, but reading returned %d of %d objects' % (
                        exc, op, n, len(d), len(case.content.nodes)), document=excerpt(case.data))
                compare(ctx, root, case.content.w.objs, d)
                break
            if n > 2000:
                raise Violation('reading goes on after 2000 reads')
        ctx.count('evaluations', n)
    ctx.seen('nontrivial', (size, case.data))
    case.intact()
    # a stream that cannot go back: complete or refused
    for src in (OneWay(case.data), Pipe(case.data)):
        try:
            d = cimread(src, *case.args)
        except Exception:
            ctx.count('one_way_refused')
        else:
            compare(ctx, root, case.content.w.objs, d, what='from a one-way stream: ')


class Pipe(io.RawIOBase):
    def __init__(self, data):
        io.RawIOBase.__init__(self)
        self.b = io.BytesIO(data)

    def readable(self):
        return True

    def read(self, n=-1):
        return self.b.read(n)


def paths(ctx, root, i):
    from PyCIM import cimread
    base = os.path.realpath(ctx.tmp())
    empty = os.path.join(base, 'empty.xml')
    open(empty, 'w').close()
    blank = os.path.join(base, 'blank.xml')
    with open(blank, 'w') as f:
        f.write('  \n')
    for src in (os.path.join(base, 'absent.xml'), base, empty, blank, None, 17.5, object(), io.BytesIO(b''), io.StringIO('')):
        start = {}
        try:
            cimread(src, start_dict=start, *reader_args(root))
        except Exception:
            if start:
                raise Violation('objects were made from %r' % (src,))
        else:
            raise Violation('%r is read without an error' % (src,))
        ctx.count('evaluations')
        ctx.count('no_document')


def run(ctx):
    ctx.rule = ('one case = one seeded document cut at every byte (or every few), one corrupted in one of eleven ways at random '
                'places (the verdict whether the result is malformed comes from expat directly), or one whose stream fails at '
                'every read or seek in turn; observed: the error that surfaces, the caller\'s dictionary and the complete state of '
                'the objects in it, and a later read of the intact document; non-trivial = refused at least once; distinct = by document')
    roots = spec.load()
    items = []
    for r in roots.values():
        full = '.' not in r.name
        for i in range(ctx.size(10 if full else 2, 60 if full else 8)):
            items.append((truncations, r.name, i))
        for i in range(ctx.size(30 if full else 8, 200 if full else 20)):
            items += [(corruptions, r.name, i), (io_faults, r.name, i)]
        items.append((paths, r.name, 0))
    items.sort(key=lambda it: it[0].__name__)
    ctx.pmap(lambda sub, it: sub.case('%s %s %d' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2]), items)
    ok = not ctx.violations
    ctx.need('truncations', 3000 if ok else 0)
    ctx.need('corruptions', 50 if ok else 0)
    ctx.need('faults_read', 1000 if ok else 0)
    ctx.need('undefined_entities', 200 if not ctx.violations else 0)
    ctx.need('faults_seek', 100 if ok else 0)
