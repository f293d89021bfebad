"""Any sequence of writer calls gives a well-formed document with that content."""
import io
import os
import re
import xml.parsers.expat as expat
from html import unescape
import xml.etree.ElementTree as ET
from ..core import Violation
from .W05 import text as mixed

OPT = object()      # where a comment may leave a line break
TAGS = [u'a', u'b', u'cim:Terminal', u'rdf:RDF', u'x-1.y_z', u'A1', u'_u', u'cim:IdentifiedObject.name']
KEYS = [u'k', u'rdf:ID', u'rdf:resource', u'k2', u'data-x', u'xml:lang', u'a.b']
KW = ['kw', 'klass', 'n1', 'k', 'tag_', 'k2']
NS = {u'cim': u'http://iec.ch/TC57/2010/CIM-schema-cim15#', u'rdf': u'http://www.w3.org/1999/02/22-rdf-syntax-ns#',
      u'xml': u'http://www.w3.org/XML/1998/namespace'}


class E(object):
    def __init__(self, tag, attrib):
        self.tag, self.attrib, self.items = tag, attrib, []     # items: str, E, OPT


def clark(q):
    p, _, n = q.rpartition(u':')
    return u'{%s}%s' % (NS[p], n) if p else q


def text(rng):
    k = rng.random()
    if k < 0.5:
        return mixed(rng)
    if k < 0.7:
        return rng.choice([u'', u' ', u'\n', u'0', u'None', u']]>', u'--', u'<?x?>', u'<!-- c -->'])
    if k < 0.97:
        return u'word ' * rng.randint(1, 20)
    return u'long \u00e9 & text ' * 3000


def attrs(rng):
    a = {k: text(rng) for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2, 4]))}
    if rng.random() < 0.01:
        a.update({u'a%d' % j: rng.choice([u'v%d' % j, mixed(rng)]) for j in range(rng.choice([12, 40, 300]))})
    kw = {k: text(rng) for k in rng.sample(KW, rng.choice([0, 0, 0, 1, 2]))}
    return a, kw


class Session(object):
    """Applies calls to a real writer and to a tree of its own."""
    def __init__(self, rng, target, encoding):
        from PyCIM.SimpleXMLWriter import XMLWriter
        self.rng = rng
        self.w = XMLWriter(target, encoding) if encoding is not None else XMLWriter(target)
        self.top = None
        self.open = []      # (element, identifier)
        self.log = []
        self.comments = []  # (elements started, elements ended, text)
        self.started = self.ended = 0

    def note(self, *a):
        self.log.append(a)

    def put(self, x):
        self.open[-1][0].items.append(x)

    def start(self, tag=None, decl=False):
        rng = self.rng
        tag = tag or rng.choice(TAGS)
        a, kw = attrs(rng)
        if decl:
            a.update({u'xmlns:cim': NS[u'cim'], u'xmlns:rdf': NS[u'rdf']})
        before = dict(a)
        self.note('start', tag, before, kw)
        if a or rng.random() < 0.5:
            ident = self.w.start(tag, a, **kw)
        else:
            ident = self.w.start(tag, **kw)
        if a != before:
            raise Violation('start() changed the caller\'s dictionary to %r' % a)
        both = dict(before)
        both.update(kw)
        e = E(tag, both)
        if self.open:
            self.put(e)
        else:
            self.top = e
        self.open.append((e, ident))
        self.started += 1
        return ident

    def element(self):
        rng = self.rng
        tag, t = rng.choice(TAGS), rng.choice([None, text(rng), text(rng)])
        a, kw = attrs(rng)
        before = dict(a)
        self.note('element', tag, t, before, kw)
        if t is None and rng.random() < 0.5:
            self.w.element(tag, attrib=a, **kw)
        else:
            self.w.element(tag, t, a, **kw)
        if a != before:
            raise Violation('element() changed the caller\'s dictionary to %r' % a)
        both = dict(before)
        both.update(kw)
        e = E(tag, both)
        if t:
            e.items.append(t)
        self.put(e)
        self.started += 1
        self.ended += 1

    def data(self):
        t = text(self.rng)
        self.note('data', t)
        self.w.data(t)
        self.put(t)

    def comment(self):
        t = self.rng.choice([u'note', u'a & b < c', u'caf\u00e9', u'x' * 50, u'>'])
        self.note('comment', t)
        self.w.comment(t)
        self.comments.append((self.started, self.ended, t))
        if self.open:
            self.put(OPT)

    def end(self):
        e, _ = self.open.pop()
        self.ended += 1
        if self.rng.random() < 0.5:
            self.note('end')
            self.w.end()
        else:
            self.note('end', e.tag)
            self.w.end(e.tag)

    def close(self):
        i = self.rng.randrange(len(self.open))
        self.note('close', self.open[i][1], self.open[i][0].tag)
        self.w.close(self.open[i][1])
        self.ended += len(self.open) - i
        del self.open[i:]


def comments(data):
    """The comments of a document, each with the elements started and ended before."""
    p = expat.ParserCreate()
    n, out = [0, 0], []

    def start(*a):
        n[0] += 1

    def end(*a):
        n[1] += 1
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CommentHandler = lambda t: out.append((n[0], n[1], t))
    p.Parse(data, True)
    return out


def match(e, real, path=''):
    path += '/' + e.tag
    if real.tag != clark(e.tag):
        raise Violation('%s: element %s instead of %s' % (path, real.tag, e.tag))
    want = {clark(k): v for k, v in e.attrib.items() if not k.startswith(u'xmlns')}
    if dict(real.attrib) != want:
        diff = sorted(k for k in set(want) | set(real.attrib) if want.get(k) != real.attrib.get(k))
        raise Violation('%s: attribute %s is %r, not %r' % (path, diff[0], real.attrib.get(diff[0]), want.get(diff[0])))
    runs, kids = [[]], []
    for x in e.items:
        if isinstance(x, E):
            kids.append(x)
            runs.append([])
        else:
            runs[-1].append(x)
    if len(kids) != len(real):
        raise Violation('%s: %d children instead of %d' % (path, len(real), len(kids)))
    texts = [real.text or u''] + [k.tail or u'' for k in real]
    for run, got in zip(runs, texts):
        if OPT in run:
            rx = ''.join('\n?' if x is OPT else re.escape(x) for x in run)
            ok = re.match(rx + r'\Z', got, re.S)
        else:
            ok = got == u''.join(run)
        if not ok:
            raise Violation('%s: text %r instead of %r' % (path, got[:200], u''.join(x for x in run if x is not OPT)[:200]))
    n = 1
    for k, r in zip(kids, real):
        n += match(k, r, path)
    return n


def one(ctx, i):
    rng = ctx.rng(i)
    enc = rng.choice([None, 'us-ascii', 'utf-8', 'iso-8859-1', 'utf-16'])
    kind = rng.choice(['memory', 'path', 'file'])
    path = os.path.join(ctx.tmp(), 'w.xml')
    if kind == 'memory':
        target = io.StringIO()
    elif kind == 'path':
        target = path
    else:
        target = open(path, 'w', encoding=enc or 'us-ascii', errors='xmlcharrefreplace', newline='')
    s = Session(rng, target, enc)
    decl = rng.random() < 0.5 or enc not in (None, 'us-ascii', 'utf-8')
    if decl:
        s.note('declaration')
        s.w.declaration()
    if rng.random() < 0.2:
        s.comment()
    s.start(decl=True)
    ops = [s.start, s.start, s.element, s.element, s.data, s.data, s.comment, s.end, s.close]
    if rng.random() < 0.02:     # far down
        for _ in range(rng.choice([30, 120, 500])):
            s.start()
    for _ in range(rng.choice([0, 1, 5, 30, 120])):
        op = rng.choice(ops)
        if op == s.end and len(s.open) < 2:
            continue
        if op == s.close:
            if len(s.open) < 2 or rng.random() < 0.6:
                continue
            keep = s.open.pop(0)        # the root stays open for now
            i2 = rng.randrange(len(s.open))
            s.note('close', s.open[i2][1])
            s.w.close(s.open[i2][1])
            s.ended += len(s.open) - i2
            del s.open[i2:]
            s.open.insert(0, keep)
            continue
        op()
    s.note('close all')
    s.w.close(s.open[0][1])
    s.w.flush()
    if kind == 'memory':
        raw = target.getvalue()
        # how the caller would store it
        data = raw.encode(enc or 'us-ascii', 'xmlcharrefreplace')
    else:
        if kind == 'file':
            target.close()
        with open(path, 'rb') as f:
            data = f.read()
    try:
        try:
            top = ET.fromstring(data)
        except ET.ParseError as e:
            raise Violation('the output is not well-formed: %s' % e)
        n = match(s.top, top)
        got = comments(data)
        if [(a, b, unescape(t).strip()) for a, b, t in got] != [(a, b, t) for a, b, t in s.comments]:
            raise Violation('the comments are %r, not %r' % (got[:5], s.comments[:5]))
        if decl and not data.decode(enc or 'us-ascii').lstrip(u'\ufeff').startswith(u'<?xml'):
            raise Violation('the XML declaration is missing')
        ctx.count('comments', len(got))
    except Violation as v:
        v.detail.update(calls=repr(s.log)[:3000], output=repr(data)[:2000], encoding=enc, target=kind)
        raise
    ctx.count('evaluations')
    ctx.count('elements', n)
    ctx.count('calls', len(s.log))
    ctx.count('target_' + kind)
    ctx.seen('nontrivial', data)
    if i < 2:
        ctx.sample({'calls': repr(s.log)[:500], 'output': repr(data)[:300]})


def run(ctx):
    ctx.rule = ('one case = a seeded sequence of writer calls (start, data in pieces, element, end, close, comment, declaration; '
                'attributes by dictionary and keyword; texts with markup, white space and all scripts; five encodings, three kinds '
                'of target) whose output is parsed with the standard library and compared with the tree of the calls; non-trivial '
                '= parsed and compared; distinct = by output')
    ctx.assumptions = ['element and attribute names are XML names in ASCII', 'comments hold no "--" and no characters beyond XML 1.0']
    n = ctx.size(30000, 200000)
    ctx.pmap(lambda sub, i: sub.case('session %d' % i, one, sub, i), range(n))
    ctx.need('nontrivial', n // 2 if not ctx.violations else 0)
