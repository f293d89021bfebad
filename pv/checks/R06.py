"""The model version and profile used are the declared or requested ones."""
import importlib
import io
import os
import logging
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt, ident


class Logs(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, r):
        self.records.append(r)

    def texts(self, level=logging.WARNING):
        return [r.getMessage() for r in self.records if r.levelno >= level]

    def __enter__(self):
        self.root = logging.getLogger()
        self.old = self.root.level
        self.root.addHandler(self)
        self.root.setLevel(logging.DEBUG)
        return self

    def __exit__(self, *a):
        self.root.removeHandler(self)
        self.root.setLevel(self.old)


def auto(ctx, root, ns, i):
    """No profile given: the declared version decides."""
    from PyCIM import cimread
    rng = ctx.rng('auto', ns, i)
    c = Content(root, ctx, rng).populate(rng.randint(1, 8))
    c.root = root
    # statements carry the document's own namespace
    style = Style(rng)
    for n in c.nodes:
        n.stmts = [(k, q, p.replace(root.ns + '#', ns + '#') if k == 'enum' else p) for k, q, p in n.stmts]
    data = render(c.nodes, ns, style)
    with Logs() as log:
        d = cimread(io.BytesIO(data))
    compare(ctx, root, c.w.objs, d, what='namespace %s: ' % ns)
    known = ns in list(spec.NS.values()) + [spec.NS16]
    if not known and not log.texts():
        raise Violation('an unrecognised version %s is not reported' % ns)
    if known and log.texts():
        raise Violation('a document of the known version %s is read with the report %r' % (ns, log.texts()[0]))
    ctx.count('evaluations')
    ctx.count('auto_detected')
    ctx.seen('namespaces', ns)
    ctx.seen('nontrivial', data)


def strange(rng):
    """A namespace of nobody's, near to a known one or not."""
    known = list(spec.NS.values()) + [spec.NS16]
    base = rng.choice(known)
    s = rng.choice([lambda: base + rng.choice([u'/', u'//', u'#', u'-ext', u'/ext', u'?v=2', u' ', u'.', u'_', u'%23', u'x', u'0', u'+']),
                    lambda: rng.choice([u'x', u'http://example.com/', u'urn:', u' ']) + base,
                    base.upper, base.lower, base.title, base.swapcase,
                    lambda: base.replace(u'CIM', u'cim'), lambda: base.replace(u'schema', u'Schema'), lambda: base.replace(u'-cim1', u'-CIM1'),
                    lambda: base.replace(u'iec.ch', u'IEC.ch'), lambda: base.replace(u'http:', u'https:'), lambda: base.replace(u'http', u'HTTP'),
                    lambda: base.replace(u'TC57/', u'TC57//'), lambda: base.replace(u'/20', u'/19'), lambda: base[:-1], lambda: base[:-2], lambda: base[1:],
                    lambda: base + u'#' + base, lambda: base[::-1], lambda: base + str(rng.randint(0, 20)),
                    lambda: base[:-2] + str(rng.choice([10, 11, 12, 13, 17, 18, 100, 14.5])),
                    lambda: rng.choice([u'http://example.com/our-cim/', u'urn:cim', u'urn:cim:', u'CIM14', u'CIM15', u'x', u'/', u'http://example.com/%C3%A9/', u'http://\u4f8b.example/', u'14', u'cim15'])])()
    return base + u'-x' if s in known else s


def auto_strange(ctx, root, i):
    auto(ctx, root, strange(ctx.rng('strange', i)), i)


FOREIGN = ['http://example.org/v', 'urn:x', 'http://purl.org/dc/terms/', 'http://iec.ch/TC57/61970-552/ModelDescription/1#']


def none(ctx, root, i):
    """No CIM namespace at all: reported, nothing read, nothing touched."""
    from PyCIM import cimread
    rng = ctx.rng('none', i)
    c = Content(root, ctx, rng).populate(rng.randint(1, 4), fmt='_%d')
    inner = u''.join(u'<x:%s rdf:ID="%s"><x:%s.name>n</x:%s.name></x:%s>' % ((n.cls.name, n.id) + (n.cls.name,) * 3) for n in c.nodes
                     if rng.random() < 0.8)
    data = (u'<rdf:RDF xmlns:rdf="%s" xmlns:x="%s">%s</rdf:RDF>' % (spec.RDF, rng.choice(FOREIGN), inner)).encode('utf-8')
    start = rng.choice([None, {}, cimread(io.BytesIO(render(c.nodes, root.ns, Style(rng))))])
    have = dict(start or {})
    with Logs() as log:
        d = cimread(io.BytesIO(data), start_dict=start)
    if dict(d) != have:
        raise Violation('a document without CIM namespace gives %r' % sorted(set(d) - set(have)), document=data)
    if have:
        compare(ctx, root, c.w.objs, d, what='after a document without CIM namespace: ')
    if not log.texts():
        raise Violation('a document without CIM namespace is not reported', document=data)
    ctx.count('evaluations')
    ctx.count('no_version')
    ctx.seen('nontrivial', (data, len(have)))


def explicit(ctx, root, ns, i):
    """A profile given: exactly its classes, whatever the document declares."""
    from PyCIM import cimread
    rng = ctx.rng('explicit', root.name, ns, i)
    c = Content(root, ctx, rng).populate(rng.randint(2, 10))
    for n in c.nodes:
        n.stmts = [(k, q, p.replace(root.ns + '#', ns + '#') if k == 'enum' else p) for k, q, p in n.stmts]
    pm = importlib.import_module(root.name).packageMap
    nodes = list(c.nodes)
    # classes of the full model that the profile does not have
    full = spec.load()[root.name[:5]]
    outside = sorted(set(x.name for x in full.elements) - set(root.C))
    for k in range(min(2, len(outside))):
        nodes.insert(rng.randint(0, len(nodes)), Node(rng.choice(outside), u'_outside%d' % k))
    data = render(nodes, ns, Style(rng))
    d = cimread(io.BytesIO(data), pm, ns) if rng.random() < 0.5 else cimread(io.BytesIO(data), packageMap=pm, nsURI=ns)
    compare(ctx, root, c.w.objs, d, what='profile %s: ' % root.name)
    # a narrower map is authoritative as well
    keep = rng.choice(c.nodes).cls
    d = cimread(io.BytesIO(data), {keep.name: pm[keep.name]}, ns)
    want = set(n.id for n in c.nodes if n.cls is keep)
    if set(d) != want:
        raise Violation('a map of %s alone reads %r, not %r' % (keep.name, sorted(d), sorted(want)))
    # a document of another namespace has nothing for this one
    d = cimread(io.BytesIO(data), pm, ns + '-other')
    if d:
        raise Violation('elements outside the requested namespace are read: %r' % sorted(d)[:3])
    ctx.count('evaluations', 3)
    ctx.count('explicit_profiles')
    ctx.seen('profiles', root.name)
    ctx.seen('nontrivial', data)


def history(ctx, root, i):
    """One file, and one stream, replaced again and again by documents of other
    versions and profiles: each read goes by what is there now."""
    from PyCIM import cimread
    rng = ctx.rng('history', i)
    roots = spec.load()
    path = os.path.join(ctx.tmp(), 'model.xml')
    stream = io.BytesIO()
    fmt = rng.choice(['_%d', 'x%d'])
    results, told = [], []
    for k in range(rng.randint(4, 9)):
        r = roots[rng.choice(sorted(roots))] if rng.random() < 0.6 else roots[rng.choice(['CIM14', 'CIM15'])]
        auto_ = '.' not in r.name and rng.random() < 0.7
        ns = r.ns if not auto_ or rng.random() < 0.7 or r.name == 'CIM14' else rng.choice([spec.NS16, 'http://example.org/v%d' % k])
        c = Content(r, ctx, rng).populate(rng.randint(1, 6), fmt=fmt)   # the same identifiers each time
        for n in c.nodes:
            n.stmts = [(kd, q, p.replace(r.ns + '#', ns + '#') if kd == 'enum' else p) for kd, q, p in n.stmts]
        style = Style(rng)
        if style.encoding in ('utf-16',):
            style.encoding = 'utf-8'
        data = render(c.nodes, ns, style)
        data += b'\n' * (-len(data) % 16384)     # sizes agree more often than not
        if rng.random() < 0.15 and k:
            try:
                cimread(io.BytesIO(data[:rng.randint(1, len(data) - 1)].rstrip()[:-1]))
            except Exception:
                pass
        how = rng.choice(['path', 'path', 'stream', 'file'])
        args = () if auto_ else (importlib.import_module(r.name).packageMap, ns)
        told.append('%s %s from %s%s' % (r.name, ns, how, '' if auto_ else ', profile given'))
        try:
            if how == 'stream':
                stream.seek(0)
                stream.truncate()
                stream.write(data)
                stream.seek(0)
                d = cimread(stream, *args)
            else:
                with open(path, 'wb') as f:
                    f.write(data)
                os.utime(path, (1300000000, 1300000000))
                if how == 'path':
                    d = cimread(path, *args)
                else:
                    with open(path, 'rb') as f:
                        d = cimread(f, *args)
            compare(ctx, r, c.w.objs, d, what='read %d (%s): ' % (k, told[-1]))
        except Violation as v:
            v.detail['reads'] = told
            v.detail['document'] = excerpt(data, 1200)
            raise
        results.append((r, c, d))
        ctx.count('evaluations')
        ctx.count('reads_in_histories')
        ctx.seen('nontrivial', data)
    for k, (r, c, d) in enumerate(results):
        compare(ctx, r, c.w.objs, d, what='read %d, looked at again after %d more: ' % (k, len(results) - 1 - k))


OWN = '''from %(base)s import %(name)s as Base

class %(name)s(Base):
    _attrs = ["ownNote", "ownNumber", "ownFlag"]
    _attr_types = {"ownNote": str, "ownNumber": float, "ownFlag": bool}
    _defaults = {"ownNote": '', "ownNumber": 0.0, "ownFlag": False}
    _enums = {}
    _refs = []
    _many_refs = []

    def __init__(self, ownNote='', ownNumber=0.0, ownFlag=False, *args, **kw_args):
        self.ownNote = ownNote
        self.ownNumber = ownNumber
        self.ownFlag = ownFlag
        super(%(name)s, self).__init__(*args, **kw_args)
'''


def own(ctx, root, i):
    """A map of the caller's making: of any mapping type, put together from several
    profiles, with classes of the caller's."""
    import sys
    import types
    import collections
    from PyCIM import cimread
    rng = ctx.rng('own', i)
    roots = spec.load()
    full = [r for r in roots.values()]
    ns = rng.choice([root.ns, strange(rng), u'http://example.com/own-%d' % i])
    picks = {}
    for n in rng.sample(sorted(root.C), min(12, len(root.C))):
        at = [r for r in full if n in r.C and r.C[n].element]
        if at:
            picks[n] = rng.choice(at)
    pm = dict((n, importlib.import_module(r.name).packageMap[n]) for n, r in picks.items())
    before = list(sys.path)
    made = u'pv_own_%d_%d' % (os.getpid(), i)
    mine = rng.sample(sorted(n for n in picks if 'name' in picks[n].C[n].by_attr), min(2, len([n for n in picks if 'name' in picks[n].C[n].by_attr])))
    where = ctx.tmp()
    sys.path.insert(0, where)
    try:
        os.mkdir(os.path.join(where, made))
        open(os.path.join(where, made, '__init__.py'), 'w').close()
        for n in mine:
            with open(os.path.join(where, made, n + '_mod.py'), 'w') as f:
                f.write(OWN % {'base': pm[n], 'name': n})
            pm[n] = '%s.%s_mod' % (made, n)
        importlib.invalidate_caches()
        maps = {'dict': pm, 'proxy': types.MappingProxyType(pm), 'user': collections.UserDict(pm), 'ordered': collections.OrderedDict(pm),
                'chain': collections.ChainMap(dict(list(pm.items())[::2]), dict(list(pm.items())[1::2]))}
        kind = rng.choice(sorted(maps))
        have = dict(pm)
        body, want = [], {}
        for k in range(rng.randint(4, 30)):
            n = rng.choice(sorted(picks))
            u = u'_%d' % k
            st = u''
            if 'name' in picks[n].C[n].by_attr:
                want[u, 'name'] = u'n%d' % k
                st += u'<c:IdentifiedObject.name>n%d</c:IdentifiedObject.name>' % k
            if n in mine and rng.random() < 0.8:
                want[u, 'ownNote'], want[u, 'ownNumber'], want[u, 'ownFlag'] = u'note %d' % k, k + 0.5, bool(k % 2)
                st += u'<c:%s.ownNote>note %d</c:%s.ownNote><c:%s.ownNumber>%s</c:%s.ownNumber><c:%s.ownFlag>%s</c:%s.ownFlag>' % (
                    n, k, n, n, k + 0.5, n, n, u'true' if k % 2 else u'false', n)
            want[u] = n
            body.append(u'<c:%s rdf:ID="%s">%s</c:%s>' % (n, u, st, n))
            if rng.random() < 0.3:
                body.append(u'<c:%s rdf:ID="_not%d"/>' % (rng.choice(sorted(set(x for r in full for x in r.C) - set(picks))), k))
        data = (u'<rdf:RDF xmlns:rdf="%s" xmlns:c="%s#">%s</rdf:RDF>' % (spec.RDF, ns, u''.join(body))).encode('utf-8')
        d = cimread(io.BytesIO(data), maps[kind], ns)
        ids = set(u for u in want if not isinstance(u, tuple))
        if set(d) != ids:
            raise Violation('a map given as %s reads %r, not %r' % (kind, sorted(d), sorted(ids)), document=data)
        for u in ids:
            k = getattr(importlib.import_module(pm[want[u]]), want[u])
            if type(d[u]) is not k:
                raise Violation('%s is of the class %s.%s and not of the one that the map gives: %s.%s' % (want[u], type(d[u]).__module__, type(d[u]).__name__, k.__module__, k.__name__), document=data)
        for u in want:
            if isinstance(u, tuple) and (getattr(d[u[0]], u[1]) != want[u] or type(getattr(d[u[0]], u[1])) is not type(want[u])):
                raise Violation('%s of %s is %r instead of %r' % (u[1], want[u[0]], getattr(d[u[0]], u[1]), want[u]), document=data)
        if pm != have:
            raise Violation('the map given was changed')
        ctx.count('evaluations')
        ctx.count('own_maps')
        ctx.count('own_classes', len(mine))
        ctx.seen('map_types', kind)
        ctx.seen('nontrivial', data)
    finally:
        sys.path[:] = before
        for m in [m for m in sys.modules if m.startswith(made)]:
            del sys.modules[m]


def half(ctx, root, i):
    """Only one of the two arguments is an error, and nothing is read."""
    from PyCIM import cimread
    rng = ctx.rng('half', root.name, i)
    c = Content(root, ctx, rng).populate(3)
    data = render(c.nodes, root.ns, Style(rng))
    pm = importlib.import_module(root.name).packageMap
    for kw in (dict(packageMap=pm), dict(nsURI=root.ns), dict(packageMap=pm, nsURI=''), dict(packageMap={}, nsURI=root.ns)):
        start = {}
        try:
            cimread(io.BytesIO(data), start_dict=start, **kw)
        except ValueError:
            if start:
                raise Violation('objects were read although the arguments are inconsistent')
        else:
            raise Violation('only %s is accepted' % [k for k, v in kw.items() if v])
        ctx.count('evaluations')
        ctx.count('refused')


def run(ctx):
    ctx.rule = ('one case = one seeded document with one declared namespace read either without arguments (version detection, '
                'every known and several unknown version URIs), with an explicit profile (all 16, with matching and arbitrary '
                'URIs, narrowed maps, foreign namespaces), with a map made by the caller (any mapping type, put together from several profiles, with classes from modules of their own), in histories of reads from one file or stream whose content is replaced each time, or with only half of the pair; non-trivial = classes of the result '
                'compared with the published package; distinct = by document')
    roots = spec.load()
    n = ctx.size(300, 1500)
    items, rng = [], ctx.rng('items')
    for i in range(n * 2):
        items.append(('history', 'CIM15', '', i))
        items.append(('own', rng.choice(sorted(roots)), '', i))
        items.append(('strange', 'CIM15', '', i))
        items.append(('none', rng.choice(['CIM14', 'CIM15']), '', i))
    for i in range(n):
        for ns, root in ((spec.NS['CIM14'], 'CIM14'), (spec.NS['CIM15'], 'CIM15'), (spec.NS16, 'CIM15'),
                         ('http://iec.ch/TC57/2016/CIM-schema-cim17', 'CIM15'), ('http://example.org/cim%d' % i, 'CIM15'),
                         ('http://iec.ch/TC57/2009/CIM-schema-cim14-ext', 'CIM15')):
            items.append(('auto', root, ns, i))
        for r in roots.values():
            if i < ctx.size(100, 400):
                items.append(('explicit', r.name, r.ns, i))
                items.append(('explicit', r.name, 'http://example.org/my-%s' % r.name, i))
                items.append(('half', r.name, '', i))
    fn = {'auto': auto, 'explicit': explicit, 'half': half, 'none': none, 'history': history, 'strange': auto_strange, 'own': own}

    def one(sub, it):
        if not it[2]:
            sub.case('%s %s %d' % (it[0], it[1], it[3]), fn[it[0]], sub, roots[it[1]], it[3])
        else:
            sub.case('%s %s as %s' % it[:3], fn[it[0]], sub, roots[it[1]], it[2], it[3])
    ctx.pmap(one, items)
    ctx.sample({'namespaces': [spec.NS['CIM14'], spec.NS['CIM15'], spec.NS16], 'profiles': sorted(roots)})
    ctx.need('profiles', 16 if not ctx.violations else 0)
    ctx.need('reads_in_histories', 300 if not ctx.violations else 0)
    ctx.need('own_maps', 300 if not ctx.violations else 0)
    ctx.need('own_classes', 100 if not ctx.violations else 0)
    ctx.need('refused', 50 if not ctx.violations else 0)
