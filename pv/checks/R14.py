"""A document is data: reading it does nothing but read it."""
import collections
import gc
import io
import os
import sys
from .. import spec
from ..core import REPO, Violation
from ..docs import Content, Style, Node, compare, excerpt, ident, reader_args, realize, render
from ..world import pyclass
from .R10 import EXT

LIBS = tuple({os.path.realpath(p) + os.sep for p in [REPO, os.path.dirname(os.__file__), sys.prefix, sys.base_prefix + '/lib/python%d.%d' % sys.version_info[:2]]})


class Auditor(object):
    """Every event that the interpreter reports while it is armed."""
    def __init__(self):
        self.armed, self.events, self.opened = None, [], collections.Counter()
        sys.addaudithook(self.hook)

    def hook(self, name, args):
        if self.armed is None or self.armed != os.getpid():
            return
        self.events.append((name, args))

    def __enter__(self):
        self.events = []
        self.armed = os.getpid()
        return self

    def __exit__(self, *a):
        self.armed = None


HARMLESS = ('object.__getattr__', 'object.__setattr__', 'object.__delattr__', 'sys._getframe', 'sys._getframemodulename', 'gc.', 'builtins.id', 'cpython.',
            'code.__new__', 'function.__new__', 'sys.unraisablehook', 'time.', 'tempfile.', '_thread.', 'weakref.')


def trusted(name):
    return isinstance(name, str) and (os.path.realpath(name) + os.sep).startswith(LIBS) or isinstance(name, str) and name.startswith('<frozen')


def judge(events, reads, writes, what):
    """Which of the events go beyond opening the source for reading (or the target)."""
    n = 0
    for name, args in events:
        n += 1
        if name.startswith(HARMLESS):
            continue
        if name == 'open':
            f, mode = args[0], args[1]
            writing = isinstance(mode, str) and any(c in mode for c in 'wax+') or mode is None and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if isinstance(f, int):
                continue
            if isinstance(f, bytes):
                f = os.fsdecode(f)
            p = os.path.realpath(os.fspath(f))
            if p in writes or p in reads and not writing or not writing and trusted(p):
                continue
            raise Violation('%s opens %r%s' % (what, f, ' for writing' if writing else ''))
        if name == 'import' and not args[1] or name == 'import' and str(args[0]).split('.')[0] in ('PyCIM', 'CIM14', 'CIM15') or \
                name == 'import' and str(args[0]).split('.')[0] in sys.stdlib_module_names:
            continue
        if name in ('exec', 'marshal.loads', 'compile'):
            code = args[1] if name == 'compile' else getattr(args[0], 'co_filename', None)
            if name == 'marshal.loads' or trusted(code):
                continue
        if name in ('os.listdir', 'os.scandir') and trusted(args[0]):
            continue
        raise Violation('%s causes %s%s' % (what, name, repr(args)[:300]))
    return n


SECRET = u'secret-7f3a-of-another-file'


def hostile(rng, base, canary, root, ids):
    """Texts that something other than a reader might act upon."""
    url = 'file://' + canary
    return [u"__import__('os').system('touch %s.made')" % canary, u'os.system("touch %s.made")' % canary, u'$(touch %s.made)' % canary, u'`touch %s.made`' % canary,
            u'%s' % canary, url, u'file:%s' % canary, u'http://127.0.0.1:9/x', u'//127.0.0.1:9/x', u'%(name)s', u'%s%s%s%n', u'{0.__class__}', u'{x}', u'\\u0041', u'%d' % 2 ** 70,
            u"cos\nsystem\n(S'touch %s.made'\ntR." % canary, u'../../../../etc/passwd', u'${jndi:ldap://127.0.0.1/x}', u'eval(1)', u'lambda: 0', u'xmlns', u'&ext;', u'!!python/object/apply:os.system ["x"]',
            u'[].append(1)', u'1+1', u'0 or __import__("subprocess")', u'CIM15.Element', u'os', u'sys']


def document(ctx, root, rng, base, canary):
    """(content, bytes, kinds): content surrounded with everything that might be acted upon."""
    c = Content(root, ctx, rng).populate(rng.randint(2, 8), fmt=rng.choice(['_%d', 'os%d', '../%d', '/etc/%d', 'http://127.0.0.1:9/%d', '__class__%d']))
    texts = hostile(rng, base, canary, root, None)
    kinds = set()
    for n in c.nodes:
        for a in n.cls.all_attrs:
            a = n.cls.by_attr[a.name]
            if a.type == 'str' and not a.enum and rng.random() < 0.7:
                v = rng.choice(texts)
                n.stmts = [s for s in n.stmts if s[1] != u'%s.%s' % (a.cls.name, a.name)]
                c.attr(n, a, v)
                kinds.add('text')
    if rng.random() < 0.25:
        # in the place of a number: refused or left out
        n = rng.choice(c.nodes)
        for a in n.cls.all_attrs:
            if n.cls.by_attr[a.name].type in ('float', 'int'):
                q = u'%s.%s' % (a.cls.name, a.name)
                n.stmts = [s for s in n.stmts if s[1] != q] + [('text', q, rng.choice([t for t in texts if not t.isdigit()]))]
                n.obj.attrs[a.name] = a.default
                kinds.add('number')
                break
    nodes = list(c.nodes)
    for k in range(rng.randint(1, 4)):
        x = Node(rng.choice([u'os.system', u'system', u'eval', u'os', u'sys', u'subprocess.Popen', u'builtins.eval', u'__import__', u'CIM15.Element', u'packagemap', u'nsURI', u'packageMap',
                             u'__builtins__', u'logging', u'Path', u'pathlib.Path']), u'_h%d' % k)
        x.stmts = [('text', u'%s.%s' % (x.name, rng.choice([u'args', u'__init__', u'path'])), rng.choice(texts))]
        nodes.insert(rng.randint(0, len(nodes)), x)
        kinds.add('class')
    for n in c.nodes:
        if rng.random() < 0.5:
            n.stmts.append(rng.choice([
                ('raw', u'', u'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s" parse="text"/>' % canary),
                ('ref', u'ext:imports', u'file://' + canary),
                ('enum', u'ext:schema', u'http://127.0.0.1:9/schema#x.y'),
                ('text', u'IdentifiedObject.noSuch', rng.choice(texts)),
                ('text', u'md:Model.DependentOn', u'file://' + canary),
                ('ref', u'md:Model.DependentOn', canary)]))
            kinds.add('statement')
    style = Style(rng)
    style.entities = False
    if style.encoding in ('utf-16', 'utf-8-sig'):
        style.encoding, style.decl = 'utf-8', True
    data = render(nodes, root.ns, style, EXT)
    if rng.random() < 0.5:
        data = data.replace(b'<rdf:RDF', ('<rdf:RDF xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="%s %s.xsd" xsi:noNamespaceSchemaLocation="file://%s"' % (
            root.ns, canary, canary)).encode('ascii'), 1)
        kinds.add('schema_location')
    # declarations and instructions
    top = b''
    k = rng.random()
    if k < 0.7:
        kind = rng.choice(['external subset', 'external entity', 'parameter entity', 'unparsed entity', 'several'])
        sub = []
        if kind in ('external entity', 'several'):
            sub.append('<!ENTITY ext SYSTEM "%s">' % rng.choice([canary, 'file://' + canary, 'http://127.0.0.1:9/e', os.path.basename(canary)]))
        if kind in ('parameter entity', 'several'):
            sub.append('<!ENTITY %% par SYSTEM "%s">\n%%par;' % rng.choice([canary + '.dtd', 'file://%s.dtd' % canary, os.path.basename(canary) + '.dtd']))
        if kind == 'unparsed entity':
            sub.append('<!NOTATION sh SYSTEM "/bin/sh"><!ENTITY un SYSTEM "%s" NDATA sh>' % canary)
        top = ('<!DOCTYPE rdf:RDF %s [\n%s\n]>\n' % ('SYSTEM "%s"' % rng.choice([canary + '.dtd', 'file://%s.dtd' % canary, 'http://127.0.0.1:9/d.dtd']) if
                                                      kind in ('external subset', 'several') else '', '\n'.join(sub))).encode()
        kinds.add('doctype')
        if kind == 'external entity' and rng.random() < 0.5:
            data = data.replace(b'</rdf:RDF>', b'<ext:n>&ext;</ext:n></rdf:RDF>')
            kinds.add('entity_used')
    pis = b''.join(rng.sample([b'<?xml-stylesheet href="%s" type="text/xsl"?>' % canary.encode(), b'<?python import os; os.system("touch %s.made")?>' % canary.encode(),
                               b'<?include %s?>' % canary.encode(), b'<?php system("touch x")?>'], rng.randint(0, 3)))
    kinds.add('instruction') if pis else None
    i = data.index(b'?>') + 2 if data.startswith(b'<?xml') else 0
    data = data[:i] + b'\n' + pis + top + data[i:]
    return c, data, kinds


AUDIT = None


def one(ctx, root, i):
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    rng = ctx.rng(root.name, i)
    base = os.path.join(os.path.realpath(ctx.tmp()), 'w')
    os.makedirs(base, exist_ok=True)
    canary = os.path.join(base, 'canary')
    for suffix, text in (('', SECRET), ('.dtd', u'<!ENTITY ext "%s">' % SECRET)):
        with open(canary + suffix, 'w') as f:
            f.write(text)
    c, data, kinds = document(ctx, root, rng, base, canary)
    path = os.path.join(base, rng.choice(['model.xml', 'm$(touch x).xml', 'a;b.xml', '%s%n.xml', '|touch x', '-rf', 'http:', 'model.xml.gz', 'm.zip']))
    with open(path, 'wb') as f:
        f.write(data)
    there = sorted(os.listdir(base))
    cwd = os.getcwd()
    os.chdir(base)
    how = rng.choice(['path', 'relative', 'stream', 'file', 'pretty'])
    source = {'path': path, 'relative': os.path.basename(path)}.get(how) or (open(path, 'rb') if how == 'file' else io.BytesIO(data))
    d, error, out = None, None, None
    args = reader_args(root, rng.random() < 0.3)
    try:
        with AUDIT:
            try:
                if how == 'pretty':
                    out = xmlpp(path)
                else:
                    d = cimread(source, *args)
            except Exception as e:
                error = e
                e.__traceback__ = None
        n = judge(AUDIT.events, {path}, (), 'reading a document (%s)' % how)
        ctx.count('audit_events', n)
        if sorted(os.listdir(base)) != there:
            raise Violation('reading a document leaves %r behind' % sorted(set(os.listdir(base)) ^ set(there)))
        if error is not None:
            if 'entity_used' not in kinds and 'number' not in kinds:
                raise Violation('reading raised %s: %s' % (type(error).__name__, error))
            ctx.count('refused')
        if out is not None and SECRET.encode() in out:
            raise Violation('the content of another file appears in the pretty-printed document')
        if d is not None:
            for o in d.values():
                if any(isinstance(v, str) and SECRET in v for v in vars(o).values()):
                    raise Violation('the content of another file appears in %r' % o)
            compare(ctx, root, c.w.objs, d)
            ctx.count('models')
    except Violation as v:
        v.detail['document'] = excerpt(data, 3000)
        raise
    finally:
        os.chdir(cwd)
        os.unlink(path)
        if how == 'file':
            source.close()
    for k in kinds:
        ctx.count(k)
    ctx.count('evaluations')
    ctx.count('how_' + how)
    ctx.seen('nontrivial', data)
    # and writing such a model touches nothing but the target
    if d is not None:
        target = rng.choice([path + '.out', io.BytesIO(), None])
        buf = Sink() if target is None or isinstance(target, io.BytesIO) else target
        with AUDIT:
            cimwrite(d, buf)
        ctx.count('audit_events', judge(AUDIT.events, (), {path + '.out'} if buf == path + '.out' else (), 'writing a model'))
        ctx.count('written')
        if buf == path + '.out':
            os.unlink(buf)
        if sorted(os.listdir(base)) != [x for x in there if x != os.path.basename(path)]:
            raise Violation('writing a model leaves %r behind' % sorted(os.listdir(base)))


class Sink(object):
    def write(self, s):
        return len(s)


def control(ctx):
    """The monitor sees what it has to see."""
    import subprocess
    base = os.path.realpath(ctx.tmp())
    p = os.path.join(base, 'canary')
    with open(p, 'w') as f:
        f.write('x')
    for f in (lambda: open(p).close(), lambda: open(os.path.join(base, 'new'), 'w').close(), lambda: os.close(os.open(p, os.O_RDONLY)), lambda: eval('1+1'), lambda: subprocess.run(['/bin/true']),
              lambda: os.system('true'), lambda: __import__('socket').socket().close(), lambda: os.unlink(p)):
        with AUDIT:
            f()
        try:
            judge(AUDIT.events, (), (), '')
        except Violation:
            ctx.count('controls_seen')
        else:
            raise RuntimeError('the auditor missed a control: %r' % AUDIT.events)


def run(ctx):
    global AUDIT
    ctx.rule = ('one case = one seeded document whose texts, identifiers, class names, statements, entity and document type declarations and processing instructions name '
                'files, addresses, commands and code, read by path, from a stream or file, or pretty-printed, and the model written again; every audit event of the interpreter '
                '(files opened, modules imported, code compiled or run, sockets, processes, directories) is judged: only the source may be opened, and only for reading (for writing: only the target); '
                'content of other files must not appear, no file may be made, the model must be the one stated; non-trivial = read or refused under the monitor; distinct = by document')
    ctx.assumptions = ['C code reports what it does through audit events (CPython\'s parser does not open files)']
    roots = spec.load()
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    AUDIT = Auditor()
    control(ctx)
    items = []
    for r in roots.values():
        full = '.' not in r.name
        items += [(r.name, i) for i in range(ctx.size(400 if full else 40, 3000 if full else 300))]
    ctx.pmap(lambda sub, it: sub.case('%s %d' % it, one, sub, roots[it[0]], it[1]), items)
    ok = not ctx.violations
    for k, n in (('audit_events', 3000), ('models', 500), ('doctype', 300), ('entity_used', 30), ('instruction', 300), ('class', 500), ('statement', 500), ('how_pretty', 50), ('written', 300), ('number', 100), ('schema_location', 300)):
        ctx.need(k, n if ok else 0)
    ctx.need('controls_seen', 8)
