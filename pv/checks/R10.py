"""What the model does not know is left out, reported, and harms nothing else."""
import collections
import functools
import io
import re
from .. import spec
from ..core import Violation
from ..docs import Content, Style, Node, ident, render, compare, reader_args, excerpt, string_value, esc_text, text_xml
from ..world import pyclass, usable
from .R06 import Logs

MD = u'http://iec.ch/TC57/61970-552/ModelDescription/1#'
EXT = [(u'md', MD), (u'ext', u'http://example.com/vendor#'), (u'e2', u'urn:x-vendor:ext')]
NAMES = [u'vendorCode', u'wholesale', u'Extra', u'xq7', u'newIn17', u'R2', u'nominalVoltage2', u'terminals', u'_secret', u'Owner_Group', u'caf\u00e9']


def near(root):
    """Namespaces that are nearly the one of the document."""
    ns = root.ns
    return [(u'n1', ns + u'#vendor'), (u'n2', ns), (u'n3', ns + u'-ext#'), (u'n4', ns + u'/ext#'), (u'n5', ns.upper() + u'#'), (u'n6', ns[:-1] + u'#'),
            (u'n7', u'x' + ns + u'#'), (u'n8', spec.NS['CIM14' if root.name.startswith('CIM15') else 'CIM15'] + u'#'), (u'n9', spec.NS16 + u'#'), (u'n0', ns + u'##')]


def foreign_statement(rng, ids, cls=None):
    p = rng.choice([u'ext', u'e2', u'md'] + [u'n%d' % i for i in range(10)])
    q = u'%s:%s.%s' % (p, rng.choice([u'A', u'Terminal', u'IdentifiedObject']), rng.choice([u'name', u'Substation', u'zone', u'r']))
    if cls is not None and (cls.all_attrs or cls.all_refs) and rng.random() < 0.6:
        # the very name of something that the object has
        x = rng.choice(cls.all_attrs + cls.all_refs)
        q = u'%s:%s.%s' % (p, x.cls.name, x.name)
    k = rng.random()
    if k < 0.4:
        return ('text', q, string_value(rng))
    if k < 0.6 and ids:
        return ('ref', q, u'#' + rng.choice(ids))
    if k < 0.8:
        return ('raw', q, u'<%s><%s:Inner k="v">text<%s:Deep/></%s:Inner> tail</%s>' % (q, p, p, p, q))
    return ('ref', q, u'http://example.com/x#Y.z')


@functools.lru_cache(None)
def reserved(klass):
    """Names that an object has, but not as properties of the model."""
    o = klass()
    return ['UUID'] * 3 + [n for n in dir(o) if n.startswith('_') or callable(getattr(o, n))]


def misfit(rng, root, cls, ids):
    """(name, statement) of a property in a form that it cannot have."""
    x = rng.choice([x for x in cls.all_attrs + cls.all_refs])
    x = cls.by_attr.get(x.name) or cls.by_ref[x.name]
    q = u'%s.%s' % (x.cls.name, x.name)
    literal = ('enum', q, u'%s#%s' % (root.ns, rng.choice([u'Kind.a', u'UnitSymbol.W', u'PhaseCode.ABC', u'1', u'a.1.5'])))
    ref = ('ref', q, u'#' + rng.choice(ids + [u'_absent']))
    if x.name in cls.by_ref:
        return x.name, rng.choice([literal, ('text', q, string_value(rng)), ('text', q, rng.choice(ids)),
                                   ('ref', q, rng.choice([u'urn:uuid:1-2', u'http://example.com/m.xml', u'', u'x'] + [u for u in ids if u[0] != u'#']))])
    return x.name, ref if x.enum or rng.random() < 0.5 else literal


def noise_node(rng, i, ids, cname):
    k = rng.random()
    n = Node(u'x', u'_noise%d' % i)
    n.foreign = True
    if k < 0.3:
        n.name = u'md:FullModel'
        n.stmts = [('text', u'md:Model.created', u'2011-01-01'), ('text', u'md:Model.profile', u'http://example.com/p'),
                   ('ref', u'md:Model.Supersedes', u'#' + (rng.choice(ids) if ids else u'_z'))]
    elif k < 0.6:
        n.name = rng.choice([u'rdf:Description', u'rdf:Statement'])
        n.stmts = [foreign_statement(rng, ids) for _ in range(rng.randint(0, 3))]
    else:
        n.name = rng.choice([u'ext:Terminal', u'e2:Substation', u'ext:Thing', u'n1:%s' % cname, u'n%d:%s' % (rng.randint(0, 9), cname)])
        if rng.random() < 0.4 and ids:
            n.id = rng.choice(ids)      # says something about a known identifier
        n.stmts = [foreign_statement(rng, ids) for _ in range(rng.randint(0, 4))]
    return n


def one(ctx, root, i):
    from PyCIM import cimread
    rng = ctx.rng(root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([1, 4, 10, 25]), links=1.5)
    c.shuffle()
    ids = [n.id for n in c.nodes]
    style = Style(rng)
    spellable = lambda names: [x for x in names if style.encoding != 'us-ascii' or x.isascii()]
    must = []       # words that some report has to contain
    unknown_props = collections.Counter()   # (class, property): occurrences
    few = rng.sample(spellable(NAMES), 2)   # so that the same name turns up in several classes
    misfits = []
    kinds = set()
    # foreign and unknown statements in known objects
    for n in c.nodes:
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                n.stmts.insert(rng.randint(0, len(n.stmts)), foreign_statement(rng, ids, n.cls))
                kinds.add('foreign_statement')
        if rng.random() < 0.25:
            name = rng.choice(reserved(pyclass(n.cls)))
            q = u'%s.%s' % (rng.choice([n.name, u'IdentifiedObject']), name)
            s = rng.choice([('text', q, rng.choice([string_value(rng), u'', u'1'])), ('ref', q, u'#' + rng.choice(ids)), ('ref', q, u'#_absent'),
                            ('enum', q, u'%s#Kind.a' % root.ns)])
            n.stmts.insert(rng.randint(0, len(n.stmts)), s)
            unknown_props[n.name, name] += 1
            kinds.add('reserved_name')
        if rng.random() < 0.25 and n.cls.all_attrs + n.cls.all_refs:
            name, s = misfit(rng, root, n.cls, ids)
            n.stmts.insert(rng.randint(0, len(n.stmts)), s)
            misfits.append((n.name, name))
            kinds.add('unfitting_form')
        if rng.random() < 0.4:
            probe = pyclass(n.cls)
            name = rng.choice(few)
            if hasattr(probe(), name):
                continue
            owner = rng.choice([n.name, u'IdentifiedObject', u'NoSuchClass'])
            q = u'%s.%s' % (owner, name)
            k = rng.random()
            if k < 0.4:
                s = ('text', q, rng.choice([string_value(rng), u'1.5', u'true']))
                kinds.add('unknown_text')
            elif k < 0.7:
                s = ('ref', q, u'#' + rng.choice(ids))
                kinds.add('unknown_reference')
            elif k < 0.85:
                s = ('enum', q, u'%s#Kind.%s' % (root.ns, rng.choice([u'a', u'b1'])))
                kinds.add('unknown_enumeration')
            else:
                s = ('ref', q, u'#_absent_%d' % i)
                kinds.add('unknown_reference')
            n.stmts.insert(rng.randint(0, len(n.stmts)), s)
            unknown_props[n.name, name] += 1
            if rng.random() < 0.3:
                n.stmts.insert(rng.randint(0, len(n.stmts)), s)
                unknown_props[n.name, name] += 1
    # unknown classes, with statements known and unknown, and references to them
    nodes = list(c.nodes)
    unknown = [u'NoSuchClass', u'Terminal17', u'xq9', u'Caf\u00e9']
    outside = sorted(set(x.name for x in spec.load()[root.name[:5]].elements) - set(root.C))
    for k in range(rng.randint(0, 3)):
        name = rng.choice(outside if outside and rng.random() < 0.5 else spellable(unknown))
        if name in root.C:
            continue
        x = Node(name, u'_unknown%d' % k)
        for _ in range(rng.randint(0, 3)):
            x.stmts.append(rng.choice([('text', u'IdentifiedObject.name', u'n'), ('ref', u'Equipment.EquipmentContainer', u'#' + rng.choice(ids)),
                                       ('text', u'%s.thing' % name, u'<>&'), ('enum', u'%s.kind' % name, root.ns + u'#Kind.a')]))
        nodes.insert(rng.randint(0, len(nodes)), x)
        kinds.add('unknown_class')
        must.append((name, 'class %s' % name))
        src = rng.choice(c.nodes)
        rs = [r for r in src.cls.all_refs if not r.many and src.obj.one.get(r.name, 0) is None]
        if rs and rng.random() < 0.5:
            r = rng.choice(rs)
            src.stmts.append(('ref', u'%s.%s' % (r.cls.name, r.name), u'#' + x.id))
            must.append((x.id, 'reference to %s' % x.id))
            kinds.add('reference_to_unknown')
    # references of known properties to identifiers that are nowhere
    for k in range(rng.choice([0, 0, 1, 3])):
        src = rng.choice(c.nodes)
        rs = [r for r in src.cls.all_refs if usable(src.cls, r)]
        if rs:
            r = rng.choice(rs)
            gone = ident(rng, 900000 + k).replace(u'900000', u'gone90') if style.encoding != 'us-ascii' else u'_gone%d' % k
            src.stmts.insert(rng.randint(0, len(src.stmts)), ('ref', u'%s.%s' % (r.cls.name, r.name), u'#' + gone))
            must.append((gone, 'reference to %s' % gone))
            kinds.add('unresolved_reference')
    for k in range(rng.randint(0, 3)):
        nodes.insert(rng.choice([0, rng.randint(0, len(nodes)), len(nodes)]), noise_node(rng, k, ids, rng.choice(c.nodes).name))
        kinds.add('foreign_element')
    if not kinds:
        return
    data = render(nodes, root.ns, style, EXT + near(root))
    try:
        with Logs() as log:
            d = cimread(io.BytesIO(data), *reader_args(root))
        compare(ctx, root, c.w.objs, d)
        texts = log.texts()
        for word, what in must:
            if not any(word in t for t in texts):
                raise Violation('%s is not reported; reports: %r' % (what, texts[:6]))
            ctx.count('reports_seen')
        for cname, name in misfits:
            if not any(cname in t and name in t for t in texts):
                raise Violation('the property %s of %s, stated in a form it cannot have, is not reported; reports: %r' % (name, cname, texts[:6]))
            ctx.count('reports_seen')
        for (cname, name), times in unknown_props.items():
            word = lambda w, t: re.search(r'(?<!\w)%s(?!\w)' % re.escape(w), t)
            said = [t for t in texts if word(cname, t) and word(name, t)]
            if not said:
                raise Violation('the unknown property %s of %s is not reported; reports: %r' % (name, cname, texts[:6]))
            if len(said) != times and not any(word(str(times), t) for t in said):
                raise Violation('the unknown property %s of %s occurs %d times but is reported as %r' % (name, cname, times, said[:3]))
            ctx.count('reports_seen')
            ctx.count('unknown_properties_reported', times)
        if len(set(c for c, _ in unknown_props)) > len(set(a for _, a in unknown_props)):
            ctx.count('same_property_in_several_classes')
    except Violation as v:
        v.detail['document'] = excerpt(data, 2500)
        raise
    ctx.count('evaluations')
    for k in kinds:
        ctx.count(k)
    ctx.seen('nontrivial', data)
    if i == 0:
        ctx.sample({'kinds': sorted(kinds), 'reports': texts[:4], 'document': excerpt(data, 500)})


def lots(ctx, root, i):
    """Hundreds of different unknown things in one document, each of which is reported."""
    from PyCIM import cimread
    rng = ctx.rng('lots', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([1, 3, 10]))
    n = rng.randint(120, 500)
    props, classes, gone, extra = [], [], [], []
    for k in range(n):
        node = rng.choice(c.nodes)
        kind = rng.choice(['property', 'property', 'class', 'reference'])
        if kind == 'property':
            node.stmts.insert(rng.randint(0, len(node.stmts)), ('text', u'%s.lots%dx' % (node.name, k), u'v'))
            props.append((node.name, u'lots%dx' % k))
        elif kind == 'class':
            x = Node(u'Lots%dx' % k, u'_lots%d' % k)
            extra.append(x)
            classes.append(x.name)
        elif node.cls.all_refs:
            ref = node.cls.by_ref[rng.choice(node.cls.all_refs).name]
            node.stmts.append(('ref', u'%s.%s' % (ref.cls.name, ref.name), u'#gone%dx' % k))
            gone.append(u'gone%dx' % k)
    nodes = c.nodes + extra
    rng.shuffle(nodes)
    data = render(nodes, root.ns, Style(plain=True))
    with Logs() as log:
        d = cimread(io.BytesIO(data), *reader_args(root))
    compare(ctx, root, c.w.objs, d)
    said = collections.defaultdict(list)
    for t in log.texts():
        for word in set(re.findall(r'\w+', t)):
            said[word].append(t)
    for cname, name in props:
        if not any(cname in t for t in said[name]):
            raise Violation('the unknown property %s of %s, one of %d, is not reported' % (name, cname, len(props)))
    for what, names in (('class', classes), ('reference', gone)):
        for name in names:
            if not said[name]:
                raise Violation('the unknown %s %s, one of %d, is not reported' % (what, name, len(names)))
    ctx.count('evaluations')
    ctx.count('reports_seen', n)
    ctx.count('documents_with_lots')
    ctx.seen('nontrivial', data)


def clean(ctx, root, i):
    """A document that the model knows completely is not complained about."""
    from PyCIM import cimread
    rng = ctx.rng('clean', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([2, 8, 20]), links=1.5)
    c.shuffle()
    data = render(c.nodes, root.ns, Style(rng))
    with Logs() as log:
        d = cimread(io.BytesIO(data), *reader_args(root))
    compare(ctx, root, c.w.objs, d)
    if log.texts():
        raise Violation('a known document is complained about: %r' % log.texts()[:3], document=excerpt(data, 1500))
    ctx.count('evaluations')
    ctx.count('clean_documents')


def run(ctx):
    ctx.rule = ('one case = one seeded document with foreign-namespace elements and statements (also of namespaces that resemble the document\'s, and under names the model has), statements the model does not know '
                '(text, reference, enumeration; also under names that objects have, but not as properties), known properties in a form they cannot have, elements of unknown classes and references to them and to absent objects mixed into known content; compared '
                'with the graph of the known content alone, and with the log records for one report per unknown thing; documents '
                'without any such content must be read without a warning; non-trivial = read with at least one; distinct = by bytes')
    roots = spec.load()
    n = ctx.size(600, 3000)
    items = []
    for r in roots.values():
        for i in range(n if '.' not in r.name else n // 4):
            items.append((one, r.name, i))
            if i % 4 == 0:
                items.append((clean, r.name, i))
            if i % 10 == 0:
                items.append((lots, r.name, i))
    ctx.pmap(lambda sub, it: sub.case('%s %s %d' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2]), items)
    ok = not ctx.violations
    ctx.need('same_property_in_several_classes', 30 if ok else 0)
    ctx.need('documents_with_lots', 50 if ok else 0)
    for k in ('foreign_statement', 'unknown_text', 'unknown_reference', 'unknown_enumeration', 'unknown_class', 'foreign_element', 'clean_documents', 'unresolved_reference', 'reserved_name', 'unfitting_form'):
        ctx.need(k, 30 if ok else 0)
