"""The classes offer what the published model says."""
import io
from .. import spec
from ..core import Violation
from ..docs import Content, Style, reader_args, render
from ..gen import population, random_op
from ..world import pyclass, usable, adder
from .R10 import misfit, reserved


def one_class(ctx, root, cls):
    k = pyclass(cls)
    o = k()
    for b in cls.chain:
        if not isinstance(o, pyclass(b)):
            raise Violation('%s is not a %s' % (cls, b.name))
        ctx.count('hierarchy_checks')
    for a in cls.all_attrs:
        a = cls.by_attr[a.name]
        got = getattr(o, a.name, ctx)
        if got is ctx:
            raise Violation('%s has no attribute %s' % (cls, a.name))
        if got != a.default or (a.default is not None and type(got).__name__ != a.type and not (
                a.type == 'float' and type(got) is int)):
            raise Violation('%s.%s is %r initially, published: %r (%s)' % (cls, a.name, got, a.default, a.type))
        if a.enum and a.literals and a.default is not None and a.default != '' and got not in a.literals:
            raise Violation('%s.%s starts with %r, not a literal of %s' % (cls, a.name, got, a.enum))
        ctx.count('attribute_checks')
        ctx.seen('nontrivial', (repr(cls), a.name))
    for r in cls.all_refs:
        got = getattr(o, r.name, ctx)
        if got is ctx:
            raise Violation('%s has no reference %s' % (cls, r.name))
        if r.many and not (hasattr(got, '__iter__') and list(got) == []):
            raise Violation('%s.%s is %r initially, not an empty list' % (cls, r.name, got))
        if not r.many and got is not None:
            raise Violation('%s.%s is %r initially, not unset' % (cls, r.name, got))
        if r.many:
            adder(o, r.name), adder(o, r.name, 'remove')
        ctx.count('reference_checks')
        ctx.seen('nontrivial', (repr(cls), r.name))
    tables(ctx, cls, k)
    # Sibling classes stay siblings: no accidental inheritance.
    names = {c.name for c in cls.chain}
    for b in k.__mro__:
        if b is not object and b.__name__ not in names:
            raise Violation('%s derives from %s' % (cls, b.__name__))
    ctx.count('evaluations')
    ctx.seen('classes', repr(cls))


def tables(ctx, cls, k):
    """What a class says about itself, for whoever walks over models."""
    if cls.name == 'Element':
        return

    def table(name):
        return k.__dict__.get(name)

    def bad(name, what, want, got):
        raise Violation('%s.%s says %s: %r, published: %r' % (cls, name, what, got, want))
    known = set(cls.by_attr) | set(cls.by_ref) | {'UUID', 'PerLengthImpedance'}     # the latter: M06
    one = {r.name for r in cls.refs if not r.many}
    refs = {r.name for r in cls.refs}
    for name, own in (('_attrs', {a.name for a in cls.attrs}), ('_refs', refs), ('_many_refs', refs - one)):
        t = table(name)
        if t is None:
            continue
        have = set(t)
        own = {x for x in own if x in have or '-' not in x}
        if own - have or len(list(t)) != len(have):
            bad(name, 'members', sorted(own), sorted(t))
        if name != '_many_refs' and {x for x in have if '-' not in x} - known or name == '_many_refs' and have & one:
            bad(name, 'members', sorted(own), sorted(have))
        ctx.count('table_checks')
    for a in cls.attrs:
        for name, want in (('_attr_types', a.type), ('_defaults', a.default), ('_enums', a.enum)):
            t = table(name)
            if t is None:
                continue
            got = t.get(a.name, ctx)
            if got is ctx:
                if want is not None:
                    bad(name, a.name, want, 'nothing')
            elif name == '_attr_types':
                if getattr(got, '__name__', got) != want:
                    bad(name, a.name, want, got)
            elif name == '_enums' and not want:
                bad(name, a.name, None, got)
            elif got != want or isinstance(got, bool) != isinstance(want, bool):
                bad(name, a.name, want, got)
            ctx.count('table_checks')


def namespaces(ctx):
    import CIM14
    import CIM15
    for m, n in ((CIM14, 'CIM14'), (CIM15, 'CIM15')):
        if m.nsURI.rstrip('#') != spec.NS[n]:
            raise Violation('%s announces namespace %s' % (n, m.nsURI))
        if m.nsPrefix != 'cim':
            raise Violation('%s announces prefix %s' % (n, m.nsPrefix))
        ctx.count('namespaces')


def used(ctx, roots):
    """Everything again, after the library has been used in every way."""
    from PyCIM import cimread, cimwrite
    rng = ctx.rng('use')
    for root in roots.values():
        for cls in root.elements:
            box = []

            def use():
                c = Content(root, ctx, rng).populate(rng.randint(2, 5), start=cls, p_attr=0.8)
                for n in c.nodes:
                    if n.cls.all_attrs + n.cls.all_refs and rng.random() < 0.3:
                        n.stmts.append(misfit(rng, root, n.cls, [m.id for m in c.nodes])[1])
                    n.stmts.append(('text', u'%s.%s' % (n.name, rng.choice(reserved(pyclass(n.cls)) + [u'extra', u'xq7'])), u'1'))
                data = render(c.nodes, root.ns, Style(rng))
                d = cimread(io.BytesIO(data), *reader_args(root))
                cimwrite(d, Null())
                w = population(ctx, root, rng, 4, cls, alike=True)
                for _ in range(10):
                    random_op(w, rng)
                ctx.count('uses')
            try:
                use()
            except Exception as e:      # judged by the other properties
                ctx.count('uses_failed')
        for cls in root.classes:
            ctx.case('class %s after use' % cls, one_class, ctx, root, cls)
            ctx.count('classes_after_use')


class Null(object):
    def write(self, s):
        pass


def run(ctx):
    ctx.rule = ('one case = one published class of one of the 16 models/profiles: a live instance is compared with '
                'the frozen published model (ancestors, every own and inherited attribute with type and initial '
                'value, every reference with multiplicity and its add/remove operations, and the tables in which the class lists them); non-trivial = one '
                '(class, feature) pair compared; then all of it again after objects of every class have been built, linked, read (also from documents with unknown, reserved and unfitting statements) and written; exhaustive over the published model')
    roots = spec.load()
    for r in roots.values():
        for c in r.classes:
            ctx.case('class %s' % c, one_class, ctx, r, c)
    ctx.case('namespaces', namespaces, ctx)
    if not ctx.violations:
        used(ctx, roots)
        ctx.case('namespaces after use', namespaces, ctx)
        ctx.need('uses', 1000 if not ctx.violations else 0)
    ctx.notes['exhaustive'] = True
    ctx.sample({'class': 'CIM15.Terminal', 'attributes': [a.name for a in roots['CIM15'].C['Terminal'].all_attrs],
                'references': [r.name for r in roots['CIM15'].C['Terminal'].all_refs]})
    ctx.need('classes', 1600 if not ctx.violations else 1)
