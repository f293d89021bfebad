"""Construction."""
import importlib
from .. import spec
from ..core import Violation
from ..gen import candidates, impedance_conflict
from ..world import World, usable, value, pyclass


def one_class(ctx, root, cls, rounds):
    rng = ctx.rng(repr(cls))
    # -- bare instances: every published default, nothing shared
    w = World(root, ctx, rng)
    a, b = w.new(cls), w.new(cls)
    for name in a.many:
        x, y = getattr(a.real, name), getattr(b.real, name)
        ctx.count('list_pairs')
        if x is y:
            raise Violation('two %s share the list %s' % (cls, name), cls=repr(cls), ref=name)
    if getattr(pyclass(cls)(), 'UUID', None) != '':
        raise Violation('%s() has identifier %r' % (cls, getattr(pyclass(cls)(), 'UUID', None)))
    # -- every attribute by keyword, inherited ones too
    for i in range(rounds):
        p = 1.0 if i == 0 else 0.4
        attrs = {x.name: value(rng, cls.by_attr[x.name], False) for x in cls.all_attrs if rng.random() < p}
        w.new(cls, attrs)
        ctx.count('evaluations')
        if attrs:
            ctx.seen('nontrivial', (repr(cls), tuple(sorted(map(repr, attrs.items())))))
    # each attribute alone, so that one mixed up with another shows
    for x in cls.all_attrs:
        x = cls.by_attr[x.name]
        v = {'float': 42.5, 'int': 42, 'bool': True, 'str': u'forty-two'}[x.type]
        if x.enum and x.literals:
            v = x.literals[-1]
        w2 = World(root, ctx, rng)
        w2.new(cls, {x.name: v})
        ctx.count('evaluations')
        ctx.count('single_attribute_constructions')
        ctx.seen('nontrivial', (repr(cls), x.name))
    # values that Python takes for false, among others that are not
    ZERO = {'float': 0.0, 'int': 0, 'bool': False, 'str': u''}
    ONE = {'float': 1.25, 'int': 3, 'bool': True, 'str': u'one'}
    for k in range(4 * rounds if len(cls.all_attrs) > 1 else 1):
        attrs = {}
        for x in cls.all_attrs:
            x = cls.by_attr[x.name]
            if rng.random() < 0.75:
                attrs[x.name] = rng.choice(x.literals) if x.enum and x.literals else (ZERO if rng.random() < 0.5 else ONE)[x.type]
        w.new(cls, attrs)
        ctx.count('evaluations')
        ctx.count('false_values', sum(not v for v in attrs.values()))
    # -- every reference by keyword
    for r in cls.all_refs:
        if not usable(cls, r) or r.name in cls.shadow:
            continue
        tc = root.C[r.target]
        if not tc.element:
            obj = pyclass(tc)()
            got = getattr(pyclass(cls)(**{r.name: obj}), r.name)
            ctx.count('compound_references')
            ctx.count('evaluations')
            if got is not obj:
                raise Violation('%s(%s=...) does not hold the given object' % (cls, r.name), cls=repr(cls), ref=r.name)
            if getattr(pyclass(cls)(), r.name, cls) is not None:
                raise Violation('%s().%s is not unset' % (cls, r.name), cls=repr(cls), ref=r.name)
            continue
        ts = [t for t in root.targets(r) if t.element and (r.inv is None or usable(t, r.inv))]
        if not ts:
            continue
        w3 = World(root, ctx, rng, derived=0.2)
        pool = [w3.new(rng.choice(ts)) for _ in range(4)]
        prev = w3.new(cls, refs={r: pool[:2] if r.many else pool[0]})
        # the second object takes over from the first where an end is to-one
        w3.new(cls, refs={r: pool[1:] if r.many else pool[0]})
        w3.new(cls, refs={r: ()} if r.many else {})
        ctx.count('evaluations', 3)
        ctx.count('reference_constructions', 3)
        ctx.seen('nontrivial', (repr(cls), r.name))
    # -- attributes and references together
    for k in range(rounds):
        refs = [r for r in cls.all_refs if usable(cls, r) and r.name not in cls.shadow and not impedance_conflict(None, r)
                and root.C[r.target].element and rng.random() < 0.6]
        if not refs:
            continue
        w4 = World(root, ctx, rng, derived=0.2)
        given = {}
        for r in refs:      # partners of their own, so that the order of the arguments does not matter
            ts = [t for t in root.targets(r) if t.element and (r.inv is None or usable(t, r.inv))]
            if ts:
                vs = [w4.new(rng.choice(ts)) for _ in range(rng.randint(1, 3) if r.many else 1)]
                given[r] = vs if r.many else vs[0]
        attrs = {x.name: value(rng, cls.by_attr[x.name], False) for x in cls.all_attrs if rng.random() < 0.6}
        n = 0
        if not cls.shadow and rng.random() < 0.5:       # up to all of them without names
            n = rng.choice([len(cls.order), rng.randint(1, len(cls.order))])
            ctx.count('constructions_without_names')
        w4.new(cls, attrs, given, positional=n)
        if rng.random() < 0.5:      # and a second one takes them over
            w4.new(cls, {}, {r: v for r, v in given.items() if rng.random() < 0.7})
        ctx.count('evaluations')
        ctx.count('combined_constructions')
        ctx.seen('nontrivial', (repr(cls), tuple(sorted(attrs)), tuple(sorted(r.name for r in given))))
    # -- a misspelt or foreign keyword must not be swallowed
    for bad in ('noSuchThing', 'Name_', 'uuid', 'xyz'):
        if bad in cls.by_attr or bad in cls.by_ref:
            continue
        try:
            pyclass(cls)(**{bad: 1})
        except TypeError:
            ctx.count('rejected_keywords')
        else:
            raise Violation('%s accepts the unknown keyword %s' % (cls, bad), cls=repr(cls))
    ctx.seen('classes', repr(cls))


def compound(ctx, root, cls):
    rng = ctx.rng(repr(cls))
    k = pyclass(cls)
    x, y = k(), k()
    for a in cls.all_attrs:
        if getattr(x, a.name, cls) != a.default:
            raise Violation('%s().%s is %r, not %r' % (cls, a.name, getattr(x, a.name, None), a.default))
        v = value(rng, a, False)
        z = k(**{a.name: v})
        if getattr(z, a.name) != v:
            raise Violation('%s(%s=%r) has %r' % (cls, a.name, v, getattr(z, a.name)))
        for o in cls.all_attrs:
            if o.name != a.name and getattr(z, o.name) != o.default:
                raise Violation('%s(%s=%r) changes %s' % (cls, a.name, v, o.name))
        i = cls.order.index(a.name)
        z = k(*[cls.by_attr[n].default if n in cls.by_attr else None for n in cls.order[:i]] + [v])
        if getattr(z, a.name) != v:
            raise Violation('%s given %r as argument %d has %r for %s' % (cls, v, i + 1, getattr(z, a.name), a.name))
        setattr(x, a.name, v)
        if getattr(y, a.name) != a.default:
            raise Violation('%s instances share %s' % (cls, a.name))
        ctx.count('evaluations')
        ctx.seen('nontrivial', (repr(cls), a.name))
    ctx.seen('classes', repr(cls))


def run(ctx):
    ctx.rule = ('one case = constructing a published class with a seeded subset of its own and inherited '
                'attributes and references given by keyword or (in the published order) without names, next to other live objects, and comparing every '
                'observable value with the published defaults and the reference model; non-trivial = at least '
                'one argument given; distinct = by class and arguments')
    roots = spec.load()
    items = [(r.name, c.name) for r in roots.values() for c in r.classes]

    def one(sub, it):
        root = roots[it[0]]
        c = root.C[it[1]]
        sub.case('construct %s' % c, one_class if c.element else compound, *((sub, root, c, sub.size(10, 60)) if c.element else (sub, root, c)))
    ctx.pmap(one, items)
    ctx.need('constructions_without_names', 1000 if not ctx.violations else 0)
    ctx.notes['classes_published'] = len(items)
    ctx.need('classes', len(items) if not ctx.violations else 1)
