"""A population of real model objects and, next to it, a reference model.

World applies public operations (construct, assign, add, remove) to the real
objects and to a few dictionaries that say what the published associations
demand, and compares the complete observable state of every object after each
one.  Nothing private is read: only attributes, reference properties, and the
add/remove methods.
"""
import importlib
from decimal import Decimal
from fractions import Fraction

from .core import Violation


def pyclass(c):
    return getattr(importlib.import_module(c.module), c.name)


KINDS = {}


def derived(k, how):
    """A class of the caller's, based on a published one."""
    if (k, how) not in KINDS:
        def __init__(self, *a, **kw):
            self.remark = 'of the caller'
            k.__init__(self, *a, **kw)
        body = [{}, {'__init__': __init__, 'note': None}, {'__bool__': lambda self: False}, {'__len__': lambda self: 0, '__str__': lambda self: 'same'},
                {'__slots__': ('extra',)}, {'__getattr__': lambda self, name: absent(name)}, {'__repr__': lambda self: 'same', '__lt__': lambda self, o: True}][how]
        bases = (k,) if how % 2 else (k, type('Aside', (object,), {'aside': 1}))
        KINDS[k, how] = type(k.__name__ if how % 3 else 'My' + k.__name__, bases, dict(body))
    return KINDS[k, how]


def absent(name):
    raise AttributeError(name)


def usable(cls, ref):
    """Whether the public name on an instance of cls denotes this reference."""
    return cls.by_ref.get(ref.name) is ref


FLOATS = [1.5, -2.25, 1e-9, 3.0e12, 0.1, -0.0, 7.0, 123456.789, 2.0 ** -40, 1.0 / 3.0]
STRS = [u'x', u'a b', u'Line 1', u'\u00e9\u00fc', u'<&>"\'', u'None', u'0', u'true', u'  pad ', u'a.b', u'#x', u'\u20ac\U0001F600']


def value(rng, a, exact=True):
    if a.enum:
        if a.literals and rng.random() < 0.9:
            return rng.choice(a.literals)
        return a.default
    if a.type == 'float':
        if not exact and rng.random() < 0.06:     # also numbers of another type are held as given
            return rng.choice([0, 5, -1, True, 10 ** 20, Decimal('1.50'), Fraction(1, 3), float('inf')])
        return rng.choice(FLOATS) if rng.random() < 0.5 else rng.uniform(-1e6, 1e6)
    if a.type == 'int':
        return rng.choice([1, -1, 0, 7, 2 ** 31 - 1, -5, 123456789]) if rng.random() < 0.7 else rng.randrange(-10 ** 6, 10 ** 6)
    if a.type == 'bool':
        return rng.random() < 0.5
    return rng.choice(STRS)


class Obj(object):
    __slots__ = ('cls', 'real', 'id', 'uuid', 'one', 'many', 'attrs', 'loose')

    def __init__(self, cls, real, ident, uuid=None):
        self.cls, self.real, self.id = cls, real, ident
        self.uuid = ident if uuid is None else uuid
        self.one, self.many, self.attrs, self.loose = {}, {}, {}, set()
        for r in cls.all_refs:
            if cls.by_ref[r.name] is r:
                if r.many:
                    self.many[r.name] = []
                else:
                    self.one[r.name] = None
        for a in cls.all_attrs:
            self.attrs[a.name] = a.default

    def __repr__(self):
        return '%s#%s' % (self.cls.name, self.id)


def adder(real, name, verb='add'):
    f = getattr(real, verb + name, None)
    if f is None:
        f = getattr(real, verb + '_' + name)
    return f


def getter(real, name, default=None):
    f = getattr(real, 'get' + name, None)
    return getattr(real, name, default) if f is None else f()


def setter(real, name, v):
    f = getattr(real, 'set' + name, None)
    if f is None:
        setattr(real, name, v)
    else:
        f(v)


class World(object):
    def __init__(self, root, ctx, rng, check_attrs=True, uuid=None, kinds=None, derived=0):
        # kinds: the kinds of association watched (None: all)
        # derived: how many of the objects are to be of a class of the caller's
        # uuid: the identifier all objects are given (None: each its own)
        self.root, self.ctx, self.rng, self.uuid = root, ctx, rng, uuid
        self.objs = []
        self.by_real = {}
        self.log = []
        self.check_attrs = check_attrs
        self.kinds = kinds
        self.derived = derived
        self.exact = True       # only values of the published types
        self.n = 0
        # by the properties, or by the methods behind them where there are any
        self.get = getter if rng and rng.random() < 0.15 else getattr
        self.set = setter if rng and rng.random() < 0.15 else setattr

    # -- reference model ----------------------------------------------------
    def m_unlink(self, o, r, v):
        """Remove the one link o -r-> v."""
        if r.many:
            o.many[r.name] = [x for x in o.many[r.name] if x is not v]
        else:
            o.one[r.name] = None
        q = r.inv
        if q is not None:
            if q.many:
                v.many[q.name] = [x for x in v.many[q.name] if x is not o]
            else:
                v.one[q.name] = None

    def linked(self, o, r, v):
        return v in o.many[r.name] if r.many else o.one[r.name] is v

    def m_link(self, o, r, v):
        """Establish o -r-> v, displacing what a to-one end held before."""
        q = r.inv
        if self.linked(o, r, v):
            # Already there: the lists keep it, where in the list is open.
            if r.many:
                o.loose.add(r.name)
            if q is not None and q.many:
                v.loose.add(q.name)
            return
        if not r.many and o.one[r.name] is not None:
            self.m_unlink(o, r, o.one[r.name])
        if q is not None and not q.many and v.one[q.name] is not None:
            self.m_unlink(v, q, v.one[q.name])
        if r.many:
            o.many[r.name] = o.many[r.name] + [v]
        else:
            o.one[r.name] = v
        if q is not None:
            if q.many:
                v.many[q.name] = v.many[q.name] + [o]
            else:
                v.one[q.name] = o

    def m_assign(self, o, r, vs):
        for v in list(o.many[r.name]):
            self.m_unlink(o, r, v)
        o.loose.discard(r.name)
        for v in vs:
            self.m_link(o, r, v)

    # -- operations ---------------------------------------------------------
    def step(self, text, real_fn, model_fn):
        self.log.append(text)
        try:
            real_fn()
        except Exception as e:
            raise Violation('%s raised %s: %s' % (text, type(e).__name__, e), history=self.log[-25:])
        model_fn()
        self.ctx.count('operations')
        self.check()

    def new(self, cls, attrs=None, refs=None, positional=0):
        """Construct an instance; refs maps a Ref to an Obj or list of Obj; so many
        arguments are given without their names."""
        attrs, refs = attrs or {}, refs or {}
        self.n += 1
        ident = 'u%d' % self.n
        kw = dict(attrs)
        lists = []
        for r, v in refs.items():
            if r.many:
                lst = [x.real for x in v]
                if r.inv is not None:
                    lists.append(lst)
                kw[r.name] = lst
            else:
                kw[r.name] = v.real
        uuid = ident if self.uuid is None else self.uuid
        text = '%s#%s = %s(UUID=%r, %s)' % (cls.name, ident, cls.name, uuid, ', '.join(
            ['%s=%r' % kv for kv in attrs.items()] + ['%s=%r' % (r.name, v) for r, v in refs.items()]))
        if positional:
            text += ', the first %d without names' % positional
        box = []

        def real():
            k = pyclass(cls)
            if self.derived and self.rng.random() < self.derived:
                k = derived(k, self.rng.randrange(7))
                self.ctx.count('objects_of_derived_classes')
            named = dict(kw, UUID=uuid) if uuid else dict(kw)
            args = [named.pop(n, cls.by_attr[n].default if n in cls.by_attr else u'' if n == 'UUID' else None) for n in cls.order[:positional]]
            box.append(k(*args, **named))
            for lst in lists:       # the caller's list stays the caller's
                lst.append(None)
                del lst[:]

        def model():
            o = Obj(cls, box[0], ident, uuid)
            o.attrs.update(attrs)
            self.objs.append(o)
            self.by_real[id(o.real)] = o
            for r, v in refs.items():
                if r.many:
                    self.m_assign(o, r, v)
                else:
                    self.m_link(o, r, v)
            box.append(o)
        self.step(text, real, model)
        return box[1]

    def set_one(self, o, r, v):
        def model():
            if v is None:
                if o.one[r.name] is not None:
                    self.m_unlink(o, r, o.one[r.name])
            else:
                self.m_link(o, r, v)
        self.step('%r.%s = %r' % (o, r.name, v),
                  lambda: self.set(o.real, r.name, None if v is None else v.real), model)

    def set_many(self, o, r, vs, kind=list):
        lst = kind(v.real for v in vs)

        def real():
            self.set(o.real, r.name, lst)
            if kind is list and r.inv is not None:
                lst.append(None)
                del lst[:]
        self.step('%r.%s = %r' % (o, r.name, vs), real, lambda: self.m_assign(o, r, vs))

    def take_many(self, o, r, p):
        """The list that another object (or the object itself) shows is assigned."""
        vs = [self.by_real[id(x)] for x in getattr(p.real, r.name)]     # as checked, in the order shown
        self.step('%r.%s = %r.%s' % (o, r.name, p, r.name),
                  lambda: self.set(o.real, r.name, self.get(p.real, r.name)), lambda: self.m_assign(o, r, vs))
        self.ctx.count('lists_taken_over')

    def add(self, o, r, vs):
        def model():
            for v in vs:
                self.m_link(o, r, v)
        self.step('%r.add%s%r' % (o, r.name, tuple(vs)),
                  lambda: adder(o.real, r.name)(*[v.real for v in vs]), model)

    def remove(self, o, r, vs):
        def model():
            for v in vs:
                self.m_unlink(o, r, v)
        self.step('%r.remove%s%r' % (o, r.name, tuple(vs)),
                  lambda: adder(o.real, r.name, 'remove')(*[v.real for v in vs]), model)

    def set_attr(self, o, a, v):
        def model():
            o.attrs[a.name] = v
        self.step('%r.%s = %r' % (o, a.name, v), lambda: setattr(o.real, a.name, v), model)

    # -- the monitor --------------------------------------------------------
    def name(self, real):
        o = self.by_real.get(id(real))
        return repr(o) if o is not None else repr(real)[:80]

    def fail(self, o, what, want, got):
        raise Violation('after %s: %r.%s should be %r but is %r' % (
            self.log[-1] if self.log else 'start', o, what, want, got),
            association=what, history=self.log[-25:])

    def check(self):
        n = 0
        for o in self.objs:
            real = o.real
            kinds = self.kinds
            ref = o.cls.by_ref
            get = self.get
            for name, want in o.one.items():
                if kinds and ref[name].kind not in kinds:
                    continue
                got = get(real, name, self)
                n += 1
                if got is not (want.real if want is not None else None):
                    self.fail(o, name, want, self.name(got) if got is not self else 'missing')
            for name, want in o.many.items():
                if kinds and ref[name].kind not in kinds:
                    continue
                got = get(real, name, self)
                n += 1
                if got is self:
                    self.fail(o, name, want, 'missing')
                if len(got) == len(want):
                    if not want:
                        continue
                    if name in o.loose:
                        if sorted(map(id, got)) == sorted(id(w.real) for w in want):
                            continue
                    elif all(g is w.real for g, w in zip(got, want)):
                        continue
                self.fail(o, name, want, [self.name(g) for g in got])
            if self.check_attrs:
                for name, want in o.attrs.items():
                    got = getattr(real, name, self)
                    n += 1
                    if got is not want and (got != want or type(got) is not type(want)):
                        self.fail(o, name, want, got if got is not self else 'missing')
                if real.UUID != o.uuid:
                    self.fail(o, 'UUID', o.uuid, real.UUID)
        self.ctx.count('comparisons', n)

    def state(self):
        return tuple((i, k, v.id if v is not None else 0) for i, o in enumerate(self.objs) for k, v in o.one.items() if v is not None) + \
            tuple((i, k, tuple(x.id for x in v)) for i, o in enumerate(self.objs) for k, v in o.many.items() if v)
