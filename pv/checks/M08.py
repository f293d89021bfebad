"""One-directional references and lists hold exactly what was put into them."""
from .. import spec
from ..core import Violation
from ..world import World, pyclass, usable, value


class Values(World):
    """A population in which compound values (no identifier, no references)
    are held; their attributes are watched like everything else."""

    def __init__(self, *a, **k):
        World.__init__(self, *a, **k)
        self.values = []

    def compound(self, cls):
        self.n += 1
        attrs = {a.name: value(self.rng, a, False) for a in cls.all_attrs if self.rng.random() < 0.5}
        v = Value(cls, pyclass(cls)(**attrs), 'v%d' % self.n)
        v.attrs.update(attrs)
        self.values.append(v)
        self.by_real[id(v.real)] = v
        return v

    def check(self):
        World.check(self)
        for v in self.values:
            for n, want in v.attrs.items():
                got = getattr(v.real, n, self)
                if got is not want and (got != want or type(got) is not type(want)):
                    self.fail(v, n, want, got if got is not self else 'missing')
        self.ctx.count('comparisons', sum(len(v.attrs) for v in self.values))


class Value(object):
    def __init__(self, cls, real, ident):
        self.cls, self.real, self.id = cls, real, ident
        self.attrs = {a.name: a.default for a in cls.all_attrs}

    def __repr__(self):
        return '%s#%s' % (self.cls.name, self.id)


def history(ctx, root, r, rng, steps):
    if not r.cls.element:
        return compounds(ctx, root, r, rng, steps)
    owners = [c for c in r.cls.subs if c.element and usable(c, r)]
    targets = root.targets(r)
    if not owners or not targets:
        ctx.count('not_addressable')
        return
    w = Values(root, ctx, rng, uuid=rng.choice([None, None, '', 'same']))

    def owner():
        c = r.cls if r.cls in owners and rng.random() < 0.5 else rng.choice(owners)
        return w.new(c, {x.name: value(rng, c.by_attr[x.name], False) for x in c.all_attrs if rng.random() < 0.3})
    os = [owner() for _ in range(3)]

    def target():
        c = rng.choice(targets)
        return w.new(c) if c.element else w.compound(c)
    # now and then many, in long lists
    long = r.many and rng.random() < 0.25
    vs = [target() for _ in range(60 if long else 5)]
    if long:
        w.ctx.count('long_lists')
    vs += [o for o in os if root.C[r.target] in o.cls.chain]
    changed = 0
    for _ in range(steps):
        o = rng.choice(os)
        before = w.state()
        k = rng.random()
        if k < 0.1 and len(os) < 6 and r.name not in r.cls.shadow:
            os.append(w.new(rng.choice(owners), refs={r: rng.sample(vs, rng.randint(0, 40 if long else 3)) if r.many else rng.choice(vs)}))
        elif k < 0.15:
            v = rng.choice(vs)
            if v.cls.all_attrs:
                a = v.cls.by_attr[rng.choice(v.cls.all_attrs).name]
                w.set_attr(v, a, value(rng, a, False))
        elif not r.many:
            w.set_one(o, r, rng.choice(vs + [None]))
        elif k < 0.35:
            w.set_many(o, r, rng.sample(vs, rng.randint(0, 50 if long else 4)))
        elif k < 0.7:
            free = [v for v in vs if v not in o.many[r.name]]
            w.add(o, r, rng.sample(free, min(len(free), rng.choice([1, 2, 9, 30] if long else [1, 1, 2, 3]))))
        elif o.many[r.name]:
            cur = o.many[r.name]
            w.remove(o, r, rng.sample(cur, rng.randint(1, len(cur))))
        after = w.state()
        changed += after != before
        ctx.seen('states', (r.key, after))
    ctx.count('evaluations')
    ctx.seen('references', r.key)
    if changed > 3:
        ctx.seen('nontrivial', (r.key, tuple(w.log)))
    if rng.random() < 0.01:
        ctx.sample({'reference': r.key, 'history': w.log[-12:]})


def compounds(ctx, root, r, rng, steps):
    """The same for a compound value that holds compound values."""
    k, names = pyclass(r.cls), [x.name for x in r.cls.all_refs]
    tops = [(k(), dict.fromkeys(names)) for _ in range(3)]
    parts = [[pyclass(root.C[x.target])() for _ in range(3)] + [None] for x in r.cls.all_refs]
    for _ in range(steps):
        n = rng.randrange(len(names))
        v = rng.choice(parts[n])
        if rng.random() < 0.2:
            tops.append((k(**{names[n]: v}), dict(dict.fromkeys(names), **{names[n]: v})))
        else:
            o, want = rng.choice(tops)
            setattr(o, names[n], v)
            want[names[n]] = v
        ctx.count('operations')
        for o, want in tops:
            for m in names:
                if getattr(o, m, ctx) is not want[m]:
                    raise Violation('%s.%s is not what was put into it' % (r.cls, m))
        ctx.count('comparisons', len(tops) * len(names))
    ctx.count('evaluations')
    ctx.seen('references', r.key)
    ctx.seen('nontrivial', (r.key, rng.random()))


def run(ctx):
    ctx.rule = ('one case = a seeded history of constructions, assignments, additions and removals on one published '
                'one-directional reference or list, several owners sharing targets (objects or compound values), the '
                'complete state of owners and targets compared with the reference model after each operation; non-trivial = '
                'more than 3 operations changed what is held; distinct = by reference and history')
    ctx.assumptions = ['a list given by the caller may be used as it is; nothing is added twice']
    roots = spec.load()
    items = [(root.name, c.name, r.name) for root in roots.values() for c in root.classes for r in c.refs if r.inv is None]

    def one(sub, it):
        root = roots[it[0]]
        r = next(x for x in root.C[it[1]].refs if x.name == it[2])
        for h in range(sub.size(30, 300)):
            sub.case('%s history %d' % (r.key, h), history, sub, root, r, sub.rng(r.key, h), sub.size(40, 80))
    ctx.pmap(one, items)
    ctx.notes['references_published'] = len(items)
    ctx.need('references', len(items) if not ctx.violations else 1)
    ctx.need('long_lists', 20 if not ctx.violations else 1)
    ctx.need('operations', len(items) * 100 if not ctx.violations else 1)
