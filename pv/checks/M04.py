"""An operation changes only what it names (frame), over mixed populations."""
from .. import spec
from ..core import Violation
from ..gen import impedance_conflict, population, random_op, refs_of
from ..world import World, usable, value


def storm(ctx, root, rng, start, steps, **kw):
    w = population(ctx, root, rng, rng.randint(5, 9), start, alike=True, **kw)
    w.exact = False
    done = 0
    for _ in range(steps):
        done += bool(random_op(w, rng))
        ctx.seen('states', w.state())
    # a newcomer is not affected by anything that happened
    for o in list(w.objs)[:3]:
        w.new(o.cls)
    ctx.count('evaluations')
    if done > 5:
        ctx.seen('nontrivial', tuple(w.log))
    for o in w.objs:
        ctx.seen('classes', repr(o.cls))
    ctx.count('storms')
    if rng.random() < 0.01:
        ctx.sample({'root': root.name, 'history': w.log[:25]})


def partner(w, rng, o, r):
    """A new object that o may hold under r, with some state of its own."""
    ts = [t for t in w.root.targets(r) if t.element and (r.inv is None or (usable(t, r.inv) and not impedance_conflict(Probe(t), r.inv)))]
    if not ts:
        return None
    c = rng.choice(ts)
    return w.new(c, {a.name: value(rng, c.by_attr[a.name]) for a in c.all_attrs if rng.random() < 0.2})


class Probe(object):
    def __init__(self, cls):
        self.cls = cls


def connect(w, rng, o, r, v):
    """o -r-> v by one of the ways there are."""
    q = r.inv
    k = rng.random()
    if q is not None and k < 0.5:
        if not q.many:
            w.set_one(v, q, o)
        elif k < 0.25:
            w.add(v, q, [o])
        else:
            w.set_many(v, q, [x for x in v.many[q.name] if x is not o] + [o])
    elif not r.many:
        w.set_one(o, r, v)
    elif k < 0.75 or r.inv is None:
        w.add(o, r, [v])
    else:
        w.set_many(o, r, rng.choice([[v], o.many[r.name] + [v], [v] + o.many[r.name]]))


def disconnect(w, rng, o, r):
    q = r.inv
    k = rng.random()
    if not r.many:
        v = o.one[r.name]
        if v is None:
            return
        if q is None or k < 0.5:
            w.set_one(o, r, None)
        elif not q.many:
            w.set_one(v, q, None)
        elif k < 0.75:
            w.remove(v, q, [o])
        else:
            w.set_many(v, q, [x for x in v.many[q.name] if x is not o])
        return
    vs = o.many[r.name]
    if not vs:
        return
    v = rng.choice(vs)
    if q is None or k < 0.4:
        w.remove(o, r, [v])
    elif k < 0.6:
        w.set_many(o, r, [x for x in vs if x is not v])
    elif not q.many:
        w.set_one(v, q, None)
    elif k < 0.8:
        w.remove(v, q, [o])
    else:
        w.set_many(v, q, [x for x in v.many[q.name] if x is not o])


def saturated(ctx, root, cls, rng, **kw):
    """An object that has a value for every attribute and a partner for every
    reference; each one is changed in turn while all others are watched."""
    kw.setdefault('uuid', rng.choice([None, '', 'same']))
    w = World(root, ctx, rng, **kw)
    full = {a.name: value(rng, cls.by_attr[a.name]) for a in cls.all_attrs}
    o = w.new(cls, full)
    refs = refs_of(o)
    rng.shuffle(refs)
    for r in refs:
        v = partner(w, rng, o, r)
        if v is not None:
            connect(w, rng, o, r, v)
    held = [r for r in refs if (o.many[r.name] if r.many else o.one[r.name])]
    ctx.count('references_held_at_once', len(held))
    for r in held:
        pool = [partner(w, rng, o, r)]
        if r.many:
            pool.append(partner(w, rng, o, r))
        for v in pool:
            connect(w, rng, o, r, v)
            ctx.seen('nontrivial', (repr(cls), r.key, 'replace'))
        disconnect(w, rng, o, r)
        ctx.seen('nontrivial', (repr(cls), r.key, 'clear'))
        if not (o.many[r.name] if r.many else o.one[r.name]):
            connect(w, rng, o, r, pool[0])
        ctx.seen('ends_changed_on_full_objects', r.key)
    names = sorted(full)
    rng.shuffle(names)
    for n in names:
        a = cls.by_attr[n]
        for v in (value(rng, a), a.default):
            w.set_attr(o, a, v)
        ctx.seen('nontrivial', (repr(cls), n))
    # and a second object of the class, built with everything that is still there
    w.new(cls, full)
    ctx.count('evaluations')
    ctx.count('saturated')
    ctx.seen('classes', repr(cls))
    return w


def run(ctx):
    ctx.rule = ('one case = a seeded history of mixed operations (attribute assignment, reference assignment, '
                'add/remove, construction with arguments) over a population of associated objects of many classes, '
                'the complete observable state of all of them compared with the reference model after each '
                'operation; or one object of each class with every attribute and reference set at once, each of which is then '
                'replaced and cleared in turn from either end; non-trivial = more than 5 operations applied, or a reference '
                'of a full object changed; distinct = by history, or by class and member')
    roots = spec.load()
    items = []
    for r in roots.values():
        for c in r.elements:
            for i in range(ctx.size(6, 24)):
                items.append((r.name, c.name, i))

    def one(sub, it):
        root = roots[it[0]]
        rng = sub.rng(*it)
        sub.case('storm %s/%s/%d' % it, storm, sub, root, rng, root.C[it[1]], sub.size(60, 120), derived=0.1)
    ctx.pmap(one, items)

    def sat(sub, it):
        sub.case('full %s.%s/%d' % it, saturated, sub, roots[it[0]], roots[it[0]].C[it[1]], sub.rng('full', *it), derived=0.15)
    ctx.pmap(sat, [(r.name, c.name, i) for r in roots.values() for c in r.elements for i in range(ctx.size(6, 24))])
    ctx.need('saturated', len(items) * 4 // 5 if not ctx.violations else 0)
    ctx.need('ends_changed_on_full_objects', 2000 if not ctx.violations else 0)
    ctx.need('storms', int(len(items) * 0.9))
    ctx.need('operations', len(items) * 30)
