"""What nothing is linked to any more is let go."""
import gc
import weakref
from .. import spec
from ..core import Violation
from ..gen import population, random_op, refs_of
from ..world import World, usable, value
from .M01 import ends
from .M04 import connect, disconnect, saturated


calls = [0]


def settle():
    """What is there to stay is left out of collections, which are many."""
    calls[0] += 1
    if calls[0] % 20 == 1:
        gc.collect()
        gc.freeze()


def holders(real):
    out = []
    for h in gc.get_referrers(real):
        if h is not globals() and type(h).__name__ != 'frame':
            out.append('%s %s' % (type(h).__name__, repr(h)[:100]))
    return out[:5]


def detach(w, rng, o):
    """Takes away every link that o has or that leads to it, by public operations."""
    for _ in range(2000):
        rs = [r for r in refs_of(o) if (o.many[r.name] if r.many else o.one[r.name])]
        back = [(p, r) for p in w.objs for r in refs_of(p) if r.inv is None and
                (o in p.many[r.name] if r.many else p.one[r.name] is o)]
        if not rs and not back:
            return True
        if rs and (not back or rng.random() < 0.7):
            disconnect(w, rng, o, rng.choice(rs))
        else:
            p, r = rng.choice(back)
            if r.many:
                w.remove(p, r, [o])
            else:
                w.set_one(p, r, None)
    return False


def let_go(ctx, w, o, why):
    ref = weakref.ref(o.real)
    linked = sum(1 for v in o.one.values() if v is not None) + sum(map(len, o.many.values()))
    w.objs.remove(o)
    del w.by_real[id(o.real)]
    o.real = None
    gc.collect()
    ctx.count('objects_dropped')
    if ref() is not None:
        raise Violation('%r is kept alive although %s: by %r' % (o, why, holders(ref())), history=w.log[-25:])
    assert not linked


def storm(ctx, root, rng, start, steps):
    w = population(ctx, root, rng, rng.randint(4, 9), start, alike=True)
    n = 0
    for k in range(steps):
        n += bool(random_op(w, rng))
        if len(w.objs) > 3 and rng.random() < 0.12:
            o = rng.choice(w.objs)
            had = sum(1 for v in o.one.values() if v is not None) + sum(map(len, o.many.values()))
            if detach(w, rng, o):
                let_go(ctx, w, o, 'its %d links were taken away' % had)
                w.check()       # and nobody misses it
                if had:
                    ctx.seen('nontrivial', tuple(w.log))
                    ctx.count('formerly_linked', 1)
    box = [w]
    del w
    o = None
    dissolve(ctx, box)


def free_now(ctx, ref, name, log, what):
    if ref() is not None:
        gc.collect()
    ctx.count('objects_dropped')
    if ref() is not None:
        raise Violation('%s is kept alive although %s: by %r' % (name, what, holders(ref())), history=log[-25:])


def parted(ctx, root, r, rng):
    """Two objects are linked, by each of the ways there are, the link is taken
    away or replaced by another, and one of the two dropped."""
    q = r.inv
    if q is not None:
        A, B = ends(rng, root, r)
    else:
        A = [c for c in r.cls.subs if c.element and usable(c, r)]
        B = [c for c in root.targets(r) if c.element]
    if not A or not B:
        return
    for drop in (0, 1):
        for how in ('cleared', 'cleared', 'cleared', 'cleared', 'replaced', 'moved'):
            w = World(root, ctx, rng, uuid=rng.choice([None, '']))
            # what is dropped is o or v; o2 and v2 are there for replacements
            o, o2 = [w.new(r.cls if r.cls in A and rng.random() < 0.5 else rng.choice(A)) for _ in range(2)]
            v, v2 = [w.new(rng.choice(B)) for _ in range(2)]
            if q is None and r.many:
                w.add(o, r, [v])
                w.remove(o, r, [v])
                linked = False
            else:
                if r.many and rng.random() < 0.5:
                    connect(w, rng, o, r, v2)
                if q is not None and q.many and rng.random() < 0.5:
                    connect(w, rng, o2, r, v)
                connect(w, rng, o, r, v)
                if how == 'replaced' and not r.many:
                    w.set_one(o, r, v2)
                elif how == 'moved' and q is not None and not q.many:
                    connect(w, rng, o2, r, v)
                x = v if drop else o
                for _ in range(40):
                    if not detached(w, x):
                        detach(w, rng, x)
            x = v if drop else o
            if not detached(w, x):
                continue
            name, ref = repr(x), weakref.ref(x.real)
            w.objs.remove(x)
            del w.by_real[id(x.real)]
            x.real = None
            free_now(ctx, ref, name, w.log, 'its link with the other was taken away')
            w.check()
            ctx.count('evaluations')
            ctx.count('formerly_linked')
            ctx.seen('nontrivial', (r.key, tuple(w.log)))
            ctx.seen('associations', r.key)


def detached(w, o):
    return not any(o.one.values()) and not any(o.many.values()) and \
        not any(p.one.get(r.name) is o or o in p.many.get(r.name, ()) for p in w.objs for r in p.cls.all_refs)


def full(ctx, root, rng, cls):
    """Objects that have had every attribute and every partner there is."""
    w = World(root, ctx, rng)
    for i in range(2):      # by themselves: constructed with values, then given others
        w.new(cls, {a.name: value(rng, cls.by_attr[a.name]) for a in cls.all_attrs})
    for n in sorted({a.name for a in cls.all_attrs}):
        w.set_attr(w.objs[0], cls.by_attr[n], value(rng, cls.by_attr[n]))
    box = [w]
    del w
    dissolve(ctx, box)
    box = [saturated(ctx, root, cls, rng)]
    dissolve(ctx, box)
    ctx.count('full_objects')


def dissolve(ctx, box):
    """The whole population goes, in one piece."""
    w = box.pop()
    refs = [(repr(o), weakref.ref(o.real)) for o in w.objs]
    links = sum(1 for o in w.objs for v in list(o.one.values()) + [x for vs in o.many.values() for x in vs] if v is not None)
    log = w.log
    del w
    gc.collect()
    left = [(k, r) for k, r in refs if r() is not None]
    ctx.count('objects_dropped', len(refs))
    ctx.count('populations')
    ctx.count('evaluations')
    if links:
        ctx.count('linked_populations')
        ctx.seen('nontrivial', tuple(log))
    if left:
        raise Violation('%s stays alive although nothing refers to the population it was in: by %r' % (left[0][0], holders(left[0][1]())), history=log[-25:])


def run(ctx):
    ctx.rule = ('one case = a seeded history of public operations over a population around one class; now and then every link of one object '
                'is taken away by public operations and the object dropped, at the end the whole population; or two objects linked by each published association and parted; or an object of each class that has had every attribute and partner; observed: whether each '
                'dropped object is really freed (weak references, after a collection) and what still refers to it; non-trivial = it had links before; distinct = by history')
    roots = spec.load()
    items = [(r.name, c.name, i) for r in roots.values() for c in r.elements if c.name != 'Element' for i in range(ctx.size(2, 24))]

    def one(sub, it):
        settle()
        rng = sub.rng(*it)
        sub.case('%s.%s/%d' % it, storm, sub, roots[it[0]], rng, roots[it[0]].C[it[1]], sub.size(40, 100))
    ctx.pmap(one, items)

    def two(sub, it):
        settle()
        sub.case('full %s.%s' % it[:2], full, sub, roots[it[0]], sub.rng('full', *it), roots[it[0]].C[it[1]])
    ctx.pmap(two, [(r.name, c.name, i) for r in roots.values() for c in r.elements for i in range(ctx.size(1, 6))])

    def three(sub, it):
        settle()
        r = next(x for x in roots[it[0]].C[it[1]].refs if x.name == it[2])
        sub.case('pair %s.%s.%s/%d' % it, parted, sub, roots[it[0]], r, sub.rng('pair', *it))
    items = [(root.name, r.cls.name, r.name, i) for root in roots.values() for c in root.C.values() for r in c.refs
             if root.C[r.target].element and r.cls.element for i in range(ctx.size(1, 8))]
    ctx.pmap(three, items)
    ok = not ctx.violations
    ctx.need('associations', 1500 if ok else 0)
    ctx.need('formerly_linked', 1500 if ok else 0)
    ctx.need('full_objects', 1500 if ok else 0)
    ctx.need('linked_populations', 1000 if ok else 0)
