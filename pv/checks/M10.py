"""Whoever holds one object holds all that it is linked with."""
import gc
import io
from .. import spec
from ..core import Violation
from ..docs import Content, Style, excerpt, reader_args, realize, render, same
from ..gen import population, random_op
from ..world import World, pyclass, usable
from .M01 import ends
from .M04 import connect, saturated
from .M09 import settle


def walk(ctx, start, real, history=()):
    """Follows every link from the one object held, next to the reference model."""
    at = {start.id: real}
    todo = [start]
    n = 0
    while todo:
        o = todo.pop()
        real = at[o.id]

        def fail(name, want, got):
            raise Violation('held by %r alone, %r.%s should be %r but is %s' % (start, o, name, want, got), history=list(history)[-25:])

        def meet(name, want, got):
            if type(got) is not pyclass(want.cls):
                fail(name, want, repr(got)[:80])
            if got.UUID != want.id:
                fail(name, want, 'one with the identifier %r' % (got.UUID,))
            if want.id not in at:
                at[want.id] = got
                todo.append(want)
            elif at[want.id] is not got:
                fail(name, want, 'another object like it')
        for k, want in o.attrs.items():
            got = getattr(real, k, ctx)
            n += 1
            if not same(got, want):
                fail(k, want, repr(got)[:80])
        for k, want in o.one.items():
            got = getattr(real, k, ctx)
            n += 1
            if want is None:
                if got is not None:
                    fail(k, None, repr(got)[:80])
            else:
                meet(k, want, got)
        for k, want in o.many.items():
            got = list(getattr(real, k))
            n += 1
            by = {getattr(g, 'UUID', None): g for g in got}
            if len(got) != len(want) or set(by) != set(x.id for x in want):
                fail(k, want, '%d: %s' % (len(got), sorted(map(repr, by))[:6]))
            for x in want:
                meet(k, x, by[x.id])
    ctx.count('comparisons', n)
    ctx.count('objects_found', len(at))
    return len(at)


def keep_one(ctx, w, o):
    """All of the population is dropped but one object."""
    real, log = o.real, w.log
    objs = len(w.objs)
    for x in w.objs:
        x.real = None
    w.by_real.clear()
    del w.objs[:]
    gc.collect()
    found = walk(ctx, o, real, log)
    ctx.count('evaluations')
    ctx.count('objects_dropped', objs - 1)
    if found > 1:
        ctx.count('held_others')
        ctx.seen('nontrivial', tuple(log))


def storm(ctx, root, rng, start, steps):
    w = population(ctx, root, rng, rng.randint(4, 9), start)
    for k in range(steps):
        random_op(w, rng)
    linked = [o for o in w.objs if any(o.one.values()) or any(o.many.values())]
    keep_one(ctx, w, rng.choice(linked or w.objs))


def full(ctx, root, rng, cls, other):
    w = saturated(ctx, root, cls, rng, uuid=None)
    keep_one(ctx, w, rng.choice(w.objs) if other else w.objs[0])


def star(ctx, root, r, rng):
    """Some objects linked by one association, of which one alone is held."""
    q = r.inv
    if q is not None:
        A, B = ends(rng, root, r)
    else:
        A = [c for c in r.cls.subs if c.element and usable(c, r)]
        B = [c for c in root.targets(r) if c.element]
    if not A or not B:
        return
    k = 0
    for n in ((1, 2, 3, 4) if r.many else (1,)):
        for k in range(n + 1):
            w = World(root, ctx, rng, uuid=None)
            o = w.new(r.cls if r.cls in A and rng.random() < 0.5 else rng.choice(A))
            vs = [w.new(rng.choice(B)) for _ in range(n)]
            for v in vs:
                if q is None and r.many:
                    w.add(o, r, [v])
                else:
                    connect(w, rng, o, r, v)
            keep_one(ctx, w, ([o] + vs)[k])
            ctx.seen('associations', r.key)
    if r.many:      # all at once, by a list or in the constructor
        for k in range(6):
            w = World(root, ctx, rng, uuid=None)
            vs = [w.new(rng.choice(B)) for _ in range(3)]
            c = rng.choice(A)
            if k < 2 and r.name not in c.shadow:
                o = w.new(c, refs={r: vs})
            else:
                o = w.new(c)
                if k < 4:
                    w.set_many(o, r, vs)
                else:
                    w.add(o, r, vs)
            keep_one(ctx, w, rng.choice([o] + vs))


def built_or_read(ctx, root, i):
    from PyCIM import cimread
    rng = ctx.rng('docs', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([2, 5, 12, 40]))
    if rng.random() < 0.3:
        how, d = 'built', realize(c)
    else:
        data = render(c.nodes, root.ns, Style(rng))
        how, d = 'read', cimread(io.BytesIO(data), *reader_args(root))
    linked = [o for o in c.w.objs if any(o.one.values()) or any(o.many.values())]
    o = rng.choice(linked or c.w.objs)
    real = d[o.id]
    if rng.random() < 0.5:
        d.clear()
    del d
    gc.collect()
    found = walk(ctx, o, real, [how])
    ctx.count('evaluations')
    ctx.count(how)
    if found > 1:
        ctx.count('held_others')
        ctx.seen('nontrivial', (root.name, i))


def run(ctx):
    ctx.rule = ('one case = a population after a seeded history, an object with every partner there is, some objects linked by each published association, or a model built or read, of which everything is dropped but one object; '
                'after a collection everything linked with it, directly or through others, is looked up and compared with the reference model; '
                'non-trivial = others were held; distinct = by history')
    roots = spec.load()

    def go(sub, it):
        settle()
        kind, name, cname, i = it
        rng = sub.rng(*it)
        root = roots[name]
        if kind == 'storm':
            sub.case('storm %s.%s/%d' % it[1:], storm, sub, root, rng, root.C[cname], sub.size(20, 60))
        elif kind == 'full':
            sub.case('full %s.%s/%d' % it[1:], full, sub, root, rng, root.C[cname], i % 2)
        else:
            sub.case('%s/%d' % (name, i), built_or_read, sub, root, i)
    items = [(kind, r.name, c.name, i) for kind, n in (('storm', ctx.size(3, 20)), ('full', ctx.size(2, 6)))
             for r in roots.values() for c in r.elements if c.name != 'Element' for i in range(n)]
    items += [('docs', r.name, '', i) for r in roots.values() for i in range((200 if '.' not in r.name else 40) * ctx.size(1, 8))]
    ctx.pmap(go, items)

    def two(sub, it):
        settle()
        r = next(x for x in roots[it[0]].C[it[1]].refs if x.name == it[2])
        sub.case('star %s.%s.%s/%d' % it, star, sub, roots[it[0]], r, sub.rng('star', *it))
    ctx.pmap(two, [(root.name, r.cls.name, r.name, i) for root in roots.values() for c in root.C.values() for r in c.refs
                   if root.C[r.target].element and r.cls.element for i in range(ctx.size(1, 6))])
    ok = not ctx.violations
    ctx.need('associations', 1500 if ok else 0)
    ctx.need('held_others', 4000 if ok else 0)
    ctx.need('read', 300 if ok else 0)
    ctx.need('built', 100 if ok else 0)
