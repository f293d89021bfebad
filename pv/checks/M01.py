"""1:1 and 1:n associations stay consistent under any history of operations."""
from .. import spec
from ..world import World, usable, value
from ..core import Violation

RULE = ('one case = a seeded history of public operations (construct with reference arguments, assign, '
        'list-assign, add, remove) on one published two-way association between concrete subclasses, checked '
        'after every operation against a reference model of all objects; also mixed histories over all associations of each class, and objects with every reference set at once; non-trivial = a distinct history '
        'that both linked and displaced/unlinked something; distinct = by association and reached link states')


def ends(rng, root, r):
    """Concrete classes for both ends, where the public names denote this association."""
    A = [c for c in r.cls.subs if c.element and usable(c, r)]
    B = [c for c in r.inv.cls.subs if c.element and usable(c, r.inv)]
    return A, B


def history(ctx, root, r, rng, steps, nA, nB, attrs=True):
    """Random operations on association (r, r.inv)."""
    q = r.inv
    A, B = ends(rng, root, r)
    if not A or not B:
        ctx.count('associations_not_addressable')
        return False
    # objects that nothing but their identity tells apart, half of the time
    w = World(root, ctx, rng, check_attrs=attrs, uuid=rng.choice([None, None, '', 'same']), derived=rng.choice([0, 0, 0.3]))
    same = q.cls in r.cls.chain or r.cls in q.cls.chain
    # Prefer the declaring class half of the time, any subclass otherwise.

    def pick(cs, decl):
        return decl if decl in cs and rng.random() < 0.5 else rng.choice(cs)

    def some(c):
        # attribute values make no difference
        return {x.name: value(rng, c.by_attr[x.name]) for x in c.all_attrs if rng.random() < 0.5} if rng.random() < 0.5 else {}

    def make(cs, decl):
        c = pick(cs, decl)
        return w.new(c, some(c))
    a = [make(A, r.cls) for _ in range(nA)]
    b = [make(B, q.cls) for _ in range(nB)]
    if same:
        both = [o for o in a + b if usable(o.cls, r) and usable(o.cls, q) and r.cls in o.cls.chain and q.cls in o.cls.chain]
        a += [o for o in both if o not in a]
        b += [o for o in both if o not in b]
    states = set()
    links = unlinks = 0
    for s in range(steps):
        # r or q, as seen from the object acted on
        ref, os, vs = (r, a, b) if rng.random() < 0.5 else (q, b, a)
        o = rng.choice(os)
        one_one = not ref.many and not ref.inv.many
        cand = [v for v in vs if not (one_one and v is o)]
        before = w.state()
        k = rng.random()
        if k < 0.08 and len(a) + len(b) < nA + nB + 4:
            # construct a new object with the reference given
            C = A if ref is r else B
            sh = [c for c in C if ref.name not in c.shadow]
            if not sh:
                continue
            c = pick(sh, ref.cls)
            arg = rng.sample(vs, rng.randint(0, min(3, len(vs)))) if ref.many else rng.choice(vs)
            n = w.new(c, some(c), refs={ref: arg})
            os.append(n)
        elif not ref.many:
            w.set_one(o, ref, None if rng.random() < 0.25 or not cand else rng.choice(cand))
        elif k < 0.13:
            p = rng.choice([x for x in os if x is o or x.many[ref.name]])
            if not one_one and (o not in p.many[ref.name] or not ref.inv.many or ref.inv is not ref):
                w.take_many(o, ref, p)
        elif k < 0.40:
            vs2 = rng.sample(cand, rng.randint(0, min(4, len(cand))))
            if rng.random() < 0.2:
                # based on what is there: keep some, reorder
                cur = list(o.many[ref.name])
                rng.shuffle(cur)
                vs2 = cur[:rng.randint(0, len(cur))] + [v for v in vs2 if v not in cur]
            w.set_many(o, ref, vs2, list if rng.random() < 0.8 else tuple)
        elif k < 0.75:
            w.add(o, ref, [rng.choice(cand) for _ in range(rng.choice([1, 1, 1, 2, 3]))] if cand else [])
        else:
            cur = o.many[ref.name]
            if not cur:
                cands = [x for x in os if x.many[ref.name]]
                if not cands:
                    continue
                o = rng.choice(cands)
                cur = o.many[ref.name]
            w.remove(o, ref, rng.sample(cur, rng.randint(1, len(cur))))
        after = w.state()
        if after != before:
            if len(after) < len(before) or len(str(after)) <= len(str(before)):
                unlinks += 1
            else:
                links += 1
        states.add(after)
    ctx.count('evaluations')
    for s in states:
        ctx.seen('link_states', (r.key, s))
    if links and unlinks:
        ctx.seen('nontrivial', (r.key, tuple(w.log)))
    ctx.seen('associations', r.key)
    for o in w.objs:
        ctx.seen('concrete_classes', repr(o.cls))
    if len(ctx.samples) < 2:
        ctx.sample({'association': r.key + ' <-> ' + q.key, 'history': w.log[:12], 'operations': len(w.log)})
    return True


def run_kinds(ctx, kinds, hist, steps, mix):
    from . import M04
    roots = spec.load()
    items = [(root.name, r.cls.name, r.name) for root in roots.values() for r, q in root.assocs()
             if r.kind in kinds]

    def one(sub, item):
        root = roots[item[0]]
        r = next(x for x in root.C[item[1]].refs if x.name == item[2])
        for h in range(hist):
            rng = sub.rng(r.key, h)
            nA, nB = (3, 4) if h % 2 == 0 else (2, 7)
            sub.case('association %s <-> %s, history %d' % (r.key, r.inv.key, h),
                     history, sub, root, r, rng, steps, nA, nB, h % 4 == 0)
        # one long list, far beyond what a file normally has per object
        if r.many or r.inv.many:
            sub.case('association %s, long lists' % r.key, long_list, sub, root, r if r.many else r.inv)
    ctx.pmap(one, items)

    # objects with many associations at once: the same, among everything else
    def mixed(sub, it):
        root = roots[it[0]]
        c = root.C[it[1]]
        sub.case('mixed %s.%s/%d' % it, M04.storm, sub, root, sub.rng('mixed', *it), c, 40, kinds=kinds, check_attrs=False, derived=0.1)
        sub.case('full %s.%s/%d' % it, M04.saturated, sub, root, c, sub.rng('full', *it), kinds=kinds, check_attrs=False, derived=0.1)
    ctx.pmap(mixed, [(root.name, c.name, i) for root in roots.values() for c in root.elements
                     if any(x.kind in kinds for x in c.all_refs) for i in range(mix)])
    ctx.notes['associations_published'] = len(items)
    ctx.need('associations', int(len(items) * 0.95))
    ctx.need('operations', len(items) * 10)
    ctx.need('lists_taken_over', len(items))
    ctx.need('lists_of_over_1000', 2)


def long_list(ctx, root, r):
    rng = ctx.rng(r.key, 'long')
    A, B = ends(rng, root, r)
    if not A or not B:
        return
    w = World(root, ctx, rng, check_attrs=False)
    w.check = lambda: None      # checked at the end of each phase instead
    f = 10 if rng.random() < (0.06 if ctx.quick else 0.3) else 1
    b = [w.new(rng.choice(B)) for _ in range(120 * f)]
    a = [w.new(rng.choice(A)) for _ in range(2)]
    full = lambda: World.check(w)
    w.add(a[0], r, b[:70 * f])
    full()
    w.set_many(a[1], r, b[40 * f:])
    full()
    w.remove(a[1], r, b[60 * f:110 * f])
    full()
    w.set_many(a[0], r, b[::-1])
    full()
    w.add(a[1], r, b[10 * f:])      # most of them at once, away from the other one
    full()
    if f > 1:
        ctx.count('lists_of_over_1000')
    w.set_many(a[1], r, [])
    full()
    ctx.count('long_lists')


def run(ctx):
    ctx.rule = RULE
    ctx.assumptions = ['pure in-memory model; single-threaded', 'associations whose public name is re-declared '
                       'lower in the hierarchy are exercised on the re-declaring class only']
    run_kinds(ctx, ('1:1', '1:n', 'n:1'), ctx.size(24, 80), ctx.size(30, 60), ctx.size(1, 8))
    from . import _findings
    _findings.shadowed(ctx, ("1:1", "1:n", "n:1"))
