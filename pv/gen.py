"""Random populations and random operations on them."""
from .world import World, value, usable


def grow(rng, root, n, start=None):
    """n concrete classes that associations can connect."""
    c = start or rng.choice(root.elements)
    out = [c]
    while len(out) < n:
        src = rng.choice(out)
        refs = [r for r in src.all_refs if usable(src, r) and root.C[r.target].element]
        if refs and rng.random() < 0.85:
            r = rng.choice(refs)
            t = [x for x in root.targets(r) if x.element and x.name != 'Element']
            out.append(rng.choice(t) if t else rng.choice(root.elements))
        else:
            out.append(rng.choice(root.elements))
    return out


def candidates(w, o, r):
    """Objects that o may hold under r, by the published model."""
    q = r.inv
    if q is None:
        t = w.root.C[r.target]
        return [v for v in w.objs if t in v.cls.chain]
    out = []
    for v in w.objs:
        if q.cls in v.cls.chain and usable(v.cls, q) and not (v is o and not r.many and not q.many):
            out.append(v)
    return out


def impedance_conflict(o, r):
    """The impedance alternatives of a CIM15 line segment exclude one another
    (property M06); generic populations use at most one kind per world."""
    return r.key in ('CIM15.ACLineSegment.PhaseImpedance', 'CIM15.PerLengthPhaseImpedance.LineSegments')


def refs_of(o, uni=True):
    return [r for r in o.cls.all_refs if usable(o.cls, r) and not impedance_conflict(o, r)
            and (r.inv is not None or uni) and o.cls.root.C[r.target].element]


def random_op(w, rng, ctor=True, max_objs=16):
    """One random public operation on the population; False if none applied."""
    o = rng.choice(w.objs)
    k = rng.random()
    if k < 0.25 and o.cls.all_attrs:
        a = rng.choice(o.cls.all_attrs)
        w.set_attr(o, o.cls.by_attr[a.name], value(rng, o.cls.by_attr[a.name], w.exact))
        return True
    if k < 0.33 and ctor and len(w.objs) < max_objs:
        c = o.cls
        attrs = {a.name: value(rng, c.by_attr[a.name], w.exact) for a in c.all_attrs if rng.random() < 0.3}
        refs, used = {}, set()
        for r in c.all_refs:
            if not usable(c, r) or r.name in c.shadow or impedance_conflict(o, r) or not w.root.C[r.target].element:
                continue
            if rng.random() < 0.5:
                cand = candidates(w, o, r)
                # one use of an object per constructor call keeps the outcome
                # independent of the order in which arguments are applied
                cand = [v for v in cand if id(v) not in used]
                if not cand:
                    continue
                if r.many:
                    vs = rng.sample(cand, rng.randint(1, min(3, len(cand))))
                    refs[r] = vs
                    used.update(map(id, vs))
                else:
                    v = rng.choice(cand)
                    refs[r] = v
                    used.add(id(v))
        w.new(c, attrs, refs)
        return True
    rs = refs_of(o)
    rng.shuffle(rs)
    for r in rs:
        cand = candidates(w, o, r)
        held = o.many[r.name] if r.many else ([o.one[r.name]] if o.one[r.name] else [])
        if not cand and not held:
            continue
        if not r.many:
            w.set_one(o, r, rng.choice(cand) if cand and rng.random() < 0.8 else None)
        else:
            k = rng.random()
            if k < 0.06 and r.inv is not None:
                ps = [p for p in w.objs if p.many.get(r.name) and p.cls.by_ref[r.name] is r]
                if ps:
                    w.take_many(o, r, rng.choice(ps))
            elif k < 0.35 and cand:
                w.set_many(o, r, rng.sample(cand, rng.randint(0, min(4, len(cand)))))
            elif k < 0.75 and cand:
                # uni-directional lists are plain lists: no set semantics
                vs = [v for v in rng.sample(cand, min(2, len(cand))) if r.inv is not None or v not in held]
                w.add(o, r, vs)
            elif held:
                w.remove(o, r, rng.sample(held, rng.randint(1, len(held))))
            else:
                continue
        return True
    return False


def population(ctx, root, rng, n, start=None, alike=False, **kw):
    w = World(root, ctx, rng, uuid=rng.choice([None, None, '', 'same']) if alike else None, **kw)
    for c in grow(rng, root, n, start):
        w.new(c)
    return w
