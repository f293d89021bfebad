"""A line segment has at most one impedance model, seen alike from all sides."""
import itertools
from .. import spec
from ..core import Violation
from ..world import derived, getter, setter


def classes():
    from CIM15.IEC61970 import Wires
    return Wires.ACLineSegment, Wires.PerLengthSequenceImpedance, Wires.PerLengthPhaseImpedance


class Monitor(object):
    def __init__(self, ctx, segs, imps):
        self.ctx, self.segs, self.imps = ctx, segs, imps
        self.cur = {}       # id(segment) -> impedance
        self.log = []
        self.get = getattr

    def fail(self, what):
        raise Violation('after %s: %s' % (self.log[-1] if self.log else 'start', what), history=self.log[-25:])

    def check(self):
        S, Q, P = classes()
        for i, s in enumerate(self.segs):
            want = self.cur.get(id(s))
            for name, exp in (('PerLengthImpedance', want), ('SequenceImpedance', want if isinstance(want, Q) else None),
                              ('PhaseImpedance', want if isinstance(want, P) else None)):
                if self.get(s, name) is not exp:
                    self.fail('%s of segment %d is %r, not %r' % (name, i, self.n(self.get(s, name)), self.n(exp)))
                self.ctx.count('comparisons')
        for z in self.imps:
            got = self.get(z, 'LineSegments')
            exp = [s for s in self.segs if self.cur.get(id(s)) is z]
            if sorted(map(id, got)) != sorted(map(id, exp)):
                self.fail('segments of %s are %r, not %r' % (self.n(z), [self.n(x) for x in got], [self.n(x) for x in exp]))
            self.ctx.count('comparisons')

    def n(self, o):
        return None if o is None else getattr(o, 'UUID', o)


def history(ctx, rng, steps):
    S, Q, P = classes()
    own = lambda k: derived(k, rng.randrange(7)) if rng.random() < 0.15 else k       # classes of the caller's, based on these
    m = Monitor(ctx, [own(S)(UUID='s%d' % i) for i in range(3)],
                [own(Q)(UUID='q%d' % i) for i in range(2)] + [own(P)(UUID='p%d' % i) for i in range(2)])
    m.get = getter if rng.random() < 0.2 else getattr
    put = setter if rng.random() < 0.2 else setattr
    m.check()
    kinds = set()
    for _ in range(steps):
        k = rng.random()
        s, z = rng.choice(m.segs), rng.choice(m.imps)
        own = 'SequenceImpedance' if isinstance(z, Q) else 'PhaseImpedance' if isinstance(z, P) else 'PerLengthImpedance'
        if k < 0.2:
            m.log.append('%s.%s = %s' % (s.UUID, own, z.UUID))
            put(s, own, z)
            m.cur[id(s)] = z
        elif k < 0.35:
            m.log.append('%s.PerLengthImpedance = %s' % (s.UUID, z.UUID))
            put(s, 'PerLengthImpedance', z)
            m.cur[id(s)] = z
        elif k < 0.5:
            c = m.cur.get(id(s))
            mine = 'SequenceImpedance' if isinstance(c, Q) else 'PhaseImpedance' if isinstance(c, P) else 'PerLengthImpedance'
            name = rng.choice(['PerLengthImpedance', mine, 'SequenceImpedance', 'PhaseImpedance'])
            m.log.append('%s.%s = None' % (s.UUID, name))
            put(s, name, None)
            if c is not None and name not in (mine, 'PerLengthImpedance') and s.PerLengthImpedance is c:
                # clearing an alternative that is not the one in use may leave
                # that one alone, as long as all views agree
                ctx.count('other_alternative_left')
            else:
                m.cur.pop(id(s), None)
            if name not in (mine, 'PerLengthImpedance'):
                ctx.count('other_alternative_cleared')
        elif k < 0.65:
            vs = rng.sample(m.segs, rng.randint(1, 2))
            m.log.append('%s.addLineSegments%r' % (z.UUID, tuple(v.UUID for v in vs)))
            z.addLineSegments(*vs)
            for v in vs:
                m.cur[id(v)] = z
        elif k < 0.75:
            have = [x for x in m.segs if m.cur.get(id(x)) is z]
            if not have:
                continue
            v = rng.choice(have)
            m.log.append('%s.removeLineSegments(%s)' % (z.UUID, v.UUID))
            z.removeLineSegments(v)
            m.cur.pop(id(v), None)
        elif k < 0.85:
            vs = rng.sample(m.segs, rng.randint(0, 3))
            m.log.append('%s.LineSegments = %r' % (z.UUID, [v.UUID for v in vs]))
            z.LineSegments = [v for v in vs]
            for x in m.segs:
                if m.cur.get(id(x)) is z:
                    m.cur.pop(id(x))
            for v in vs:
                m.cur[id(v)] = z
        else:
            # construct with any combination of the three alternatives
            kw = {}
            if rng.random() < 0.5:
                kw['SequenceImpedance'] = rng.choice([x for x in m.imps if isinstance(x, Q)])
            if rng.random() < 0.5:
                kw['PhaseImpedance'] = rng.choice([x for x in m.imps if isinstance(x, P)])
            if rng.random() < 0.5:
                kw['PerLengthImpedance'] = rng.choice(m.imps)
            m.log.append('ACLineSegment(%s)' % ', '.join('%s=%s' % (a, b.UUID) for a, b in sorted(kw.items())))
            ctx.seen('constructor_combinations', tuple(sorted(kw)))
            try:
                n = S(UUID='s%d' % len(m.log), **kw)
            except ValueError:
                if len(kw) < 2:
                    m.fail('a single impedance model is refused')
                ctx.count('refused_combinations')
            else:
                if len(kw) > 1:
                    m.fail('more than one impedance model is accepted')
                i = rng.randrange(len(m.segs))
                old = m.segs[i]
                old.PerLengthImpedance = None
                m.cur.pop(id(old), None)
                m.segs[i] = n
                if kw:
                    m.cur[id(n)] = list(kw.values())[0]
        m.check()
        ctx.count('operations')
        kinds.add(tuple((x.UUID, m.n(m.cur.get(id(x)))) for x in m.segs))
    ctx.count('evaluations')
    ctx.seen('nontrivial', tuple(m.log))
    for x in kinds:
        ctx.seen('states', x)
    ctx.sample({'history': m.log[:15]})


def run(ctx):
    ctx.rule = ('one case = a seeded history over 3 segments, 2 sequence and 2 phase impedances through every public '
                'way of setting the relation (all alternatives, both sides, constructor with every combination), '
                'checked after each operation against one map segment -> impedance; non-trivial = history executed; '
                'distinct = by history')
    n = ctx.size(12000, 60000)

    def one(sub, i):
        sub.case('history %d' % i, history, sub, sub.rng(i), 40)
    ctx.pmap(one, range(n))
    ctx.need('refused_combinations', 10)
    ctx.need('operations', n * 20)
    ctx.need('constructor_combinations', 8)
    ctx.need('other_alternative_cleared', n // 2)
