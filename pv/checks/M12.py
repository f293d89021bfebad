"""Models that separate threads build and change do not disturb one another."""
import io
import os
import sys
import threading
import time
from .. import core, spec
from ..core import Violation
from ..docs import Content, Style, compare, reader_args, realize, render
from ..gen import population, random_op
from ..world import pyclass
from . import M01, M04
from .R08 import Quiet, cyclic, parallel, switches


class Own(Quiet):
    """What the monitors of one thread count."""
    def __init__(self):
        self.counts, self.samples, self.looking = {}, [], False

    def count(self, name, n=1):
        # between these two, the state of all objects is looked at
        if name == 'operations':
            self.looking = True
        elif name == 'comparisons':
            self.looking = False
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *a):
        pass

    def sample(self, *a):
        pass


class Turns(object):
    """Gives other threads a turn in the middle of the library's work."""
    def __init__(self, rng, trace, me, p, own):
        self.rng, self.trace, self.me, self.p, self.where, self.own = rng, trace, me, p, core.REPO + os.sep, own

    def __call__(self, frame, event, arg):
        if not self.own.looking and frame.f_code.co_filename.startswith(self.where):
            return self.line
        return None

    def line(self, frame, event, arg):
        if self.rng.random() < self.p:
            self.trace.append(self.me)
            time.sleep(self.rng.choice([0, 0, 0, 1e-5, 5e-5]))
            self.trace.append(self.me)
        return self.line


class Baton(object):
    """One thread at a time, handed on only in the middle of the library's work,
    in an order that the seed decides.  Where a thread waits for something that
    another one holds, all of them run freely from then on."""
    def __init__(self, rng, n, p):
        self.rng, self.n, self.p, self.trace, self.where = rng, n, p, [], core.REPO + os.sep
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.left, self.free = list(range(n)), False
        self.turn[0].release()

    def wait(self, me):
        if not self.free and not self.turn[me].acquire(timeout=5):
            self.free = True
            for t in self.turn:
                t.release()

    def done(self, me):
        self.left.remove(me)
        if self.left and not self.free:
            self.turn[self.rng.choice(self.left)].release()

    def of(self, me, own):
        def line(frame, event, arg):
            if self.free:
                time.sleep(0)
            elif self.rng.random() < self.p and len(self.left) > 1:
                self.trace.append((me, frame.f_lineno))
                self.turn[self.rng.choice([t for t in self.left if t != me])].release()
                self.wait(me)
            return line

        def call(frame, event, arg):
            return line if not own.looking and frame.f_code.co_filename.startswith(self.where) else None
        return call


def builder(ctx, own, root, cls, rng, steps):
    """One thread's model, changed and compared with its reference after each operation."""
    if rng.random() < 0.3:
        return lambda: M04.saturated(own, root, cls, rng, check_attrs=rng.random() < 0.5)

    def go():
        w = population(own, root, rng, rng.randint(4, 8), cls, alike=True)
        for _ in range(steps):
            random_op(w, rng)
        for o in list(w.objs)[:2]:
            w.new(o.cls)
    return go


def reader(own, root, rng, data, c):
    from PyCIM import cimread

    def go():
        for _ in range(2):
            compare(own, root, c.w.objs, cimread(io.BytesIO(data), *reader_args(root)), what='read next to it: ')
            own.count('reads')
    return go


def writer(own, model, alone):
    from PyCIM import cimwrite

    def go():
        for _ in range(3):
            out = io.StringIO()
            cimwrite(model, out)
            if out.getvalue() != alone:
                raise Violation('what is written next to threads that change other models differs', got=out.getvalue()[:800], alone=alone[:800])
            own.count('writes')
    return go


def together(ctx, jobs, owns):
    """All the jobs, each in its thread."""
    n = len(jobs)

    def body(job, turns):
        def go():
            sys.settrace(turns)
            try:
                job()
            finally:
                sys.settrace(None)
        return go
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        failed = parallel([body(*j) for j in jobs])
    finally:
        sys.setswitchinterval(old)
    for own in owns:
        for k, v in own.counts.items():
            ctx.count(k, v if k != 'evaluations' else 0)
    for t, e in failed:
        detail = dict(getattr(e, 'detail', {}))
        raise Violation('thread %d of %d: %s%s' % (t, n, '' if isinstance(e, Violation) else type(e).__name__ + ': ', str(e)[:500]), **detail)


def focused(ctx, root, r, i):
    """All the threads at one association."""
    rng = ctx.rng(r.key, i)
    n = rng.choice([2, 2, 3])
    baton = Baton(ctx.rng('turns', r.key, i), n, rng.choice([0.2, 0.5, 0.9]))
    jobs, owns = [], []

    def job(t, own):
        def go():
            baton.wait(t)
            try:
                sys.settrace(baton.of(t, own))
                M01.history(own, root, r, ctx.rng(r.key, i, t), 20, 2, 3, False)
            finally:
                sys.settrace(None)
                baton.done(t)
        return go
    for t in range(n):
        owns.append(Own())
        jobs.append((job(t, owns[-1]), None))
    together(ctx, jobs, owns)
    ctx.count('evaluations')
    if baton.free:
        ctx.count('with_threads_running_freely')
    s = switches([t for t, line in baton.trace])
    ctx.count('switches_within_operations', s)
    if s > 3 * n:
        ctx.seen('nontrivial', tuple(baton.trace))
        ctx.seen('associations', r.key)


def storm(ctx, i):
    from PyCIM import cimwrite
    rng = ctx.rng('storm', i)
    roots = spec.load()
    names = rng.choice([['CIM15'], ['CIM14'], ['CIM14', 'CIM15'], sorted(roots)])
    n = rng.choice([2, 3, 4, 6])
    # the same classes in all the threads, half of the time
    root = roots[rng.choice(names)]
    cls = rng.choice(root.elements)
    alike = rng.random() < 0.6
    same = rng.random() < 0.3       # the same operations, too
    trace, jobs, owns = [], [], []
    for t in range(n):
        own = Own()
        owns.append(own)
        r, k = (root, cls) if alike else (lambda x: (x, rng.choice(x.elements)))(roots[rng.choice(names)])
        what = rng.random()
        turns = Turns(ctx.rng('turns', i, t), trace, t, rng.choice([0.02, 0.1, 0.3]), own)
        if what < 0.75 or t < 2:
            job = builder(ctx, own, r, k, ctx.rng('build', i, 0 if same else t), rng.randint(15, 40))
        else:
            c = Content(r, ctx, ctx.rng('storm', i, t)).populate(rng.choice([5, 20]), mix_ids=False)
            if what < 0.9 or '.' in r.name or cyclic(c):
                job = reader(own, r, rng, render(c.nodes, r.ns, Style(ctx.rng('style', i, t))), c)
                turns.p /= 10
            else:
                model, out = realize(c), io.StringIO()
                cimwrite(model, out)
                job = writer(own, model, out.getvalue())
                turns.p /= 10
        jobs.append((job, turns))

    together(ctx, jobs, owns)
    ctx.count('evaluations')
    ctx.count('builders', n)
    s = switches(trace)
    ctx.count('switches_within_operations', s)
    ctx.seen('interleavings', tuple(trace))
    if s > 10 * n:
        ctx.seen('nontrivial', tuple(trace))
    if i < 2:
        ctx.sample({'threads': n, 'class': repr(cls) if alike else 'various', 'switches within operations': s, 'interleaved as': trace[:40]})


def run(ctx):
    ctx.rule = ('one case = 2-3 threads, each going through a history of operations at the same association in a population of its own, one at a time, where the turn is handed on at '
                'lines within the operations as the seed decides; or 2-6 threads with mixed populations (often of the same classes, sometimes by the same operations) while others do the same or read or write, '
                'with random pauses within the operations; each population is compared with its reference model after every operation; non-trivial = more than three switches per thread within operations (more than ten in the '
                'mixed ones); distinct = by observed interleaving, in the first kind with the lines it happened at')
    ctx.assumptions = ['each model is used by one thread at a time', 'the modules of the models have been imported before']
    roots = spec.load()

    # importing itself is not what is looked at: the modules import one another
    for root in roots.values():
        for c in root.C.values():
            pyclass(c)
    ends = [(root.name, r.cls.name, r.name) for root in roots.values() for r, q in root.assocs()]

    def one(sub, it):
        root = roots[it[0]]
        r = next(x for x in root.C[it[1]].refs if x.name == it[2])
        for i in range(sub.size(5, 40)):
            sub.case('at %s, %d' % (r.key, i), focused, sub, root, r, i)
    ctx.pmap(one, ends)
    ctx.pmap(lambda sub, i: sub.case('storm %d' % i, storm, sub, i), range(ctx.size(200, 5000)))
    if not ctx.violations:
        ctx.need('operations', 20000)
        ctx.need('switches_within_operations', 20000)
        ctx.need('nontrivial', ctx.size(3000, 20000))
        ctx.need('associations', len(ends) // 2)
        ctx.need('reads', 30)
        ctx.need('writes', 10)
