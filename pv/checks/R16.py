"""An operation that is interrupted, wherever it may be, says so and disturbs nothing later."""
import inspect
import io
import logging
import os
import pickle
import re
import sys
import threading
from .. import spec
from ..core import REPO, Violation
from ..docs import Content, Style, compare, excerpt, reader_args, realize, render
from .R13 import document


class Stop(BaseException):
    """Not one that ordinary handlers are for, like KeyboardInterrupt."""


LEAVE = re.compile('__(del|exit|enter)__|acquire|release')


class Interrupter(object):
    """Raises at the n-th time that the library calls one of its functions or one of the caller's."""
    def __init__(self, n, exc):
        self.n, self.exc, self.count, self.where, self.on, self.thread = n, exc, 0, None, False, None

    def start(self, frame, event, arg):
        co = frame.f_code
        # Closing a generator and freeing an object end in a call that nothing can surface from.
        if event == 'call' and not co.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR) \
                and co.co_filename.startswith(REPO + os.sep) and not LEAVE.search(co.co_name):
            f = frame.f_back
            while f is not None and f.f_code.co_filename.startswith(REPO + os.sep):
                if LEAVE.search(f.f_code.co_name):
                    return None
                f = f.f_back
            self.hit('call of %s (%s:%d)' % (getattr(co, 'co_qualname', co.co_name), os.path.relpath(co.co_filename, REPO), co.co_firstlineno))
        return None

    def hit(self, where):
        if self.on and threading.get_ident() == self.thread:
            self.count += 1
            if self.count == self.n:
                self.where = where
                raise self.exc

    def run(self, fn):
        old = sys.gettrace()
        self.thread, self.on = threading.get_ident(), True
        CURRENT.append(self)
        reports = Reports()
        logging.getLogger().addHandler(reports)
        sys.settrace(self.start)
        try:
            return fn()
        finally:
            sys.settrace(old)
            logging.getLogger().removeHandler(reports)
            CURRENT.remove(self)
            self.on = False


CURRENT = []


def hit(where):
    for i in CURRENT:
        i.hit(where)


class Source(io.BytesIO):
    """Hands out a little at a time; may be interrupted at each of it."""
    step = 997

    def read(self, n=-1):
        hit('reading the source')
        return super().read(self.step if n is None or n < 0 or n > self.step else n)

    def seek(self, *a):
        hit('rewinding the source')
        return super().seek(*a)


class Dictionary(dict):
    def __setitem__(self, k, v):
        hit('filling the dictionary')
        super().__setitem__(k, v)

    def __getitem__(self, k):
        hit('looking up in the dictionary')
        return super().__getitem__(k)

    def get(self, k, *a):
        hit('looking up in the dictionary')
        return super().get(k, *a)

    def items(self):
        hit('listing the dictionary')
        return super().items()

    def values(self):
        hit('listing the dictionary')
        return super().values()


class Reports(logging.Handler):
    def emit(self, record):
        hit('report')


class Said(logging.Handler):
    """What is reported meanwhile."""
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.said = []

    def emit(self, record):
        self.said.append((record.levelname, record.getMessage()))

    def __enter__(self):
        logging.getLogger().addHandler(self)
        return self.said

    def __exit__(self, *a):
        logging.getLogger().removeHandler(self)


def elsewhere(fn, where):
    """fn() in a thread of its own, which has to come back."""
    box = []

    def go():
        try:
            box.append(('ok', fn()))
        except BaseException as e:
            box.append(('raised', e))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(60)
    if t.is_alive():
        raise Violation('after an interruption at %s another thread can not go on: it hangs' % where)
    kind, v = box[0]
    if kind == 'raised':
        if isinstance(v, Violation):
            raise v
        raise Violation('after an interruption at %s another thread fails: %s: %s' % (where, type(v).__name__, v))
    return v


class Target(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        hit('writing to the target')
        self.parts.append(s)

    def text(self):
        return ''.join(self.parts)


def points(ctx, rng, total, many):
    return rng.sample(range(1, total + 1), min(many, total))


def each(ctx, rng, total, many, one):
    """one(k) for sampled k, first in fresh processes that have not done the like before, then in this one."""
    ks = points(ctx, rng, total, many)
    for j, k in enumerate(ks):
        if j >= len(ks) // 2:
            one(k)
            continue

        def fresh():
            before = ctx.counts['interruptions']
            try:
                one(k)
            except Violation as v:
                return v.what, v.detail, 0, ()
            return None, None, ctx.counts['interruptions'] - before, ctx.sets['interrupted_at']
        what, detail, n, seen = aside(fresh)
        if what is not None:
            raise Violation(what, **detail)
        ctx.count('interruptions', n)
        ctx.count('in_fresh_processes')
        ctx.sets['interrupted_at'] |= set(seen)


def interrupted(ctx, inter, fn, what, total):
    try:
        inter.run(fn)
    except BaseException as e:
        x, chain = e, []
        while x is not None and x not in chain:
            chain.append(x)
            x = x.__cause__ or x.__context__
        if inter.where is None:
            raise
        if e is not inter.exc and not (isinstance(inter.exc, Exception) and inter.exc in chain):
            raise Violation('%s interrupted at %s by %s ends with %s: %s' % (what, inter.where, type(inter.exc).__name__, type(e).__name__, e))
        e.__traceback__ = None
        ctx.count('interruptions')
        ctx.seen('interrupted_at', inter.where)
        return True
    if inter.where is not None:
        raise Violation('%s interrupted at %s by %s goes on as if nothing had happened' % (what, inter.where, type(inter.exc).__name__))
    return False


def count(fn):
    c = Interrupter(-1, None)
    c.run(fn)
    return c.count


def aside(fn):
    """What fn() gives, found out in a process of its own so that nothing here has been used by it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            code = 0
        except BaseException as e:
            sys.stderr.write('aside: %r\n' % (e,))
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    if os.waitpid(pid, 0)[1] != 0:
        raise Violation('an operation fails even without interruption')
    return pickle.loads(data)


EXC = [lambda: Stop('stop'), lambda: KeyboardInterrupt(), lambda: MemoryError('no memory'), lambda: SystemExit(1)]


def reading(ctx, root, i):
    from PyCIM import cimread
    rng = ctx.rng('read', root.name, i)
    c, data = document(ctx, root, rng, u'r%d' % i, rng.random() < 0.4)
    args = reader_args(root, rng.random() < 0.3)
    path = os.path.join(ctx.tmp(), 'doc.xml')
    with open(path, 'wb') as f:
        f.write(data)
    by_path = rng.random() < 0.3
    go = lambda s, **kw: cimread(s, *args, **kw)
    Source.step = rng.choice([300, 997, 5000])

    def undisturbed():
        with Said() as said:
            n = count(lambda: go(path if by_path else Source(data), start_dict=Dictionary()))
        return n, said
    total, usual = aside(undisturbed)
    ctx.count('reports', len(usual))
    other = Content(root, ctx, rng).populate(3, fmt='_other%d')
    odata = render(other.nodes, root.ns, Style(rng))
    def one(k):
        inter = Interrupter(k, rng.choice(EXC)())
        src = path if by_path else Source(data)
        mine = Dictionary()
        if rng.random() < 0.3:
            cimread(io.BytesIO(odata), *reader_args(root), start_dict=mine)
        have = dict(mine)
        interrupted(ctx, inter, lambda: go(src, start_dict=mine), 'reading', total)
        if not by_path and src.closed:
            raise Violation('an interruption at %s closes the stream of the caller' % inter.where)
        for name, o in have.items():
            if mine.get(name) is not o:
                raise Violation('an interruption at %s replaces an object of the caller' % inter.where)
        if have:    # the document says nothing about these
            compare(ctx, root, other.w.objs, have, what='after an interruption at %s: ' % inter.where)
        if not by_path:
            src.seek(0)

        def again():
            with Said() as said:
                d = go(src)
            compare(ctx, root, c.w.objs, d, what='after an interruption at %s: ' % inter.where)
            if sorted(said) != sorted(usual):
                raise Violation('after an interruption at %s other things are reported: not %r, but %r' % (
                    inter.where, [x for x in usual if x not in said][:3], [x for x in said if x not in usual][:3]))
        try:
            elsewhere(again, inter.where) if rng.random() < 0.4 else again()
        except Violation as v:
            v.detail.setdefault('document', excerpt(data, 2000))
            raise
    each(ctx, rng, total, ctx.size(40, 200), one)
    ctx.count('evaluations')
    ctx.seen('nontrivial', data)


def writing(ctx, root, i):
    from PyCIM import cimwrite, cimread
    rng = ctx.rng('write', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([2, 5]))
    d = Dictionary(realize(c))

    def whole():
        t = Target()
        return count(lambda: cimwrite(d, t)), t.text()
    total, ok = aside(whole)
    def one(k):
        inter = Interrupter(k, rng.choice(EXC)())
        t = Target()
        interrupted(ctx, inter, lambda: cimwrite(d, t), 'writing', total)
        compare(ctx, root, c.w.objs, d, what='after an interruption at %s: ' % inter.where)
        if not ok.startswith(t.text()):
            raise Violation('writing interrupted at %s has written something else' % inter.where, got=t.text()[-300:])

        def again():
            t = Target()
            if cimwrite(d, t) is not True or t.text() != ok:
                raise Violation('after an interruption at %s the model is written differently' % inter.where)
        elsewhere(again, inter.where) if rng.random() < 0.4 else again()
    each(ctx, rng, total, ctx.size(40, 200), one)
    ctx.count('evaluations')
    ctx.seen('nontrivial', ok)


def pretty(ctx, root, i):
    from PyCIM.PrettyPrintXML import xmlpp
    rng = ctx.rng('pretty', root.name, i)
    c, data = document(ctx, root, rng, u'p%d' % i, rng.random() < 0.5)
    Source.step = rng.choice([300, 997, 5000])
    total, want = aside(lambda: (count(lambda: xmlpp(Source(data))), xmlpp(io.BytesIO(data))))
    def one(k):
        inter = Interrupter(k, rng.choice(EXC)())
        src = Source(data)
        interrupted(ctx, inter, lambda: xmlpp(src), 'pretty-printing', total)
        if src.closed:
            raise Violation('an interruption at %s closes the stream of the caller' % inter.where)
        src.seek(0)
        if xmlpp(src) != want:
            raise Violation('after an interruption at %s a document is pretty-printed differently' % inter.where)
    each(ctx, rng, total, ctx.size(15, 80), one)
    ctx.count('evaluations')
    ctx.seen('nontrivial', data)


def run(ctx):
    ctx.rule = ('one case = one seeded document read (by stream or path, also into a dictionary of the caller), model written or document pretty-printed, interrupted by an asynchronous exception '
                '(an interrupt, an exit, memory exhausted) at sampled ones of all calls of functions of the library and of functions of the caller (source, target, dictionary, log handler); observed: the exception that surfaces, the caller\'s stream, '
                'dictionary and objects, what has been written, and the same operation done again, also in another thread, half of the time in a process that has not done it before, compared with the published model or the uninterrupted result, reports included; non-trivial = interrupted; distinct = by input')
    ctx.assumptions = ['an interruption arrives where a function is entered; ones between other instructions leave the library in one of the states seen there', 'all modules have been imported before']
    roots = spec.load()
    from ..world import pyclass
    for r in roots.values():
        for c in r.classes:
            pyclass(c)
    items = []
    for r in roots.values():
        full = '.' not in r.name
        items += [(fn, r.name, i) for fn, n, m in ((reading, 60, 4), (writing, 48, 2), (pretty, 24, 2)) for i in range((n if full else m) * ctx.size(1, 6))]
    ctx.pmap(lambda sub, it: sub.case('%s %s %d' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2]), items)
    ok = not ctx.violations
    ctx.need('interruptions', 4000 if ok else 0)
    ctx.need('interrupted_at', 100 if ok else 0)
    ctx.need('reports', 100 if ok else 0)
