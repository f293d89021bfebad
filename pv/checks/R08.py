"""Reads and writes in concurrent threads do not disturb one another."""
import io
import logging
import sys
import threading
import time
from .. import forked, spec
from ..core import Violation
from ..docs import Content, Node, Style, render, compare, reader_args, excerpt, realize


class Noisy(object):
    """A stream that gives other threads a turn at every read."""
    def __init__(self, data, rng, trace, me):
        self.b, self.rng, self.trace, self.me = io.BytesIO(data), rng, trace, me

    def read(self, n=-1):
        self.trace.append(self.me)
        if self.rng.random() < 0.5:
            time.sleep(self.rng.choice([0, 0, 1e-5, 1e-4]))
        return self.b.read(min(n, self.rng.choice([64, 300, 2000])) if n and n > 0 else n)

    def seek(self, *a):
        return self.b.seek(*a)


def parallel(jobs):
    """Runs the jobs, each in a thread of its own; returns the first failure."""
    failed = []
    gate = threading.Barrier(len(jobs))

    def body(i, f):
        try:
            gate.wait()
            f()
        except BaseException as e:
            failed.append((i, e))
    ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
        if t.is_alive():
            raise Violation('a thread is still blocked after 120 s')
    return failed


def switches(trace):
    return sum(1 for a, b in zip(trace, trace[1:]) if a != b)


class Reports(logging.Handler):
    """Warnings and errors, by the thread that they were issued in."""
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.own = threading.local()

    def emit(self, r):
        if getattr(self.own, 'texts', None) is not None:
            self.own.texts.append(r.getMessage())

    def start(self):
        self.own.texts = []

    def stop(self):
        texts, self.own.texts = self.own.texts, None
        return sorted(texts)


def unknown(rng, c, t):
    """Things the model does not know, some of them the same in every document."""
    for n in c.nodes:
        for k in range(rng.randint(0, 3)):
            what = rng.choice([u'none', u'vendor%d' % rng.randint(0, 20), u'own%d_%d' % (t, rng.randint(0, 20))])
            n.stmts.insert(rng.randint(0, len(n.stmts)), rng.choice([('text', u'X.' + what, u'1'), ('ref', u'X.' + what, u'#' + c.nodes[0].id)]))
    for k in range(rng.randint(0, 4)):
        x = Node(u'NoSuch%d' % rng.randint(0, 3), u'_nosuch%d' % k)
        c.nodes.insert(rng.randint(0, len(c.nodes)), x)


def storm(ctx, i):
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    rng = ctx.rng('storm', i)
    roots = spec.load()
    names = rng.choice([['CIM14', 'CIM15'], ['CIM15'], ['CIM14'], sorted(roots)])
    n = rng.choice([2, 4, 8])
    trace, work = [], []
    same = rng.random() < 0.3
    for t in range(n):
        if same and work:
            work.append(work[0])
            continue
        root = roots[rng.choice(names)]
        c = Content(root, ctx, ctx.rng('storm', i, t)).populate(rng.choice([5, 20, 50]), mix_ids=False)
        if rng.random() < 0.6:
            unknown(ctx.rng('unknown', i, t), c, t)
        work.append((root, c, render(c.nodes, root.ns, Style(ctx.rng('style', i, t)))))
    outs = {}
    log = Reports()

    def job(t):
        root, c, data = work[t]

        def go():
            for k in range(3):
                log.start()
                d = cimread(Noisy(data, ctx.rng('noise', i, t, k), trace, t), *reader_args(root))
                told.setdefault(t, []).append(log.stop())
                quiet = Quiet()
                compare(quiet, root, c.w.objs, d, what='thread %d of %d: ' % (t, n))
                if '.' not in root.name and not cyclic(c):
                    out = io.StringIO()
                    cimwrite(d, out)
                    outs.setdefault(t, []).append(out.getvalue())
                    trace.append(t)
                if k == 1:
                    pretty.setdefault(t, []).append(xmlpp(Noisy(data, ctx.rng('noise', i, t, 'p'), trace, t)))
        return go
    told, pretty = {}, {}
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    logging.getLogger().addHandler(log)
    try:
        failed = parallel([job(t) for t in range(n)])
    finally:
        sys.setswitchinterval(old)
        logging.getLogger().removeHandler(log)
    for t, e in failed:
        root, c, data = work[t]
        # the same document, alone
        compare(ctx, root, c.w.objs, cimread(io.BytesIO(data), *reader_args(root)), what='alone: ')
        raise Violation('with %d concurrent threads: %s: %s' % (n, type(e).__name__, str(e)[:400]), document=excerpt(data))
    for t, texts in outs.items():
        root, c, data = work[t]
        alone = io.StringIO()
        cimwrite(cimread(io.BytesIO(data), *reader_args(root)), alone)
        for x in texts:
            if x != alone.getvalue():
                raise Violation('concurrent output differs from the output alone', got=x[:800], alone=alone.getvalue()[:800])
            ctx.count('concurrent_writes')
    for t, texts in pretty.items():
        for x in texts:
            if x != xmlpp(io.BytesIO(work[t][2])):
                raise Violation('concurrent pretty-printing differs from that alone', got=x[:800], document=excerpt(work[t][2]))
            ctx.count('concurrent_pretty_prints')
    # what each thread was told about its document
    logging.getLogger().addHandler(log)
    try:
        for t in range(n):
            root, c, data = work[t]
            log.start()
            cimread(io.BytesIO(data), *reader_args(root))
            alone = log.stop()
            for got in told.get(t, []):
                if got != alone:
                    raise Violation('reports of a concurrent read differ from those alone', got=got[:6], alone=alone[:6], document=excerpt(data))
                ctx.count('concurrent_reports', len(got))
    finally:
        logging.getLogger().removeHandler(log)
    ctx.count('evaluations')
    ctx.count('concurrent_reads', 3 * n)
    s = switches(trace)
    ctx.count('observed_switches', s)
    ctx.seen('interleavings', tuple(trace))
    if s > n:
        ctx.seen('nontrivial', tuple(trace))
    if i < 2:
        ctx.sample({'threads': n, 'roots': [w[0].name for w in work], 'reads interleaved as': trace[:40]})


class Turns(logging.Handler):
    """Lets one operation be made from within another, in the same thread."""
    def __init__(self, rng, ops):
        logging.Handler.__init__(self, logging.WARNING)
        self.rng, self.ops, self.told, self.count, self.left, self.trace = rng, ops, [], 0, 12, []

    def emit(self, r):
        self.told[-1].append(r.getMessage())
        self.turn('report')

    def turn(self, where):
        if len(self.told) < 4 and self.left > 0 and self.rng.random() < 0.15:
            self.left -= 1
            self.count += 1
            k = self.rng.randrange(len(self.ops))
            self.trace.append((len(self.told), where, k))
            self.run(k)

    def run(self, k):
        self.told.append([])
        self.ops[k](self)
        return self.told.pop()


class Hooked(io.BytesIO):
    def __init__(self, data, turns):
        io.BytesIO.__init__(self, data)
        self.turns = turns

    def read(self, n=-1):
        if self.turns:
            self.turns.turn('read')
        return io.BytesIO.read(self, min(n, 700) if n and n > 0 else n)


class Out(object):
    def __init__(self, turns):
        self.turns, self.parts = turns, []

    def write(self, s):
        self.parts.append(s)
        if self.turns:
            self.turns.turn('write')

    def text(self):
        return u''.join(self.parts)


def tree(rng, w, depth=0):
    """Some calls of the XML writer, by itself."""
    for k in range(rng.randint(1, 4)):
        w.start(u't%d' % rng.randint(0, 9), {u'a': u'v%d' % k})
        w.data(u'text %d &' % rng.randint(0, 9))
        if depth < 3 and rng.random() < 0.6:
            tree(rng, w, depth + 1)
        w.data(u'more')
        w.end()


def nested(ctx, i):
    """Reads, writes and the like made while another is under way in the same thread."""
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    from PyCIM.SimpleXMLWriter import XMLWriter
    rng = ctx.rng('nested', i)
    roots = spec.load()
    names = rng.choice([['CIM14', 'CIM15'], ['CIM15'], sorted(roots)])
    ops, results = [], {}

    def result(k, turns, v):
        if turns is None:
            results[k] = v
        elif v != results[k]:
            raise Violation('made from within another (%s), an operation gives another result than alone' % (turns.trace,), got=str(v)[:600], alone=str(results[k])[:600])

    def reading(k, root, c, data):
        def go(turns):
            d = cimread(Hooked(data, turns), *reader_args(root))
            compare(ctx, root, c.w.objs, d, what='%s: ' % ('alone' if turns is None else 'made from within another'))
        return go

    def writing(k, d):
        def go(turns):
            o = Out(turns)
            cimwrite(d, o)
            result(k, turns, o.text())
        return go

    def pretty(k, data):
        return lambda turns: result(k, turns, xmlpp(Hooked(data, turns)))

    def calls(k):
        def go(turns):
            o = Out(turns)
            w = XMLWriter(o, 'utf-8')
            top = w.start(u'top')
            tree(ctx.rng('tree', i, k), w)
            w.close(top)
            result(k, turns, o.text())
        return go
    for k in range(rng.choice([3, 5, 7])):
        kind = rng.choice(['read', 'read', 'write', 'pretty', 'calls'])
        root = roots[rng.choice([n for n in names if kind != 'write' or '.' not in n])]
        c = Content(root, ctx, ctx.rng('nested', i, k)).populate(rng.choice([3, 10, 20]), mix_ids=False)
        if kind == 'write' and cyclic(c):
            kind = 'read'
        if kind == 'write':
            ops.append(writing(k, realize(c)))
        elif kind == 'calls':
            ops.append(calls(k))
        else:
            if rng.random() < 0.6:
                unknown(ctx.rng('unknown', i, k), c, k)
            data = render(c.nodes, root.ns, Style(ctx.rng('style', i, k)))
            ops.append(reading(k, root, c, data) if kind == 'read' else pretty(k, data))
    alone = []
    for op in ops:
        h = Turns(rng, ())
        h.told.append([])
        h.left = 0
        logging.getLogger().addHandler(h)
        try:
            op(None)
        finally:
            logging.getLogger().removeHandler(h)
        alone.append(sorted(h.told[0]))
    for k in range(len(ops)):
        h = Turns(rng, ops)
        logging.getLogger().addHandler(h)
        try:
            told = sorted(h.run(k))
        finally:
            logging.getLogger().removeHandler(h)
        if told != alone[k]:
            raise Violation('reports of a read differ from those alone when others are made within it (%s)' % (h.trace,), got=told[:6], alone=alone[k][:6])
        ctx.count('nested_operations', h.count)
        if h.count:
            ctx.seen('nontrivial', tuple(h.trace))
    ctx.count('evaluations')


def cyclic(c):
    """Objects of compound classes have no identifier to be written under."""
    return any(r.many is False and not n.cls.root.C[r.target].element for n in c.nodes if n.cls for r in n.cls.all_refs if n.obj.one.get(r.name) is not None)


class Quiet(object):
    def count(self, *a):
        pass


def cold(docs):
    """In a fresh process: the very first reads happen concurrently."""
    from PyCIM import cimread
    sys.setswitchinterval(1e-6)
    roots = spec.load()
    results = {}

    def job(t):
        def go():
            results[t] = cimread(io.BytesIO(docs[t][1]), *reader_args(roots[docs[t][0]]))
        return go
    failed = parallel([job(t) for t in range(len(docs))])
    out = []
    for t in range(len(docs)):
        d = results.get(t)
        out.append(None if d is None else sorted((k, type(o).__module__, type(o).__name__, o.UUID) for k, o in d.items()))
    return out, [(i, '%s: %s' % (type(e).__name__, e)) for i, e in failed]


def run(ctx):
    ctx.rule = ('one case = 2-8 threads reading (and, for full models, writing) their own or the same document at once with '
                'a 1 microsecond switch interval and random pauses at every stream read, each result compared with the graph '
                'and each output with the output produced alone; pretty-printing in between; or operations made in the same thread from within the stream, target or log handler of others; non-trivial = more thread switches observed at stream reads '
                'than there were threads; distinct = by observed interleaving')
    # first, while nothing has been imported here
    roots = spec.load()
    items = []
    for i in range(ctx.size(24, 200)):
        rng = ctx.rng('cold', i)
        items.append(i)

    def one_cold(sub, i):
        rng = sub.rng('cold', i)
        docs, want = [], []
        names = rng.choice([['CIM14', 'CIM15'], ['CIM15'], ['CIM14']])
        for t in range(rng.choice([2, 4, 6])):
            root = roots[rng.choice(names)]
            els = rng.sample(root.elements, min(len(root.elements), 60))
            nodes = []
            from ..docs import Node
            for j, c in enumerate(els):
                if c.module.startswith('x'):
                    continue
                nodes.append(Node(c.name, u'_%d_%d' % (t, j), c))
            docs.append((root.name, render(nodes, root.ns, Style())))
            want.append(sorted((n.id, n.cls.module + ('' if False else ''), n.cls.name, n.id) for n in nodes))
        status, value = forked.run(cold, docs)
        if status != 'ok':
            raise Violation('first reads in %d threads: %s %s' % (len(docs), status, str(value)[-600:]))
        got, failed = value
        if failed:
            raise Violation('first reads in %d threads: %s' % (len(docs), failed[0][1][:400]), case_index=i)
        for g, w in zip(got, want):
            if [(x[0], x[2], x[3]) for x in g] != [(x[0], x[2], x[3]) for x in w]:
                raise Violation('first reads in %d threads gave other objects' % len(docs))
        sub.count('cold_starts')
        sub.count('evaluations')
    ctx.pmap(lambda sub, i: sub.case('cold %d' % i, one_cold, sub, i), items)
    ctx.pmap(lambda sub, i: sub.case('storm %d' % i, storm, sub, i), range(ctx.size(200, 1500)))
    ctx.pmap(lambda sub, i: sub.case('nested %d' % i, nested, sub, i), range(ctx.size(300, 3000)))
    ctx.need('nested_operations', 1000 if not ctx.violations else 0)
    ctx.need('cold_starts', 10 if not ctx.violations else 0)
    ctx.need('nontrivial', 20 if not ctx.violations else 0)
    ctx.need('concurrent_reports', 200 if not ctx.violations else 0)
    ctx.need('concurrent_writes', 50 if not ctx.violations else 0)
