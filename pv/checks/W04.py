"""What is reported as written is written; a failing target is an error."""
import gc
import io
import os
import resource
import signal
from .. import spec
from ..core import Violation
from ..docs import Content, compare, excerpt, realize, reader_args, one_sided
from .R05 import open_fds
from .W02 import judge


class Boom(Exception):
    pass


class Failing(object):
    """A text target that fails at its n-th write or flush."""
    def __init__(self, n, exc, op):
        self.n, self.exc, self.op, self.calls, self.parts = n, exc, op, 0, []

    def hit(self, op):
        if op == self.op:
            self.calls += 1
            if self.calls == self.n:
                raise self.exc

    def write(self, s):
        self.hit('write')
        self.parts.append(s)
        return len(s)

    def flush(self):
        self.hit('flush')


def model(ctx, root, rng, n):
    c = Content(root, ctx, rng)
    if n:
        c.populate(n, links=1.5)
    c.shuffle()
    return c, realize(c)


def streams(ctx, root, i):
    from PyCIM import cimwrite
    rng = ctx.rng('streams', root.name, i)
    c, d = model(ctx, root, rng, rng.choice([0, 1, 1, 2, 4, 4, 12]))
    for op in ('write', 'flush'):
        n = 0
        while True:
            n += 1
            exc = rng.choice([OSError(28, 'No space left on device'), BrokenPipeError(32, 'Broken pipe'), Boom('x'), ValueError('closed'),
                              KeyError('k'), AttributeError('a'), TypeError('t'), UnicodeEncodeError('ascii', u'\xe9', 0, 1, 'no')])
            t = Failing(n, exc, op)
            try:
                r = cimwrite(d, t)
            except Exception as e:
                e.__traceback__ = None
                chain, x = [], e
                while x is not None and x not in chain:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                if t.calls < n:
                    raise Violation('writing raised %r although the target did not fail' % e)
                if exc not in chain:
                    raise Violation('the failure %r of the target surfaced as %r' % (exc, e))
                ctx.count('faults_' + op)
            else:
                if t.calls >= n:
                    raise Violation('the target failed with %r at %s number %d, but writing returned %r' % (exc, op, n, r))
                if r is not True:
                    raise Violation('a complete write returned %r' % (r,))
                judge(ctx, root, c.w.objs, u''.join(t.parts).encode('utf-8'))
                break
        ctx.count('evaluations', n)
    # nothing of the model suffered
    compare(ctx, root, c.w.objs, d, what='after failed writes: ')
    ctx.seen('nontrivial', u''.join(t.parts))


def paths(ctx, root, i):
    from PyCIM import cimread, cimwrite
    rng = ctx.rng('paths', root.name, i)
    base = os.path.realpath(ctx.tmp())
    c, d = model(ctx, root, rng, rng.choice([0, 1, 5, 60, 60, 150]))
    path = os.path.join(base, rng.choice(['m.xml', u'm \u00e9\u6f22.xml', 'no-extension', 'm.xml.xml']))
    enc = rng.choice(['utf-8', 'utf-8', 'us-ascii'])
    # a longer, a shorter or no file is there already
    old = rng.choice([None, b'', b'x' * 10, b'<old/>' * 200000])
    if old is not None:
        with open(path, 'wb') as f:
            f.write(old)
    r = cimwrite(d, path, enc)
    with open(path, 'rb') as f:
        data = f.read()
    if r is not True:
        raise Violation('a complete write returned %r' % (r,))
    judge(ctx, root, c.w.objs, data)
    gc.collect()
    if open_fds(path):
        raise Violation('the file written is left open')
    full = len(data)
    ctx.counts['bytes'] += full
    os.unlink(path)
    # targets that cannot be written
    for bad in (os.path.join(base, 'absent', 'm.xml'), base, os.path.join(base, 'a\0b'), None, 3.5, object()):
        try:
            r = cimwrite(d, bad)
        except Exception:
            ctx.count('impossible_targets')
        else:
            raise Violation('writing to %r returned %r' % (bad, r))
    try:
        r = cimwrite(d, '/dev/full', enc)
    except OSError:
        ctx.count('device_full')
    else:
        raise Violation('writing to a full device returned %r' % (r,))
    # a file system that is full after so many bytes
    limits = [0, 1, full - 1] + [rng.randint(0, full - 1) for _ in range(3 if ctx.quick else 8)]
    for n in limits:
        status = limited(d, path, enc, n)
        if status != 'raised':
            raise Violation('only %d of %d bytes could be written, but writing %s' % (n, full, status))
        ctx.count('limited_files')
    status = limited(d, path, enc, full)
    if status != 'complete':
        raise Violation('with exactly enough room writing %s' % status)
    with open(path, 'rb') as f:
        if f.read() != data:
            raise Violation('the process ended right after writing, and the file is not complete')
    ctx.count('evaluations', len(limits) + 8)
    ctx.seen('nontrivial', data)
    compare(ctx, root, c.w.objs, d, what='after failed writes: ')


def limited(d, path, enc, n):
    """Writes in a child whose files may not grow beyond n bytes; dies right after."""
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            from PyCIM import cimwrite
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try:
                r = cimwrite(d, path, enc)
                code = 0 if r is True else 3
            except OSError:
                code = 4
            except BaseException:
                code = 5
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'died of signal %d' % os.WTERMSIG(st)
    return {0: 'complete', 3: 'returned something else', 4: 'raised', 5: 'raised another error'}.get(os.WEXITSTATUS(st), 'exit %d' % st)


def strict(ctx, root, i):
    """A caller's file that cannot hold the characters: an error or a faithful document."""
    from PyCIM import cimwrite
    rng = ctx.rng('strict', root.name, i)
    c = Content(root, ctx, rng).populate(3, fmt=u'_%d')
    n = rng.choice(c.nodes)
    texts = [a for a in n.cls.all_attrs if a.type == 'str' and not a.enum]
    if not texts:
        return
    a = n.cls.by_attr[rng.choice(texts).name]
    n.obj.attrs[a.name] = rng.choice([u'caf\u00e9', u'\u20ac', u'\u6f22\u5b57', u'\U0001F600'])
    d = realize(c)
    for enc in ('us-ascii', 'iso-8859-1'):
        raw = io.BytesIO()
        f = io.TextIOWrapper(raw, encoding=enc, newline='')
        try:
            r = cimwrite(d, f, enc)
            f.flush()
        except UnicodeError:
            ctx.count('unencodable_refused')
            f = None
            continue
        judge(ctx, root, c.w.objs, raw.getvalue())
        f.detach()
        ctx.count('encodable_written')
    ctx.count('evaluations')


def run(ctx):
    ctx.rule = ('one case = one seeded model written to a target that fails at every write or flush in turn, to paths that cannot be '
                'written, to a full device, and to files limited to n bytes in a child process (n from 0 to one short of complete); '
                'observed: the error that surfaces or the returned value, and the bytes on disk at the moment of return (the child '
                'exits without any clean-up); non-trivial = judged; distinct = by document')
    roots = spec.load()
    items = []
    for r in roots.values():
        k = ctx.size(100 if '.' not in r.name else 20, 300 if '.' not in r.name else 60)
        for i in range(k):
            items += [(streams, r.name, i), (strict, r.name, i)]
            if i % 2 == 0:
                items.append((paths, r.name, i))
    items.sort(key=lambda it: it[0].__name__)
    ctx.pmap(lambda sub, it: sub.case('%s %s %d' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2]), items)
    ok = not ctx.violations
    for k, n in (('faults_write', 2000), ('faults_flush', 50), ('limited_files', 200), ('device_full', 30), ('impossible_targets', 100)):
        ctx.need(k, n if ok else 0)
