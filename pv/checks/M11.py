"""A copied or pickled model is an equal model of its own."""
import copy
import io
import os
import pickle
import subprocess
import sys
from .. import spec
from ..core import REPO, Violation
from ..docs import Content, Style, compare, reader_args, realize, render
from ..gen import population, random_op
from ..world import Obj, World, pyclass
from .M04 import saturated
from .M10 import walk


# Each takes whatever structure there is and gives another one like it.
def relay(x):
    """The file-like interface of pickle."""
    f = io.BytesIO()
    pickle.Pickler(f, 2).dump(x)
    f.seek(0)
    return pickle.Unpickler(f).load()


WAYS = [('deepcopy', copy.deepcopy)] + [('pickle protocol %d' % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p)))
                                        for p in range(pickle.HIGHEST_PROTOCOL + 1)] + [('pickle through a file', relay)]


def twin(w, reals, rng):
    """The same state of the reference model, next to other objects."""
    t = World(w.root, w.ctx, rng, check_attrs=True, uuid=w.uuid)
    t.n = w.n
    t.log = list(w.log)
    other = {}
    for o in w.objs:
        p = Obj(o.cls, reals[o.id], o.id, o.uuid)
        p.attrs.update(o.attrs)
        p.loose = set(o.loose)
        other[o] = p
        t.objs.append(p)
        t.by_real[id(p.real)] = p
    for o, p in other.items():
        for k, v in o.one.items():
            p.one[k] = other[v] if v is not None else None
        for k, vs in o.many.items():
            p.many[k] = [other[v] for v in vs]
    return t


def apart(w, t):
    """No list and no object is held by both."""
    mine = set(id(o.real) for o in w.objs)
    lists = dict((id(x), (o, k)) for o in w.objs for k in o.many for x in [getattr(o.real, k)])
    for p in t.objs:
        if id(p.real) in mine:
            raise Violation('the copy of %r is the object itself' % p)
        for k in p.many:
            if id(getattr(p.real, k)) in lists:
                raise Violation('%r.%s of the copy is the list of the original' % (p, k))
        for k, v in vars(p.real).items():
            if isinstance(v, (list, dict, set)) and any(v is x for o in w.objs for x in vars(o.real).values()):
                raise Violation('the copy of %r shares its %s with the original' % (p, type(v).__name__))


def both(ctx, w, rng, how, f, steps):
    """The population and its copy go on, each without the other."""
    w.check_attrs = True
    w.check()
    # what is copied: a dictionary, as it is read and written, or one object of it
    t = twin(w, f(dict((o.id, o.real) for o in w.objs)), rng)
    t.log.append('-- %s --' % how)
    t.check()
    w.check()
    apart(w, t)
    one = rng.choice(w.objs)
    if w.uuid is None:
        walk(ctx, one, f(one.real), t.log)
    for _ in range(steps):
        x = rng.choice((w, t))
        random_op(x, rng)
        (t if x is w else w).check()
    # and again of the copy
    if rng.random() < 0.3:
        u = twin(t, f(dict((o.id, o.real) for o in t.objs)), rng)
        u.check()
        ctx.count('copies_of_copies')
    ctx.count('evaluations')
    ctx.seen('ways', how)
    if any(any(o.one.values()) or any(o.many.values()) for o in w.objs):
        ctx.count('linked_copies')
        ctx.seen('nontrivial', (how, tuple(w.log)))


def storm(ctx, root, rng, start, steps):
    w = population(ctx, root, rng, rng.randint(4, 9), start, alike=True)
    for k in range(steps):
        random_op(w, rng)
    both(ctx, w, rng, *rng.choice(WAYS), steps=8)


def full(ctx, root, rng, cls):
    w = saturated(ctx, root, cls, rng, uuid=rng.choice([None, 'same']))
    both(ctx, w, rng, *rng.choice(WAYS), steps=2)


def documents(ctx, root, i):
    """A model is read or built, copied, and goes on being read into and written."""
    from PyCIM import cimread, cimwrite
    rng = ctx.rng('docs', root.name, i)
    large = i % 20 == 19
    c = Content(root, ctx, rng).populate(rng.randint(400, 900) if large else rng.choice([2, 5, 12, 40]))
    ctx.count('large_models', large)
    data = render(c.nodes, root.ns, Style(rng))
    if rng.random() < 0.4:
        d = realize(c)
    else:
        d = cimread(io.BytesIO(data), *reader_args(root))
    how, f = WAYS[i // 20 % 2 and rng.randrange(1, len(WAYS))] if large else rng.choice(WAYS)
    e = f(d)
    if list(e) != list(d):
        raise Violation('%s: the entries of the copy are not those of the dictionary' % how)
    compare(ctx, root, c.w.objs, e, what='%s: ' % how)
    if '.' not in root.name:
        out = [io.StringIO(), io.StringIO()]
        for x, s in zip((d, e), out):
            cimwrite(x, s)
        if out[0].getvalue() != out[1].getvalue():
            raise Violation('%s: the copy is written differently' % how)
    # the same document again, into one of them
    x = rng.choice((d, e))
    objs = dict(x)
    cimread(io.BytesIO(data), *reader_args(root), start_dict=x)
    if any(x[k] is not objs[k] for k in objs) or len(x) != len(objs):
        raise Violation('%s: reading the document again replaces objects' % how)
    for x in (d, e):
        compare(ctx, root, c.w.objs, x, what='%s, read again: ' % how)
    ctx.count('evaluations')
    ctx.count('documents')
    ctx.seen('ways', how)
    ctx.seen('nontrivial', data)


# Run by a fresh interpreter, which knows nothing but the pickled model.
CHILD = r'''
import pickle, sys
sys.path.insert(0, sys.argv[1])
d = pickle.loads(sys.stdin.buffer.read())
names = {id(o): k for k, o in d.items()}
assert not any(type(x) is object for x in d.values())
def show(v):
    if isinstance(v, list):
        return [show(x) for x in v]
    return ['#', names[id(v)]] if id(v) in names else v
out = {}
for k, o in d.items():
    m = [c for c in type(o).mro() if c is not object]
    out[k] = (type(o).__module__, type(o).__name__, {a: show(getattr(o, a)) for c in m for a in list(c._attrs) + list(c._refs) if hasattr(o, a)})
# it goes on being a model: everything is let go
for o in d.values():
    for c in type(o).mro():
        for r in c.__dict__.get('_refs', ()):
            setattr(o, r, [] if r in c._many_refs else None)
left = [k for k, o in d.items() for c in type(o).mro() for r in c.__dict__.get('_refs', ()) if getattr(o, r, None)]
sys.stdout.buffer.write(pickle.dumps((out, left)))
'''


def elsewhere(ctx, root, i):
    """The model goes to another process."""
    rng = ctx.rng('elsewhere', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([5, 12, 30]))
    d = realize(c)
    items = list(d.items())
    rng.shuffle(items)      # the class that comes first is imported first
    r = subprocess.run([sys.executable, '-B', '-c', CHILD, REPO], input=pickle.dumps(dict(items), rng.randint(0, pickle.HIGHEST_PROTOCOL)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Violation('a pickled model cannot be loaded in another process: %s' % r.stderr.decode('utf-8', 'replace')[-600:])
    out, left = pickle.loads(r.stdout)
    for o in c.w.objs:
        mod, name, got = out[o.id]
        if (mod, name) != (pyclass(o.cls).__module__, o.cls.name):
            raise Violation('%r is a %s.%s in the other process' % (o, mod, name))
        want = dict(o.attrs, UUID=o.id)
        want.update((k, ['#', v.id] if v is not None else None) for k, v in o.one.items())
        for k, vs in o.many.items():
            want[k] = [['#', v.id] for v in vs]
        for k, v in want.items():
            ctx.count('comparisons')
            g = got.get(k, 'missing')
            if k in o.many:
                g, v = sorted(g), sorted(v)
            if g != v or type(g) is not type(v):
                raise Violation('%r.%s should be %r but is %r in the other process' % (o, k, v, g))
    if left:
        raise Violation('links that cannot be cleared in the other process: %r' % left[:5])
    ctx.count('evaluations')
    ctx.count('processes')
    ctx.seen('nontrivial', tuple(sorted(d)) + (root.name, i))


def run(ctx):
    ctx.rule = ('one case = a population after a seeded history, a full object of a class, or a model built or read, which is copied in '
                'depth or pickled (all protocols; by file; into another process); the copy is compared with the reference model, and '
                'operations on either are watched at both; non-trivial = linked objects were copied; distinct = by way and history')
    roots = spec.load()

    def go(sub, it):
        sys.setrecursionlimit(20000)
        kind, name, cname, i = it
        rng = sub.rng(*it)
        root = roots[name]
        if kind == 'storm':
            sub.case('storm %s.%s/%d' % it[1:], storm, sub, root, rng, root.C[cname], sub.size(20, 60))
        elif kind == 'full':
            sub.case('full %s.%s/%d' % it[1:], full, sub, root, rng, root.C[cname])
        elif kind == 'docs':
            sub.case('documents %s/%d' % (name, i), documents, sub, root, i)
        else:
            sub.case('elsewhere %s/%d' % (name, i), elsewhere, sub, root, i)
    items = [(kind, r.name, c.name, i) for kind, n in (('storm', ctx.size(3, 20)), ('full', ctx.size(1, 6)))
             for r in roots.values() for c in r.elements if c.name != 'Element' for i in range(n)]
    items += [('docs', r.name, '', i) for r in roots.values() for i in range((200 if '.' not in r.name else 40) * ctx.size(1, 8))]
    items += [('elsewhere', r.name, '', i) for r in roots.values() for i in range(ctx.size(6, 40))]
    ctx.pmap(go, items)
    ok = not ctx.violations
    ctx.need('linked_copies', 4000 if ok else 0)
    ctx.need('documents', 500 if ok else 0)
    ctx.need('large_models', 10 if ok else 0)
    ctx.need('processes', 80 if ok else 0)
    ctx.need('ways', len(WAYS) if ok else 0)
