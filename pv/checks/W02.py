"""The written document states exactly what the objects hold."""
import collections
import io
import os
from .. import spec
from ..core import Violation
from ..docs import Content, Parsed, excerpt, expected_text, loosen, realize, reader_args
from ..world import Obj, pyclass


def expect(root, o, ids):
    """(must, may): statements of one object, by the published model."""
    must, may, texts = collections.Counter(), set(), {}
    for k, v in o.attrs.items():
        a = o.cls.by_attr[k]
        q = '%s.%s' % (a.cls.name, k)
        if a.enum:
            if v is not None:
                must[(q, '%s#%s.%s' % (root.ns, a.enum, v))] += 1
        elif v != a.default:
            texts[q] = (a, v)
    for k, v in o.one.items():
        r = o.cls.by_ref[k]
        if v is not None:
            must[('%s.%s' % (r.cls.name, k), '#' + v.id)] += 1
            if k in ('SequenceImpedance', 'PhaseImpedance'):
                may.add(('%s.PerLengthImpedance' % r.cls.name, '#' + v.id))
    for k, vs in o.many.items():
        r = o.cls.by_ref[k]
        for v in vs:
            may.add(('%s.%s' % (r.cls.name, k), '#' + v.id))
    return must, may, texts


def judge(ctx, root, objs, data):
    p = Parsed(data)
    if p.root != '{%s}RDF' % spec.RDF:
        raise Violation('the root element is %s' % p.root)
    if len(p.nodes) != len(objs):
        raise Violation('%d elements for %d objects' % (len(p.nodes), len(objs)))
    by_id = {o.id: o for o in objs}
    seen = set()
    for ns, name, ident, st in p.nodes:
        o = by_id.get(ident)
        if o is None or ident in seen:
            raise Violation('an element for %s %r, which is %s' % (name, ident, 'written twice' if ident in seen else 'not in the model'))
        seen.add(ident)
        if ns != root.ns + '#' or name != o.cls.name:
            raise Violation('%r is written as {%s}%s' % (o, ns, name))
        must, may, texts = expect(root, o, by_id)
        got = collections.Counter()
        for q, res, text in st:
            ctx.count('statements')
            if res is None:
                if q not in texts:
                    raise Violation('%r: statement %s = %r says something the object does not hold' % (o, q, text))
                a, v = texts.pop(q)
                if not expected_text(a, v, text):
                    raise Violation('%r: %s is %r but is written as %r' % (o, q, v, text))
            elif (q, res) in may:
                continue
            else:
                got[(q, res)] += 1
        if texts:
            raise Violation('%r: nothing is written for %s' % (o, ', '.join(sorted('%s = %r' % (q, v) for q, (a, v) in texts.items()))[:300]))
        if got != must:
            raise Violation('%r: references and enumerations written %r, held %r' % (
                o, sorted((got - must).elements())[:4], sorted((must - got).elements())[:4]))


def one(ctx, root, i, cls=None):
    from PyCIM import cimwrite
    rng = ctx.rng(root.name, i, cls)
    c = Content(root, ctx, rng)
    if cls is None:
        c.populate(rng.choice([1, 3, 10, 30]), links=rng.choice([1.0, 3.0]), p_attr=rng.choice([0.2, 0.8]))
    else:
        c.populate(3, start=root.C[cls], links=6.0, p_attr=0.9)
    real = realize(c)
    objs = list(c.w.objs)
    if rng.random() < 0.4:
        ctx.count('values_of_other_types', loosen(rng, objs, real, rng.choice([0.1, 0.6])))
    # part of the model only: references to the rest are stated all the same
    if rng.random() < 0.3 and len(objs) > 1:
        objs = rng.sample(objs, rng.randint(1, len(objs) - 1))
        ctx.count('partial_models')
    d = {o.id: real[o.id] for o in objs}
    if len(objs) < len(c.w.objs) and rng.random() < 0.5:
        # another object stands in the dictionary under the identifier of one
        # that is referred to but left out
        for o in c.w.objs:
            if o.id not in d and rng.random() < 0.5:
                o2 = Obj(o.cls, None, o.id)
                d[o.id] = pyclass(o.cls)(UUID=o.id)
                objs.append(o2)
                ctx.count('stand_ins')
    if rng.random() < 0.25:
        # the keys are the caller's affair: objects are written under their own identifier
        keys = rng.choice([list(range(len(d))), ['k%d' % k for k in range(len(d))], list(d), [(k, 'x') for k in range(len(d))],
                           ['%s#%s' % (root.ns, k) for k in d]])
        rng.shuffle(keys)
        d = dict(zip(keys, d.values()))
        ctx.count('other_keys')
    k = rng.random()
    if k < 0.5:
        out = io.StringIO()
        cimwrite(d, out)
        data = out.getvalue().encode('utf-8')
    else:
        path = os.path.join(ctx.tmp(), 'o.xml')
        cimwrite(d, path, rng.choice(['utf-8', 'us-ascii']))
        with open(path, 'rb') as f:
            data = f.read()
    try:
        judge(ctx, root, objs, data)
    except Violation as v:
        v.detail['document'] = excerpt(data, 2500)
        raise
    ctx.count('evaluations')
    ctx.seen('nontrivial', data)
    for o in objs:
        ctx.seen('classes', repr(o.cls))
    if i == 0 and cls is None:
        ctx.sample({'root': root.name, 'document': excerpt(data, 600)})


def nothing(ctx, root, i):
    """No objects: no elements, but a document all the same."""
    from PyCIM import cimwrite
    out = io.StringIO()
    cimwrite({}, out)
    judge(ctx, root, [], out.getvalue().encode('utf-8'))
    path = os.path.join(ctx.tmp(), 'e.xml')
    cimwrite({}, path)
    with open(path, 'rb') as f:
        judge(ctx, root, [], f.read())
    ctx.count('evaluations', 2)


def assigned(ctx, root, i):
    """Values put back to their default, references moved and cleared: the last state counts."""
    from PyCIM import cimwrite
    from ..gen import random_op
    from ..gen import population
    rng = ctx.rng('assigned', root.name, i)
    w = population(ctx, root, rng, rng.randint(2, 8))
    for _ in range(rng.choice([10, 40])):
        random_op(w, rng)
    out = io.StringIO()
    d = {o.id: o.real for o in w.objs}
    cimwrite(d, out)
    try:
        judge(ctx, root, w.objs, out.getvalue().encode('utf-8'))
    except Violation as v:
        v.detail['document'] = out.getvalue()[:2500]
        v.detail['history'] = w.log[-30:]
        raise
    ctx.count('evaluations')
    ctx.count('after_histories')
    ctx.seen('nontrivial', out.getvalue())


def run(ctx):
    ctx.rule = ('one case = a seeded object graph (every class of all 16 models and profiles, random graphs, parts of a graph, '
                'graphs after random histories of operations) written and parsed with the standard library; the multiset of its '
                'statements is compared with what the published model says the objects hold; non-trivial = judged; distinct = by bytes')
    roots = spec.load()
    items = [(nothing, 'CIM15', 0)]
    for r in roots.values():
        full = '.' not in r.name
        items += [(one, r.name, i, None) for i in range(ctx.size(400 if full else 100, 2000 if full else 400))]
        items += [(one, r.name, k, c.name) for c in r.elements for k in range(ctx.size(4, 16))]
        items += [(assigned, r.name, i) for i in range(ctx.size(300 if full else 60, 1500 if full else 300))]
    ctx.pmap(lambda sub, it: sub.case('%s %s' % (it[0].__name__, it[1:]), it[0], sub, roots[it[1]], *it[2:]), items)
    ok = not ctx.violations
    ctx.need('classes', 1200 if ok else 0)
    ctx.need('after_histories', 100 if ok else 0)
    ctx.need('partial_models', 100 if ok else 0)
    ctx.need('stand_ins', 50 if ok else 0)
    ctx.need('other_keys', 50 if ok else 0)
    ctx.need('statements', 10000 if ok else 0)
    ctx.need('values_of_other_types', 1000 if ok else 0)
