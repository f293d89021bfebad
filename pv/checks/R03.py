"""References resolve to the objects read, whatever the order in the document."""
import io
from .. import real, spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt, ident
from ..gen import impedance_conflict
from ..world import usable


def in_order(ctx, c, d):
    """Members of a list stand in the order in which the document states their links, if each is stated once."""
    lists, times = {}, {}

    def listed(o, name, v):
        lists.setdefault((o.id, name), []).append(v.id)
    for n in c.nodes:
        for kind, q, payload in n.stmts:
            m = c.by_id.get(payload[1:]) if kind == 'ref' else None
            r = n.cls.by_ref.get(q.split(u'.')[-1]) if m is not None else None
            if r is None or not c.w.linked(n.obj, r, m.obj):
                continue
            if r.many:
                listed(n.obj, r.name, m.obj)
            if r.inv is not None and r.inv.many:
                listed(m.obj, r.inv.name, n.obj)
    for (i, name), want in lists.items():
        if len(want) > 1 and len(set(want)) == len(want):
            got = [x.UUID for x in getattr(d[i], name)]
            if got != want:
                raise Violation('%r.%s does not hold its members in the order in which they are stated: %r, stated %r' % (c.by_id[i].obj, name, got[:12], want[:12]))
            ctx.count('lists_in_order')


def read(ctx, root, c, style):
    from PyCIM import cimread
    data = render(c.nodes, root.ns, style)
    d = cimread(io.BytesIO(data), *reader_args(root))
    try:
        compare(ctx, root, c.w.objs, d)
        in_order(ctx, c, d)
    except Violation as v:
        v.detail['document'] = excerpt(data, 1500)
        raise
    ctx.count('evaluations')
    return data


def repeat(ctx, c, rng):
    """Some references are stated twice in the same element."""
    for n in c.nodes:
        refs = [s for s in n.stmts if s[0] == 'ref']
        if refs and rng.random() < 0.2:
            n.stmts.insert(rng.randint(0, len(n.stmts)), rng.choice(refs))
            ctx.count('repeated_references')


def one_ref(ctx, root, cls, r, sides, order):
    """One association, stated from one or both ends, objects before or after."""
    rng = ctx.rng(r.key, sides, order)
    if r.inv is not None:
        ts = [t for t in r.inv.cls.subs if t.element and usable(t, r.inv)]
    else:
        ts = [t for t in root.targets(r) if t.element and t.name != 'Element']
    ss = [s for s in cls.subs if s.element and s.name != 'Element' and usable(s, r)]
    if not ts or not ss:
        return
    c = Content(root, ctx, rng)
    src = [c.new(rng.choice(ss), u'_s%d' % i) for i in range(3)]
    dst = [c.new(rng.choice(ts), u'_t%d' % i) for i in range(4)]
    links = 0
    for _ in range(8):
        n, m = rng.choice(src), rng.choice(dst)
        if c.linkable(n, r, m) and not (n is m):
            c.link(n, r, m, sides)
            links += 1
    # the first source also names something that is not in the document
    if not r.many:
        free = [n for n in src if n.obj.one[r.name] is None]
    else:
        free = src
    if free:
        rng.choice(free).stmts.append(('ref', u'%s.%s' % (r.cls.name, r.name), u'#_absent'))
        ctx.count('dangling_references')
    repeat(ctx, c, rng)
    if order == 'forward':
        c.nodes = dst + src
    elif order == 'backward':
        c.nodes = src + dst
    else:
        c.shuffle()
    data = read(ctx, root, c, Style(rng))
    ctx.count('links', links)
    ctx.seen('references', r.key)
    if links:
        ctx.seen('nontrivial', data)
    if rng.random() < 0.002:
        ctx.sample({'reference': r.key, 'document': excerpt(data, 700)})


def graph(ctx, root, i):
    rng = ctx.rng('graph', root.name, i)
    c = Content(root, ctx, rng).populate(rng.choice([6, 12, 25, 60]), p_attr=0.1, links=rng.choice([1.0, 2.5]))
    for n in list(c.nodes):
        if rng.random() < 0.15:
            rs = [r for r in n.cls.all_refs if usable(n.cls, r) and root.C[r.target].element and
                  (r.many or n.obj.one[r.name] is None)]
            if rs:
                r = rng.choice(rs)
                n.stmts.append(('ref', u'%s.%s' % (r.cls.name, r.name), u'#_absent%d' % rng.randint(0, 9)))
                ctx.count('dangling_references')
    repeat(ctx, c, rng)
    for k in range(3):
        c.shuffle()
        data = read(ctx, root, c, Style(rng))
        ctx.seen('nontrivial', data)
    ctx.count('graphs')


def star(ctx, root, r, n):
    """One object with very many partners: documents of several buffers."""
    rng = ctx.rng('star', r.key)
    ts = [t for t in r.inv.cls.subs if t.element and usable(t, r.inv)]
    ss = [s for s in r.cls.subs if s.element and usable(s, r)]
    if not ts or not ss:
        return
    c = Content(root, ctx, rng)
    hub = c.new(rng.choice(ss), u'_hub')
    for i in range(n):
        m = c.new(rng.choice(ts), u'_leaf%d' % i)
        c.link(hub, r, m)
    c.shuffle()
    data = read(ctx, root, c, Style(rng))
    ctx.count('stars')
    ctx.seen('nontrivial', data)


def long_chain(ctx, root, rng, n):
    """Objects of which each is linked with the next, in two ways in turn."""
    own = rng.random() < 0.6     # every reference is declared by the class itself
    while True:
        k = rng.choice([k for k in root.elements if k.name != 'Element'])
        rs = [r for r in k.all_refs if usable(k, r) and not r.many and r.inv is not None and r.inv.many and r.key[:5] == root.name[:5] and
              'Impedance' not in r.name and [t for t in r.inv.cls.subs if t.element and usable(t, r.inv)] and
              (not own or (r.cls is k and r.inv.cls.element))]
        if len(rs) > 1:
            break
    rs = rng.sample(rs, 2)
    hubs = [[t for t in r.inv.cls.subs if t.element and usable(t, r.inv) and (not own or t is r.inv.cls)] for r in rs]
    c = Content(root, ctx, rng)
    node = c.new(k, u'_0')
    for i in range(1, n):
        hub = c.new(rng.choice(hubs[i % 2]), u'_hub%d' % i)
        c.link(node, rs[i % 2], hub, 'near')
        node = c.new(k, u'_%d' % i)
        c.link(node, rs[i % 2], hub, rng.choice(['near', 'near', 'far']))
    return c


def chain(ctx, root, i):
    rng = ctx.rng('chain', root.name, i)
    c = long_chain(ctx, root, rng, rng.choice([700, 2000]))
    if rng.random() < 0.5:
        c.nodes.reverse()
    data = read(ctx, root, c, Style(rng))
    # how far it is from the first object to the farthest
    near = {c.w.objs[0].id: 0}
    todo = [c.w.objs[0]]
    for o in todo:
        for v in list(o.one.values()) + [x for vs in o.many.values() for x in vs]:
            if v is not None and v.id not in near:
                near[v.id] = near[o.id] + 1
                todo.append(v)
    ctx.count('chains')
    if max(near.values()) > 1000:
        ctx.count('chains_over_1000_deep')
    ctx.seen('nontrivial', data)


def utility(ctx, name, rt):
    """The real data sets, against an independent reading of them."""
    from PyCIM import cimread
    root = spec.load()[rt]
    reading = real.Reading(root, ctx).add(open(real.DATA + name, 'rb').read())
    compare(ctx, root, reading.w.objs, cimread(real.DATA + name), what='%s: ' % name)
    ctx.count('evaluations')
    ctx.count('real_objects', len(reading.w.objs))
    ctx.seen('nontrivial', name)


def run(ctx):
    ctx.rule = ('one case = a seeded document whose objects refer to one another (stated from either end or both, some twice, '
                'before or after the object referred to, with references to absent objects in between; one object with hundreds of partners, chains of thousands) read and '
                'compared, link by link, with the graph it was made from, and lists with the order in which the document states their links; every published association is covered; '
                'non-trivial = at least one link; distinct = by document bytes')
    roots = spec.load()
    items = [('real', f, rt) for f, rt in real.FILES]
    for root in roots.values():
        for c in root.classes:
            for r in c.refs:
                if c.element and root.C[r.target].element:
                    items.append(('ref', root.name, c.name, r.name))
        for i in range(ctx.size(50, 400)):
            items.append(('graph', root.name, i))
    items += [('chain', n, i) for n in ('CIM14', 'CIM15') for i in range(ctx.size(12, 60))]
    rng = ctx.rng('plan')
    many = [it for it in items if it[0] == 'ref' and next(r for r in roots[it[1]].C[it[2]].refs if r.name == it[3]).many]
    for it in rng.sample(many, ctx.size(60, 200)):
        items.append(('star',) + it[1:])

    def one(sub, it):
        if it[0] == 'real':
            sub.case('real document %s' % it[1], utility, sub, it[1], it[2])
            return
        root = roots[it[1]]
        if it[0] == 'graph':
            sub.case('graph %s %d' % (root.name, it[2]), graph, sub, root, it[2])
            return
        if it[0] == 'chain':
            sub.case('chain %s %d' % (root.name, it[2]), chain, sub, root, it[2])
            return
        cls = root.C[it[2]]
        r = next(x for x in cls.refs if x.name == it[3])
        if it[0] == 'star':
            if r.inv is not None:
                sub.case('star %s' % r.key, star, sub, root, r, 400)
            return
        combos = [('near', 'forward'), ('near', 'backward'), ('near', 'mixed')]
        if r.inv is not None:
            combos += [('far', 'mixed'), ('both', 'mixed'), ('both', 'forward')]
        reps = sub.size(3, 10)
        for s, o in combos:
            for k in range(reps):
                sub.case('%s stated %s, objects %s' % (r.key, s, o), one_ref, sub, root, cls, r, s, o if k == 0 else 'mixed%d' % k)
    ctx.pmap(one, items)
    n = sum(1 for it in items if it[0] == 'ref')
    ctx.notes['references_published'] = n
    ctx.need('references', int(n * 0.97) if not ctx.violations else 1)
    ctx.need('real_objects', 10000 if not ctx.violations else 0)
    ctx.need('lists_in_order', 2000 if not ctx.violations else 0)
    ctx.need('chains_over_1000_deep', 4 if not ctx.violations else 0)
    ctx.need('repeated_references', 1000 if not ctx.violations else 0)
    ctx.need('dangling_references', 1000 if not ctx.violations else 0)
