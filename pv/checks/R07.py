"""A model spread over several documents, read one after the other."""
import collections
import io
from .. import real, spec
from ..core import Violation
from ..docs import Content, Style, Node, render, compare, reader_args, excerpt, doc_value, lexical
from ..gen import grow, impedance_conflict
from ..world import Obj, World, pyclass, usable


class Plan(object):
    """Objects and facts, each with the document that states it."""
    def __init__(self, root, ctx, rng, n, k):
        self.root, self.ctx, self.rng, self.k = root, ctx, rng, k
        c = Content(root, ctx, rng).populate(n, links=2.5, p_attr=0.0)
        self.content = c
        self.born = {node.id: min(int(rng.random() * k), k - 1) for node in c.nodes}
        # facts: (document, 'attr'|'link', ...)
        self.facts = []
        self.stated = [dict() for _ in range(k)]     # document -> id -> statements
        for node in c.nodes:
            for a in node.cls.all_attrs:
                a = node.cls.by_attr[a.name]
                if rng.random() < 0.4:
                    v = doc_value(rng, a)
                    if v is None:
                        continue
                    s = rng.randint(self.born[node.id], k - 1)
                    self.facts.append((s, 'attr', node, a, v))
                    q = u'%s.%s' % (a.cls.name, a.name)
                    if a.enum:
                        self.say(s, node, ('enum', q, u'%s#%s.%s' % (root.ns, a.enum, v)))
                    else:
                        self.say(s, node, ('text', q, lexical(rng, a, v)))
                    # a later document may state the value again, or another one
                    while s < k - 1 and rng.random() < 0.3:
                        s = rng.randint(s + 1, k - 1)
                        v = v if rng.random() < 0.3 else doc_value(rng, a)
                        if v is None:
                            break
                        self.facts.append((s, 'attr', node, a, v))
                        self.say(s, node, ('enum', q, u'%s#%s.%s' % (root.ns, a.enum, v)) if a.enum else ('text', q, lexical(rng, a, v)))
                        ctx.count('values_restated')
            for kind, q, payload in node.stmts:
                other = c.by_id[payload[1:]]
                r = node.cls.by_ref[q.split('.')[1]]
                s = rng.randint(max(self.born[node.id], self.born[other.id]), k - 1)
                self.facts.append((s, 'link', node, r, other))
                self.say(s, node, ('ref', q, payload))
                if s < k - 1 and rng.random() < 0.2:    # said again later
                    self.say(rng.randint(s + 1, k - 1), node, ('ref', q, payload))
                    ctx.count('references_restated')
        # what is not there yet when it is referred to stays out
        for node in c.nodes:
            if self.born[node.id] > 0 and rng.random() < 0.2:
                s = rng.randint(0, self.born[node.id] - 1)
                for other in c.nodes:
                    if self.born[other.id] <= s:
                        rs = [r for r in other.cls.all_refs if not r.many and usable(other.cls, r)
                              and root.C[r.target] in node.cls.chain]
                        if rs:
                            r = rng.choice(rs)
                            self.say(s, other, ('ref', u'%s.%s' % (r.cls.name, r.name), u'#' + node.id))
                            ctx.count('references_to_later_documents')
                            break

    def say(self, s, node, stmt):
        self.stated[s].setdefault(node.id, []).append(stmt)

    def document(self, s, style):
        rng = self.rng
        nodes = []
        for node in self.content.nodes:
            st = list(self.stated[s].get(node.id, []))
            rng.shuffle(st)
            if self.born[node.id] == s:
                x = Node(node.name, node.id)
            elif self.born[node.id] < s and (st or rng.random() < 0.1):
                # described further, possibly as one of its base classes
                names = [b.name for b in node.cls.chain if b.element and b.name != 'Element']
                x = Node(node.name if rng.random() < 0.6 else rng.choice(names), node.id)
                self.ctx.count('further_descriptions')
            else:
                continue
            x.stmts = st
            nodes.append(x)
        rng.shuffle(nodes)
        return render(nodes, self.root.ns, style)

    def expected(self, s):
        self.facts.sort(key=lambda f: f[0])
        """The objects after documents 0..s, by the facts those state."""
        objs = {n.id: Obj(n.cls, None, n.id) for n in self.content.nodes if self.born[n.id] <= s}
        w = World(self.root, self.ctx, self.rng)
        for t, kind, n, x, y in self.facts:
            if t > s:
                continue
            if kind == 'attr':
                objs[n.id].attrs[x.name] = y
            else:
                w.m_link(objs[n.id], x, objs[y.id])
        return list(objs.values())


class Registry(dict):
    """A dictionary of the caller's own kind, in which nothing is replaced or deleted."""
    def __setitem__(self, k, v):
        if k in self and self[k] is not v:
            raise Violation('the entry %r is replaced' % (k,))
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        raise Violation('the entry %r is deleted' % (k,))

    def pop(self, k, *a):
        raise Violation('the entry %r is taken out' % (k,))

    def clear(self):
        raise Violation('the dictionary is cleared')


def spread(ctx, root, i):
    from PyCIM import cimread
    rng = ctx.rng('spread', root.name, i)
    k = rng.choice([2, 2, 3, 4, 6])
    plan = Plan(root, ctx, rng, rng.choice([4, 10, 20, 40]), k)
    d = rng.choice([dict, dict, collections.OrderedDict, Registry])() if rng.random() < 0.75 else None
    docs, ident, extra = [], {}, {}
    if d is not None and rng.random() < 0.4:
        # entries that are none of the reader's business
        extra = {7: u'a note', (u'x', 1): object(), u'\x00 not an identifier': pyclass(rng.choice(root.elements))(UUID=u'elsewhere')}
        d.update(extra)
        ctx.count('foreign_entries')
    for s in range(k):
        data = plan.document(s, Style(rng))
        docs.append(data)
        got = cimread(io.BytesIO(data), *reader_args(root), start_dict=d)
        if d is not None and got is not d:
            raise Violation('the dictionary passed in is not the one returned', documents=[excerpt(x) for x in docs])
        d = got
        for name, o in ident.items():
            if d.get(name) is not o:
                raise Violation('document %d replaced object %r of an earlier document' % (s, name), documents=[excerpt(x, 1500) for x in docs])
        if any(d.get(k) is not v for k, v in extra.items()):
            raise Violation('an entry of the caller was changed', documents=[excerpt(x) for x in docs])
        ident = dict(d)
        try:
            compare(ctx, root, plan.expected(s), {k: v for k, v in d.items() if k not in extra}, what='after document %d of %d: ' % (s + 1, k))
        except Violation as v:
            v.detail['documents'] = [excerpt(x, 1500) for x in docs]
            raise
        ctx.count('documents')
    ctx.count('evaluations')
    if k > 1:
        ctx.seen('nontrivial', b''.join(docs))
    if i == 0:
        ctx.sample({'root': root.name, 'documents': [excerpt(x, 300) for x in docs]})


def prepared(ctx, root, i):
    """start_dict holds objects the caller built and linked."""
    from PyCIM import cimread
    rng = ctx.rng('prepared', root.name, i)
    plan = Plan(root, ctx, rng, rng.choice([5, 12, 25]), 2)
    mine = [n for n in plan.content.nodes if plan.born[n.id] == 0]
    # what the objects of the caller call themselves need not be what they are listed under
    uuids = {n.id: n.id for n in mine}
    if rng.random() < 0.3:
        other = sorted(uuids) + [n.id for n in plan.content.nodes] + [u'', u'other', u'0']
        uuids = {k: rng.choice(other) for k in sorted(uuids)}
        ctx.count('other_identifiers')

    def expected(t):
        objs = plan.expected(t)
        for o in objs:
            o.uuid = uuids.get(o.id, o.id)
        return objs
    start = {n.id: pyclass(n.cls)(UUID=uuids[n.id]) for n in mine}
    for t, kind, n, x, y in plan.facts:
        if t == 0:
            if kind == 'attr':
                setattr(start[n.id], x.name, y)
            elif x.many:
                if start[y.id] not in getattr(start[n.id], x.name):
                    add = getattr(start[n.id], 'add' + x.name, None) or getattr(start[n.id], 'add_' + x.name)
                    add(start[y.id])
            else:
                setattr(start[n.id], x.name, start[y.id])
    compare(ctx, root, expected(0), start, what='prepared by the caller: ')
    same = dict(start)
    # the caller need not have kept to the published types
    for t, kind, n, x, y in plan.facts:
        if t == 1 and kind == 'attr' and n.id in start and rng.random() < 0.4:
            setattr(start[n.id], x.name, rng.choice([None, 0, 1, 7, -3, 2.5, True, False, u'7', u'text', u'']))
            ctx.count('values_of_other_types_replaced')
    data = plan.document(1, Style(rng))
    got = cimread(io.BytesIO(data), start_dict=start, *reader_args(root))
    if got is not start or any(start[n] is not o for n, o in same.items()):
        raise Violation('objects of the caller were replaced', document=excerpt(data, 1500))
    try:
        compare(ctx, root, expected(1), start, what='read on top of prepared objects: ')
    except Violation as v:
        v.detail['document'] = excerpt(data, 2000)
        raise
    ctx.count('evaluations')
    ctx.count('prepared')
    ctx.seen('nontrivial', data)


def fresh(ctx, root, i):
    """Without a starting dictionary nothing of an earlier read remains."""
    from PyCIM import cimread
    rng = ctx.rng('fresh', root.name, i)
    c1 = Content(root, ctx, rng).populate(rng.randint(1, 8), mix_ids=False)
    c2 = Content(root, ctx, rng).populate(rng.randint(1, 8), mix_ids=False)
    a, b = render(c1.nodes, root.ns, Style(rng)), render(c2.nodes, root.ns, Style(rng))
    da = cimread(io.BytesIO(a), *reader_args(root))
    db = cimread(io.BytesIO(b), *reader_args(root))
    compare(ctx, root, c2.w.objs, db, what='second read: ')
    compare(ctx, root, c1.w.objs, da, what='first result after the second read: ')
    if da is db or any(da.get(k) is o for k, o in db.items()):
        raise Violation('two reads share objects', documents=[excerpt(a), excerpt(b)])
    ctx.count('evaluations')


def utility(ctx, order):
    """The profile documents of one real network, in several orders."""
    from PyCIM import cimread
    root = spec.load()['CIM15']
    reading = real.Reading(root, ctx)
    d = {}
    for f in order:
        data = open(real.DATA + 'EDF_AIGUE_v9_%s.xml' % f, 'rb').read()
        reading.add(data)
        before = dict(d)
        if cimread(io.BytesIO(data), start_dict=d) is not d or any(d[k] is not o for k, o in before.items()):
            raise Violation('objects of earlier documents were replaced by %s' % f)
    compare(ctx, root, reading.w.objs, d, what='EDF documents %s: ' % '+'.join(order))
    ctx.count('evaluations')
    ctx.count('real_documents', len(order))
    ctx.seen('nontrivial', ' '.join(order))


def run(ctx):
    ctx.rule = ('one case = a seeded object graph whose objects and statements are spread over 2-6 documents (objects described '
                'further later, with new, the same or other values, also under a base class; references ahead of the document that brings the object), read one after '
                'the other into one dictionary and compared with the graph after each; also on top of caller-built objects, and '
                'the repository\'s real profile documents in several orders; non-trivial = at least two documents; distinct = by bytes')
    roots = spec.load()
    items = []
    n = ctx.size(300, 1500)
    for r in roots.values():
        for i in range(n if '.' not in r.name else n // 6):
            items += [(spread, r.name, i), (prepared, r.name, i)]
            if i % 3 == 0:
                items.append((fresh, r.name, i))
    orders = [('CONN', 'EQUIP', 'ASSET', 'GEO'), ('GEO', 'ASSET', 'EQUIP', 'CONN'), ('EQUIP', 'CONN', 'GEO', 'ASSET'),
              ('ASSET', 'GEO', 'CONN', 'EQUIP')]
    items = [(utility, o) for o in orders[:ctx.size(3, 4)]] + items

    def one(sub, it):
        if it[0] is utility:
            sub.case('real documents %s' % '+'.join(it[1]), utility, sub, it[1])
        else:
            sub.case('%s %s %d' % (it[0].__name__, it[1], it[2]), it[0], sub, roots[it[1]], it[2])
    ctx.pmap(one, items)
    ctx.need('values_restated', 500 if not ctx.violations else 0)
    ctx.need('further_descriptions', 500 if not ctx.violations else 0)
    ctx.need('values_of_other_types_replaced', 100 if not ctx.violations else 0)
    ctx.need('other_identifiers', 20 if not ctx.violations else 0)
    ctx.need('prepared', 100 if not ctx.violations else 0)
    ctx.need('real_documents', 8 if not ctx.violations else 0)
