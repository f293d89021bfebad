"""The frozen published model (spec/spec.json), indexed."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'spec.json')
NS = {'CIM14': 'http://iec.ch/TC57/2009/CIM-schema-cim14',
      'CIM15': 'http://iec.ch/TC57/2010/CIM-schema-cim15'}
NS16 = 'http://iec.ch/TC57/2013/CIM-schema-cim16'
RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'


class Attr(object):
    def __init__(self, cls, d):
        self.cls, self.name, self.type, self.default = cls, d['name'], d['type'], d['default']
        self.enum = d.get('enum')
        self.literals = d.get('literals') or []
        if self.type == 'float' and self.default is not None:
            self.default = float(self.default)


class Ref(object):
    def __init__(self, cls, d):
        self.cls, self.name, self.many = cls, d['name'], d['many']
        self.target, self.inv_name = d['target'], d['inv']
        self.inv = None     # the Ref at the other end, if there is one
        self.shadowed = False

    @property
    def key(self):
        return '%s.%s.%s' % (self.cls.root.name, self.cls.name, self.name)

    @property
    def kind(self):
        if self.inv is None:
            return 'uni-many' if self.many else 'uni-one'
        return {(0, 0): '1:1', (1, 0): '1:n', (0, 1): 'n:1', (1, 1): 'n:m'}[int(self.many), int(self.inv.many)]


class Cls(object):
    def __init__(self, root, name, d):
        self.root, self.name, self.module, self.base_name = root, name, d['module'], d['base']
        self.element = d['element']
        self.attrs = [Attr(self, a) for a in d['attrs']]
        self.refs = [Ref(self, r) for r in d['refs']]
        self.base = None
        self.subs = []      # this class and everything derived from it

    def finish(self):
        chain, c = [], self
        while c:
            chain.append(c)
            c = c.base
        self.chain = chain
        up = chain[::-1]
        self.all_attrs = [a for c in up if c.name != 'Element' for a in c.attrs]
        self.all_refs = [r for c in up for r in c.refs]
        own = {}
        for r in self.all_refs:
            own.setdefault(r.name, []).append(r)
        # A reference re-declared under the same name further down (4 classes).
        self.shadow = {n for n, rs in own.items() if len(rs) > 1}
        self.by_attr = {a.name: a for a in self.all_attrs}
        self.by_ref = {r.name: r for r in self.all_refs}

    def __repr__(self):
        return '%s.%s' % (self.root.name, self.name)

    @property
    def compound(self):
        return not self.element

    @property
    def order(self):
        """The names of the arguments in the order in which they are taken without
        a name: the properties of the class as published, those of its base, and so on."""
        out = []
        for c in self.chain:
            if c.name == 'Element':
                out.append('UUID')
                continue
            own = [a.name for a in c.attrs] + [r.name for r in c.refs]
            if c.root.name == 'CIM15' and c.name == 'EnergyConsumerPhase':
                own.insert(1, own.pop())
            if c.root.name == 'CIM15' and c.name == 'ACLineSegment':
                own.insert(-1, 'PerLengthImpedance')
            out += own
        return out


class Root(object):
    def __init__(self, name, d):
        self.name = name
        self.ns = NS[name[:5]]
        self.C = {n: Cls(self, n, e) for n, e in d.items()}
        for c in self.C.values():
            if c.base_name:
                c.base = self.C[c.base_name]
        for c in self.C.values():
            c.finish()
            for b in c.chain:
                b.subs.append(c)
        for c in self.C.values():
            c.subs.sort(key=lambda x: x.name)
            for r in c.refs:
                if r.inv_name:
                    r.inv = next(q for q in self.C[r.target].refs if q.name == r.inv_name)
        self.classes = [self.C[n] for n in sorted(self.C)]
        self.elements = [c for c in self.classes if c.element and c.name != 'Element']

    def targets(self, ref):
        """The classes whose instances a reference may hold."""
        return [c for c in self.C[ref.target].subs]

    def assocs(self):
        """Each two-way association once, as (ref, inverse ref)."""
        seen = set()
        for c in self.classes:
            for r in c.refs:
                if r.inv is not None and r.inv not in seen:
                    seen.add(r)
                    yield (r, r.inv)


_cache = {}


def load():
    if not _cache:
        d = json.load(open(PATH))
        for n in sorted(d):
            _cache[n] = Root(n, d[n])
    return _cache
