"""Probes for the known findings that have a mechanism of their own.

Eight CIM15 classes re-declare a reference list that a base class already
publishes under the same name.  The two associations share the name and the
storage, so a list given to the constructor is lost and a link stated through
the other end of the base association shows up in the list of the derived one.
Everything else about these classes is exercised by the general histories.
"""
from .. import spec
from ..world import pyclass, usable


def shadowed(ctx, kinds):
    roots = spec.load()
    for root in roots.values():
        for c in root.elements:
            for name in sorted(c.shadow):
                own = c.by_ref[name]
                if own.kind not in kinds:
                    continue
                base = next(r for r in c.all_refs if r.name == name and r is not own)
                key = 'shadowed:%s.%s' % (c, name)
                target = pyclass(root.C[own.target])
                x = target(UUID='x')
                o = pyclass(c)(UUID='o', **{name: [x]})
                ctx.count('shadowed_probes')
                if [id(v) for v in getattr(o, name)] != [id(x)]:
                    ctx.violation('%r: the list given to the constructor as %s is %r' % (c, name, getattr(o, name)), key=key + ':constructor')
                o, x = pyclass(c)(UUID='o'), target(UUID='x')
                if base.inv.many:
                    getattr(x, 'add' + base.inv.name)(o)
                else:
                    setattr(x, base.inv.name, o)
                back = getattr(x, own.inv.name)
                consistent = (o in back) if own.inv.many else back is o
                if (x in getattr(o, name)) != consistent:
                    ctx.violation('%r: linked as %s, %s holds the object but %s does not' % (c, base.inv.name, name, own.inv.name), key=key + ':storage')
