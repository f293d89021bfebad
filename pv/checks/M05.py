"""Every published class is reachable, whatever is loaded first."""
import importlib
import io
import os
from .. import spec, forked
from ..core import REPO, Violation


def modules():
    out = []
    for top in ('CIM14', 'CIM15', 'PyCIM'):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ('Test', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel.pop()
                    out.append('.'.join(rel))
    return out


def imp(names):
    """In a clean child: import these, in this order; say what loaded."""
    bad = []
    for n in names:
        importlib.import_module(n)
    import sys
    return sum(1 for m in sys.modules if m.startswith(('CIM14', 'CIM15')))


def resolve(root, name, module, chain):
    """In a clean child: the class as the package map of its profile gives it."""
    pm = importlib.import_module(root).packageMap
    if name not in pm:
        return 'missing from the package map'
    mod = importlib.import_module(pm[name])
    k = getattr(mod, name, None)
    if not isinstance(k, type):
        return 'not found in %s' % pm[name]
    if pm[name] != module:
        return 'is mapped to %s, published in %s' % (pm[name], module)
    got = [c.__name__ for c in k.__mro__ if c is not object]
    if got != chain:
        return 'derives from %s, published %s' % (got, chain)
    if any(c.__module__.split('.')[0] != root.split('.')[0] or not c.__module__.startswith(root + '.')
           for c in k.__mro__ if c is not object):
        return 'mixes profiles: %s' % [c.__module__ for c in k.__mro__]
    return None


def read_first(root, name, chain):
    """In a clean child: a document whose first element is of this class."""
    from PyCIM import cimread
    pkg = importlib.import_module(root)
    doc = ('<?xml version="1.0"?><rdf:RDF xmlns:rdf="%s" xmlns:cim="%s#"><cim:%s rdf:ID="_1"/></rdf:RDF>'
           % (spec.RDF, spec.NS[root[:5]], name))
    if '.' in root:
        d = cimread(io.BytesIO(doc.encode()), pkg.packageMap, spec.NS[root[:5]])
    else:
        d = cimread(io.BytesIO(doc.encode()))
    if list(d) != ['_1']:
        return 'read as %r' % (d,)
    k = type(d['_1'])
    if [c.__name__ for c in k.__mro__ if c is not object] != chain or not k.__module__.startswith(root + '.'):
        return 'read as %s.%s' % (k.__module__, k.__name__)
    return None


def check(ctx, what, res, key=None):
    kind, val = res
    ctx.count('evaluations')
    ctx.count('clean_processes')
    if kind != 'ok':
        ctx.violation('%s fails: %s' % (what, str(val).strip().splitlines()[-1][:300]), key=key, detail=str(val)[-1500:])
    elif isinstance(val, str):
        ctx.violation('%s: %s' % (what, val), key=key)
    return kind == 'ok' and val is None


def run(ctx):
    ctx.rule = ('one case = a process that has loaded nothing of the code and then (a) imports one module first, '
                '(b) imports modules in a seeded random order, (c) resolves one published class through the '
                'package map of its profile, or (d) reads a document whose first element is of that class; '
                'non-trivial = the outcome was compared with the published model; distinct = by module or class')
    mods = modules()
    roots = spec.load()
    items = [('import', m) for m in mods]
    # module files named after the published classes
    items += [('import', c.module + '.' + c.name) for r in roots.values() for c in r.classes
              if c.module + '.' + c.name not in set(mods)]
    for r in roots.values():
        for c in r.classes:
            items.append(('resolve', r.name, c.name))
            if c.element:
                items.append(('read', r.name, c.name))
    rng = ctx.rng('orders')
    for i in range(ctx.size(60, 1500)):
        items.append(('order', i, rng.sample(mods, 8)))
    rng.shuffle(items)

    def one(sub, it):
        if it[0] == 'import':
            check(sub, 'importing %s first' % it[1], forked.run(imp, [it[1]]))
            sub.seen('modules', it[1])
            sub.seen('nontrivial', it[1])
        elif it[0] == 'order':
            check(sub, 'importing %s in this order' % (it[2],), forked.run(imp, it[2]))
            sub.seen('import_orders', tuple(it[2]))
        else:
            root = roots[it[1]]
            c = root.C[it[2]]
            chain = [x.name for x in c.chain]
            if it[0] == 'resolve':
                check(sub, 'class %s' % c, forked.run(resolve, root.name, c.name, c.module, chain))
                sub.seen('classes_resolved', repr(c))
            else:
                check(sub, 'document starting with %s' % c, forked.run(read_first, root.name, c.name, chain))
                sub.seen('classes_read_first', repr(c))
            sub.seen('nontrivial', it[:3])
    ctx.pmap(one, items)
    ctx.sample({'first_import': mods[0], 'random_order': next(it[2] for it in items if it[0] == 'order')})
    ctx.notes['modules_in_tree'] = len(mods)
    ctx.need('modules', int(len(mods) * 0.95) if not ctx.violations else 1)
    ctx.need('classes_resolved', 1600 if not ctx.violations else 1)
