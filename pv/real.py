"""An independent reading of RDF/XML documents by the published model alone.

Used for documents that were not generated here (the utility data sets that
come with the repository) and for what the writer produced.
"""
import xml.etree.ElementTree as ET

from . import spec
from .core import REPO
from .world import Obj, World, usable

DATA = REPO + '/PyCIM/Test/Data/'
FILES = [('EDF_AIGUE_v9.xml', 'CIM14'), ('EDF_AIGUE_v9_ASSET.xml', 'CIM15'), ('EDF_AIGUE_v9_CONN.xml', 'CIM15'),
         ('EDF_AIGUE_v9_EQUIP.xml', 'CIM15'), ('EDF_AIGUE_v9_GEO.xml', 'CIM15'), ('EDF_AIGUE_v9_COMBINED.xml', 'CIM15')]
R = '{%s}' % spec.RDF


def convert(a, text):
    text = text or ''
    if a.type == 'float':
        return float(text)
    if a.type == 'int':
        return int(text)
    if a.type == 'bool':
        return text.strip().lower() in ('true', '1')
    return text


class Reading(object):
    def __init__(self, root, ctx):
        self.root = root
        self.w = World(root, ctx, None)
        self.by_id = {}
        self.skipped = []       # what the published model does not know

    def add(self, data, ns=None):
        """One more document (bytes): first the objects, then what is said of them."""
        cim = '{%s#}' % (ns or self.root.ns)
        top = ET.fromstring(data)
        todo = []
        for e in top:
            if not e.tag.startswith(cim):
                self.skipped.append(e.tag)
                continue
            ident = e.get(R + 'ID')
            if ident is None:
                ident = (e.get(R + 'about') or '#')[1:]
            c = self.root.C.get(e.tag[len(cim):])
            if c is None or not ident:
                self.skipped.append(e.tag)
                continue
            if ident not in self.by_id:
                o = self.by_id[ident] = Obj(c, None, ident)
                self.w.objs.append(o)
            todo.append((self.by_id[ident], e))
        for o, e in todo:
            for s in e:
                if not s.tag.startswith(cim):
                    self.skipped.append(s.tag)
                    continue
                name = s.tag[len(cim):].rsplit('.', 1)[-1]
                res = s.get(R + 'resource')
                r = o.cls.by_ref.get(name)
                a = o.cls.by_attr.get(name)
                if res is not None and res.startswith('#'):
                    v = self.by_id.get(res[1:])
                    if r is None or v is None:
                        self.skipped.append(s.tag)
                    elif r.inv is None and r.many:
                        o.many[name] = o.many[name] + [v]
                    else:
                        self.w.m_link(o, r, v)
                elif a is None:
                    self.skipped.append(s.tag)
                elif res is not None:
                    o.attrs[name] = res.rsplit('.', 1)[1]
                elif len(s) == 0:
                    o.attrs[name] = convert(a, s.text)
        return self
