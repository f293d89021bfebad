"""Builds spec/spec.json: the published CIM model, as the checks use it.

Run once, against the pinned commit; the result is committed and is what the
checks compare the code with.  Source: the Ecore models shipped in Model/ (from
which the Python classes were once generated), plus the hand-made extensions of
the CIM15 package listed in EXTRA below.  The Python tables are read only to
record value types and default values, which the Ecore files do not state; each
is cross-checked against the Ecore type.
"""
import glob, importlib, json, os, sys
import xml.etree.ElementTree as ET
sys.dont_write_bytecode = True
REPO = '/repo'
sys.path.insert(0, REPO)
XSI = '{http://www.w3.org/2001/XMLSchema-instance}type'


def load(path):
    root = ET.parse(path).getroot()
    classes, dts = {}, {}

    def walk(p, pref):
        for c in p.findall('eClassifiers'):
            t = c.get(XSI)
            q = pref + '/' + c.get('name')
            if t == 'ecore:EClass':
                classes[q] = dict(sup=(c.get('eSuperTypes') or '').split(),
                                  f=[dict(s.attrib, kind=s.get(XSI)) for s in c.findall('eStructuralFeatures')])
            else:
                dts[q] = dict(kind=t, lits=[l.get('name') for l in c.findall('eLiterals')])
        for s in p.findall('eSubpackages'):
            walk(s, pref + '/' + s.get('name'))
    walk(root, '#/')
    return classes, dts


def cls(mod, base, attrs=(), refs=()):
    return dict(module=mod, base=base, attrs=list(attrs), refs=list(refs))


def ref(name, many, inv, target):
    return dict(name=name, many=many, inv=inv, target=target)


# Hand-made extensions of the full CIM15 package (not in Model/CIM15.ecore).
# ACLineSegment.PerLengthImpedance is left out: it is an alias of the impedance
# alternatives, which property M06 specifies on its own.
def extend_cim15(C):
    P = 'CIM15.IEC61970.'
    C['ACLineSegment']['refs'] += [ref('ACLineSegmentPhases', True, 'ACLineSegment', 'ACLineSegmentPhase'),
                                   ref('CurrentTemperatureCurves', True, 'ACLineSegments', 'CurrentTemperatureCurve')]
    C['TransformerEnd']['refs'] += [ref('BaseVoltage', False, 'TransformerEnd', 'BaseVoltage')]
    C['BaseVoltage']['refs'] += [ref('TransformerEnd', True, 'BaseVoltage', 'TransformerEnd')]
    C['Equipment']['refs'] += [ref('OperationalLimitSet', True, None, 'OperationalLimitSet')]


def main():
    spec = {}
    for p in sorted(glob.glob(REPO + '/Model/**/*.ecore', recursive=True)):
        pk = os.path.relpath(p, REPO + '/Model')[:-6].replace('/', '.')
        if pk in ('CIM14.CIM14', 'CIM15.CIM15'):
            pk = pk[:5]
        raw, dts = load(p)
        C = {}
        pre = pk.split('.')[1:]
        for path, c in raw.items():
            parts = path[3:].split('/')
            if pre and parts[:len(pre)] == pre:
                parts = parts[len(pre):]
            mod = pk + ''.join('.' + x for x in parts[:-1])
            name = parts[-1]
            if name in C:   # same class twice: keep the nested one
                print('dup', pk, path, C[name]['module'])
                if len(mod) < len(C[name]['module']):
                    continue
            byname = {f['name']: f for f in c['f']}
            k = getattr(importlib.import_module(mod), name)
            e = dict(module=mod, base=(c['sup'][0].split('/')[-1] if c['sup'] else None), attrs=[], refs=[])
            for f in c['f']:
                if f['kind'] == 'ecore:EAttribute':
                    et = f['eType']
                    t = k._attr_types[f['name']].__name__
                    d = dts.get(et)
                    a = dict(name=f['name'], type=t, default=k._defaults[f['name']])
                    if d and d['kind'] == 'ecore:EEnum':
                        a['enum'] = et.split('/')[-1]
                        a['literals'] = d['lits']
                    else:
                        want = {'EString': 'str', 'EDate': 'str', 'EFloat': 'float', 'EBoolean': 'bool',
                                'EInt': 'int', 'EShort': 'int'}.get(et.split('/')[-1]) if et.startswith('ecore') else None
                        if want and want != t:
                            print('type', pk, name, f['name'], want, t)
                        if a['default'] != {'str': '', 'float': 0.0, 'bool': False, 'int': 0}[t]:
                            print('default', pk, name, a)
                    e['attrs'].append(a)
                else:
                    if '-' in f['name']:
                        continue
                    opp = f.get('eOpposite')
                    e['refs'].append(ref(f['name'], f.get('upperBound') not in (None, '1'),
                                         opp.split('/')[-1] if opp else None,
                                         f['eType'].split('/')[-1]))
            C[name] = e
        if pk == 'CIM15':
            extend_cim15(C)
            pm = importlib.import_module('CIM15').packageMap
            for n in ('ACLineSegmentPhase', 'CheckPoint', 'CurrentTemperatureCurve', 'VoltageCheckPoint', 'VoltageTimeCurve'):
                k = getattr(importlib.import_module(pm[n]), n)
                e = dict(module=pm[n], base=k.__bases__[0].__name__, attrs=[], refs=[])
                for a in k._attrs:
                    x = dict(name=a, type=k._attr_types[a].__name__, default=k._defaults[a])
                    if a in k._enums:
                        x['enum'] = k._enums[a]
                        x['literals'] = []
                    e['attrs'].append(x)
                for r in k._refs:
                    e['refs'].append(ref(r, r in k._many_refs, '?', '?'))
                C[n] = e
            k = getattr(importlib.import_module(pm['EnergyConsumerPhase']), 'EnergyConsumerPhase')
            have = {a['name'] for a in C['EnergyConsumerPhase']['attrs']}
            for a in k._attrs:
                if a not in have:
                    x = dict(name=a, type=k._attr_types[a].__name__, default=k._defaults[a])
                    if a in k._enums:
                        x['enum'] = k._enums[a]
                        x['literals'] = []
                    C['EnergyConsumerPhase']['attrs'].append(x)
        for n, e in C.items():
            q, chain = n, []
            while q:
                chain.append(q)
                q = C[q]['base']
            e['element'] = chain[-1] == 'Element'
        # fix the unknown inverses of the hand-made classes
        spec[pk] = C
    C = spec['CIM15']
    lits = {}
    for root in spec.values():
        for e in root.values():
            for a in e['attrs']:
                if a.get('literals'):
                    lits.setdefault(a['enum'], a['literals'])
    for n, e in C.items():
        for a in e['attrs']:
            if a.get('enum') and not a['literals']:
                a['literals'] = lits.get(a['enum'], [])
                if not a['literals']:
                    print('no literals', n, a)
        for r in e['refs']:
            if r['inv'] == '?' and 0:
                pass
    fix = {('CheckPoint', 'Equipment'): (None, 'Equipment'),
           ('VoltageCheckPoint', 'LowerLimitsCurve'): (None, 'Curve'),
           ('VoltageCheckPoint', 'UpperLimitsCurve'): (None, 'Curve'),
           ('VoltageCheckPoint', 'VoltageLimitSet'): (None, 'OperationalLimitSet'),
           ('CurrentTemperatureCurve', 'ACLineSegments'): ('CurrentTemperatureCurves', 'ACLineSegment'),
           ('ACLineSegmentPhase', 'ACLineSegment'): ('ACLineSegmentPhases', 'ACLineSegment')}
    for (n, r), (inv, t) in fix.items():
        for x in C[n]['refs']:
            if x['name'] == r:
                x['inv'], x['target'] = inv, t
    json.dump(spec, open('/verif/spec/spec.json', 'w'), indent=0, sort_keys=True)


main()
