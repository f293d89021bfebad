"""Text survives in every supported encoding, whatever the environment."""
import hashlib
import io
import json
import os
import subprocess
import sys
from .. import spec
from ..core import Violation, Ctx, setup_path, REPO, VERIF
from ..docs import Content, compare, excerpt, realize, reader_args, one_sided
from .W02 import judge

ENCODINGS = ['utf-8', 'us-ascii', 'iso-8859-1', 'utf-16', 'windows-1252', 'iso-8859-15', 'UTF-8', 'US-ASCII', 'koi8-r']
ENVS = [{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.UTF-8'}, {'PYTHONUTF8': '1'},
        {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'ascii:strict'},
        {'LANG': 'de_DE.ISO-8859-1', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'Asia/Kolkata', 'PYTHONOPTIMIZE': '1'}]
ALPHABETS = [u'abc \u00e9\u00fc\u00df', u'\u0416\u0443\u043a\u0438', u'\u6f22\u5b57\u4eee\u540d', u'\U0001F600\U00010348', u'\u20ac\u2122\u201c',
             u'&<>"\']]>', u' \t\n\r', u'\u00a0\u2028\u0085\u200b', u'e\u0301\u1100\u1161', u'\ufffd\ufeff\ue000', u'&amp;&#65;&lt;', u'\x7f\x80\x9f']

PIECES = [u'&#65;', u'&#x41;', u'&amp;', u'&lt;', u'&quot;', u'&apos;', u'&#13;', u'&#10;', u'&unknown;', u'&', u'&&', u'&#;', u'<![CDATA[', u']]>', u'<!--', u'-->',
          u'<?pi?>', u'%41', u'\\u0041', u'\\n', u'\r\n', u'\n\n', u'  ', u'${x}', u'%s', u'{0}', u'&#128512;', u'&#233;']


def text(rng):
    return u''.join(rng.choice(PIECES) if rng.random() < 0.15 else rng.choice(rng.choice(ALPHABETS)) for _ in range(rng.randint(1, 12)))


def model(ctx, root, rng, n):
    fmt = rng.choice([u'_%d', u'\u00e9_%d', u'\u6f22%d', u'\U0001F600-%d', u'a&b<%d>', u'"%d\'', u' %d', u'a\tb\nc%d'])
    c = Content(root, ctx, rng).populate(n, fmt=fmt, links=1.5)
    for node in c.nodes:
        for a in node.cls.all_attrs:
            a = node.cls.by_attr[a.name]
            if a.type == 'str' and not a.enum:
                node.obj.attrs[a.name] = text(rng)
                ctx.count('strings')
    return c, realize(c)


def one(ctx, root, i):
    from PyCIM import cimread, cimwrite
    rng = ctx.rng(root.name, i)
    c, d = model(ctx, root, rng, rng.choice([1, 3, 8]))
    less, lost = one_sided(c.w.objs)
    for enc in ENCODINGS:
        k = rng.choice(['path', 'path', 'text file', 'memory', 'newlines'])
        path = os.path.join(ctx.tmp(), 'e.xml')
        if k == 'memory':
            out = io.StringIO()
            ok = cimwrite(d, out, enc)
            data = out.getvalue()
            got = cimread(io.StringIO(data), *reader_args(root))
            judged = None
        else:
            if k == 'path':
                ok = cimwrite(d, path, enc)
            else:
                with open(path, 'w', encoding=enc, errors='xmlcharrefreplace', newline='\r\n' if k == 'newlines' else '') as f:
                    ok = cimwrite(d, f, enc)
            with open(path, 'rb') as f:
                data = judged = f.read()
            got = cimread(path, *reader_args(root))
        try:
            if ok is not True:
                raise Violation('writing returned %r' % (ok,))
            if judged is not None:
                judge(ctx, root, c.w.objs, judged)
                if enc.lower() == 'us-ascii' and any(b > 127 for b in judged):
                    raise Violation('a us-ascii document holds other characters')
            try:
                compare(ctx, root, less, got)
            except Violation:
                compare(ctx, root, c.w.objs, got)
        except Violation as v:
            v.detail.update(encoding=enc, target=k, document=repr(data)[:1500])
            raise
        except Exception as e:
            raise Violation('%s as %s: %s: %s' % (k, enc, type(e).__name__, e), document=repr(data)[:1500])
        ctx.count('evaluations')
        ctx.seen('encodings', enc)
        ctx.seen('nontrivial', hashlib.md5(repr(data).encode()).hexdigest())
    if i == 0:
        ctx.sample({'root': root.name, 'strings': [v for v in c.nodes[0].obj.attrs.values() if isinstance(v, str)][:4]})


def child(seed, lo, hi):
    """In a process of its own, with an environment of its own."""
    setup_path()
    ctx = Ctx('W05', 'quick', seed)
    ctx.known = {}
    roots = spec.load()
    digests = []
    for i in range(lo, hi):
        name = sorted(roots)[i % len(roots)]
        ctx.case('environment %d %s' % (i, name), one, ctx, roots[name], 100000 + i)
    # what is written by path is the same in every environment
    from PyCIM import cimwrite
    for i in range(lo, hi):
        root = roots[sorted(roots)[i % len(roots)]]
        c, d = model(ctx, root, ctx.rng('bytes', i), 4)
        for enc in ENCODINGS:
            path = os.path.join(ctx.tmp(), 'b.xml')
            cimwrite(d, path, enc)
            with open(path, 'rb') as f:
                digests.append(hashlib.md5(f.read()).hexdigest())
    from ..core import sub_clean
    sub_clean(ctx)
    sys.stdout.write(json.dumps([dict(ctx.counts), [v['what'] + ' ' + repr(v['detail'])[:1500] for v in ctx.violations], digests]))


def environments(ctx):
    k = ctx.size(10, 60)
    procs = []
    for j, e in enumerate(ENVS):
        env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG'))}
        env.update(e, PYCIM_REPO=REPO, PYTHONPATH=VERIF)
        procs.append((e, subprocess.Popen([sys.executable, '-B', '-c', 'from pv.checks.W05 import child; child(%d, 0, %d)' % (ctx.seed, k)],
                                          env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    base = None
    for e, p in procs:
        o, err = p.communicate()
        if p.returncode:
            raise Violation('in the environment %r: %s' % (e, err.decode('utf-8', 'replace')[-800:]))
        counts, vs, digests = json.loads(o.decode('utf-8'))
        for v in vs:
            ctx.violation('in the environment %r: %s' % (e, v))
        if base is None:
            base = digests
        if digests != base:
            raise Violation('the bytes written depend on the environment %r' % e)
        ctx.count('environments')
        ctx.count('evaluations', counts.get('evaluations', 0))


def run(ctx):
    ctx.rule = ('one case = one seeded model whose texts and identifiers mix scripts, markup, white space and format characters, '
                'written in one of nine encodings (to a path, a text file with and without newline translation, or memory), judged '
                'statement by statement with the standard library and compared after reading back; also in processes with six '
                'different locale and Python settings, whose bytes must agree; non-trivial = compared; distinct = by document')
    ctx.assumptions = ['characters that XML 1.0 cannot express are not used']
    roots = spec.load()
    items = []
    for r in roots.values():
        items += [(r.name, i) for i in range(ctx.size(200 if '.' not in r.name else 40, 500 if '.' not in r.name else 80))]
    ctx.pmap(lambda sub, it: sub.case('%s %d' % it, one, sub, roots[it[0]], it[1]), items)
    ctx.case('environments', environments, ctx)
    ok = not ctx.violations
    ctx.need('encodings', len(ENCODINGS) if ok else 0)
    ctx.need('environments', len(ENVS) if ok else 0)
    ctx.need('strings', 2000 if ok else 0)
