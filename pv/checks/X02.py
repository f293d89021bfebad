"""The writer keeps elements properly nested and refuses calls that would not."""
import io
import xml.etree.ElementTree as ET
from ..core import Violation
from .X01 import NS, TAGS, Session, match


def tokens(text):
    """(kind, name) for each tag in the text so far."""
    import re
    return [(m.group(1), m.group(2)) for m in re.finditer(r'<(/?)([A-Za-z_][^\s/>]*)', text)]


def depth(out):
    return out.getvalue().count('<')


def one(ctx, i):
    rng = ctx.rng(i)
    out = io.StringIO()
    s = Session(rng, out, rng.choice([None, 'utf-8']))
    refused = 0

    def refuse(what, f, *a):
        before, stack = out.getvalue(), list(s.open)
        s.note('wrong', what)
        try:
            f(*a)
        except Exception:
            pass
        else:
            raise Violation('%s is accepted with %r open' % (what, [e.tag for e, _ in stack]), calls=repr(s.log)[-1500:])
        if out.getvalue() != before:
            raise Violation('%s was refused but wrote %r' % (what, out.getvalue()[len(before):]), calls=repr(s.log)[-1500:])

    try:
        if rng.random() < 0.5:
            refuse('end() before any start', s.w.end)
            refuse('end("a") before any start', s.w.end, u'a')
            refused += 2
        s.w.close(0)
        if out.getvalue():
            raise Violation('close(0) before any start wrote %r' % out.getvalue())
        root = s.start(decl=True)
        if rng.random() < 0.02:     # far down
            for _ in range(rng.choice([30, 120, 500])):
                s.start(rng.choice(TAGS[:4]))
            ctx.count('deep')
        for _ in range(rng.choice([2, 10, 40])):
            k = rng.random()
            if k < 0.35:
                ident = s.start()
                if ident in [x for _, x in s.open[:-1]]:
                    raise Violation('two open elements have the identifier %r' % (ident,))
            elif k < 0.5:
                rng.choice([s.data, s.element])()
            elif k < 0.65 and len(s.open) > 1:
                s.end()
            elif k < 0.8:
                # the name of another element, open further out, below, or never
                wrong = rng.choice([t for t in TAGS + [u'never', s.open[0][0].tag + u'x'] if t != s.open[-1][0].tag])
                refuse('end(%r)' % wrong, s.w.end, wrong)
                refused += 1
            elif len(s.open) > 1:
                j = rng.randrange(1, len(s.open))
                ids = [x for _, x in s.open]
                n = len(s.open)
                s.note('close', ids[j])
                s.w.close(ids[j])
                del s.open[j:]
                ctx.count('closes')
                if j + 1 < n or rng.random() < 0.5:
                    # already closed: nothing to do
                    before = out.getvalue()
                    s.w.close(ids[-1])
                    if out.getvalue() != before:
                        raise Violation('closing a closed element wrote %r' % out.getvalue()[len(before):])
        s.note('close root')
        s.w.close(root)
        after = out.getvalue()
        refuse('end() after the root element', s.w.end)
        refused += 1
        s.w.flush()
        if out.getvalue() != after:
            raise Violation('flush wrote content')
        try:
            top = ET.fromstring(out.getvalue())
        except ET.ParseError as e:
            raise Violation('the output is not well-formed: %s' % e)
        match(s.top, top)
    except Violation as v:
        v.detail.update(calls=repr(s.log)[-2500:], output=out.getvalue()[-1500:])
        raise
    ctx.count('evaluations')
    ctx.count('refused', refused)
    ctx.seen('nontrivial', out.getvalue())
    if i < 2:
        ctx.sample({'calls': repr(s.log)[:500]})


def two(ctx, i):
    """Writers do not share state."""
    rng = ctx.rng('two', i)
    outs = [io.StringIO() for _ in range(3)]
    ss = [Session(rng, o, 'utf-8') for o in outs]
    for s in ss:
        s.start(decl=True)
    for _ in range(60):
        s = rng.choice(ss)
        op = rng.choice([s.start, s.element, s.data, s.end])
        if op == s.end and len(s.open) < 2:
            continue
        op()
    rng.shuffle(ss)
    for s in ss:
        s.w.close(s.open[0][1])
    for s, o in [(s, o) for s in ss for o in outs]:
        pass
    for o in outs:
        top = ET.fromstring(o.getvalue())
        if not any(matches(s.top, top) for s in ss):
            raise Violation('interleaved writers disturb one another', output=o.getvalue()[:2000])
    ctx.count('evaluations')
    ctx.count('interleaved')


def matches(e, real):
    try:
        match(e, real)
        return True
    except Violation:
        return False


def run(ctx):
    ctx.rule = ('one case = a seeded sequence of writer calls with calls that cannot be right (end without an open element, end with '
                'another name, after the root) interspersed: each must be refused without output, and the document completed '
                'afterwards must hold exactly the other calls; close(identifier) must end exactly that element and what is inside; '
                'several writers used in turn; non-trivial = completed; distinct = by output')
    n = ctx.size(30000, 200000)
    ctx.pmap(lambda sub, i: sub.case('session %d' % i, one, sub, i), range(n))
    ctx.pmap(lambda sub, i: sub.case('interleaved %d' % i, two, sub, i), range(n // 20))
    ok = not ctx.violations
    ctx.need('refused', n if ok else 0)
    ctx.need('closes', n // 4 if ok else 0)
    ctx.need('deep', n // 100 if ok else 0)
    ctx.need('interleaved', 10 if ok else 0)
