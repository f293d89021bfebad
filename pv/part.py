"""A small part of other checks, in this interpreter: python part.py OUT SEED SHARE SECONDS CHECK...

What the interpreter and the process are like is the caller's choice (see
checks/E01.py).  Every check judges by its own oracle.
"""
import importlib
import json
import os
import sys
import time
import traceback

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pv.core import Ctx, Violation, in_repo, setup_path, sub_clean


class Part(Ctx):
    """Of many cases a few, one after the other in this process."""
    share = 0.01

    def size(self, quick, thorough):
        return quick

    def case(self, desc, fn, *args, **kw):
        # what starts processes of its own settings is left out
        if desc not in ('environments', 'processes'):
            return Ctx.case(self, desc, fn, *args, **kw)

    def pmap(self, fn, items, procs=None, chunk=None):
        items = list(items)
        r = self.rng('part', len(items))
        n = max(2, int(len(items) * self.share))
        end = time.monotonic() + self.most
        for it in r.sample(items, min(n, len(items))):
            if self.full() or time.monotonic() > end:
                break
            fn(self, it)
            self.count('cases')


def part(prop, seed, share, most=1.0):
    ctx = Part(prop, 'quick', seed)
    ctx.share, ctx.most = share, most
    failed = None
    try:
        importlib.import_module('pv.checks.' + prop).run(ctx)
    except Violation as v:
        ctx.violation(v.what, key=v.key, **v.detail)
    except Exception:
        failed = traceback.format_exc()
        if in_repo(sys.exc_info()[2]):
            ctx.violation('unexpected exception: ' + failed.strip().splitlines()[-1], traceback=failed[-3000:])
            failed = None
    finally:
        sub_clean(ctx)
    return {'prop': prop, 'violations': [dict(v, detail=repr(v['detail'])[:3000]) for v in ctx.violations[:3]], 'failed': failed,
            'counts': dict(ctx.counts), 'known': sorted(ctx.findings_hit), 'seconds': time.time() - ctx.t0}


def main(argv):
    out, seed, share, most, props = argv[1], int(argv[2]), float(argv[3]), float(argv[4]), argv[5:]
    setup_path()
    with open(out, 'w', encoding='utf-8') as f:
        for p in props:
            f.write(json.dumps(part(p, seed, share, most)) + '\n')
            f.flush()
        import PyCIM
        f.write(json.dumps({'prop': None, 'library': PyCIM.__file__}) + '\n')


if __name__ == '__main__':
    main(sys.argv)
