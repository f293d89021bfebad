"""Running a check: seeds, budgets, evidence, verdicts.

A check is a module pv/checks/<id>.py with

    def run(ctx): ...

It drives the code in /repo and calls ctx.count(...) for what its monitors
observed and ctx.violation(...) for what they refuted.  Verdicts are
three-valued: exit 0 (held on what was observed), 1 (violated, with a replay
file), 2 (inconclusive: the deciding monitor was not reached often enough, a
watchdog fired, or the harness itself failed).
"""
import collections
import importlib
import json
import logging
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYCIM_REPO', '/repo')
EVIDENCE = os.environ.get('PV_EVIDENCE', os.path.join(VERIF, 'evidence'))
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
MAXV = 20


def setup_path():
    if not os.environ.get('PV_BYTECODE'):
        sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.environ.get('PV_WARNINGS'):
        warnings.simplefilter('ignore')
    # The library logs to module loggers; keep that off the terminal.
    logging.getLogger().addHandler(logging.NullHandler())
    logging.lastResort = None


class Violation(Exception):
    """Raised inside a case to report what a monitor refuted."""
    def __init__(self, what, key=None, **detail):
        Exception.__init__(self, what)
        self.what, self.key, self.detail = what, key, detail


def in_repo(tb):
    places = (REPO + os.sep, os.environ.get('PV_ALSO', REPO) + os.sep)
    return any(f.filename.startswith(places) for f in traceback.extract_tb(tb))


def known_findings(prop):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                assert rest.startswith('key='), line
                key, what = rest[4:].split(' ', 1)
                out[key] = what
    return out


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.counts = collections.Counter()
        self.sets = collections.defaultdict(set)    # name -> distinct things seen
        self.samples = []
        self.violations = []
        self.findings_hit = {}
        self.known = known_findings(prop)
        self.rule = ''
        self.require = {}
        self.notes = {}
        self.assumptions = []
        self.t0 = time.time()
        self._tmp = None
        self._owner = os.getpid()

    # -- randomness ---------------------------------------------------------
    def rng(self, *salt):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, '/'.join(map(str, salt))))

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    # -- observation --------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, name, thing):
        s = self.sets[name]
        s.add(thing if isinstance(thing, int) or isinstance(thing, str) and len(thing) < 60 else hash(thing))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def need(self, name, n=1):
        """The counter that must reach n, or the run is inconclusive."""
        self.require[name] = n

    # -- verdicts -----------------------------------------------------------
    def violation(self, what, key=None, **detail):
        if key is not None and key in self.known:
            self.findings_hit[key] = what
            return
        if len(self.violations) < MAXV:
            self.violations.append(dict(what=what, key=key, detail=detail))
        self.counts['violations'] += 1

    def full(self):
        return len(self.violations) >= MAXV

    def case(self, desc, fn, *args, **kw):
        """Runs one case; an unexpected exception in it is a violation too."""
        try:
            return fn(*args, **kw)
        except Violation as v:
            d = dict(v.detail)
            d['case'] = desc
            self.violation(v.what, key=v.key, **d)
        except (KeyboardInterrupt, MemoryError, SystemExit):
            raise
        except Exception as e:
            tb = sys.exc_info()[2]
            self.violation('unexpected %s: %s' % (type(e).__name__, str(e)[:300]), case=desc,
                           traceback=traceback.format_exc()[-2000:], in_repo=in_repo(tb))
        return None

    # -- parallel work ------------------------------------------------------
    def pmap(self, fn, items, procs=None, chunk=None):
        """fn(ctx, item) for each item, in forked workers; counters are merged."""
        items = list(items)
        procs = min(procs or os.cpu_count() or 1, 8, max(1, len(items)))
        if procs <= 1 or os.environ.get('PV_SERIAL'):
            for it in items:
                fn(self, it)
            return
        parts = [items[i::procs] for i in range(procs)]
        pipes = []
        for part in parts:
            r, w = multiprocessing.Pipe(False)
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    r.close()
                    sub = Ctx(self.prop, self.tier, self.seed)
                    sub.known = self.known
                    try:
                        for it in part:
                            if sub.full():
                                break
                            fn(sub, it)
                        err = None
                    except BaseException:
                        err = traceback.format_exc()
                    w.send((dict(sub.counts), dict(sub.sets), sub.samples, sub.violations, sub.findings_hit, err))
                    w.close()
                except BaseException:
                    rc = 1
                finally:
                    sub_clean(sub)
                    os._exit(rc)
            w.close()
            pipes.append((pid, r))
        errs = []
        for pid, r in pipes:
            try:
                c, s, sm, v, fh, err = r.recv()
                self.counts.update(c)
                for k, x in s.items():
                    self.sets[k] |= x
                for x in sm:
                    self.sample(x)
                self.violations.extend(v[:max(0, MAXV - len(self.violations))])
                self.findings_hit.update(fh)
                if err:
                    errs.append(err)
            except EOFError:
                errs.append('worker %d died' % pid)
            os.waitpid(pid, 0)
        if errs:
            raise RuntimeError('worker failed:\n' + errs[0])

    # -- scratch space ------------------------------------------------------
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='pycim-pv-')
        return self._tmp


def sub_clean(ctx):
    if ctx._tmp and ctx._owner == os.getpid():
        shutil.rmtree(ctx._tmp, ignore_errors=True)
        ctx._tmp = None


def evidence(ctx, outcome):
    cov = {'evaluations': int(ctx.counts.get('evaluations', 0)),
           'distinct_nontrivial': len(ctx.sets.get('nontrivial', ())),
           'rule': ctx.rule,
           'samples': ctx.samples}
    for k in sorted(ctx.counts):
        if k not in ('evaluations', 'violations'):
            cov['n_' + k] = int(ctx.counts[k])
    for k in sorted(ctx.sets):
        if k != 'nontrivial':
            cov['distinct_' + k] = len(ctx.sets[k])
    cov.update(ctx.notes)
    cov['outcome'] = outcome
    e = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'exploration',
         'coverage': cov, 'assumptions': ctx.assumptions,
         'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(ctx.violations)}
    os.makedirs(EVIDENCE, exist_ok=True)
    p = os.path.join(EVIDENCE, ctx.prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(e, f, indent=1, default=str)
        f.write('\n')
    os.replace(p + '.tmp', p)


def main(argv):
    setup_path()
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(prop, tier, seed)
    mod = importlib.import_module('pv.checks.' + prop)

    def watchdog(*a):
        sys.stdout.write('INCONCLUSIVE property=%s watchdog\n' % prop)
        sys.stdout.flush()
        try:
            evidence(ctx, 'inconclusive')
        finally:
            os.killpg(0, signal.SIGKILL) if os.getpgrp() == os.getpid() else os._exit(2)
    signal.signal(signal.SIGALRM, watchdog)
    signal.alarm(840 if ctx.quick else int(os.environ.get('PV_THOROUGH_MAX', '6000')))
    failed = None
    rdir = os.path.join(EVIDENCE, 'replay')
    for f in os.listdir(rdir) if os.path.isdir(rdir) else ():
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    try:
        mod.run(ctx)
    except Violation as v:
        ctx.violation(v.what, key=v.key, **v.detail)
    except Exception:
        tb = sys.exc_info()[2]
        failed = traceback.format_exc()
        if in_repo(tb):     # the code under test raised where it must not
            ctx.violation('unexpected exception: ' + failed.strip().splitlines()[-1], traceback=failed[-3000:])
            failed = None
    finally:
        if os.getpid() == ctx._owner:
            sub_clean(ctx)
    signal.alarm(0)
    rc = 0
    short = {k: (ctx.counts.get(k, 0) + len(ctx.sets.get(k, ())), n) for k, n in ctx.require.items()
             if ctx.counts.get(k, 0) + len(ctx.sets.get(k, ())) < n}
    if ctx.violations:
        rc = 1
    elif failed or short:
        rc = 2
    evidence(ctx, {0: 'held', 1: 'violated', 2: 'inconclusive'}[rc])
    for key in sorted(ctx.findings_hit):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, ctx.known[key]))
    if failed:
        sys.stderr.write(failed)
    if rc == 1:
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(ctx.violations[:3]):
            p = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, command='VERIF_SEED=%d bin/check %s %s' % (seed, prop, tier),
                               **v), f, indent=1, default=repr)
                f.write('\n')
            print('  %s' % v['what'][:500])
            print('VIOLATION property=%s replay=%s' % (prop, p))
    elif rc == 2:
        print('INCONCLUSIVE property=%s %s' % (prop, 'monitors short of %r' % short if short else 'harness error'))
    else:
        print('HELD property=%s tier=%s seed=%d %s wall=%.1fs' % (
            prop, tier, seed, ' '.join('%s=%d' % (k, v) for k, v in sorted(ctx.counts.items()))[:400], time.time() - ctx.t0))
    sys.stdout.flush()
    return rc
