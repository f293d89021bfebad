"""How the interpreter and the process are set up makes no difference."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import zipfile
from ..core import REPO, VERIF, Violation

# What is run in each setting: small parts of these checks, each with its own oracle.
CHECKS = ['M01', 'M02', 'M03', 'M04', 'M06', 'M08', 'M11', 'R01', 'R02', 'R03', 'R04', 'R05', 'R06', 'R07', 'R09', 'R10', 'R12',
          'W01', 'W02', 'W03', 'W04', 'W05', 'X01', 'X02', 'P01']

START = '''
import sys
sys.path.insert(0, %r)
def around(f): f()
%s
from pv.part import main
around(lambda: main(sys.argv))
'''

SMALL_STACK = '''
import threading
def around(f):
    threading.stack_size(256 * 1024)
    t = threading.Thread(target=f)
    t.start()
    t.join()
'''
EVENT_LOOP = '''
import asyncio
def around(f):
    async def g():
        f()
    asyncio.run(g())
'''
TRACE = '''
def around(f):
    def trace(frame, event, arg):
        return trace
    sys.settrace(trace)
    f()
'''
PROFILE = '''
def around(f):
    sys.setprofile(lambda *a: None)
    f()
'''
# Everything that is logged is formatted, and what cannot be is an error.
LOGGING = '''
import logging
class Formats(logging.Handler):
    def emit(self, record):
        self.format(record)
    def handleError(self, record):
        raise
logging.getLogger().addHandler(Formats())
logging.getLogger().setLevel(logging.DEBUG)
'''
LOW_LEVEL = '''
import logging
logging.getLogger().setLevel(1)
logging.logThreads = logging.logProcesses = logging.logMultiprocessing = False
logging.raiseExceptions = False
'''
NAMESPACES = '''
from xml.etree import ElementTree
ElementTree.register_namespace('cim', 'http://iec.ch/TC57/2010/CIM-schema-cim15#')
ElementTree.register_namespace('other', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#')
'''
CLOCK = '''
import time
now = [2e9]
def back():
    now[0] -= 3600
    return now[0]
time.time = back
'''
STOPPED = '''
import time
time.time = lambda: 1.5e9
'''
DIGITS = 'sys.set_int_max_str_digits(640)\n'


def settings(tmp):
    """name -> (interpreter options, environment, code run first, how the process is started, checks left out)"""
    S = {}

    def add(name, opts='', env=None, code='', start=None, but=(), clean=False, cwd=None, twice=False):
        S[name] = (opts.split(), env or {}, code, start, but, clean, cwd, twice)
    add('plain')
    add('optimised', '-O')
    add('without documentation', '-OO')
    add('development mode', '-X dev')
    add('warnings shown', '-W always', {'PV_WARNINGS': '1'})
    add('warnings are errors', '-W error -W ignore::ResourceWarning', {'PV_WARNINGS': '1'})
    add('warnings about encodings', '-X warn_default_encoding ' + ' '.join(
        '-W error::EncodingWarning:PyCIM.' + m for m in ('RDFXMLReader', 'RDFXMLWriter', 'SimpleXMLWriter', 'PrettyPrintXML')), {'PV_WARNINGS': '1'})
    add('warnings about bytes', '-bb')
    add('isolated', '-I')
    add('without site', '-S')
    add('hash seed 1', env={'PYTHONHASHSEED': '1'})
    add('hash seed random', env={'PYTHONHASHSEED': 'random'})
    # (no paths of other characters there)
    add('C locale', '-X utf8=0', {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0'}, but=('R05', 'W04'))
    add('UTF-8 mode', '-X utf8=1', {'LC_ALL': 'C'})
    add('ASCII streams', env={'PYTHONIOENCODING': 'ascii:strict', 'LANG': 'C'})
    add('empty environment', clean=True)
    add('cached bytecode', env={'PV_BYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(tmp, 'cache')}, twice=True)
    add('cached optimised bytecode', '-OO', {'PV_BYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(tmp, 'cache')}, twice=True)
    add('no standard streams', start='closed')
    add('no collector', code='import gc\ngc.disable()\n')
    add('eager collector', code='import gc\ngc.set_threshold(20, 2, 2)\n')
    add('all is logged', code=LOGGING)
    add('logging without details', code=LOW_LEVEL)
    add('traced', code=TRACE)
    add('profiled', code=PROFILE)
    add('thread with a small stack', code=SMALL_STACK)
    add('event loop', code=EVENT_LOOP)
    add('switching threads', code='sys.setswitchinterval(1e-6)\n')
    add('registered namespaces', code=NAMESPACES)
    add('clock set back', code=CLOCK)
    add('clock stopped', code=STOPPED)
    add('few digits', code=DIGITS)
    add('few descriptors', start='descriptors')
    add('closed umask', start='umask')
    add('root directory', cwd='/')
    add('directory that is gone', start='gone', but=('R05', 'W03'))     # no relative paths there
    add('time zone', env={'TZ': 'Asia/Kathmandu'})
    add('checked allocator', env={'PYTHONMALLOC': 'debug'})
    add('traced allocations', env={'PYTHONTRACEMALLOC': '1'})
    add('in an archive', env={'PV_ALSO': os.path.join(tmp, 'lib.zip')}, code='sys.path.insert(0, %r)\n' % REPO + 'sys.path.insert(0, %r)\n' % os.path.join(tmp, 'lib.zip'))
    add('installed', env={'PV_ALSO': os.path.join(tmp, 'installed')}, code='sys.path.insert(0, %r)\n' % REPO + 'sys.path.insert(0, %r)\n' % os.path.join(tmp, 'installed'))
    add('behind a link', env={'PYCIM_REPO': os.path.join(tmp, 'link')})
    add('in a path of many characters', env={'PYCIM_REPO': os.path.join(tmp, u'a b%20#\u00e9')})
    add('in the current directory', env={'PV_ALSO': ''}, cwd=REPO, code="sys.path.insert(0, '')\n")
    if os.getuid() == 0 and all_may_read():
        add('another user', start='user')
    return S


def all_may_read():
    """Whether another user gets at what is run."""
    paths = [sys.executable, os.path.join(REPO, 'PyCIM', 'Test', 'Data'), os.path.join(REPO, 'CIM15', '__init__.py'), os.path.join(VERIF, 'pv', 'checks')]
    for p in paths:
        while p != '/':
            need = 0o5 if os.path.isdir(p) else 0o4
            if os.stat(p).st_mode & need != need:
                return False
            p = os.path.dirname(p)
    return True


def archive(path):
    """The packages in one file."""
    with zipfile.ZipFile(path, 'w') as z:
        for top in ('PyCIM', 'CIM14', 'CIM15'):
            for at, dirs, files in os.walk(os.path.join(REPO, top)):
                for f in files:
                    if f.endswith('.py'):
                        p = os.path.join(at, f)
                        z.write(p, os.path.relpath(p, REPO))


def install(copy, to):
    """The packages as the set-up script gives them out."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'PV_', 'PYCIM'))}
    work = to + '.build'
    shutil.copytree(copy, work)
    p = subprocess.run([sys.executable, '-B', 'setup.py', '-q', 'build', '--build-base', to + '.base', '--build-lib', to],
                       cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or not os.path.isdir(os.path.join(to, 'PyCIM')):
        raise RuntimeError('the set-up script ended with %d: %s' % (p.returncode, p.stdout.decode('utf-8', 'replace')[-1500:]))
    for d in (work, to + '.base'):
        shutil.rmtree(d, ignore_errors=True)


def child(ctx, tmp, name, setting, seed, checks, share, most):
    opts, env, code, start, but, clean, cwd, twice = setting
    home = os.path.join(tmp, re.sub('[^a-z0-9]', '_', name.lower()) + str(seed))
    os.mkdir(home)
    os.chmod(home, 0o777)
    e = {} if clean else {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG', 'PV_'))}
    if not clean:
        e['PYTHONHASHSEED'] = '0'
        e['TMPDIR'] = home
    if REPO != '/repo':
        e['PYCIM_REPO'] = REPO
    e.update(env)
    gone = os.path.join(home, 'gone')

    def before():
        if start == 'closed':
            for fd in (0, 1, 2):
                os.close(fd)
        elif start == 'descriptors':
            resource.setrlimit(resource.RLIMIT_NOFILE, (32, 32))
        elif start == 'umask':
            os.umask(0o277)
        elif start == 'gone':
            os.mkdir(gone)
            os.chdir(gone)
            os.rmdir(gone)
        elif start == 'user':
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    checks = [c for c in checks if c not in but]
    for turn in range(2 if twice else 1):
        out = os.path.join(home, 'out%d' % turn)
        opt = opts if env.get('PV_BYTECODE') else ['-B'] + opts
        with open(os.path.join(home, 'err'), 'w+b') as err:
            p = subprocess.Popen([sys.executable] + opt + ['-c', START % (VERIF, code), out, str(seed), str(share), str(most)] + checks,
                                 env=e, cwd=cwd, preexec_fn=before, stdin=subprocess.DEVNULL, stdout=err, stderr=err)
            p.wait()
            err.seek(0)
            said = err.read().decode('utf-8', 'replace')
        lines = [json.loads(x) for x in open(out, encoding='utf-8')] if os.path.exists(out) else []
        for r in lines:
            if r['prop'] is None:
                want = env.get('PV_ALSO') or env.get('PYCIM_REPO') or REPO
                if os.path.abspath(r['library']) != os.path.join(want, 'PyCIM', '__init__.py'):
                    raise RuntimeError('%s: the library was %s' % (name, r['library']))
                break
            for v in r['violations']:
                ctx.violation('%s, %s: %s' % (name, r['prop'], v['what']), setting=name, check=r['prop'], case=v['detail'])
            if r['failed']:
                raise RuntimeError('%s, %s: %s' % (name, r['prop'], r['failed']))
            ctx.count('evaluations')
            ctx.count('cases', r['counts'].get('cases', 0))
            ctx.count('observations', r['counts'].get('evaluations', 0))
            ctx.count('comparisons', r['counts'].get('comparisons', 0))
            ctx.seen('nontrivial', (name, r['prop'], seed, turn))
            ctx.seen('parts', (name, r['prop']))
        else:
            where = [x for x in ('PyCIM/', 'CIM14/', 'CIM15/') if os.path.join(REPO, x) in said or '.zip/' + x in said]
            if where or p.returncode < 0:
                raise Violation('%s: the process ended with %d: %s' % (name, p.returncode, said[-800:]), setting=name)
            raise RuntimeError('%s: the process ended with %d: %s' % (name, p.returncode, said[-1500:]))
    ctx.seen('settings', name)
    shutil.rmtree(home, ignore_errors=True)


def run(ctx):
    ctx.rule = ('one case = a part of another check (%s), with its own oracle, run by an interpreter or process of a certain setting (options, '
                'environment, place of the library, state of the process); non-trivial = some of its cases were run; distinct = by setting, check and seed' % ' '.join(CHECKS))
    tmp = ctx.tmp()
    os.chmod(tmp, 0o755)
    archive(os.path.join(tmp, 'lib.zip'))
    os.symlink(REPO, os.path.join(tmp, 'link'))
    shutil.copytree(REPO, os.path.join(tmp, u'a b%20#\u00e9'), ignore=shutil.ignore_patterns('.git', '__pycache__'))
    install(os.path.join(tmp, u'a b%20#\u00e9'), os.path.join(tmp, 'installed'))
    S = settings(tmp)
    items = [(name, ctx.seed * 1000 + i) for i in range(ctx.size(1, 12)) for name in S]

    def one(sub, it):
        try:
            child(sub, tmp, it[0], S[it[0]], it[1], CHECKS, sub.size(0.004, 0.02), sub.size(0.2, 2))
        except Violation as v:
            sub.violation(v.what, **v.detail)
    ctx.pmap(one, items)
    ctx.notes['settings'] = sorted(S)
    ok = not ctx.violations
    ctx.need('settings', len(S) if ok else 0)
    ctx.need('parts', len(S) * (len(CHECKS) - 1) if ok else 0)     # some are left out of some
    ctx.need('cases', len(S) * 50 if ok else 0)
