"""Run a function in a forked child, so that imports start from a clean slate."""
import os
import pickle
import sys
import traceback


def run(fn, *args):
    """Returns ('ok', value) or ('error', traceback text) or ('died', status)."""
    assert not any(m == 'PyCIM' or m.startswith(('CIM14', 'CIM15', 'PyCIM.')) for m in sys.modules), \
        'the parent must not have loaded the code under test'
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ('ok', fn(*args))
            except BaseException:
                out = ('error', traceback.format_exc())
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    return pickle.loads(data) if data else ('died', st)
