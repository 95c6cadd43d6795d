"""Run independent analyses in forked workers (dynamic scheduling, deterministic merge order)."""
from __future__ import annotations
import os
import pickle
import struct
import sys
import traceback

WORKERS = int(os.environ.get('SA_WORKERS', '8'))


def pmap(fn, items, workers=None):
    """[fn(x) for x in items]; results must be picklable (Report.export()).

    An item whose analysis fails gives an export holding only the error: nothing is decided about it."""
    items = list(items)
    if os.environ.get('SA_TASKS'):      # development aid: only the items whose description holds one of these words
        items = [x for x in items if any(w in repr(x) for w in os.environ['SA_TASKS'].split(','))] or items
    n = min(workers or WORKERS, len(items))
    if n <= 1 or os.environ.get('SA_SERIAL'):
        return [attempt(fn, x) for x in items]
    tr, tw = os.pipe()
    os.write(tw, b''.join(struct.pack('<H', i) for i in range(len(items))))
    os.close(tw)
    kids = []
    sys.stdout.flush()
    for _ in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = []
                while True:
                    b = os.read(tr, 2)
                    if not b:
                        break
                    i = struct.unpack('<H', b)[0]
                    out.append((i, attempt(fn, items[i])))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    os.close(tr)
    res = {}
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            continue
        for i, v in pickle.loads(data):
            res[i] = v
    return [res[i] if i in res else failed(items[i], 'worker died') for i in range(len(items))]


def failed(item, why):
    return {'ob': [], 'rules': {}, 'analysed': [], 'errors': ['%s: %s' % (item, why)]}


def attempt(fn, item):
    try:
        return fn(item)
    except Exception:
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        return failed(item, traceback.format_exc()[-600:])
