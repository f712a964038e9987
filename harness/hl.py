"""Run-time contract evaluation on the real code (counterexample search, replay, cross-check of models).

Every property registers cases(rng, tier) -> JSON-able case dicts, and check(case, scratch) -> None | message.
The code under test is imported from REPO/src; all files it touches live in a scratch directory.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)


def _stub_tqdm():
    """no progress bars (and no dependency on tqdm): tqdm is output only"""

    class tqdm:
        def __init__(self, it=None, *a, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def update(self, *a):
            pass

        def close(self):
            pass

    m = types.ModuleType('tqdm')
    m.tqdm = tqdm
    a = types.ModuleType('tqdm.auto')
    a.tqdm = tqdm
    m.auto = a
    sys.modules['tqdm'] = m
    sys.modules['tqdm.auto'] = a


_stub_tqdm()


class Results:
    """as the results of a pool: a failure comes out in its turn, those after it can still be had"""
    def __init__(self, res):
        self.res = res

    def __iter__(self):
        return self

    def __next__(self):
        if not self.res:
            raise StopIteration
        v, e = self.res.pop(0)
        if e is not None:
            raise e
        return v


class FakePool:
    """sequential stand-in for multiprocessing.Pool; `order` permutes completion order"""

    def __init__(self, order=None):
        self.order = order

    def imap_unordered(self, f, it, chunksize=1):
        res = []
        for x in it:
            try:
                res.append((f(x), None))
            except Exception as e:
                res.append((None, e))
        if self.order:
            random.Random(self.order).shuffle(res)
        return Results(res)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass


OUT = object()  # what check returns for a case outside the precondition


class Unattached(Exception):
    """an entry point of the code under test is not there (renamed, other signature): undecided, not a violation"""


def api(name):
    import importlib
    mod, _, attrs = name.partition(':')
    try:
        o = importlib.import_module('v8unpack.' + mod if mod else 'v8unpack')
        for a in attrs.split('.') if attrs else []:
            o = getattr(o, a)
        return o
    except (ImportError, AttributeError) as e:
        raise Unattached(f'{name}: {e}')


def has_repo_frame(err):
    seen = set()
    while err is not None and id(err) not in seen:
        seen.add(id(err))
        tb = err.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(SRC)):
                return True
            tb = tb.tb_next
        err = err.__cause__ or err.__context__
    return False


def bytes_of(kind, size, seed):
    """deterministic payloads; kind selects the family"""
    r = random.Random(f'{kind}-{size}-{seed}')
    if kind == 'zero':
        return bytes(size)
    if kind == 'rnd':
        return r.randbytes(size)
    if kind == 'ff':
        return b'\xff' * size
    if kind == 'text':
        return ''.join(r.choice('абвгдеё abc{},"\r\n0123') for _ in range(size)).encode()[:size]
    if kind == 'bom':
        return (b'\xef\xbb\xbf' + r.randbytes(max(0, size - 3)))[:size]
    if kind == 'marker':
        return (b'\xff\xff\xff\x7e' + b'\xff\xff\xff\x7f' * (size // 4 + 1))[:size]
    if kind.startswith('mk'):     # the mark of a container at every fourth byte, but not at the start
        return (b'xyzw'[:int(kind[2:])] + b'\xff\xff\xff\x7f' * (size // 4 + 1))[:size]
    if kind.startswith('tail'):   # payloads that differ at their last bytes only
        return (b'0123456789abcdef' * (size // 16 + 1))[:size - 1] + bytes([int(kind[4:]) % 256]) if size else b''
    if kind == 'nl':              # ends with line breaks and blanks
        return (r.randbytes(size) + b' \t\r\n\r\n')[-size:] if size else b''
    raise ValueError(kind)


def write_tree(root, tree):
    for name, data in tree.items():
        p = os.path.join(root, name)
        if isinstance(data, dict):
            os.makedirs(p, exist_ok=True)
            write_tree(p, data)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data if isinstance(data, bytes) else data.encode('utf-8'))


def read_tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if not dirs and not files and rel != '.':
            out[rel + '/'] = None
        for n in files:
            with open(os.path.join(d, n), 'rb') as f:
                out[os.path.normpath(os.path.join(rel, n))] = f.read()
    return out


def diff_tree(a, b, what=''):
    ka, kb = set(a), set(b)
    if ka - kb:
        return f'{what}missing after the round trip: {sorted(ka - kb)[:5]}'
    if kb - ka:
        return f'{what}appeared after the round trip: {sorted(kb - ka)[:5]}'
    for k in sorted(ka):
        if a[k] != b[k]:
            x, y = a[k] or b'', b[k] or b''
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return (f'{what}{k}: content differs at {i} (sizes {len(x)} and {len(y)}): '
                    f'{x[max(0, i - 20):i + 40]!r} became {y[max(0, i - 20):i + 40]!r}')
    return None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class NoEnd(BaseException):
    pass


CASE_LIMIT_S = 60           # an evaluation takes milliseconds, a few of them seconds
MEMORY_LIMIT = 3 << 30


def _no_end(*_):
    raise NoEnd(f'still running after {CASE_LIMIT_S} s')


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (OSError, ValueError):
        pass


def evaluate(mod, case, keep=None):
    """-> ('ok'|'violation'|'skip', message)"""
    scratch = tempfile.mkdtemp(prefix='vfy')
    cwd = os.getcwd()
    st = random.getstate()
    old = signal.signal(signal.SIGALRM, _no_end)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        os.chdir(scratch)
        try:
            with quiet():
                msg = mod.check(case, scratch)
            if msg is OUT:
                return 'out', None
            return ('ok', None) if msg is None else ('violation', msg)
        except Unattached as e:
            return 'skip', f'unattached: {e}'
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.format_exc(limit=-30)
            if has_repo_frame(e):
                return 'violation', f'{type(e).__name__}: {e}'[:600] + '\n' + tb[-1500:]
            return 'skip', 'harness: ' + tb[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        random.setstate(st)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def sharded(mod, rng, tier, shard, shards):
    """the written-out cases are shared out among the shards; the random ones differ by seed"""
    st0, directed = rng.getstate(), True
    for i, case in enumerate(mod.cases(rng, tier)):
        directed = directed and rng.getstate() == st0
        if not directed or i % shards == shard:
            yield case


def run(mod, seed, tier, seconds, shard=0, shards=1):
    rng = random.Random((seed * 1000003 + 17) * 64 + shard)
    t0 = time.time()
    res = {'evaluations': 0, 'out_of_domain': 0, 'skipped': 0, 'skip_reasons': [], 'violations': [], 'known': [], 'samples': []}
    distinct = set()
    slowest = 0.0
    for case in sharded(mod, rng, tier, shard, shards):
        t1 = time.time()
        if t1 - t0 > seconds and res['evaluations'] >= getattr(mod, 'MIN_CASES', 1):
            break
        status, msg = evaluate(mod, case)
        slowest = max(slowest, time.time() - t1)
        known = case.get('known')
        if known:
            res['known'].append({'key': known, 'still_fails': status == 'violation', 'message': (msg or '')[:300]})
            continue
        if status == 'out':
            res['out_of_domain'] += 1
            continue
        if status == 'skip':
            res['skipped'] += 1
            if len(res['skip_reasons']) < 5:
                res['skip_reasons'].append(msg)
            if res['skipped'] > 200:
                break
            continue
        res['evaluations'] += 1
        key = hashlib.sha1(json.dumps(case, sort_keys=True, ensure_ascii=True).encode()).hexdigest()
        if getattr(mod, 'nontrivial', lambda c: True)(case):
            distinct.add(key)
        if len(res['samples']) < 3:
            s = json.dumps(case, ensure_ascii=True)
            res['samples'].append(s if len(s) < 600 else s[:600] + '...')
        if status == 'violation':
            small, smsg = shrink(mod, case, msg)
            res['violations'].append({'case': small, 'message': smsg})
            break
    res['distinct_nontrivial'] = len(distinct)
    res['wall_s'] = round(time.time() - t0, 2)
    res['slowest_case_s'] = round(slowest, 2)
    return res


def shrink(mod, case, msg, seconds=10):
    f = getattr(mod, 'shrinks', None)
    t0 = time.time()
    if not f:
        return case, msg
    again = True
    while again and time.time() - t0 < seconds:
        again = False
        for c in f(case):
            if time.time() - t0 > seconds:
                break
            st, m = evaluate(mod, c)
            if st == 'violation':
                case, msg, again = c, m, True
                break
    return case, msg


def shrink_list(lst):
    n = len(lst)
    if n > 3:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]
