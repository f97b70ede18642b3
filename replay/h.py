"""Replay and run-time-contract harness: executes the real code of /repo/src under CPython.

Each case function draws inputs that satisfy the contract's precondition and evaluates the contract's
postcondition on what the real function returns.  A failing case is the concrete witness of a violation."""
import sys, os, time, json, hashlib, random, traceback, warnings, zlib, signal
sys.dont_write_bytecode = True
SRC = os.environ.get('PYDV_SRC', '/repo/src')
sys.path.insert(0, SRC)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')

CASES = []
HANG = 90
def _hang(*a): raise Fail('did not return within %d s' % HANG)
class Fail(Exception): pass
_notes = {}
def note(**kw): _notes.update(kw)
def check(c, msg, **kw):
    if not bool(c):
        _notes.update(kw)
        raise Fail(msg)
def close(a, b, msg, rtol=1e-6, atol=1e-8, **kw):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape: raise_fail('%s: shape %s vs %s' % (msg, a.shape, b.shape), kw)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all(): raise_fail('%s: got %s, contract says %s' % (msg, short(a), short(b)), kw)
def raise_fail(m, kw): _notes.update(kw); raise Fail(m)
def short(x):
    return np.array2string(np.asarray(x), threshold=40, max_line_width=200)[:1200]
def raises(f, *ex):
    try: f()
    except ex or Exception: return True
    return False

def case(n=50, thorough=None, key=None):
    def d(f):
        CASES.append((f, n, thorough or n*20, key or f.__name__)); return f
    return d

def ser(v):
    if isinstance(v, np.ndarray): return {'array': v.tolist(), 'dtype': str(v.dtype)} if v.size <= 400 else {'array_shape': v.shape, 'head': v.ravel()[:50].tolist()}
    if isinstance(v, (list, tuple)): return [ser(x) for x in v][:200]
    if isinstance(v, (set, frozenset)): return sorted([int(x) if isinstance(x, (int, np.integer)) else str(x) for x in v], key=str)
    if isinstance(v, dict): return {str(k): ser(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None: return v
    if isinstance(v, np.integer): return int(v)
    if isinstance(v, np.floating): return float(v)
    return repr(v)[:300]

def one(f, seed, it):
    s = zlib.crc32(('%s/%d/%d' % (f.__name__, seed, it)).encode()) & 0x7fffffff
    rng = np.random.RandomState(s)
    np.random.seed(s); random.seed(s)
    _notes.clear()
    try:
        signal.signal(signal.SIGALRM, _hang); signal.alarm(HANG)
        f(rng)
    except Fail as e:
        return 'contract: ' + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'unexpected %s: %s @ %s' % (type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:])))
    finally: signal.alarm(0)
    return None

def main(tier, seed, budget, out, only=None):
    t0 = time.time()
    res = {'fails': [], 'counts': {}, 'distinct': 0, 'samples': [], 'truncated': False}
    seen = set()
    for f, nq, nt, key in CASES:
        if only and f.__name__ != only[0]: continue
        n = nq if tier == 'quick' else nt
        its = range(n) if not only else [only[1]]
        done = 0
        for it in its:
            if time.time() - t0 > budget and done >= 1:
                res['truncated'] = True; break
            m = one(f, seed, it)
            done += 1
            h = hashlib.md5(json.dumps({k: ser(v) for k, v in _notes.items()}, sort_keys=True, default=str).encode()).hexdigest() if _notes else None
            if h: seen.add((f.__name__, h))
            if it == 0: res['samples'].append({'case': f.__name__, 'inputs': {k: ser(v) for k, v in list(_notes.items())[:4]}})
            if m is not None:
                res['fails'].append({'case': f.__name__, 'key': key, 'iter': it, 'seed': seed, 'msg': m, 'inputs': {k: ser(v) for k, v in _notes.items()}})
                break
        res['counts'][f.__name__] = done
    res['distinct'] = len(seen)
    res['samples'] = json.loads(json.dumps(res['samples'][:3], default=str)[:20000]) if len(json.dumps(res['samples'][:3], default=str)) < 20000 else [{'case': s['case']} for s in res['samples'][:3]]
    res['wall'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)

if __name__ == '__main__':
    import importlib
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.modules['replay.h'] = sys.modules['__main__']
    pid, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    only = (sys.argv[6], int(sys.argv[7])) if len(sys.argv) > 7 else None
    importlib.import_module('replay.' + pid)
    main(tier, seed, budget, out, only)
