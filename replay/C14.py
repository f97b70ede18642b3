from replay.h import *
import lop
from lop.utilities import k_fold_x_y, get_y_with_idx
import copy, math

def mk(rng, n):
    def pairs():
        m = rng.randint(1, 15); return np.column_stack([rng.choice([-1, 1], m), rng.randint(0, n, m), rng.randint(0, n, m)]).astype(int)
    def rat(dt):
        m = rng.randint(1, 10); ix = rng.randint(0, n, m); return ((rng.randint(1, 6, m) if dt else rng.rand(m)), ix)
    y = [pairs() if rng.rand() < .7 else None, rat(1) if rng.rand() < .5 else None, rat(0) if rng.rand() < .5 else None]
    return y
def same(a, b):
    if a is None or b is None: return a is b
    if isinstance(a, tuple): return all(np.array_equal(x, z) for x, z in zip(a, b))
    return np.array_equal(a, b)

@case(300)
def folds(rng):
    n = rng.randint(0, 15); k = int(rng.randint(2, 8)); y = mk(rng, max(n, 1)) if n else [None]*3; X = rng.rand(n, 2)
    if y[0] is not None and rng.rand() < .3: y[0][:, 1] = rng.randint(n)
    bak = copy.deepcopy(y), X.copy(); note(n=n, k=k, pairs=y[0])
    s = k_fold_x_y(X, y, k); ke = min(k, n//2)
    check(all(same(a, b) for a, b in zip(y, bak[0])) and np.array_equal(X, bak[1]), 'input changed')
    if ke < 2: check(s is None, 'too few samples, got %s' % (s,)); return
    check(s is not None and len(s) == ke, 'number of folds: %s' % (s,))
    allv = sorted(int(v) for f in s for v in f)
    check(allv == list(range(n)), 'not a partition: %s' % s)
    check(all(list(f) == sorted(f) for f in s), 'fold not in order: %s' % s)
    check(max(len(f) for f in s) <= math.ceil(n/ke), 'fold too large: %s' % s)

@case(300)
def relabel(rng):
    n = rng.randint(1, 12); y = mk(rng, n); m = rng.randint(0, n + 1); ix = [int(v) for v in rng.permutation(n)[:m]]
    if rng.rand() < .4: ix.sort()
    bak = copy.deepcopy(y), list(ix); note(idx=ix, pairs=y[0], ordinal=y[1], ratings=y[2])
    src = ix if rng.rand() < .7 else np.array(ix, dtype=int)
    r = get_y_with_idx(y, src); pos = {v: i for i, v in enumerate(ix)}
    check(len(r) == 3, 'three kinds'); check(all(same(a, b) for a, b in zip(y, bak[0])) and list(src) == bak[1], 'input changed')
    w = [] if y[0] is None else [(int(p[0]), pos[p[1]], pos[p[2]]) for p in y[0] if p[1] in pos and p[2] in pos]
    g = [] if r[0] is None else [tuple(int(v) for v in p) for p in r[0]]
    check(sorted(g) == sorted(w), 'pairs %s, expected %s' % (g, w)); check((r[0] is None) == (not w), 'empty pairs')
    for j in (1, 2):
        w = [] if y[j] is None else [(float(v), pos[i]) for v, i in zip(*y[j]) if i in pos]
        g = [] if r[j] is None else [(float(v), int(i)) for v, i in zip(*r[j])]
        check(sorted(g) == sorted(w), 'ratings %s, expected %s' % (g, w)); check((r[j] is None) == (not w), 'empty ratings')

@case(25)
def crossval(rng):
    """the splits the preference model trains on"""
    n = rng.randint(4, 14); k = min(n//2, 4); X = rng.rand(n, 2); y = mk(rng, n); note(n=n, pairs=y[0], ordinal=y[1], ratings=y[2])
    gp = lop.PreferenceGP(lop.RBF_kern(.5, 1.)); gp.X_train, gp.y_train = X, y; rounds = []
    def step(Xt, yt, Xv, yv, prev, itr=0):
        if itr == 0: rounds.append([])
        rounds[-1].append((Xt.copy(), yt, itr)); check(Xv is X and yv is y, 'validated on other data'); return len(rounds) >= 4
    fits = []
    gp.find_mode = lambda a, b: fits.append((a, b)); gp.hyperparameter_search = step; gp.randomize_hyper = lambda: None
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): gp.optimize(True)
    check(fits[-1][0] is X and fits[-1][1] is y and gp.optimized, 'no final fit of all data')
    check(len(rounds) >= 4, 'rounds')
    for steps in rounds[:3]:
        check([s[2] for s in steps] == list(range(k)), 'folds %s' % [s[2] for s in steps])
        held = []
        for Xt, yt, itr in steps:
            tr = [int(np.flatnonzero((X == v).all(1))[0]) for v in Xt]
            check(len(set(tr)) == len(tr), 'a sample twice in the training part %s' % tr); held += sorted(set(range(n)) - set(tr))
            want = [] if y[0] is None else sorted((int(p[0]), int(p[1]), int(p[2])) for p in y[0] if p[1] in tr and p[2] in tr)
            got = [] if yt[0] is None else sorted((int(p[0]), tr[p[1]], tr[p[2]]) for p in yt[0])
            check(want == got, 'pairs about other samples: %s, expected %s' % (got, want))
            for j in (1, 2):
                want = [] if y[j] is None else sorted((float(v), int(i)) for v, i in zip(*y[j]) if i in tr)
                got = [] if yt[j] is None else sorted((float(v), tr[i]) for v, i in zip(*yt[j]))
                check(want == got, 'ratings of other samples')
        check(sorted(held) == list(range(n)), 'the held-out parts are no partition: %s' % held)
