from replay.h import *
from lop.utilities import preference_pairs as pp
gd, gp, rf, ff, gr = pp.get_dk, pp.gen_pairs_from_idx, pp.ranked_pairs_from_fake, pp.generate_fake_pairs, pp.generate_ranking_pairs
def vals(rng):
    n = rng.randint(0, 8); v = rng.randn(n) if rng.rand() < .5 else rng.randint(-2, 3, n).astype(float)
    if rng.rand() < .2: v = v*1e-13 + 3.
    return v if rng.rand() < .7 else np.sort(v)
def trip(P): return [tuple(int(x) for x in p) for p in P]
def pool(rng):
    v = vals(rng); X = rng.rand(len(v), 2); note(values=v)
    def f(Z, data=None):
        check(np.array_equal(Z, X), 'evaluated on something else'); return v.copy()
    return v, X, X.copy(), f

@case(60)
def dk(rng):
    t = [float, int, np.float64, np.float32]; a, b = rng.randint(-3, 4, 2)*rng.choice([1, .25, 1e-9, 1e9])
    u, v = t[rng.randint(4)](a), t[rng.randint(4)](b); note(u=u, v=v); d = gd(u, v)
    check(d in (-1, 1), 'label %r' % (d,))
    if u > v: check(d == -1, 'the larger first value is not preferred')
    if u < v: check(d == 1, 'the larger second value is not preferred')
    for bad in ([1.], np.array([1.]), (1.,)): check(raises(lambda: gd(bad, u), TypeError) and raises(lambda: gd(u, bad), TypeError), 'an array is accepted')
    i, j = [int(x) for x in rng.randint(0, 9, 2)]; check(tuple(pp.preference(i, j)) == (-1, i, j), 'preference(%d,%d)' % (i, j))

@case(150)
def from_idx(rng):
    n = rng.randint(0, 7); ix = rng.permutation(12)[:n] - rng.choice([0, 0, 3]); best = int(ix[rng.randint(n)]) if n and rng.rand() < .7 else int(rng.randint(12))
    src = [ix, [int(x) for x in ix], tuple(int(x) for x in ix), list(range(n))][rng.randint(4)]; bak = list(src); note(best=best, indices=src)
    P = gp(best, src); want = [(-1, best, int(i)) for i in bak if i != best]
    check(sorted(trip(P)) == sorted(want), 'pairs %s, expected %s' % (P, want)); check(list(src) == bak, 'input changed')

def labels(P, v, want):
    P = trip(P)
    check(sorted(p[1:] for p in P) == want, 'pairs %s, expected %s' % (P, want))
    for d, i, j in P: check(d in (-1, 1) and (v[i] >= v[j] if d == -1 else v[j] >= v[i]), 'label %s, values %r %r' % ((d, i, j), v[i], v[j]))

@case(120)
def ranked(rng):
    v, X, bak, f = pool(rng); labels(rf(X, f), v, [(i, j) for i in range(len(v)) for j in range(i + 1, len(v))]); check(np.array_equal(X, bak), 'input changed')

@case(120)
def fake(rng):
    v, X, bak, f = pool(rng)
    if not len(v): return
    c = int(rng.randint(len(v))); note(pair_i=c); labels(ff(X, f, c), v, [(c, i) for i in range(len(v)) if i != c]); check(np.array_equal(X, bak), 'input changed')

@case(120)
def ranking(rng):
    v, X, bak, f = pool(rng); P = trip(gr(X, f)); n = len(v)
    check(sorted(tuple(sorted(p[1:])) for p in P) == [(i, j) for i in range(n) for j in range(i + 1, n)], 'not every pair once: %s' % P)
    for d, i, j in P: check(d == -1 and v[i] >= v[j], 'pair %s with values %r, %r' % ((d, i, j), v[i], v[j]))
    check(np.array_equal(X, bak), 'input changed')
