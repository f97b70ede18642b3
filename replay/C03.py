from replay.h import *
from lop.utilities import get_pareto

def ref(V):
    n = len(V); out = []
    for i in range(n):
        d = False
        for j in range(n):
            if j != i and (V[j] >= V[i]).all() and ((V[j] > V[i]).any() or j < i): d = True
        if not d: out.append(i)
    return out

def gen(rng):
    n, k = rng.randint(0, 9), rng.randint(1, 5)
    V = rng.randint(0, rng.choice([2, 3, 5]), (n, k)).astype(float) if rng.rand() < .7 else rng.randn(n, k)
    if n and rng.rand() < .2: V[rng.randint(0, n), rng.randint(0, k)] = rng.choice([np.inf, -np.inf])
    if n > 1 and rng.rand() < .3: V[rng.randint(0, n)] = V[rng.randint(0, n)]
    if rng.rand() < .2: V = V.astype(int) if np.isfinite(V).all() else V
    return V

@case(1500)
def pareto(rng):
    V = gen(rng); note(V=V); V0 = V.copy(); want = ref(V)
    r = get_pareto(V)
    check((V == V0).all(), 'the input was changed')
    check([int(i) for i in r] == want, 'indices %s, contract says %s' % (list(r), want))
    m = get_pareto(V, return_mask=True)
    check(np.shape(m) == (len(V),) and [i for i in range(len(V)) if m[i]] == want, 'mask %s, contract says %s' % (m, want))
    if len(V): # every row is at most one of the returned rows
        check(all(any((V[i] >= v).all() for i in r) for v in V), 'a row is above the front')

@case(100)
def large(rng):
    n, k = rng.randint(30, 200), rng.randint(2, 5); V = rng.randint(0, 12, (n, k)).astype(float); note(V=V)
    check([int(i) for i in get_pareto(V)] == ref(V), 'large front')
