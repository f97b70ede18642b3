from replay.h import *
from lop.utilities import metropolis_hastings, normal_prop_dist

def lik(table, x):
    return table[zlib.crc32(np.round(np.asarray(x, float), 9).tobytes()) % len(table)]

class Draws:
    """records scalar uniform draws; sometimes scripts them"""
    def __init__(self, rng, script):
        self.u = []; self.rng = rng; self.script = script; self.saved = {}
    def one(self):
        v = float(self.rng.choice([0.0, 1e-9, .5, 1 - 1e-9, self.rng.rand()])) if self.script else float(self.rng.rand())
        self.u.append(v); return v
    def __enter__(self):
        for nm in ('random', 'rand', 'random_sample', 'uniform'):
            f = getattr(np.random, nm); self.saved[nm] = f
            def g(*a, f=f, **k):
                if a or [x for x in k.values() if x is not None]: return f(*a, **k)
                return self.one()
            setattr(np.random, nm, g)
        return self
    def __exit__(self, *a):
        for nm, f in self.saved.items(): setattr(np.random, nm, f)

@case(400)
def chain(rng):
    num, burn, dim = rng.randint(0, 12), int(rng.choice([0, 0, 1, 2, 7])), rng.randint(1, 4)
    m = rng.randint(2, 30); sc = rng.choice([.3, 3, 40]); table = list(rng.randn(m)*sc)
    for i in range(m):
        if rng.rand() < .15: table[i] = table[0]
    ninf = rng.rand() < .3
    first, props, evals = [], [], []
    def ll(x):
        v = lik(table, x)
        if ninf and evals and zlib.crc32(np.asarray(x).tobytes()) % 5 == 0 and not np.array_equal(x, evals[0]): v = -np.inf
        evals.append(np.array(x, copy=True)); return v
    def val(x):
        v = lik(table, x)
        if ninf and zlib.crc32(np.asarray(x).tobytes()) % 5 == 0 and not np.array_equal(x, evals[0]): v = -np.inf
        return v
    stay = rng.rand() < .2
    def prop(x):
        y = np.array(x, copy=True) + (0 if stay and rng.rand() < .5 else rng.randn(dim)*rng.choice([.1, 1, 5]))
        props.append((np.array(x, copy=True), y.copy())); return y
    note(num=num, burn=burn, dim=dim, table=table)
    with Draws(rng, rng.rand() < .5) as D:
        s = metropolis_hastings(ll, num, dim=dim, num_to_burn=burn, prop_distribution=prop)
    check(len(s) == num, '%d samples instead of %d' % (len(s), num))
    if num: check(np.shape(s) == (num, dim), 'shape %s' % (np.shape(s),))
    check(len(props) == num + burn, '%d proposals for %d steps' % (len(props), num + burn))
    if not props: return
    cur = props[0][0]
    check(np.array_equal(evals[0], cur), 'the first state is not the one whose likelihood was taken first')
    for k, (a, y) in enumerate(props):
        check(np.array_equal(a, cur), 'proposal %d is not made from the current point' % k)
        old = cur
        lx, ly = val(cur), val(y); ratio = np.exp(ly - lx)
        if len(D.u) == len(props): want = ratio > D.u[k]
        elif ratio >= 1: want = True
        elif ratio == 0: want = False
        else: want = None
        if want is not None: cur = y if want else cur
        else:
            nxt = props[k+1][0] if k + 1 < len(props) else s[-1]
            check(np.array_equal(nxt, y) or np.array_equal(nxt, cur), 'step %d moves elsewhere' % k); cur = np.array(nxt)
        if k >= burn: check(np.array_equal(s[k - burn], cur), 'sample %d is %s; previous point %s, proposal %s, likelihoods %s -> %s, draw %s' % (k - burn, s[k - burn], old, y, lx, ly, D.u[k] if k < len(D.u) else None))

@case(30)
def frequencies(rng):
    """two-point target: every move has the same ratio, so it is accepted with that probability"""
    r = rng.choice([.2, .5, .9]); state = {'n': 0}
    note(ratio=r)
    ll = lambda x: float(np.log(r))*np.asarray(x).ravel()[0] if np.asarray(x).ravel()[0] >= 2 else 0.0
    prop = lambda x: np.array([np.floor(np.asarray(x).ravel()[0]) + 2.0])          # likelihood falls by the ratio r^2 at every move
    s = metropolis_hastings(ll, 40, dim=1, num_to_burn=0, prop_distribution=prop)
    check(len(s) == 40, 'number of samples')
    d = np.diff(s[:, 0]); d = d[np.abs(s[:-1, 0] - np.floor(s[:-1, 0])) == 0]; check(((d == 0) | (d == 2)).all(), 'a sample is neither the previous one nor the proposal')

@case(60)
def defaults(rng):
    dim = rng.randint(1, 4); num = rng.randint(1, 20); note(dim=dim, num=num)
    seen = []
    s = metropolis_hastings(lambda x: (seen.append(1), -float(np.sum(np.asarray(x)**2)))[1], num, dim=dim)
    check(np.shape(s) == (num, dim), 'shape %s' % (np.shape(s),))
    x = rng.randn(dim); check(np.shape(normal_prop_dist(x)) == (dim,), 'a proposal has the dimension of the point')
