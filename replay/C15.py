from replay.h import *
from lop.utilities import p_human_choice, sample_human_choice

def ref(r, p):
    z = (np.asarray(r, dtype=float) - np.max(r, axis=-1, keepdims=True))*p
    e = np.exp(z); return e/np.sum(e, axis=-1, keepdims=True)

def dist(rng, shape):
    k = rng.randint(6); r = rng.randn(*shape)*10.0**rng.randint(-3, 4)
    if k == 0: r = np.round(r)
    if k == 1: r = r + rng.choice([-1, 1])*10.0**rng.randint(2, 6)
    if k == 2: r = np.zeros(shape) + rng.randn()
    if k == 3: r = rng.randint(-5, 6, size=shape)
    return r

@case(600)
def softmax(rng):
    shape = (rng.randint(1, 8),) if rng.rand() < .5 else (rng.randint(1, 6), rng.randint(1, 8)); r = dist(rng, shape)
    if len(shape) == 2 and rng.rand() < .5: r = r + (10.0**rng.randint(0, 6)*rng.randn(shape[0], 1)).astype(r.dtype)
    p = rng.choice([0.0, 1.0, abs(rng.randn())*10.0**rng.randint(-2, 3)]); note(r=r, p=p); r0 = r.copy()
    o = p_human_choice(r) if p == 1.0 and rng.rand() < .5 else p_human_choice(r, p) if rng.rand() < .5 else p_human_choice(r, p=p)
    check(np.shape(o) == shape, 'shape'); check(np.array_equal(r, r0), 'input changed')
    check(np.all(np.isfinite(o)) and np.all(o >= 0), 'not a probability: %s' % o)
    close(np.sum(o, axis=-1), np.ones(shape[:-1]), 'probabilities do not sum to one', 1e-9, 1e-9)
    if np.max(np.abs(r)) < 1e5: close(o, ref(r, p), 'softmax of the utilities', 1e-6, 1e-9)
    for x, y in zip(np.atleast_2d(r), np.atleast_2d(o)): s = np.argsort(x, kind='stable'); check(np.all(np.diff(y[s]) >= -1e-12), 'order of the probabilities')

@case(200)
def sample(rng):
    n = rng.randint(1, 7); r = dist(rng, (n,)); p = abs(rng.randn()) + .01; k = rng.choice([None, 0, 1, 5]); note(r=r, p=p, samples=k)
    s = sample_human_choice(r, p) if k is None else sample_human_choice(r, p=p, samples=k)
    check(np.shape(s) == (() if k is None else (k,)), 'shape'); s = np.atleast_1d(s)
    check(np.all((s >= 0) & (s < n)), 'index out of range')
    pr = ref(r, p); check(all(pr[i] > 1e-12 for i in s), 'drew an option of probability zero')

@case(6, key='freq')
def frequencies(rng):
    n = rng.randint(2, 5); r = rng.randn(n)*2; p = rng.choice([.3, 1., 2.]); note(r=r, p=p); N = 20000
    f = np.bincount(sample_human_choice(r, p, N), minlength=n)/N; pr = ref(r, p)
    check(np.all(np.abs(f - pr) < 6*np.sqrt(pr*(1 - pr)/N) + 1e-3), 'frequencies %s, probabilities %s' % (f, pr))
