from replay.h import *
import contextlib, io
from lop.utilities import normalize_0_1, sigmoid, PerfectUser, HumanChoiceUser, HumanChoiceUser2, p_human_choice
import lop

def vals(rng, shape):
    x = rng.randn(*shape)*10.0**rng.randint(-3, 5); k = rng.randint(5)
    if k == 0: x = np.round(x)
    if k == 1: x = x + rng.choice([-1, 1])*10.0**rng.randint(0, 5)
    if k == 2: x = rng.randint(-20, 20, size=shape)
    if k == 3: x = np.abs(x)
    return x

@case(500)
def normalize(rng):
    shape = tuple(rng.randint(1, 6, size=rng.randint(1, 4))); x = vals(rng, shape)
    if rng.rand() < .1: x = np.zeros(shape) + rng.randn()
    e = rng.choice([1e-4, .05, .3, abs(rng.randn()) + 1e-6, 0.0]); note(x=x, eps=e); x0 = x.copy()
    if e == 0 and np.ptp(x) == 0: return
    o = normalize_0_1(x) if e == 1e-4 else normalize_0_1(x, e) if rng.rand() < .5 else normalize_0_1(x, eps=e)
    check(np.shape(o) == shape, 'shape'); check(np.array_equal(x, x0), 'input changed')
    R = np.max(x) - np.min(x) + 2*e
    close(np.min(o), e/R, 'smallest value at the lower end', 1e-6, 1e-9); close(np.max(o), 1 - e/R, 'largest value at the upper end', 1e-6, 1e-9)
    check(np.all((o >= -1e-12) & (o <= 1 + 1e-12)), 'outside the unit interval')
    close(o*R, x - np.min(x) + e, 'affine in the value', 1e-6, 1e-9*(1 + np.max(np.abs(x))))
    s = np.argsort(x.ravel(), kind='stable'); check(np.all(np.diff(o.ravel()[s]) >= 0), 'order not preserved')

@case(200)
def sigm(rng):
    x = vals(rng, (rng.randint(1, 9),)); k, b = abs(rng.randn())*3, rng.randn()*3; note(x=x, k=k, b=b)
    with np.errstate(over='ignore'): o = sigmoid(x, k, b); d = sigmoid(x)
    for v, z in ((o, k*x + b), (d, 4.0*x)):
        check(np.all((v >= 0) & (v <= 1)), 'outside the unit interval'); check(np.all(np.diff(v[np.argsort(x, kind='stable')]) >= 0), 'decreasing')
        close(v, 0.5*(1 + np.tanh(z/2)), 'logistic function', 1e-7, 1e-12)

class Lin:
    def __init__(self, w): self.w = w
    def __call__(self, r, data=None): return np.asarray(r) @ self.w
class Cube:
    def __init__(self, w): self.w = w
    def __call__(self, r, data=None): return (np.asarray(r) @ self.w)**3
def fake(rng, m): return rng.choice([Lin, Cube])(rng.randn(m)) if rng.rand() < .7 else Lin(np.ones(m))

@case(200)
def perfect(rng):
    n, m = rng.randint(1, 7), rng.randint(1, 4); f = fake(rng, m); r = np.round(rng.randn(n, m), rng.randint(0, 4)); note(rewards=r, w=f.w, f=type(f).__name__); y = f(r); r0 = r.copy()
    u = PerfectUser(f); c = u.choose(r); check(0 <= c < n, 'index'); check(y[c] >= np.max(y), 'not the best option')
    p = u.choose_pairs(r); check(sorted((int(a), int(b)) for _, a, b in p) == sorted((int(np.argmax(y)), i) for i in range(n) if i != np.argmax(y)), 'pairs %s' % (p,)); check(all(d == -1 for d, _, _ in p), 'direction')
    with np.errstate(over='ignore'): q = u.rate(r); s = [u.rate(x) for x in r]
    check(np.all((q >= 0) & (q <= 1)), 'rating outside the scale'); check(np.all(np.diff(q[np.argsort(y, kind='stable')]) >= 0), 'rating decreases with the value')
    close(s, q, 'single rating and batch rating'); check(np.array_equal(r, r0), 'input changed')

@case(300)
def human(rng):
    n, m = rng.randint(1, 7), rng.randint(1, 4); f = fake(rng, m); r = np.round(rng.randn(n, m), rng.randint(0, 4)); note(rewards=r, w=f.w, f=type(f).__name__); y = f(r)
    C = HumanChoiceUser if rng.rand() < .5 else HumanChoiceUser2
    sg = rng.choice([0.0, 0.0, 1.0, abs(rng.randn())]); be = abs(rng.randn())*10.0**rng.randint(-1, 3); u = C(f, beta=be, sigma=sg) if rng.rand() < .7 else C(f, be, sg)
    if rng.rand() < .5: u.k, u.b = abs(rng.randn()) + .1, rng.randn()
    note(cls=C.__name__, k=u.k, b=u.b, sigma=sg, beta=be)
    with np.errstate(over='ignore'): q = u.rate(r); s = u.rate(r[0])
    check(np.shape(q) == (n,) and np.all((q >= 0) & (q <= 1)), 'rating outside the scale'); check(0 <= s <= 1, 'single rating outside the scale')
    if sg == 0:
        check(np.all(np.diff(q[np.argsort(y, kind='stable')]) >= 0), 'rating decreases with the value'); close(q, 0.5*(1 + np.tanh((u.k*y + u.b)/2)), 'rating without noise'); close(s, q[0], 'single rating')
    c = u.choose(r); check(0 <= c < n and c == int(c), 'index'); pr = p_human_choice((u.k*y + u.b), p=be); check(pr[c] > 1e-14, 'chose an option of probability zero')
    p = u.choose_pairs(r); check(len(p) == n - 1 and len({int(a) for _, a, _ in p}) <= 1, 'pairs')
    if n > 1: w = int(p[0][1]); check(sorted(int(b) for _, _, b in p) == [i for i in range(n) if i != w] and all(d == -1 for d, _, _ in p), 'pairs %s' % (p,))

@case(4, 40, key='noisy ratings and choices follow the value')
def noisy(rng):
    n = rng.randint(2, 5); f = Lin(np.ones(1)); r = rng.randn(n, 1)*.5; be, sg = abs(rng.randn()) + .2, abs(rng.randn()) + .2; u = HumanChoiceUser(f, be, sg); N = 6000; note(r=r, beta=be, sigma=sg)
    h = np.bincount([u.choose(r) for _ in range(N)], minlength=n)/N; pr = p_human_choice(4.0*r[:, 0], p=be); check(np.all(np.abs(h - pr) < 6*np.sqrt(pr*(1 - pr)/N) + 2e-3), 'choice frequencies %s, model %s' % (h, pr))
    q = np.array([u.rate(r) for _ in range(N)]); l = np.log(q) - np.log1p(-q); close(l.mean(axis=0), 4*r[:, 0], 'mean log-odds of the ratings', 0, 6*sg/np.sqrt(N) + 1e-3); close(l.std(axis=0), sg*np.ones(n), 'spread of the log-odds', .1, 0)

@case(120)
def range_of_values(rng):
    f = vals(rng, (rng.randint(2, 9),)); b, t = sorted(rng.uniform(.01, .99, size=2))
    if np.ptp(f) == 0 or t - b < 1e-3: return
    u = HumanChoiceUser2(Lin(np.ones(1)), bot_range=b, top_range=t); note(f=f, bot=b, top=t)
    k, c = u.get_k_b(f); check(k > 0, 'slope'); q = sigmoid(f, k, c); close([q.min(), q.max()], [b, t], 'range of the ratings', 1e-5, 1e-6)

@case(3, 20, key='learning the noise')
def learn(rng):
    f = lop.FakeLinear(2); f.w = np.abs(rng.randn(2)) + .1; p = rng.choice([.8, .9, .95]); u = HumanChoiceUser(f); note(w=f.w, p=p); R = rng.rand(60, 2)
    with contextlib.redirect_stdout(io.StringIO()):
        try: u.learn_beta(R, p)
        except Exception as e:
            if 'Bad setting' in str(e): return
            raise
        check(u.beta > 0 and u.sigma >= 0 and u.k > 0, 'beta %s sigma %s k %s' % (u.beta, u.sigma, u.k))
        v = HumanChoiceUser2(f, bot_range=.1, top_range=.9); E = [[rng.rand(rng.randint(6, 12), 2) for _ in range(2)] for _ in range(rng.randint(1, 3))]; v.learn_beta(E, p)
    check(v.beta > 0 and v.sigma >= 0, 'beta'); y = np.concatenate([f(x) for e in E for x in e]); q = sigmoid(y, v.k, v.b); close([q.min(), q.max()], [.1, .9], 'learnt range of the ratings', 1e-5, 1e-6)
