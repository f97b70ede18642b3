"""Preference labels encode the direction of the comparison that was made."""
from .common import *
M = 'lop.utilities.preference_pairs'
ASSUMPTIONS = ['values are real numbers (no NaN)', 'numpy.argsort returns an ordering permutation']
BOUNDED = 'up to 7 samples, ties included'
T = core.TOUCH

def dk(u, v): return z3.If(Zr(u) < Zr(v), z3.IntVal(1), z3.IntVal(-1))

@unit('get_dk', [M + ':get_dk'])
def _(I):
    a, b = z3.Reals('u v'); i, j = z3.Ints('i j')
    def run():
        d = Zr(I.call(I.fn(M, 'get_dk'), [a, b], {}))
        I.oblige('the larger first value is preferred', z3.Implies(a > b, d == -1)); I.oblige('the larger second value is preferred', z3.Implies(a < b, d == 1))
        I.oblige('a label is always -1 or 1', z3.Or(d == 1, d == -1))
        d = Zr(I.call(I.fn(M, 'get_dk'), [i, j], {})); I.oblige('integers likewise', z3.And(z3.Implies(i > j, d == -1), z3.Implies(i < j, d == 1)))
        d = Zr(I.call(I.fn(M, 'get_dk'), [i, b], {})); I.oblige('mixed numbers likewise', z3.And(z3.Implies(z3.ToReal(i) > b, d == -1), z3.Implies(z3.ToReal(i) < b, d == 1)))
        for bad in ([a, input_array('A', (z3.Int('n'),), 'real')], [[a], b], [(a,), b]):
            try: I.call(I.fn(M, 'get_dk'), bad, {}); I.record('arrays are refused', False)
            except PyRaise as e: I.record('arrays are refused', e.name == 'TypeError')
    return run

@unit('preference', [M + ':preference', M + ':get_dk'])
def _(I):
    a, b = z3.Ints('a b')
    def run():
        p = I.call(I.fn(M, 'preference'), [a, b], {}); p = [Zr(x) for x in (p if isinstance(p, (tuple, list)) else [p.at(k) for k in range(3)])]
        I.oblige('the first index is on the preferred side', z3.And(p[0] == -1, p[1] == a, p[2] == b))
    return run

def lst(I, x):
    if isinstance(x, SymList): return Zr(x.n), (lambda k: [Zr(y) for y in x.elem(k)])
    if isinstance(x, NDArray) and x.ndim == 2: return Zr(x.shape[0]), (lambda k: [Zr(x.at(k, z3.IntVal(j))) for j in range(3)])
    if isinstance(x, (list, tuple)):
        if not x: return z3.IntVal(0), (lambda k: [z3.IntVal(-1), z3.IntVal(0), z3.IntVal(0)])
        c = [[Zr(y) for y in t] for t in x]
        def el(k):
            out = c[-1]
            for j in range(len(c) - 2, -1, -1): out = [z3.If(Zr(k) == j, p, q) for p, q in zip(c[j], out)]
            return out
        return z3.IntVal(len(c)), el
    raise Unsupported('pairs %r' % (x,))

def hints(*v): return [T(x) for x in v]

def from_idx(kind):
    @unit('gen_pairs_from_idx, %s' % kind, [M + ':gen_pairs_from_idx', M + ':preference', M + ':get_dk'])
    def u(I):
        n, c = z3.Ints('n c'); I.assume(n >= 0); I.ob_tries = ((0, False), (0, True))
        A = input_array('ind', (n,), 'int') if kind != 'all positions' else None; el = A.decl if A else (lambda i: i)
        src = A if kind == 'array of indices' else SymList(n, lambda i: Zr(A.decl(Zr(i)))) if A else SymList(n, lambda i: Zr(i))
        def run():
            N, at = lst(I, I.call(I.fn(M, 'gen_pairs_from_idx'), [c, src], {}))
            k, l = fresh('k'), fresh('l'); q, q2, i = z3.Ints('q! q2! i!'); I.assume(z3.And(0 <= k, k < N, k <= l, l < N)); p = at(k)
            I.oblige('the chosen index is on the preferred side', z3.And(p[0] == -1, p[1] == c)); I.oblige('never against itself', p[2] != c)
            I.oblige('the other index is one of those given', z3.Exists([i], z3.And(0 <= i, i < n, el(i) == p[2])))
            if kind == 'all positions': I.oblige('no pair twice', z3.Implies(k != l, p[2] != at(l)[2]))
            i0 = skin(I, n, 'i'); I.assume(z3.And(el(i0) != c, T(i0)))
            I.oblige('every other index is compared', z3.Exists([q], z3.And(0 <= q, q < N, at(q)[2] == el(i0))))
        return run
for k_ in ('list of indices', 'array of indices', 'all positions'): from_idx(k_)

def values(I, n, dt='real'):
    Y = z3.Function('val', IS, RS)
    X = input_array('X', (n, z3.Int('d')), dt); log = []
    def f(I_, a, kw): log.append(a[0]); return NDArray((n,), lambda i: Y(Zr(i)), 'real')
    return X, Builtin('fake_f', f), Y, log

@unit('ranked_pairs_from_fake', [M + ':ranked_pairs_from_fake', M + ':get_dk'])
def _(I):
    n = z3.Int('n'); I.assume(n >= 0); X, f, Y, log = values(I, n); I.ob_tries = ((0, False), (0, True)); I.ob_timeout = 5000
    def run():
        N, at = lst(I, I.call(I.fn(M, 'ranked_pairs_from_fake'), [X, f], {}))
        k, l = fresh('k'), fresh('l'); q = z3.Int('q!'); I.assume(z3.And(0 <= k, k < N, 0 <= l, l < N)); p, p2 = at(k), at(l)
        I.oblige('indices of samples, the smaller first', z3.And(0 <= p[1], p[1] < p[2], p[2] < n))
        I.oblige('the preferred side has the larger value', p[0] == dk(Y(p[1]), Y(p[2])))
        I.oblige('no pair twice', z3.Implies(z3.And(p[1] == p2[1], p[2] == p2[2]), k == l))
        i, j = skin(I, n, 'i', 'j'); I.assume(z3.And(i < j, *hints(i, j, simp(j - i - 1), simp(j - (i + 1)))))
        I.oblige('every pair of samples is compared', z3.Exists([q], z3.And(0 <= q, q < N, at(q)[1] == i, at(q)[2] == j)))
        I.record('the function is evaluated on the samples', bool(log) and all(x is X for x in log) or None)
    return run

@unit('generate_fake_pairs', [M + ':generate_fake_pairs', M + ':get_dk'])
def _(I):
    n, c = z3.Ints('n c'); I.assume(z3.And(0 <= c, c < n)); X, f, Y, log = values(I, n)
    def run():
        N, at = lst(I, I.call(I.fn(M, 'generate_fake_pairs'), [X, f, c], {}))
        k, l = fresh('k'), fresh('l'); q = z3.Int('q!'); I.assume(z3.And(0 <= k, k < N, 0 <= l, l < N)); p, p2 = at(k), at(l)
        I.oblige('the given sample against another one', z3.And(p[1] == c, 0 <= p[2], p[2] < n, p[2] != c))
        I.oblige('the preferred side has the larger value', p[0] == dk(Y(c), Y(p[2])))
        I.oblige('no pair twice', z3.Implies(p[2] == p2[2], k == l))
        i = skin(I, n, 'i'); I.assume(z3.And(i != c, T(i)))
        I.oblige('every other sample is compared', z3.Exists([q], z3.And(0 <= q, q < N, at(q)[2] == i)))
    return run

@unit('generate_ranking_pairs', [M + ':generate_ranking_pairs', M + ':get_dk'])
def _(I):
    n = z3.Int('n'); I.assume(n >= 0); X, f, Y, log = values(I, n); I.ob_tries = ((0, False), (0, True)); I.ob_timeout = 5000
    lib = I.lib['numpy.argsort']; perms = []
    def logged(*a, **k):
        out = lib(*a, **k)
        if isinstance(out, NDArray) and getattr(out, 'perm', None): perms.append(out.perm)
        return out
    I.lib["numpy.argsort"] = logged
    def run():
        del perms[:]
        N, at = lst(I, I.call(I.fn(M, 'generate_ranking_pairs'), [X, f], {}))
        k, l = fresh('k'), fresh('l'); q = z3.Int('q!'); I.assume(z3.And(0 <= k, k < N, 0 <= l, l < N)); p, p2 = at(k), at(l)
        I.oblige('indices of two different samples', z3.And(0 <= p[1], p[1] < n, 0 <= p[2], p[2] < n, p[1] != p[2]))
        I.oblige('the first index is preferred', p[0] == -1)
        I.oblige('the preferred side does not have the smaller value', Y(p[1]) >= Y(p[2]))
        I.oblige('no pair twice', z3.Implies(z3.And(p[1] == p2[1], p[2] == p2[2]), k == l))
        i, j = skin(I, n, 'i', 'j'); I.assume(i != j); h = []
        for g, r in perms: h += [simp(x) for a, b in ((i, j), (j, i)) for x in (r(a), n - 1 - r(a), r(a) - r(b) - 1, (n - 1 - r(a)) - (n - 1 - r(b)) - 1, n - 1 - r(a) - (n - 1 - r(b) + 1))]
        I.assume(z3.And(T(i), T(j), *hints(*h)))
        I.oblige('every two samples are compared', z3.Exists([q], z3.And(0 <= q, q < N, z3.Or(z3.And(at(q)[1] == i, at(q)[2] == j), z3.And(at(q)[1] == j, at(q)[2] == i)))))
    return run
