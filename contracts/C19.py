"""Line searches, Newton step, the objective of the mode search and its derivatives, the linear preference model."""
from .common import *
from pydv import loops
MM, MG, ML = 'lop.models.PreferenceModel', 'lop.models.PreferenceGP', 'lop.models.PreferenceLinear'
ASSUMPTIONS = ['objectives are arbitrary finite real-valued functions of the vector', 'np.linalg.inv / cholesky are exact; covariance matrices are symmetric', 'per-likelihood derivatives obey their own contracts (C07-C09)']
BOUNDED = 'fits on random data; grids whose float arange has one more point than the real one'

def objective(I, n):
    L = z3.Function('loss', *([RS]*(n+1)))
    calls = []
    def f(I_, a, kw):
        v = I.np.arr(a[0]).snapshot(); calls.append(list(a[1:]))
        r = L(*[Zreal(v.at(z3.IntVal(q))) for q in range(n)]); I_.assume(z3.And(r > -INF, r < INF)); return r
    return Builtin('loss', f), L, calls

def vecs(I, n): return input_array('F', (n,), 'real'), input_array('D', (n,), 'real')
def at(L, F, D, lam, n): return L(*[F.at(q) - Zreal(lam)*D.at(q) for q in range(n)])
def pm(I): return I.new(I.cls(MM, 'PreferenceModel'))

def grid(n, K):
    @unit('grid line search: best of the steps it examined (%s, %d-vector)' % ('any number of steps' if K is None else '%d steps' % K, n), [MM + ':PreferenceModel.iterative_line_search'], timeout=120, complete=K is not None)
    def u(I):
        a, b = z3.Reals('lmin lmax'); I.assume(z3.And(a < b, a >= 0))
        k = z3.IntVal(K) if K is not None else z3.Int('K'); I.assume(k > 0)
        def run():
            g = pm(I); F, D = vecs(I, n); f, L, calls = objective(I, n)
            step = (b - a)/z3.ToReal(k)
            lam = lambda i: a + z3.ToReal(zi(i))*step
            if K is None:
                def inv(env, it):
                    v = env.vars; j = z3.Int('q!g')
                    bl, bs = v.get('best_lamb'), v.get('best_loss')
                    if isinstance(bs, float):       # nothing examined yet
                        return [('start', z3.BoolVal(True))]
                    i0 = z3.Int('q!w')
                    return [('best is an examined step', z3.Exists([i0], z3.And(0 <= i0, i0 < it, Zreal(bl) == lam(i0)))), ('best loss belongs to the best step', Zreal(bs) == at(L, F, D, bl, n)),
                            ('no examined step is better', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it), at(L, F, D, lam(j), n) <= Zreal(bs))))]
                loops.use_inv(I, 'PreferenceModel.iterative_line_search', inv)
            r = I.call(I.getattr(g, 'iterative_line_search'), [F, D, f, ('arg1', 'arg2')], {'min_lambda': a, 'max_lambda': b, 'max_itr': K if K is not None else k})
            i = skin(I, k, 'i')
            I.oblige('no step on the grid is better', at(L, F, D, lam(i), n) <= at(L, F, D, r, n))
            if K is not None: I.oblige('a step of the grid is returned', z3.Or(*[Zreal(r) == lam(q) for q in range(K)]))
            I.oblige('inside the interval', z3.And(Zreal(r) >= a, Zreal(r) < b))
            I.record('the extra arguments reach the objective', all(c == ['arg1', 'arg2'] for c in calls) or None)
        return run
for n_, K_ in ((1, 2), (2, 3), (2, 4), (2, None)): grid(n_, K_)

def binary(n, K):
    @unit('binary line search halves the interval towards the better probe (%d halvings, %d-vector)' % (K, n), [MM + ':PreferenceModel.binary_line_search'], timeout=120)
    def u(I):
        a, b = z3.Reals('lmin lmax'); I.assume(z3.And(a < b, a >= 0))
        def run():
            g = pm(I); F, D = vecs(I, n); f, L, calls = objective(I, n)
            r = I.call(I.getattr(g, 'binary_line_search'), [F, D, f, ('arg1',)], {'min_lambda': a, 'max_lambda': b, 'max_itr': K})
            # the interval after q halvings is [lo_q, hi_q]; its choice is read off the path
            lo, hi = a, b
            for q in range(K):
                d = hi - lo; mid = lo + d/2
                up = I.branch(at(L, F, D, lo + d/4, n) > at(L, F, D, lo + d*3/4, n))
                lo, hi = (lo, mid) if up else (mid, hi)
            same(I, 'midpoint of the final interval', r, (lo + hi)/2)
            I.oblige('inside the searched interval', z3.And(Zreal(r) >= a, Zreal(r) <= b))
            I.record('the extra arguments reach the objective', all(c == ['arg1'] for c in calls) or None)
        return run
for n_, K_ in ((1, 0), (1, 1), (2, 2), (1, 4)): binary(n_, K_)

@unit('binary line search stays inside the interval (any number of halvings)', [MM + ':PreferenceModel.binary_line_search'], timeout=120, complete=False)
def ub(I):
    a, b = z3.Reals('lmin lmax'); k = z3.Int('K'); I.assume(z3.And(a < b, a >= 0, k >= 0))
    def run():
        g = pm(I); F, D = vecs(I, 2); f, L, calls = objective(I, 2)
        def inv(env, it):
            lo, hi = env.vars.get('min_lambda'), env.vars.get('max_lambda')
            return [('interval shrinks', z3.And(a <= Zreal(lo), Zreal(lo) < Zreal(hi), Zreal(hi) <= b))]
        loops.use_inv(I, 'PreferenceModel.binary_line_search', inv)
        r = I.call(I.getattr(g, 'binary_line_search'), [F, D, f, ()], {'min_lambda': a, 'max_lambda': b, 'max_itr': k})
        I.oblige('inside the searched interval', z3.And(Zreal(r) > a, Zreal(r) < b))
    return run

def newton(kind, fail):
    @unit('Newton step: F - lambda * gradient @ inverse Hessian (%s%s)' % (kind, ', inversion fails' if fail else ''), [MM + ':PreferenceModel.newton_update'], timeout=60)
    def u(I):
        n = z3.Int('n'); I.assume(n > 0)
        def run():
            g = pm(I); F = input_array('F', (n,), 'real'); G = input_array('G', (n,), 'real'); H = input_array('H', (n, n), 'real')
            lam = z3.Real('lam'); seen = []
            def ls(I_, a, kw):
                seen.append((a[1:], kw)); return lam
            I.contracts['PreferenceModel.binary_line_search' if kind == 'binary' else 'PreferenceModel.iterative_line_search'] = ls
            loss = Builtin('loss', lambda *a: None)
            def inv(I_, a, kw):
                if fail: raise PyRaise('LinAlgError', 'singular')
                return I.lib['numpy.linalg.inv'](I_, a, kw)
            r = I.call(I.getattr(g, 'newton_update'), [F, G, H, loss], {'loss_args': ('x', 'y'), 'invert_function': Builtin('inv', inv), 'lambda_type': kind, 'line_search_max_itr': 7})
            shape(I, 'step', r, (n,)); i = skin(I, n, 'i')
            P = None if fail else I.np.arr(I.lib['numpy.linalg.inv'](I, [H], {}))
            des = lambda q: G.at(q) if fail else mk_sum(n, lambda p: G.at(p)*P.at(p, q))
            same(I, 'updated vector', r.at(i), F.at(i) - lam*des(i))
            I.record('one line search', len(seen) == 1 or None)
            if len(seen) == 1:
                a, kw = seen[0]; kw = dict(zip(('F', 'descent', 'loss_func', 'loss_args'), a), **kw)
                same(I, 'search starts at F', I.np.arr(kw['F']).at(i), F.at(i)); same(I, 'search direction', I.np.arr(kw['descent']).at(i), des(i))
                I.record('objective, its arguments and the iteration limit are passed on', (kw['loss_func'] is loss and tuple(kw['loss_args']) == ('x', 'y') and concrete(kw.get('max_itr')) == 7) or None)
        return run
for k_ in ('binary', 'iter'):
    newton(k_, False); newton(k_, True)

# ---------------------------------------------------------------- sums over the likelihoods
CONF = [c for c in [(p, o, a) for p in (0, 1) for o in (0, 1) for a in (0, 1)]]
def stub_probits(I, g, n):
    """three likelihoods known by contract: derivatives(y, F) and log_likelihood(y, F) of that label set and latent vector"""
    out = []; seen = []
    for b in range(3):
        W, G, L = input_array('W%d' % b, (n, n), 'real'), input_array('G%d' % b, (n,), 'real'), z3.Real('L%d' % b)
        y = Obj(None, {'labels': b})
        def der(I_, a, kw, W=W, G=G, L=L, b=b): seen.append((b, a[0], I.np.arr(a[1]).snapshot())); return (W.snapshot(), G.snapshot(), L)
        def ll(I_, a, kw, L=L, b=b): seen.append((b, a[0], I.np.arr(a[1]).snapshot())); return L
        out.append((W, G, L, y)); g.attrs['probits'][b] = Obj(None, {'derivatives': Builtin('derivatives', der), 'log_likelihood': Builtin('log_likelihood', ll)})
    return out, seen
def right(I, nm, seen, st, F, i, use):
    I.record(nm + ': each likelihood with data is asked once, with its own labels', (sorted(s[0] for s in seen) == use and all(s[1] is st[s[0]][3] for s in seen)) or None)
    for s in seen: same(I, nm + ': evaluated at the latent vector', s[2].at(i), F(i))
def agg(conf):
    nm = '+'.join(x for x, c in zip(('pairs', 'ordinal', 'ratings'), conf) if c) or 'no labels'
    use = [b for b in range(3) if conf[b]]
    z = z3.RealVal(0)
    @unit('likelihoods add up: ' + nm, [MG + ':PreferenceGP.derivatives', 'PreferenceModel.log_likelyhood_training'], timeout=60)
    def u(I):
        n = z3.Int('n'); I.assume(n > 0)
        def run():
            g = I.new(I.cls(MG, 'PreferenceGP'), abstract_kernel(I)[0])
            st, seen = stub_probits(I, g, n); F = input_array('F', (n,), 'real'); y = [st[b][3] if conf[b] else None for b in range(3)]
            r = I.call(I.getattr(g, 'derivatives'), [y, F], {})
            i, j = skin(I, n, 'i', 'j')
            same(I, 'W', r[0].at(i, j), z + sum(st[b][0].at(i, j) for b in use)); same(I, 'gradient', r[1].at(i), z + sum(st[b][1].at(i) for b in use)); same(I, 'log likelihood', r[2], z + sum(st[b][2] for b in use))
            right(I, 'derivatives', seen, st, F.at, i, use)
            del seen[:]
            same(I, 'log_likelyhood_training (labels given)', I.call(I.getattr(g, 'log_likelyhood_training'), [F, y], {}), z + sum(st[b][2] for b in use))
            right(I, 'log likelihood', seen, st, F.at, i, use)
            g.attrs['y_train'] = y
            same(I, 'log_likelyhood_training (own labels)', I.call(I.getattr(g, 'log_likelyhood_training'), [F], {}), z + sum(st[b][2] for b in use))
        return run
    @unit('linear model: chain rule, ' + nm, [ML + ':PreferenceLinear.derivatives', 'PreferenceLinear.loss_func'], timeout=60)
    def v(I):
        n, d = z3.Ints('n d'); I.assume(z3.And(n > 0, d > 0))
        def run():
            for own in (True, False):
                g = I.new(I.cls(ML, 'PreferenceLinear')); s_ = '' if own else ' (labels given by the caller)'
                st, seen = stub_probits(I, g, n); X = input_array('X', (n, d), 'real'); w = input_array('w', (d,), 'real'); y = [st[b][3] if conf[b] else None for b in range(3)]
                g.attrs['X_train'] = X
                if own: g.attrs['y_train'] = y
                F = lambda i: mk_sum(d, lambda q: X.at(i, q)*w.at(q))
                r = I.call(I.getattr(g, 'derivatives'), [X, y, w], {})
                i = skin(I, n, 'i'); p, q = skin(I, d, 'p', 'q')
                shape(I, 'W' + s_, r[0], (d, d)); shape(I, 'gradient' + s_, r[1], (d,))
                same(I, 'gradient' + s_, r[1].at(p), z + mk_sum(n, lambda a: (z + sum(st[b][1].at(a) for b in use))*X.at(a, p)))
                same(I, 'W' + s_, r[0].at(p, q), z + mk_sum(n, lambda a: mk_sum(n, lambda c: X.at(a, p)*(z + sum(st[b][0].at(a, c) for b in use))*X.at(c, q))))
                same(I, 'log likelihood' + s_, r[2], z + sum(st[b][2] for b in use))
                right(I, 'derivatives' + s_, seen, st, F, i, use)
                if own:
                    del seen[:]
                    same(I, 'loss_func is the log likelihood', I.call(I.getattr(g, 'loss_func'), [w], {}), z + sum(st[b][2] for b in use))
                    right(I, 'loss_func', seen, st, F, i, use)
                P = input_array('P', (n, d), 'real'); g.attrs.update(w=w, optimized=True)
                if own:
                    pr = I.call(I.getattr(g, 'predict'), [P], {})[0]
                    same(I, 'prediction is linear in the weights', pr.at(i), mk_sum(d, lambda q: P.at(i, q)*w.at(q)))
        return run
for c_ in CONF: agg(c_)

# ---------------------------------------------------------------- the mode search
def gp(I):
    n, d = z3.Ints('n d'); nz = z3.Real('noise'); I.assume(z3.And(n > 0, d > 0, nz >= 0))
    return n, d, nz

@unit('objective of the mode search and its gradient', [MG + ':PreferenceGP.likli_f'], timeout=60)
def uo(I):
    n, d, nz = gp(I)
    def run():
        k, kf = abstract_kernel(I, nz); g = I.new(I.cls(MG, 'PreferenceGP'), k); T = input_array('T', (n, d), 'real')
        K = I.call(I.getattr(k, 'cov'), [T, T], {}); L = I.np.arr(I.lib['numpy.linalg.cholesky'](I, [K], {})); P = I.np.arr(I.lib['numpy.linalg.inv'](I, [K], {}))
        F = input_array('F', (n,), 'real'); ll = z3.Real('ll'); y = Obj(None, {})
        I.contracts['PreferenceModel.log_likelyhood_training'] = lambda I_, a, kw: ll
        r = I.call(I.getattr(g, 'likli_f'), [F, T, y, K, L], {})
        q = mk_sum(n, lambda a: mk_sum(n, lambda b: F.at(a)*P.at(a, b)*F.at(b)))
        same(I, 'log posterior', r, ll - q/2 - mk_sum(n, lambda a: s_log(L.at(a, a))) - z3.ToReal(n)/2*s_log(2*PI))
        i = skin(I, n, 'i')
        same(I, 'the prior part of its gradient is -K^-1 F', ring.diff_fn(Zr(r), F.decl, [i]), -mk_sum(n, lambda b: P.at(i, b)*F.at(b)))
    return run

@unit('the mode search steps along the gradient and curvature of its objective', [MG + ':PreferenceGP.find_mode'], timeout=120, complete=False)
def us(I):
    n, d, nz = gp(I)
    def run():
        k, kf = abstract_kernel(I, nz); g = I.new(I.cls(MG, 'PreferenceGP'), k); T = input_array('T', (n, d), 'real'); y = Obj(None, {})
        got = []
        def deriv(I_, a, kw):
            r = (fresh_array('W', (n, n), 'real'), fresh_array('grad', (n,), 'real'), fresh('ll', 'real')); got.append((a[1], I.np.arr(a[2]).snapshot(), r)); return r
        I.contracts['PreferenceGP.derivatives'] = deriv
        def newton(I_, a, kw):
            F, G, H = [I.np.arr(x).snapshot() for x in a[1:4]]
            i, j = skin(I, n, 'i', 'j')
            yl, Fl, (W, gl, _) = got[-1]
            K = NDArray((n, n), lambda p, q: kf(T, p, T, q) + z3.If(p == q, nz, z3.RealVal(0)), 'real')
            P = I.np.arr(I.lib['numpy.linalg.inv'](I, [K], {}))
            eq(I, 'derivatives are those of the point being updated', Fl.at(i), F.at(i)); I.record('with the labels given', yl is y or None)
            same(I, 'gradient of the log posterior', G.at(i), gl.at(i) - mk_sum(n, lambda b: P.at(i, b)*F.at(b)))
            same(I, 'Hessian of the log posterior', H.at(i, j), -W.at(i, j) - P.at(i, j))
            args = kw.get('loss_args', a[5] if len(a) > 5 else ()); f = a[4] if len(a) > 4 else kw.get('loss_func')
            I.record('objective is likli_f of this model', (isinstance(f, Bound) and f.self_ is g and f.fn.name == 'likli_f') or None)
            if len(args) == 4:
                I.record('objective gets the samples and labels', (args[0] is T and args[1] is y) or None)
                same(I, 'objective gets the covariance', I.np.arr(args[2]).at(i, j), K.at(i, j))
            else: I.record('objective arguments', None)
            return fresh_array('Fnew', (n,), 'real')
        I.contracts['PreferenceModel.newton_update'] = newton
        I.call(I.getattr(g, 'find_mode'), [T, y], {})
        I.record('find_mode returns', True)
    return run

@unit('linear fit: steps along the gradient and curvature of the log likelihood', [ML + ':PreferenceLinear.optimize'], timeout=120, complete=False)
def ul(I):
    n, d = z3.Ints('n d'); I.assume(z3.And(n > 0, d > 0))
    def run():
        g = I.new(I.cls(ML, 'PreferenceLinear')); T = input_array('T', (n, d), 'real'); y = [None, None, None]
        g.attrs.update(X_train=T, y_train=y); got = []; new = []
        def deriv(I_, a, kw):
            r = (fresh_array('W', (d, d), 'real'), fresh_array('grad', (d,), 'real'), fresh('ll', 'real')); got.append((a[1], a[2], I.np.arr(a[3]).snapshot(), r)); return r
        I.contracts['PreferenceLinear.derivatives'] = deriv
        def newton(I_, a, kw):
            nm = dict(zip(('F', 'gradient', 'hess', 'loss_func', 'loss_args'), a[1:]), **kw)
            F, G, H = [I.np.arr(nm[x]).snapshot() for x in ('F', 'gradient', 'hess')]
            i, j = skin(I, d, 'i', 'j')
            x, yl, wl, (W, gl, _) = got[-1]
            eq(I, 'derivatives are those of the weights being updated', wl.at(i), F.at(i)); I.record('on the training data', (x is T and yl is y) or None)
            same(I, 'gradient', G.at(i), gl.at(i)); same(I, 'Hessian', H.at(i, j), -W.at(i, j))
            f = nm.get('loss_func'); I.record('objective is loss_func of this model', (isinstance(f, Bound) and f.self_ is g and f.fn.name == 'loss_func') or None)
            r = fresh_array('wnew', (d,), 'real'); new.append(r); return r
        I.contracts['PreferenceModel.newton_update'] = newton
        I.call(I.getattr(g, 'optimize'), [], {})
        shape(I, 'weights', attr(g, 'w'), (d,)); I.record('counts as optimised', attr(g, 'optimized') is True or None)
    return run
