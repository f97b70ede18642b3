"""Cross-validation splits."""
from .common import *
M = 'lop.utilities.training_utility'
ASSUMPTIONS = ['labels refer to samples that exist', 'the indices of a split are distinct']
BOUNDED = 'up to 14 samples, all fold counts, random pairs and ratings'
T = core.TOUCH

def labels(I, N, which):
    y = []
    for k, w in zip('poa', which):
        if not w: y.append(None); continue
        m = z3.Int('m' + k); I.assume(m >= 0)
        if k == 'p':
            A = input_array('pairs', (m, z3.IntVal(3)), 'int'); add_fact(A.decl, lambda i, j: z3.Implies(z3.And(0 <= i, i < m, 1 <= j, j <= 2), z3.And(0 <= A.decl(i, j), A.decl(i, j) < N)))
            y.append(A)
        else:
            v = input_array('val' + k, (m,), 'int' if k == 'o' else 'real'); ix = input_array('idx' + k, (m,), 'int')
            add_fact(ix.decl, lambda i, m=m, ix=ix: z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= ix.decl(i), ix.decl(i) < N)))
            y.append((v, ix))
    return y

def relabel(I, at, pos, inn, old, new, what, kind):
    """new holds exactly the labels of old whose samples are in the split, in order, pointing at the same samples"""
    q = z3.Int('q!')

def get_y(which, name):
    @unit('get_y_with_idx, %s' % name, [M + ':get_y_with_idx'])
    def u(I):
        N, n = z3.Ints('N n'); I.branch_timeout = 200; I.assume(z3.And(N >= 0, n >= 0)); I.ob_tries = ((0, False), (0, True))
        S = input_array('split', (n,), 'int'); s = S.decl; w = z3.Function('where', IS, IS)
        add_fact(s, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(w(s(i)) == i, 0 <= s(i), s(i) < N)))
        y = labels(I, N, which); inn = lambda x: z3.And(0 <= w(x), w(x) < n, s(w(x)) == x)
        def run():
            r = I.call(I.fn(M, 'get_y_with_idx'), [y, SymList(n, lambda i: s(Zr(i)))], {})
            I.record('three kinds of labels', isinstance(r, (list, tuple)) and len(r) == 3)
            for j in range(3):
                a, b = y[j], r[j]
                if a is None: I.record('no labels stay no labels (%d)' % j, b is None); continue
                m = Zr((a if j == 0 else a[0]).shape[0]); o = (lambda i: [a.at(i, z3.IntVal(c)) for c in range(3)]) if j == 0 else (lambda i: [a[0].at(i), a[1].at(i)])
                inside = lambda i: z3.And(*[inn(x) for x in o(i)[1:]])
                i = skin(I, m, 'i')
                if b is None: I.oblige('labels inside the split are kept (%d)' % j, z3.Not(inside(i))); continue
                M_ = Zr((b if j == 0 else b[0]).shape[0]); nw = (lambda i: [b.at(i, z3.IntVal(c)) for c in range(3)]) if j == 0 else (lambda i: [b[0].at(i), b[1].at(i)])
                if j: I.oblige('as many values as indices (%d)' % j, Zr(b[1].shape[0]) == M_)
                k = fresh('k'); q = z3.Int('q!'); I.assume(z3.And(0 <= k, k < M_)); x = nw(k)
                I.oblige('indices are positions in the split (%d)' % j, z3.And(*[z3.And(0 <= e, e < n) for e in x[1:]]))
                I.oblige('every label is an old one about the same samples (%d)' % j, z3.Exists([q], z3.And(0 <= q, q < m, o(q)[0] == x[0], *[s(e) == f for e, f in zip(x[1:], o(q)[1:])])))
                I.assume(z3.And(inside(i), T(i)))
                I.oblige('every label inside the split is kept (%d)' % j, z3.Exists([q], z3.And(0 <= q, q < M_, nw(q)[0] == o(i)[0], *[s(e) == f for e, f in zip(nw(q)[1:], o(i)[1:])])))
        return run
for w_, n_ in (((1, 0, 0), 'pairs'), ((0, 1, 0), 'ordinal ratings'), ((0, 0, 1), 'bounded ratings'), ((1, 0, 1), 'pairs and bounded ratings'), ((0, 1, 1), 'both kinds of ratings'), ((0, 0, 0), 'nothing')): get_y(w_, n_)

G = 'lop.models.PreferenceGP'
def cross(k, size=None):
    @unit('PreferenceGP.optimize, %d folds, %s samples' % (k, size or 'at least 8'), [G + ':PreferenceGP.optimize'])
    def u(I):
        N, d = z3.Ints('N d'); I.branch_timeout = 300
        if size: N = z3.IntVal(size)
        I.assume(z3.And(N >= 2*k, d >= 1))
        X = input_array('X', (N, d), 'real'); x = X.decl; m = z3.Int('m'); I.assume(m >= 0)
        Y = [input_array('pairs', (m, z3.IntVal(3)), 'int'), None, None]
        ln = [z3.Int('len%d' % j) for j in range(k)]; sp = [z3.Function('fold%d' % j, IS, IS) for j in range(k)]
        for j in range(k):
            I.assume(ln[j] >= 0); add_fact(sp[j], lambda q, j=j: z3.Implies(z3.And(0 <= q, q < ln[j]), z3.And(0 <= sp[j](q), sp[j](q) < N)))
        st = {}
        def k_fold(I_, a, kw):
            I.record('the model\'s own data are split', (a[0] is X and a[1] is Y) or None); I.oblige('number of folds', Zr(a[2]) == k); st.clear()
            return [SymList(ln[j], lambda i, j=j: sp[j](Zr(i))) for j in range(k)]
        def get_y(I_, a, kw):
            I.record('labels of the training part', a[0] is Y or None); L = a[1]
            q = skin(I, Zr(L.n), 'q'); v = Zr(L.elem(q)); r = z3.Int('r!')
            st['L'] = L; out = [Opaque('labels'), None, None]; st['y'] = out; return out
        def training(I_, Xt, yt, what):
            if Xt is X: I.record(what + ': all data with all labels', yt is Y or None); st['full'] = True; return
            st['full'] = False
            L = st.get('L'); I.record(what + ': samples and labels of the same part', (yt is not None and yt is st.get('y') and isinstance(Xt, NDArray)) or None)
            if L is None or not isinstance(Xt, NDArray): return
            q = skin(I, Zr(L.n), 'q'); c = skin(I, d, 'c')
            I.oblige(what + ': as many samples as indices', Zr(Xt.shape[0]) == Zr(L.n)); I.oblige(what + ': the samples the labels refer to', Xt.at(q, c) == x(Zr(L.elem(q)), c))
        def find_mode(I_, a, kw): training(I_, a[1], a[2], 'mode search'); return None
        def search(I_, a, kw):
            training(I_, a[1], a[2], 'hyperparameter step'); I.record('validated on the model\'s own data', (a[3] is X and a[4] is Y) or None)
            j = concrete(a[6]) if len(a) > 6 else concrete(kw.get('itr')); L = st.get('L')
            if j is None or L is None: raise Unsupported('fold number')
            j = int(j); others = [o for o in range(k) if o != j]; r = z3.Int('r!')
            I.oblige('the training part is as large as the other folds together', Zr(L.n) == z3.Sum(*[ln[o] for o in others]))
            q = skin(I, Zr(L.n), 'q'); v = Zr(L.elem(q))
            I.oblige('every training sample is in another fold', z3.Or(*[z3.Exists([r], z3.And(0 <= r, r < ln[o], sp[o](r) == v)) for o in others]))
            for n_, o in enumerate(others):
                e = fresh('e'); I.assume(z3.And(0 <= e, e < ln[o])); r2 = z3.Int('r2!'); I.assume(T(simp(z3.Sum(*[ln[b] for b in others[:n_]], e) if n_ else e)))
                I.oblige('every sample of another fold is trained on', z3.Exists([r2], z3.And(0 <= r2, r2 < Zr(L.n), T(r2), Zr(L.elem(r2)) == sp[o](e))))
            return fresh('conv', 'bool')
        def run():
            I.contracts['k_fold_x_y'] = k_fold; I.contracts['get_y_with_idx'] = get_y; I.contracts['PreferenceGP.find_mode'] = find_mode; I.contracts['PreferenceGP.hyperparameter_search'] = search
            I.contracts['PreferenceGP.randomize_hyper'] = lambda I_, a, kw: None
            o = Obj(I.cls(G, 'PreferenceGP'), {'X_train': X, 'y_train': Y, 'optimized': False})
            st.clear(); I.call(I.getattr(o, 'optimize'), [True], {})
            I.record('ends with a fit of all data', st.get('full')); I.record('the model is marked as fitted', concrete(o.attrs.get('optimized')))
        return run
for k_, s_ in ((2, 4), (2, 5), (3, 6), (3, 7), (4, None)): cross(k_, s_)
