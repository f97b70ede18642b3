"""Adding training data: every sample and label stays, attached to the sample it was given for."""
from .train import *
ASSUMPTIONS = ['one induction step: a model in any state, one further batch', 'labels are given in the documented forms (arrays, lists of pairs, value/index tuples); ratings at 0 and 1 are moved to 0.001 and 0.999',
               'the mean function of a Gaussian process is a function of the sample']
BOUNDED = 'sequences of up to six batches through PreferenceGP and PreferenceLinear'

# ------------------------------------------------------------------ regression values
def gp(first, sig, flat, mean):
    @unit('GP.add, %s batch%s%s%s' % ('first' if first else 'later', {'default': ', default confidence', 'number': ', one confidence', 'array': ', a confidence per sample', 'list': ', a list of confidences'}[sig],
                                    ', one-dimensional samples' if flat else '', ', with a mean function' if mean else ''), [GP + ':GP.add', 'GP.__init__', 'GP.reset'])
    def u(I):
        N, n = z3.Ints('N n'); I.assume(z3.And(N >= 0, n >= 0)); X, Xn = samples(I, 'X', N, flat), samples(I, 'Xn', n, flat); y, yn = input_array('y', (N,), 'real'), input_array('yn', (n,), 'real')
        s, sn = input_array('s', (N,), 'real'), input_array('sn', (n,), 'real'); s0 = z3.Real('s0'); d = Xn.shape[1:]
        mf = z3.Function('mf', RS, RS); mrow = lambda A, i: mf(rows(A, i, None)) if A.ndim == 1 else mf(mk_node('lin', A.shape[1], lambda q: Zreal(A.at(i, q))))
        def run():
            f = Builtin('mean', lambda I_, a, k: (lambda A: NDArray((A.shape[0],), lambda i: mrow(A, i), 'real'))(a[0].snapshot()))
            m = I.call(I.cls(GP, 'GP'), [None], {'mean_func': f} if mean else {}); o = Xn.snapshot()
            if not first: m.attrs.update(X_train=X, y_train=y, training_sigma=s)
            kw = {'default': {}, 'number': {'training_sigma': s0}, 'array': {'training_sigma': sn}, 'list': {'training_sigma': SymList(n, lambda i: sn.decl(Zr(i)))}}[sig]
            I.call(I.getattr(m, 'add'), [Xn, yn], kw)
            for w, a in (('samples', Xn), ('values', yn), ('confidences', sn)): intact(I, w, a, a.decl)
            spoil(I, Xn, yn, sn)
            B = 0 if first else N; sg = attr(m, 'training_sigma')
            joined(I, 'samples', attr(m, 'X_train'), None if first else X.decl, B, Xn.decl, n, d)
            joined(I, 'values', attr(m, 'y_train'), None if first else y.decl, B, lambda i: yn.decl(i) - (mrow(o, i) if mean else 0), n, ())
            if isinstance(sg, SymList): sg = I.np.arr(sg)
            joined(I, 'confidences', sg, None if first else s.decl, B, lambda i: sn.decl(i) if sig in ('array', 'list') else s0 if sig == 'number' else z3.RealVal('5/10000'), n, ())
        return run
for first_ in (True, False):
    for sig_ in ('default', 'number', 'array', 'list'): gp(first_, sig_, False, sig_ == 'array')
    gp(first_, 'number', True, False); gp(first_, 'default', True, True)

@unit('GP.reset forgets everything', [GP + ':GP.reset'])
def u_reset(I):
    def run():
        m = I.call(I.cls(GP, 'GP'), [None], {}); m.attrs.update(X_train=input_array('X', (z3.Int('N'), z3.Int('d')), 'real'), y_train=input_array('y', (z3.Int('N'),), 'real'), training_sigma=input_array('s', (z3.Int('N'),), 'real'))
        I.call(I.getattr(m, 'reset'), [], {}); I.record('no data left', m.attrs['X_train'] is None and m.attrs['y_train'] is None)
    return run

# ------------------------------------------------------------------ preference models
def add(kind, form, first, held, flat=False):
    nm = '%s as %s, %s%s' % (kind, form, 'an empty model' if first else 'a model with samples', '' if first or not held else ' and %s labels' % ', '.join(held))
    @unit('add: ' + nm + (', one-dimensional samples' if flat else ''), [PM + ':PreferenceModel.add', 'PreferenceModel.__init__'])
    def u(I):
        N, n = z3.Ints('N n'); I.assume(z3.And(N >= 1, n >= 0)); I.branch_timeout = 300
        def run():
            m, X, old, L = state(I, None if first else N, flat, held); Xn = samples(I, 'Xn', n, flat); arg, arrs, k, lab = batch(I, kind, form, n); B = z3.IntVal(0) if first else N
            def same_state(what, which):
                for j in which: I.record('%s (%s)' % (what, list(KIND)[j]), m.attrs['y_train'][j] is old[j] or isinstance(old[j], tuple) and isinstance(m.attrs['y_train'][j], tuple) and all(a is b for a, b in zip(old[j], m.attrs['y_train'][j])))
            try: I.call(I.getattr(m, 'add'), [Xn, arg], {} if kind == 'relative_discrete' else {'type': kind})
            except PyRaise as e:
                j = z3.Int('q!j'); v = lab(j)[0] if lab else z3.IntVal(1)
                bad = z3.Exists([j], z3.And(0 <= j, j < Zr(k), z3.Or(v < 0, v > 1) if kind == 'abs' else v <= 0))
                I.oblige('labels are only refused for a reason', bad if kind != 'relative_discrete' else z3.BoolVal(False))
                I.record('a refused batch adds no samples', m.attrs['X_train'] is X or (None if isinstance(m.attrs['X_train'], NDArray) and X is not None and I.entails(Zr(m.attrs['X_train'].shape[0]) == Zr(X.shape[0])) else False)); same_state('a refused batch leaves the labels', range(3)); return
            for a in (Xn,) + tuple(arrs): intact(I, 'arrays', a, a.decl)
            spoil(I, Xn, *arrs)
            I.record('the model is not optimised any more', m.attrs['optimized'] is False)
            joined(I, 'samples', attr(m, 'X_train'), None if first else X.decl, B, Xn.decl, n, Xn.shape[1:])
            same_state('other labels stay', [j for j in range(3) if j != KIND[kind]]); I.record('three kinds of labels', len(m.attrs['y_train']) == 3)
            got = m.attrs['y_train'][KIND[kind]]; o = old[KIND[kind]]
            if kind == 'relative_discrete':
                if got is None: I.oblige('no label is lost', Zr(k) == 0); I.record('earlier labels stay', o is None); return
                if form == 'empty': I.record('earlier labels stay', got is o or (None if o is not None and got is not None else False)); return
                joined(I, 'labels', got, o.decl if o is not None else None, L.get(kind, 0), lambda j, c: (lambda t: z3.If(c == 0, t[0], z3.If(c == 1, t[1] + B, t[2] + B)))(lab(j)), k, (3,))
            else:
                if not isinstance(got, tuple) or len(got) != 2: I.record('ratings are values and samples', False, info=repr(got)); return
                ov, oi = (o[0].decl, o[1].decl) if o is not None else (None, None)
                joined(I, 'values', got[0], ov, L.get(kind, 0), lambda j: clipped(lab(j)[0]) if kind == 'abs' else lab(j)[0], k, ())
                joined(I, 'samples of the values', got[1], oi, L.get(kind, 0), lambda j: lab(j)[1] + B, k, ())
        return run
for kind_, forms_ in (('relative_discrete', ('list', 'array', 'empty', 'one')), ('ordinal', ('vector', 'list', 'table')), ('abs', ('vector', 'values and indices'))):
    for form_ in forms_:
        for first_, held_ in ((True, ()), (False, ()), (False, (kind_,)), (False, ALL), (False, tuple(x for x in ALL if x != kind_))): add(kind_, form_, first_, held_)
    add(kind_, forms_[0], True, (), True); add(kind_, forms_[0], False, ALL, True)

@unit('PreferenceModel.reset forgets everything', [PM + ':PreferenceModel.reset'])
def u_reset2(I):
    def run():
        m, X, old, L = state(I, z3.Int('N'), False, ALL); m.attrs['prior_idx'] = (0, 1)
        I.call(I.getattr(m, 'reset'), [], {}); y = m.attrs['y_train']; I.record('no data left', m.attrs['X_train'] is None and len(y) == 3 and all(x is None for x in y) and m.attrs['prior_idx'] is None)
    return run
