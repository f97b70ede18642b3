"""Models holding training data, and batches added to them (shared by C04 and C05)."""
from .common import *
PM, GP = 'lop.models.PreferenceModel', 'lop.models.GP'
LO, HI = z3.RealVal('1/1000'), z3.RealVal('999/1000')
ALL = ('relative_discrete', 'ordinal', 'abs')
def samples(I, name, n, flat):
    d = z3.Int('d'); I.assume(d >= 1)
    return input_array(name, (n,) if flat else (n, d), 'real')
def rows(X, i, q): return Zreal(X.at(i)) if X.ndim == 1 else Zreal(X.at(i, q))
def spoil(I, *arrs):
    """the caller goes on using its arrays: what the model holds must not change with them"""
    for a in arrs:
        if isinstance(a, NDArray):
            v = {'int': z3.IntVal(-77), 'real': z3.RealVal(-77)}[a.dtype]; a.set_fn(lambda *i, v=v: v)
def intact(I, what, a, decl):
    if not isinstance(a, NDArray): return
    ix = [fresh('u') for _ in a.shape]; I.assume(z3.And(*[z3.And(0 <= x, x < Zr(n)) for x, n in zip(ix, a.shape)]))
    I.oblige('the caller\'s %s are left alone' % what, Zr(a.at(*ix)) == decl(*ix))
def joined(I, what, got, old, N, new, n, shp):
    """got is old (length N, or None) followed by new (length n); values by position"""
    if not isinstance(got, NDArray) or got.ndim != 1 + len(shp): I.record(what + ' are held as one array', False, info=repr(got)); raise PathEnd()
    I.oblige('%s: number' % what, Zr(got.shape[0]) == Zr(N) + Zr(n))
    for k, s in enumerate(shp): I.oblige('%s: width' % what, Zr(got.shape[1 + k]) == Zr(s))
    c = [fresh('c') for _ in shp]; I.assume(z3.And(*[z3.And(0 <= x, x < Zr(s)) for x, s in zip(c, shp)]) if shp else z3.BoolVal(True))
    if old is not None:
        i = skin(I, Zr(N), 'i'); I.oblige('%s added earlier stay as they were' % what, Zr(got.at(i, *c)) == Zr(old(i, *c)))
    j = skin(I, Zr(n), 'j'); I.oblige('%s of the batch come last, in order' % what, Zr(got.at(simp(Zr(N) + j), *c)) == Zr(new(j, *c)))

KIND = {'relative_discrete': 0, 'ordinal': 1, 'abs': 2}
def state(I, N, flat, has):
    """a preference model holding N samples and the given kinds of labels"""
    m = I.call(I.cls(PM, 'PreferenceModel'), [], {}); y = [None]*3; L = {}
    for k in has:
        M = z3.Int('m_' + k); I.assume(M >= 0); L[k] = M
        y[KIND[k]] = input_array('pairs', (M, 3), 'int') if k == 'relative_discrete' else (input_array('v_' + k, (M,), 'int' if k == 'ordinal' else 'real'), input_array('ix_' + k, (M,), 'int'))
    X = samples(I, 'X', N, flat) if N is not None else None
    m.attrs.update(X_train=X, y_train=list(y), optimized=True); return m, X, y, L
def batch(I, kind, form, n):
    """(argument, caller's arrays, number of labels, label(j): values as given)"""
    k = z3.Int('k_new'); I.assume(k >= 0)
    if kind == 'relative_discrete':
        P = input_array('new_pairs', (k, 3), 'int'); lab = lambda j: [P.decl(j, z3.IntVal(c)) for c in range(3)]
        if form == 'empty': return [], (), 0, None
        I.assume(k >= 1)
        if form == 'array': return P, (P,), k, lab
        if form == 'one': t = [z3.Int('p%d' % c) for c in range(3)]; return [tuple(t)], (), 1, lambda j: t
        return SymList(k, lambda i: tuple(lab(Zr(i)))), (), k, lab
    dt = 'int' if kind == 'ordinal' else 'real'; v = input_array('new_v', (n,), dt); w = input_array('new_w', (k,), dt); ix = input_array('new_ix', (k,), 'int')
    if form == 'vector': return v, (v,), n, lambda j: [v.decl(j), j]
    if form == 'list': return SymList(n, lambda i: v.decl(Zr(i))), (), n, lambda j: [v.decl(j), j]
    if form == 'table':
        t = input_array('new_t', (k, 2), 'int'); return t, (t,), k, lambda j: [t.decl(j, z3.IntVal(0)), t.decl(j, z3.IntVal(1))]
    return (w, ix), (w, ix), k, lambda j: [w.decl(j), ix.decl(j)]
def clipped(v): return z3.If(v < LO, LO, z3.If(v > HI, HI, v))

