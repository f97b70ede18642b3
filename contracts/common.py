"""Shared specification vocabulary."""
import z3
from pydv.core import *
from pydv.values import *
from pydv import core, ring, loops
from pydv.contract import unit
from pydv.nplib import is_num
from pydv.interp import PyRaise, PathEnd

def zi(x): return z3.IntVal(x) if isinstance(x, int) else x

def pairs_input(m, n, name='y'):
    """preference labels (dk,u,v): m rows, dk in {-1,1}, u,v in [0,n)"""
    y = input_array(name, (m, 3), 'int')
    d = y.decl
    add_fact(d, lambda k, c: z3.Implies(z3.And(0 <= k, k < m, c >= 1, c <= 2), z3.And(d(k, c) >= 0, d(k, c) < n)))
    add_fact(d, lambda k, c: z3.Implies(z3.And(0 <= k, k < m, c == 0), z3.Or(d(k, c) == 1, d(k, c) == -1)))
    return y

def idx_input(name, m, n):
    y = input_array(name, (m,), 'int'); d = y.decl
    add_fact(d, lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.And(d(k) >= 0, d(k) < n)))
    return y

def same(I, name, a, b, hyps=(), info=None):
    """oblige a == b as rational functions over atoms and sums"""
    t = Zreal(a) - Zreal(b)
    r, why = ring.zero_sums(t, I.cx.pc, list(hyps))
    if r is not True and not hyps and ring.zero_multi(t, I.cx.pc): r, why = True, None
    if r is False and ring.SYM and any(z3.is_app(x) and x.num_args() == 2 and x.decl().name() in ring.SYM for x in walk([t])): r = None     # symmetry is not used in the refutation
    return I.record(name, r, info=None if r else {'difference': str(t)[:600], 'why': str(why)[:1200]})

def eq(I, name, a, b): return I.oblige(name, Zr(a) == Zr(b))

def shape(I, name, a, shp):
    if not isinstance(a, NDArray) or a.ndim != len(shp):
        return I.record(name + ': rank', False, info=repr(a))
    for k, (x, y) in enumerate(zip(a.shape, shp)): I.oblige('%s: shape[%d]' % (name, k), Zr(x) == Zr(y))

def sk(*names, lo=0, hi=None):
    return [fresh(n) for n in names]

def skin(I, n, *names):
    """fresh indices in [0,n)"""
    out = []
    for x in names:
        v = fresh(x); I.assume(z3.And(0 <= v, v < n)); out.append(v)
    return out if len(out) > 1 else out[0]

def attr(o, name):
    if name not in o.attrs: raise Unsupported('object has no attribute %s' % name)
    return o.attrs[name]

def abstract_kernel(I, noise=None, same=()):
    """a kernel known only through its contract (property C11): cov(X,Y)[i,j] == k(x_i, y_j), plus the observation noise on the
    diagonal when the two sets are one and the same array (RBF kernels). k is an uninterpreted symmetric function of two samples."""
    kf = z3.Function('kf', RS, RS, RS); ring.SYM.add('kf')
    def row(X, i):
        if X.ndim == 1: return Zreal(X.at(i))
        return mk_node('lin', X.shape[1], lambda q: Zreal(X.at(i, q)))
    def k(X, i, Y, j): return kf(row(X, i), row(Y, j))
    def same_arr(X, Y):
        if X is Y: return True
        if X.ndim != Y.ndim or not all(I.np.same_dim(a, b) for a, b in zip(X.shape, Y.shape)): return False
        i = fresh('i'); return z3.eq(row(X, i), row(Y, i))
    def cov(I_, a, kw):
        X, Y = [I.np.arr(x).snapshot() for x in a]
        eqs = noise is not None and same_arr(X, Y)
        return NDArray((X.shape[0], Y.shape[0]), lambda i, j: k(X, i, Y, j) + z3.If(i == j, noise, z3.RealVal(0)) if eqs else k(X, i, Y, j), 'real')
    o = Obj(None, {'cov': Builtin('kernel.cov', cov), 'get_param': Builtin('kernel.get_param', lambda I_, a, k_: input_array('kparam', (z3.Int('n_kparam'),), 'real'))})
    return o, k

def fa(vs, body, *pats):
    """ForAll with patterns where they are uninterpreted applications"""
    ok = pats and all(z3.is_app(p) and p.num_args() and p.decl().kind() == z3.Z3_OP_UNINTERPRETED for p in pats)
    try:
        if ok: return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
    except z3.Z3Exception: pass
    return z3.ForAll(vs, body)

def have(I, name, goal): I.oblige(name, goal); I.assume(goal)

def cut(I, name, goal, hyps, gen=()):
    """prove goal from the premises alone (each premise is obliged in the full context first), then use it"""
    for h in hyps: I.oblige(name + ': premise', h)
    g = [(t, fresh('gen', 'int' if t.sort() == IS else 'real')) for t in gen]        # generalise over these terms
    pc = I.cx.pc; I.cx.pc = [z3.substitute(h, *g) for h in hyps]
    try: I.oblige(name, z3.substitute(goal, *g))
    finally: I.cx.pc = pc
    I.assume(goal)

# ------------------------------------------------------------------ finite sums, counts and enumerations
def sum_nodes(t): return [core._NODES[x.get_id()] for x in walk([t]) if z3.is_const(x) and x.get_id() in core._NODES and core._NODES[x.get_id()].kind == 'sum']
def sum_zero(I, t, name='counts'):
    """sums of non-negative terms are non-negative, and zero exactly when every term is"""
    for nd in sum_nodes(t):
        q = fresh('q'); I.oblige('%s: a sum of non-negative terms' % name, z3.Implies(z3.And(0 <= q, q < nd.n), subst(nd.body, [(nd.var, q)]) >= 0))
        k = z3.Int('q!z'); w = fresh('w'); S = nd.const; b = lambda k: subst(nd.body, [(nd.var, Zr(k))])
        I.assume(S >= 0); I.assume(fa([k], z3.Implies(z3.And(S == 0, 0 <= k, k < nd.n), b(k) == 0)))
        I.assume(z3.Implies(S != 0, z3.And(0 <= w, w < nd.n, b(w) != 0)))
def sum_is(I, nd, F, name):
    """a sum over 0..n-1 is F(n) when F(0) == 0 and F(q+1) - F(q) is its q-th term"""
    q = fresh('q'); b = subst(nd.body, [(nd.var, q)]); g = z3.And(0 <= q, q < nd.n)
    I.oblige('%s: empty sum' % name, F(z3.IntVal(0)) == 0); I.oblige('%s: next term' % name, z3.Implies(g, F(q + 1) == F(q) + b))
    I.assume(z3.Implies(nd.n >= 0, nd.const == F(nd.n)))
def induct(I, name, claim, n, at):
    """claim(0), and claim(v) -> claim(v+1) for 0 <= v < n: claim holds at every point of [0, n]"""
    I.oblige(name + ': start', claim(z3.IntVal(0))); v = fresh('v'); I.assume(core.TOUCH(v)); I.oblige(name + ': step', z3.Implies(z3.And(0 <= v, v < n, claim(v)), claim(v + 1)))
    for x in at: I.assume(z3.Implies(z3.And(0 <= x, x <= n), claim(x)))
def rank_claim(C, g, cnt):
    """C(v): how many selected positions lie below v; g, cnt: their increasing enumeration"""
    return lambda v: z3.And(0 <= C(v), C(v) <= v, C(v) <= cnt, z3.Implies(C(v) < cnt, g(C(v)) >= v), z3.Implies(C(v) > 0, g(C(v) - 1) < v))

class scope:
    """obligations inside are proved from these premises alone"""
    def __init__(self, I, hyps): self.I, self.hyps = I, list(hyps)
    def __enter__(self): self.pc = self.I.cx.pc; self.I.cx.pc = self.hyps
    def __exit__(self, *a): self.I.cx.pc = self.pc
