"""The Pareto filter: exactly the rows no other row dominates (of equal rows, the first)."""
from .common import *
M = 'lop.utilities.pareto'
ASSUMPTIONS = ['values are real (no NaN)']
BOUNDED = 'float matrices with ties, infinities and duplicates, any number of columns'

def pareto(cols, mask):
    @unit('get_pareto, %s columns%s' % (cols if cols else 'any number of', ', as a mask' if mask else ''), [M + ':get_pareto'], timeout=120, complete=False)
    def u(I):
        n = z3.Int('n'); I.assume(n >= 0); I.branch_timeout = 200; I.ob_timeout = 7000; I.ob_tries = ((0, True), (1, False), (2, True), (3, False), (4, True), (5, False))
        k = cols if cols else z3.Int('cols')
        if not cols: I.assume(k > 0)
        V = input_array('V', (n, k), 'real'); a, b, c, q, r, i, j = z3.Ints('a! b! c! q! r! i! j!')
        z = z3.Bool('z!'); H = z3.Function('hint!', BS, BS)      # true everywhere: makes the solver look at a term
        I.assume(fa([a], core.TOUCH(a), core.TOUCH(a))); I.assume(z3.ForAll([z], H(z), patterns=[H(z)]))
        le = z3.Function('le', IS, IS, BS)          # row a is at most row b in every column
        if cols: I.assume(z3.ForAll([a, b], le(a, b) == z3.And(*[V.decl(a, z3.IntVal(t)) <= V.decl(b, z3.IntVal(t)) for t in range(cols)]), patterns=[le(a, b)]))
        else:       # definition of le, skolemised: a column that refutes it
            w = z3.Function('column!', IS, IS, IS); x = w(a, b)
            I.assume(z3.ForAll([a, b], z3.Implies(z3.Not(le(a, b)), z3.And(0 <= x, x < k, V.decl(a, x) > V.decl(b, x))), patterns=[le(a, b)]))
            for pt_ in (V.decl(a, c), V.decl(b, c)): I.assume(z3.ForAll([a, b, c], z3.Implies(z3.And(le(a, b), 0 <= c, c < k), V.decl(a, c) <= V.decl(b, c)), patterns=[z3.MultiPattern(le(a, b), pt_)]))
        I.assume(z3.ForAll([a, b, c], z3.Implies(z3.And(le(a, b), le(b, c)), le(a, c)), patterns=[z3.MultiPattern(le(a, b), le(b, c))]))      # lemma, shown below
        dom = lambda j, i: z3.And(le(i, j), z3.Or(z3.Not(le(j, i)), j < i))
        def run():
            def inv(env, it):
                v = env.vars; e, w, p = v.get('is_efficient'), v.get('values'), v.get('next_point_index')
                if not (isinstance(e, NDArray) and isinstance(w, NDArray) and is_num(p)): raise Unsupported('loop state of get_pareto')
                m = Zr(e.shape[0]); p = Zr(p); T = core.TOUCH
                return [('hint', T(p)), *([] if cols else [('hint', fa([q], H(le(e.at(q), e.at(p))), T(q)))]), ('as many values as indices', Zr(w.shape[0]) == m), ('position', z3.And(0 <= p, p <= m, m <= n)), ('width', Zr(w.shape[1]) == Zr(k)),
                        ('indices in range', fa([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(0 <= e.at(q), e.at(q) < n)), e.at(q))),
                        ('indices increase', fa([q, r], z3.Implies(z3.And(0 <= q, q < r, r < m), e.at(q) < e.at(r)), e.at(q), e.at(r))),
                        ('values are those of the indices', fa([q, c], z3.Implies(z3.And(0 <= q, q < m, 0 <= c, c < Zr(k)), Zreal(w.at(q, c)) == V.decl(e.at(q), c)), w.at(q, c))),
                        *([] if cols else [('values are those of the indices (read the other way)', fa([q, c], z3.Implies(z3.And(0 <= q, q < m, 0 <= c, c < Zr(k)), Zreal(w.at(q, c)) == V.decl(e.at(q), c)), V.decl(e.at(q), c)))]),
                        ('processed rows are dominated by nothing that is left', fa([q, r], z3.Implies(z3.And(0 <= q, q < p, 0 <= r, r < m, q != r), z3.Not(le(e.at(r), e.at(q)))), e.at(q), e.at(r))),
                        ('removed rows are dominated by one that is left', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Exists([q], z3.And(0 <= q, q < m, T(q), z3.Or(e.at(q) == i, dom(e.at(q), i)))))))]
            loops.use_inv(I, 'get_pareto', inv)
            res = I.call(I.fn(M, 'get_pareto'), [V], {'return_mask': True} if mask else {})
            x, y = skin(I, n, 'x', 'y')
            nondom = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(dom(j, x))))
            if mask:
                shape(I, 'mask', res, (n,))
                I.oblige('a row is marked exactly if no row dominates it', Zb(res.at(x)) == nondom)
            else:
                m = Zr(res.shape[0]); s = fresh('s'); I.assume(z3.And(0 <= s, s < m)); t = fresh('t')
                I.oblige('indices are rows', z3.And(0 <= res.at(s), res.at(s) < n))
                I.oblige('no returned row is dominated', z3.Implies(z3.And(0 <= y, y < n), z3.Not(dom(y, res.at(s)))))
                I.oblige('every row that nothing dominates is returned', z3.Implies(nondom, z3.Exists([q], z3.And(0 <= q, q < m, res.at(q) == x))))
                I.oblige('indices are in increasing order without repetition', z3.Implies(z3.And(0 <= t, t < s), res.at(t) < res.at(s)))
        return run
for c_ in (1, 2, 3):
    for m_ in (False, True): pareto(c_, m_)
pareto(None, False)

@unit('lemma: being at most in every column is transitive', [M + ':get_pareto'])
def ul(I):
    def run():
        V = z3.Function('V', IS, IS, RS); a, b, c, k, t = z3.Ints('a b c k t')
        le = lambda x, y: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), V(x, t) <= V(y, t)))
        I.oblige('transitive', z3.Implies(z3.And(le(a, b), le(b, c)), le(a, c)))
    return run
