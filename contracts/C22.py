"""Sampling distinct index sets."""
from .common import *
M = 'lop.utilities.sample_utility'
ASSUMPTIONS = ['at least as many different sets exist as are asked for (otherwise the function does not terminate); termination of the rejection loop is not shown', 'the elements of the set that is sampled from are distinct integers']
BOUNDED = 'ranges and lists, all sizes up to the number of existing sets'

def source(I, kind, n):
    if kind == 'range': return n, (lambda i: i)
    S = input_array('S', (n,), 'int'); d = S.decl; w = z3.Function('pos', IS, IS)
    add_fact(d, lambda i: z3.Implies(z3.And(0 <= i, i < n), w(d(i)) == i))
    return S, S.decl

def sets(kind, sz):
    @unit('sample_unique_sets from a %s, sets of %s' % (kind, sz or 'any size'), [M + ':sample_unique_sets', M + ':sample_unique_sets_fast', M + ':sample_nonunique_sets'], timeout=120, complete=False)
    def u(I):
        n, num = z3.Ints('n num'); k = sz or z3.Int('k')
        I.assume(z3.And(n >= zi(k), num >= 0)); 
        if not sz: I.assume(k > 0)
        K = zi(k)
        I.branch_timeout = 200; I.ob_timeout = 6000; I.ob_tries = ((0, False), (1, True), (2, False), (3, True))
        src, el = source(I, kind, n)
        E = z3.Function('elem', RS, BS); i = z3.Int('i!'); v = z3.Real('v!'); w = z3.Function('where', RS, IS)      # E(v): v is an element of the source
        elm = (lambda i: i) if kind == 'range' else el
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), E(z3.ToReal(elm(i)))), patterns=[E(z3.ToReal(i)) if kind == 'range' else el(i)]))
        I.assume(z3.ForAll([v], z3.Implies(E(v), z3.And(0 <= w(v), w(v) < n, z3.ToReal(elm(w(v))) == v)), patterns=[E(v)]))
        q, r, c, d = z3.Ints('q! r! c! d!')
        def rows(at, m):
            return [('rows are increasing', fa([q, c, d], z3.Implies(z3.And(0 <= q, q < m, 0 <= c, c < d, d < K), at(q, c) < at(q, d)), at(q, c), at(q, d))),
                    ('entries are elements of the source', fa([q, c], z3.Implies(z3.And(0 <= q, q < m, 0 <= c, c < K), E(at(q, c))), at(q, c)))]
        def differ(at, m): return ('rows differ', fa([q, r], z3.Implies(z3.And(0 <= q, q < r, r < m), z3.Exists([c], z3.And(0 <= c, c < K, at(q, c) != at(r, c)))), core.TOUCH(q), core.TOUCH(r)))
        def inv(env, it):
            a, t = env.vars.get('all_uniq'), env.vars.get('num_unique')
            if not isinstance(a, NDArray) or a.ndim != 2 or not is_num(t): raise Unsupported('loop state')
            I.raw = a; m = Zr(a.shape[0]); at = lambda x, y: Zreal(a.at(x, y))
            return [('count', z3.And(m >= 0, Zr(t) == m)), ('width', Zr(a.shape[1]) == K)] + rows(at, m) + [differ(at, m)]
        loops.use_inv(I, 'sample_unique_sets_fast', inv)
        def run():
            s = I.call(I.fn(M, 'sample_unique_sets'), [src, num, k], {})
            shape(I, 'result', s, (num, K))
            a = skin(I, num, 'a'); b, e = fresh('b'), fresh('e')
            I.oblige('entries are elements of the source', z3.Implies(z3.And(0 <= b, b < K), E(z3.ToReal(Zr(s.at(a, b))))))
            R = I.raw; x = z3.IntVal(0) if sz == 1 else skin(I, K, 'x')
            v0 = Zreal(R.at(a, x)); ii = fresh('ii'); I.assume(ii == elm(w(v0)))
            cut(I, 'the entries are whole numbers', z3.ToReal(Zr(s.at(a, x))) == v0, [z3.ToReal(ii) == v0], [v0])
            I.assume(fa([q, c], z3.Implies(z3.And(0 <= q, q < num, 0 <= c, c < K), z3.ToReal(Zr(s.at(q, c))) == Zreal(R.at(q, c))), R.at(q, c)))
            I.oblige('no entry twice in a set', z3.Implies(z3.And(0 <= b, b < e, e < K), s.at(a, b) != s.at(a, e)))
            # sets in increasing order are equal as sets exactly when they are equal as rows
            I.oblige('sets are in increasing order', z3.Implies(z3.And(0 <= b, b < e, e < K), s.at(a, b) < s.at(a, e)))
            a2 = skin(I, num, 'a'); I.assume(z3.And(a < a2, core.TOUCH(a), core.TOUCH(a2))); c0 = fresh('c'); here = lambda c: z3.And(0 <= c, c < K, Zreal(R.at(a, c)) != Zreal(R.at(a2, c)))
            I.oblige('no set twice: sampled rows differ', z3.Exists([c], here(c))); I.assume(here(c0))
            I.oblige('no set twice', s.at(a, c0) != s.at(a2, c0))
        return run
for kd in ('range', 'list'):
    for z_ in (1, 2, 3, None): sets(kd, z_)
