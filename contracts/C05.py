"""Which samples are kept, and which comparisons are added from dominance."""
from .train import *
ASSUMPTIONS = ['one induction step: a model in any state, one operation', 'finite sums: a sum of non-negative terms is zero exactly when each is; a sum is determined by its first value and its increments',
               'samples are rows of a matrix when dominance is used', 'labels refer to samples of the model']
BOUNDED = 'sequences of additions, prior samples and removals through PreferenceModel, PreferenceGP and PreferenceLinear'

class Kept:
    """ghost: ref(q) - some label refers to sample q; P(v) - how many such samples come before v"""
    def __init__(self, I, N, held, y, L):
        self.I = I; ref, P = z3.Function('ref', IS, BS), z3.Function('P', IS, IS); self.ref, self.P, self.N = ref, P, N
        k, q = z3.Ints('k! q!'); alts = []
        for kd in held:
            n, d = L[kd], y[KIND[kd]] if kd == 'relative_discrete' else y[KIND[kd]][1]; d = d.decl; w = z3.Function('by_' + kd, IS, IS)
            for c in ((1, 2) if kd == 'relative_discrete' else (None,)):
                a = (lambda k, d=d, c=c: d(k, z3.IntVal(c))) if c else (lambda k, d=d: d(k))
                I.assume(fa([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= a(k), a(k) < N, ref(a(k)))), a(k)))
                alts.append(lambda q, a=a, w=w, n=n: z3.And(0 <= w(q), w(q) < n, a(w(q)) == q))
        I.assume(fa([q], z3.Implies(ref(q), z3.Or(*[f(q) for f in alts]) if alts else z3.BoolVal(False)), ref(q)))
        self.base = [N >= 1, P(z3.IntVal(0)) == 0, fa([q], z3.Implies(q >= 0, z3.And(P(q + 1) == P(q) + z3.If(ref(q), 1, 0), P(q) >= 0, P(q) <= q)), P(q))]
        x = fresh('x'); b = fa([q], z3.Implies(q >= 0, P(q + 1) == P(q) + z3.If(ref(q), 1, 0)), P(q))
        with scope(I, [P(z3.IntVal(0)) == 0, b]): induct(I, 'places', lambda v: z3.And(0 <= P(v), P(v) <= v), N, [])
        for h in self.base: I.assume(h)
    def enum(self, name, entry, C, sel, at):
        """the enumeration entry selects exactly the positions with sel; C(v) of them lie below v"""
        I = self.I; m, g, r, cnt = entry; q = fresh('q'); I.assume(z3.And(0 <= q, q < self.N)); t = Zb(m.at(q))
        for x in walk([t]):
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith('msk!'):      # a named condition: count == 0
                f = core._FACTS[x.decl().name()][0](x.arg(0)); I.assume(f)
                for nd in sum_nodes(f): sum_zero(I, nd.const)
        for nd in sum_nodes(t): sum_zero(I, nd.const)
        k, j = z3.Int('q!m'), z3.Int('q!g'); I.oblige(name + ': which samples', t == sel(q)); g_ = z3.And(0 <= k, k < self.N); at = [self.N] + list(at); cl = rank_claim(C, g, cnt)
        hy = self.base + [fa([k], z3.Implies(g_, Zb(m.at(k)) == sel(k)), g(k)), fa([k], z3.Implies(g_, Zb(m.at(k)) == sel(k)), core.TOUCH(k))]
        with scope(I, hy):
            x = fresh('x'); gx = g(x); inst = z3.Implies(z3.And(0 <= gx, gx < self.N), Zb(m.at(gx)) == sel(gx)); xs = z3.And(0 <= x, x < cnt)
            with scope(I, [core.TOUCH(x), core.TOUCH(gx)]): I.oblige(name + ': samples enumerated', z3.Implies(xs, z3.And(0 <= gx, gx < self.N, Zb(m.at(gx)))))
            with scope(I, [inst, z3.Implies(xs, z3.And(0 <= gx, gx < self.N, Zb(m.at(gx))))]): I.oblige(name + ': samples selected', z3.Implies(xs, sel(gx)))
            s1 = fa([j], z3.Implies(z3.And(0 <= j, j < cnt), sel(g(j))), g(j)); I.assume(s1)
            induct(I, name, cl, self.N, [])
        for h in hy[len(self.base):] + [s1] + [z3.Implies(z3.And(0 <= x, x <= self.N), cl(x)) for x in at]: I.assume(h)
        return hy + [s1] + [z3.Implies(z3.And(0 <= x, x <= self.N), cl(x)) for x in at]
    def new_index(self, name, t, v):
        """t, computed by the code, is P(v)"""
        I = self.I; done = set()
        for nd in sum_nodes(t):
            inner = sum_nodes(nd.body)
            if not inner: sum_zero(I, nd.const); continue
            q = fresh('q'); I.assume(z3.And(0 <= q, q < nd.n)); I.assume(z3.And(0 <= q, q < self.N)) if nd.n.eq(v) else None
            b = subst(nd.body, [(nd.var, q)])
            for x in sum_nodes(b): sum_zero(I, x.const)
            one = z3.If(self.ref(q), 1, 0)
            if I.entails(b == 1 - one): F = lambda x: x - self.P(x)
            elif I.entails(b == one): F = self.P
            else: raise Unsupported('a count of something else')
            I.oblige(name + ': running count', b == F(q + 1) - F(q)); I.assume(z3.Implies(nd.n >= 0, nd.const == F(nd.n)))
        I.oblige(name + ': same sample', z3.And(t == self.P(v)))

def rwr(held, prior):
    @unit('remove_without_reference: %s%s' % (', '.join(held) or 'no labels', ', prior samples' if prior else ''), [PM + ':PreferenceModel.remove_without_reference', 'PreferenceModel.reset'], timeout=240)
    def u(I):
        N = z3.Int('N'); I.assume(N >= 1); I.branch_timeout = 300
        def run():
            m, X, y, L = state(I, N, False, held)
            G = Kept(I, N, held, y, L); P, ref = G.P, G.ref; d = X.shape[1:]
            pr = (z3.Int('p0'), z3.Int('p1')) if prior else None
            if prior: I.assume(z3.And(0 <= pr[0], pr[0] <= pr[1], pr[1] <= N)); m.attrs['prior_idx'] = pr
            old = {k: (y[KIND[k]].decl if k == 'relative_discrete' else tuple(a.decl for a in y[KIND[k]])) for k in held}
            I.call(I.getattr(m, 'remove_without_reference'), [], {})
            I.record('the model is not optimised any more', m.attrs['optimized'] is False)
            X2, y2 = m.attrs['X_train'], m.attrs['y_train']; v = fresh('v'); I.assume(z3.And(0 <= v, v < N)); I.assume(core.TOUCH(v))
            if X2 is None:
                I.record('an emptied model holds nothing', len(y2) == 3 and all(a is None for a in y2) and m.attrs['prior_idx'] is None)
                pc = {x.get_id() for x in walk(I.cx.pc)}; e = [x for x in I.__dict__.get('_masks', {}).values() if x[3].get_id() in pc and I.entails(x[3] == 0)]
                if not e: raise Unsupported('no empty selection')
                G.enum('kept', e[-1], P, lambda q: ref(q), [v, v + 1]); I.oblige('a model is only emptied when no label refers to a sample', z3.Not(ref(v))); return
            c = fresh('c'); I.assume(z3.And(0 <= c, c < Zr(d[0]))); i = fresh('i'); t = Zreal(X2.at(i, c))
            if not (z3.is_app(t) and t.decl().eq(X.decl)): raise Unsupported('samples in another form')
            e = [x for x in I.__dict__.get('_masks', {}).values() if x[1](i).eq(t.arg(0))]
            if not e: raise Unsupported('samples in another form')
            at = [v, v + 1] + list(pr or ()); hy = G.enum('kept', e[0], P, lambda q: ref(q), at) + [0 <= v, v < N]
            place = z3.Implies(ref(v), z3.And(P(v) < P(N), e[0][1](P(v)) == v))
            with scope(I, hy): I.oblige('samples kept', e[0][3] == P(N)); I.oblige('place of a kept sample', place)
            I.assume(e[0][3] == P(N)); I.assume(place); I.oblige('number of samples', Zr(X2.shape[0]) == P(N)); I.oblige('samples: width', Zr(X2.shape[1]) == Zr(d[0])); I.oblige('a model without samples is as good as new', P(N) > 0)
            I.oblige('every referenced sample is kept, in order', z3.Implies(ref(v), Zreal(X2.at(P(v), c)) == X.decl(v, c)))
            for k in ALL:
                if k not in held: I.record('no labels appear', y2[KIND[k]] is None); continue
                z = y2[KIND[k]]; j = fresh('j'); I.assume(z3.And(0 <= j, j < L[k]))
                if k == 'relative_discrete':
                    shape(I, 'labels', z, (L[k], 3)); o = old[k]; I.oblige('directions stay', Zr(z.at(j, z3.IntVal(0))) == o(j, z3.IntVal(0)))
                    for cc in (1, 2): G.new_index('comparison', Zr(z.at(j, z3.IntVal(cc))), o(j, z3.IntVal(cc)))
                else:
                    if not isinstance(z, tuple) or len(z) != 2: raise Unsupported('ratings in another form')
                    shape(I, 'ratings', z[0], (L[k],)); shape(I, 'ratings', z[1], (L[k],)); I.oblige('ratings stay', Zr(z[0].at(j)) == old[k][0](j)); G.new_index('rating', Zr(z[1].at(j)), old[k][1](j))
            if prior:
                p2 = m.attrs['prior_idx']
                if not isinstance(p2, (tuple, list)) or len(p2) != 2: raise Unsupported('prior range in another form')
                for w, (a, b) in enumerate(zip(p2, pr)):
                    a = Zr(a); f = [x for x in I._masks.values() if any(x[3].eq(z_) for z_ in walk([a]))]
                    if not f:           # nothing was removed on this path
                        k0 = z3.Int('mk@k'); inv = simp(z3.Not(Zb(e[0][0].at(k0))))
                        for x in [x for x in I._masks.values() if simp(Zb(x[0].at(k0))).eq(inv) and I.entails(x[3] <= 0)][:1]: G.enum('removed', x, lambda z: z - P(z), lambda q: z3.Not(ref(q)), [b])
                    for mm, g, r, cnt in f: removed_below(I, G, mm, g, r, cnt, b)
                    I.oblige('prior samples stay the prior samples', a == P(b))
            else: I.record('no prior samples appear', m.attrs['prior_idx'] is None)
        return run
def removed_below(I, G, m, g, r, cnt, e):
    """cnt counts the positions j of the list of removed samples with removed(j) < e: there are e - P(e)"""
    D = lambda x: x - G.P(x); rm = [x for x in I._masks.values() if x[3].eq(Zr(m.shape[0]))]
    if not rm: raise Unsupported('removed samples in another form')
    hy = G.enum('removed', rm[0], D, lambda q: z3.Not(G.ref(q)), [e]); j = fresh('j'); h = rm[0][1]; n = rm[0][3]; q = z3.Int('q!p'); hy += [0 <= e, e <= G.N, core.TOUCH(j)]
    full = [core._FACTS[x.decl().name()][0](x.arg(0)) for x in walk([Zb(m.at(j))]) if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith('msk!')]
    with scope(I, hy): I.oblige('removed samples before the range', z3.Implies(z3.And(0 <= j, j < n), Zb(m.at(j)) == (j < D(e))))
    h1 = fa([q], z3.Implies(z3.And(0 <= q, q < n), Zb(m.at(q)) == (q < D(e))), g(q)); h2 = fa([q], z3.Implies(z3.And(0 <= q, q < cnt), z3.And(0 <= g(q), g(q) < D(e))), g(q))
    h3 = fa([q], z3.Implies(z3.And(0 <= q, q < D(e)), z3.And(0 <= r(q), r(q) < cnt, g(r(q)) == q)), r(q)); cl2 = lambda v: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < v, q < cnt), g(q) == q), patterns=[g(q)])
    with scope(I, hy + [h1]):
        I.oblige('a prefix is enumerated in place: selected', z3.Implies(z3.And(0 <= j, j < cnt), z3.And(0 <= g(j), g(j) < D(e)))); I.oblige('a prefix is enumerated in place: complete', z3.Implies(z3.And(0 <= j, j < D(e)), z3.And(0 <= r(j), r(j) < cnt, g(r(j)) == j)))
    with scope(I, [h2, h3, 0 <= D(e), core.TOUCH(j)]):
        x = fresh('x'); I.oblige('a prefix is enumerated in place', z3.Implies(z3.And(0 <= j, j < cnt, cl2(j), x == r(j), z3.Implies(j > 0, g(j - 1) == j - 1)), g(j) == j))
    B2 = lambda q: z3.Implies(z3.And(0 <= q, q < cnt), z3.And(0 <= g(q), g(q) < D(e))); B3 = lambda q: z3.Implies(z3.And(0 <= q, q < D(e)), z3.And(0 <= r(q), r(q) < cnt, g(r(q)) == q)); B4 = lambda q: z3.Implies(z3.And(0 <= q, q < cnt), g(q) == q)
    with scope(I, [0 <= D(e), 0 <= cnt, B2(cnt - 1), B3(cnt), B4(cnt - 1), B4(r(cnt))]): I.oblige('as many as the prefix is long', cnt == D(e))
    I.assume(cnt == D(e))
for held_ in ((), ALL[:1], ALL[1:2], ALL[2:]):
    for prior_ in (False, True): rwr(held_, prior_)
rwr(ALL, False)


# ------------------------------------------------------------------ prior samples
def prior(held, how):
    @unit('add_prior: %s, %s' % (how, 'model with samples' if held else 'empty model'), [PM + ':PreferenceModel.add_prior', PM + ':PreferenceModel.get_prior_pts'])
    def u(I):
        N = z3.Int('N') if held else None; I.assume(N >= 1) if held else None
        def run():
            m, X, y, L = state(I, N, False, ()); m.attrs['pareto_pairs'] = how != 'not asked for'; calls = []; o = m.attrs['prior_idx']
            d, n = z3.Ints('d n'); I.assume(z3.And(n >= 1, d >= 1)); B = input_array('bounds', (d, 2), 'real'); c = fresh('c'); I.assume(z3.And(0 <= c, c < d, B.decl(c, z3.IntVal(0)) <= B.decl(c, z3.IntVal(1))))
            pts = input_array('prior', (n, d), 'real')
            I.contracts['PreferenceModel.add'] = lambda I_, a, kw: calls.append(('add', a[-2:], dict(kw), m.attrs['prior_idx']))
            I.contracts['PreferenceModel.remove_without_reference'] = lambda I_, a, kw: calls.append(('remove', kw))
            I.call(I.getattr(m, 'add_prior'), [], {'bounds': B, 'num_pts': n} if how != 'exact' else {'pts': pts, 'method': 'exact', 'bounds': B})
            if how == 'not asked for': I.record('nothing is added', not calls and m.attrs['prior_idx'] is o); return
            ad = [x for x in calls if x[0] == 'add']
            if [x[0] for x in calls] != ['add', 'remove'] or len(ad[0][1]) != 2: raise Unsupported('added in another way')
            (P, lab), kw, pr = ad[0][1], ad[0][2], ad[0][3]; I.record('no labels of its own', isinstance(lab, list) and not lab and kw.get('type', 'relative_discrete') == 'relative_discrete')
            if not isinstance(P, NDArray) or not isinstance(pr, (tuple, list)) or len(pr) != 2: raise Unsupported('added in another way')
            shape(I, 'prior samples', P, (n, d)); lo = N if held else z3.IntVal(0); I.oblige('prior range: start', Zr(pr[0]) == lo); I.oblige('prior range: end', Zr(pr[1]) == lo + n)
            i = skin(I, n, 'i'); v = Zreal(P.at(i, c))
            if how == 'exact': I.oblige('the samples given are used', v == pts.decl(i, c))
            else: I.oblige('within the bounds', z3.And(B.decl(c, z3.IntVal(0)) <= v, v <= B.decl(c, z3.IntVal(1))))
        return run
for held_ in (False, True):
    for how_ in ('random', 'exact', 'not asked for'): prior(held_, how_)

@unit('get_prior_pts', [PM + ':PreferenceModel.get_prior_pts'])
def prior_pts(I):
    N = z3.Int('N'); I.assume(N >= 1)
    def run():
        m, X, y, L = state(I, N, False, ()); a, b = z3.Ints('p0 p1'); I.assume(z3.And(0 <= a, a <= b, b <= N))
        I.record('none without a prior', I.call(I.getattr(m, 'get_prior_pts'), [], {}) is None)
        m.attrs['prior_idx'] = (a, b); P = I.call(I.getattr(m, 'get_prior_pts'), [], {}); d = X.shape[1]
        if not isinstance(P, NDArray): raise Unsupported('prior samples in another form')
        shape(I, 'prior samples', P, (b - a, d)); i, c = fresh('i'), fresh('c'); I.assume(z3.And(0 <= i, i < b - a, 0 <= c, c < Zr(d))); I.oblige('the samples of the prior range', Zreal(P.at(i, c)) == X.decl(a + i, c))
    return run


# ------------------------------------------------------------------ comparisons from dominance
def dominance(n, held):
    @unit('add: dominance of %d new sample%s, %s' % (n, 's' if n > 1 else '', 'empty model' if held is None else 'model with comparisons' if held else 'model without comparisons'), [PM + ':PreferenceModel.add'])
    def u(I):
        N = z3.Int('N') if held is not None else None; I.assume(N >= 1) if N is not None else None; I.branch_timeout = 300
        def run():
            m, X, old, L = state(I, N, False, ALL[:1] if held else ()); m.attrs['pareto_pairs'] = True; B = N if N is not None else z3.IntVal(0); tot = B + n
            d = X.shape[1] if X is not None else samples(I, 'X', z3.IntVal(1), False).shape[1]; Xn = input_array('Xn', (n, d), 'real')
            I.call(I.getattr(m, 'add'), [Xn, []], {}); y = m.attrs['y_train']; got = y[0]; o = old[0]; l0 = L.get('relative_discrete', z3.IntVal(0)); row = lambda a, c: z3.If(a < B, X.decl(a, c), Xn.decl(a - B, c)) if X is not None else Xn.decl(a, c)
            I.record('other labels stay', y[1] is None and y[2] is None and len(y) == 3)
            cc = z3.Int('q!c'); dom = lambda i, v: fa([cc], z3.Implies(z3.And(0 <= cc, cc < Zr(d)), Xn.decl(i, cc) > row(v, cc))); v = fresh('v'); I.assume(z3.And(0 <= v, v < tot)); I.assume(core.TOUCH(v)); es = list(I.__dict__.get('_masks', {}).values())
            intact(I, 'samples', Xn, Xn.decl)
            if got is None or (o is not None and got is o):
                for i in range(n): I.oblige('no comparison is missing', z3.Not(dom(z3.IntVal(i), v)))
                return
            if not isinstance(got, NDArray) or got.ndim != 2: raise Unsupported('comparisons in another form')
            K = Zr(got.shape[0]); I.oblige('comparisons: width', Zr(got.shape[1]) == 3); at = lambda j, c: Zr(got.at(j, z3.IntVal(c))); I.oblige('comparisons: number', K >= l0)
            if o is not None:
                j = fresh('j'); I.assume(z3.And(0 <= j, j < l0))
                for c in range(3): I.oblige('earlier comparisons stay', at(j, c) == o.decl(j, z3.IntVal(c)))
            j = fresh('j'); I.assume(z3.And(l0 <= j, j < K)); I.oblige('the first sample is preferred', at(j, 0) == -1); p, q = at(j, 1), at(j, 2)
            I.oblige('a new sample is compared', z3.And(B <= p, p < tot)); I.oblige('with a sample of the model', z3.And(0 <= q, q < tot)); c = fresh('c'); I.assume(z3.And(0 <= c, c < Zr(d))); I.oblige('which it dominates', row(p, c) > row(q, c))
            es = [e for e in es if any(e[3].eq(x) for x in walk([simp(K)]))]; alts = []
            if z3.is_int_value(simp(K)) and simp(K).as_long() <= 8: alts = [(z3.IntVal(t), lambda v: z3.IntVal(0)) for t in range(simp(K).as_long())]
            elif not 0 < len(es) <= 4: raise Unsupported('comparisons in another form')
            for i, e in enumerate(es):
                for k in range(1 << len(es)):
                    if not k >> i & 1: alts.append((l0 + sum([f[3] for b_, f in enumerate(es) if k >> b_ & 1], z3.IntVal(0)), e[2]))
            for i in range(n): I.oblige('no comparison is missing', z3.Implies(dom(z3.IntVal(i), v), z3.Or(*[z3.And(l0 <= w, w < K, at(w, 1) == B + i, at(w, 2) == v) for w in [simp(a + r(v)) for a, r in alts]])))
        return run
for n_ in (1, 2):
    for held_ in (None, False, True): dominance(n_, held_)
