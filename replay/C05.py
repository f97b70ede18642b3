from replay.h import *
import lop
from lop.models import PreferenceModel

def model(rng, pareto):
    k = rng.randint(3)
    return PreferenceModel(pareto_pairs=pareto) if k == 0 else lop.PreferenceGP(lop.RBF_kern(.5, .7), pareto_pairs=pareto) if k == 1 else lop.PreferenceLinear(pareto_pairs=pareto)
def dominance(X, B, lo):
    """one comparison (-1: the first is preferred) for each new sample and each sample it exceeds in every coordinate"""
    return [(-1, i + lo, j) for i in range(len(B)) for j in range(len(X)) if all(B[i][c] > X[j][c] for c in range(len(B[i])))]
def labels(m):
    out = []
    for j, k in enumerate(('relative_discrete', 'ordinal', 'abs')):
        y = m.y_train[m.probit_idxs[k]]
        out.append([] if y is None else [tuple(map(int, r)) for r in y] if j == 0 else [(float(a), int(b)) for a, b in zip(y[0], y[1])])
    return out
def compare(m, X, L, prior, what):
    check((m.X_train is None and not len(X)) or (m.X_train is not None and len(m.X_train) == len(X)), '%s: the model holds %s samples, not %d' % (what, None if m.X_train is None else len(m.X_train), len(X)))
    if len(X): close(m.X_train, X, what + ': samples', 0, 0)
    got = labels(m)
    for k, a, b in zip(('comparisons', 'ordinal labels', 'absolute labels'), got, L):
        a, b = list(a), list(b)
        if k == 'comparisons':          # the order of generated pairs within one batch is not promised
            a, b = sorted(a), sorted(b)
        check(len(a) == len(b) and all(abs(p[0] - q[0]) < 1e-9 and p[1:] == q[1:] for p, q in zip(a, b)), '%s: %s are %s, expected %s' % (what, k, a, b))
    pr = m.get_prior_pts()
    if prior is None: check(pr is None, what + ': prior samples from nowhere')
    else: check(pr is not None and len(pr) == len(prior), '%s: %s prior samples, not %d' % (what, None if pr is None else len(pr), len(prior))); close(pr, np.array(prior).reshape(pr.shape), what + ': prior samples', 0, 0) if len(prior) else None
class Spec:
    def __init__(self): self.clear()
    def clear(self): self.X, self.L, self.prior = [], [[], [], []], None
    def add(self, x, kind, lab, pareto):
        lo = len(self.X); self.X += [np.array(r) for r in x]; self.L[kind] += [(p, u + lo, v + lo) for p, u, v in lab] if kind == 0 else [(v, i + lo) for v, i in lab]
        if pareto and len(self.X) > 1: self.L[0] += dominance(self.X, x, lo)
    def remove(self):
        used = {i for _, u, v in self.L[0] for i in (u, v)} | {i for q in (1, 2) for _, i in self.L[q]}
        new = {}; keep = [i for i in range(len(self.X)) if i in used]
        for p, i in enumerate(keep): new[i] = p
        if self.prior is not None: lo, hi = self.prior; self.prior = (len([i for i in keep if i < lo]), len([i for i in keep if i < hi]))
        self.X = [self.X[i] for i in keep]; self.L = [[(p, new[u], new[v]) for p, u, v in self.L[0]]] + [[(v, new[i]) for v, i in self.L[q]] for q in (1, 2)]
        if not self.X: self.clear()
    def pts(self): return None if self.prior is None else self.X[self.prior[0]:self.prior[1]]
def sample(rng, n, d, style):
    if style == 'grid': return rng.randint(0, 4, size=(n, d))/4.
    if style == 'equal coordinate': x = rng.rand(n, d); x[:, rng.randint(d)] = .5; return x
    return rng.rand(n, d)

@case(1500)
def history(rng):
    pareto = rng.rand() < .7; m = model(rng, pareto); d = rng.choice([1, 2, 2, 3]); S = Spec(); h = []; style = ['grid', 'grid', 'random', 'equal coordinate'][rng.randint(4)]; primed = False
    for step in range(rng.randint(1, 7)):
        op = rng.rand()
        if op < .22 and not primed and pareto:
            how = 'exact' if rng.rand() < .6 else 'random'; primed = True
            if how == 'exact':
                p = sample(rng, rng.randint(1, 8), d, style); h.append((how, p.copy())); note(model=type(m).__name__, pareto=pareto, history=h[-6:]); m.add_prior(pts=p.copy(), method='exact')
            else:
                b = np.sort(rng.rand(d, 2)*10 - 5, axis=1); k = int(rng.randint(1, 12)); h.append((how, b, k)); note(model=type(m).__name__, pareto=pareto, history=h[-6:]); st = np.random.get_state(); was = [np.array(x) for x in S.X]
                seen = []; old = m.add
                def spy(X, *a, **kw): seen.append(np.array(X)); return old(X, *a, **kw)
                m.add = spy; m.add_prior(bounds=b.copy(), num_pts=k, method='random'); del m.add
                if len(seen) != 1: return          # samples are not passed through add: nothing to compare with
                p = seen[0]; check(p.shape == (k, d), '%s prior samples, %s asked for' % (p.shape, (k, d))); check(np.all(p >= b[:, 0] - 1e-12) and np.all(p <= b[:, 1] + 1e-12), 'prior samples outside of the bounds %s: %s' % (b, p))
            S.prior = (len(S.X), len(S.X) + len(p)); S.add(p, 0, [], pareto); S.remove(); what = 'after add_prior'
        elif op < .4 and len(S.X):
            h.append('remove'); note(model=type(m).__name__, pareto=pareto, history=h[-6:]); m.optimized = True; m.remove_without_reference(); S.remove(); what = 'after removing unused samples'; check(m.optimized is False, 'still marked as optimised after removing samples')
            primed = primed and S.prior is not None
        else:
            n = rng.randint(1, 5); x = sample(rng, n, d, style); kind = rng.randint(3); k = rng.randint(0 if kind == 0 else 1, 4)
            if kind == 0: lab = [(int(rng.choice([-1, 1])), int(rng.randint(n)), int(rng.randint(n))) for _ in range(k)]; y = lab if rng.rand() < .5 or not lab else np.array(lab)
            elif kind == 1: lab = [(int(rng.randint(1, 6)), int(rng.randint(n))) for _ in range(k)]; y = np.array(lab)
            else: lab = [(.1 + .8*rng.rand(), int(rng.randint(n))) for _ in range(k)]; y = (np.array([a for a, b in lab]), np.array([b for a, b in lab]))
            h.append((('relative_discrete', 'ordinal', 'abs')[kind], x.copy(), lab)); note(model=type(m).__name__, pareto=pareto, history=h[-6:]); m.add(x.copy(), y, type=('relative_discrete', 'ordinal', 'abs')[kind]); S.add(x, kind, lab, pareto); what = 'after add'
        compare(m, S.X, S.L, S.pts(), what)

@case(400)
def dominating(rng):
    n, k, d = rng.randint(1, 6), rng.randint(1, 6), rng.choice([1, 2, 3]); m = model(rng, True); style = ['grid', 'random', 'equal coordinate'][rng.randint(3)]; A, B = sample(rng, n, d, style), sample(rng, k, d, style); note(first=A, second=B, model=type(m).__name__)
    m.add(A, []); m.add(B, [])
    got = labels(m)[0]; X = np.append(A, B, axis=0); want = dominance(X[:n], A, 0) + dominance(X, B, n)
    check(sorted(got) == sorted(want), 'generated comparisons %s, expected %s' % (got, want)); check(all((X[u] > X[v]).all() if p == -1 else (X[v] > X[u]).all() for p, u, v in got), 'a comparison that is not a dominance')
