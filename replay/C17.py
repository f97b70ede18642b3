from replay.h import *
from replay.gens import kern
import lop

def meanfunc(rng):
    a, b = rng.randn(), rng.randn()
    return lambda X: a + b*(X.sum(axis=1) if X.ndim > 1 else X)

def dense(k, T, y, s, m, X):
    K = k.cov(T, T) + np.diag(s)
    P = np.linalg.inv(K); KX = k.cov(X, T)
    return m(X) + KX @ P @ (y - m(T)), k.cov(X, X) - KX @ P @ KX.T

@case(250)
def gp(rng):
    make, th, _, _ = kern(rng, 3)
    k = make(th)
    d = rng.randint(1, 4)
    vec = d == 1 and rng.rand() < .4
    try: k.cov(np.zeros((1, d)), np.ones((2, d)))
    except Exception: return        # a zeroed kernel bound to another dimension
    pts = lambda n: rng.randn(n) if vec else rng.randn(n, d)
    wm = rng.rand() < .5
    m = meanfunc(rng) if wm else (lambda X: np.zeros(len(X)))
    g = lop.GP(k, **({'mean_func': m} if wm else {}))
    T, y, s = None, np.zeros(0), np.zeros(0)
    hist = []
    for step in range(rng.randint(1, 7)):
        op = rng.choice(['add', 'add', 'predict', 'reset', 'predict_train'])
        hist.append(op)
        if op == 'add':
            n = rng.randint(1, 5)
            Tn, yn = pts(n), rng.randn(n)
            T0, y0 = Tn.copy(), yn.copy()
            r = rng.rand()
            if r < .3: sn = np.full(n, .0005); g.add(Tn, yn)
            elif r < .6: sv = rng.uniform(.05, 1); sn = np.full(n, sv); g.add(Tn, yn, training_sigma=sv)
            else:
                sn = rng.uniform(.05, 1, n); g.add(Tn, yn, training_sigma=list(sn) if rng.rand() < .5 else sn.copy())
            check((Tn == T0).all() and (yn == y0).all(), 'add changed its arguments', hist=hist)
            T = T0 if T is None else np.concatenate([T, T0]); y = np.append(y, y0); s = np.append(s, sn)
        elif op == 'reset':
            g.reset(); T, y, s = None, np.zeros(0), np.zeros(0)
        else:
            X = pts(rng.randint(1, 5))
            if op == 'predict_train' and T is not None and rng.rand() < .5: X = np.concatenate([T[:1], X])
            note(hist=hist, X=X, T=T, y=y, s=s, kernel_params=th)
            if T is None: mu, C = m(X), k.cov(X, X)
            else:
                if X.shape == T.shape and (X == T).all(): continue
                K = k.cov(T, T) + np.diag(s)
                if np.linalg.cond(K) > 1e5 or np.linalg.eigvalsh(K).min() < 1e-6: continue
                mu, C = dense(k, T, y, s, m, X)
            gm, gs = g.predict(X)
            close(gm, mu, 'posterior mean', rtol=1e-5, atol=1e-6)
            close(gs, np.maximum(0, np.diag(C)), 'posterior variance', rtol=1e-5, atol=1e-6)
            check((np.asarray(gs) >= 0).all(), 'negative variance')
            close(g.cov, C, 'posterior covariance', rtol=1e-5, atol=1e-6)
            if T is None or len(T) > 1:
                for i in range(len(X)):
                    one, _ = g.predict(X[i:i+1])
                    close(one[0], gm[i], 'mean of one query does not depend on the others', rtol=1e-6, atol=1e-7)
            close(g(X), gm, 'calling the model again gives the same mean', rtol=1e-9, atol=1e-10)
