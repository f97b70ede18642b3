"""Numeric evaluation of quantifier-free leaves (used to tell a false identity from an unfinished proof)."""
import z3, random
import mpmath as mp
from .core import *
from . import core

mp.mp.dps = 40

class NoEval(Exception): pass

def evalf(t, env, uf):
    """env: const id -> mpf (filled lazily by uf(name,args))"""
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i]
        r = _go(x); memo[i] = r
        return r
    def _go(x):
        if z3.is_int_value(x): return mp.mpf(x.as_long())
        if z3.is_rational_value(x): return mp.mpf(x.numerator_as_long())/mp.mpf(x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        if z3.is_quantifier(x): raise NoEval('quantifier')
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE: return go(x.arg(1)) if go(x.arg(0)) else go(x.arg(2))
        if k == z3.Z3_OP_AND: return all(go(c) for c in x.children())
        if k == z3.Z3_OP_OR: return any(go(c) for c in x.children())
        if k == z3.Z3_OP_NOT: return not go(x.arg(0))
        if k == z3.Z3_OP_IMPLIES: return (not go(x.arg(0))) or go(x.arg(1))
        if k == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() == 0:
                if x.eq(PI): return mp.pi
                if core._NODES.get(i0(x)) is not None: raise NoEval('node')
                return uf(x.decl().name(), (), x.sort())
            a = [go(c) for c in x.children()]
            n = x.decl().name()
            f = {'exp': mp.exp, 'log': mp.log, 'sqrt': mp.sqrt, 'sin': mp.sin, 'cos': mp.cos, 'Phi': mp.ncdf, 'lnGamma': mp.loggamma, 'Gamma': mp.gamma,
                 'logPhi': lambda u: mp.log(mp.ncdf(u)), 'pow': lambda u, v: u**v, 'psi': lambda m, u: mp.psi(int(m), u)}.get(n)
            if f is not None:
                r = f(*a)
                if isinstance(r, mp.mpc): raise NoEval('complex')
                return r
            return uf(n, tuple(a), x.sort())
        a = [go(c) for c in x.children()]
        if k == z3.Z3_OP_ADD: return sum(a[1:], a[0])
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for y in a[1:]: r = r - y
            return r
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for y in a[1:]: r = r*y
            return r
        if k == z3.Z3_OP_UMINUS: return -a[0]
        if k == z3.Z3_OP_DIV:
            if a[1] == 0: raise NoEval('zero division')
            return a[0]/a[1]
        if k == z3.Z3_OP_IDIV: return mp.floor(a[0]/a[1])
        if k == z3.Z3_OP_MOD: return a[0] - a[1]*mp.floor(a[0]/a[1])
        if k in (z3.Z3_OP_TO_REAL,): return a[0]
        if k == z3.Z3_OP_TO_INT: return mp.floor(a[0])
        if k == z3.Z3_OP_EQ: return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT: return a[0] != a[1]
        if k == z3.Z3_OP_LE: return a[0] <= a[1]
        if k == z3.Z3_OP_LT: return a[0] < a[1]
        if k == z3.Z3_OP_GE: return a[0] >= a[1]
        if k == z3.Z3_OP_GT: return a[0] > a[1]
        raise NoEval(x.decl().name())
    return go(t)
def i0(x): return x.get_id()

def refute(t, hyps, tries=400, seed=1, need=2):
    """sample points that satisfy the quantifier-free hypotheses; return a point where t is clearly non-zero,
    'zero' when it vanishes at every sampled point, None when no point was found"""
    rnd = random.Random(seed)
    hits = 0
    for k in range(tries):
        env = {}
        def uf(n, a, so):
            key = (n, a)
            if key not in env:
                if so == IS: env[key] = mp.mpf(rnd.choice([-1, 0, 1, 1, 2, 2, 3, 3, 4, 5]))
                elif so == BS: env[key] = rnd.random() < 0.5
                else: env[key] = mp.mpf(rnd.choice([rnd.uniform(-1.5, 1.5), rnd.uniform(0, 1), rnd.uniform(0.05, 3)]))
            return env[key]
        try:
            ok = True
            for h in hyps:
                try:
                    if not evalf(h, env, uf): ok = False; break
                except NoEval: continue
            if not ok: continue
            v = evalf(t, env, uf)
            if not mp.isfinite(v): continue
        except (NoEval, ZeroDivisionError, ValueError, OverflowError): continue
        hits += 1
        if abs(v) > mp.mpf(10)**-12:
            return {'%s%s' % (n, tuple(map(lambda z: mp.nstr(z, 4), a)) if a else ''): mp.nstr(v2, 6) if not isinstance(v2, bool) else v2 for (n, a), v2 in env.items()}
        if hits >= need: return 'zero'
    return 'zero' if hits else None

# ------------------------------------------------------------------ replay of a solver model against the exact meaning of every symbol
_KNOWN = {'exp': mp.exp, 'log': mp.log, 'sqrt': mp.sqrt, 'sin': mp.sin, 'cos': mp.cos, 'Phi': mp.ncdf, 'lnGamma': mp.loggamma, 'Gamma': mp.gamma,
          'logPhi': lambda u: mp.log(mp.ncdf(u)), 'pow': lambda u, v: u**v, 'psi': lambda m, u: mp.psi(int(m), u), 'atan2': mp.atan2}
TOL = mp.mpf(10)**-18
CAP = 12
class Model:
    """constants and input symbols take their values from the solver's model; exponentials, sums, maxima and the like are computed"""
    def __init__(self, m, budget=200000):
        self.m, self.left, self.facts = m, budget, {}
    def val(self, v):
        if z3.is_int_value(v): return mp.mpf(v.as_long())
        if z3.is_rational_value(v): return mp.mpf(v.numerator_as_long())/mp.mpf(v.denominator_as_long())
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        if z3.is_algebraic_value(v): v = v.approx(40); return mp.mpf(v.numerator_as_long())/mp.mpf(v.denominator_as_long())
        raise NoEval('value %s' % v)
    def num(self, x, so):
        if isinstance(x, bool): return z3.BoolVal(x)
        if so == IS:
            if x != mp.floor(x): raise NoEval('int')
            return z3.IntVal(int(x))
        f = mp.nstr(x, 30, strip_zeros=True, min_fixed=-60, max_fixed=60)
        if x == mp.floor(x) and abs(x) < 1e20: f = str(int(x))
        return z3.RealVal(f)
    def ev(self, x, env):
        self.left -= 1
        if self.left < 0: raise NoEval('budget')
        if z3.is_quantifier(x): return self.quant(x, env)
        if z3.is_int_value(x): return mp.mpf(x.as_long())
        if z3.is_rational_value(x): return mp.mpf(x.numerator_as_long())/mp.mpf(x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        k = x.decl().kind(); g = lambda y: self.ev(y, env)
        if k == z3.Z3_OP_ITE: return g(x.arg(1)) if g(x.arg(0)) else g(x.arg(2))
        if k == z3.Z3_OP_AND: return all(g(c) for c in x.children())
        if k == z3.Z3_OP_OR: return any(g(c) for c in x.children())
        if k == z3.Z3_OP_NOT: return not g(x.arg(0))
        if k == z3.Z3_OP_IMPLIES: return (not g(x.arg(0))) or g(x.arg(1))
        if k == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() == 0:
                i = x.get_id()
                if i in env: return env[i]
                if x.eq(PI): return mp.pi
                nd = core._NODES.get(i)
                if nd is not None: return self.node(nd, env)
                for ax in core._CFACTS.get(i, ()): self.fact(('c', i, ax.get_id()), ax)
                return self.val(self.m.eval(x, model_completion=True))
            a = [g(c) for c in x.children()]; f = _KNOWN.get(x.decl().name())
            if f is not None:
                r = f(*a)
                if isinstance(r, mp.mpc) or not mp.isfinite(r): raise NoEval('not real')
                return r
            nm = x.decl().name()
            if nm == 'hidden_exp': return mp.exp(a[0])
            za = [self.num(v, x.decl().domain(j)) for j, v in enumerate(a)]
            if nm not in ('touch', 'TOUCH'):
                for j, fn in enumerate(core._FACTS.get(nm, ())):
                    key = ('f', nm, j, tuple(str(v) for v in za))
                    if key not in self.facts:
                        r = fn(*za)
                        if r is not None: self.fact(key, r)
                for ax in core._FDEFS.get(nm, ()): self.fact(('d', nm, ax.get_id()), ax)
            return self.val(self.m.eval(x.decl()(*za), model_completion=True))
        a = [g(c) for c in x.children()]
        if k == z3.Z3_OP_ADD: return sum(a[1:], a[0])
        if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for y in a[1:]: r = r*y
            return r
        if k == z3.Z3_OP_UMINUS: return -a[0]
        if k == z3.Z3_OP_POWER: return a[0]**a[1]
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and a[1] == 0: raise NoEval('zero division')
        if k == z3.Z3_OP_DIV: return a[0]/a[1]
        if k == z3.Z3_OP_IDIV: return mp.floor(a[0]/a[1]) if a[1] > 0 else mp.ceil(a[0]/a[1])
        if k == z3.Z3_OP_MOD: return a[0] - abs(a[1])*mp.floor(a[0]/abs(a[1]))
        if k == z3.Z3_OP_TO_REAL: return a[0]
        if k == z3.Z3_OP_TO_INT: return mp.floor(a[0])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IFF, z3.Z3_OP_XOR):
            if isinstance(a[0], bool): return (a[0] == a[1]) if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) else (a[0] != a[1])
            d = a[0] - a[1]
            if d != 0 and abs(d) < TOL*(1 + abs(a[0])):
                if x.arg(0).sort() == IS: raise NoEval('int')
                d = mp.mpf(0); self.close = True
            return {z3.Z3_OP_EQ: d == 0, z3.Z3_OP_DISTINCT: d != 0, z3.Z3_OP_LE: d <= 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GE: d >= 0, z3.Z3_OP_GT: d > 0}[k]
        raise NoEval(x.decl().name())
    def fact(self, key, ax):
        if key in self.facts: return
        self.facts[key] = None
        if not self.ev(ax, {}): raise NoEval('a fact about a symbol does not hold in the model')
        self.facts[key] = True
    def node(self, nd, env):
        n = self.ev(nd.n, env)
        if n > CAP: raise NoEval('range')
        at = lambda k: self.ev(nd.body, {**env, nd.var.get_id(): mp.mpf(k)})
        v = [at(k) for k in range(int(n))]
        if nd.kind == 'sum': return sum(v, mp.mpf(0))
        if nd.kind == 'any': return any(v)
        if nd.kind == 'all': return all(v)
        if not v: raise NoEval('empty')
        if nd.kind in ('max', 'min'): return (max if nd.kind == 'max' else min)(v)
        if nd.kind in ('argmax', 'argmin'): return mp.mpf(v.index((max if nd.kind == 'argmax' else min)(v)))
        raise NoEval(nd.kind)
    def quant(self, x, env):
        if any(x.var_sort(j) != IS for j in range(x.num_vars())): raise NoEval('quantifier over reals')
        vs = [tmpvar() for _ in range(x.num_vars())]; b = z3.substitute_vars(x.body(), *reversed(vs))
        import itertools
        for t in itertools.product(range(-2, CAP + 2), repeat=len(vs)):
            r = self.ev(b, {**env, **{v.get_id(): mp.mpf(k) for v, k in zip(vs, t)}})
            if r != x.is_forall(): return r
        return x.is_forall()

def confirm(forms, m):
    """does the model make every formula true under the exact meaning of all symbols?"""
    if m is None: return False
    M = Model(m)
    try: return all(M.ev(f, {}) for f in forms if is_z(f))
    except (NoEval, ZeroDivisionError, ValueError, OverflowError, KeyError, z3.Z3Exception, RecursionError): return False

def small_model(forms, timeout=1500):
    """a model in which every integer constant is small, if the solver finds one"""
    cs = {}
    for f in forms: core.free_consts(f, cs)
    ints = [c for c in cs.values() if c.sort() == IS and core._NODES.get(c.get_id()) is None and not core._isbv(c)]
    r, m = core.check_sat(list(forms) + [z3.And(c <= 5, c >= -5) for c in ints], timeout)
    return m if r == 'sat' else None

def refuted(forms, m=None):
    """a counterexample that survives replay"""
    s = small_model(forms)
    return s if s is not None and confirm(forms, s) else m if m is not None and confirm(forms, m) else None
