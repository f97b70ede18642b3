"""Rational normal form over atoms, case splitting on ite, symbolic differentiation.

zero(t, pc): decides t == 0 as a rational function identity over its atoms after case splitting on
the conditions of its ite terms; every denominator is shown non-zero by the SMT solver.
"""
import z3, os
from fractions import Fraction
from .core import *
from . import core

class Poly(dict):
    pass

def p_const(c):
    return {(): Fraction(c)} if c else {}
def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s*c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def m_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))

class Ring:
    def __init__(self):
        self.atoms = {}      # id -> term
        self.rules = {}      # atom id -> (exponent, poly) : atom**e == poly
        self.exps = {}       # canonical key -> atom term
        self.cache = {}
        self.dens = []

    def p_mul(self, a, b):
        r = {}
        if len(a)*len(b) > 400000:
            raise Undecided('polynomial too large')
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m_mul(m1, m2)
                v = r.get(m, 0) + c1*c2
                if v: r[m] = v
                else: r.pop(m, None)
        return self.reduce(r)

    def reduce(self, p):
        if not self.rules: return p
        again = True
        while again:
            again = False
            for m in list(p):
                for a, e in m:
                    ru = self.rules.get(a)
                    if ru and e >= ru[0]:
                        c = p.pop(m)
                        m2 = tuple((x, f - (ru[0] if x == a else 0)) for x, f in m if not (x == a and f == ru[0]))
                        add = {m2: c}
                        out = {}
                        for k1, v1 in add.items():
                            for k2, v2 in ru[1].items():
                                k = m_mul(k1, k2); out[k] = out.get(k, 0) + v1*v2
                        p = p_add(p, out)
                        again = True
                        break
                if again: break
        return p

    def atom(self, t):
        self.atoms[t.get_id()] = t; core._KEEP.append(t)
        return {((t.get_id(), 1),): Fraction(1)}

    def rat(self, t):
        """(num, den) polynomials"""
        i = t.get_id()
        if i in self.cache: return self.cache[i]
        core._KEEP.append(t)
        r = self._rat(t)
        self.cache[i] = r
        return r

    ONE = {(): Fraction(1)}
    def add(self, a, b, s=1):
        if a[1] == b[1]: return (p_add(a[0], b[0], s), a[1])
        if a[1] == self.ONE: return (p_add(self.p_mul(a[0], b[1]), b[0], s), b[1])
        if b[1] == self.ONE: return (p_add(a[0], self.p_mul(b[0], a[1]), s), a[1])
        # monomial denominators: lcm
        if len(a[1]) == 1 and len(b[1]) == 1:
            (m1, c1), = a[1].items(); (m2, c2), = b[1].items()
            d1, d2 = dict(m1), dict(m2)
            l = {k: max(d1.get(k, 0), d2.get(k, 0)) for k in set(d1) | set(d2)}
            q1 = tuple(sorted((k, e - d1.get(k, 0)) for k, e in l.items() if e - d1.get(k, 0)))
            q2 = tuple(sorted((k, e - d2.get(k, 0)) for k, e in l.items() if e - d2.get(k, 0)))
            n = p_add(self.p_mul(a[0], {q1: Fraction(1)/c1}), self.p_mul(b[0], {q2: Fraction(1)/c2}), s)
            return (n, {tuple(sorted(l.items())): Fraction(1)})
        return (p_add(self.p_mul(a[0], b[1]), self.p_mul(b[0], a[1]), s), self.p_mul(a[1], b[1]))
    def mul(self, a, b):
        if not a[0] or not b[0]: return ({}, self.ONE)
        n, d = self.p_mul(a[0], b[0]), self.p_mul(a[1], b[1])
        return self.cancel(n, d)
    def cancel(self, n, d):
        """cancel common monomial factor"""
        if not n: return ({}, self.ONE)
        if len(d) == 1:
            (md, cd), = d.items()
            if md:
                com = dict(md)
                for m in n:
                    dm = dict(m)
                    com = {k: min(e, dm.get(k, 0)) for k, e in com.items() if dm.get(k, 0)}
                    if not com: break
                if com:
                    f = lambda m: tuple(sorted((k, e - com.get(k, 0)) for k, e in m if e - com.get(k, 0)))
                    n = {f(m): c for m, c in n.items()}
                    d = {f(md): cd}
        return (n, d)
    def div(self, a, b):
        return self.mul(a, (b[1], b[0]))

    def key(self, rp):
        """canonical key of a rational (monic denominators)"""
        n, d = rp
        return (tuple(sorted(n.items())), tuple(sorted(d.items())))

    def _rat(self, t):
        if z3.is_int_value(t): return (p_const(t.as_long()), self.ONE)
        if z3.is_rational_value(t): return (p_const(t.as_fraction()), self.ONE)
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            a = t.arg(0)
            ka = a.decl().kind()
            if ka in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(a):
                return self.rat(a)
            return (self.atom(a), self.ONE)      # int atom, coerced
        if k == z3.Z3_OP_ADD:
            r = self.rat(t.arg(0))
            for c in t.children()[1:]: r = self.add(r, self.rat(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.rat(t.arg(0))
            for c in t.children()[1:]: r = self.add(r, self.rat(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(t.arg(0)); return ({m: -c for m, c in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            r = self.rat(t.arg(0))
            for c in t.children()[1:]: r = self.mul(r, self.rat(c))
            return r
        if k == z3.Z3_OP_DIV:
            den = self.rat(t.arg(1))
            self.dens.append(t.arg(1))
            if not den[0]:
                raise Undecided('division by zero')
            return self.div(self.rat(t.arg(0)), den)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            nm = t.decl().name()
            if nm == 'sqrt':
                a = self.rat(t.arg(0))
                at = self.canon_app('sqrt', t)
                if a[1] == self.ONE:
                    self.rules[at.get_id()] = (2, a[0])
                return (self.atom(at), self.ONE)
            if nm == 'exp':
                # exp(a+b+..) -> product over monomials of the argument is avoided; canonical argument, sign split
                return self.exp_rat(t)
            return (self.atom(self.canon_app(nm, t)), self.ONE)
        return (self.atom(t), self.ONE)

    def exp_rat(self, t):
        a = self.rat(t.arg(0))
        # canonical: single term arguments with leading positive coefficient, else 1/exp(-a)
        if not a[0]: return (p_const(1), self.ONE)
        n, d = a
        parts = []
        res = (p_const(1), self.ONE)
        for m, c in sorted(n.items()):
            # exp(c*m/d): base atom exp(|c0| m/d)  with c integer multiples merged
            key = ('expm', m, tuple(sorted(d.items())))
            base, cb = self.exps.setdefault(key, (None, None))
            if base is None:
                base = z3.Const('expatom!%d' % len(self.exps), RS); cb = abs(c)
                self.exps[key] = (base, cb)
                self.atoms[base.get_id()] = base; core._KEEP.append(base)
            q = c/cb
            if q.denominator != 1:
                # refine base
                raise Undecided('exp refine')
            q = int(q)
            p = {((base.get_id(), abs(q)),): Fraction(1)}
            res = self.mul(res, (p, self.ONE) if q > 0 else (self.ONE, p))
        return res

    def canon_app(self, nm, t):
        """merge uninterpreted applications whose arguments are equal rational forms"""
        ks = []
        for c in t.children():
            if c.sort() == RS:
                ks.append(self.key(self.rat(c)))
            else:
                ks.append(z3.simplify(c).get_id()); core._KEEP.append(z3.simplify(c))
        key = (t.decl().name(), tuple(ks))
        return self.exps.setdefault(key, t)

def is_zero_poly(t):
    R = Ring()
    n, d = R.rat(t)
    return (not n), R

# ------------------------------------------------------------------ ite splitting
def find_ite_cond(t):
    for x in walk([t]):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            if not has_var(c):
                # innermost-first: prefer conditions without ites
                if not any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in walk([c])):
                    return c
    return None

def resolve(t, cond, val):
    """replace occurrences of boolean cond by val and simplify ites built on it"""
    return prune(z3.substitute(t, (cond, z3.BoolVal(val))))

_pr = {}
def prune(t):
    cache = {}
    def go(x):
        i = x.get_id()
        if i in cache: return cache[i]
        if z3.is_quantifier(x) or x.num_args() == 0: r = x
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            c = z3.simplify(go(x.arg(0)))
            if z3.is_true(c): r = go(x.arg(1))
            elif z3.is_false(c): r = go(x.arg(2))
            else:
                a, b = go(x.arg(1)), go(x.arg(2))
                r = a if a.eq(b) else z3.If(c, a, b)
        else:
            ch = [go(c) for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
        cache[i] = r; core._KEEP.append((x, r))
        return r
    return go(t)

def int_unify(t, lits):
    """use integer equalities in lits to unify terms"""
    for l in lits:
        for e in _eqs(l):
            a, b = e
            if a.eq(b): continue
            # orient: replace the more complex/uninterpreted by the other
            if z3.is_int_value(a): a, b = b, a
            elif not z3.is_int_value(b):
                if len(walk([a])) < len(walk([b])): a, b = b, a
            t = z3.substitute(t, (a, b))
    return t

def _eqs(l):
    if z3.is_eq(l) and z3.is_arith(l.arg(0)) and l.arg(0).sort() == IS:
        return [(l.arg(0), l.arg(1))]
    if z3.is_and(l):
        return [e for c in l.children() for e in _eqs(c)]
    return []

class Lra:
    """incremental quick refutation: every comparison is put in rational normal form and its monomials
    are treated as independent unknowns (sound for 'unsat')."""
    def __init__(self, forms=()):
        self.R = Ring(); self.sv = {}; self.cache = {}
        self.s = z3.Solver(); self.s.set('timeout', 300)
        for f in forms: self.add(f)
    def add(self, f):
        g = self.tr(f)
        if g is not None: self.s.add(g)
    def push(self): self.s.push()
    def pop(self): self.s.pop()
    def unsat(self, *extra):
        core.STATS['queries'] += 1
        if extra:
            self.s.push()
            for f in extra: self.add(f)
            r = self.s.check() == z3.unsat
            self.s.pop()
            return r
        return self.s.check() == z3.unsat
    def lin(self, x):
        n, d = self.R.rat(x)
        tot = []
        dk = tuple(sorted(d.items()))
        one = (d == Ring.ONE)
        for m, c in n.items():
            if not m and one: tot.append(z3.RealVal(str(c))); continue
            key = (m, dk)
            v = self.sv.get(key)
            if v is None:
                v = self.sv[key] = z3.Real('m!%d' % len(self.sv))
            tot.append(z3.RealVal(str(c))*v)
        return z3.Sum(tot) if tot else z3.RealVal(0)
    def tr(self, f):
        i = f.get_id()
        if i in self.cache: return self.cache[i]
        core._KEEP.append(f)
        r = self._tr(f); self.cache[i] = r
        return r
    def _tr(self, f):
        tr = self.tr
        if z3.is_quantifier(f): return None
        k = f.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return f
        if k == z3.Z3_OP_AND:
            cs = [tr(c) for c in f.children()]; cs = [c for c in cs if c is not None]
            return z3.And(*cs) if cs else None
        if k in (z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            cs = [tr(c) for c in f.children()]
            if any(c is None for c in cs): return None
            return z3.Or(*cs) if k == z3.Z3_OP_OR else z3.Implies(cs[0], cs[1])
        if k == z3.Z3_OP_NOT:
            a = f.arg(0)
            if z3.is_and(a): return tr(z3.Or(*[z3.Not(c) for c in a.children()]))
            if z3.is_or(a): return tr(z3.And(*[z3.Not(c) for c in a.children()]))
            c = tr(a); return None if c is None else z3.Not(c)
        iseq = k == z3.Z3_OP_EQ
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (iseq and z3.is_arith(f.arg(0))) or (k == z3.Z3_OP_DISTINCT and z3.is_arith(f.arg(0)) and f.num_args() == 2):
            a, b = f.arg(0), f.arg(1)
            if any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in walk([a, b])): return None
            try: l = self.lin((Zreal(a) - Zreal(b)))
            except (Undecided, Unsupported): return None
            z = z3.RealVal(0)
            if k == z3.Z3_OP_LE: return l <= z
            if k == z3.Z3_OP_LT: return l < z
            if k == z3.Z3_OP_GE: return l >= z
            if k == z3.Z3_OP_GT: return l > z
            return l == z if iseq else l != z
        if f.num_args() == 0: return f
        return None

def lra_unsat(forms):
    return Lra(forms).unsat()

POS_UF = ('exp', 'Phi')
def known_pos(pc):
    """ids of terms asserted > 0 in pc"""
    out = set()
    def go(f):
        if z3.is_and(f):
            for c in f.children(): go(c)
            return
        if not z3.is_app(f): return
        k = f.decl().kind()
        if k == z3.Z3_OP_GT and concrete(f.arg(1)) is not None and concrete(f.arg(1)) >= 0: out.add(f.arg(0).get_id())
        if k == z3.Z3_OP_LT and concrete(f.arg(0)) is not None and concrete(f.arg(0)) >= 0: out.add(f.arg(1).get_id())
        if k == z3.Z3_OP_GE and concrete(f.arg(1)) is not None and concrete(f.arg(1)) > 0: out.add(f.arg(0).get_id())
        if z3.is_not(f):
            g = f.arg(0); kg = g.decl().kind() if z3.is_app(g) else None
            if kg == z3.Z3_OP_LE and concrete(g.arg(1)) is not None and concrete(g.arg(1)) >= 0: out.add(g.arg(0).get_id())
    for f in pc: go(f)
    return out
def pos(t, kp):
    c = concrete(t)
    if c is not None: return c > 0
    if t.get_id() in kp or t.eq(PI): return True
    if not z3.is_app(t): return False
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD,): return all(pos(c, kp) for c in t.children())
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV): return all(pos(c, kp) for c in t.children())
    if k == z3.Z3_OP_TO_REAL: return pos(t.arg(0), kp)
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
        n = t.decl().name()
        if n in POS_UF: return True
        if n in ('sqrt', 'Gamma', 'pow'): return pos(t.arg(0), kp)
    return False
def nonzero(t, kp):
    if pos(t, kp): return True
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV): return all(nonzero(c, kp) for c in t.children())
        if k == z3.Z3_OP_UMINUS: return nonzero(t.arg(0), kp)
        if k == z3.Z3_OP_TO_REAL: return nonzero(t.arg(0), kp)
    c = concrete(t)
    return c is not None and c != 0

def all_conds(t):
    out = {}
    for x in walk([t]):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            if c.get_id() not in out and not has_var(c) and not any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in walk([c])):
                out[c.get_id()] = c
    return list(out.values())

def simplify_under(t, lra):
    """replace ite conditions decided by the hypotheses"""
    decided = {}
    while True:
        t = prune(t)
        subs = []
        for c in all_conds(t):
            if c.get_id() in decided: continue
            decided[c.get_id()] = c
            if lra.unsat(z3.Not(c)): subs.append((c, z3.BoolVal(True)))
            elif lra.unsat(c): subs.append((c, z3.BoolVal(False)))
        if not subs: return t
        t = z3.substitute(t, *subs)

def zero(t, pc, log=None, lits=(), timeout=3000, budget=None, lra=None):
    """prove t == 0 under pc (list of Bool). returns (True,None) | (False, leaf info) | (None, reason)"""
    budget = budget if budget is not None else [600]
    if lra is None:
        lra = Lra(list(pc) + list(lits))
    t = simplify_under(t, lra)
    return _zero(t, list(pc), tuple(lits), timeout, budget, lra)

def _zero(t, pc, lits, timeout, budget, lra):
    budget[0] -= 1
    if budget[0] < 0: return None, 'split budget'
    t = prune(t)
    c = find_ite_cond(t)
    if c is None:
        tt2 = prune(int_unify(t, list(lits) + list(pc)))
        try:
            z, R = is_zero_poly(tt2)
        except Undecided as e:
            return None, str(e)
        full = list(pc) + list(lits)
        if not z:
            tl = expand_logs(tt2, known_pos(full), lra)
            if tl is not None:
                try:
                    z, R2 = is_zero_poly(tl)
                    if z: R2.dens += R.dens; R = R2
                except Undecided as e: pass
        if not z:
            tl = expand_explogs(tt2, known_pos(full), lra)
            if tl is not None:
                try:
                    z, R2 = is_zero_poly(tl)
                    if z: R2.dens += R.dens; R = R2
                except Undecided as e: pass
        if z:
            kp = known_pos(full)
            for d in {x.get_id(): x for x in R.dens}.values():
                if nonzero(d, kp): continue
                if lra.unsat(d == 0): continue
                r, m = check_sat(full + [d == 0], timeout)
                if r != 'unsat':
                    r2, _ = check_sat(full, timeout)
                    if r2 == 'unsat': return True, None
                    return None, 'denominator may be zero: %s (%s)' % (str(d)[:300], r)
            return True, None
        # hypotheses that contain ites: resolve what this leaf decides and look again for a contradiction
        lra.push()
        try:
            for h in full:
                if not z3.is_quantifier(h) and any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in walk([h])):
                    lra.add(z3.simplify(simplify_under(h, lra)))
            if lra.unsat(): return True, None
        finally: lra.pop()
        r, m = check_sat(full + [tt2 != 0], timeout)
        if r == 'unsat': return True, None
        from . import num
        w = num.refute(tt2, [h for f in full for h in core._skolem(f)])
        if isinstance(w, dict): return False, {'non-zero at': w, 'leaf': str(tt2)[:600], 'lits': [str(x)[:200] for x in lits]}
        if os.environ.get('PYDV_DBG'): print('leaf numerically', w, tt2)
        return None, {'numeric': w, 'leaf': str(tt2)[:600], 'lits': [str(x)[:200] for x in lits], 'status': r}
    cs = z3.simplify(c)
    if z3.is_true(cs) or z3.is_false(cs):
        return _zero(resolve(t, c, z3.is_true(cs)), pc, lits, timeout, budget, lra)
    for val in (True, False):
        l = c if val else z3.Not(c)
        lra.push(); lra.add(l)
        try:
            if lra.unsat(): continue
            res = _zero(resolve(t, c, val), pc, lits + (l,), timeout, budget, lra)
        finally: lra.pop()
        if res[0] is not True:
            return res
    return True, None

def expand_explogs(t, kp, lra):
    """exp(x + c*log(y)) as exp(x)*y**c for whole c and y provably positive; None if there is nothing to do"""
    subs = []
    for x in walk([t]):
        if not (z3.is_app(x) and x.decl().name() == 'exp' and any(z3.is_app(y) and y.decl().name() == 'log' for y in walk([x.arg(0)]))): continue
        R = Ring()
        try: n, d = R.rat(Zreal(x.arg(0)))
        except Undecided: continue
        if d != R.ONE or any(y.decl().name().startswith('expatom') for y in R.atoms.values()): continue
        f, rest = z3.RealVal(1), {}
        for m, c in n.items():
            a = R.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if a is not None and z3.is_app(a) and a.decl().name() == 'log' and c.denominator == 1 and abs(c) <= 4 and (pos(a.arg(0), kp) or lra.unsat(a.arg(0) <= 0)):
                for _ in range(abs(int(c))): f = f*a.arg(0) if c > 0 else f/a.arg(0)
            else: rest[m] = c
        if len(rest) != len(n): subs.append((x, f*s_exp(to_term(rest, R)) if rest else f))
    return z3.substitute(t, *subs) if subs else None

def expand_logs(t, kp, lra):
    """log of products, quotients, powers, exponentials and gamma functions of provably positive terms; None if there is nothing to do"""
    subs = []
    def ispos(x):
        if pos(x, kp): return True
        if z3.is_app(x) and x.decl().name() == 'pow' and x.num_args() == 2: return ispos(x.arg(0))
        if z3.is_app(x) and x.decl().name() == 'Gamma': return ispos(x.arg(0))
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV): return all(ispos(c) for c in x.children())
        return lra.unsat(x <= 0)
    def lg(x):
        if not z3.is_app(x): return core.f_log(x)
        c = concrete(x)
        if c is not None and c == 1: return z3.RealVal(0)
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL and all(ispos(y) for y in x.children()):
            r = z3.RealVal(0)
            for y in x.children(): r = r + lg(Zreal(y))
            return r
        if k == z3.Z3_OP_DIV and all(ispos(y) for y in x.children()): return lg(x.arg(0)) - lg(x.arg(1))
        if k == z3.Z3_OP_TO_REAL and concrete(x.arg(0)) == 1: return z3.RealVal(0)
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args():
            nm = x.decl().name()
            if nm == 'exp': return x.arg(0)
            if nm == 'pow' and ispos(x.arg(0)): return x.arg(1)*lg(x.arg(0))
            if nm == 'Gamma' and ispos(x.arg(0)): return core.f_lgamma(x.arg(0))
            if nm == 'sqrt' and ispos(x.arg(0)): return lg(x.arg(0))/2
        return core.f_log(x)
    for x in walk([t]):
        if z3.is_app(x) and x.decl().name() == 'log' and x.num_args() == 1:
            y = lg(x.arg(0))
            if not y.eq(x): subs.append((x, y))
    return z3.substitute(t, *subs) if subs else None

# ------------------------------------------------------------------ differentiation
def diff_fn(t, dec, idx):
    """partial derivative of t with respect to the value dec(idx); dec: Int^m -> Real"""
    return _D(t, lambda x: (z3.If(z3.And(*[a == b for a, b in zip(x.children(), idx)]), z3.RealVal(1), z3.RealVal(0))
                            if z3.is_app(x) and x.decl().eq(dec) else None))

def diff_const(t, c):
    return _D(t, lambda x: z3.RealVal(1) if x.eq(c) else None)

def _D(t, atom):
    cache = {}
    Z, O = z3.RealVal(0), z3.RealVal(1)
    def isz(x): return concrete(x) == 0 and concrete(x) is not None
    def add(a, b): return b if isz(a) else a if isz(b) else a + b
    def mul(a, b):
        if isz(a) or isz(b): return Z
        if concrete(a) == 1: return b
        if concrete(b) == 1: return a
        return a*b
    def go(x):
        i = x.get_id()
        if i in cache: return cache[i]
        core._KEEP.append(x)
        r = _go(x); cache[i] = r
        return r
    def _go(x):
        a = atom(x)
        if a is not None: return a
        if z3.is_int_value(x) or z3.is_rational_value(x): return Z
        k = x.decl().kind()
        if x.sort() == IS or k == z3.Z3_OP_TO_REAL: return Z
        if k == z3.Z3_OP_ADD:
            r = Z
            for c in x.children(): r = add(r, go(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = go(x.arg(0))
            for c in x.children()[1:]:
                d = go(c); r = r if isz(d) else (r - d)
            return r
        if k == z3.Z3_OP_UMINUS:
            d = go(x.arg(0)); return Z if isz(d) else -d
        if k == z3.Z3_OP_MUL:
            r = Z
            ch = x.children()
            for j in range(len(ch)):
                d = go(ch[j])
                if isz(d): continue
                p = d
                for m in range(len(ch)):
                    if m != j: p = mul(p, ch[m])
                r = add(r, p)
            return r
        if k == z3.Z3_OP_DIV:
            da, db = go(x.arg(0)), go(x.arg(1))
            r = Z if isz(da) else da / x.arg(1)
            if not isz(db): r = (r - x.arg(0)*db/(x.arg(1)*x.arg(1))) if not isz(r) else -(x.arg(0)*db/(x.arg(1)*x.arg(1)))
            return r
        if k == z3.Z3_OP_ITE:
            a, b = go(x.arg(1)), go(x.arg(2))
            return a if a.eq(b) else z3.If(x.arg(0), a, b)
        if z3.is_const(x):
            nd = core._NODES.get(x.get_id())
            if nd is None: return Z
            v = tmpvar()
            b = go(subst(nd.body, [(nd.var, v)]))
            if isz(b): return Z
            if nd.kind != 'sum': raise Unsupported('derivative of %s' % nd.kind)
            return mk_node_body('sum', nd.n, v, b)
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            ds = [go(c) if c.sort() == RS else Z for c in x.children()]
            if all(isz(d) for d in ds): return Z
            u = x.arg(0)
            if nm == 'exp': f = x
            elif nm == 'log': f = O/u
            elif nm == 'sqrt': f = O/(2*x)
            elif nm == 'sin': f = f_cos(u)
            elif nm == 'cos': f = -f_sin(u)
            elif nm == 'Phi': f = npdf(u)
            elif nm == 'logPhi': f = npdf(u)/f_Phi(u)
            elif nm == 'lnGamma': f = f_psi(z3.IntVal(0), u)
            elif nm == 'psi':
                m = concrete(x.arg(0)); f = f_psi(z3.IntVal(m+1), x.arg(1)); return mul(f, ds[1])
            elif nm == 'Gamma': f = x*f_psi(z3.IntVal(0), u)
            elif nm == 'pow':
                r = Z
                if not isz(ds[0]): r = add(r, mul(x.arg(1)*f_pow(x.arg(0), x.arg(1) - 1), ds[0]))
                if not isz(ds[1]): r = add(r, mul(x*f_log(x.arg(0)), ds[1]))
                return r
            else:
                raise Unsupported('derivative of %s' % nm)
            return mul(f, ds[0])
        raise Unsupported('derivative of %s' % x.decl().name())
    return go(t)

def npdf(u):
    """standard normal density as the code base writes it: exp(-(u^2)/2)/sqrt(2 pi)"""
    return f_exp(-(u*u)/2)/f_sqrt(2*PI)

# ------------------------------------------------------------------ sums
def sums_in(t):
    out = {}
    for x in walk([t]):
        nd = core._NODES.get(x.get_id()) if z3.is_const(x) else None
        if nd is not None and nd.kind == 'sum': out[x.get_id()] = nd
    return list(out.values())

def linear_in(t, c):
    """t == a*c + b, a and b free of c; syntactic, via rational form"""
    x = c
    b = z3.substitute(t, (x, z3.RealVal(0) if x.sort() == RS else z3.IntVal(0)))
    one = z3.substitute(t, (x, z3.RealVal(1) if x.sort() == RS else z3.IntVal(1)))
    two = z3.substitute(t, (x, z3.RealVal(2) if x.sort() == RS else z3.IntVal(2)))
    return one - b, b, two - 2*one + b

def zero_sums(t, pc, foralls=(), log=None, lits=(), depth=0):
    """prove t == 0 where t may contain sum nodes: same-range sums in which t is linear are merged
    into one summation whose body is shown to vanish pointwise."""
    pc = list(pc) + list(lits)
    lra = Lra(pc)
    t = simplify_under(t, lra)
    S = sums_in(t)
    if not S:
        return _zero(t, pc, (), 3000, [600], lra)
    c = find_ite_cond(t)
    if c is not None:
        cs = z3.simplify(c)
        if z3.is_true(cs) or z3.is_false(cs):
            return zero_sums(resolve(t, c, z3.is_true(cs)), pc, foralls, log, (), depth+1)
        for val in (True, False):
            l = c if val else z3.Not(c)
            if lra.unsat(l): continue
            res = zero_sums(resolve(t, c, val), pc, foralls, log, (l,), depth+1)
            if res[0] is not True: return res
        return True, None
    groups = {}; lens = {}
    for nd in S:
        n = same_length(z3.simplify(nd.n), lens, lra); groups.setdefault(n.get_id(), []).append(nd)
    for gid, g in groups.items():
        k = fresh('k')
        lc = collect_linear(t, {nd.const.get_id() for nd in g})
        if lc is None: continue
        coefs, rest = lc
        body = z3.RealVal(0)
        for nd in g:
            if nd.const.get_id() not in coefs: continue
            bk = Zreal(subst(nd.body, [(nd.var, k)]))
            a = coefs[nd.const.get_id()]
            body = body + (bk if concrete(a) == 1 else -bk if concrete(a) == -1 else a*bk)
        n = lens[gid]
        pcs = list(pc) + [0 <= k, k < n] + [f(k) for f in foralls]
        res = zero_sums(body, pcs, foralls, log, (), depth+1)
        if res[0] is True:
            return zero_sums(rest, pc, foralls, log, (), depth+1)
        m = expand_sums(t, S) if depth < 12 else None
        if m is not None and not m.eq(t):
            r2 = zero_sums(m, pc, foralls, log, (), depth+3)
            if r2[0] is True: return r2
        return res
    # sums below a nonlinear operation: identify the equal ones, then treat them as opaque numbers
    m = merge_sums(t, S, pc, foralls)
    if m is not None: return zero_sums(m, pc, foralls, log, (), depth+1)
    m = expand_sums(t, S)
    if m is not None: return zero_sums(m, pc, foralls, log, (), depth+1)
    r = _zero(t, pc, (), 3000, [600], lra)
    return r if r[0] is True else (None, 'not linear in its sums: %s' % str(t)[:300])

def same_length(n, lens, lra):
    """the representative of the lengths that are provably equal to n"""
    while z3.is_app_of(n, z3.Z3_OP_ITE):
        c, a, b = n.children()
        if lra.unsat(z3.Not(c)): n = z3.simplify(a)
        elif lra.unsat(c): n = z3.simplify(b)
        else: break
    if n.get_id() in lens: return n
    for m in lens.values():
        if lra.unsat(m < n) and lra.unsat(n < m): return m
    lens[n.get_id()] = n; return n

def merge_sums(t, S, pc, foralls):
    """t with provably equal sums identified, or None if there are none"""
    reps, subs = [], []; lens, lra = {}, Lra(pc)
    for nd in S:
        for rp in reps:
            if not same_length(z3.simplify(nd.n), lens, lra).eq(same_length(z3.simplify(rp.n), lens, lra)): continue
            k = fresh('k')
            d = Zreal(subst(nd.body, [(nd.var, k)])) - Zreal(subst(rp.body, [(rp.var, k)]))
            r = zero_sums(d, list(pc) + [0 <= k, k < nd.n] + [f(k) for f in foralls], foralls)
            if r[0] is True: subs.append((nd.const, rp.const)); break
        else: reps.append(nd)
    return z3.substitute(t, *subs) if subs else None

def to_term(p, R):
    out = None
    for m, c in sorted(p.items()):
        x = None if c == 1 and m else z3.RealVal(str(c))
        for a, e in m:
            for _ in range(e): x = Zreal(R.atoms[a]) if x is None else x*Zreal(R.atoms[a])
        out = x if out is None else out + x
    return z3.RealVal(0) if out is None else out

def expand_sums(t, S):
    """sum_k sum_i c_i m_i(k) -> sum_i c_i sum_k m_i(k), factors free of k taken out; None if nothing changes"""
    subs = []
    for nd in S:
        if any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in walk([nd.body])): continue
        R = Ring(); v = tmpvar()
        try: n, d = R.rat(split_exps(Zreal(subst(nd.body, [(nd.var, v)])), v))
        except Undecided: continue
        dep = {i: v.get_id() in free_consts(x) for i, x in R.atoms.items()}
        if any(dep[a] for m in d for a, e in m) or any(x.decl().name().startswith('expatom') for x in R.atoms.values()): continue
        if len(n) <= 1 and not any(not dep[a] for m in n for a, e in m) and d == R.ONE and all(c == 1 for c in n.values()): continue
        tot = None
        for m, c in sorted(n.items()):
            kd = tuple(x for x in m if dep[x[0]]); kf = tuple(x for x in m if not dep[x[0]])
            b = to_term({kd: Fraction(1)}, R)
            s = mk_node_body('sum', nd.n, v, b) if kd else Zreal(nd.n)
            x = to_term({kf: c}, R)*s
            tot = x if tot is None else tot + x
        if tot is None: tot = z3.RealVal(0)
        if d != R.ONE: tot = tot/to_term(d, R)
        tot = unhide(tot)
        if not tot.eq(nd.const): subs.append((nd.const, tot))
    return z3.substitute(t, *subs) if subs else None

_hexp = z3.Function('hidden_exp', RS, RS)
def split_exps(b, v):
    """b with exp(x + y) written exp(x)*exp(y), x free of v, every exp hidden from the ring's own exponential rules"""
    subs = []
    for x in walk([b]):
        if not (z3.is_app(x) and x.decl().name() == 'exp' and v.get_id() in free_consts(x)): continue
        if any(y.decl().name() == 'exp' for y in walk([x.arg(0)]) if z3.is_app(y)): continue
        R = Ring(); n, d = R.rat(Zreal(x.arg(0)))
        dep = {i: v.get_id() in free_consts(y) for i, y in R.atoms.items()}
        if any(dep[a] for m in d for a, e in m) or any(y.decl().name().startswith('expatom') for y in R.atoms.values()): continue
        n0 = {m: c for m, c in n.items() if not any(dep[a] for a, e in m)}; n1 = {m: c for m, c in n.items() if m not in n0}
        q = lambda p: to_term(p, R) if d == R.ONE else to_term(p, R)/to_term(d, R)
        subs.append((x, _hexp(q(n1)) if not n0 else _hexp(q(n0))*_hexp(q(n1))))
    return z3.substitute(b, *subs) if subs else b

def unhide(t):
    subs = [(x, f_exp(x.arg(0))) for x in walk([t]) if z3.is_app(x) and x.decl().name() == 'hidden_exp']
    t = z3.substitute(t, *subs) if subs else t
    # the hidden terms below sums made just above
    hid = []
    for x in walk([t]):
        nd = core._NODES.get(x.get_id()) if z3.is_const(x) else None
        if nd is not None and any(z3.is_app(y) and y.decl().name() == 'hidden_exp' for y in walk([nd.body])):
            w = tmpvar(); hid.append((x, mk_node_body(nd.kind, nd.n, w, unhide(subst(nd.body, [(nd.var, w)])))))
    return z3.substitute(t, *hid) if hid else t

def collect_linear(t, ids):
    """t == sum coef[c]*c + rest for the constants in ids; None if not syntactically linear"""
    memo = {}
    def has(x):
        i = x.get_id()
        if i not in memo: memo[i] = any(y.get_id() in ids for y in walk([x]))
        return memo[i]
    def go(x):
        if not has(x): return {}, x
        if x.get_id() in ids: return {x.get_id(): z3.RealVal(1)}, z3.RealVal(0)
        k = x.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return go(x.arg(0)) if x.arg(0).get_id() in ids else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            cs, r = None, None
            for j, y in enumerate(x.children()):
                g = go(y)
                if g is None: return None
                sgn = -1 if (k == z3.Z3_OP_SUB and j > 0) else 1
                if cs is None: cs, r = dict(g[0]), g[1]; continue
                for c, a in g[0].items():
                    a = a if sgn == 1 else z3.simplify(-a)
                    cs[c] = (cs[c] + a) if c in cs else a
                z = concrete(g[1]) is not None and concrete(g[1]) == 0
                if not z: r = r + g[1] if sgn == 1 else r - g[1]
            return cs, r
        if k == z3.Z3_OP_UMINUS:
            g = go(x.arg(0))
            return None if g is None else ({c: z3.simplify(-a) for c, a in g[0].items()}, z3.simplify(-g[1]))
        if k == z3.Z3_OP_MUL:
            hs = [y for y in x.children() if has(y)]
            if len(hs) != 1: return None
            g = go(hs[0])
            if g is None: return None
            f = [Zreal(y) for y in x.children() if not has(y)]
            p = f[0]
            for y in f[1:]: p = p*y
            z = lambda a: p if concrete(a) == 1 else p*a
            return {c: z(a) for c, a in g[0].items()}, (g[1] if concrete(g[1]) == 0 else p*g[1])
        if k == z3.Z3_OP_DIV:
            if has(x.arg(1)): return None
            g = go(x.arg(0))
            if g is None: return None
            d = x.arg(1)
            return {c: a/d for c, a in g[0].items()}, (g[1] if concrete(g[1]) == 0 else g[1]/d)
        return None
    return go(t)

def zero_quick(t):
    try:
        z, R = is_zero_poly(prune(t))
        return z, None
    except Exception as e:
        return False, str(e)

# ------------------------------------------------------------------ multi-index sums: order of summation, products of sums
SYM = set()          # names of binary symbols f with f(i,j) == f(j,i)
def _sym(t):
    """order the arguments of symmetric symbols"""
    if not SYM: return t
    subs = []
    for x in walk([t]):
        if z3.is_app(x) and x.num_args() == 2 and x.decl().name() in SYM:
            a, b = x.children()
            if a.get_id() > b.get_id(): subs.append((x, x.decl()(b, a)))
    return z3.substitute(t, *subs) if subs else t

def _msums(t, R, top, acc):
    """t == sum of c * Sum_{vars} prod deltas * prod atoms ; list of (c, ((v,n)...), {atom id: exp}, (delta condition...))"""
    c = find_ite_cond(t)
    if c is not None:
        lits = c.children() if z3.is_and(c) else [c]
        if not all(z3.is_eq(x) and x.arg(0).sort() == IS for x in lits): raise Undecided('condition below a sum: %s' % c)
        bt, bf = resolve(t, c, True), resolve(t, c, False)
        acc[0] += 1
        if acc[0] > 4000: raise Undecided('too many terms')
        return _msums(bf, R, top, acc) + [(c0, v0, q0, d0 + tuple(lits)) for c0, v0, q0, d0 in _msums(bt - bf, R, top, acc)]
    n, d = R.rat(Zreal(t))
    if d != R.ONE:
        if not top and len(d) != 1: raise Undecided('denominator below a sum')
    out = []
    dm = None
    if d != R.ONE and not top:
        (m, c), = d.items(); dm = (dict(m), c)
    for m, c in n.items():
        parts = [(Fraction(c), (), {}, ())]
        if dm is not None: parts = [(Fraction(c)/dm[1], (), {a: -e for a, e in dm[0].items()}, ())]
        for a, e in m:
            x = R.atoms[a]
            nd = core._NODES.get(x.get_id()) if z3.is_const(x) else None
            if nd is None or nd.kind != 'sum':
                parts = [(c0, v0, {**q, a: q.get(a, 0) + e}, d0) for c0, v0, q, d0 in parts]; continue
            for _ in range(e):
                v = fresh('ms'); body = Zreal(subst(nd.body, [(nd.var, v)]))
                sub = _msums(body, R, False, acc)
                new = []
                for c0, v0, q0, d0 in parts:
                    for c1, v1, q1, d1 in sub:
                        q = dict(q0)
                        for k, f in q1.items():
                            q[k] = q.get(k, 0) + f
                        new.append((c0*c1, v0 + ((v, nd.n),) + v1, {k: f for k, f in q.items() if f}, d0 + d1))
                parts = new
                acc[0] += len(parts)
                if acc[0] > 4000: raise Undecided('too many terms')
        out += parts
    return out

def _deltas(ms, R, pc, lra):
    """eliminate Kronecker deltas: Sum_v [v == e] f(v) = f(e) when e is in the range of v"""
    out = []
    for c, vs, q, ds in ms:
        vs = list(vs); ds = [z3.simplify(x) for x in ds]; q = {z3_id(R, a): e for a, e in q.items()}
        at = {k: R.atoms[k] for k in q}
        dead = False; guard = 0
        while ds and not dead:
            guard += 1
            if guard > 30: raise Undecided('deltas')
            x = ds.pop()
            if z3.is_true(x): continue
            if z3.is_false(x): dead = True; break
            l, r = x.arg(0), x.arg(1)
            done = False
            ids = {v.get_id(): (v, n) for v, n in vs}
            for v, n in list(vs):
                if v.get_id() not in free_consts(x): continue
                d = z3.simplify(l - r)
                e = None
                for sgn in (1, -1):
                    w = z3.simplify(v - d) if sgn == 1 else z3.simplify(v + d)
                    if v.get_id() not in free_consts(w): e = w; break
                if e is None: continue
                rng = [z3.And(0 <= w, w < Zr(m)) for w, m in vs if w.get_id() != v.get_id()]
                if not lra.unsat(*(rng + [z3.Not(z3.And(0 <= e, e < Zr(n)))])): continue
                vs = [(w, _sb(m, v, e)) for w, m in vs if w.get_id() != v.get_id()]
                ds = [z3.simplify(_sb(y, v, e)) for y in ds]
                at = {k: _sb(y, v, e) for k, y in at.items()}
                done = True; break
            if done: continue
            rng = [z3.And(0 <= w, w < Zr(m)) for w, m in vs]
            if lra.unsat(*(rng + [x])): dead = True; break
            if lra.unsat(*(rng + [z3.Not(x)])): continue
            raise Undecided('delta')
        if dead: continue
        # atoms may have become equal or decomposable: renormalise the product
        prod = z3.RealVal(1)
        for k, e in q.items():
            for _ in range(abs(e)): prod = prod*at[k] if e > 0 else prod/at[k]
        for c2, v2, q2, d2 in _msums(prod, R, False, [0]):
            if d2: raise Undecided('delta')
            out.append((c*c2, tuple(vs) + tuple(v2), q2))
    return out
def _sb(t, v, e): return subst(Zr(t) if not z3.is_bool(t) else t, [(v, e)])
def z3_id(R, a): return a

def zero_multi(t, pc, depth=0):
    """t == 0 by expanding everything into multi-index sums of monomials and renaming the indices canonically"""
    lra = Lra(list(pc))
    t = simplify_under(t, lra)
    c = find_ite_cond(t)
    if c is not None and depth < 12:
        for val in (True, False):
            l = c if val else z3.Not(c)
            if lra.unsat(l): continue
            if not zero_multi(resolve(t, c, val), list(pc) + [l], depth + 1): return False
        return True
    import itertools
    R = Ring()
    try: ms = _msums(t, R, True, [0])
    except Undecided as ex:
        if DEBUG: print("undecided", ex)
        return False
    tot = {}
    M = [z3.Int('ms@%d' % i) for i in range(6)]
    try: ms = _deltas(ms, R, pc, lra)
    except Undecided as ex:
        if DEBUG: print("undecided", ex)
        return False
    for c, vs, q in ms:
        dep = set()
        used, free = [], []
        for v, n in vs:
            d = any(v.get_id() in free_consts(R.atoms[a]) for a in q) or any(v.get_id() in free_consts(n2) for _, n2 in vs)
            (used if d else free).append((v, n))
        q = dict(q)
        extra = []
        for v, n in free: extra.append((Zreal(n), 1))
        if len(used) > 5: return False
        best = None
        for perm in itertools.permutations(range(len(used))):
            pairs = [(used[i][0], M[perm[i]]) for i in range(len(used))]
            rng = tuple(x for _, x in sorted((perm[i], z3.simplify(subst(used[i][1], pairs)).get_id()) for i in range(len(used))))
            ats = {}
            for x, e in [(R.atoms[a], e) for a, e in q.items()] + extra:
                y = _sym(z3.simplify(subst(x, pairs)) if pairs else _simp(x)); core._KEEP.append(y)
                ats[y.get_id()] = ats.get(y.get_id(), 0) + e
            key = (rng, tuple(sorted(ats.items())))
            if best is None or key < best: best = key
        tot[best] = tot.get(best, 0) + c
    if DEBUG and not all(v == 0 for v in tot.values()):
        for k, v in tot.items():
            if v: print('left', v, k[0], [(next(x for x in reversed(core._KEEP) if x.get_id() == a), e) for a, e in k[1]])
    return all(v == 0 for v in tot.values())
DEBUG = False
def _simp(x): return z3.simplify(x)
