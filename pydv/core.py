"""Terms, binder nodes, facts and the prover.

Numbers are z3 Int/Real terms (machine floats are treated as mathematical reals).
Binder nodes (sum, max, ...) are z3 constants whose definition is kept in a registry; the
definition is alpha-canonical so that equal definitions give the same constant.  At query time,
every node occurring in a query contributes lemma instances (extensionality, bounds, ...).
"""
import z3, time, itertools, math
from fractions import Fraction

z3.set_param('auto_config', True)

class Unsupported(Exception):
    """The source left the subset the verifier understands (never a violation by itself)."""

class Undecided(Exception):
    pass

# ------------------------------------------------------------------ scalars
def is_z(x):
    return isinstance(x, z3.ExprRef)

def is_sym_num(x):
    return is_z(x) and z3.is_arith(x)

def is_sym_bool(x):
    return is_z(x) and z3.is_bool(x)

class _Inf(object):
    pass

INF = z3.Real('INF!')
TOUCH = z3.Function("touch!", z3.IntSort(), z3.BoolSort())      # true everywhere; mentions index terms in quantified hypotheses so that they are instantiated
NAN = z3.Real('NAN!')

def Zr(x):
    """to z3 arithmetic term"""
    if is_z(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x == float('inf'): return INF
        if x == -float('inf'): return -INF
        if x != x: return NAN
        return z3.RealVal(str(Fraction(repr(x))))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise Unsupported('not a number: %r' % (x,))

def Zreal(x):
    t = Zr(x)
    return z3.ToReal(t) if t.sort() == z3.IntSort() and not z3.is_int_value(t) else (
        z3.RealVal(t.as_long()) if z3.is_int_value(t) else t)

def Zb(x):
    if is_z(x):
        if z3.is_bool(x): return x
        return x != 0
    return z3.BoolVal(bool(x))

def concrete(x):
    """python number/bool if x is a literal, else None"""
    if isinstance(x, (int, float, bool, Fraction)):
        return x
    if is_z(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return x.as_fraction()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return None

_fresh = itertools.count()
def fresh(name, sort='int'):
    n = '%s!%d' % (name, next(_fresh))
    return {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[sort](n)

# ------------------------------------------------------------------ uninterpreted functions
RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
def UF1(n): return z3.Function(n, RS, RS)
f_exp, f_log, f_sqrt = UF1('exp'), UF1('log'), UF1('sqrt')
f_Phi, f_logPhi = UF1('Phi'), UF1('logPhi')
f_sin, f_cos = UF1('sin'), UF1('cos')
f_gamma, f_lgamma = UF1('Gamma'), UF1('lnGamma')
f_psi = z3.Function('psi', IS, RS, RS)
f_pow = z3.Function('pow', RS, RS, RS)
f_atan2 = z3.Function('atan2', RS, RS, RS)
PI = z3.Real('PI!')

def simp(t):
    return z3.simplify(t) if is_z(t) else t

def s_exp(x):
    x = Zreal(x)
    if concrete(x) == 0: return z3.RealVal(1)
    return f_exp(x)
def s_log(x):
    x = Zreal(x)
    if concrete(x) == 1: return z3.RealVal(0)
    return f_log(x)
def s_sqrt(x):
    x = Zreal(x)
    c = concrete(x)
    if c is not None and c >= 0:
        c = Fraction(c)
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n*n == c.numerator and d*d == c.denominator:
            return z3.RealVal(str(Fraction(n, d)))
    return f_sqrt(x)
def s_abs(x):
    x = Zr(x)
    return z3.If(x >= 0, x, -x)
def s_pow(x, y):
    if is_z(y): y = simp(y)
    c = concrete(y)
    if c is not None:
        c = Fraction(c)
        if c.denominator == 1:
            n = int(c)
            xx = Zr(x)
            if n < 0:
                return s_div(1, s_pow(x, -n))
            if n == 0:
                return z3.IntVal(1) if xx.sort() == IS else z3.RealVal(1)
            r = xx
            for _ in range(n-1): r = r*xx
            return r
        if c == Fraction(1, 2):
            return s_sqrt(x)
    x = Zreal(x)
    if z3.is_app(x) and x.decl().eq(f_exp): return f_exp(x.arg(0)*Zreal(y))      # exp(a)^b == exp(a b)
    return f_pow(x, Zreal(y))
def s_div(a, b):
    a, b = Zreal(a), Zreal(b)
    if concrete(b) == 0:
        raise Unsupported('division by literal zero')
    return a / b
def s_add(a, b):
    if concrete(a) == 0 and not isinstance(concrete(a), float): 
        if is_z(b) or isinstance(b, int): return Zr(b) if concrete(b) is None or isinstance(a, int) or Zr(a).sort() == Zr(b).sort() else Zr(a) + Zr(b)
    return Zr(a) + Zr(b)
def s_sub(a, b): return Zr(a) - Zr(b)
def s_mul(a, b):
    return Zr(a) * Zr(b)
def s_min(a, b):
    a, b = Zr(a), Zr(b); return z3.If(a <= b, a, b)
def s_max(a, b):
    a, b = Zr(a), Zr(b); return z3.If(a >= b, a, b)
def s_ite(c, a, b):
    c2 = concrete(c)
    if c2 is not None: return a if c2 else b
    if isinstance(a, bool) or isinstance(b, bool) or is_sym_bool(a) or is_sym_bool(b):
        return z3.If(Zb(c), Zb(a), Zb(b))
    a, b = Zr(a), Zr(b)
    if a.sort() != b.sort(): a, b = Zreal(a), Zreal(b)
    if a.eq(b): return a
    return z3.If(Zb(c), a, b)
def s_isinf(t):
    t = Zr(t)
    if t.eq(INF) or t.eq(-INF): return z3.BoolVal(True)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return simp(z3.If(t.arg(0), s_isinf(t.arg(1)), s_isinf(t.arg(2))))
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return s_isinf(t.arg(0))
    return z3.BoolVal(False)
def s_clip(x, lo, hi):
    x = Zr(x)
    if hi is not None:
        x, h = _co(x, hi); x = z3.If(x > h, h, x)
    if lo is not None:
        x, l = _co(x, lo); x = z3.If(x < l, l, x)
    return x
def _co(a, b):
    a, b = Zr(a), Zr(b)
    if a.sort() != b.sort(): a, b = Zreal(a), Zreal(b)
    return a, b

# ------------------------------------------------------------------ term traversal
def walk(terms):
    seen, out, st = set(), [], list(terms)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i); out.append(t)
        if z3.is_quantifier(t): st.append(t.body())
        else: st.extend(t.children())
    return out

def has_var(t):
    return any(z3.is_var(x) for x in walk([t]))

# ------------------------------------------------------------------ binder nodes
class Node:
    __slots__ = ('kind', 'n', 'var', 'body', 'const', 'free', 'aux')

_NODES = {}      # const id -> Node
_NKEY = {}       # (kind, n id, body id) -> Node
_KEEP = []
_BV = {}
def bv(d):
    if d not in _BV:
        _BV[d] = z3.Int('k@%d' % d)
    return _BV[d]
_TMP = set()
def tmpvar():
    v = z3.Int('k~%d' % next(_fresh)); _TMP.add(v.get_id()); _KEEP.append(v); return v
def _isbv(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name().startswith('k@') or t.decl().name().startswith('k~'))

def node_of(t):
    return _NODES.get(t.get_id()) if z3.is_const(t) else None

_FREE = {}
def free_bvs(t):
    """ids->term of bound variables free in t, looking through nodes"""
    i = t.get_id()
    if i in _FREE: return _FREE[i]
    out = {}
    for x in walk([t]):
        if z3.is_const(x):
            if _isbv(x): out[x.get_id()] = x
            else:
                nd = _NODES.get(x.get_id())
                if nd is not None: out.update(nd.free)
    _FREE[i] = out; _KEEP.append(t)
    return out

def free_consts(t, seen=None):
    """all constants reachable, looking through nodes"""
    seen = {} if seen is None else seen
    for x in walk([t]):
        if z3.is_const(x) and x.get_id() not in seen:
            seen[x.get_id()] = x
            nd = _NODES.get(x.get_id())
            if nd is not None:
                free_consts(nd.body, seen); free_consts(nd.n, seen)
    return seen

def subst(t, pairs):
    """capture-avoiding substitution of constants, looking through nodes"""
    if not is_z(t): return t
    ids = {a.get_id() for a, _ in pairs}
    extra = []
    for x in walk([t]):
        if z3.is_const(x):
            nd = _NODES.get(x.get_id())
            if nd is not None:
                fc = free_consts(x)
                if any(i in fc for i in ids):
                    v = tmpvar()
                    body = subst(nd.body, [(nd.var, v)])
                    body = subst(body, pairs)
                    extra.append((x, mk_node_body(nd.kind, subst(nd.n, pairs), v, body)))
    pl = [(a, b) for a, b in pairs] + extra
    return z3.substitute(t, *pl) if pl else t

def subst_fn(t, dec, f):
    """replace every application dec(args) by f(args), looking through nodes"""
    cache = {}
    def go(x):
        i = x.get_id()
        if i in cache: return cache[i]
        nd = _NODES.get(i) if z3.is_const(x) else None
        if nd is not None:
            v = tmpvar()
            b0 = subst(nd.body, [(nd.var, v)])
            b = go(b0); n = go(nd.n)
            r = x if (b.eq(b0) and n.eq(nd.n)) else mk_node_body(nd.kind, n, v, b)
        elif z3.is_quantifier(x):
            raise Unsupported('subst_fn under quantifier')
        elif x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if z3.is_app(x) and x.decl().eq(dec):
                r = f(*ch)
            elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            else: r = x
        cache[i] = r; _KEEP.append((x, r))
        return r
    return go(t)

def mk_node_body(kind, n, var, body):
    n = Zr(n)
    fb = dict(free_bvs(body))
    fb.pop(var.get_id(), None)
    used = {x.decl().name() for x in fb.values()}
    used |= {x.decl().name() for x in free_bvs(n).values()}
    d = 0
    while 'k@%d' % d in used: d += 1
    cv = bv(d)
    if not cv.eq(var):
        body = subst(body, [(var, cv)])
    key = (kind, n.get_id(), cv.get_id(), body.get_id())
    nd = _NKEY.get(key)
    if nd is None:
        nd = Node()
        nd.kind, nd.n, nd.var, nd.body = kind, n, cv, body
        sort = IS if kind in ('argmax', 'argmin') or body.sort() == IS else (BS if kind in ('any', 'all') else RS)
        nd.const = z3.Const('%s#%d' % (kind, len(_NKEY)), sort)
        fr = dict(free_bvs(body)); fr.pop(cv.get_id(), None); fr.update(free_bvs(n))
        nd.free = fr; nd.aux = {}
        _NKEY[key] = nd
        _NODES[nd.const.get_id()] = nd
        _KEEP.append((nd.const, n, body, cv))
    return nd.const

def mk_node(kind, n, f):
    v = tmpvar()
    b = f(v)
    if kind in ('any', 'all'): b = Zb(b)
    else: b = Zr(b)
    return mk_node_body(kind, n, v, b)

UNROLL = 8
def mk_sum(n, f):
    c = concrete(n)
    if c is not None:
        if c <= UNROLL:
            r = 0
            for i in range(c): r = s_add(r, f(z3.IntVal(i)))
            return Zr(r)
    v = tmpvar()
    b = Zr(f(v))
    if z3.is_bool(b): b = Zr(b)
    cb = concrete(b)
    if cb is not None and cb == 0:
        return b
    return mk_node_body('sum', n, v, b)

def mk_any(n, f):
    c = concrete(n)
    if c is not None and c <= UNROLL:
        return simp(z3.Or(*[Zb(f(z3.IntVal(i))) for i in range(c)])) if c else z3.BoolVal(False)
    v = tmpvar()
    b = subst_to_q(Zb(f(v)), v)
    return z3.Exists([v], z3.And(0 <= v, v < Zr(n), b))

def mk_all(n, f):
    c = concrete(n)
    if c is not None and c <= UNROLL:
        return simp(z3.And(*[Zb(f(z3.IntVal(i))) for i in range(c)])) if c else z3.BoolVal(True)
    v = tmpvar()
    b = Zb(f(v))
    return z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < Zr(n)), b))

def subst_to_q(b, v):
    for x in free_consts(b).values():
        nd = _NODES.get(x.get_id())
        if nd is not None and v.get_id() in nd.free:
            raise Unsupported('binder node under a quantifier')
    return b

_LIFT = {}
def lift(t, vs):
    """t with every sum/extremum that depends on vs replaced by a function of them (defined where it is applied): z3 would
    otherwise take the constant standing for such a term as fixed under a quantifier over vs"""
    ids = {v.get_id() for v in vs}; ps = []; todo = [t]; seen = set()
    while todo:
        for x in walk([todo.pop()]):
            if z3.is_quantifier(x) and x.get_id() not in seen: seen.add(x.get_id()); todo.append(x.body())
            if not z3.is_const(x) or x.get_id() not in _NODES or x.get_id() in seen: continue
            seen.add(x.get_id()); fc = free_consts(x)
            if not any(i in fc for i in ids): continue
            args = [v for i, v in sorted(fc.items()) if v.sort() == IS and i not in _NODES and (i in ids or v.decl().name().startswith(('k@', 'k~', 'i~', 'q!', 'mk@')))]
            key = (x.get_id(),) + tuple(v.get_id() for v in args)
            if key not in _LIFT:
                h = z3.Function('at!%d' % next(_fresh), *([v.sort() for v in args] + [x.sort()])); _LIFT[key] = h; _KEEP.append((x, args, h))
                add_fact(h, lambda *a, x=x, args=args, h=h: h(*a) == subst(x, list(zip(args, a))))
            ps.append((x, _LIFT[key](*args)))
    return z3.substitute(t, *ps) if ps else t
_PATS = []
_zForAll, _zExists = z3.ForAll, z3.Exists
def _quant(q):
    def f(vs, body, *a, **k):
        l = [vs] if z3.is_expr(vs) else list(vs)
        b = lift(body, l)
        if k.get('patterns'):
            k = dict(k); k['patterns'] = [p if z3.is_pattern(p) else z3.MultiPattern(lift(p, l)) for p in k['patterns']]
            _PATS.append(k['patterns'])       # z3's python wrapper gives back one reference too many when a pattern object dies
        return q(vs, b, *a, **k)
    return f
z3.ForAll, z3.Exists = _quant(_zForAll), _quant(_zExists)

def mk_ext(kind, n, f):
    """max / min / argmax / argmin over [0,n)"""
    c = concrete(n)
    if c is not None and c <= UNROLL and c >= 1:
        vals = [Zr(f(z3.IntVal(i))) for i in range(c)]
        best, bi = vals[0], z3.IntVal(0)
        for i in range(1, c):
            cnd = vals[i] > best if kind.endswith('max') else vals[i] < best
            best, bi = z3.If(cnd, vals[i], best), z3.If(cnd, z3.IntVal(i), bi)
        return bi if kind.startswith('arg') else best
    return mk_node(kind, n, f)

# ------------------------------------------------------------------ facts attached to symbols
_FACTS = {}       # decl name -> list of f(*args) -> Bool   (instantiated at every ground application)
_CFACTS = {}      # const id  -> list of Bool  (definitional axioms of a constant, may be quantified)
def add_fact(decl, f):
    _FACTS.setdefault(decl.name(), []).append(f)
def add_def(const, ax):
    _CFACTS.setdefault(const.get_id(), []).append(ax); _KEEP.append((const, ax))

_FDEFS = {}       # decl name -> list of closed axioms (quantified), included when the symbol occurs
def add_fdef(decl, ax):
    _FDEFS.setdefault(decl.name(), []).append(ax); _KEEP.append((decl, ax))

def reset():
    _FDEFS.clear(); _FACTS.clear(); _CFACTS.clear(); _NODES.clear(); _NKEY.clear(); _FREE.clear(); _LIFT.clear()
    _KEEP.clear()

_std = {}
def _std_facts(t, apps):
    """axiom instances for the transcendental symbols"""
    n = t.decl().name()
    if n == 'exp':
        return [t > 0, z3.Implies(t.arg(0) >= 0, t >= 1), z3.Implies(t.arg(0) <= 0, t <= 1)]
    if n == 'log':
        return [z3.Implies(t.arg(0) >= 1, t >= 0), z3.Implies(z3.And(t.arg(0) > 0, t.arg(0) <= 1), t <= 0)]
    if n == 'sqrt':
        a = t.arg(0)
        return [t >= 0, z3.Implies(a >= 0, t*t == a), z3.Implies(a > 0, t > 0)]
    if n == 'Phi':
        return [t > 0, t < 1, z3.Implies(t.arg(0) >= 0, t >= Zreal(0.5)), z3.Implies(t.arg(0) <= 0, t <= Zreal(0.5))]
    if n == 'logPhi':
        return [t < 0]
    if n in ('sin', 'cos'):
        return [t <= 1, t >= -1]
    if n == 'Gamma':
        return [z3.Implies(t.arg(0) > 0, t > 0)]
    return []
_MONO = {'exp': lambda a: True, 'Phi': lambda a: True, 'logPhi': lambda a: True, 'sqrt': lambda a: a >= 0, 'log': lambda a: a > 0}

def ground_closure(forms, foralls=(), depth=3):
    """collect instances of facts/lemmas for everything occurring in forms"""
    out = []
    seen_t, seen_n, seen_d = set(), set(), set()
    done_apps = {}
    frontier = list(forms)
    nodes = []
    cints, seen_c = {}, set()
    for it in range(depth):
        new = []
        for t in walk(frontier):
            i = t.get_id()
            if i in seen_t: continue
            seen_t.add(i); _KEEP.append(t)
            if z3.is_const(t):
                if t.sort() == IS and it < 2 and len(cints) < 16 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not _isbv(t) and not t.decl().name().startswith(('q!', 'w!')): cints[i] = t
                for ax in _CFACTS.get(i, ()): new.append(ax)
                nd = _NODES.get(i)
                if nd is not None: 
                    nodes.append(nd)
                    new.extend(node_facts(nd))
                if t.eq(PI):
                    new += [PI > Zreal(3.14159), PI < Zreal(3.1416)]
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if nm in _FDEFS and nm not in seen_d: seen_d.add(nm); new.extend(_FDEFS[nm])
                if has_var(t): continue
                for f in _FACTS.get(nm, ()):
                    r = f(*t.children())
                    if r is not None: new.append(r)
                new.extend(_std_facts(t, None))
                if nm in _MONO:
                    lst = done_apps.setdefault(nm, [])
                    if len(lst) < 12:
                        for u in lst:
                            a, b = t.arg(0), u.arg(0)
                            g = z3.And(_MONO[nm](a), _MONO[nm](b))
                            new.append(z3.Implies(g, z3.And((a < b) == (t < u), (a == b) == (t == u))))
                        lst.append(t)
        for nd in nodes:
            if nd.kind in ('max', 'min', 'argmax', 'argmin') and _nested(nd):
                for i, t in cints.items():
                    if (nd.const.get_id(), i) not in seen_c and i != nd.const.get_id(): seen_c.add((nd.const.get_id(), i)); new.append(_inst(nd, t))
        # pairwise extensionality
        for a in range(len(nodes)):
            for b in range(a):
                x, y = nodes[a], nodes[b]
                if (x.const.get_id(), y.const.get_id()) in seen_n: continue
                seen_n.add((x.const.get_id(), y.const.get_id()))
                if x.kind == y.kind and x.const.sort() == y.const.sort() and len(nodes) <= 10 and x.kind != 'any':
                    sk = fresh('sk')
                    bx, by = subst(x.body, [(x.var, sk)]), subst(y.body, [(y.var, sk)])
                    new.append(z3.Or(x.n != y.n, x.const == y.const,
                                     z3.And(0 <= sk, sk < x.n, bx != by)))
                    if x.kind == 'sum':
                        s1, s2 = fresh('sk'), fresh('sk')
                        new.append(z3.Or(x.n != y.n, x.const <= y.const, z3.And(0 <= s1, s1 < x.n, subst(x.body, [(x.var, s1)]) > subst(y.body, [(y.var, s1)]))))
                        new.append(z3.Or(x.n != y.n, y.const <= x.const, z3.And(0 <= s2, s2 < x.n, subst(y.body, [(y.var, s2)]) > subst(x.body, [(x.var, s2)]))))
        if not new: break
        out.extend(new)
        frontier = new
    return out

def node_facts(nd):
    c, n = nd.const, nd.n
    at = lambda k: subst(nd.body, [(nd.var, k)])
    if nd.kind == 'sum':
        s, s2, s3 = fresh('sk'), fresh('sk'), fresh('sk')
        return [z3.Implies(n <= 0, c == 0),
                z3.Or(c >= 0, z3.And(0 <= s, s < n, at(s) < 0)),
                z3.Or(c <= 0, z3.And(0 <= s2, s2 < n, at(s2) > 0)),
                # strictly positive if all nonneg and one positive (witnessed)
                z3.Or(c > 0, n <= 0, z3.And(0 <= s3, s3 < n, at(s3) <= 0))]
    if nd.kind in ('max', 'min'):
        w = nd.aux.setdefault('w', fresh('w'))
        return [z3.Implies(n > 0, z3.And(0 <= w, w < n, at(w) == c))] + _each(nd, lambda b, k: (0, (b <= c) if nd.kind == 'max' else (b >= c)))
    if nd.kind in ('argmax', 'argmin'):
        m = at(c)
        return [z3.Implies(n > 0, z3.And(0 <= c, c < n))] + _each(nd, lambda b, k: (0, (b <= m) if nd.kind == 'argmax' else (b >= m))) \
            + _each(nd, lambda b, k: (1, z3.Implies(k < c, (b < m) if nd.kind == 'argmax' else (b > m))))
    return []

def _nested(nd):
    return any(_NODES.get(x.get_id()) is not None and nd.var.get_id() in free_consts(x) for x in free_consts(nd.body).values())
def _each(nd, f):
    """f(body(k), k) for every k in range; a body with inner binders is instantiated at the integer constants in sight instead"""
    if _nested(nd): return []
    k = z3.Int('q!k')
    return [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nd.n), f(subst(nd.body, [(nd.var, k)]), k)[1]))]
def _inst(nd, t):
    c, n = nd.const, nd.n
    b = subst(nd.body, [(nd.var, t)])
    if nd.kind in ('max', 'min'): r = (b <= c) if nd.kind == 'max' else (b >= c)
    else:
        m = subst(nd.body, [(nd.var, c)])
        r = z3.And((b <= m) if nd.kind == 'argmax' else (b >= m), z3.Implies(t < c, (b < m) if nd.kind == 'argmax' else (b > m)))
    return z3.Implies(z3.And(0 <= t, t < n), r)

# ------------------------------------------------------------------ prover
STATS = {'queries': 0, 'time': 0.0, 'by': {}}

_SKO = {}
def _skolem(f):
    """top-level existentials get a witness constant, so that facts about inputs are instantiated at it"""
    i = f.get_id()
    if i in _SKO: return _SKO[i][1]
    out = [f]
    g, pos = f, True
    if z3.is_not(g): g, pos = g.arg(0), False
    if z3.is_and(g) and pos: out = [y for c in g.children() for y in _skolem(c)]
    elif z3.is_or(g) and not pos: out = [y for c in g.children() for y in _skolem(z3.Not(c))]
    elif z3.is_not(g) and not pos: out = _skolem(g.arg(0))
    elif z3.is_quantifier(g) and (g.is_exists() if pos else g.is_forall()):
        vs = [z3.Const('sk!%d' % next(_fresh), g.var_sort(k)) for k in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        out = _skolem(b if pos else z3.Not(b))
    _SKO[i] = (f, out)
    return out

def check_sat(forms, timeout=2000, closure=True, foralls=(), seed=0, mbqi=True):
    """returns 'sat','unsat','unknown', model"""
    t0 = time.time()
    forms = [y for f in forms if is_z(f) for y in _skolem(f)]
    forms = [f for f in forms if not (is_z(f) and z3.is_true(f))]
    ax = ground_closure(forms, foralls) if closure else []
    s = z3.Solver(); s.set('timeout', timeout); s.set('random_seed', seed)
    if seed: s.set('smt.random_seed', seed)
    if not mbqi: s.set('smt.mbqi', False)
    for f in forms: s.add(f)
    for a in ax: s.add(a)
    r = s.check()
    STATS['queries'] += 1; STATS['time'] += time.time() - t0
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', s.model()
    return 'unknown', None

def check_cvc5(forms, timeout=10000):
    t0 = time.time()
    ax = ground_closure(forms)
    s = z3.Solver()
    for f in list(forms)+ax: s.add(f)
    txt = s.to_smt2()
    import subprocess, tempfile
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=timeout/1000.0 + 5)
        r = p.stdout.strip().split('\n')[0]
    except Exception:
        r = 'unknown'
    STATS['queries'] += 1; STATS['time'] += time.time() - t0
    return r if r in ('sat', 'unsat') else 'unknown'
