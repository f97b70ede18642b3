"""Library models: python builtins, container methods, numpy/scipy functions (all trusted)."""
import ast, z3
from .core import *
from .values import *
from . import core, ring
from .nplib import is_num, DT, up

# ------------------------------------------------------------------ truth, compare, binop
def truth(I, v):
    if v is None: return False
    if isinstance(v, (bool, int, float, str, tuple, list, dict, set, Fraction)): return bool(v)
    if is_z(v): return Zb(v)
    if isinstance(v, SymList): return v.n > 0
    if isinstance(v, SymSet): return v.arr != z3.EmptySet(IS)
    if isinstance(v, NDArray):
        if all(isinstance(d, int) and d == 1 for d in v.shape): return Zb(v.at(*([0]*v.ndim)))
        raise PR(I, 'ValueError', 'truth of array')
    if isinstance(v, (Obj, FuncRef, Bound, ClassRef, Builtin, TypeRef)): return True
    raise Unsupported('truth of %r' % (v,))
def PR(I, n, m=''): return I.PyRaise(n, m)

def compare(I, op, a, b):
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        if a is None or b is None: r = a is None and b is None
        elif isinstance(a, bool) or isinstance(b, bool): 
            if is_z(a) or is_z(b): r = compare(I, ast.Eq(), a, b)
            else: r = a is b
        else: r = a is b
        if is_z(r): return r if t is ast.Is else z3.Not(r)
        return r if t is ast.Is else not r
    if t in (ast.In, ast.NotIn):
        r = contains(I, b, a)
        if t is ast.In: return r
        return (not r) if isinstance(r, bool) else z3.Not(r)
    o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[t]
    if isinstance(a, NDArray) or isinstance(b, NDArray):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return o == '!='
        if o in ('==', '!=') and any(isinstance(x, (list, tuple)) and not x and y.ndim >= 2 and concrete(y.shape[-1]) not in (None, 0, 1) for x, y in ((a, b), (b, a)) if isinstance(y, NDArray)): return o == '!='      # shapes that do not fit
        return I.np.binop(o, a, b)
    if is_z(a) or is_z(b):
        if is_num(a) and is_num(b):
            return simp(scalar_cmp(o, a, b))
        if o == '==': return False
        if o == '!=': return True
        raise PR(I, 'TypeError', 'compare')
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and o in ('==', '!='):
        if type(a) != type(b) or len(a) != len(b): return o == '!='
        cs = [compare(I, ast.Eq(), x, y) for x, y in zip(a, b)]
        if all(isinstance(c, bool) for c in cs): r = all(cs)
        else: r = z3.And(*[Zb(c) for c in cs])
        return r if o == '==' else (not r if isinstance(r, bool) else z3.Not(r))
    if isinstance(a, (set, SymSet)) or isinstance(b, (set, SymSet)):
        A, B = to_set(I, a).arr, to_set(I, b).arr
        if o == '==': return A == B
        if o == '!=': return A != B
        if o == '<=': return z3.IsSubset(A, B)
        raise Unsupported('set compare')
    if o in ('==', '!='):
        if isinstance(a, (SymList, Obj, Opaque)) or isinstance(b, (SymList, Obj, Opaque)):
            if isinstance(a, Obj) and isinstance(b, Obj): return (a is b) == (o == '==')
            if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, SymList) and isinstance(b, SymList): raise Unsupported('compare opaque')
            return o == '!='
        r = a == b
        return r if o == '==' else not r
    try:
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[o]()
    except TypeError:
        if isinstance(a, (Opaque, SymList, Obj)) or isinstance(b, (Opaque, SymList, Obj)): raise Unsupported('compare')
        raise PR(I, 'TypeError', 'compare')

def scalar_cmp(o, a, b):
    if is_sym_bool(a) and is_sym_bool(b) and o in ('==', '!='):
        return (a == b) if o == '==' else (a != b)
    a, b = core._co(a, b)
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[o]()

def contains(I, c, x):
    if isinstance(c, SymSet): return c.has(x)
    if isinstance(c, SymMap): return c.has(Zr(x))
    if isinstance(c, dict): 
        if is_z(x) and concrete(x) is None:
            ks = list(c)
            return z3.Or(*[Zr(x) == Zr(k) for k in ks if isinstance(k, int)]) if ks else False
        return I.hashable(x) in c
    if isinstance(c, (list, tuple, set)):
        rs = [compare(I, ast.Eq(), y, x) for y in c]
        if all(isinstance(r, bool) for r in rs): return any(rs)
        return z3.Or(*[Zb(r) for r in rs])
    if isinstance(c, SymList):
        return mk_any(c.n, lambda i: scalar_cmp('==', c.elem(i), x))
    if isinstance(c, Range):
        if concrete(c.step) == 1: return simp(z3.And(Zr(x) >= Zr(c.lo), Zr(x) < Zr(c.hi)))
    if isinstance(c, str): return x in c
    if isinstance(c, NDArray) and c.ndim == 1: return mk_any(c.shape[0], lambda i: c.at(i) == Zr(x))
    raise Unsupported('in %r' % (c,))

def to_set(I, s):
    if isinstance(s, SymSet): return s
    if isinstance(s, (set, list, tuple)):
        a = z3.EmptySet(IS)
        for x in s: a = z3.SetAdd(a, Zr(x))
        return SymSet(a)
    if isinstance(s, (Range, SymList, NDArray)): return make_set(I, s)
    raise Unsupported('set of %r' % (s,))

def make_set(I, x=()):
    if isinstance(x, SymSet): return SymSet(x.arr)
    if isinstance(x, (list, tuple, set)):
        vals = list(x)
        if all(concrete(v) is not None or isinstance(v, str) for v in vals) and False: return set(vals)
        return to_set(I, vals)
    if isinstance(x, dict): return to_set(I, list(x))
    k = z3.Int('s!k')
    if isinstance(x, Range) and concrete(x.step) == 1:
        s = z3.Const('set!%d' % next(core._fresh), z3.SetSort(IS))
        add_def(s, z3.ForAll([k], z3.Implies(z3.Select(s, k), z3.And(Zr(x.lo) <= k, k < Zr(x.hi))), patterns=[z3.Select(s, k)]))
        add_def(s, z3.ForAll([k], z3.Implies(z3.And(Zr(x.lo) <= k, k < Zr(x.hi)), z3.Select(s, k)), patterns=[z3.Select(s, k)]))
        return SymSet(s)
    if isinstance(x, NDArray) and x.ndim == 1:
        x = x.snapshot(); n, el = x.shape[0], (lambda i: x.at(i))
    elif isinstance(x, SymList): n, el = x.n, x.elem
    else: raise Unsupported('set(%r)' % (x,))
    s = z3.Const('set!%d' % next(core._fresh), z3.SetSort(IS))
    j = z3.Int('q!j')
    w = z3.Function('wit!%d' % next(core._fresh), IS, IS)
    add_def(s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Zr(n)), z3.Select(s, Zr(el(j))))))
    add_def(s, z3.ForAll([k], z3.Implies(z3.Select(s, k), z3.And(0 <= w(k), w(k) < Zr(n), Zr(el(w(k))) == k)), patterns=[z3.Select(s, k)]))
    return SymSet(s)

def binop(I, op, a, b):
    if is_num(a) and is_num(b):
        if not is_z(a) and not is_z(b):
            try: return {'+': lambda: a+b, '-': lambda: a-b, '*': lambda: a*b, '/': lambda: Fraction(a)/Fraction(b) if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and b != 0 else (s_div(a, b) if b != 0 else _zd(I)), '//': lambda: a//b, '%': lambda: a % b, '**': lambda: _cpow(a, b),
                         '|': lambda: a|b, '&': lambda: a&b}[op]()
            except KeyError: raise Unsupported(op)
        if op == '+': return simp_lit(s_add(a, b))
        if op == '-': return simp_lit(s_sub(a, b))
        if op == '*': return simp_lit(s_mul(a, b))
        if op == '/':
            if I.divs is not None: I.divs.append((list(I.cx.pc), b))
            return s_div(a, b)
        if op == '**': return s_pow(a, b)
        if op == '//':
            a2, b2 = Zr(a), Zr(b)
            if a2.sort() == IS and b2.sort() == IS:
                if I.entails(b2 > 0): return a2 / b2
                raise Unsupported('floor division')
            raise Unsupported('real floor division')
        if op == '%':
            a2, b2 = Zr(a), Zr(b)
            if a2.sort() == IS and b2.sort() == IS and I.entails(b2 > 0): return a2 % b2
            raise Unsupported('mod')
        if op == '|': return z3.Or(Zb(a), Zb(b))
        if op == '&': return z3.And(Zb(a), Zb(b))
        raise Unsupported(op)
    if isinstance(a, NDArray) or isinstance(b, NDArray):
        if a is None or b is None or isinstance(a, (str, tuple)) and len(a) == 0: raise PR(I, 'TypeError', 'operand')
        if isinstance(a, SymSet) or isinstance(b, SymSet): raise PR(I, 'TypeError')
        if op == '@': return I.np.matmul(a, b)
        if isinstance(a, Obj) or isinstance(b, Obj): pass
        else: return I.np.binop(op, a, b)
    if isinstance(a, (set, SymSet)) and isinstance(b, (set, SymSet)):
        A, B = to_set(I, a).arr, to_set(I, b).arr
        if op == '-': return SymSet(z3.SetDifference(A, B))
        if op == '|': return SymSet(z3.SetUnion(A, B))
        if op == '&': return SymSet(z3.SetIntersect(A, B))
    if isinstance(a, list) and isinstance(b, list) and op == '+': return a + b
    if isinstance(a, tuple) and isinstance(b, tuple) and op == '+': return a + b
    if isinstance(a, str) and isinstance(b, str) and op == '+': return a + b
    if isinstance(a, str) and op == '%': return '<fmt>'
    if isinstance(a, list) and op == '*':
        c = concrete(b)
        if isinstance(c, int): return a*c
        if len(a) == 1 and is_num(a[0]):
            v = a[0]; n = Zr(b); return SymList(z3.If(n > 0, n, z3.IntVal(0)), lambda i: v)
        raise Unsupported('list * symbolic')
    if isinstance(b, list) and op == '*': return binop(I, op, b, a)
    if isinstance(a, (list, SymList)) and isinstance(b, (list, SymList)) and op == '+':
        A, B = as_symlist(I, a), as_symlist(I, b)
        na = Zr(A.n)
        return SymList(na + Zr(B.n), lambda i: val_ite(I, i < na, lambda: A.elem(i), lambda: B.elem(i - na)))
    dn = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(op)
    if isinstance(a, Obj) and dn:
        f = I.find_method(a.cls, dn)
        if f: return I.call(Bound(f, a), [b], {})
    if (a is None or b is None or isinstance(a, (str, tuple, list, dict)) or isinstance(b, (str, tuple, list, dict))) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
        if isinstance(a, (SymList,)) or isinstance(b, (SymList,)): raise Unsupported('op on symlist')
        raise PR(I, 'TypeError', 'unsupported operand types for %s: %r %r' % (op, type(a).__name__, type(b).__name__))
    raise Unsupported('binop %s on %r, %r' % (op, a, b))
def _zd(I): raise PR(I, 'ZeroDivisionError')
def _cpow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0: return a**b
    return s_pow(a, b)
def simp_lit(t): return t

def as_symlist(I, x):
    if isinstance(x, SymList): return x
    if isinstance(x, (list, tuple)):
        xs = list(x)
        def el(i):
            c = concrete(i)
            if c is not None: return xs[c]
            if not xs: return z3.IntVal(0)
            t = xs[-1]
            for j in range(len(xs)-2, -1, -1):
                t = val_ite(I, Zr(i) == j, lambda j=j: xs[j], lambda t=t: t)
            return t
        return SymList(len(xs), el)
    if isinstance(x, Range): return SymList(x.n, x.at)
    if isinstance(x, NDArray):
        x2 = x.snapshot()
        if x.ndim == 1: return SymList(x.shape[0], lambda i: x2.at(i))
        return SymList(x.shape[0], lambda i: I.np.getitem(x, (i,)))
    raise Unsupported('list view of %r' % (x,))

def val_ite(I, c, fa, fb):
    c = simp(Zb(c))
    if z3.is_true(c): return fa()
    if z3.is_false(c): return fb()
    a, b = fa(), fb()
    return merge(I, c, a, b)
def merge(I, c, a, b):
    if a is b: return a
    a, b = scalar_of(a), scalar_of(b)
    if is_num(a) and is_num(b): return s_ite(c, a, b)
    if isinstance(a, (tuple, list)) and type(a) == type(b) and len(a) == len(b):
        return type(a)(merge(I, c, x, y) for x, y in zip(a, b))
    if isinstance(a, NDArray) and isinstance(b, NDArray) and a.ndim == b.ndim:
        a, b = a.snapshot(), b.snapshot()
        sh = tuple(x if I.np.same_syn(x, y) else s_ite(c, x, y) for x, y in zip(a.shape, b.shape))
        return NDArray(sh, lambda *i: s_ite(c, a.at(*i), b.at(*i)), up(a.dtype, b.dtype))
    if isinstance(a, SymSet) and isinstance(b, SymSet): return SymSet(z3.If(c, a.arr, b.arr))
    if isinstance(a, SymList) and isinstance(b, SymList):
        return SymList(s_ite(c, a.n, b.n), lambda i: merge(I, c, a.elem(i), b.elem(i)))
    if isinstance(a, (list, SymList)) and isinstance(b, (list, SymList)):
        A, B = as_symlist(I, a), as_symlist(I, b)
        return SymList(s_ite(c, A.n, B.n), lambda i: merge(I, c, A.elem(i), B.elem(i)))
    if type(a) == type(b) and isinstance(a, (str, bool)) and a == b: return a
    raise Unsupported('merge of %r and %r' % (a, b))

# ------------------------------------------------------------------ subscripts
def getitem(I, o, k):
    k = scalar_of(k) if not isinstance(k, tuple) else k
    if isinstance(o, NDArray): return I.np.getitem(o, k)
    if isinstance(o, (list, tuple)):
        if isinstance(k, tuple) and k and k[0] == 'slice':
            c = [None if x is None else concrete(x) for x in k[1:]]
            if any(x is None and y is not None for x, y in zip(c, k[1:])):
                if isinstance(o, list): return slice_symlist(I, as_symlist(I, o), k)
                raise Unsupported('symbolic slice of list')
            return o[slice(*c)]
        c = concrete(k)
        if c is not None and not isinstance(c, Fraction):
            try: return o[int(c)]
            except IndexError: raise PR(I, 'IndexError')
        if is_z(k) and k.sort() == IS:
            if not I.branch(z3.And(k >= -len(o), k < len(o))): raise PR(I, 'IndexError')
            kk = k if I.entails(k >= 0) else z3.If(k < 0, k + len(o), k)
            vals = list(o)
            try: return as_symlist(I, vals).elem(kk)
            except Unsupported:
                for j in range(len(vals)):
                    if I.branch(kk == j): return vals[j]
                raise core.Unsupported('list index')
        raise PR(I, 'TypeError', 'list indices')
    if isinstance(o, SymList):
        if isinstance(k, tuple) and k and k[0] == 'slice': return slice_symlist(I, o, k)
        if isinstance(k, (list, NDArray, SymList)): raise PR(I, 'TypeError')
        i = I.np.norm_index(k, o.n)
        return o.elem(i)
    if isinstance(o, dict):
        kk = concrete(k) if is_z(k) else k
        if is_z(k) and kk is None:
            ks = list(o)
            for q in ks:
                if isinstance(q, int) and I.branch(k == q): return o[q]
            raise PR(I, 'KeyError')
        if kk in o: return o[kk]
        raise PR(I, 'KeyError', str(kk))
    if isinstance(o, SymMap):
        I.safety('dict key present', o.has(Zr(k)))
        return o.val(Zr(k))
    if isinstance(o, Range): return o.at(I.np.norm_index(k, o.n))
    if isinstance(o, Opaque): raise Unsupported('subscript of %s' % o.name)
    if isinstance(o, Obj):
        f = I.find_method(o.cls, '__getitem__') if o.cls else None
        if f: return I.call(Bound(f, o), [k], {})
    if o is None: raise PR(I, 'TypeError', "'NoneType' object is not subscriptable")
    if is_num(o): raise PR(I, 'TypeError', 'scalar not subscriptable')
    if isinstance(o, str): return o[concrete(k)]
    raise Unsupported('subscript of %r' % (o,))
def slice_symlist(I, o, k):
    lo, hi, ln = I.np.slice_bounds(k[1:], o.n)
    el, n = o.elem, o.n
    if isinstance(lo, str): return SymList(n, lambda i: el(simp(Zr(n) - 1 - Zr(i))))
    return SymList(ln, (lambda i: el(i)) if isinstance(lo, int) and lo == 0 else (lambda i: el(simp(Zr(lo) + Zr(i)))))
def setitem(I, o, k, v):
    if isinstance(o, NDArray): return I.np.setitem(o, k, v)
    if isinstance(o, list):
        c = concrete(scalar_of(k))
        if c is None: raise Unsupported('store at symbolic list index')
        try: o[int(c)] = v
        except IndexError: raise PR(I, 'IndexError')
        return
    if isinstance(o, dict):
        k = scalar_of(k)
        if is_sym_num(k) and k.sort() == IS and concrete(simp(k)) is None and not o and I.iters:
            from .loops import DictPromote
            raise DictPromote(o)
        o[I.hashable(k)] = v; return
    if isinstance(o, SymMap):
        kk = Zr(k); h, g = o.has, o.val
        if o.log is not None: o.log.append((kk, v)); return
        o.has = lambda x: z3.Or(h(x), Zr(x) == kk)
        o.val = lambda x: val_ite(I, Zr(x) == kk, lambda: v, lambda: g(x))
        return
    if isinstance(o, SymList):
        i = I.np.norm_index(k, o.n); el = o.elem
        if o.log is not None: o.log.append(('set',))
        o.elem = lambda j: val_ite(I, Zr(j) == i, lambda: v, lambda: el(j)); return
    if isinstance(o, tuple): raise PR(I, 'TypeError', 'tuple assignment')
    raise Unsupported('store into %r' % (o,))

# ------------------------------------------------------------------ iteration helpers
def iter_concrete(I, v):
    if isinstance(v, (list, tuple)): return list(v)
    if isinstance(v, (set, dict)): return list(v)
    if isinstance(v, str): return list(v)
    if isinstance(v, Range):
        n = concrete(v.n)
        return [simp(v.at(i)) if is_z(v.at(i)) and concrete(simp(v.at(i))) is None else concrete(simp(v.at(i))) for i in range(n)] if n is not None else None
    if isinstance(v, NDArray):
        d = v.shape[0] if v.ndim else None
        if isinstance(d, int): return [I.np.getitem(v, (z3.IntVal(i),)) for i in range(d)]
        return None
    if isinstance(v, SymList):
        if isinstance(v.n, int): return [v.elem(z3.IntVal(i)) for i in range(v.n)]
        return None
    if isinstance(v, SymSet): return None
    if isinstance(v, Obj) and v.cls:
        return None
    raise Unsupported('iteration over %r' % (v,))

# ------------------------------------------------------------------ methods of values
def val_attr(I, o, name):
    def B(f): return Builtin(name, lambda I, a, k: f(*a, **k))
    if isinstance(o, NDArray) or (is_num(o) and not isinstance(o, (bool,))):
        if isinstance(o, NDArray):
            if name == 'shape': return tuple(o.shape)
            if name == 'ndim': return o.ndim
            if name == 'size': return I.np.size(o)
            if name == 'T': return np_transpose(I, o)
        else:
            if name in ('shape',):
                if is_z(o) or isinstance(o, Fraction): return ()      # numpy scalar
                raise PR(I, 'AttributeError', name)
        if name == 'dtype': return Opaque('dtype')
        if name in ('astype',):
            def astype(t):
                tn = t.name if isinstance(t, (TypeRef, Builtin)) else t
                if tn in ('int', 'np.int', 'numpy.int64'):
                    if DT(o) == 'int': return o
                    if DT(o) == 'real': return I.np.ew(lambda x: to_int(I, x), 'int', o)
                    return I.np.ew(lambda x: Zr(x), 'int', o)
                if tn in ('float', 'numpy.float64'): return I.np.ew(Zreal, 'real', o)
                if tn == 'bool': return I.np.ew(lambda x: Zb(x), 'bool', o)
                raise Unsupported('astype')
            return B(astype)
        if name in ('copy',): return B(lambda: o.snapshot() if isinstance(o, NDArray) else o)
        if name == 'flatten' or name == 'ravel': return B(lambda: I.np.flat(o))
        if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'argmax', 'argmin'):
            return B(lambda axis=None, keepdims=False: I.np.reduce(name, o, axis, keepdims))
        if name == 'dot': return B(lambda b: I.np.matmul(o, b))
        if name == 'tolist' and isinstance(o, NDArray) and o.ndim == 1: return B(lambda: as_symlist(I, o))
        if name == 'item': return B(lambda: scalar_of(o))
        if name in ('reshape',): return B(lambda *s: np_reshape(I, o, *s))
        if name == 'transpose': return B(lambda: np_transpose(I, o))
        if name == 'sort': 
            def srt(axis=-1, kind=None):
                r = I.lib['numpy.sort'](I, [o.snapshot(), axis], {}); o.set_fn(r._fn)
                if o.log is not None: o.log.append(('other',))
            if isinstance(o, NDArray): return B(srt)
            raise Unsupported('in-place sort')
        raise Unsupported('array attribute ' + name) if isinstance(o, NDArray) else PR(I, 'AttributeError', name)
    if isinstance(o, list):
        if name == 'append':
            return B(lambda x: o.append(x))
        if name == 'extend':
            def ext(x):
                c = iter_concrete(I, x)
                if c is None: raise Unsupported('extend symbolic')
                o.extend(c)
            return B(ext)
        if name == 'copy': return B(lambda: list(o))
        if name == 'pop':
            def pop(i=-1):
                if not o: raise PR(I, 'IndexError')
                return o.pop(concrete(i))
            return B(pop)
        if name == 'insert': return B(lambda i, x: o.insert(concrete(i), x))
        if name == 'index' or name == 'remove':
            def rem(x):
                for j, y in enumerate(o):
                    if I.branch(truth(I, compare(I, ast.Eq(), y, x))):
                        if name == 'remove': del o[j]; return None
                        return j
                raise PR(I, 'ValueError', 'not in list')
            return B(rem)
        if name == 'clear': return B(lambda: o.clear())
        raise Unsupported('list.' + name)
    if isinstance(o, SymList):
        if name == 'append':
            def app(x):
                n, el = o.n, o.elem
                if o.log is not None: o.log.append(('append', x))
                o.elem = lambda i: val_ite(I, Zr(i) == Zr(n), lambda: x, lambda: el(i))
                o.n = simp(Zr(n) + 1)
            return B(app)
        if name == 'copy': return B(lambda: SymList(o.n, o.elem))
        if name == 'pop':
            def pop(i=None):
                if not I.branch(Zr(o.n) > 0): raise PR(I, 'IndexError')
                n, el = o.n, o.elem
                if o.log is not None: o.log.append(('pop',))
                if i is None or concrete(i) == -1:
                    o.n = simp(Zr(n) - 1); return el(simp(Zr(n) - 1))
                j = I.np.norm_index(i, n)
                o.n = simp(Zr(n) - 1)
                o.elem = (lambda q: el(simp(Zr(q)+1))) if concrete(j) == 0 else (lambda q: val_ite(I, Zr(q) < Zr(j), lambda: el(q), lambda: el(simp(Zr(q)+1))))
                return el(j)
            return B(pop)
        if name == 'remove':
            def rem(x):
                w = fresh('pos'); n, el = o.n, o.elem
                k = z3.Int('q!k')
                ex = mk_any(n, lambda i: Zr(el(i)) == Zr(x))
                if not I.branch(ex): raise PR(I, 'ValueError')
                I.assume(z3.And(0 <= w, w < Zr(n), Zr(el(w)) == Zr(x)))
                I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w), Zr(el(k)) != Zr(x))))
                if o.log is not None: o.log.append(('remove', x))
                o.n = simp(Zr(n) - 1)
                o.elem = lambda q: val_ite(I, Zr(q) < w, lambda: el(q), lambda: el(simp(Zr(q)+1)))
            return B(rem)
        if name == 'sort': 
            raise Unsupported('sort')
        raise Unsupported('list.' + name)
    if isinstance(o, SymSet):
        if name == 'add':
            def add(x): o.arr = z3.SetAdd(o.arr, Zr(x))
            return B(add)
        if name == 'discard':
            def dis(x): o.arr = z3.SetDel(o.arr, Zr(x))
            return B(dis)
        if name == 'remove':
            def rem(x):
                if not I.branch(o.has(x)): raise PR(I, 'KeyError')
                o.arr = z3.SetDel(o.arr, Zr(x))
            return B(rem)
        if name == 'copy': return B(lambda: SymSet(o.arr))
        if name in ('union', 'difference', 'intersection'):
            return B(lambda b: binop(I, {'union': '|', 'difference': '-', 'intersection': '&'}[name], o, to_set(I, b)))
        if name == 'update':
            def upd(b): o.arr = z3.SetUnion(o.arr, to_set(I, b).arr)
            return B(upd)
        if name == 'issubset': return B(lambda b: z3.IsSubset(o.arr, to_set(I, b).arr))
        raise Unsupported('set.' + name)
    if isinstance(o, dict):
        if name == 'keys': return B(lambda: list(o))
        if name == 'values': return B(lambda: list(o.values()))
        if name == 'items': return B(lambda: list(o.items()))
        if name == 'get': return B(lambda k, d=None: o.get(I.hashable(k), d))
        raise Unsupported('dict.' + name)
    if isinstance(o, str):
        if name in ('format', 'join', 'lower', 'upper'): return B(lambda *a, **k: '<str>')
        raise Unsupported('str.' + name)
    if isinstance(o, tuple):
        raise PR(I, 'AttributeError', 'tuple.' + name)
    if o is None: raise PR(I, 'AttributeError', 'NoneType.' + name)
    if isinstance(o, (FuncRef, Bound)) and name == '__name__': return o.name if isinstance(o, FuncRef) else o.fn.name
    raise Unsupported('attribute %s of %r' % (name, o))

def np_transpose(I, x):
    if x.ndim == 1: return x.snapshot()
    s = x.snapshot()
    r = NDArray(tuple(reversed(x.shape)), lambda *i: s.at(*reversed(i)), x.dtype)
    return r

def np_reshape(I, x, *s):
    x = I.np.arr(x)
    if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
    cs = [concrete(d) for d in s]
    xs = x.snapshot()
    if len(s) == 1 and (cs[0] == -1 or I.np.same_dim(_d(s[0]), I.np.size(x))): return I.np.flat(x)
    if x.ndim == 1 and len(s) == 2:
        if cs[0] == -1 and cs[1] is not None:
            c = cs[1]
            if c == 1: return NDArray((x.shape[0], 1), lambda i, j: xs.at(i), x.dtype)
            return NDArray((Zr(x.shape[0]) / c if not isinstance(x.shape[0], int) else x.shape[0]//c, c), lambda i, j: xs.at(i*c + j), x.dtype)
        if cs[1] == -1 and cs[0] == 1: return NDArray((1, x.shape[0]), lambda i, j: xs.at(j), x.dtype)
        if cs[1] == 1 and I.np.same_dim(_d(s[0]), x.shape[0]): return NDArray((x.shape[0], 1), lambda i, j: xs.at(i), x.dtype)
        if cs[0] == 1 and I.np.same_dim(_d(s[1]), x.shape[0]): return NDArray((1, x.shape[0]), lambda i, j: xs.at(j), x.dtype)
        n, m = _d(s[0]), _d(s[1])
        if I.entails(Zr(n)*Zr(m) == Zr(x.shape[0])):
            return NDArray((n, m), lambda i, j: xs.at(Zr(i)*Zr(m) + Zr(j)), x.dtype)
    if len(s) == x.ndim and all(I.np.same_dim(_d(a), b) for a, b in zip(s, x.shape)): return x
    raise Unsupported('reshape')
def _d(x):
    c = concrete(x); return int(c) if c is not None else x

def to_int(I, x):
    """int(x): truncation"""
    x = Zr(x)
    if x.sort() == IS: return x
    c = concrete(x)
    if c is not None: return z3.IntVal(int(c))
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

# ------------------------------------------------------------------ builtins
def b_len(I, a, k):
    x = a[0]
    if isinstance(x, (list, tuple, dict, set, str)): return len(x)
    if isinstance(x, NDArray):
        if x.ndim == 0: raise PR(I, 'TypeError', 'len of unsized')
        return x.shape[0]
    if isinstance(x, SymList): return x.n
    if isinstance(x, Range): return x.n
    if isinstance(x, SymSet):
        c = z3.Int('card!%d' % next(core._fresh)); w = fresh('wit')
        E = z3.EmptySet(IS)
        add_def(c, c >= 0); add_def(c, (c == 0) == (x.arr == E)); add_def(c, z3.Implies(c > 0, z3.Select(x.arr, w)))
        q1, q2 = fresh('wit'), fresh('wit')
        add_def(c, z3.Implies(c > 1, z3.And(z3.Select(x.arr, q1), z3.Select(x.arr, q2), q1 != q2)))
        u = z3.Int('q!u')
        add_def(c, z3.Implies(c == 1, z3.ForAll([u], z3.Implies(z3.Select(x.arr, u), u == w))))
        add_def(c, z3.Implies(c == 0, z3.ForAll([u], z3.Implies(core.TOUCH(u), z3.Not(z3.Select(x.arr, u))), patterns=[core.TOUCH(u)])))
        return c
    if isinstance(x, Obj):
        f = I.find_method(x.cls, '__len__') if x.cls else None
        if f: return I.call(Bound(f, x), [], {})
    if is_num(x): raise PR(I, 'TypeError', 'len of scalar')
    if x is None: raise PR(I, 'TypeError', 'len of None')
    raise Unsupported('len(%r)' % (x,))
def b_range(I, a, k):
    a = [scalar_of(x) for x in a]
    a = [concrete(x) if is_z(x) and concrete(x) is not None else x for x in a]
    for x in a:
        if isinstance(x, float) or (is_z(x) and x.sort() != IS): raise PR(I, 'TypeError', 'range of float')
    if len(a) == 1: return Range(0, a[0])
    if len(a) == 2: return Range(a[0], a[1])
    return Range(a[0], a[1], a[2])
def b_isinstance(I, a, k):
    x, t = a
    if isinstance(t, tuple):
        return any(b_isinstance(I, [x, y], k) for y in t)
    if isinstance(t, ClassRef): return isinstance(x, Obj) and x.cls is not None and I.issub(x.cls, t)
    n = t.name if isinstance(t, (TypeRef, Opaque, Builtin)) else None
    if n is None: raise Unsupported('isinstance')
    n = n.split('.')[-1]
    ct = {'list': (list, SymList), 'tuple': (tuple,), 'set': (set, SymSet), 'dict': (dict, SymMap), 'str': (str,), 'ndarray': (NDArray,), 'Sequence': (list, tuple, SymList, str, Range), 'range': (Range,)}
    if n in ct: return isinstance(x, ct[n])
    if n == 'int': return (isinstance(x, int) or (is_sym_num(x) and x.sort() == IS and not getattr(x, 'np', False)))
    if n == 'float': return isinstance(x, (float, Fraction)) or (is_sym_num(x) and x.sort() == RS)
    if n == 'bool': return isinstance(x, bool) or is_sym_bool(x)
    if n in ('integer', 'int64', 'int32'): return is_sym_num(x) and x.sort() == IS
    if n in ('floating', 'float64', 'number', 'Number'): return is_sym_num(x)
    raise Unsupported('isinstance ' + n)
def b_minmax(kind):
    def f(I, a, k):
        if 'key' in k: raise Unsupported('min/max key')
        if len(a) == 1:
            x = a[0]
            if isinstance(x, NDArray) or isinstance(x, SymList): return I.np.reduce(kind, x)
            a = iter_concrete(I, x)
            if a is None: raise Unsupported('min of symbolic')
            if not a:
                if 'default' in k: return k['default']
                raise PR(I, 'ValueError')
        a = [scalar_of(x) for x in a]
        if not all(is_num(x) for x in a): raise PR(I, 'TypeError')
        if all(not is_z(x) for x in a): return (max if kind == 'max' else min)(a)
        r = a[0]
        for x in a[1:]:
            p, q = core._co(r, x)
            if p.sort() == IS and q.sort() == IS and (concrete(p) is not None or concrete(q) is not None):
                lo, hi = (p, q) if kind == 'min' else (q, p)
                if I.entails(lo <= hi): r = p; continue
                if I.entails(q <= p if kind == 'min' else q >= p): r = q; continue
            # python keeps the first on ties
            r = z3.If(q > p, q, p) if kind == 'max' else z3.If(q < p, q, p)
        return r
    return f
def b_list(I, a, k):
    if not a: return []
    x = a[0]
    if isinstance(x, SymSet): return set_to_list(I, x)
    c = iter_concrete(I, x)
    if c is not None: return list(c)
    s = as_symlist(I, x); return SymList(s.n, s.elem)
def set_to_list(I, s):
    """list(set): an arbitrary enumeration without repetition"""
    n = z3.Int('card!%d' % next(core._fresh)); e = z3.Function('enum!%d' % next(core._fresh), IS, IS); r = z3.Function('pos!%d' % next(core._fresh), IS, IS)
    i, x = z3.Ints('q!i q!x')
    I.assume(n >= 0)
    I.assume((n == 0) == (s.arr == z3.EmptySet(IS)))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(s.arr, e(i)), r(e(i)) == i)), patterns=[e(i)]))
    I.assume(z3.ForAll([x], z3.Implies(z3.Select(s.arr, x), z3.And(0 <= r(x), r(x) < n, e(r(x)) == x)), patterns=[r(x)] + ([z3.Select(s.arr, x)] if z3.is_const(s.arr) and s.arr.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])))
    l = SymList(n, lambda j: e(j)); l.src = s; l.pos = r; I.__dict__.setdefault('enums', []).append((s.arr, r))
    return l
def b_sum(I, a, k):
    x = a[0]
    if isinstance(x, (NDArray, SymList)):
        y = I.np.arr(x)
        if y.ndim == 1: return mk_sum(y.shape[0], lambda i: y.at(i))
    c = iter_concrete(I, x)
    if c is None: raise Unsupported('sum')
    r = 0
    for v in c: r = I.binop('+', r, v)
    return r
def b_anyall(kind):
    def f(I, a, k):
        x = a[0]
        c = iter_concrete(I, x)
        if c is not None:
            rs = [truth(I, y) for y in c]
            if all(isinstance(r, bool) for r in rs): return (any if kind == 'any' else all)(rs)
            return (z3.Or if kind == 'any' else z3.And)(*[Zb(r) for r in rs])
        s = as_symlist(I, x)
        return (mk_any if kind == 'any' else mk_all)(s.n, lambda i: Zb(truth(I, s.elem(i))))
    return f
def b_enumerate(I, a, k):
    x = a[0]; st = a[1] if len(a) > 1 else k.get('start', 0)
    c = iter_concrete(I, x)
    if c is not None: return [(s_plain(st, i), v) for i, v in enumerate(c)]
    s = as_symlist(I, x) if not isinstance(x, SymSet) else set_to_list(I, x)
    return SymList(s.n, lambda i: (simp(Zr(st) + Zr(i)), s.elem(i)))
def s_plain(st, i): return st + i if isinstance(st, int) else simp(Zr(st) + i)
def b_zip(I, a, k):
    cs = [iter_concrete(I, x) for x in a]
    if all(c is not None for c in cs): return [tuple(t) for t in zip(*cs)]
    ss = [as_symlist(I, x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        n = n if I.np.same_dim(_d(n), _d(s.n)) else s_min(n, s.n)
    return SymList(n, lambda i: tuple(s.elem(i) for s in ss))
def b_abs(I, a, k):
    if isinstance(a[0], NDArray): return I.np.ew(s_abs, a[0].dtype, a[0])
    return abs(a[0]) if not is_z(a[0]) else s_abs(a[0])
import numpy as _realnp
_ND = set(dir(_realnp.ndarray))
def b_hasattr(I, a, k):
    if isinstance(a[0], NDArray) and a[0].ndim: return a[1] in _ND
    try: I.getattr(a[0], a[1]); return True
    except I.PyRaise as e:
        if e.name == 'AttributeError': return False
        raise
def b_getattr(I, a, k):
    try: return I.getattr(a[0], a[1])
    except I.PyRaise as e:
        if e.name == 'AttributeError' and len(a) > 2: return a[2]
        raise
def b_callable(I, a, k): return isinstance(a[0], (FuncRef, Bound, Builtin, ClassRef)) or isinstance(a[0], Obj) and I.find_method(a[0].cls, '__call__') is not None
def b_sorted(I, a, k): raise Unsupported('sorted')
def b_reversed(I, a, k):
    c = iter_concrete(I, a[0])
    if c is not None: return list(reversed(c))
    s = as_symlist(I, a[0]); return SymList(s.n, lambda i: s.elem(simp(Zr(s.n) - 1 - Zr(i))))
def call_type(I, f, a, k):
    n = f.name
    if n == 'list': return b_list(I, a, k)
    if n == 'set':
        return make_set(I, a[0]) if a else SymSet(z3.EmptySet(IS))
    if n == 'tuple':
        c = iter_concrete(I, a[0]) if a else []
        if c is None: raise Unsupported('tuple of symbolic')
        return tuple(c)
    if n == 'dict':
        if not a: return dict(k)
        raise Unsupported('dict()')
    if n == 'int':
        if not a: return 0
        x = scalar_of(a[0])
        if isinstance(x, (int, float, Fraction)) : return int(x)
        return to_int(I, x)
    if n == 'float':
        x = scalar_of(a[0])
        if isinstance(x, str):
            return float(x)
        if not is_z(x): return float(x) if not isinstance(x, Fraction) else x
        return Zreal(x)
    if n == 'bool': return truth(I, scalar_of(a[0]))
    if n == 'str': return '<str>'
    if n in ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NotImplementedError'): return Opaque('exc')
    raise Unsupported('call of type ' + n)
def _none(I, a, k): return None

BUILTINS = {
    'len': Builtin('len', b_len), 'range': Builtin('range', b_range), 'isinstance': Builtin('isinstance', b_isinstance),
    'min': Builtin('min', b_minmax('min')), 'max': Builtin('max', b_minmax('max')), 'sum': Builtin('sum', b_sum),
    'any': Builtin('any', b_anyall('any')), 'all': Builtin('all', b_anyall('all')), 'enumerate': Builtin('enumerate', b_enumerate),
    'zip': Builtin('zip', b_zip), 'abs': Builtin('abs', b_abs), 'hasattr': Builtin('hasattr', b_hasattr), 'getattr': Builtin('getattr', b_getattr),
    'print': Builtin('print', _none), 'callable': Builtin('callable', b_callable), 'sorted': Builtin('sorted', b_sorted), 'reversed': Builtin('reversed', b_reversed),
}
for _t in ('list', 'set', 'tuple', 'dict', 'int', 'float', 'bool', 'str', 'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NotImplementedError', 'object', 'ImportError', 'RuntimeError', 'AttributeError'):
    BUILTINS[_t] = TypeRef(_t)
def _super_type(): pass

# ------------------------------------------------------------------ numpy
def install(I):
    np = I.np
    L = I.lib
    def reg(name):
        def d(f):
            L['numpy.' + name] = lambda I, a, k: f(*a, **k)
            return f
        return d
    L['numpy.pi'] = PI; L['math.pi'] = PI
    L['numpy.inf'] = float('inf'); L['math.inf'] = float('inf'); L['numpy.nan'] = float('nan'); L['numpy.newaxis'] = None
    L['numpy.ndarray'] = TypeRef('ndarray')
    for t in ('int', 'float', 'bool'): L['numpy.' + t] = TypeRef(t)
    L['numpy.float64'] = TypeRef('float'); L['numpy.int64'] = TypeRef('int'); L['numpy.bool_'] = TypeRef('bool'); L['numpy.int32'] = TypeRef('int')
    L['collections.abc.Sequence'] = TypeRef('Sequence'); L['collections.Sequence'] = TypeRef('Sequence')
    L['sys.version_info'] = (3, 12, 3)
    L['pdb.set_trace'] = lambda I, a, k: (_ for _ in ()).throw(I.PyRaise('BdbQuit', 'pdb.set_trace reached'))
    L['warnings.warn'] = _none
    L['copy.deepcopy'] = lambda I, a, k: deepcopy(I, a[0]); L['copy.copy'] = lambda I, a, k: deepcopy(I, a[0])
    def norm_shape(s):
        if isinstance(s, (tuple, list)): return tuple(scalar_of(x) for x in s)
        if isinstance(s, NDArray): return tuple(iter_concrete(I, s))
        return (scalar_of(s),)
    def tname(t, d='real'):
        if t is None: return d
        n = t.name if hasattr(t, 'name') else str(t)
        n = n.split('.')[-1]
        return {'int': 'int', 'float': 'real', 'bool': 'bool', 'int64': 'int', 'float64': 'real', 'bool_': 'bool'}[n]
    def const(v):
        def f(shape, dtype=None):
            dt = tname(dtype)
            val = {'real': z3.RealVal(v), 'int': z3.IntVal(v), 'bool': z3.BoolVal(bool(v))}[dt]
            return NDArray(norm_shape(shape), lambda *i: val, dt)
        return f
    reg('zeros')(const(0)); reg('ones')(const(1))
    reg('empty')(lambda shape, dtype=None: fresh_array('empty', norm_shape(shape), tname(dtype)) if len(norm_shape(shape)) else (lambda v: NDArray((), lambda: v, tname(dtype)))(fresh('empty', tname(dtype))))
    reg('full')(lambda shape, v, dtype=None: NDArray(norm_shape(shape), lambda *i: v, DT(v)))
    def like(v): 
        return lambda x, dtype=None: NDArray(np.arr(x).shape, lambda *i: {'real': z3.RealVal(v), 'int': z3.IntVal(v), 'bool': z3.BoolVal(bool(v))}[np.arr(x).dtype], np.arr(x).dtype)
    reg('zeros_like')(like(0)); reg('ones_like')(like(1))
    def eye(n, m=None):
        n = scalar_of(n)
        return NDArray((n, n if m is None else m), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), 'real')
    reg('eye')(eye); reg('identity')(eye)
    def asarray(x, dtype=None):
        if dtype is not None and tname(dtype) not in ('int', 'real', 'bool'): raise Unsupported('dtype')
        a = np.arr(x)
        r = a.snapshot()
        if dtype is not None and tname(dtype) != a.dtype:
            dt = tname(dtype)
            if dt == 'real': return NDArray(a.shape, lambda *i: Zreal(r.at(*i)), 'real')
            if dt == 'int' and a.dtype == 'real': return NDArray(a.shape, lambda *i: to_int(I, r.at(*i)), 'int') if a.shape != (0,) else NDArray((0,), lambda i: z3.IntVal(0), 'int')
            return NDArray(a.shape, lambda *i: np.cast(r.at(*i), dt), dt)
        return r
    reg('array')(asarray); reg('copy')(lambda x: np.arr(x).snapshot())
    reg('asarray')(lambda x, dtype=None: x if isinstance(x, NDArray) and dtype is None else asarray(x, dtype))
    reg('atleast_1d')(lambda x: np.arr(x) if np.arr(x).ndim else NDArray((1,), lambda i: x, DT(x)))
    def arange(*a, dtype=None):
        v = [scalar_of(x) for x in a]
        if any(isinstance(x, float) or (is_z(x) and x.sort() == RS) for x in v):
            lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], 1) if len(v) == 2 else v
            lo, hi, st = Zreal(lo), Zreal(hi), Zreal(st)
            if not I.branch(st > 0): raise Unsupported('arange with non-positive step')
            n = None
            for c in list(range(1, 33)) + [x for x in walk([st]) if x.sort() == IS and z3.is_const(x) and concrete(x) is None]:
                c_ = z3.IntVal(c) if isinstance(c, int) else c
                if ring.zero_sums(hi - lo - st*z3.ToReal(c_), I.cx.pc)[0] is True: n = c; break
            if n is None: n = simp(-z3.ToInt(-((hi - lo)/st)))
            if is_z(n) and not I.branch(n > 0): n = 0
            return NDArray((n,), lambda i: lo + z3.ToReal(Zr(i))*st, 'real')
        r = b_range(I, list(a), {})
        return NDArray((r.n,), lambda i: r.at(i), 'int')
    reg('arange')(arange)
    for nm, f, dt in (('exp', s_exp, 'real'), ('log', s_log, 'real'), ('log2', lambda x: s_log(x)/s_log(2), 'real'), ('log10', lambda x: s_log(x)/s_log(10), 'real'), ('log1p', lambda x: s_log(1 + Zreal(x)), 'real'), ('expm1', lambda x: s_exp(x) - 1, 'real'), ('sqrt', s_sqrt, 'real'), ('sin', lambda x: f_sin(Zreal(x)), 'real'), ('cos', lambda x: f_cos(Zreal(x)), 'real'),
                      ('isinf', s_isinf, 'bool'), ('isnan', lambda x: z3.BoolVal(False), 'bool'), ('isfinite', lambda x: simp(z3.Not(s_isinf(x))), 'bool'),
                      ('logical_not', lambda x: z3.Not(Zb(x)), 'bool'), ('sign', lambda x: z3.If(Zr(x) > 0, z3.RealVal(1), z3.If(Zr(x) < 0, z3.RealVal(-1), z3.RealVal(0))), 'real'),
                      ('ceil', lambda x: Zreal(-z3.ToInt(-Zreal(x))), 'real'), ('floor', lambda x: Zreal(z3.ToInt(Zreal(x))), 'real')):
        reg(nm)(lambda x, f=f, dt=dt: np.ew(f, dt, x))
    reg('abs')(lambda x: np.ew(s_abs, DT(x) if not isinstance(x, (list, tuple)) else DT(np.arr(x)), x)); L['numpy.absolute'] = L['numpy.fabs'] = L['numpy.abs']
    reg('square')(lambda x: np.binop('*', x, x))
    reg('power')(lambda x, y: np.binop('**', x, y))
    for nm, op in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'), ('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal', '=='), ('not_equal', '!=')):
        reg(nm)(lambda a, b, op=op: np.binop(op, a, b))
    reg('logical_and')(lambda a, b: np.ew(lambda x, y: z3.And(Zb(x), Zb(y)), 'bool', a, b))
    reg('logical_or')(lambda a, b: np.ew(lambda x, y: z3.Or(Zb(x), Zb(y)), 'bool', a, b))
    def dt2(a, b): return up(DT(np.arr(a)), DT(np.arr(b)))
    reg('maximum')(lambda a, b: np.ew(lambda x, y: s_ite(core._co(x, y)[0] >= core._co(x, y)[1], *core._co(x, y)), dt2(a, b), a, b))
    reg('minimum')(lambda a, b: np.ew(lambda x, y: s_ite(core._co(x, y)[0] <= core._co(x, y)[1], *core._co(x, y)), dt2(a, b), a, b))
    L['numpy.fmax'], L['numpy.fmin'] = L['numpy.maximum'], L['numpy.minimum']
    def clip(x, lo=None, hi=None, out=None, a_min=None, a_max=None):
        lo = a_min if lo is None else lo; hi = a_max if hi is None else hi
        dt = DT(np.arr(x))
        for v in (lo, hi):
            if v is not None: dt = up(dt, DT(v))
        if isinstance(lo, NDArray) or isinstance(hi, NDArray): raise Unsupported('array clip')
        r = np.ew(lambda v: s_clip(v, lo, hi), dt, x)
        if out is not None:
            ra = np.arr(r).snapshot(); out.set_fn(ra.at); return out
        return r
    reg('clip')(clip)
    def where(c, a=None, b=None):
        if a is None:
            m = np.arr(c)
            if m.ndim != 1: raise Unsupported('where nd')
            return (np.mask_idx(m.snapshot(), m.shape[0]),)
        da = up(DT(np.arr(a)), DT(np.arr(b)))
        return np.ew(lambda c, x, y: s_ite(Zb(c), np.cast(x, da), np.cast(y, da)), da, c, a, b)
    reg('where')(where)
    L['numpy.save'] = lambda I, a, k: None
    reg('flatnonzero')(lambda c: where(c)[0]); reg('nonzero')(lambda c: where(c))
    for kind in ('sum', 'max', 'min', 'mean', 'any', 'all', 'argmax', 'argmin'):
        reg(kind)(lambda x, axis=None, keepdims=False, kind=kind: np.reduce(kind, x, axis, keepdims))
    L['numpy.amax'] = L['numpy.max']; L['numpy.amin'] = L['numpy.min']
    reg('count_nonzero')(lambda x, axis=None: np.reduce('sum', np.ew(lambda v: Zb(v), 'bool', x), axis))
    def prod(x, axis=None):
        x = np.arr(x)
        if x.ndim == 1 and isinstance(x.shape[0], int):
            r = 1
            for i in range(x.shape[0]): r = s_mul(r, x.at(i))
            return r
        if x.ndim == 1:
            y = x.snapshot(); return mk_node('prod', y.shape[0], lambda i: Zreal(y.at(i)))
        c = concrete(axis) if axis is not None else None
        if c is not None:
            c += x.ndim if c < 0 else 0; y = x.snapshot(); n = y.shape[c]
            def at(*i):
                if not isinstance(n, int): return mk_node('prod', n, lambda q: Zreal(y.at(*(i[:c] + (q,) + i[c:]))))
                r = 1
                for q in range(n): r = s_mul(r, y.at(*(i[:c] + (z3.IntVal(q),) + i[c:])))
                return Zr(r)
            return NDArray(y.shape[:c] + y.shape[c+1:], at, y.dtype)
        raise Unsupported('prod')
    reg('prod')(prod)
    def swapaxes(x, p, q):
        x = np.arr(x); p, q = [concrete(v) + (x.ndim if concrete(v) < 0 else 0) for v in (p, q)]; y = x.snapshot()
        def sw(t): t = list(t); t[p], t[q] = t[q], t[p]; return tuple(t)
        return NDArray(sw(y.shape), lambda *i: y.at(*sw(i)), y.dtype)
    reg('swapaxes')(swapaxes)
    reg('dot')(lambda a, b: np.matmul(a, b) if not (is_num(a) or is_num(b)) else np.binop('*', a, b)); reg('matmul')(lambda a, b: np.matmul(a, b)); reg('inner')(lambda a, b: np.matmul(a, b))
    def outer(a, b):
        a, b = np.flat(a), np.flat(b)
        return NDArray((a.shape[0], b.shape[0]), lambda i, j: s_mul(a.at(i), b.at(j)), up(a.dtype, b.dtype))
    reg('outer')(outer)
    reg('transpose')(lambda x: np_transpose(I, np.arr(x)))
    reg('reshape')(lambda x, s: np_reshape(I, x, s))
    reg('ravel')(lambda x: np.flat(x))
    def repeat(x, n, axis=None):
        x = np.arr(x)
        n = scalar_of(n)
        s = x.snapshot()
        if axis is None:
            if x.ndim == 0: return NDArray((n,), lambda i: s.at(), x.dtype)
            if x.ndim == 1 and concrete(n) is not None: return NDArray((np.size(NDArray((x.shape[0], int(concrete(n))), None, 'int')),), lambda i: s.at(Zr(i) / int(concrete(n))), x.dtype)
            if x.ndim == 1: return NDArray((Zr(x.shape[0])*Zr(n),), lambda i: s.at(Zr(i) / Zr(n)), x.dtype)
            raise Unsupported('repeat flat')
        ax = concrete(axis) % x.ndim
        d = x.shape[ax]
        if isinstance(d, int) and d == 1:
            return NDArray(x.shape[:ax] + (n,) + x.shape[ax+1:], lambda *i: s.at(*(i[:ax] + (z3.IntVal(0),) + i[ax+1:])), x.dtype)
        return NDArray(x.shape[:ax] + (Zr(d)*Zr(n),) + x.shape[ax+1:], lambda *i: s.at(*(i[:ax] + (Zr(i[ax]) / Zr(n),) + i[ax+1:])), x.dtype)
    reg('repeat')(repeat)
    def tile(x, reps):
        x = np.arr(x); s = x.snapshot()
        r = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
        if x.ndim == 0: return NDArray(r, lambda *i: s.at(), x.dtype)
        if x.ndim == 1 and len(r) == 2 and concrete(r[1]) == 1: return NDArray((r[0], x.shape[0]), lambda i, j: s.at(j), x.dtype)
        if x.ndim == 1 and len(r) == 1 and isinstance(x.shape[0], int) and x.shape[0] == 1: return NDArray((r[0],), lambda i: s.at(0), x.dtype)
        raise Unsupported('tile')
    reg('tile')(tile)
    def expand_dims(x, axis):
        x = np.arr(x); s = x.snapshot(); ax = concrete(axis) % (x.ndim + 1)
        return NDArray(x.shape[:ax] + (1,) + x.shape[ax:], lambda *i: s.at(*(i[:ax] + i[ax+1:])), x.dtype)
    reg('expand_dims')(expand_dims)
    def squeeze(x, axis=None):
        x = np.arr(x); s = x.snapshot()
        keep = [j for j, d in enumerate(x.shape) if not (isinstance(d, int) and d == 1)]
        if axis is not None: raise Unsupported('squeeze axis')
        def fn(*i):
            full = [z3.IntVal(0)]*x.ndim
            for p, j in enumerate(keep): full[j] = i[p]
            return s.at(*full)
        return NDArray(tuple(x.shape[j] for j in keep), fn, x.dtype)
    reg('squeeze')(squeeze)
    reg('broadcast_to')(lambda x, sh: (lambda a: NDArray(norm_shape(sh), lambda *i: np.bget(a, norm_shape(sh), i), a.dtype))(np.arr(x).snapshot()))
    reg('shape')(lambda x: tuple(np.arr(x).shape)); reg('ndim')(lambda x: np.arr(x).ndim); reg('size')(lambda x: np.size(np.arr(x)))
    def diag(x):
        x = np.arr(x); s = x.snapshot()
        if x.ndim == 1: return NDArray((x.shape[0], x.shape[0]), lambda i, j: z3.If(i == j, np.cast(s.at(i), x.dtype), np.cast(0, x.dtype)), x.dtype)
        return NDArray((x.shape[0],), lambda i: s.at(i, i), x.dtype)
    reg('diag')(diag); reg('diagonal')(diag)
    def fill_diagonal(x, v):
        if x.dtype == 'int' and DT(v) == 'real': raise Unsupported('fill int')
        o = x.snapshot()
        if not is_num(v):
            v = np.arr(v)
            if v.ndim == 1 and not np.same_dim(v.shape[0], x.shape[0]): raise Unsupported('fill_diagonal of another length')
            v = v.snapshot()
        val = (lambda i: v.at(i)) if isinstance(v, NDArray) and v.ndim == 1 else (lambda i: scalar_of(v))
        x.set_fn(lambda *i: s_ite(z3.And(*[i[0] == j for j in i[1:]]), val(i[0]), o.at(*i)))
        if x.log is not None: x.log.append(('other',))
    reg('fill_diagonal')(fill_diagonal)
    reg('trace')(lambda x: mk_sum(x.shape[0], lambda i: x.at(i, i)))
    def concat(xs, axis=0):
        xs = [np.arr(x) for x in (xs if isinstance(xs, (list, tuple)) else iter_concrete(I, xs))]
        if axis is None: xs = [np.flat(x) for x in xs]; axis = 0
        ax = concrete(axis)
        if len({x.ndim for x in xs}) != 1: raise PR(I, 'ValueError', 'concatenate dims')
        nd = xs[0].ndim
        if nd == 0: raise PR(I, 'ValueError', 'zero-dim concatenate')
        ax %= nd
        dt = xs[0].dtype
        nz = [x for x in xs if not (isinstance(x.shape[ax], int) and x.shape[ax] == 0)]
        for x in xs: dt = up(dt, x.dtype) if not (x.shape == (0,)) else dt
        for j in range(nd):
            if j != ax:
                for x in xs[1:]:
                    if not np.same_dim(x.shape[j], xs[0].shape[j]): 
                        if I.entails(Zr(x.shape[j]) != Zr(xs[0].shape[j])): raise PR(I, 'ValueError', 'concatenate dims')
                        raise Unsupported('concatenate dims')
        ss = [x.snapshot() for x in xs]
        offs = [0]
        for x in xs: offs.append(simp(Zr(offs[-1]) + Zr(x.shape[ax])))
        def fn(*i):
            t = None
            for q in range(len(ss)-1, -1, -1):
                if isinstance(ss[q].shape[ax], int) and ss[q].shape[ax] == 0: continue
                ii = i[:ax] + ((simp(Zr(i[ax]) - Zr(offs[q])),) if q else (i[ax],)) + i[ax+1:]
                c = simp(Zr(i[ax]) < Zr(offs[q+1])); c0 = simp(Zr(i[ax]) >= Zr(offs[q]))
                if z3.is_false(c) and t is not None or z3.is_false(c0): continue
                v = np.cast(ss[q].at(*ii), dt)
                t = v if t is None else s_ite(c, v, t)
            return t if t is not None else np.cast(0, dt)
        sh = list(xs[0].shape); sh[ax] = _d(offs[-1])
        return NDArray(sh, fn, dt)
    reg('concatenate')(concat)
    def append(a, b, axis=None):
        a, b = np.arr(a), np.arr(b)
        if axis is None:
            f = lambda x: NDArray((1,), lambda i: x.at(), x.dtype) if x.ndim == 0 else np.flat(x)
            return concat([f(a), f(b)])
        return concat([a, b], axis)
    reg('append')(append)
    def vstack(xs):
        xs = [np.arr(x) for x in xs]
        return concat([NDArray((1,) + x.shape, (lambda s: lambda i, j: s.at(j))(x.snapshot()), x.dtype) if x.ndim == 1 else x for x in xs], 0)
    reg('vstack')(vstack)
    reg('hstack')(lambda xs: concat(xs, 0 if np.arr(xs[0]).ndim == 1 else 1))
    def stack(xs, axis=0):
        if concrete(axis) != 0: raise Unsupported('stack axis')
        return np.arr(list(xs))
    reg('stack')(stack)
    def column_stack(xs):
        a = np.arr(list(xs)); return np_transpose(I, a)
    reg('column_stack')(column_stack)
    def delete(x, o, axis=None):
        x = np.arr(x).snapshot(); o = scalar_of(o); several = isinstance(o, (list, SymList)) or isinstance(o, NDArray)
        ax = concrete(axis) if axis is not None else 0 if x.ndim == 1 else None
        if ax is None: raise Unsupported('delete from a flattened array')
        ax %= x.ndim; n = x.shape[ax]
        if several:             # keeps, in order, the positions that are not in the list
            if isinstance(o, list) and not o: return NDArray(x.shape, lambda *ix: x.at(*ix), x.dtype)
            ix = getattr(o, 'filt', None) if isinstance(o, SymList) else None; k0 = fresh('dq')
            if ix is not None and Zr(o.n).eq(Zr(ix.shape[0])) and Zr(o.elem(k0)).eq(Zr(ix.at(k0))): m = ix.mask[0]; I.safety('deleted positions exist', Zr(m.shape[0]) <= Zr(n)); gone = lambda i: Zb(m.at(i))
            else:
                a = np.arr(o).snapshot()
                if a.ndim != 1 or a.dtype != 'int': raise Unsupported('deleting positions given in another form')
                L = a.shape[0]; q = fresh('dq'); I.safety('deleted positions exist', z3.Implies(z3.And(0 <= q, q < Zr(L)), z3.And(-Zr(n) <= a.at(q), a.at(q) < Zr(n))))
                gone = lambda i: mk_any(L, lambda q: z3.Or(a.at(q) == i, a.at(q) + Zr(n) == i))
            kp = np.mask_idx(NDArray((n,), lambda i: simp(z3.Not(gone(i))), 'bool'), n)
            r = NDArray(tuple(kp.shape[0] if a == ax else d for a, d in enumerate(x.shape)), lambda *ix: x.at(*[kp.at(v) if a == ax else v for a, v in enumerate(ix)]), x.dtype)
            r.kept = kp; return r
        c = concrete(o)
        if c is not None and isinstance(n, int):
            if not -n <= c < n: raise PyRaise('IndexError')
            k = c % n; mv = lambda i: (concrete(i) + (concrete(i) >= k)) if concrete(i) is not None else z3.If(Zr(i) < k, Zr(i), Zr(i) + 1)
        else:
            if not I.branch(z3.And(-Zr(n) <= Zr(o), Zr(o) < Zr(n))): raise PyRaise('IndexError')
            k = z3.If(Zr(o) < 0, Zr(o) + Zr(n), Zr(o)); mv = lambda i: simp(z3.If(Zr(i) < k, Zr(i), Zr(i) + 1))
        sh = tuple((d - 1 if isinstance(d, int) else simp(Zr(d) - 1)) if a == ax else d for a, d in enumerate(x.shape))
        return NDArray(sh, lambda *ix: x.at(*[mv(v) if a == ax else v for a, v in enumerate(ix)]), x.dtype)
    reg('delete')(delete)
    def atleast_2d(x):
        x = np.arr(x); s = x.snapshot()
        if x.ndim >= 2: return x
        if x.ndim == 1: return NDArray((1, x.shape[0]), lambda i, j: s.at(j), x.dtype)
        return NDArray((1, 1), lambda i, j: s.at(), x.dtype)
    reg('atleast_2d')(atleast_2d)
    def atleast_1d(x):
        x = np.arr(x); s = x.snapshot()
        return x if x.ndim >= 1 else NDArray((1,), lambda i: s.at(), x.dtype)
    reg('atleast_1d')(atleast_1d)
    def sorted_order(x):
        """g(i.., c): position of the c-th smallest element of the last axis; r: its inverse (defined by closed axioms)"""
        if x.ndim not in (1, 2): raise Unsupported('sort of a %d-d array' % x.ndim)
        s = x.snapshot(); its = list(I.iters); n = Zr(x.shape[-1])
        its2 = [tmpvar() for _ in its]; row = [tmpvar()] if x.ndim == 2 else []
        w = len(its) + len(row)
        g = z3.Function('ord!%d' % next(core._fresh), *([IS]*(w+2))); r = z3.Function('rk!%d' % next(core._fresh), *([IS]*(w+2)))
        i, j = tmpvar(), tmpvar(); pr = its2 + row
        def inits(t):
            t = subst(t, list(zip(its, its2))) if its else t
            for v in pr + [i, j]: subst_to_q(t, v)
            return t
        guard = z3.BoolVal(True) if not row else z3.And(0 <= row[0], row[0] < inits(Zr(x.shape[0])))
        n = inits(n)
        core.add_fdef(g, z3.ForAll(pr + [i], z3.Implies(z3.And(guard, 0 <= i, i < n), z3.And(0 <= g(*pr, i), g(*pr, i) < n, r(*pr, g(*pr, i)) == i)), patterns=[g(*pr, i)]))
        core.add_fdef(g, z3.ForAll(pr + [i], z3.Implies(z3.And(guard, 0 <= i, i < n), z3.And(0 <= r(*pr, i), r(*pr, i) < n, g(*pr, r(*pr, i)) == i)), patterns=[r(*pr, i)]))
        vi, vj = inits(Zr(s.at(*row, g(*pr, i)))), inits(Zr(s.at(*row, g(*pr, j))))
        core.add_fdef(g, z3.ForAll(pr + [i, j], z3.Implies(z3.And(guard, 0 <= i, i < j, j < n), vi <= vj), patterns=[z3.MultiPattern(g(*pr, i), g(*pr, j))]))
        return (lambda *a: g(*its, *a)), (lambda *a: r(*its, *a))
    def argsort(x, axis=-1, kind=None):
        x = np.arr(x)
        if concrete(axis) not in (-1, x.ndim - 1): raise Unsupported('argsort axis')
        g, r = sorted_order(x)
        a = NDArray(x.shape, lambda *k: g(*k), 'int'); a.perm = (g, r); return a
    reg('argsort')(argsort)
    def sort(x, axis=-1, kind=None):
        x = np.arr(x)
        if concrete(axis) not in (-1, x.ndim - 1): raise Unsupported('sort axis')
        g, r = sorted_order(x); s = x.snapshot()
        return NDArray(x.shape, lambda *k: s.at(*k[:-1], g(*k)), x.dtype)
    reg('sort')(sort)
    def unique(x, axis=None, **kw):
        if kw: raise Unsupported('np.unique options')
        x = np.arr(x)
        if x.ndim != 1 and not (x.ndim == 2 and axis is not None and concrete(axis) == 0): raise Unsupported('np.unique of a %d-d array' % x.ndim)
        if I.iters: raise Unsupported('np.unique in a summarised loop')
        s = x.snapshot(); n = Zr(x.shape[0]); m = fresh('nuniq'); k = next(core._fresh)
        src = z3.Function('usrc!%d' % k, IS, IS); cls = z3.Function('ucls!%d' % k, IS, IS); dif = z3.Function('udif!%d' % k, IS, IS, IS)
        i, q, r, c = tmpvar(), tmpvar(), tmpvar(), tmpvar()
        w = Zr(x.shape[1]) if x.ndim == 2 else None
        if w is not None and not I.entails(w > 0): raise Unsupported('np.unique of rows without columns')
        I.assume(z3.And(0 <= m, m <= n, z3.Implies(n > 0, m > 0)))
        at = (lambda a, b: Zr(s.at(a, b))) if w is not None else (lambda a, b: Zr(s.at(a)))
        for v in (i, q, r, c): subst_to_q(at(src(q), c), v)
        core.add_fdef(src, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(0 <= src(q), src(q) < n)), patterns=[src(q)]))
        if w is not None:
            core.add_fdef(src, z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < r, r < m), z3.And(0 <= dif(q, r), dif(q, r) < w, at(src(q), dif(q, r)) < at(src(r), dif(q, r)))), patterns=[z3.MultiPattern(src(q), src(r))]))
            core.add_fdef(src, z3.ForAll([q, r, c], z3.Implies(z3.And(0 <= q, q < r, r < m, 0 <= c, c < dif(q, r)), at(src(q), c) == at(src(r), c)), patterns=[z3.MultiPattern(dif(q, r), at(src(q), c))] if pat_ok(at(src(q), c)) else []))
            core.add_fdef(src, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= cls(i), cls(i) < m)), patterns=[cls(i)]))
            core.add_fdef(src, z3.ForAll([i, c], z3.Implies(z3.And(0 <= i, i < n, 0 <= c, c < w), at(src(cls(i)), c) == at(i, c))))
        else:
            core.add_fdef(src, z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < r, r < m), at(src(q), c) < at(src(r), c)), patterns=[z3.MultiPattern(src(q), src(r))]))
            core.add_fdef(src, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= cls(i), cls(i) < m, at(src(cls(i)), c) == at(i, c)))))
        if w is None: return NDArray((m,), lambda a: s.at(src(a)), x.dtype)
        return NDArray((m, x.shape[1]), lambda a, b: s.at(src(a), b), x.dtype)
    reg('unique')(unique)
    def unravel_index(i, shape):
        if len(shape) != 2: raise Unsupported('unravel')
        m = shape[1]; i = scalar_of(i)
        if isinstance(i, NDArray): raise Unsupported('unravel array')
        if not isinstance(m, int) and getattr(I, 'flat_abs', False):
            L, row, col, enc = np.flat_fns(shape[0], m); return (row(Zr(i)), col(Zr(i)))
        return (Zr(i) / Zr(m), Zr(i) % Zr(m))
    reg('unravel_index')(unravel_index)
    def linspace(a, b, num=50):
        n = Zr(num); return NDArray((num,), lambda i: Zreal(a) + (Zreal(b) - Zreal(a))*Zreal(i)/(Zreal(n) - 1), 'real')
    reg('linspace')(linspace)
    def isclose(a, b, **k): raise Unsupported('isclose')
    def var(x, axis=None):
        m = np.reduce('mean', x, axis, True) if axis is not None else np.reduce('mean', x)
        d = np.binop('-', x, m); return np.reduce('mean', np.binop('*', d, d), axis)
    reg('var')(var); reg('std')(lambda x, axis=None: np.ew(s_sqrt, 'real', var(x, axis)))
    def setdiff1d(a, b): raise Unsupported('setdiff1d')
    def add_at(x, idx, v):
        ids = list(idx) if isinstance(idx, tuple) else [idx]
        if len(ids) != x.ndim: raise Unsupported('add.at partial index')
        arrs = [np.arr(q).snapshot() for q in ids]
        if any(a.ndim > 1 or a.dtype not in ('int',) for a in arrs): raise Unsupported('add.at index')
        m = None
        for a in arrs:
            if a.ndim == 1: m = a.shape[0] if m is None else m
        if m is None: m = 1
        va = np.arr(v).snapshot(); old = x.snapshot()
        if va.ndim > 1: raise Unsupported('add.at value')
        ix = [(lambda k, a=a: a.at(k)) if a.ndim == 1 else (lambda k, a=a: a.at()) for a in arrs]
        val = (lambda k: va.at(k)) if va.ndim == 1 and not (isinstance(va.shape[0], int) and va.shape[0] == 1) else ((lambda k: va.at(0)) if va.ndim == 1 else (lambda k: va.at()))
        k = fresh('k')
        for a, d in zip(ix, x.shape):
            I.safety('index in bounds', z3.Implies(z3.And(0 <= k, k < Zr(m)), z3.And(a(k) >= -Zr(d), a(k) < Zr(d))))
        nrm = [a for a in ix]
        if not I.entails(z3.Implies(z3.And(0 <= k, k < Zr(m)), z3.And(*[a(k) >= 0 for a in ix]))): raise Unsupported('negative index in add.at')
        x.set_fn(lambda *i: s_add(old.at(*i), mk_sum(m, lambda k: s_ite(z3.And(*[a(k) == j for a, j in zip(nrm, i)]), np.cast(val(k), x.dtype), np.cast(0, x.dtype)))))
        if x.log is not None: x.log.append(('other',))
    reg('add.at')(add_at)
    def meshgrid(*a): raise Unsupported('meshgrid')
    def cov(*a, **k): raise Unsupported('np.cov')
    # linear algebra
    def norm(x, ord=None, axis=None, keepdims=False):
        x = np.arr(x); o = concrete(ord) if is_z(ord) else ord
        if keepdims or (o is not None and o not in (1, 2, float('inf'))) or (o is not None and x.ndim > 1 and axis is None): raise Unsupported('norm ord')
        if o == 1: return np.reduce('sum', np.ew(s_abs, 'real', x), axis)
        if o is not None and o == float('inf'): return np.reduce('max', np.ew(s_abs, 'real', x), axis)
        return np.ew(s_sqrt, 'real', np.reduce('sum', np.binop('*', x, x), axis))
    reg('linalg.norm')(norm)
    # inverse / Cholesky: one uninterpreted matrix per (provably equal) argument; the argument is assumed invertible / positive definite
    I._linalg = []; ring.SYM.clear()
    def equal2(x, y):
        if not all(np.same_dim(p, q) for p, q in zip(x.shape, y.shape)): return False
        i, j = fresh('i'), fresh('j')
        hy = list(I.cx.pc) + [0 <= i, i < Zr(x.shape[0]), 0 <= j, j < Zr(x.shape[1])]
        a, b = Zreal(x.at(i, j)), Zreal(y.at(i, j))
        return a.eq(b) or ring.zero_sums(a - b, hy)[0] is True or ring.zero_multi(a - b, hy)
    def linalg_uf(name, note):
        def f(x, *a, **k):
            if isinstance(x, Obj) and x.attrs.get('fail'): raise PR(I, 'LinAlgError', name)
            x = np.arr(x).snapshot()
            if x.ndim != 2: raise Unsupported(name)
            I.assumed.add(note)
            d = None
            for nm, y, e in I._linalg:
                if nm == name and equal2(x, y): d = e; break
            if d is None:
                d = z3.Function('%s!%d' % (name, len(I._linalg)), IS, IS, RS); I._linalg.append((name, x, d))
                if name == 'inv' and equal2(x, NDArray((x.shape[1], x.shape[0]), lambda i, j: x.at(j, i), x.dtype)): ring.SYM.add(d.name())
            r = NDArray((x.shape[1], x.shape[0]), lambda i, j: d(i, j), 'real'); r.lin = (name, x)
            return r
        return f
    inv = linalg_uf('inv', 'matrix inverses: the inverted matrix is invertible (np.linalg.pinv/inv return its inverse)')
    for nm in ('inv', 'pinv'): reg('linalg.' + nm)(inv)
    chol = linalg_uf('chol', 'np.linalg.cholesky: its argument is positive definite')
    reg('linalg.cholesky')(chol)
    reg('linalg.solve')(lambda A, B: np.matmul(inv(A), B))
    def cho_solve(cl, B, **k):
        L_, low = cl
        if getattr(L_, 'lin', (None,))[0] != 'chol' or concrete(low) is None or not concrete(low): raise Unsupported('cho_solve of something else than (cholesky(A), True)')
        return np.matmul(inv(L_.lin[1]), B)
    L['scipy.linalg.cho_solve'] = lambda I, a, k: cho_solve(*a, **k)
    L['scipy.linalg.inv'] = L['numpy.linalg.inv']
    def det(x): raise Unsupported('det')
    def minimize_scalar(I, a, k):
        """a point of the given bounds; fun is the objective there"""
        f = a[0]; a = list(a) + [None]*(3 - len(a)); bd = k.get('bounds'); ex = k.get('args', ())
        if bd is None: raise Unsupported('minimize_scalar without bounds')
        lo, hi = [Zreal(scalar_of(x)) for x in I.iter_list(bd)] if hasattr(I, 'iter_list') else [Zreal(scalar_of(x)) for x in bd]
        x = fresh('minx', 'real'); I.assume(z3.And(lo <= x, x <= hi))
        return Obj(None, {'x': x, 'fun': I.call(f, [x] + list(ex), {}), 'success': fresh('ok', 'bool')})
    L['scipy.optimize.minimize_scalar'] = minimize_scalar
    # random (arbitrary values in range); a draw inside a summarised loop is a function of the iteration
    def rnd_shape(s): return norm_shape(s) if s is not None else None
    def draw(shape, dtype, fact=None):
        its = list(I.iters); sh = tuple(shape) if shape is not None else ()
        if not its and shape is None:
            v = fresh('rnd', dtype)
            if fact is not None: I.assume(fact(v))
            return v
        d = z3.Function('rnd!%d' % next(core._fresh), *([IS]*(len(its)+len(sh)) + [{'int': IS, 'real': RS, 'bool': BS}[dtype]]))
        if fact is not None:
            ix = [tmpvar() for _ in sh]; F = Zb(fact(d(*its, *ix), *ix)); ps = its + ix
            add_fact(d, lambda *a: subst(F, list(zip(ps, a))))
        if shape is None: return d(*its)
        a = NDArray(sh, lambda *i: d(*its, *i), dtype); a.decl = d if not its else None
        return a
    def ranged(lo, hi, dtype='real', open_=False):
        lo, hi = scalar_of(lo), scalar_of(hi)
        def fact(v, *i):
            c = ([v > Zr(lo) if open_ else v >= Zr(lo)] if lo is not None else []) + ([v < Zr(hi)] if hi is not None else [])
            return z3.Implies(Zr(lo) < Zr(hi), z3.And(*c)) if lo is not None and hi is not None else z3.And(*c)
        return lambda shape: draw(shape, dtype, fact if lo is not None or hi is not None else None)
    def reg_r(name, f):
        L['numpy.random.' + name] = lambda I, a, k: f(*a, **k)
    reg_r('random', lambda size=None: ranged(0, 1)(rnd_shape(size)))
    L['numpy.random.random_sample'] = L['numpy.random.sample'] = L['numpy.random.ranf'] = L['numpy.random.random']
    reg_r('rand', lambda *s: ranged(0, 1)(norm_shape(s) if s else None))
    reg_r('randn', lambda *s: ranged(None, None)(norm_shape(s) if s else None))
    def normal(loc=0, scale=1, size=None):
        arrs = isinstance(loc, (NDArray, list, tuple, SymList)) or isinstance(scale, (NDArray, list, tuple, SymList))
        if not arrs:
            lo, sc = Zreal(scalar_of(loc)), Zreal(scalar_of(scale))
            return draw(rnd_shape(size), 'real', lambda v, *i: z3.Implies(sc == 0, v == lo))
        if size is not None: return draw(rnd_shape(size), 'real')
        lo, sc = np.arr(loc).snapshot(), np.arr(scale).snapshot(); sh = np.bshape(lo.shape, sc.shape)
        return draw(sh, 'real', lambda v, *i: z3.Implies(Zreal(np.bget(sc, sh, i)) == 0, v == Zreal(np.bget(lo, sh, i))))
    reg_r('normal', normal)
    def uniform(low=0, high=1, size=None):
        if isinstance(low, NDArray) or isinstance(high, NDArray):
            lo, hi = np.arr(low).snapshot(), np.arr(high).snapshot(); sh = np.bshape(lo.shape, hi.shape)
            if size is not None or not sh: raise Unsupported('uniform array')
            def fact(v, *i):
                l, h = Zreal(np.bget(lo, sh, i)), Zreal(np.bget(hi, sh, i)); return z3.Implies(l < h, z3.And(l <= v, v < h))
            return draw(sh, 'real', fact)
        low, high = scalar_of(low), scalar_of(high)
        lo, hi = Zreal(low), Zreal(high)
        return draw(rnd_shape(size), 'real', lambda v, *i: z3.And(z3.Implies(lo < hi, z3.And(lo <= v, v < hi)), z3.Implies(lo == hi, v == lo), z3.Implies(hi < lo, z3.And(hi <= v, v <= lo))))
    reg_r('uniform', uniform)
    def randint(low, high=None, size=None):
        if high is None: low, high = 0, low
        low, high = scalar_of(low), scalar_of(high)
        if not I.branch(Zr(low) < Zr(high)): raise PR(I, 'ValueError', 'randint low >= high')
        return ranged(low, high, 'int')(rnd_shape(size))
    reg_r('randint', randint)
    def gamma(k, theta=1.0, size=None):
        r = ranged(0, None, open_=True)(rnd_shape(size))
        I.gamma_log = getattr(I, 'gamma_log', []) + [(k, theta, r)]
        return r
    reg_r('gamma', gamma)
    reg_r('exponential', lambda scale=1.0, size=None: ranged(0, None)(rnd_shape(size)))
    L['numpy.random.standard_exponential'] = lambda I, a, k: ranged(0, None)(rnd_shape(a[0] if a else k.get('size')))
    reg_r('multivariate_normal', lambda mean, cov, size=None, **k: draw((norm_shape(size) if size is not None else ()) + (np.arr(mean).shape[0],), 'real'))
    def choice(x, size=None, replace=True, p=None):
        if is_num(x): n = x; el = lambda i: i; dt = 'int'
        elif isinstance(x, NDArray):
            if x.ndim != 1: raise PR(I, 'ValueError', 'a must be 1-dimensional')
            s = x.snapshot(); n, el, dt = x.shape[0], s.at, x.dtype
        else: s = as_symlist(I, x if not isinstance(x, SymSet) else set_to_list(I, x)); n, el, dt = s.n, s.elem, None
        sh = rnd_shape(size)
        if not I.branch(Zr(n) > 0): raise PR(I, 'ValueError', 'choice from nothing')
        pa = np.arr(p).snapshot() if p is not None else None
        if pa is not None and not I.branch(Zr(pa.shape[0]) == Zr(n)): raise PR(I, 'ValueError', 'a and p must have same size')
        def fact(v, *i):
            c = [v >= 0, v < Zr(n)]
            if pa is not None: c.append(Zreal(pa.at(v)) > 0)
            return z3.Implies(Zr(n) > 0, z3.And(*c))
        rp = concrete(scalar_of(replace)) if is_z(scalar_of(replace)) else replace
        if not isinstance(rp, bool): rp = I.branch(scalar_of(replace)) if rp is None else bool(rp)
        ix = draw(sh, 'int', fact)
        if not rp and sh:
            if len(sh) != 1: raise Unsupported('choice without replacement into several axes')
            if not I.branch(Zr(sh[0]) <= Zr(n)): raise PR(I, 'ValueError', 'Cannot take a larger sample than population when replace is False')
            its = list(I.iters); w = z3.Function('rndinv!%d' % next(core._fresh), *([IS]*(len(its)+2))); d = ix.at(z3.IntVal(0)).decl(); sz = Zr(sh[0])
            def inj(*a):
                g = subst(z3.And(0 <= a[-1], a[-1] < sz), list(zip(its, a))) if its else z3.And(0 <= a[-1], a[-1] < sz)
                return z3.Implies(g, w(*a[:-1], d(*a)) == a[-1])
            add_fact(d, inj)
        I.last_choice = (ix, p)
        if sh is None: return el(ix)
        if dt is None: dt = DT(scalar_of(el(z3.IntVal(0))))
        return NDArray(sh, lambda *i: el(ix.at(*i)), dt)
    reg_r('choice', choice)
    reg_r('permutation', lambda x: choice(x, size=(x if is_num(x) else np.arr(x).shape[0]), replace=False))
    reg_r('seed', lambda *a: None)
    def ix_(I, a, k):
        out = []
        for q, v in enumerate(a):
            v = I.lib['numpy.array'](I, [v], {}) if not isinstance(v, NDArray) else v.snapshot()
            if v.ndim != 1 or v.dtype != 'int': raise Unsupported('ix_ of this')
            sh = tuple(v.shape[0] if j == q else 1 for j in range(len(a)))
            out.append(NDArray(sh, lambda *j, v=v, q=q: v.at(j[q]), 'int'))
        return tuple(out)
    L['numpy.ix_'] = ix_
    L['random.random'] = L['numpy.random.random']
    L['random.shuffle'] = lambda I, a, k: shuffle(I, a[0])
    L['numpy.random.shuffle'] = L['random.shuffle']
    L['random.randint'] = lambda I, a, k: randint(a[0], simp(Zr(a[1]) + 1))
    L['random.choice'] = lambda I, a, k: choice(a[0])
    L['math.ceil'] = lambda I, a, k: _ceil(a[0]); L['math.floor'] = lambda I, a, k: _floor(a[0])
    for nm, f in (('exp', s_exp), ('log', s_log), ('sqrt', s_sqrt), ('sin', lambda x: f_sin(Zreal(x))), ('cos', lambda x: f_cos(Zreal(x)))):
        L['math.' + nm] = lambda I, a, k, f=f: f(scalar_of(a[0]))
    # scipy
    S = 'scipy.special.'
    def sp(name, f, dt='real'):
        L[S + name] = lambda I, a, k: np.ew(f, dt, *a)
    sp('ndtr', lambda x: f_Phi(Zreal(x))); sp('log_ndtr', lambda x: f_logPhi(Zreal(x)))
    sp('gamma', lambda x: f_gamma(Zreal(x))); sp('gammaln', lambda x: f_lgamma(Zreal(x))); sp('loggamma', lambda x: f_lgamma(Zreal(x)))
    sp('digamma', lambda x: f_psi(z3.IntVal(0), Zreal(x))); sp('psi', lambda x: f_psi(z3.IntVal(0), Zreal(x)))
    sp('polygamma', lambda n, x: f_psi(Zr(n), Zreal(x)))
    sp('beta', lambda a, b: s_exp(f_lgamma(Zreal(a)) + f_lgamma(Zreal(b)) - f_lgamma(Zreal(a) + Zreal(b))))
    sp('betaln', lambda a, b: f_lgamma(Zreal(a)) + f_lgamma(Zreal(b)) - f_lgamma(Zreal(a) + Zreal(b)))
    for n in ('scipy.stats.norm.cdf',): L[n] = lambda I, a, k: np.ew(lambda x: f_Phi(Zreal(x)), 'real', a[0])
    L['scipy.stats.norm.pdf'] = lambda I, a, k: np.ew(lambda x: _npdf(Zreal(x)), 'real', a[0])
    def beta_logpdf(x, a, b): 
        x, a, b = Zreal(x), Zreal(a), Zreal(b)
        return (a-1)*s_log(x) + (b-1)*s_log(1-x) - (f_lgamma(a) + f_lgamma(b) - f_lgamma(a+b))
    L['scipy.stats.beta.logpdf'] = lambda I, a, k: np.ew(beta_logpdf, 'real', *a)
    L['numba.jit'] = lambda I, a, k: a[0]
    L['time.time'] = lambda I, a, k: fresh('time', 'real')
def pat_ok(t):
    return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
def _npdf(u):
    return f_exp(-(u*u)/2)/f_sqrt(2*PI)
def _ceil(x):
    x = scalar_of(x)
    if not is_z(x):
        import math; return math.ceil(x)
    if x.sort() == IS: return x
    return -z3.ToInt(-x)
def _floor(x):
    x = scalar_of(x)
    if not is_z(x):
        import math; return math.floor(x)
    if x.sort() == IS: return x
    return z3.ToInt(x)

def shuffle(I, l):
    """arbitrary permutation in place"""
    if isinstance(l, list):
        if len(l) <= 1: return None
        raise Unsupported('shuffle concrete list')
    if isinstance(l, SymList):
        g = z3.Function('shuf!%d' % next(core._fresh), IS, IS); r = z3.Function('shufinv!%d' % next(core._fresh), IS, IS)
        i = z3.Int('q!i'); n = Zr(l.n); el = l.elem
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= g(i), g(i) < n, r(g(i)) == i)), patterns=[g(i)]))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= r(i), r(i) < n, g(r(i)) == i)), patterns=[r(i)]))
        l.elem = lambda q: el(g(q))
        if l.log is not None: l.log.append(('shuffle',))
        return None
    raise Unsupported('shuffle')

def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo: return memo[id(v)][0]
    if isinstance(v, NDArray): r = v.snapshot()
    elif isinstance(v, list):
        r = []; memo[id(v)] = (r, v); r.extend(deepcopy(I, x, memo) for x in v); return r
    elif isinstance(v, tuple): r = tuple(deepcopy(I, x, memo) for x in v)
    elif isinstance(v, dict): r = {k: deepcopy(I, x, memo) for k, x in v.items()}
    elif isinstance(v, SymList): r = SymList(v.n, v.elem)
    elif isinstance(v, SymSet): r = SymSet(v.arr)
    elif isinstance(v, Obj):
        r = Obj(v.cls); memo[id(v)] = (r, v)
        for k, x in v.attrs.items(): r.attrs[k] = deepcopy(I, x, memo)
        return r
    else: r = v
    memo[id(v)] = (r, v)
    return r
