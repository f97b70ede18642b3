"""Model of the numpy / scipy operations used (trusted)."""
import z3
from .core import *
from .values import *
from . import core

def DT(x):
    if isinstance(x, NDArray): return x.dtype
    if isinstance(x, bool) or is_sym_bool(x): return 'bool'
    if isinstance(x, int): return 'int'
    if isinstance(x, (float, Fraction)): return 'real'
    if is_z(x): return 'int' if x.sort() == IS else 'real'
    raise Unsupported('dtype of %r' % (x,))
def up(a, b):
    o = ['bool', 'int', 'real']
    return o[max(o.index(a), o.index(b))]
def is_num(x):
    return isinstance(x, (bool, int, float, Fraction)) or is_sym_num(x) or is_sym_bool(x)

class NP:
    def __init__(self, I):
        self.I = I

    # ---------------- dims
    def same_dim(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        if is_z(a) and is_z(b) and a.eq(b): return True
        return self.I.entails(Zr(a) == Zr(b))
    def bdim(self, a, b):
        if isinstance(a, int) and a == 1: return b
        if isinstance(b, int) and b == 1: return a
        if self.same_dim(a, b): return a if isinstance(a, int) else b
        # numpy raises (or broadcasts when one is 1)
        if self.I.entails(Zr(a) == 1): return b
        if self.I.entails(Zr(b) == 1): return a
        raise Unsupported('broadcast of dims %s and %s' % (a, b))
    def bshape(self, *shapes):
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            d = 1
            for s in shapes:
                j = i - (n - len(s))
                if j >= 0: d = self.bdim(d, s[j])
            out.append(d)
        return tuple(out)
    def bget(self, a, shape, idx):
        k = len(shape) - a.ndim
        ii = []
        for j in range(a.ndim):
            d = a.shape[j]
            if isinstance(d, int) and d == 1 and not (isinstance(shape[k+j], int) and shape[k+j] == 1): ii.append(z3.IntVal(0))
            elif isinstance(d, int) and d == 1: ii.append(z3.IntVal(0))
            else: ii.append(idx[k+j])
        return a.at(*ii)
    def arr(self, x):
        """asarray"""
        if isinstance(x, NDArray): return x
        if is_num(x): return NDArray((), lambda: x, DT(x))
        if isinstance(x, (list, tuple)):
            if len(x) == 0: return NDArray((0,), lambda i: z3.RealVal(0), 'real')
            es = [self.arr(e) for e in x]
            sh = es[0].shape
            for e in es[1:]:
                if len(e.shape) != len(sh) or not all(self.same_dim(a, b) for a, b in zip(e.shape, sh)):
                    raise Unsupported('ragged array')
            dt = es[0].dtype
            for e in es: dt = up(dt, e.dtype)
            es = [e.snapshot() for e in es]
            def fn(i, *r):
                c = concrete(i)
                if c is not None: return self.cast(es[c if -len(es) <= c < len(es) else -1].at(*r), dt)      # out of range only under a false guard
                t = self.cast(es[-1].at(*r), dt)
                for j in range(len(es)-2, -1, -1):
                    t = s_ite(Zr(i) == j, self.cast(es[j].at(*r), dt), t)
                return t
            return NDArray((len(es),) + sh, fn, dt)
        if isinstance(x, SymList):
            probe = x.elem(fresh('p'))
            n, el = x.n, x.elem
            if is_num(probe):
                return NDArray((n,), lambda i: el(i), DT(probe))
            if isinstance(probe, (tuple, list)) or isinstance(probe, NDArray):
                pa = self.arr(probe)
                return NDArray((n,) + pa.shape, lambda i, *r: self.arr(el(i)).at(*r), pa.dtype)
            raise Unsupported('array of %r' % (probe,))
        if isinstance(x, Range):
            return NDArray((x.n,), lambda i: x.at(i), 'int')
        raise Unsupported('array from %r' % (x,))
    def cast(self, t, dt):
        if dt == 'real': return Zreal(t)
        if dt == 'int': return Zr(t)
        return Zb(t)
    # ---------------- elementwise
    def ew(self, f, dt, *xs):
        if all(is_num(scalar_of(x)) for x in xs):
            return f(*[scalar_of(x) for x in xs])
        xs = [self.arr(x).snapshot() for x in xs]
        sh = self.bshape(*[x.shape for x in xs])
        return NDArray(sh, lambda *i: f(*[self.bget(x, sh, i) for x in xs]), dt)
    def binop(self, op, a, b):
        da, db = DT(a) if not isinstance(a, (list, tuple)) else DT(self.arr(a)), DT(b) if not isinstance(b, (list, tuple)) else DT(self.arr(b))
        dt = up(da, db)
        if dt == 'bool' and op in ('+', '*'):
            return self.ew((lambda x, y: z3.Or(Zb(x), Zb(y))) if op == '+' else (lambda x, y: z3.And(Zb(x), Zb(y))), 'bool', a, b)
        if op == '+': return self.ew(s_add, dt, a, b)
        if op == '-': return self.ew(s_sub, dt, a, b)
        if op == '*': return self.ew(s_mul, dt, a, b)
        if op == '/': return self.ew(s_div, 'real', a, b)
        if op == '**':
            return self.ew(s_pow, dt if (concrete(scalar_of(b)) is not None and isinstance(concrete(scalar_of(b)), int) and concrete(scalar_of(b)) >= 0) else 'real', a, b)
        if op == '//':
            if dt != 'int': raise Unsupported('float floor division')
            return self.ew(lambda x, y: Zr(x) / Zr(y), 'int', a, b)
        if op == '%':
            if dt != 'int': raise Unsupported('float mod')
            return self.ew(lambda x, y: Zr(x) % Zr(y), 'int', a, b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            def cmp(x, y):
                x, y = core._co(x, y) if not (is_sym_bool(x) and is_sym_bool(y)) else (x, y)
                return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                        '==': lambda: x == y, '!=': lambda: x != y}[op]()
            return self.ew(cmp, 'bool', a, b)
        if op == '&': return self.ew(lambda x, y: z3.And(Zb(x), Zb(y)), 'bool', a, b)
        if op == '|': return self.ew(lambda x, y: z3.Or(Zb(x), Zb(y)), 'bool', a, b)
        raise Unsupported('array op ' + op)
    def un(self, f, dt=None):
        return lambda x: self.ew(f, dt or DT(x if not isinstance(x, (list, tuple)) else self.arr(x)), x)
    # ---------------- reductions
    def reduce(self, kind, x, axis=None, keepdims=False):
        x = self.arr(x)
        if x.ndim == 0: return x.at()
        xv = x; x = x.snapshot()
        mk = {'sum': mk_sum, 'any': mk_any, 'all': mk_all}.get(kind)
        dt = x.dtype
        if kind == 'sum' and dt == 'bool':
            if x.ndim == 1 and concrete(x.shape[0]) is None: return self.count(xv, x)
            x = self.ew(lambda b: Zr(b), 'int', x); dt = 'int'
        if kind in ('any', 'all'): dt = 'bool'
        if kind in ('argmax', 'argmin'): dt = 'int'
        one = (lambda n, f: mk(n, f)) if mk else (lambda n, f: mk_ext(kind, n, f))
        if kind == 'mean':
            s = self.reduce('sum', x, axis, keepdims)
            n = x.shape[axis] if axis is not None else self.size(x)
            return self.binop('/', s, n)
        if kind == 'prod':
            raise Unsupported('prod')
        if axis is None:
            if x.ndim == 1: 
                if kind in ('max', 'min', 'argmax', 'argmin'): self.nonempty(x.shape[0])
                r = one(x.shape[0], lambda i: x.at(i))
            elif x.ndim == 2:
                if kind in ('argmax', 'argmin', 'max', 'min'):
                    n, m = x.shape
                    if kind in ('max', 'min'):
                        r = one(n, lambda i: one(m, lambda j: x.at(i, j)))
                    else: raise Unsupported('flat argmax')
                else:
                    r = one(x.shape[0], lambda i: one(x.shape[1], lambda j: x.at(i, j)))
            else: raise Unsupported('reduction of %d dims' % x.ndim)
            if keepdims: return NDArray((1,)*x.ndim, lambda *i: r, dt)
            return r
        if isinstance(axis, (tuple, list)):
            cs = sorted({concrete(a) + (x.ndim if concrete(a) < 0 else 0) for a in axis}, reverse=True)
            if kind not in ('sum', 'max', 'min', 'any', 'all') or len(cs) != len(axis): raise Unsupported('several axes')
            for a in cs: x = self.reduce(kind, x, a, keepdims)
            return x
        c = concrete(axis)
        if c is None: raise Unsupported('symbolic axis')
        if c < 0: c += x.ndim
        n = x.shape[c]
        if keepdims:
            return NDArray(x.shape[:c] + (1,) + x.shape[c+1:], lambda *i: one(n, lambda k: x.at(*(i[:c] + (k,) + i[c+1:]))), dt)
        if x.ndim == 1: return one(n, lambda k: x.at(k))
        return NDArray(x.shape[:c] + x.shape[c+1:], lambda *i: one(n, lambda k: x.at(*(i[:c] + (k,) + i[c:]))), dt)
    def count(self, xv, x):
        """number of true entries of a prefix of a mask: the rank of the next true position"""
        b = xv.isview
        if b is not None and b.ndim == 1 and b.dtype == 'bool': self.mask_idx(b.snapshot(), b.shape[0])
        p = Zr(x.shape[0]); S = mk_sum(p, lambda i: Zr(x.at(i)))
        if not is_z(S) or concrete(S) is not None: return S
        I = self.I; I.assume(z3.And(S >= 0, S <= p))
        k0 = z3.Int('mk@k'); e = z3.simplify(Zb(x.at(k0)))
        for m, g, r, cnt in list(I.__dict__.get('_masks', {}).values()):
            if not z3.simplify(Zb(m.at(k0))).eq(e): continue
            n = Zr(m.shape[0])
            I.assume(z3.Implies(z3.And(0 <= p, p < n, Zb(m.at(p))), S == r(p))); I.assume(z3.Implies(p == n, S == cnt))
        return S
    def nonempty(self, n):
        if isinstance(n, int):
            if n == 0: raise self.I.PyRaise('ValueError', 'empty reduction')
            return
        if not self.I.branch(Zr(n) > 0):
            raise self.I.PyRaise('ValueError', 'empty reduction')
    def size(self, x):
        r = 1
        for d in x.shape: r = d if r == 1 else (r*d if isinstance(r, int) and isinstance(d, int) else Zr(r)*Zr(d))
        return r
    def flat_fns(self, n, m):
        """row-major positions of an n x m array of symbolic width, as a bijection without arithmetic (k/m and k%m)"""
        I = self.I; key = (Zr(n).get_id(), Zr(m).get_id()); d = I.__dict__.setdefault('_flat', {})
        if key not in d:
            q = next(core._fresh); L = fresh('size'); row, col = z3.Function('row!%d' % q, IS, IS), z3.Function('col!%d' % q, IS, IS); enc = z3.Function('enc!%d' % q, IS, IS, IS)
            i, j = z3.Ints('fi! fj!'); N, M = Zr(n), Zr(m)
            core.add_def(L, z3.And(L >= 0, z3.Implies(z3.And(N > 0, M > 0), z3.And(L >= N, L >= M))))
            core.add_fdef(row, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L), z3.And(0 <= row(i), row(i) < N, 0 <= col(i), col(i) < M, enc(row(i), col(i)) == i)), patterns=[row(i)]))
            core.add_fdef(enc, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < N, 0 <= j, j < M), z3.And(0 <= enc(i, j), enc(i, j) < L, row(enc(i, j)) == i, col(enc(i, j)) == j)), patterns=[enc(i, j)]))
            d[key] = (L, row, col, enc); d.setdefault('keep', []).append((N, M))
        return d[key]
    def flat(self, x):
        x = self.arr(x).snapshot()
        if x.ndim == 1: return x
        if x.ndim == 2:
            n, m = x.shape
            if not isinstance(m, int) and getattr(self.I, 'flat_abs', False):
                L, row, col, enc = self.flat_fns(n, m); return NDArray((L,), lambda i: x.at(row(i), col(i)), x.dtype)
            if isinstance(m, int):
                return NDArray((self.size(x),), lambda i: x.at(Zr(i) / m, Zr(i) % m), x.dtype)
            return NDArray((self.size(x),), lambda i: x.at(Zr(i) / Zr(m), Zr(i) % Zr(m)), x.dtype)
        raise Unsupported('flatten')
    def matmul(self, a, b):
        a, b = self.arr(a).snapshot(), self.arr(b).snapshot()
        dt = up(up(a.dtype, b.dtype), 'int')
        if a.ndim == 1 and b.ndim == 1:
            n = self.bd1(a.shape[0], b.shape[0]); return mk_sum(n, lambda k: s_mul(a.at(k), b.at(k)))
        if a.ndim == 2 and b.ndim == 1:
            n = self.bd1(a.shape[1], b.shape[0]); return NDArray((a.shape[0],), lambda i: mk_sum(n, lambda k: s_mul(a.at(i, k), b.at(k))), dt)
        if a.ndim == 1 and b.ndim == 2:
            n = self.bd1(a.shape[0], b.shape[0]); return NDArray((b.shape[1],), lambda j: mk_sum(n, lambda k: s_mul(a.at(k), b.at(k, j))), dt)
        if a.ndim == 2 and b.ndim == 2:
            n = self.bd1(a.shape[1], b.shape[0])
            g = self.gram(a, b)
            if g is not None: return g
            return NDArray((a.shape[0], b.shape[1]), lambda i, j: mk_sum(n, lambda k: s_mul(a.at(i, k), b.at(k, j))), dt)
        raise Unsupported('matmul dims')
    def gram(self, a, b):
        """inv(chol(A)).T @ inv(chol(A)) == inv(A);  chol(A) @ chol(A).T == A"""
        las = getattr(self.I, '_linalg', [])
        if not las: return None
        i, j = z3.Int('gr@i'), z3.Int('gr@j')
        x, y = a.at(i, j), b.at(i, j)
        dec = {d.name(): (nm, arg, d) for nm, arg, d in las}
        isd = lambda t, p, q: z3.is_app(t) and t.num_args() == 2 and t.decl().name() in dec and t.arg(0).eq(p) and t.arg(1).eq(q)
        if isd(x, j, i) and isd(y, i, j) and x.decl().eq(y.decl()) and dec[x.decl().name()][0] == 'inv':
            m = dec[x.decl().name()][1].at(i, j)
            if isd(m, i, j) and dec[m.decl().name()][0] == 'chol': return self.I.lib['numpy.linalg.inv'](self.I, [dec[m.decl().name()][1]], {})
        if isd(x, i, j) and isd(y, j, i) and x.decl().eq(y.decl()) and dec[x.decl().name()][0] == 'chol':
            return dec[x.decl().name()][1].snapshot()
        return None
    def bd1(self, a, b):
        if not self.same_dim(a, b): raise Unsupported('matmul dims %s %s' % (a, b))
        return a
    # ---------------- indexing
    def norm_index(self, i, n, safe=True):
        c = concrete(i)
        if c is not None:
            c = int(c)
            if c < 0:
                return simp(Zr(n) + c)
            if isinstance(n, int) and c >= n: raise self.I.PyRaise('IndexError', 'index out of bounds')
            if not isinstance(n, int): self.I.safety('index %d within bounds' % c, Zr(n) > c)
            return z3.IntVal(c)
        i = Zr(i)
        if safe:
            self.I.safety('index within bounds', z3.And(i >= -Zr(n), i < Zr(n)))
        if self.I.entails(i >= 0): return i
        return z3.If(i < 0, i + Zr(n), i)
    def slice_bounds(self, sl, n):
        lo, hi, st = sl
        st = 1 if st is None else concrete(st)
        if st == -1:
            if hi is None and (lo is None or concrete(lo) == -1): return 'rev', None, None
            raise Unsupported('negative step slice')
        if st != 1: raise Unsupported('slice step')
        def nb(v, d):
            if v is None: return d
            c = concrete(v)
            if c is not None and isinstance(n, int):
                if c < 0: c += n
                return max(0, min(n, c))
            if c is not None:
                c = int(c)
                if c == 0: return 0
                if c < 0:
                    return z3.If(Zr(n) + c > 0, Zr(n) + c, z3.IntVal(0)) if not self.I.entails(Zr(n) + c >= 0) else Zr(n) + c
            v = Zr(v)
            if not self.I.entails(v >= 0): v = z3.If(v < 0, z3.If(v + Zr(n) < 0, z3.IntVal(0), v + Zr(n)), v)
            if not self.I.entails(v <= Zr(n)): v = z3.If(v > Zr(n), Zr(n), v)
            return v
        lo, hi = nb(lo, 0), nb(hi, n)
        if isinstance(lo, int) and isinstance(hi, int): ln = max(0, hi-lo)
        elif isinstance(lo, int) and lo == 0: ln = hi
        else:
            d = simp(Zr(hi) - Zr(lo))
            ln = d if concrete(d) is not None else (d if self.I.entails(d >= 0) else z3.If(d > 0, d, z3.IntVal(0)))
        return lo, hi, ln
    def parse(self, x, key):
        if not isinstance(key, tuple): key = (key,)
        key = list(key)
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, NDArray) and k.dtype == 'bool' and k.ndim > 1))
        for p, k in enumerate(key):
            if k is Ellipsis:
                key[p:p+1] = [('slice', None, None, None)]*(x.ndim - nreal); break
        items = []
        ax = 0
        for k in key:
            if k is None: items.append(('new',)); continue
            k = scalar_of(k)
            if ax >= x.ndim: raise self.I.PyRaise('IndexError', 'too many indices')
            n = x.shape[ax]
            if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
                lo, hi, ln = self.slice_bounds(k[1:], n)
                items.append(('slice', ax, lo, ln)); ax += 1
            elif is_num(k) and not (isinstance(k, bool) or is_sym_bool(k)):
                items.append(('int', ax, self.norm_index(k, n))); ax += 1
            else:
                a = self.arr(k) if not isinstance(k, (SymSet,)) else None
                if a is None: raise Unsupported('index by set')
                if a.dtype == 'bool':
                    if a.ndim != 1: raise Unsupported('nd mask')
                    items.append(('mask', ax, a.snapshot())); ax += 1
                else:
                    if isinstance(k, (list, tuple)) and len(k) == 0:
                        a = NDArray((0,), lambda i: z3.IntVal(0), 'int')
                    if a.dtype != 'int': raise Unsupported('non integer index array')
                    items.append(('adv', ax, a.snapshot())); ax += 1
        while ax < x.ndim:
            items.append(('slice', ax, 0, x.shape[ax])); ax += 1
        return items
    def getitem(self, x, key):
        if isinstance(key, tuple) and len(key) == 4 and key[0] == 'slice' : key = (key,)
        items = self.parse(x, key)
        if any(i[0] == 'mask' for i in items):
            for i in items:
                if i[0] == 'mask' and not self.same_dim(i[2].shape[0], x.shape[i[1]]): self.I.safety('mask has the length of the axis it selects from', Zr(i[2].shape[0]) == Zr(x.shape[i[1]]))
            items = [(('adv', i[1], self.mask_idx(i[2], i[2].shape[0])) if i[0] == 'mask' else i) for i in items]
        advs = [i for i in items if i[0] == 'adv']
        basic = not advs
        s = x.snapshot()
        ashape = self.bshape(*[a[2].shape for a in advs]) if advs else ()
        if advs:
            pos = [p for p, i in enumerate(items) if i[0] == 'adv']
            ints = [p for p, i in enumerate(items) if i[0] == 'int']
            if len(advs) > 1 and pos != list(range(pos[0], pos[-1]+1)): raise Unsupported('split advanced index')
            if ints and any(items[p][0] == 'slice' for p in range(min(ints+pos), max(ints+pos)+1)):
                raise Unsupported('mixed int and advanced index')
        out = []; first = True
        plan = []
        for it in items:
            if it[0] == 'new': out.append(1); plan.append(None)
            elif it[0] == 'slice': 
                plan.append(('s', len(out), it[2])); out.append(it[3])
            elif it[0] == 'int': plan.append(('i', it[2]))
            else:
                if first:
                    st = len(out); out += list(ashape); first = False
                plan.append(('a', st, it[2], it[1]))
        if not out and all(p[0] == 'i' for p in plan):
            return s.at(*[p[1] for p in plan])
        for it in advs:
            a = it[2]; n = x.shape[it[1]]
            if getattr(a, 'inrange', None) is not None: continue
            if is_z(n) or not all(isinstance(d, int) for d in a.shape):
                iv = [fresh('ix') for _ in a.shape]
                g = [z3.And(0 <= v, v < Zr(d)) for v, d in zip(iv, a.shape)]
                t = a.at(*iv)
                self.I.safety('array index within bounds', z3.Implies(z3.And(*g) if g else z3.BoolVal(True), z3.And(t >= -Zr(n), t < Zr(n))))
        neg = {}
        def fix(a, t, ax):
            c = concrete(t)
            if c is not None: return t if c >= 0 else simp(Zr(x.shape[ax]) + c)
            if getattr(a, 'nonneg', False): return t
            return t     # non-negative by the bounds obligation's stronger form below
        for it in advs:
            a = it[2]
            if getattr(a, 'inrange', None) is not None: continue
            iv = [fresh('ix') for _ in a.shape]
            if all(isinstance(d, int) and d <= 8 for d in a.shape): continue
            g = [z3.And(0 <= v, v < Zr(d)) for v, d in zip(iv, a.shape)]
            self.I.safety('array index non-negative', z3.Implies(z3.And(*g), a.at(*iv) >= 0), need=True)
        def fn(*idx):
            ii = []
            for p in plan:
                if p is None: continue
                if p[0] == 's': ii.append(idx[p[1]] if (isinstance(p[2], int) and p[2] == 0) else (z3.simplify(Zr(x_n) - 1 - idx[p[1]]) if isinstance(p[2], str) else simp(Zr(p[2]) + idx[p[1]])))
                elif p[0] == 'i': ii.append(p[1])
                else:
                    ii.append(fix(p[2], self.bget(p[2], ashape, idx[p[1]:p[1]+len(ashape)]), p[3]))
            return s.at(*ii)
        rev = [i for i in items if i[0] == 'slice' and isinstance(i[2], str)]
        x_n = x.shape[rev[0][1]] if rev else None
        out = [x_n if o is None else o for o in out]
        if len(rev) > 1: raise Unsupported('two reversed axes')
        r = NDArray(out, fn, x.dtype)
        if basic:
            r.isview = x if x.isview is None else x.isview
            r.isview.views.append(r)
            k = len([i for i in items if i[0] == 'int'])
            if x.isview is None and all(i[0] == 'int' for i in items[:k]) and all(i[0] == 'slice' and i[2] == 0 and self.same_syn(i[3], x.shape[i[1]]) for i in items[k:]): r.vkey = tuple(i[2] for i in items[:k])
        return r
    def mask_idx(self, m, n):
        """increasing enumeration of the true positions of mask m (length n); equal masks share one enumeration"""
        k0 = z3.Int('mk@k'); key0 = (z3.simplify(Zr(n)).get_id(), z3.simplify(Zb(m.at(k0))).get_id())
        core._KEEP.append((z3.simplify(Zr(n)), z3.simplify(Zb(m.at(k0)))))
        tab = self.I.__dict__.setdefault('_masks', {})
        if key0 in tab:
            m, g, r, cnt = tab[key0]
            a = NDArray((cnt,), lambda i: g(i), 'int'); a.inrange = True; a.mask = tab[key0]
            return a
        dep = core.free_consts(Zb(m.at(k0))); core.free_consts(Zr(n), dep)
        if any(v.get_id() in dep for v in self.I.iters): raise Unsupported('a selection that depends on the iteration')
        kk = z3.Int('q!k'); t0 = Zb(m.at(kk))
        if not core.lift(t0, [kk]).eq(t0):          # counts and sums in the condition: name it, so that axioms can speak of it
            m0 = m; pm = z3.Function('msk!%d' % next(core._fresh), IS, BS); add_fact(pm, lambda q: pm(q) == Zb(m0.at(q)))
            m = NDArray((n,), lambda i: pm(i), 'bool')
        cnt = fresh('cnt'); g = z3.Function('sel!%d' % next(core._fresh), IS, IS); r = z3.Function('rank!%d' % next(core._fresh), IS, IS)
        n = Zr(n)
        j, k = z3.Ints('q!j q!k')
        mk = m.at(k)
        add_def(cnt, z3.And(cnt >= 0, cnt <= n))
        add_def(cnt, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, mk), z3.And(0 <= r(k), r(k) < cnt, g(r(k)) == k)), patterns=[r(k)]))
        add_def(cnt, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, mk), z3.And(0 <= r(k), r(k) < cnt, g(r(k)) == k, core.TOUCH(r(k)))), patterns=[core.TOUCH(k)]))
        q = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), z3.And(0 <= g(j), g(j) < n, m.at(g(j)), r(g(j)) == j)), patterns=[g(j)])
        add_def(cnt, q)
        j2 = z3.Int('q!j2')
        add_def(cnt, z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < cnt), g(j) < g(j2)), patterns=[z3.MultiPattern(g(j), g(j2))]))
        try:
            add_def(cnt, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, mk), g(r(k)) == k), patterns=[mk] if z3.is_app(mk) and mk.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
        except z3.Z3Exception: pass
        a = NDArray((cnt,), lambda i: g(i), 'int'); a.inrange = True; a.mask = (m, g, r, cnt)
        tab[key0] = a.mask
        return a
    def setitem(self, x, key, val, op=None):
        if isinstance(key, tuple) and len(key) == 4 and key[0] == 'slice': key = (key,)
        if isinstance(val, (list, SymList)): val = self.arr(val)
        val = scalar_of(val)
        dv = DT(val)
        if x.dtype == 'int' and dv == 'real':
            raise Unsupported('storing a float in an int array')
        if x.dtype == 'bool' and dv != 'bool': raise Unsupported('store into bool array')
        if x.isview is not None and x.vkey is not None:        # X[i][...] = v writes X[i, ...]
            self.setitem(x.isview, x.vkey + (key if isinstance(key, tuple) and not (len(key) == 4 and key[0] == 'slice') else (key,)), val, op)
            return
        items = self.parse(x, key)
        if any(i[0] == 'new' for i in items): raise Unsupported('store newaxis')
        old = x.snapshot()
        if isinstance(val, NDArray): val = val.snapshot()
        if any(i[0] == 'slice' and isinstance(i[2], str) for i in items): raise Unsupported('store rev')
        if any(i[0] == 'mask' for i in items):
            if len([i for i in items if i[0] != 'slice']) != 1 or isinstance(val, NDArray): raise Unsupported('mask store')
            ax, m = [(i[1], i[2]) for i in items if i[0] == 'mask'][0]
            if any(i[0] == 'slice' and not (i[2] == 0 and self.same_dim(i[3], x.shape[i[1]])) for i in items): raise Unsupported('mask store slice')
            comb = self.comb(op)
            if x.log is not None: x.log.append(('other',))
            x.set_fn(lambda *idx: s_ite(m.at(idx[ax]), comb(old.at(*idx), val, x.dtype), old.at(*idx)))
            return
        advs = [i for i in items if i[0] == 'adv']
        if advs:
            if len(advs) != 1 or any(i[0] == 'slice' and not (i[2] == 0 and self.same_dim(i[3], x.shape[i[1]])) for i in items):
                if not all(i[0] == 'adv' for i in items): raise Unsupported('adv store')
            if op: raise Unsupported('augmented fancy store')
            if isinstance(val, NDArray): 
                raise Unsupported('fancy store of array')
            ash = self.bshape(*[a[2].shape for a in advs])
            if len(ash) != 1: raise Unsupported('adv store nd')
            if x.log is not None: x.log.append(('other',))
            def fn(*idx):
                def hit(k): return z3.And(*[self.bget(a[2], ash, (k,)) == idx[a[1]] for a in advs] + [it[2] == idx[it[1]] for it in items if it[0] == 'int'])
                mi = getattr(advs[0][2], 'mask', None)
                if len(advs) == 1 and mi is not None and len(items) == 1:
                    return s_ite(mi[0].at(idx[advs[0][1]]), val, old.at(*idx))
                return s_ite(mk_any(ash[0], hit), val, old.at(*idx))
            x.set_fn(fn); return
        # basic store
        ints = [i for i in items if i[0] == 'int']
        sls = [i for i in items if i[0] == 'slice']
        vsh = tuple(i[3] for i in sls)
        comb = self.comb(op)
        if isinstance(val, NDArray) and val.ndim > len(vsh): raise Unsupported('store shape')
        if isinstance(val, NDArray):
            for p in range(val.ndim):
                dv_, dx_ = val.shape[p], vsh[len(vsh)-val.ndim+p]
                if not (isinstance(dv_, int) and dv_ == 1) and not self.same_dim(dv_, dx_):
                    raise Unsupported('store shape %s into %s' % (val.shape, vsh))
        if x.log is not None:
            if not sls: x.log.append(('add' if op == '+' else 'sub' if op == '-' else 'set' if op is None else 'other', tuple(i[2] for i in ints), val, old.at(*[Zr(i[2]) for i in ints]) if op is None and is_num(val) else None))
            else: x.log.append(('slice', items, val, op))
        def fn(*idx):
            conds = []
            vi = []
            for it in items:
                if it[0] == 'int': conds.append(Zr(it[2]) == idx[it[1]])
                else:
                    lo, ln = it[2], it[3]
                    if isinstance(lo, int) and lo == 0 and self.same_syn(ln, x.shape[it[1]]): vi.append(idx[it[1]])
                    else:
                        conds += [idx[it[1]] >= Zr(lo), idx[it[1]] < Zr(lo) + Zr(ln)]
                        vi.append(simp(idx[it[1]] - Zr(lo)))
            v = self.bget(val, vsh, tuple(vi)) if isinstance(val, NDArray) else val
            v = comb(old.at(*idx), v, x.dtype)
            if not conds: return v
            return s_ite(simp(z3.And(*conds)), v, old.at(*idx))
        x.set_fn(fn)
    def same_syn(self, a, b):
        if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
        return a.eq(b)
    def comb(self, op):
        def f(o, v, dt):
            if op is None: return self.cast(v, dt)
            return self.cast({'+': s_add, '-': s_sub, '*': s_mul, '/': s_div}[op](o, v), dt)
        return f
