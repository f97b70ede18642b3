"""Value domain: symbolic arrays, lists, sets, objects."""
import z3
from .core import *
from . import core

class NDArray:
    """shape: tuple of int / z3 Int ; fn(idx tuple of z3 Int) -> z3 term ; dtype in int,real,bool"""
    def __init__(self, shape, fn, dtype, base=None):
        self.shape = tuple(_dim(s) for s in shape)
        self._fn = fn; self.dtype = dtype
        self._memo = {}
        self.log = None          # list of writes while a loop body is being summarised
        self.isview = base       # base array of a basic-slice view
        self.views = []
        self.stale = False
        self.tag = None
        self.vkey = None         # integer prefix of a view base[i..]
        if base is not None: base.views.append(self)
    @property
    def ndim(self): return len(self.shape)
    def at(self, *idx):
        if self.vkey is not None: return self.isview.at(*self.vkey, *idx)
        if self.stale: raise Unsupported('read of a view whose base was modified')
        idx = tuple(Zr(i) for i in idx)
        key = tuple(i.get_id() for i in idx)
        r = self._memo.get(key)
        if r is None:
            v = self._fn(*idx)
            v = Zb(v) if self.dtype == 'bool' else (Zreal(v) if self.dtype == 'real' else Zr(v))
            self._memo[key] = (v, idx)
            return v
        return r[0]
    def set_fn(self, fn, dtype=None):
        if self.isview is not None: raise Unsupported('write through a view')
        for v in self.views: v.stale = True
        self.views = []
        self._fn = fn; self._memo = {}
        if dtype: self.dtype = dtype
    def snapshot(self):
        """value copy (immutable closure of current contents)"""
        if self.vkey is not None:
            b, vk = self.isview.snapshot(), self.vkey
            return NDArray(self.shape, lambda *i: b.at(*vk, *i), self.dtype)
        f, d, memo = self._fn, self.dtype, self._memo
        r = NDArray(self.shape, f, d); r._memo = memo
        if self.stale: raise Unsupported('stale view')
        return r
    def __repr__(self): return 'NDArray%s:%s' % (self.shape, self.dtype)

def _dim(s):
    c = concrete(s)
    if c is not None: return int(c)
    return s

class SymList:
    """python list of symbolic length; elem(i) -> value"""
    def __init__(self, n, elem):
        self.n, self.elem = _dim(n), elem
        self.log = None
    def __repr__(self): return 'SymList(%s)' % (self.n,)

class SymSet:
    """set of ints; arr: z3 Array(Int,Bool)"""
    def __init__(self, arr):
        self.arr = arr
    def has(self, x): return z3.Select(self.arr, Zr(x))

class SymMap:
    """dict from int to a symbolic value with a membership predicate"""
    def __init__(self, has, val):
        self.has, self.val = has, val
        self.log = None

class Obj:
    def __init__(self, cls, attrs=None):
        self.cls = cls; self.attrs = attrs if attrs is not None else {}
    def __repr__(self): return '<%s>' % (self.cls.name if self.cls else 'obj')

class ClassRef:
    def __init__(self, name, node, module): self.name, self.node, self.module = name, node, module
    def __repr__(self): return 'class %s' % self.name
class FuncRef:
    def __init__(self, node, module, cls=None, closure=None, static=False):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = getattr(node, 'name', '<lambda>'); self.static = static; self.prop = False
    @property
    def qual(self): return (self.cls.name + '.' if self.cls else '') + self.name
    def __repr__(self): return 'func %s' % self.qual
class Bound:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class Builtin:
    def __init__(self, name, f): self.name, self.f = name, f
    def __repr__(self): return 'builtin %s' % self.name
class ModRef:
    def __init__(self, name): self.name = name
class TypeRef:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'type %s' % self.name
class Opaque:
    def __init__(self, name='opaque'): self.name = name
class Range:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step
    @property
    def n(self):
        c = [concrete(x) for x in (self.lo, self.hi, self.step)]
        if all(x is not None for x in c): return max(0, len(range(*c)))
        if c[2] == 1:
            d = s_sub(self.hi, self.lo) if c[0] != 0 else Zr(self.hi)
            return z3.If(d > 0, d, z3.IntVal(0)) if c[0] != 0 else z3.If(Zr(self.hi) > 0, Zr(self.hi), z3.IntVal(0))
        if c[2] == -1:
            d = z3.simplify(Zr(self.lo) - Zr(self.hi)); return z3.If(d > 0, d, z3.IntVal(0))
        raise Unsupported('range step')
    def at(self, i): 
        return simp(Zr(self.lo) + Zr(i)*Zr(self.step))

_uf = itertools.count()
def input_array(name, shape, dtype, fact=None):
    """arbitrary array input"""
    rs = {'int': IS, 'real': RS, 'bool': BS}[dtype]
    d = z3.Function(name, *([IS]*len(shape) + [rs])) if shape else None
    if fact is not None: add_fact(d, fact)
    a = NDArray(shape, lambda *i: d(*i), dtype)
    a.decl = d
    return a
def fresh_array(name, shape, dtype, fact=None):
    return input_array('%s!%d' % (name, next(_uf)), shape, dtype, fact)

def scalar_of(x):
    """0-d arrays to scalars"""
    if isinstance(x, NDArray) and x.ndim == 0: return x.at()
    return x
