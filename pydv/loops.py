"""Loops: unrolling of concrete ranges, exact summarisation of data-parallel loops, invariants from contracts."""
import ast, os, z3
from .core import *
from .values import *
from . import core, lib
from .nplib import is_num, DT
from .ring import linear_in, zero_quick

class Poison:
    def __init__(self, name): self.name = name

MAXUNROLL = 64

# ------------------------------------------------------------------ state save/restore
class State:
    """shallow content of everything reachable from an environment"""
    def __init__(self, env, extra=()):
        self.objs = {}; self.keep = []
        e = env
        while e is not None:
            self.add(e); e = e.parent
        for x in extra: self.add(x)
    def add(self, v):
        if id(v) in self.objs: return
        c = content(v)
        if c is None: return
        self.objs[id(v)] = (v, c)
        for x in children(v): self.add(x)
    def restore(self):
        for v, c in self.objs.values(): set_content(v, c)
    def changed(self):
        out = []
        for v, c in self.objs.values():
            if not same_content(content(v), c): out.append(v)
        return out

def content(v):
    from .interp import Env
    if isinstance(v, NDArray): return ('nd', v._fn, v._memo, v.dtype, list(v.views), v.stale, None if v.log is None else list(v.log))
    if isinstance(v, list): return ('list', list(v))
    if isinstance(v, dict): return ('dict', dict(v))
    if isinstance(v, SymList): return ('sl', v.n, v.elem, None if v.log is None else list(v.log))
    if isinstance(v, SymSet): return ('ss', v.arr)
    if isinstance(v, SymMap): return ('sm', v.has, v.val, None if v.log is None else list(v.log))
    if isinstance(v, Obj): return ('obj', dict(v.attrs))
    if isinstance(v, Env): return ('env', dict(v.vars))
    return None
def set_content(v, c):
    k = c[0]
    if k == 'nd': v._fn, v._memo, v.dtype, v.views, v.stale, v.log = c[1], c[2], c[3], list(c[4]), c[5], None if c[6] is None else list(c[6])
    elif k == 'list': v[:] = c[1]
    elif k == 'dict': v.clear(); v.update(c[1])
    elif k == 'sl': v.n, v.elem, v.log = c[1], c[2], None if c[3] is None else list(c[3])
    elif k == 'ss': v.arr = c[1]
    elif k == 'sm': v.has, v.val, v.log = c[1], c[2], None if c[3] is None else list(c[3])
    elif k == 'obj': v.attrs.clear(); v.attrs.update(c[1])
    elif k == 'env': v.vars.clear(); v.vars.update(c[1])
def same_content(a, b):
    k = a[0]
    if k == 'nd': return a[1] is b[1]
    if k == 'list': return len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))
    if k in ('dict', 'obj', 'env'): return a[1].keys() == b[1].keys() and all(same_val(a[1][q], b[1][q]) for q in a[1])
    if k == 'sl': return a[2] is b[2] and (a[1] is b[1] or same_val(a[1], b[1]))
    if k == 'ss': return a[1].eq(b[1])
    if k == 'sm': return a[1] is b[1] and a[2] is b[2]
def same_val(x, y):
    if x is y: return True
    if is_z(x) and is_z(y): return x.eq(y)
    if isinstance(x, (int, float, bool, str, Fraction)) and type(x) == type(y): return x == y
    return False
def children(v):
    from .interp import Env
    if isinstance(v, (list, tuple)): return list(v)
    if isinstance(v, dict): return list(v.values())
    if isinstance(v, Obj): return list(v.attrs.values())
    if isinstance(v, Env): return [x for x in v.vars.values()]
    if isinstance(v, NDArray): return ([v.isview] if v.isview is not None else [])
    return []
def _tuplewalk(v): pass

def replace_refs(env, old, new):
    st = State(env)
    for v, c in list(st.objs.values()):
        if isinstance(v, list):
            for i, x in enumerate(v):
                if x is old: v[i] = new
        elif isinstance(v, dict):
            for k in v:
                if v[k] is old: v[k] = new
        elif isinstance(v, Obj):
            for k in v.attrs:
                if v.attrs[k] is old: v.attrs[k] = new
        elif type(v).__name__ == 'Env':
            for k in v.vars:
                if v.vars[k] is old: v.vars[k] = new

# ------------------------------------------------------------------ for
def iter_view(I, v):
    """(n, elem) of an iterable of symbolic length"""
    if isinstance(v, SymSet): v = lib.set_to_list(I, v)
    if isinstance(v, NDArray):
        return v.shape[0], (lambda i: v.at(i)) if v.ndim == 1 else (lambda i: I.np.getitem(v, (i,)))       # the live array, as in numpy
    s = lib.as_symlist(I, v)
    return s.n, s.elem

def do_for(I, s, env):
    from .interp import _Brk, _Cont
    it = I.eval(s.iter, env)
    h = I.loop_specs.get(I.stack[-1]) if I.stack else None
    if h is not None:
        if h(I, s, env, it): return
    c = lib.iter_concrete(I, it) if not isinstance(it, SymSet) else None
    if c is not None and (len(c) <= MAXUNROLL):
        broke = False
        for x in c:
            I.assign(s.target, x, env)
            try: I.block(s.body, env)
            except _Brk: broke = True; break
            except _Cont: continue
        if not broke: I.block(s.orelse, env)
        return
    n, el = iter_view(I, it)
    bind = lambda i: I.assign(s.target, el(i), env)
    lz = lazy_lists(I, s, env)
    if lz:
        for x in lz: I.assign(x, [], env)
        if not I.branch(Zr(n) > 0):
            for x in lz: I.assign(x, None, env)
            I.block(s.orelse, env); return
    st = State(env); no = len(I.obls); ro = dict(I.raw_obls)
    try:
        try: summarise(I, s, env, n, bind, s.body)
        except DictPromote as e:
            if e.d or id(e.d) not in st.objs: raise Unsupported('symbolic key in a non-empty dict')
            st.restore(); del I.obls[no:]; I.raw_obls = dict(ro); replace_refs(env, e.d, empty_map()); st = State(env)
            summarise(I, s, env, n, bind, s.body)
    except DictPromote as e: raise Unsupported('several dicts with symbolic keys')
    except Unsupported as e:
        if os.environ.get('PYDV_LOOPS'): print('havoc: line', s.lineno, e)
        st.restore(); del I.obls[no:]; I.raw_obls = ro
        try: return havoc_loop(I, s, env, n, bind)
        except Unsupported as e2: raise Unsupported('%s; as an invariant loop: %s' % (e, e2))
    for x in lz:
        v = I.eval(x, env)
        if I.branch(Zr(v.n if isinstance(v, SymList) else len(v)) == 0): I.assign(x, None, env)
    I.block(s.orelse, env)

def lazy_lists(I, s, env):
    """targets X of `if X is None: X = []` / `X.append(..)` in the loop body, X being None before the loop and its base
    object not being mentioned anywhere else in the body: such a list starts empty and is None again if it stays empty"""
    out = []
    for st in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if not (isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Assign) and len(st.body[0].targets) == 1): continue
        t, a = st.test, st.body[0]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None): continue
        if not (isinstance(a.value, ast.List) and not a.value.elts): continue
        x = t.left; key = ast.unparse(x)
        if ast.unparse(a.targets[0]) != key or not isinstance(x, (ast.Name, ast.Subscript)): continue
        if isinstance(x, ast.Subscript) and not (isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Constant)): continue
        b = x.id if isinstance(x, ast.Name) else x.value.id
        names = sum(1 for y in ast.walk(ast.Module(body=s.body, type_ignores=[])) if isinstance(y, ast.Name) and y.id == b)
        def appends(stmts):
            n = 0
            for i, y in enumerate(stmts):
                if y is st and i + 1 < len(stmts):
                    z = stmts[i+1]
                    if isinstance(z, ast.Expr) and isinstance(z.value, ast.Call) and isinstance(z.value.func, ast.Attribute) and z.value.func.attr == 'append' and ast.unparse(z.value.func.value) == key: n += 1
                for f in ('body', 'orelse'): n += appends(getattr(y, f, []) if isinstance(getattr(y, f, []), list) else [])
            return n
        if names != 3 or appends(s.body) != 1: continue
        if env.get(b) is None if isinstance(x, ast.Name) else (isinstance(env.get(b), list) and I.eval(x, env) is None):
            q = ast.copy_location(ast.Name(id=x.id, ctx=ast.Store()) if isinstance(x, ast.Name) else ast.Subscript(value=x.value, slice=x.slice, ctx=ast.Store()), x)
            out.append(q)
    return out

def do_while(I, s, env):
    from .interp import _Brk, _Cont
    h = I.loop_specs.get(I.stack[-1]) if I.stack else None
    if h is not None:
        if h(I, s, env, None): return
    # concrete while
    for _ in range(MAXUNROLL):
        np0 = len(I.cx.pc)
        t = I.truth(I.eval(s.test, env))
        c = concrete(simp(t) if is_z(t) else t)
        if c is not None and c and len(I.cx.pc) > np0 and isinstance(s.test, ast.BoolOp): return havoc_loop(I, s, env)     # the test was decided by branching
        if c is None:
            if _ == 0:
                st = State(env); no = len(I.obls); ro = dict(I.raw_obls)
                try:
                    if while_as_for(I, s, env): return
                except Unsupported: pass
                st.restore(); del I.obls[no:]; I.raw_obls = ro
            return havoc_loop(I, s, env)
        if not c:
            I.block(s.orelse, env); return
        try: I.block(s.body, env)
        except _Brk: return
        except _Cont: continue
    raise Unsupported('while loop too long')

def while_as_for(I, s, env):
    """while v < N: ...; v += 1   ->  for v in range(v0, N)"""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)): return False
    v = t.left.id
    v0 = env.get(v)
    if not is_num(v0): return False
    incs = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v]
    if len(incs) != 1 or not isinstance(incs[0].op, ast.Add) or not (isinstance(incs[0].value, ast.Constant) and incs[0].value.value == 1): return False
    stores = [x for x in ast.walk(ast.Module(body=s.body, type_ignores=[])) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store)]
    if len(stores) != 1 or any(isinstance(x, ast.Continue) for x in ast.walk(ast.Module(body=s.body, type_ignores=[]))): return False
    N = I.eval(t.comparators[0], env)
    if not is_num(N): return False
    n = simp(Zr(N) - Zr(v0))
    if not I.entails(n >= 0): n = z3.If(n > 0, n, z3.IntVal(0))
    k = s.body.index(incs[0])
    st = State(env)
    def setv(i): env.vars[v] = simp(Zr(v0) + Zr(i))
    summarise(I, s, env, n, setv, s.body, driven={v}, check=lambda: I.entails(Zr(I.eval(t.comparators[0], env)) == Zr(N)))
    env.vars[v] = simp(Zr(v0) + n)
    return True

# ------------------------------------------------------------------ invariant loops
class Alt:
    """value of a loop-carried slot: one of several templates"""
    def __init__(self, xs): self.xs = xs

def _join(I, a, b):
    """template covering a and b, or None when they cannot be merged"""
    a, b = scalar_of(a), scalar_of(b)
    if same_val(a, b): return a
    if is_num(a) and is_num(b):
        ka, kb = DT(a), DT(b)
        if ka == kb: return _Scr(ka)
        if 'bool' in (ka, kb): return None
        return _Scr('real')
    if isinstance(a, _Scr) and is_num(b): return a if a.k == DT(b) else (None if 'bool' in (a.k, DT(b)) else _Scr('real'))
    if isinstance(b, _Scr): return _join(I, b, a) if not isinstance(a, _Scr) else (a if a.k == b.k else (None if 'bool' in (a.k, b.k) else _Scr('real')))
    if isinstance(a, (NDArray, _ScrA)) and isinstance(b, (NDArray, _ScrA)) and len(a.shape) == len(b.shape):
        da, db = a.dtype, b.dtype
        if da != db and 'bool' in (da, db): return None
        sh = tuple(x if x is not None and y is not None and I.np.same_dim(x, y) else None for x, y in zip(a.shape, b.shape))
        return _ScrA(sh, da if da == db else 'real')
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = [_join(I, x, y) for x, y in zip(a, b)]
        return None if any(x is None and not (p is None and q is None) for x, p, q in zip(r, a, b)) else tuple(r)
    return None
class _SSet: pass
class _Scr:
    def __init__(self, k): self.k = k
class _ScrA:
    def __init__(self, sh, dtype): self.shape, self.dtype = sh, dtype
def _inst(I, t):
    """arbitrary value of a template"""
    if isinstance(t, Alt):
        for x in t.xs[:-1]:
            if I.choose(): return _inst(I, x)
        return _inst(I, t.xs[-1])
    if isinstance(t, _Scr): return fresh('hv', t.k)
    if isinstance(t, _ScrA):
        sh = []
        for d in t.shape:
            if d is None: d = fresh('dim'); I.assume(d >= 0)
            sh.append(d)
        return fresh_array('hv', tuple(sh), t.dtype)
    if isinstance(t, _SSet): return SymSet(z3.Const('hset!%d' % next(core._fresh), z3.SetSort(IS)))
    if isinstance(t, tuple): return tuple(_inst(I, x) for x in t)
    return t
def _generic(I, v):
    """a template for a value that changes although it was joined from equal things"""
    v = scalar_of(v)
    if is_num(v): return _Scr(DT(v))
    if isinstance(v, NDArray): return _ScrA(v.shape, v.dtype)
    return v
def _merge(I, t, v):
    """-> template covering t and v; None = give up"""
    if isinstance(t, Alt):
        if isinstance(v, _SSet) and any(isinstance(x, _SSet) for x in t.xs): return t
        for i, x in enumerate(t.xs):
            j = _join(I, x, v) if not (x is None or v is None) else (x if x is None and v is None else None)
            if j is not None or (x is None and v is None): return Alt(t.xs[:i] + [j] + t.xs[i+1:])
        return Alt(t.xs + [v]) if len(t.xs) < 4 else None
    if t is v: return t
    if isinstance(t, _SSet) and isinstance(v, _SSet): return t
    if t is not None and v is not None:
        j = _join(I, t, v)
        if j is not None: return j
    return Alt([t, v])

def havoc_loop(I, s, env, n=None, bind=None, inv=None):
    """Hoare rule: everything the body may change is arbitrary (of the same type and shape, and satisfying the loop
    invariant inv(env) when the contract gives one) before an iteration and after the loop."""
    from .interp import _Brk, _Cont, _Ret, Ctx, PathEnd, PyRaise
    I.rng = getattr(I, 'rng', 0) + 1         # fresh symbols: no summary of an enclosing loop
    if len(I.cx.pc) and I.sat() == 'unsat': raise PathEnd()
    st0 = State(env)
    envs = [(v, c) for v, c in st0.objs.values()]
    slots = {}        # ('v', env, name) | ('a', obj, name) | ('c', arr)
    keep = []
    def scramble():
        for k, t in slots.items():
            if k[0] == 'c':
                v = t; d = fresh_array('hv', v.shape, v.dtype)
                v.set_fn(d._fn)
            elif k[0] == 's': t.arr = z3.Const('hset!%d' % next(core._fresh), z3.SetSort(IS))
            elif k[0] == 'l':
                sl, kind = t
                m = fresh('len'); I.assume(m >= 0)
                if isinstance(kind, _ScrA):
                    d = fresh_array('hv', (m,) + kind.shape, kind.dtype); sh = kind.shape
                    sl.n, sl.elem = m, (lambda i, d=d, sh=sh, dt=kind.dtype: NDArray(sh, lambda *j: d.at(i, *j), dt))
                else:
                    d = fresh_array('hv', (m,), kind)
                    sl.n, sl.elem = m, (lambda i, d=d: d.at(i))
            else:
                o, nm, tt = t
                tgt = o.attrs if isinstance(o, Obj) else o.vars
                if isinstance(tt, Poison): tgt[nm] = tt
                else: tgt[nm] = _inst(I, tt)
    def note(a, b):
        """compare state b (content map before the body) with the present contents"""
        new = False
        for i, (v, c) in b.objs.items():
            c2 = content(v)
            if same_content(c2, c): continue
            o0 = st0.objs.get(i)
            if isinstance(v, (Obj,)) or type(v).__name__ == 'Env':
                d1, d2 = c[1], c2[1]
                for nm in set(d1) | set(d2):
                    x, y = d1.get(nm, _M), d2.get(nm, _M)
                    if x is not _M and y is not _M and same_val(x, y): continue
                    if o0 is None: continue           # created inside the loop
                    if isinstance(y, SymSet) and id(y) not in st0.objs:      # a set made in the loop: any set
                        if sum(1 for w in d2.values() if w is y) > 1: raise Unsupported('two names for a set made in a loop')
                        y = _SSet()
                    k = ('v', id(v), nm)
                    init = o0[1][1].get(nm, _M)
                    if k in slots:
                        t = slots[k][2]
                        if isinstance(t, Poison): continue
                    elif init is _M: slots[k] = (v, nm, Poison(nm)); keep.append(v); new = True; continue
                    else: t = init
                    if y is _M: m = None
                    else: m = _merge(I, t, y)
                    if m is None and not (t is None and y is None): m = Poison(nm)
                    if not _same_t(m, t) or k not in slots:
                        if k not in slots and not isinstance(m, (Poison, Alt, _Scr, _ScrA, _SSet)): m = _generic(I, m)
                        slots[k] = (v, nm, m); new = True
            elif o0 is None: continue
            elif isinstance(v, NDArray):
                if v.isview is not None: raise Unsupported('loop writes through a view')
                if ('c', i) not in slots: slots[('c', i)] = v; new = True
            elif isinstance(v, SymSet):
                if ('s', i) not in slots: slots[('s', i)] = v; new = True
            elif isinstance(v, SymList):
                if ('l', i) not in slots:
                    kind = _lkind(I, v)
                    slots[('l', i)] = (v, kind); new = True
            elif isinstance(v, list):
                raise _Convert(v)
            else: raise Unsupported('loop modifies %s' % type(v).__name__)
        return new
    def run_discovery():
        new = False
        stack = [[]]; saved = I.cx; cnt = 0; bt = I.branch_timeout
        while stack:
            pre = stack.pop(); cnt += 1
            if cnt > 64: raise Unsupported('too many paths in loop body')
            st0.restore()
            I.cx = Ctx(pre, saved.pc, saved); I.branch_timeout = min(bt, 40)      # only collects what changes: infeasible paths do no harm
            try:
                try:
                    scramble()
                    b = State(env)
                    if bind is not None:
                        iv = fresh('it'); I.assume(z3.And(0 <= iv, iv < Zr(n))); bind(iv)
                        I.block(s.body, env)
                    else:
                        if not I.branch(I.truth(I.eval(s.test, env))): raise PathEnd()
                        I.block(s.body, env)
                except _Cont: pass
                except (_Brk, _Ret, PyRaise, PathEnd): b = None
                stack.extend(reversed(I.cx.alts))
                if b is not None and note(None, b): new = True
            finally: I.cx = saved; I.branch_timeout = bt
        return new
    no = len(I.obls); ro = dict(I.raw_obls); fe = getattr(I, 'first_exit', None)
    try:
        for _ in range(8):
            if not run_discovery(): break
        else: raise Unsupported('loop state does not stabilise')
    except _Convert as e:
        st0.restore(); del I.obls[no:]; I.raw_obls = ro
        v = e.args[0]
        if not all(is_num(x) for x in v): raise Unsupported('list mutated in loop')
        sl = lib.as_symlist(I, list(v)); sl = SymList(sl.n, sl.elem)
        replace_refs(env, v, sl)
        return havoc_loop(I, s, env, n, bind, inv)
    st0.restore(); del I.obls[no:]; I.raw_obls = ro
    if inv is not None:
        for nm, f in inv(env, z3.IntVal(0) if bind is not None else None): I.oblige('%s: loop invariant on entry: %s' % (I.stack[-1], nm), f, kind='inv')
    I.cx.weak = True
    scramble()
    def assume_inv(k):
        if inv is not None:
            for nm, f in inv(env, k): I.assume(f)
    if bind is not None:
        if I.choose():
            assume_inv(Zr(n)); I.block(s.orelse, env); return
        iv = fresh('it'); I.assume(z3.And(0 <= iv, iv < Zr(n)))
        assume_inv(iv); bind(iv)
    else:
        iv = None
        assume_inv(None)
        if not I.branch(I.truth(I.eval(s.test, env))): I.block(s.orelse, env); return
    try: I.block(s.body, env)
    except _Brk: return
    except _Cont: pass
    if inv is not None:
        for nm, f in inv(env, simp(iv + 1) if iv is not None else None): I.oblige('%s: loop invariant is kept: %s' % (I.stack[-1], nm), f, kind='inv')
    raise PathEnd()
class _Convert(Exception): pass
def _lkind(I, v):
    x = v.elem(z3.IntVal(0)) if not (isinstance(v.n, int) and v.n == 0) else z3.IntVal(0)
    if isinstance(x, NDArray) and x.ndim: return _ScrA(x.shape, x.dtype)
    if not is_num(scalar_of(x)): raise Unsupported('list of non-numbers changed in a loop')
    return DT(scalar_of(x))
def _same_t(a, b):
    if a is b: return True
    if isinstance(a, _SSet): return isinstance(b, _SSet)
    if isinstance(a, _Scr): return isinstance(b, _Scr) and a.k == b.k
    if isinstance(a, _ScrA): return isinstance(b, _ScrA) and a.dtype == b.dtype and all((x is None) == (y is None) for x, y in zip(a.shape, b.shape))
    if isinstance(a, Alt): return isinstance(b, Alt) and len(a.xs) == len(b.xs) and all(_same_t(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(_same_t(x, y) for x, y in zip(a, b))
    return same_val(a, b)
def use_inv(I, qual, inv, which=None):
    """register a loop invariant for the loops of a function: inv(env, k) -> [(name, formula)]"""
    def h(I_, s, env, it):
        if which is not None and not which(s): return False
        if isinstance(s, ast.While): havoc_loop(I, s, env, inv=inv)
        else:
            n, el = iter_view(I, it)
            havoc_loop(I, s, env, n, lambda i: I.assign(s.target, el(i), env), inv=inv)
        return True
    I.loop_specs[qual] = h

class Entry:
    __slots__ = ('kind', 'binders', 'cond', 'idx', 'val')
    def __init__(self, kind, binders, cond, idx, val): self.kind, self.binders, self.cond, self.idx, self.val = kind, binders, cond, idx, val

def raw_entry(I, a, e, probefree=None):
    """nplib log record -> Entry (binders and condition filled later)"""
    if isinstance(e, Entry): return e
    if e[0] in ('add', 'sub', 'set'):
        v = e[2]
        sg = -1 if e[0] == 'sub' else 1
        if e[0] == 'set' and probefree is not None and len(e) > 3 and e[3] is not None and is_num(v) and not is_sym_bool(v) and a.dtype != 'bool' and not probefree(Zr(v)):
            # a[i] = a[i] + d written out: an accumulation when d does not read what the loop writes
            d = z3.simplify(I.np.cast(v, a.dtype) - I.np.cast(e[3], a.dtype))
            if probefree(d): return Entry('add', [], z3.BoolVal(True), e[1], (lambda j, d=d: d))
        return Entry('add' if e[0] in ('add', 'sub') else 'set', [], z3.BoolVal(True), e[1], (lambda j, v=v, sg=sg: Zr(v) if sg == 1 else -Zr(v)))
    if e[0] == 'slice':
        items, val, op = e[1], e[2], e[3]
        idx = []
        for it in items:
            if it[0] == 'int': idx.append(it[2])
            elif it[2] == 0 and I.np.same_syn(it[3], a.shape[it[1]]): idx.append(None)
            else: idx.append(None)
        kind = 'add' if op in ('+', '-') else 'set'
        full = all(not (it[0] == 'slice') or (it[2] == 0 and I.np.same_syn(it[3], a.shape[it[1]])) for it in items)
        if kind == 'add' and not full: kind = 'setslice'
        vsh = tuple(it[3] for it in items if it[0] == 'slice')
        def vf(j):
            r = I.np.bget(val, vsh, tuple(j[it[1]] for it in items if it[0] == 'slice')) if isinstance(val, NDArray) else val
            return Zr(r) if op != '-' else -Zr(r)
        return Entry(kind, [], z3.BoolVal(True), tuple(idx), vf)
    return None

def summarise(I, s, env, n, bind, body, driven=(), check=None):
    from .interp import _Brk, _Cont, _Ret, Ctx, PathEnd, PyRaise
    if isinstance(n, int) and n == 0: return
    # n may be zero symbolically: handled by ranges below
    iv = z3.Int('i~%d' % next(core._fresh)); core._TMP.add(iv.get_id()); core._KEEP.append(iv)
    rng = [0 <= iv, iv < Zr(n)]
    if not I.branch(Zr(n) > 0):
        return
    st0 = State(env)
    targets0 = set(env.vars)

    def run_paths(prep):
        """explore the body; returns list of (cond, outcome, post-state reader result)"""
        res = []
        stack = [[]]
        saved = I.cx; cnt = 0
        while stack:
            pre = stack.pop(); cnt += 1
            if cnt > 64: raise Unsupported('too many paths in loop body')
            st0.restore()
            info = prep()
            I.cx = Ctx(pre, saved.pc + rng, saved)
            base = len(I.cx.pc)
            asm = getattr(I, 'rng', 0)
            I.iters.append(iv)
            try:
                bind(iv)
                try: I.block(body, env); o = 'norm'
                except _Cont: o = 'norm'
                except _Brk: o = 'break'
                except _Ret as r: o = ('ret', r.v)
                except PyRaise as e: o = ('raise', e)
                except PathEnd: o = 'end'
                if getattr(I, 'rng', 0) != asm: raise Unsupported('random draw inside a summarised loop')
                if check is not None and o == 'norm' and not check(): raise Unsupported('loop bound changes')
                pcs = I.cx.pc[base:]
                stack.extend(reversed(I.cx.alts))
                res.append((z3.And(*pcs) if pcs else z3.BoolVal(True), o, harvest(info)))
            finally:
                I.cx = saved; I.iters.pop()
        st0.restore()
        return res

    names_l = []
    def harvest(info):
        post = {}
        # env variables
        ev = {}
        e = env
        for k, v in env.vars.items(): ev[k] = v
        post['vars'] = ev
        objs = {}
        for i, (v, c) in st0.objs.items():
            c2 = content(v)
            objs[i] = c2
        post['objs'] = objs
        return post

    # ---- phase 1: what is modified (fixpoint with probes)
    modified = {}       # id -> obj
    varmod = set()
    probes = {}
    vprobes = {}
    sorts = {}
    rowloc = {}; no = len(I.obls); ro = dict(I.raw_obls); real = False
    for attempt in range(12):
        probes.clear(); vprobes.clear(); del I.obls[no:]; I.raw_obls = dict(ro)
        def prep():
            for i, v in modified.items():
                if isinstance(v, NDArray):
                    if i not in probes:
                        d = z3.Function('probe!%d' % next(core._fresh), *([IS]*v.ndim + [{'int': IS, 'real': RS, 'bool': BS}[v.dtype]]))
                        probes[i] = d
                    d = probes[i]; v._memo = {}; v.log = []
                    if i in rowloc:
                        # only written in row iv+off: that row still holds its value from before the loop
                        def rd(*a, d=d, v=v, c=rowloc[i][0], off=rowloc[i][1], f0=st0.objs[i][1][1]):
                            return I.np.cast(f0(*a), v.dtype) if simp(Zr(a[c]) - iv - off).eq(z3.IntVal(0)) else d(*a)
                        v._fn = rd
                    else: v._fn = (lambda *a, d=d: d(*a))
                elif isinstance(v, SymList):
                    if i not in probes: probes[i] = (z3.Int('plen!%d' % next(core._fresh)), z3.Function('pel!%d' % next(core._fresh), IS, IS))
                    p = probes[i]
                    v.n = p[0]
                    def bad(q, p=p): raise Unsupported('list under construction is read in the loop')
                    v.elem = bad; v.log = []
                elif isinstance(v, SymSet):
                    if i not in probes: probes[i] = z3.Const('pset!%d' % next(core._fresh), z3.SetSort(IS))
                    v.arr = probes[i]
                elif isinstance(v, Obj): pass
                elif isinstance(v, SymMap):
                    def badm(q): raise Unsupported('dict under construction is read in the loop')
                    v.has = v.val = badm; v.log = []
                else: raise Unsupported('loop modifies %r' % type(v).__name__)
            for k in varmod:
                if k in driven: continue
                if k[0] == 'v':
                    nm = k[1]
                    if nm not in st_vars0: env.vars.pop(nm, None); continue
                    env.vars[nm] = mkprobe(k, st_vars0[nm])
                else:
                    o = k[1]; a0 = dict(content_attrs[id(o)])
                    o.attrs[k[2]] = mkprobe(k, a0.get(k[2]))
        def mkprobe(k, init):
            init = scalar_of(init)
            if is_num(init):
                if k not in vprobes:
                    so = sorts.get(k) or DT(init)
                    vprobes[k] = fresh('pv', so)
                return vprobes[k]
            return Poison(str(k))
        st_vars0 = {}
        for v, c in st0.objs.values():
            if v is env: st_vars0 = c[1]
        content_attrs = {id(v): c[1] for v, c in st0.objs.values() if isinstance(v, Obj)}
        # convert concrete lists that are appended to
        if not real: I.dry += 1         # finds out what the body changes; obligations come with the last pass
        try: paths = run_paths(prep)
        finally:
            if not real: I.dry -= 1
        newm = False
        for cond, o, post in paths:
            for i, (v, c) in st0.objs.items():
                c2 = post['objs'][i]
                if type(v).__name__ == 'Env':
                    for nm in set(c[1]) | set(c2[1]):
                        if v is env:
                            if nm in driven: continue
                            a, b = c[1].get(nm, _M), c2[1].get(nm, _M)
                            if isinstance(a, list) and isinstance(b, SymList) and all(is_num(x) or isinstance(x, (tuple, NDArray, list)) for x in a):
                                # an inner loop makes it a symbolic list: it is one from the start
                                st0.restore(); sl = lib.as_symlist(I, list(a)); replace_refs(env, a, SymList(sl.n, sl.elem))
                                return summarise(I, s, env, n, bind, body, driven, check)
                            cur = vprobes.get(('v', nm))
                            if ('v', nm) in varmod: continue
                            if a is _M or b is _M or not same_val(a, b):
                                varmod.add(('v', nm)); newm = True
                        elif not same_val(c[1].get(nm, _M), c2[1].get(nm, _M)):
                            raise Unsupported('loop modifies enclosing scope')
                elif isinstance(v, Obj):
                    for nm in set(c[1]) | set(c2[1]):
                        if ('a', v, nm) in varmod: continue
                        a, b = c[1].get(nm, _M), c2[1].get(nm, _M)
                        if a is _M or b is _M or not same_val(a, b):
                            varmod.add(('a', v, nm)); newm = True
                else:
                    if i in modified: continue
                    if not same_content(c2, c):
                        if isinstance(v, list):
                            # becomes a symbolic list
                            st0.restore()
                            sl = lib.as_symlist(I, list(v)); sl = SymList(sl.n, sl.elem)
                            if not all(is_num(x) or isinstance(x, (tuple, NDArray, list)) for x in v): raise Unsupported('list mutated in loop')
                            replace_refs(env, v, sl)
                            return summarise(I, s, env, n, bind, body, driven, check)
                        if isinstance(v, dict):
                            st0.restore()
                            if v: raise Unsupported('nonempty dict mutated in loop')
                            replace_refs(env, v, empty_map())
                            return summarise(I, s, env, n, bind, body, driven, check)
                        modified[i] = v; newm = True
        # sort promotion
        for k, p in list(vprobes.items()):
            for cond, o, post in paths:
                r = post['vars'].get(k[1]) if k[0] == 'v' else None
                r = scalar_of(r)
                if is_sym_num(r) and r.sort() == RS and p.sort() == IS and sorts.get(k) != 'real':
                    sorts[k] = 'real'; newm = True
        if not newm:
            for i, v in modified.items():
                if i in rowloc or not isinstance(v, NDArray): continue
                es = [raw_entry(I, v, e) for p in paths if p[1] == 'norm' for e in (p[2]['objs'][i][6] or [])]
                if not es or any(e is None for e in es): continue
                for c in range(v.ndim):
                    offs = [simp(Zr(e.idx[c]) - iv) if e.idx[c] is not None else None for e in es]
                    if all(d is not None and d.eq(offs[0]) and iv.get_id() not in free_consts(d) and not any(x.get_id() in {q.get_id() for q in vprobes.values()} or z3.is_app(x) and x.decl().name().startswith('probe!') for x in walk([d])) for d in offs):
                        rowloc[i] = (c, offs[0]); newm = True; break
        if not newm:
            if real or I.dry: break
            real = True
        else: real = False
    else:
        raise Unsupported('loop state does not stabilise')

    exits = [p for p in paths if p[1] not in ('norm', 'end')]
    norm = [p for p in paths if p[1] == 'norm']
    allprobes = set()
    pdecs = {}
    for i, p in probes.items():
        if isinstance(p, z3.FuncDeclRef): pdecs[p.name()] = i
        elif isinstance(p, tuple): allprobes.add(p[0].get_id())
        else: allprobes.add(p.get_id())
    for p in vprobes.values(): allprobes.add(p.get_id())
    core._KEEP.append((list(probes.values()), list(vprobes.values())))       # their ids stay theirs
    def probefree(t, allow_dec=()):
        for x in walk_deep([t]):
            if z3.is_const(x):
                if x.get_id() in allprobes: return False
            elif z3.is_app(x) and x.decl().name() in pdecs and x.decl().name() not in allow_dec: return False
        return True
    loc = [(probes[i], c, off, st0.objs[i][1][1], modified[i]) for i, (c, off) in rowloc.items()]
    for i, (c, off) in rowloc.items():
        for p in norm:
            for e in p[2]['objs'][i][6] or []:
                e = raw_entry(I, modified[i], e)
                if e is None or e.idx[c] is None or not simp(Zr(e.idx[c]) - iv).eq(off) or not probefree(off): raise Unsupported('array update not summarisable')
    def resolve(t):
        for pd, c, off, f0, v in loc:
            def rep(*a, pd=pd, c=c, off=off, f0=f0, v=v):
                return I.np.cast(f0(*a), v.dtype) if simp(a[c] - iv - off).eq(z3.IntVal(0)) else pd(*a)
            t = subst_fn(t, pd, rep)
        return t
    if loc: paths = [(simp(resolve(Zb(c))) if not probefree(Zb(c)) else c, o, post) for c, o, post in paths]
    norm = [p for p in paths if p[1] == 'norm']; exits = [p for p in paths if p[1] not in ('norm', 'end')]
    def deltas_of(k):
        """[(condition, increment)] of a loop-carried variable that is only added to; None if it is not"""
        p = vprobes.get(k)
        if p is None or not norm: return None
        nm = k[1] if k[0] == 'v' else k[2]
        rs = [scalar_of(post['vars'].get(nm, _M) if k[0] == 'v' else post['objs'][id(k[1])][1].get(nm, _M)) for cond, o, post in norm]
        if not all(is_num(r) for r in rs): return None
        out = []
        for (cond, o, post), r in zip(norm, rs):
            r = resolve(Zr(r))
            if r.sort() != p.sort() and p.sort() == RS: r = Zreal(r)
            if r.sort() == BS or z3.is_bool(p) or r.sort() != p.sort(): return None
            a, b, q = linear_in(r, p)
            if not zero_quick(q)[0] or not zero_quick(a - 1)[0] or not probefree(_z(b)): return None
            out.append((cond, z3.simplify(b)))
        return out
    def total(k, deltas, upto):
        init = st_vars0[k[1]] if k[0] == 'v' else content_attrs[id(k[1])][k[2]]
        def body_f(kk):
            t = z3.RealVal(0) if deltas[0][1].sort() == RS else z3.IntVal(0)
            for c, d in reversed(deltas): t = s_ite(simp(c), d, t)
            return subst(Zr(t), [(iv, Zr(kk))])
        return s_add(scalar_of(init), mk_sum(upto, body_f))
    accs = {}
    if not exits:
        for k in vprobes:
            d = deltas_of(k)
            if d is not None and all(probefree(c) for c, x in d): accs[k] = d
    pref = {}
    def reached(t):
        """t with running totals written out as sums over the iterations before this one"""
        t = resolve(t)
        if probefree(t): return t
        for k in accs:
            if k not in pref: pref[k] = (vprobes[k], Zr(total(k, accs[k], iv)))
        return subst(t, [(p, Zreal(x) if p.sort() == RS else x) for p, x in pref.values()])
    if accs: paths = [(simp(reached(Zb(c))) if not probefree(Zb(c)) else c, o, post) for c, o, post in paths]; norm = [p for p in paths if p[1] == 'norm']
    for cond, o, post in paths:
        if not probefree(cond): 
            raise Unsupported('loop control depends on loop-carried state (line %d)' % s.lineno)
    ats = lambda t, k: subst(Zr(t) if not z3.is_bool(t) else t, [(iv, Zr(k))])

    if exits:
        # early exit: supported when the body changes nothing on the way
        if modified or any(k[0] == 'a' or k[1] in st_vars0 for k in varmod):
            live = [k for k in varmod if k[0] == 'a' or (k[1] in st_vars0)]
            tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if hasattr(s, 'target') else set()
            if modified or [k for k in live if k[0] == 'a' or k[1] not in tgt]:
                raise Unsupported('early exit from a loop that changes state (line %d)' % s.lineno)
        ec = simp(z3.Or(*[p[0] for p in exits]))
        k = fresh('first')
        if I.choose():
            j = z3.Int('q!j%d' % next(core._fresh))
            I.assume(z3.And(0 <= k, k < Zr(n), ats(ec, k)))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(ats(ec, j)))))
            if I.sat() == 'unsat': raise PathEnd()
            I.first_exit = k
            bind(k)
            I.block(body, env)        # re-executes on the exiting iteration (may raise Break/Return/exception)
            raise PathEnd()
        else:
            j = z3.Int('q!j%d' % next(core._fresh))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Zr(n)), z3.Not(ats(ec, j)))))
            if I.sat() == 'unsat': raise PathEnd()
            if norm: bind(simp(Zr(n) - 1))
            return
    if not norm: raise PathEnd()

    def reach_val(v):
        v = scalar_of(v)
        if is_z(v): return v if probefree(v) else reached(v)
        if isinstance(v, (tuple, list)): return type(v)(reach_val(x) for x in v)
        return v
    # ---- effects
    finals = []; manylog = []
    Zn = Zr(n)
    for k in varmod:
        nm = k[1] if k[0] == 'v' else k[2]
        isnew = k[0] == 'v' and nm not in st_vars0
        rs = []
        for cond, o, post in norm:
            if k[0] == 'v': rs.append(post['vars'].get(nm, _M))
            else: rs.append(post['objs'][id(k[1])][1].get(nm, _M))
        p = vprobes.get(k)
        tgt = (env.vars, nm) if k[0] == 'v' else (k[1].attrs, nm)
        done = False
        if k in accs or p is not None and exits:
            deltas = accs.get(k) or deltas_of(k)
            if deltas is not None: finals.append((tgt, total(k, deltas, n))); done = True
        if not done:
            # last value
            vals = []
            ok = True
            for (cond, o, post), r in zip(norm, rs):
                if r is _M or isinstance(r, Poison): ok = False; break
                if is_num(scalar_of(r)):
                    if not probefree(Zr(scalar_of(r))): r = reached(Zr(scalar_of(r)))
                    if not probefree(Zr(scalar_of(r))): ok = False; break
                    vals.append((cond, r))
                else: ok = False; break
            if ok and (vals):
                t = vals[-1][1]
                for c, r in reversed(vals[:-1]): t = s_ite(c, r, t)
                t = Zr(t) if not isinstance(t, (bool,)) else t
                finals.append((tgt, ats(t, simp(Zn - 1)) if is_z(t) else t))
            else:
                finals.append((tgt, Poison(nm)))
    objfin = []
    for i, v in modified.items():
        if isinstance(v, NDArray):
            ents = []
            bodyfns = []
            for cond, o, post in norm:
                c2 = post['objs'][i]
                lg = c2[6] or []
                for e in lg:
                    e2 = raw_entry(I, v, e, probefree)
                    if e2 is None: raise Unsupported('array update not summarisable (line %d)' % s.lineno)
                    e3 = Entry(e2.kind, e2.binders, z3.And(cond, e2.cond), e2.idx, e2.val); ents.append(e3)
                bodyfns.append((cond, c2[1]))
            init = None
            for vv, c in st0.objs.values():
                if vv is v: init = c
            init_fn = init[1]
            pd = probes[i]
            # row-local?
            rowc = None
            for c in range(v.ndim):
                offs = None; ok = bool(ents)
                for e in ents:
                    if e.idx[c] is None: ok = False; break
                    d = simp(Zr(e.idx[c]) - iv)
                    if iv.get_id() in free_consts(d) or not probefree(d): ok = False; break
                    if offs is None: offs = d
                    elif not offs.eq(d): ok = False; break
                if ok: rowc = (c, offs); break
            if rowc is not None:
                c, off = rowc
                def fn(*j, c=c, off=off, bodyfns=bodyfns, init_fn=init_fn, pd=pd, v=v):
                    it = simp(Zr(j[c]) - off)
                    t0 = I.np.cast(init_fn(*j), v.dtype)
                    t = t0
                    for cond, bf in reversed(bodyfns):
                        b = I.np.cast(bf(*j), v.dtype); b = ats(b if probefree(b) else reached(b) if accs else b, it)
                        t = s_ite(ats(cond, it), b, t)
                    t = Zr(t) if v.dtype != 'bool' else t
                    def rep(*a):
                        if not simp(a[c] - Zr(j[c])).eq(z3.IntVal(0)): raise Unsupported('loop reads another row of an array under construction')
                        return I.np.cast(init_fn(*a), v.dtype)
                    t = subst_fn(t, pd, rep)
                    if not probefree(t): raise Unsupported('loop-carried dependency through an array')
                    g = simp(z3.And(0 <= it, it < Zn))
                    return s_ite(g, t, t0)
                log = [Entry(e.kind, e.binders + [(n, iv)], e.cond, tuple(None if q == c else (x if x is None or iv.get_id() not in free_consts(Zr(x)) else None) for q, x in enumerate(e.idx)), e.val) for e in ents]
                for e in log:
                    if e.kind == 'add': e.kind = 'setslice'
                objfin.append((v, 'nd', fn, log))
            elif ents and all(e.kind == 'add' for e in ents):
                for e in ents:
                    for x in e.idx:
                        if x is not None and not probefree(Zr(x)): raise Unsupported('loop-carried index')
                def fn(*j, ents=ents, init_fn=init_fn, v=v):
                    t = I.np.cast(init_fn(*j), v.dtype)
                    return s_add(t, _addsum(I, ents, j, n, iv, probefree))
                log = [Entry('add', e.binders + [(n, iv)], e.cond, e.idx, e.val) for e in ents]
                objfin.append((v, 'nd', fn, log))
            else:
                raise Unsupported('array update pattern (line %d)' % s.lineno)
        elif isinstance(v, SymList):
            init = [c for vv, c in st0.objs.values() if vv is v][0]
            n0, el0 = init[1], init[2]
            cases = []; many = False
            for cond, o, post in norm:
                lg = post['objs'][i][3] or []
                if any(e[0] == 'appendmany' for e in lg) and all(e[0] in ('append', 'appendmany') for e in lg) and len(lg) == 1:
                    many = True; cases.append((cond, lg)); continue
                if any(e[0] != 'append' for e in lg): raise Unsupported('list update pattern %s' % [e[0] for e in lg])
                cases.append((cond, [reach_val(e[1]) for e in lg]))
            if many:
                cases = [(c, xs if not xs or isinstance(xs[0], tuple) and xs[0] and xs[0][0] == 'appendmany' else None) for c, xs in cases]
                if any(xs is None for c, xs in cases): raise Unsupported('list update pattern')
                N, el = _flatten(I, n, iv, cases, ats)
                objfin.append((v, 'sl', simp(Zr(n0) + N), (lambda j, n0=n0, el0=el0, f=el: f(Zr(j)) if concrete(n0) == 0 else lib.val_ite(I, simp(Zr(j) < Zr(n0)), lambda: el0(j), lambda: f(simp(Zr(j) - Zr(n0)))))))
                if v.log is not None: manylog.append((v, N, el))
                continue
            cnts = {len(c[1]) for c in cases}
            def elem_at(it, q=0, cases=cases):
                """value appended (q-th) in iteration it"""
                cs = [(c, xs[q]) for c, xs in cases if len(xs) > q]
                t = subval(I, cs[-1][1], iv, it)
                for c, x in reversed(cs[:-1]):
                    t = lib.val_ite(I, ats(c, it), lambda x=x: subval(I, x, iv, it), lambda t=t: t)
                return t
            if cnts == {1}:
                objfin.append((v, 'sl', simp(Zr(n0) + Zn), (lambda j, n0=n0, el0=el0, f=elem_at: f(Zr(j)) if concrete(n0) == 0 else lib.val_ite(I, simp(Zr(j) < Zr(n0)), lambda: el0(j), lambda: f(simp(Zr(j) - Zr(n0)))))))
                if v.log is not None: manylog.append((v, Zn, elem_at))
            elif cnts == {0, 1}:
                mc = simp(z3.Or(*[c for c, xs in cases if xs]))
                m = NDArray((n,), lambda k: ats(mc, k), 'bool')
                ix = I.np.mask_idx(m, n)
                objfin.append((v, 'sl', simp(Zr(n0) + Zr(ix.shape[0])), (lambda j, n0=n0, el0=el0, f=elem_at, ix=ix: f(ix.at(Zr(j))) if concrete(n0) == 0 else lib.val_ite(I, simp(Zr(j) < Zr(n0)), lambda: el0(j), lambda: f(ix.at(simp(Zr(j) - Zr(n0))))))))
                v.filt = ix
                if v.log is not None: manylog.append((v, Zr(ix.shape[0]), lambda j, f=elem_at, ix=ix: f(ix.at(Zr(j)))))
            else: raise Unsupported('several appends per iteration')
        elif isinstance(v, SymSet):
            init = [c for vv, c in st0.objs.values() if vv is v][0][1]
            adds = []
            for cond, o, post in norm:
                t = post['objs'][i][1]
                while not t.eq(probes[i]):
                    if z3.is_app_of(t, z3.Z3_OP_STORE) and z3.is_true(simp(t.arg(2))):
                        adds.append((cond, t.arg(1))); t = t.arg(0)
                    else: raise Unsupported('set update pattern')
            ns = z3.Const('set!%d' % next(core._fresh), z3.SetSort(IS))
            k = z3.Int('q!s'); j = z3.Int('q!j'); w = z3.Function('wit!%d' % next(core._fresh), IS, IS)
            add_def(ns, z3.ForAll([k], z3.Implies(z3.Select(init, k), z3.Select(ns, k))))
            for c, x in adds:
                if not probefree(Zr(x)): raise Unsupported('loop-carried set element')
                add_def(ns, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Zn, ats(c, j)), z3.Select(ns, ats(x, j)))))
            add_def(ns, z3.ForAll([k], z3.Implies(z3.Select(ns, k), z3.Or(z3.Select(init, k), z3.And(0 <= w(k), w(k) < Zn, z3.Or(*[z3.And(ats(c, w(k)), ats(x, w(k)) == k) for c, x in adds])))), patterns=[z3.Select(ns, k)]))
            objfin.append((v, 'ss', ns, None))
        elif isinstance(v, SymMap):
            # entries key(i) -> val(i), the last write of a key wins
            init_has, init_val = [c for vv, c in st0.objs.values() if vv is v][0][1:3]
            cs = []
            for cond, o, post in norm:
                lg = post['objs'][i][3] or []
                if len(lg) > 1: raise Unsupported('several dict entries per iteration')
                for kk, x in lg:
                    if not probefree(Zr(kk)): raise Unsupported('loop-carried dict key')
                    cs.append((cond, kk, x))
            objfin.append((v, 'sm') + mk_map(I, n, iv, cs, init_has, init_val))
        elif isinstance(v, Obj): pass
    st0.restore()
    for (d, nm), val in finals:
        d[nm] = val
    for v, kind, a, b in objfin:
        if kind == 'nd':
            if v.isview is not None: raise Unsupported('loop writes through a view')
            v.set_fn(a)
            if v.log is not None: v.log.extend(b)
        elif kind == 'sl': v.n, v.elem = a, b
        elif kind == 'ss': v.arr = a
        elif kind == 'sm': v.has, v.val = a, b
    for v, c, f in manylog:
        if v.log is not None: v.log.append(('appendmany', c, f))
    if hasattr(s, 'target'): bind(simp(Zn - 1))

def _flatten(I, n, iv, cases, ats):
    """a list to which iteration i appends m(i) values: position k holds value off(k) of iteration it(k), in order"""
    Zn = Zr(n); u = next(core._fresh)
    it, off = z3.Function('iter!%d' % u, IS, IS), z3.Function('off!%d' % u, IS, IS); pos = z3.Function('pos!%d' % u, IS, IS, IS)
    def m(i):
        t = z3.IntVal(0)
        for c, xs in cases:
            if xs: t = s_ite(simp(z3.And(ats(c, i), ats(Zr(xs[0][1]), i) > 0)), ats(Zr(xs[0][1]), i), t)
        return t
    N = fresh('cnt'); k, l, i, o = z3.Ints('q!k q!l q!i q!o'); A = lambda *x: z3.And(*x)
    mk = z3.simplify(m(it(k)))
    add_def(N, N >= 0)
    add_def(N, z3.ForAll([k], z3.Implies(A(0 <= k, k < N), A(0 <= it(k), it(k) < Zn, 0 <= off(k), off(k) < mk, pos(it(k), off(k)) == k)), patterns=[it(k)]))
    add_def(N, z3.ForAll([k], z3.Implies(A(0 <= k, k < N), A(0 <= it(k), it(k) < Zn, 0 <= off(k), off(k) < mk, pos(it(k), off(k)) == k)), patterns=[off(k)]))
    add_def(N, z3.ForAll([i, o], z3.Implies(A(core.TOUCH(i), core.TOUCH(o), 0 <= i, i < Zn, 0 <= o, o < z3.simplify(m(i))), A(0 <= pos(i, o), pos(i, o) < N, it(pos(i, o)) == i, off(pos(i, o)) == o)), patterns=[z3.MultiPattern(core.TOUCH(i), core.TOUCH(o))]))
    add_def(N, z3.ForAll([k, l], z3.Implies(A(0 <= k, k < l, l < N), z3.Or(it(k) < it(l), A(it(k) == it(l), off(k) < off(l)))), patterns=[z3.MultiPattern(it(k), it(l))]))
    cs = [(c, xs[0][2]) for c, xs in cases if xs]
    def el(j):
        a, b = it(Zr(j)), off(Zr(j))
        t = subval(I, cs[-1][1](b), iv, a)
        for c, f in reversed(cs[:-1]):
            t = lib.val_ite(I, ats(c, a), lambda f=f: subval(I, f(b), iv, a), lambda t=t: t)
        return t
    return N, el

def mk_map(I, n, iv, cs, init_has=None, init_val=None):
    """(has, val) of the mapping to which iteration i adds key(i) -> val(i) when cond(i)"""
    Zn = Zr(n); u = next(core._fresh); H, W = z3.Function('has!%d' % u, IS, BS), z3.Function('last!%d' % u, IS, IS)
    j, k = z3.Ints('q!j q!k'); ats = lambda t, k: subst(Zr(t) if not z3.is_bool(t) else t, [(iv, Zr(k))])
    for c, kk, x in cs:
        c1, k1 = ats(simp(Zb(c)), j), ats(kk, j)
        pat = [k1] if not z3.is_var(k1) and z3.is_app(k1) and k1.num_args() and k1.decl().kind() == z3.Z3_OP_UNINTERPRETED else [H(j)] if k1.eq(j) else []
        ax = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Zn, c1), z3.And(H(k1), W(k1) >= j)), **({'patterns': pat} if pat else {}))
        core.add_fdef(H, ax); core.add_fdef(W, ax)
    w = W(k)
    ax = z3.ForAll([k], z3.Implies(H(k), z3.And(0 <= w, w < Zn, z3.Or(*[z3.And(ats(simp(Zb(c)), w), ats(kk, w) == k) for c, kk, x in cs]))), patterns=[H(k)])
    core.add_fdef(H, ax); core.add_fdef(W, ax)
    def value(k):
        it = W(Zr(k)); t = subval(I, cs[-1][2], iv, it)
        for c, kk, x in reversed(cs[:-1]):
            t = lib.val_ite(I, z3.And(ats(c, it), ats(kk, it) == Zr(k)), lambda x=x: subval(I, x, iv, it), lambda t=t: t)
        return t
    if init_has is None or not cs: return ((lambda k: H(Zr(k))), value) if cs else (init_has, init_val)
    empty = z3.is_false(simp(Zb(init_has(k))))
    if empty: return (lambda k: H(Zr(k))), value
    return (lambda k: z3.Or(H(Zr(k)), Zb(init_has(k)))), (lambda k: lib.val_ite(I, H(Zr(k)), lambda: value(k), lambda: init_val(k)))

class DictPromote(Exception):
    def __init__(self, d): self.d = d
def empty_map():
    def nov(x): raise Unsupported('empty map read')
    return SymMap(lambda x: z3.BoolVal(False), nov)
def _z(t): return t if is_z(t) else Zr(t)
_M = object()
def walk_deep(ts):
    out = []
    st = list(ts); seen = set()
    while st:
        t = st.pop()
        for x in walk([t]):
            if x.get_id() in seen: continue
            seen.add(x.get_id()); out.append(x)
            nd = core._NODES.get(x.get_id()) if z3.is_const(x) else None
            if nd is not None: st.append(nd.body); st.append(nd.n)
    return out

def _addsum(I, ents, j, n, iv, probefree):
    def outer(kk):
        tot = 0
        for e in ents:
            v = Zr(e.val(j))
            if not probefree(v): raise Unsupported('loop-carried value')
            c = [e.cond] + [Zr(x) == Zr(j[q]) for q, x in enumerate(e.idx) if x is not None]
            c = simp(z3.And(*c))
            t = s_ite(c, v, z3.RealVal(0) if v.sort() == RS else z3.IntVal(0))
            t = Zr(t)
            for bn, b in e.binders:
                t0 = t
                t = mk_sum(bn, lambda q, t0=t0, b=b: subst(t0, [(b, Zr(q))]))
            tot = s_add(tot, t)
        return subst(Zr(tot), [(iv, Zr(kk))])
    return mk_sum(n, outer)

def subval(I, v, var, k):
    """value v with the loop variable replaced"""
    v = scalar_of(v)
    if is_z(v): return subst(v, [(var, Zr(k))])
    if isinstance(v, (tuple, list)): return type(v)(subval(I, x, var, k) for x in v)
    if isinstance(v, NDArray):
        s = v.snapshot()
        return NDArray(tuple(subst(d, [(var, Zr(k))]) if is_z(d) else d for d in v.shape), lambda *i: subst(Zr(s.at(*i)) if s.dtype != 'bool' else s.at(*i), [(var, Zr(k))]), v.dtype)
    if isinstance(v, SymList):
        return SymList(subst(v.n, [(var, Zr(k))]) if is_z(v.n) else v.n, lambda i: subval(I, v.elem(i), var, k))
    return v

# ------------------------------------------------------------------ comprehensions
def comp(I, e, env):
    from .interp import Env
    if len(e.generators) == 1:
        return comp1(I, e.generators[0], env, lambda en: I.eval(e.elt, en))
    # nested generators with concrete iterables
    out = []
    def rec(gs, en):
        if not gs: out.append(I.eval(e.elt, en)); return
        g = gs[0]
        c = lib.iter_concrete(I, I.eval(g.iter, en))
        if c is None: raise Unsupported('nested symbolic comprehension')
        for x in c:
            e2 = Env(en, env.module); e2.func = env.func
            I.assign(g.target, x, e2)
            if all(I.branch(I.truth(I.eval(f, e2))) for f in g.ifs): rec(gs[1:], e2)
    rec(e.generators, env)
    return out

def comp1(I, g, env, elt):
    from .interp import Env
    it = I.eval(g.iter, env)
    c = lib.iter_concrete(I, it) if not isinstance(it, SymSet) else None
    if c is not None and len(c) <= MAXUNROLL:
        out = []
        for x in c:
            en = Env(env, env.module); en.func = env.func
            I.assign(g.target, x, en)
            if all(I.branch(I.truth(I.eval(f, en))) for f in g.ifs): out.append(elt(en))
        return out
    n, el = iter_view(I, it)
    # summarise as an appending loop
    res = SymList(0, lambda i: (_ for _ in ()).throw(Unsupported('empty')))
    en = Env(env, env.module); en.func = env.func
    en.vars['$out'] = res
    class S: lineno = getattr(g.iter, 'lineno', 0)
    stub = _CompBody(I, g, en, elt, res)
    s = S(); s.target = g.target
    summarise_call(I, s, en, n, lambda i: I.assign(g.target, el(i), en), stub)
    return res

class _CompBody(ast.stmt):
    pass
def _mk(I, g, en, elt, res):
    pass
class _CompBody:
    lineno = 0
    def __init__(self, I, g, en, elt, res): self.a = (I, g, en, elt, res)
    def run(self):
        I, g, en, elt, res = self.a
        for f in g.ifs:
            if not I.branch(I.truth(I.eval(f, en))): return
        I.call(lib.val_attr(I, en.vars['$out'], 'append'), [elt(en)], {})
def summarise_call(I, s, en, n, bind, stub):
    # a body is a list of statements; provide a pseudo statement executed by Interp.stmt
    summarise(I, s, en, n, bind, [stub])

def dictcomp(I, e, env):
    from .interp import Env
    g = e.generators[0]
    c = lib.iter_concrete(I, I.eval(g.iter, env))
    if c is None or len(e.generators) != 1: raise Unsupported('dict comprehension')
    out = {}
    for x in c:
        en = Env(env, env.module); en.func = env.func
        I.assign(g.target, x, en)
        if all(I.branch(I.truth(I.eval(f, en))) for f in g.ifs): out[I.hashable(I.eval(e.key, en))] = I.eval(e.value, en)
    return out
