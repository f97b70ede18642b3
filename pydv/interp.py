"""Symbolic executor over the real Python AST of /repo/src/lop (re-read on every run)."""
import ast, os, z3, time, itertools, builtins as _b
from .core import *
from .values import *
from . import core, nplib, num
from .nplib import is_num, DT

SRC = os.environ.get('PYDV_SRC', '/repo/src')

class PathEnd(Exception): pass
class PyRaise(Exception):
    def __init__(self, name, msg=''): self.name, self.msg = name, msg; super().__init__(name + ': ' + str(msg))
class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass

# ------------------------------------------------------------------ program
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.defs = {}; self.imports = {}; self.stars = []; self.assigns = {}; self.cache = {}
        self._scan(self.tree.body)
    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): self.defs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names: self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ''
                if s.level:
                    base = self.name.split('.')
                    if not self.path.endswith('__init__.py'): base = base[:-1]
                    base = base[:len(base)-(s.level-1)]
                    m = '.'.join(base + ([m] if m else []))
                for a in s.names:
                    if a.name == '*': self.stars.append(m)
                    else: self.imports[a.asname or a.name] = ('from', m, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): self.assigns[t.id] = s.value
            elif isinstance(s, ast.Try): self._scan(s.body)
            elif isinstance(s, ast.If):
                self._scan(s.body)

class Program:
    def __init__(self, root=None):
        self.root = root or SRC
        self.mods = {}
        self.used = set()
    def module(self, name):
        if name in self.mods: return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        f = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(f): return None
        m = Module(name, f)
        self.mods[name] = m
        return m

# ------------------------------------------------------------------ context (one path)
class Ctx:
    def __init__(self, decisions=(), pc=(), parent=None):
        self.decisions = list(decisions); self.pos = 0
        self.pc = list(pc); self.alts = []; self.parent = parent
        self.base = len(self.pc)
        self.weak = parent.weak if parent is not None else False    # an invariant abstraction was used on this path

class Obligation:
    def __init__(self, name, kind, status, info=None, backend='z3'):
        self.name, self.kind, self.status, self.info, self.backend = name, kind, status, info, backend

MAXPATHS = 400

def _plain(e, env):
    """evaluating e cannot fail in a way that matters, branch or change anything"""
    P = lambda x: _plain(x, env)
    val = lambda x: env.get(x.id) if isinstance(x, ast.Name) else None
    if isinstance(e, (ast.Name, ast.Constant)): return True
    if isinstance(e, ast.Attribute): return isinstance(e.value, ast.Name)
    if isinstance(e, ast.Subscript): return isinstance(e.slice, ast.Constant) and isinstance(val(e.value), tuple)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
        if e.func.id == 'len': return len(e.args) == 1 and P(e.args[0])
        if e.func.id == 'hasattr': return len(e.args) == 2 and isinstance(e.args[0], ast.Name) and isinstance(e.args[1], ast.Constant)
        return False
    if isinstance(e, ast.Compare):
        if len(e.ops) != 1 or not P(e.left): return False
        if isinstance(e.ops[0], (ast.In, ast.NotIn)): return isinstance(val(e.comparators[0]), SymSet)
        return P(e.comparators[0])
    if isinstance(e, ast.BinOp): return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and P(e.left) and P(e.right)
    if isinstance(e, ast.UnaryOp): return isinstance(e.op, ast.Not) and P(e.operand)
    if isinstance(e, ast.BoolOp): return all(map(P, e.values))
    return False
class Interp:
    PyRaise = PyRaise
    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.np = nplib.NP(self)
        self.cx = Ctx(); self.iters = []
        self.contracts = {}       # qualname -> f(I, args, kwargs)
        self.loop_specs = {}      # qualname -> list of LoopSpec
        self.lib = {}
        self.obls = []
        self.inlined = set()
        self.assumed = set()
        self.stack = []
        self.foralls = []
        self.raw_obls = {}
        self.divs = None
        self.depth = 0
        self.safety_on = True
        self.calls = []
        self.deadline = None
        from . import lib
        lib.install(self)

    # ---------------- solver interface
    def assume(self, f):
        f = Zb(f)
        if z3.is_true(f): return
        self.cx.pc.append(f)
    def sat(self, extra=(), timeout=None):
        return check_sat(self.cx.pc + list(extra), timeout or self.branch_timeout, mbqi=self.branch_mbqi)[0]
    def entails(self, g, timeout=1000):
        g = simp(Zb(g))
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        key = (g.get_id(), tuple(p.get_id() for p in self.cx.pc))
        c = self._ent.get(key) if hasattr(self, '_ent') else None
        if not hasattr(self, '_ent'): self._ent = {}
        if c is not None: return c
        r = check_sat(self.cx.pc + [z3.Not(g)], min(timeout, 200) if self.dry else timeout)[0] == 'unsat'
        if self.dry and not r: return r
        self._ent[key] = r; core._KEEP.append((g, list(self.cx.pc)))
        return r
    branch_timeout = 1500; branch_mbqi = True
    ob_timeout = 8000
    dry = 0           # > 0 while a loop body is explored only to find out what it changes
    iters = ()        # iteration variables of the loops being summarised
    complete = True
    ob_tries = ((0, True), (1, False))       # portfolio of (seed, model-based quantifier instantiation)
    def oblige(self, name, goal, kind='post', timeout=None):
        if self.dry: return True
        timeout = timeout or self.ob_timeout
        goal = simp(Zb(goal))
        if z3.is_true(goal): st, info = 'proved', None
        else:
            key = (goal.get_id(), tuple(p.get_id() for p in self.cx.pc))
            if key in self.raw_obls: return self.raw_obls[key]
            for seed, mbqi in self.ob_tries:
                r, m = check_sat(self.cx.pc + [z3.Not(goal)], timeout, seed=seed, mbqi=mbqi)
                if r != 'unknown' and not (r == 'sat' and not mbqi): break
                r = 'unknown'
            st = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]
            info = None
            be = 'z3'
            if st == 'unknown':
                r2 = check_cvc5(self.cx.pc + [z3.Not(goal)], timeout)
                if r2 == 'unsat': st = 'proved'; be = 'cvc5'
                elif r2 == 'sat': info = 'cvc5: sat'; st = 'refuted'
            if st == 'refuted' and (self.cx.weak or not self.complete): st = 'unknown'
            if st == 'refuted':
                forms = self.cx.pc + [z3.Not(goal)]; m = num.refuted(forms, m)
                if m is None: st = 'unknown'
            if st == 'refuted': info = {'goal': str(goal)[:500], 'model': str(m)[:1500], 'pc': [str(p)[:150] for p in self.cx.pc[-12:]]}
            elif st == 'unknown': info = {'goal': str(goal)[:500], 'solver': 'unknown/timeout'}
            self.raw_obls[key] = st == 'proved'; core._KEEP.append((goal, list(self.cx.pc)))
            self.obls.append(Obligation(name, kind, st, info, be))
            return st == 'proved'
        self.obls.append(Obligation(name, kind, st, info))
        return True
    def record(self, name, ok, kind='post', info=None, backend='ring+z3'):
        """ok: True proved / False refuted / None unknown"""
        if self.dry: return ok is True
        if ok is False and self.cx.weak: ok = None
        self.obls.append(Obligation(name, kind, {True: 'proved', False: 'refuted', None: 'unknown'}[ok], info, backend))
        return ok is True
    def safety(self, name, goal, need=False):
        if not self.safety_on: return
        q = self.stack[-1] if self.stack else ''
        self.oblige('%s: %s' % (q, name), goal, kind='safety', timeout=3000)

    def branch(self, cond):
        cond = scalar_of(cond)
        c = concrete(cond)
        if c is not None: return bool(c)
        cond = simp(Zb(cond))
        c = concrete(cond)
        if c is not None: return bool(c)
        cx = self.cx
        if cx.pos < len(cx.decisions):
            d = cx.decisions[cx.pos]; cx.pos += 1
            if d[1] is not None: cx.pc.append(cond if d[0] else z3.Not(cond))
            return d[0]
        rt = check_sat(cx.pc + [cond], self.branch_timeout, mbqi=self.branch_mbqi)[0]
        if rt == 'unsat':
            self._dec(False, 'f'); cx.pc.append(z3.Not(cond)); return False
        rf = check_sat(cx.pc + [z3.Not(cond)], self.branch_timeout, mbqi=self.branch_mbqi)[0]
        if rf == 'unsat':
            self._dec(True, 'f'); cx.pc.append(cond); return True
        cx.alts.append(cx.decisions[:cx.pos] + [(False, 'c')])
        self._dec(True, 'c'); cx.pc.append(cond)
        return True
    def choose(self):
        """nondeterministic boolean"""
        cx = self.cx
        if cx.pos < len(cx.decisions):
            d = cx.decisions[cx.pos]; cx.pos += 1; return d[0]
        cx.alts.append(cx.decisions[:cx.pos] + [(False, None)])
        self._dec(True, None)
        return True
    def _dec(self, v, k):
        self.cx.decisions.append((v, k)); self.cx.pos += 1
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')

    def explore(self, run, pc=(), maxpaths=MAXPATHS):
        """run(): executes one path; yields list of (pc, outcome) ; outcome ('ret',v)|('raise',PyRaise)|('end',None)"""
        stack = [[]]; out = []
        saved = self.cx
        n = 0
        while stack:
            pre = stack.pop(); n += 1
            if n > maxpaths: raise Unsupported('too many paths')
            self.cx = Ctx(pre, pc, saved)
            try:
                try: o = ('ret', run())
                except PathEnd: o = ('end', None)
                except PyRaise as e: e.weak = self.cx.weak; o = ('raise', e)
                stack.extend(reversed(self.cx.alts))
                out.append((list(self.cx.pc), o))
            finally:
                self.cx = saved
        return out

    # ---------------- names
    def lookup_mod(self, m, name, seen=None):
        seen = seen or set()
        if (m.name, name) in seen: return None
        seen.add((m.name, name))
        if name in m.cache: return m.cache[name]
        r = None
        if name in m.defs:
            n = m.defs[name]
            r = ClassRef(name, n, m) if isinstance(n, ast.ClassDef) else FuncRef(n, m)
        elif name in m.imports:
            im = m.imports[name]
            if im[0] == 'mod': r = ModRef(im[1])
            else:
                mm = self.prog.module(im[1]) if im[1].startswith('lop') else None
                if mm is not None:
                    r = self.lookup_mod(mm, im[2], seen)
                    if r is None:
                        sub = self.prog.module(im[1] + '.' + im[2])
                        r = ModRef(im[1] + '.' + im[2]) if sub else None
                else:
                    r = self.libget(im[1] + '.' + im[2])
        elif name in m.assigns:
            r = self.eval(m.assigns[name], Env(None, m))
            if isinstance(r, (list, dict)): pass
        if r is None:
            for s in m.stars:
                mm = self.prog.module(s)
                if mm is not None:
                    r = self.lookup_mod(mm, name, seen)
                    if r is not None: break
        if r is not None: m.cache[name] = r
        return r
    def cls(self, modname, name):
        r = self.lookup_mod(self.prog.module(modname), name)
        if r is None: raise Unsupported('no %s in %s' % (name, modname))
        return r
    fn = cls
    def libget(self, full):
        full = _alias(full)
        if full in self.lib: 
            v = self.lib[full]
            return Builtin(full, v) if callable(v) and not isinstance(v, TypeRef) else v
        if any(k.startswith(full + '.') for k in self.lib): return ModRef(full)
        return Opaque(full)

    # ---------------- classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            v = self.eval(b, Env(None, c.module))
            if isinstance(v, ClassRef): out.append(v)
        return out
    def mro(self, c):
        # linearisation: depth-first, adequate for the single/multiple inheritance used
        def lin(c):
            seqs = [lin(b) for b in self.bases(c)] + [list(self.bases(c))]
            res = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(any(x.node is h.node for x in t[1:]) for t in seqs): break
                else: raise Unsupported('mro')
                res.append(h)
                seqs = [[x for x in s if x.node is not h.node] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        return lin(c)
    def issub(self, c, d): return any(x.node is d.node for x in self.mro(c))
    def find_method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            k = [i for i, x in enumerate(ms) if x.node is after.node]
            ms = ms[k[0]+1:]
        for x in ms:
            r = None
            for s in x.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name: r = s      # last definition wins
            if r is not None:
                st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in r.decorator_list)
                pr = any(isinstance(d, ast.Name) and d.id == 'property' for d in r.decorator_list)
                f = FuncRef(r, x.module, x, static=st); f.prop = pr
                return f
            for s in x.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return ('val', self.eval(s.value, Env(None, x.module)))
        return None

    def new(self, c, *args, **kw):
        o = Obj(c)
        f = self.find_method(c, '__init__')
        if f: self.call(Bound(f, o), list(args), kw)
        elif args or kw: raise PyRaise('TypeError', '__init__ args')
        return o

    # ---------------- attribute access
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                if type(o.attrs[name]).__name__ == 'Poison': raise Unsupported('%s depends on the loop that computed it' % name)
                return o.attrs[name]
            if o.cls is not None:
                f = self.find_method(o.cls, name)
                if isinstance(f, tuple): return f[1]
                if f is not None:
                    if getattr(f, 'prop', False): return self.call(Bound(f, o), [], {})
                    return f if f.static else Bound(f, o)
            if o.cls is None: raise Unsupported('attribute %s of a specification stub' % name)
            raise PyRaise('AttributeError', name)
        if isinstance(o, ModRef):
            m = self.prog.module(o.name) if o.name.startswith('lop') else None
            if m is not None:
                r = self.lookup_mod(m, name)
                if r is None: raise PyRaise('AttributeError', name)
                return r
            r = self.libget(o.name + '.' + name)
            return r
        if isinstance(o, ClassRef):
            f = self.find_method(o, name)
            if isinstance(f, tuple): return f[1]
            if f is None: raise PyRaise('AttributeError', name)
            return f
        if isinstance(o, SuperRef):
            f = self.find_method(o.obj.cls, name, after=o.cls)
            if f is None:
                if name == '__init__': return Builtin('object.__init__', lambda I, a, k: None)
                raise PyRaise('AttributeError', name)
            if isinstance(f, tuple): return f[1]
            return Bound(f, o.obj)
        if isinstance(o, Opaque):
            return self.libget(o.name + '.' + name) if '.' in o.name or o.name in ('numpy',) else Opaque(o.name + '.' + name)
        if isinstance(o, Builtin) and o.name + '.' + name in self.lib: return self.libget(o.name + '.' + name)
        from . import lib
        return lib.val_attr(self, o, name)
    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if getattr(o, 'on_set', None): o.on_set(name, v)
            o.attrs[name] = v
        else: raise Unsupported('setattr on %r' % (o,))

    # ---------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Builtin): return f.f(self, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.fn, Builtin): return f.fn.f(self, [f.self_] + args, kw)
            return self.call_func(f.fn, [f.self_] + args, kw, virt=f.self_)
        if isinstance(f, FuncRef): return self.call_func(f, args, kw)
        if isinstance(f, ClassRef):
            h = self.contracts.get(f.name)
            if h is not None: return h(self, args, kw)
            return self.new(f, *args, **kw)
        if isinstance(f, Obj):
            m = self.find_method(f.cls, '__call__') if f.cls else None
            if '__call__' in f.attrs: return self.call(f.attrs['__call__'], args, kw)
            if m is None: raise PyRaise('TypeError', 'not callable')
            return self.call_func(m, [f] + args, kw, virt=f)
        if isinstance(f, TypeRef):
            from . import lib
            return lib.call_type(self, f, args, kw)
        if isinstance(f, Opaque):
            raise Unsupported('call of %s' % f.name)
        if callable(f) and not is_z(f): return f(self, args, kw)
        if f is None: raise PyRaise('TypeError', 'NoneType not callable')
        if isinstance(f, SuperRef):
            raise PyRaise('TypeError', "'super' object is not callable")
        raise Unsupported('call of %r' % (f,))
    def call_func(self, f, args, kw, virt=None):
        q = f.qual
        for key in (([f.cls.name + '.' + f.name] if f.cls else []) + ([virt.cls.name + '.' + f.name] if virt is not None and isinstance(virt, Obj) and virt.cls else []) + [f.module.name + ':' + q, q]):
            h = self.contracts.get(key)
            if h is not None and not (self.stack and self.stack[0] == q and len(self.stack) == 0):
                return h(self, args, kw)
        return self.inline(f, args, kw)
    def inline(self, f, args, kw):
        if self.depth > 40: raise Unsupported('call depth')
        env = self.bind(f, args, kw)
        self.inlined.add((f.module.name, f.qual, f.node.lineno if hasattr(f.node, 'lineno') else 0))
        self.depth += 1; self.stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda): return self.eval(f.node.body, env)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)): raise Unsupported('generator')
            try:
                self.block(f.node.body, env)
            except _Ret as r: return r.v
            return None
        finally:
            self.depth -= 1; self.stack.pop()
    def bind(self, f, args, kw):
        a = f.node.args
        env = Env(f.closure, f.module); env.func = f
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kw = dict(kw)
        vals = {}
        for n, v in zip(names, args): vals[n] = v
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise('TypeError', 'too many arguments to ' + f.qual)
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: vals[a.vararg.arg] = ()
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in allnames:
                if k in vals: raise PyRaise('TypeError', 'multiple values for ' + k)
                vals[k] = kw.pop(k)
        if kw:
            if a.kwarg is None: raise PyRaise('TypeError', 'unexpected keyword %s' % list(kw))
            vals[a.kwarg.arg] = kw
        elif a.kwarg is not None: vals[a.kwarg.arg] = {}
        nd = len(a.defaults)
        for n, d in zip(names[len(names)-nd:], a.defaults):
            if n not in vals: vals[n] = self.eval(d, Env(f.closure, f.module))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals and d is not None: vals[x.arg] = self.eval(d, Env(f.closure, f.module))
        for n in allnames:
            if n not in vals: raise PyRaise('TypeError', 'missing argument %s of %s' % (n, f.qual))
        env.vars.update(vals)
        return env

    # ---------------- statements
    def block(self, body, env):
        for s in body: self.stmt(s, env)
    def stmt(self, s, env):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')
        if hasattr(s, 'run'): return s.run()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s (line %d)' % (type(s).__name__, s.lineno))
        return m(s, env)
    def s_Pass(self, s, env): pass
    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value, env)
    def s_Return(self, s, env): raise _Ret(self.eval(s.value, env) if s.value is not None else None)
    def s_Break(self, s, env): raise _Brk()
    def s_Continue(self, s, env): raise _Cont()
    def s_Import(self, s, env):
        for a in s.names: env.vars[a.asname or a.name.split('.')[0]] = ModRef(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, s, env):
        for a in s.names:
            mm = self.prog.module(s.module) if s.module and s.module.startswith('lop') else None
            env.vars[a.asname or a.name] = self.lookup_mod(mm, a.name) if mm else self.libget(s.module + '.' + a.name)
    def s_FunctionDef(self, s, env): env.vars[s.name] = FuncRef(s, env.module, closure=env)
    def s_Global(self, s, env): raise Unsupported('global')
    def s_Assert(self, s, env):
        if not self.branch(self.truth(self.eval(s.test, env))): raise PyRaise('AssertionError')
    def s_Raise(self, s, env):
        if s.exc is None: raise PyRaise('Exception', 're-raise')
        e = s.exc
        nm = e.func if isinstance(e, ast.Call) else e
        if isinstance(nm, ast.Name):
            raise PyRaise(nm.id, 'line %d' % s.lineno)
        raise PyRaise('Exception')
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o, k = self.eval(t.value, env), concrete(self.eval(t.slice, env))
                if type(o) is not list or not isinstance(k, int): raise Unsupported('del')
                if not -len(o) <= k < len(o): raise PyRaise('IndexError', 'del')
                self.eval(ast.copy_location(ast.fix_missing_locations(ast.Call(func=ast.Attribute(value=t.value, attr='pop', ctx=ast.Load()), args=[ast.Constant(k)], keywords=[])), t), env)
            else: raise Unsupported('del')
    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.eval(s.value, env), env)
    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(h.type, e):
                        if h.name: env.vars[h.name] = Opaque('exc')
                        self.block(h.body, env); break
                else: raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)
    def exc_match(self, t, e):
        names = [x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?') for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        sup = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'LinAlgError': ['ValueError'], 'ZeroDivisionError': ['ArithmeticError'], 'NotImplementedError': ['RuntimeError'], 'UnboundLocalError': ['NameError']}
        return any(n in ('Exception', 'BaseException', e.name) or n in sup.get(e.name, []) for n in names)
    def s_With(self, s, env):
        raise Unsupported('with')
    def s_If(self, s, env):
        c = self.truth(self.eval(s.test, env))
        self.block(s.body if self.branch(c) else s.orelse, env)
    def s_While(self, s, env):
        from . import loops
        loops.do_while(self, s, env)
    def s_For(self, s, env):
        from . import loops
        loops.do_for(self, s, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env.vars[t.id] = v
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env); k = self.key(t.slice, env)
            self.setitem(o, k, v)
        else: raise Unsupported('assign target')
    def unpack(self, v, n):
        if isinstance(v, (list, tuple)):
            if len(v) != n: raise PyRaise('ValueError', 'unpack')
            return list(v)
        if isinstance(v, NDArray):
            d = v.shape[0]
            if isinstance(d, int):
                if d != n: raise PyRaise('ValueError', 'unpack')
                return [self.np.getitem(v, (z3.IntVal(i),)) for i in range(n)]
            raise Unsupported('unpack of symbolic length')
        raise Unsupported('unpack %r' % (v,))
    def s_AugAssign(self, s, env):
        op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%', ast.BitOr: '|', ast.BitAnd: '&', ast.MatMult: '@'}[type(s.op)]
        t = s.target
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, env); k = self.key(t.slice, env)
            v = self.eval(s.value, env)
            if isinstance(o, NDArray) and op in '+-*/':
                self.np.setitem(o, k, v, op)
            else:
                self.setitem(o, k, self.binop(op, self.getitem(o, k), v))
            return
        if isinstance(t, ast.Attribute):
            ob = self.eval(t.value, env); old = self.getattr(ob, t.attr)
        else: ob, old = None, self.eval(t, env)
        v = self.eval(s.value, env)
        if isinstance(old, NDArray) and old.ndim > 0 and op != '@':
            r = self.np.arr(self.binop(op, old, v))
            if len(r.shape) != old.ndim or not all(self.np.same_dim(a, b) for a, b in zip(r.shape, old.shape)): raise PyRaise('ValueError', 'in-place broadcast')
            if old.dtype != r.dtype and not (old.dtype == 'real'): raise PyRaise('TypeError', 'in-place cast')
            if op in '+-*/' and old.log is not None: self.np.setitem(old, (('slice', None, None, None),)*old.ndim, v, op); return
            if old.log is not None: old.log.append(('other',))
            old.set_fn(r.snapshot().at)
            return
        if isinstance(old, list) and op == '+':
            r = old
            from . import lib
            x = lib.iter_concrete(self, v)
            if x is None:
                from . import loops
                B = lib.as_symlist(self, v); A = lib.as_symlist(self, list(old)); na = A.n
                r = SymList(na + Zr(B.n) if na else B.n, lambda i: lib.val_ite(self, simp(Zr(i) < na), lambda: A.elem(i), lambda: B.elem(simp(Zr(i) - na))) if na else B.elem(i))
                loops.replace_refs(env, old, r)
                old[:] = [loops.Poison('moved list')]; return
            old.extend(x); return
        if isinstance(old, SymList) and op == '+' and isinstance(v, (list, tuple, SymList, NDArray, Range)) and not (isinstance(v, (list, tuple)) and not v):
            from . import lib
            B = lib.as_symlist(self, v); n0, e0 = old.n, old.elem; bn, be = B.n, B.elem
            if old.log is not None: old.log.append(('appendmany', bn, be))
            old.n = simp(Zr(n0) + Zr(bn)); old.elem = lambda i: lib.val_ite(self, simp(Zr(i) < Zr(n0)), lambda: e0(i), lambda: be(simp(Zr(i) - Zr(n0)))); return
        if isinstance(old, (set, SymSet)) and op in '|&-' and isinstance(old, SymSet):
            r = self.binop(op, old, v); old.arr = r.arr; return
        r = self.binop(op, old, v)
        if ob is not None: self.setattr(ob, t.attr, r)
        else: env.set(t.id, r)

    # ---------------- expressions
    def key(self, n, env):
        if isinstance(n, ast.Tuple): return tuple(self.key1(e, env) for e in n.elts)
        return self.key1(n, env)
    def key1(self, n, env):
        if isinstance(n, ast.Slice):
            f = lambda x: self.eval(x, env) if x is not None else None
            return ('slice', f(n.lower), f(n.upper), f(n.step))
        return self.eval(n, env)
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s (line %d)' % (type(e).__name__, e.lineno))
        return m(e, env)
    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env):
        v = env.get(e.id)
        if type(v).__name__ == 'Poison': raise Unsupported('%s depends on the loop that computed it' % e.id)
        if v is not None or env.has(e.id): return v
        if env.module is not None:
            r = self.lookup_mod(env.module, e.id)
            if r is not None: return r
        from . import lib
        if e.id in lib.BUILTINS: return lib.BUILTINS[e.id]
        if env.func is not None and e.id in _locals(env.func.node): raise PyRaise('UnboundLocalError', e.id)
        if hasattr(_b, e.id): raise Unsupported('builtin %s' % e.id)
        raise PyRaise('NameError', e.id)
    def e_Attribute(self, e, env): return self.getattr(self.eval(e.value, env), e.attr)
    def e_Tuple(self, e, env): return tuple(self.elts(e, env))
    def e_List(self, e, env): return self.elts(e, env)
    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                from . import lib
                c = lib.iter_concrete(self, self.eval(x.value, env))
                if c is None: raise Unsupported('starred symbolic')
                out += list(c)
            else: out.append(self.eval(x, env))
        return out
    def e_Set(self, e, env):
        from . import lib
        return lib.make_set(self, self.elts(e, env))
    def e_Dict(self, e, env):
        return {self.hashable(self.eval(k, env)): self.eval(v, env) for k, v in zip(e.keys, e.values)}
    def hashable(self, k):
        c = concrete(k)
        if c is not None: return c
        if isinstance(k, (str, tuple)) or k is None: return k
        raise Unsupported('symbolic dict key')
    def e_JoinedStr(self, e, env): return '<fstr>'
    def e_IfExp(self, e, env):
        return self.eval(e.body if self.branch(self.truth(self.eval(e.test, env))) else e.orelse, env)
    def e_Lambda(self, e, env): return FuncRef(e, env.module, closure=env)
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        if all(_plain(x, env) for x in e.values[1:]):
            # operands that cannot fail and change nothing: one condition instead of one path per operand
            v00 = self.eval(e.values[0], env); v0 = scalar_of(v00); fs = []
            for x in [None] + e.values[1:]:
                if x is not None:
                    try: v0 = scalar_of(self.eval(x, env))
                    except (PyRaise, Unsupported): fs = None; break
                c = concrete(v0)
                if isinstance(c, bool):
                    if c == isand: continue
                    if len(fs) == 0 or x is not None: return c
                if not is_sym_bool(v0): fs = None; break
                fs.append(v0)
            if fs is not None:
                return simp(z3.And(*fs) if isand else z3.Or(*fs)) if fs else isand
            first = (v00,)
        else: first = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env) if i or first is None else first[0]
            if i == len(e.values) - 1: return v
            t = self.branch(self.truth(v))
            if t != isand: return v
        return v
    def e_UnaryOp(self, e, env):
        v = scalar_of(self.eval(e.operand, env))
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, NDArray): return self.np.ew(lambda x: -Zr(x), v.dtype, v)
            return -v if not is_z(v) else -Zr(v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, NDArray) and v.dtype == 'bool': return self.np.ew(lambda x: z3.Not(x), 'bool', v)
            raise Unsupported('~')
    def e_BinOp(self, e, env):
        op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%', ast.MatMult: '@', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}.get(type(e.op))
        return self.binop(op, self.eval(e.left, env), self.eval(e.right, env))
    def binop(self, op, a, b):
        from . import lib
        a, b = scalar_of(a), scalar_of(b)
        return lib.binop(self, op, a, b)
    def e_Compare(self, e, env):
        l = self.eval(e.left, env)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(c, env)
            v = self.compare(op, l, r)
            if i == len(e.ops) - 1 and res is None: return v
            if not self.branch(self.truth(v)): return False
            res = v; l = r
        return v
    def compare(self, op, a, b):
        from . import lib
        return lib.compare(self, op, scalar_of(a), scalar_of(b))
    def truth(self, v):
        from . import lib
        return lib.truth(self, scalar_of(v))
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args: return SuperRef(self.eval(e.args[0], env), self.eval(e.args[1], env))
            f = env.func
            en = env
            while (f is None or f.cls is None) and en.parent is not None: en = en.parent; f = en.func
            return SuperRef(f.cls, en.vars[f.node.args.args[0].arg])
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                from . import lib
                c = lib.iter_concrete(self, self.eval(a.value, env))
                if c is None: raise Unsupported('starred')
                args += list(c)
            else: args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict): raise Unsupported('**')
                kw.update(d)
            else: kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)
    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.key(e.slice, env))
    def getitem(self, o, k):
        from . import lib
        return lib.getitem(self, o, k)
    def setitem(self, o, k, v):
        from . import lib
        return lib.setitem(self, o, k, v)
    def e_ListComp(self, e, env):
        from . import loops
        return loops.comp(self, e, env)
    e_GeneratorExp = e_ListComp
    def e_SetComp(self, e, env):
        from . import loops, lib
        return lib.make_set(self, loops.comp(self, e, env))
    def e_DictComp(self, e, env):
        from . import loops
        return loops.dictcomp(self, e, env)

class SuperRef:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

class Env:
    def __init__(self, parent, module):
        self.parent, self.module = parent, module
        self.vars = {}; self.func = None
        if parent is not None: self.func = None
    def has(self, n): return n in self.vars or (self.parent is not None and self.parent.has(n))
    def get(self, n):
        if n in self.vars: return self.vars[n]
        if self.parent is not None: return self.parent.get(n)
        return None
    def set(self, n, v): self.vars[n] = v

_loc = {}
def _locals(node):
    if node not in _loc:
        _loc[node] = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return _loc[node]

_AL = {'np': 'numpy'}
def _alias(f):
    return f
